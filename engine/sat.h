// Bit-blasting to CNF and external solver invocation; SMT-LIB2 printing.
#pragma once
#include "term.h"
#include <unordered_set>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <poll.h>
#include <fcntl.h>
#include <string.h>
#include <sys/resource.h>

struct Blaster {
  Terms &tm; int nv=1; // var 1 = true
  std::vector<int> cls; long ncls=0; // flat, 0-terminated
  std::vector<std::vector<int>> bits; 
  Blaster(Terms &t):tm(t) { bits.resize(t.n.size()); add({1}); }
  void add(std::initializer_list<int> l) { for (int x:l) cls.push_back(x); cls.push_back(0); ncls++; }
  void addv(const std::vector<int>&l) { for (int x:l) cls.push_back(x); cls.push_back(0); ncls++; }
  int fresh(){ return ++nv; }
  static const int TR=1; 
  std::unordered_map<uint64_t,int> gate;
  int gAnd(int a,int b){ if(a==-TR||b==-TR||a==-b) return -TR; if(a==TR) return b; if(b==TR||a==b) return a; if(a>b) std::swap(a,b);
    uint64_t k=((uint64_t)(uint32_t)a<<32)|(uint32_t)b; auto it=gate.find(k); if(it!=gate.end()) return it->second;
    int o=fresh(); add({-o,a}); add({-o,b}); add({o,-a,-b}); gate[k]=o; return o; }
  int gOr(int a,int b){ return -gAnd(-a,-b); }
  std::unordered_map<uint64_t,int> xgate;
  int gXor(int a,int b){ if(a==TR) return -b; if(a==-TR) return b; if(b==TR) return -a; if(b==-TR) return a; if(a==b) return -TR; if(a==-b) return TR;
    int s=1; if(a<0){a=-a;s=-s;} if(b<0){b=-b;s=-s;} if(a>b) std::swap(a,b); uint64_t k=((uint64_t)(uint32_t)a<<32)|(uint32_t)b; auto it=xgate.find(k); if(it!=xgate.end()) return s*it->second;
    int o=fresh(); add({-o,a,b}); add({-o,-a,-b}); add({o,-a,b}); add({o,a,-b}); xgate[k]=o; return s*o; }
  struct K3{int a,b,c; bool operator==(const K3&o)const{return a==o.a&&b==o.b&&c==o.c;}}; struct H3{size_t operator()(const K3&k)const{ uint64_t h=(uint32_t)k.a*0x9E3779B97F4A7C15ull; h^=h>>29; h+=(uint32_t)k.b*0xC2B2AE3D27D4EB4Full; h^=h>>31; h+=(uint32_t)k.c*0x165667B19E3779F9ull; return h^(h>>30);} };
  std::unordered_map<K3,int,H3> mgate;
  int gMux(int c,int a,int b){ if(c==TR) return a; if(c==-TR) return b; if(a==b) return a; if(a==TR) return gOr(c,b); if(a==-TR) return gAnd(-c,b); if(b==TR) return gOr(-c,a); if(b==-TR) return gAnd(c,a); if(a==c) return gOr(c,b); if(a==-c) return gAnd(-c,b); if(b==c) return gAnd(c,a); if(b==-c) return gOr(-c,a); if(a==-b) return gXor(c,b);
    if(c<0){c=-c;std::swap(a,b);} K3 k{c,a,b}; auto it=mgate.find(k); if(it!=mgate.end()) return it->second;
    int o=fresh(); add({-o,-c,a}); add({-o,c,b}); add({o,-c,-a}); add({o,c,-b}); add({o,-a,-b}); add({-o,a,b}); mgate[k]=o; return o; }
  typedef std::vector<int> BV;
  int maj(int a,int b,int c){ return gOr(gAnd(a,b),gAnd(c,gOr(a,b))); }
  BV addc(const BV&a,const BV&b,int cin,int*cout=nullptr){ BV r; int c=cin; for(size_t i=0;i<a.size();i++){ int x=gXor(a[i],b[i]); r.push_back(gXor(x,c)); c=maj(a[i],b[i],c);} if(cout)*cout=c; return r; }
  BV neg(const BV&a){ BV x; for(int i:a) x.push_back(-i); BV z(a.size(),-TR); return addc(x,z,TR); }
  BV inv(const BV&a){ BV x; for(int i:a) x.push_back(-i); return x; }
  BV mux(int c,const BV&a,const BV&b){ BV r; for(size_t i=0;i<a.size();i++) r.push_back(gMux(c,a[i],b[i])); return r; }
  int ult(const BV&a,const BV&b){ int co; addc(a,inv(b),TR,&co); return -co; }
  int eq(const BV&a,const BV&b){ int r=TR; for(size_t i=0;i<a.size();i++) r=gAnd(r,-gXor(a[i],b[i])); return r; }
  BV mul(const BV&a,const BV&b){ size_t W=a.size(); BV r(W,-TR); for(size_t i=0;i<W;i++){ if(b[i]==-TR) continue; BV p(W,-TR); for(size_t j=i;j<W;j++) p[j]=gAnd(a[j-i],b[i]); r=addc(r,p,-TR);} return r; }
  void udivrem(const BV&a,const BV&b,BV&q,BV&r){ size_t W=a.size(); bool kc=true; int top=-1; for(size_t i=0;i<W;i++){ if(b[i]!=TR&&b[i]!=-TR) kc=false; else if(b[i]==TR) top=i; }
    if(kc&&top>=8){ size_t qw=W-top; q.assign(W,-TR); r.assign(W,-TR); for(size_t i=0;i<qw;i++) q[i]=fresh(); for(int i=0;i<=top;i++) r[i]=fresh(); /* constant divisor: the only q, r with q*b+r=a, r<b */
      BV Q=q,Bx=b,Rx=r,Ax=a; for(int i=0;i<2;i++){ Q.push_back(-TR); Bx.push_back(-TR); Rx.push_back(-TR); Ax.push_back(-TR); } BV s=addc(mul(Q,Bx),Rx,-TR); for(size_t i=0;i<s.size();i++){ add({-s[i],Ax[i]}); add({s[i],-Ax[i]}); } add({ult(r,b)}); return; } q.assign(W,-TR); BV R(W+1,-TR); BV B=b; B.push_back(-TR);
    for(int i=W-1;i>=0;i--){ for(int j=W;j>0;j--) R[j]=R[j-1]; R[0]=a[i]; int co; BV D=addc(R,inv(B),TR,&co); q[i]=co; R=mux(co,D,R);} r.assign(R.begin(),R.begin()+W); }
  BV shift(const BV&a,const BV&s,Op op){ size_t W=a.size(); BV r=a; int fill=op==ASHR?a[W-1]:-TR; int lg=0; while((1u<<lg)<W) lg++;
    for(int k=0;k<lg;k++){ BV t(W,fill); size_t d=1u<<k; for(size_t i=0;i<W;i++){ if(op==SHL){ t[i]= i>=d? r[i-d]:-TR; } else { t[i]= i+d<W? r[i+d]:fill; } } r=mux(s[k],t,r);} 
    int big=-TR; for(size_t k=lg;k<s.size();k++) big=gOr(big,s[k]); if ((W&(W-1))!=0) { BV wc; for(int i=0;i<(int)s.size();i++) wc.push_back((W>>i)&1?TR:-TR); big=gOr(big,-ult(s,wc)); } BV f(W,fill); return mux(big,f,r); }
  const BV &blast(T t0){
    if (bits.size()<tm.n.size()) bits.resize(tm.n.size());
    std::vector<T> st{t0};
    while(!st.empty()){ T t=st.back(); if(!bits[t].empty()){ st.pop_back(); continue; } Node q=tm.n[t]; BV r;
      if(q.op==CONST){ for(int i=0;i<q.w;i++) r.push_back((q.v>>i)&1?TR:-TR); }
      else if(q.op==VAR){ for(int i=0;i<q.w;i++) r.push_back(fresh()); }
      else { bool need=false; auto chk=[&](T x){ if(bits[x].empty()){ st.push_back(x); need=true; } };
        chk(q.a); if(q.op!=NOT&&q.op!=EXTRACT&&q.op!=ZEXT&&q.op!=SEXT) chk(q.b); if(q.op==ITE) chk(q.c); if(need) continue;
        const BV &a=bits[q.a]; 
        switch(q.op){
          case NOT: r=inv(a); break;
          case AND: { const BV&b=bits[q.b]; for(size_t i=0;i<a.size();i++) r.push_back(gAnd(a[i],b[i])); break; }
          case OR: { const BV&b=bits[q.b]; for(size_t i=0;i<a.size();i++) r.push_back(gOr(a[i],b[i])); break; }
          case XOR: { const BV&b=bits[q.b]; for(size_t i=0;i<a.size();i++) r.push_back(gXor(a[i],b[i])); break; }
          case ADD: r=addc(a,bits[q.b],-TR); break; case SUB: r=addc(a,inv(bits[q.b]),TR); break;
          case MUL: r=mul(a,bits[q.b]); break;
          case UDIV: case UREM: { BV x,y; udivrem(a,bits[q.b],x,y); r= q.op==UDIV?x:y; break; }
          case SDIV: case SREM: { BV b=bits[q.b]; int sa=a.back(), sb=b.back(); BV ua=mux(sa,neg(a),a), ub=mux(sb,neg(b),b); BV x,y; udivrem(ua,ub,x,y); if(q.op==SDIV) r=mux(gXor(sa,sb),neg(x),x); else r=mux(sa,neg(y),y); break; }
          case SHL: case LSHR: case ASHR: r=shift(a,bits[q.b],q.op); break;
          case EQ: r={eq(a,bits[q.b])}; break; case ULT: r={ult(a,bits[q.b])}; break;
          case SLT: { BV x=a,y=bits[q.b]; x.back()=-x.back(); y.back()=-y.back(); r={ult(x,y)}; break; }
          case ITE: r=mux(a[0],bits[q.b],bits[q.c]); break;
          case CONCAT: r=bits[q.b]; r.insert(r.end(),a.begin(),a.end()); break;
          case EXTRACT: r.assign(a.begin()+q.v,a.begin()+q.v+q.w); break;
          case ZEXT: r=a; r.resize(q.w,-TR); break; case SEXT: { r=a; int s=a.back(); r.resize(q.w,s); break; }
          default: abort(); } }
      bits[t]=r; st.pop_back(); }
    return bits[t0];
  }
  void assertT(T t){ addv({blast(t)[0]}); }
};

enum SolveRes { R_SAT, R_UNSAT, R_UNKNOWN };
struct Solver {
  std::string workdir; double timeout=300; std::string prog="kissat"; double totalTime=0; int queries=0; int lastVars=0; long lastClauses=0; int seq=0;
  static double now(){ timespec ts; clock_gettime(CLOCK_MONOTONIC,&ts); return ts.tv_sec+ts.tv_nsec*1e-9; }
  // returns result; on SAT fills varval indexed by VAR index
  SolveRes solve(Terms &tm, const std::vector<T> &asserts, std::vector<uint64_t> &varval, const std::string &tag) {
    queries++; 
    std::vector<T> as; for (T a:asserts) { if (a==tm.fls) return R_UNSAT; if (a!=tm.tru) as.push_back(a); }
    Blaster bl(tm); for (T a:as) bl.assertT(a);
    lastVars=bl.nv; lastClauses=bl.ncls;
    std::string f=workdir+"/q"+std::to_string(getpid())+"_"+std::to_string(seq++)+".cnf";
    FILE *fp=fopen(f.c_str(),"w"); if(!fp) return R_UNKNOWN; setvbuf(fp,nullptr,_IOFBF,1<<20); fprintf(fp,"p cnf %d %ld\n",bl.nv,bl.ncls);
    { std::string buf; buf.reserve(1<<20); char tmp[16]; for(int x:bl.cls){ int l=sprintf(tmp,x?"%d ":"%d\n",x); buf.append(tmp,l); if(buf.size()>(1<<20)-64){ fwrite(buf.data(),1,buf.size(),fp); buf.clear(); } } fwrite(buf.data(),1,buf.size(),fp); }
    if (fclose(fp)) return R_UNKNOWN;
    double t0=now(); int pfd[2]; if (pipe(pfd)) return R_UNKNOWN;
    pid_t p=fork(); if(p==0){ dup2(pfd[1],1); close(pfd[0]); int dn=open("/dev/null",O_WRONLY); dup2(dn,2); if (prog=="kissat") execlp("kissat","kissat","-q","--relaxed",f.c_str(),(char*)0); else execlp(prog.c_str(),prog.c_str(),"-q",f.c_str(),(char*)0); _exit(127);} close(pfd[1]);
    std::string out; char buf[65536]; bool to=false; for(;;){ double left=timeout-(now()-t0); if(left<=0){ to=true; break;} pollfd pf{pfd[0],POLLIN,0}; int r=poll(&pf,1,(int)(left*1000)+1); if(r==0){ to=true; break;} ssize_t k=read(pfd[0],buf,sizeof buf); if(k<=0) break; out.append(buf,k);} 
    if(to) kill(p,SIGKILL); close(pfd[0]); int st; waitpid(p,&st,0); unlink(f.c_str()); totalTime+=now()-t0;
    if(to) return R_UNKNOWN; if(out.find("s UNSATISFIABLE")!=std::string::npos) return R_UNSAT; if(out.find("s SATISFIABLE")==std::string::npos) return R_UNKNOWN;
    std::vector<int8_t> val(bl.nv+1,0); size_t pos=0; while(pos<out.size()){ size_t e=out.find('\n',pos); if(e==std::string::npos) e=out.size(); if(out[pos]=='v'){ char*s=&out[pos+1]; char*en=&out[0]+e; while(s<en){ long x=strtol(s,&s,10); if(x==0) break; if(labs(x)<=bl.nv) val[labs(x)]=x>0; while(s<en&&*s==' ') s++; } } pos=e+1; }
    varval.assign(tm.vars.size(),0); for(size_t i=0;i<tm.vars.size();i++){ T v=tm.vars[i]; if(v<bl.bits.size()&&!bl.bits[v].empty()){ uint64_t x=0; for(size_t b=0;b<bl.bits[v].size();b++) if(val[bl.bits[v][b]]) x|=1ull<<b; varval[i]=x; } }
    tm.mdone.assign(tm.n.size(),0); 
    for (T a:asserts) if (!tm.eval(a,varval)) { fprintf(stderr,"ENGINE: model does not satisfy assertion\n"); return R_UNKNOWN; }
    return R_SAT;
  }
  // SMT-LIB2 dump (bitvectors; width-1 as Bool-like bv1)
  static void dumpSmt(Terms &tm, const std::vector<T> &as, const std::string &fn) {
    FILE *fp=fopen(fn.c_str(),"w"); fprintf(fp,"(set-logic QF_BV)\n"); std::vector<uint8_t> done(tm.n.size(),0);
    auto ref=[&](T t){ Node&q=tm.n[t]; char b[64]; if(q.op==CONST) sprintf(b,"(_ bv%llu %d)",(unsigned long long)q.v,q.w); else sprintf(b,"t%u",t); return std::string(b); };
    for(T r:as){ std::vector<T> st{r}; while(!st.empty()){ T t=st.back(); if(done[t]){st.pop_back();continue;} Node q=tm.n[t]; if(q.op==CONST){done[t]=1;st.pop_back();continue;} if(q.op==VAR){ fprintf(fp,"(declare-const t%u (_ BitVec %d))\n",t,q.w); done[t]=1; st.pop_back(); continue; }
      bool need=false; auto chk=[&](T x){ if(!done[x]){st.push_back(x);need=true;} }; chk(q.a); if(q.op!=NOT&&q.op!=EXTRACT&&q.op!=ZEXT&&q.op!=SEXT) chk(q.b); if(q.op==ITE) chk(q.c); if(need) continue;
      fprintf(fp,"(define-fun t%u () (_ BitVec %d) ",t,q.w); std::string a=ref(q.a), b=q.b?ref(q.b):"";
      switch(q.op){ case EXTRACT: fprintf(fp,"((_ extract %d %d) %s)",(int)(q.v+q.w-1),(int)q.v,a.c_str()); break; case ZEXT: fprintf(fp,"((_ zero_extend %d) %s)",q.w-tm.w(q.a),a.c_str()); break; case SEXT: fprintf(fp,"((_ sign_extend %d) %s)",q.w-tm.w(q.a),a.c_str()); break;
        case NOT: fprintf(fp,"(bvnot %s)",a.c_str()); break; case ITE: fprintf(fp,"(ite (= %s #b1) %s %s)",a.c_str(),b.c_str(),ref(q.c).c_str()); break; case EQ: case ULT: case SLT: fprintf(fp,"(ite (%s %s %s) #b1 #b0)",opname[q.op],a.c_str(),b.c_str()); break; default: fprintf(fp,"(%s %s %s)",opname[q.op],a.c_str(),b.c_str()); }
      fprintf(fp,")\n"); done[t]=1; st.pop_back(); } fprintf(fp,"(assert (= %s #b1))\n",ref(r).c_str()); }
    fprintf(fp,"(check-sat)\n(get-model)\n"); fclose(fp);
  }
};
