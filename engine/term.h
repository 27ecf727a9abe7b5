// Hash-consed bit-vector terms (width <= 64) with simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <algorithm>
typedef uint32_t T;
enum Op : uint8_t { CONST, VAR, NOT, AND, XOR, OR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, EQ, ULT, SLT, ITE, CONCAT, EXTRACT, ZEXT, SEXT };
static const char *opname[] = {"const","var","bvnot","bvand","bvxor","bvor","bvadd","bvsub","bvmul","bvudiv","bvsdiv","bvurem","bvsrem","bvshl","bvlshr","bvashr","=","bvult","bvslt","ite","concat","extract","zext","sext"};
struct Node { Op op; uint8_t w; T a, b, c; uint64_t v; };
struct NodeKey { uint64_t x, y, z; bool operator==(const NodeKey &o) const { return x==o.x&&y==o.y&&z==o.z; } };
struct NodeHash { size_t operator()(const NodeKey &k) const { uint64_t h = k.x*0x9E3779B97F4A7C15ull; h ^= (h>>29); h += k.y*0xC2B2AE3D27D4EB4Full; h ^= (h>>31); h += k.z*0x165667B19E3779F9ull; h ^= h>>30; return h; } };

struct Terms {
  std::vector<Node> n;
  std::unordered_map<NodeKey, T, NodeHash> tab;
  std::unordered_map<NodeKey, T, NodeHash> opcache;
  std::vector<std::vector<T>> impl_;      // implied literals of bool nodes
  std::vector<uint8_t> implDone;
  struct Leaves { std::vector<uint64_t> v; bool nonconst=false; bool done=false; bool over=false; };
  std::vector<Leaves> lv;
  std::vector<std::string> varname; std::vector<T> vars;
  T tru, fls;
  static const size_t IMPLCAP = 512, LEAFCAP = 64;
  static uint64_t mask(int w) { return w>=64 ? ~0ull : ((1ull<<w)-1); }
  static int64_t sx(uint64_t v, int w) { if (w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v&=mask(w); return (int64_t)((v^m)-m); }
  Terms() { n.push_back({CONST,0,0,0,0,0}); lv.emplace_back(); impl_.emplace_back(); implDone.push_back(1); fls = cst(1,0); tru = cst(1,1); }
  T raw(Op op, int w, T a, T b, T c, uint64_t v) {
    NodeKey k{ ((uint64_t)op<<56)|((uint64_t)w<<48)|a, ((uint64_t)b<<32)|c, v };
    auto it = tab.find(k); if (it!=tab.end()) return it->second;
    T id = n.size(); n.push_back({op,(uint8_t)w,a,b,c,v}); lv.emplace_back(); impl_.emplace_back(); implDone.push_back(0); tab[k]=id; return id;
  }
  T cst(int w, uint64_t v) { return raw(CONST,w,0,0,0,v&mask(w)); }
  T boolc(bool b) { return b?tru:fls; }
  T var(int w, const std::string &name) { T t = raw(VAR,w,0,0,0,vars.size()); vars.push_back(t); varname.push_back(name); return t; }
  bool isC(T t) const { return n[t].op==CONST; }
  bool isC(T t, uint64_t v) const { return n[t].op==CONST && n[t].v==v; }
  int w(T t) const { return n[t].w; }
  const Leaves &leaves(T t) {
    if (lv[t].done) return lv[t];
    // iterative over ITE chains
    std::vector<T> st{t};
    while (!st.empty()) {
      T x = st.back(); if (lv[x].done) { st.pop_back(); continue; }
      Node &q = n[x];
      if (q.op==CONST) { lv[x].v={q.v}; lv[x].done=true; st.pop_back(); continue; }
      if (q.op!=ITE) { lv[x].nonconst=true; lv[x].done=true; st.pop_back(); continue; }
      bool need=false;
      if (!lv[q.b].done) { st.push_back(q.b); need=true; }
      if (!lv[q.c].done) { st.push_back(q.c); need=true; }
      if (need) continue;
      std::vector<uint64_t> r; std::set_union(lv[q.b].v.begin(),lv[q.b].v.end(),lv[q.c].v.begin(),lv[q.c].v.end(),std::back_inserter(r));
      lv[x].nonconst = lv[q.b].nonconst||lv[q.c].nonconst;
      if (r.size()>LEAFCAP||lv[q.b].over||lv[q.c].over) { r.clear(); lv[x].nonconst=true; lv[x].over=true; }
      lv[x].v.swap(r); lv[x].done=true; st.pop_back();
    }
    return lv[t];
  }
  // complete leaf set, also of terms with more than LEAFCAP constant leaves
  Leaves full(T t) {
    const Leaves &L=leaves(t); if (!L.over) return L;
    Leaves r; r.done=true; std::vector<T> st{t}; std::unordered_map<T,bool> vis;
    while(!st.empty()) { T x=st.back(); st.pop_back(); if (vis.count(x)) continue; vis[x]=true; Node q=n[x];
      if (q.op==CONST) r.v.push_back(q.v); else if (q.op==ITE) { st.push_back(q.b); st.push_back(q.c); } else r.nonconst=true; }
    std::sort(r.v.begin(),r.v.end()); r.v.erase(std::unique(r.v.begin(),r.v.end()),r.v.end()); return r; }
  bool pure(T t) { if (n[t].op==CONST) return true; if (n[t].op!=ITE) return false; return !leaves(t).nonconst; }
  // ---- implied literals -------------------------------------------------
  const std::vector<T> &impl(T t) {
    if (implDone[t]) return impl_[t];
    implDone[t]=1; std::vector<T> r; Node q = n[t];
    auto uni=[&](const std::vector<T>&x,const std::vector<T>&y){ std::vector<T> o; std::set_union(x.begin(),x.end(),y.begin(),y.end(),std::back_inserter(o)); return o; };
    auto inter=[&](const std::vector<T>&x,const std::vector<T>&y){ std::vector<T> o; std::set_intersection(x.begin(),x.end(),y.begin(),y.end(),std::back_inserter(o)); return o; };
    auto add=[&](std::vector<T>&x, T y){ auto it=std::lower_bound(x.begin(),x.end(),y); if (it==x.end()||*it!=y) x.insert(it,y); };
    if (q.op==AND) { std::vector<T> x=impl(q.a), y=impl(q.b); r = uni(x,y); }
    else if (q.op==NOT && n[q.a].op==AND) { T x=n[q.a].a,y=n[q.a].b; std::vector<T> xi=impl(mkNot(x)), yi=impl(mkNot(y)); r=inter(xi,yi); }
    else if (q.op==ITE) { std::vector<T> x=impl(q.b); add(x,q.a); for (T z:impl(q.a)) add(x,z); std::vector<T> y=impl(q.c); T nc=mkNot(q.a); add(y,nc); for (T z:impl(nc)) add(y,z); r=inter(x,y); }
    else if (q.op==NOT && n[q.a].op==ITE) { Node i=n[q.a]; std::vector<T> x=impl(mkNot(i.b)); add(x,i.a); for (T z:impl(i.a)) add(x,z); std::vector<T> y=impl(mkNot(i.c)); T nc=mkNot(i.a); add(y,nc); for (T z:impl(nc)) add(y,z); r=inter(x,y); }
    if (r.size()>IMPLCAP) r.erase(r.begin(), r.begin()+(r.size()-IMPLCAP));
    add(r,t);
    impl_[t].swap(r); return impl_[t];
  }
  bool implies(T a, T lit) { const auto &v=impl(a); return std::binary_search(v.begin(),v.end(),lit); }
  bool contradict(T a, T b) {
    const std::vector<T> *x=&impl(a); std::vector<T> tmp; // impl(b) may realloc impl_
    impl(b); x=&impl_[a]; const std::vector<T> *y=&impl_[b];
    if (x->size()>y->size()) std::swap(x,y);
    size_t sz=x->size();
    for (size_t i=0;i<sz;i++) { T l=(*x)[i]; T nl; if (n[l].op==NOT) nl=n[l].a; else { auto it=tab.find(NodeKey{((uint64_t)NOT<<56)|(1ull<<48)|l,0,0}); if (it==tab.end()) continue; nl=it->second; }
      if (std::binary_search(y->begin(),y->end(),nl)) return true; }
    return false;
  }
  // ---- booleans -----------------------------------------------------------
  T mkNot(T a) {
    Node &q=n[a];
    if (q.op==CONST) return cst(q.w,~q.v);
    if (q.op==NOT) return q.a;
    if (q.w>1 && pure(a)) return mapUn(NOT,a,q.w,0);
    return raw(NOT,q.w,a,0,0,0);
  }
  T mkAnd(T a, T b) { // width 1
    if (a==b) return a; if (a==fls||b==fls) return fls; if (a==tru) return b; if (b==tru) return a;
    if (a>b) std::swap(a,b);
    NodeKey k{((uint64_t)AND<<56)|a, b, 1}; auto it=opcache.find(k); if (it!=opcache.end()) return it->second;
    T r = mkAnd1(a,b); opcache[k]=r; return r;
  }
  T mkAnd1(T a, T b) {
    if (contradict(a,b)) return fls;
    if (implies(a,b)) return a; if (implies(b,a)) return b;
    for (int s=0;s<2;s++) { T x=s?b:a, y=s?a:b; // simplify y under x
      Node q=n[y];
      if (q.op==NOT && n[q.a].op==AND) { T u=n[q.a].a, v=n[q.a].b; // y = !u | !v
        if (implies(x,u)) return mkAnd(x,mkNot(v)); if (implies(x,v)) return mkAnd(x,mkNot(u));
        if (implies(x,mkNot(u))||implies(x,mkNot(v))) return x; }
      if (q.op==ITE) { if (implies(x,q.a)) return mkAnd(x,q.b); if (implies(x,mkNot(q.a))) return mkAnd(x,q.c); }
      if (q.op==NOT && n[q.a].op==ITE) { Node i=n[q.a]; if (implies(x,i.a)) return mkAnd(x,mkNot(i.b)); if (implies(x,mkNot(i.a))) return mkAnd(x,mkNot(i.c)); }
    }
    // (p | q) & (p | !q) = p
    { Node x=n[a], y=n[b]; if (x.op==NOT&&y.op==NOT&&n[x.a].op==AND&&n[y.a].op==AND) { T p1=n[x.a].a,q1=n[x.a].b,p2=n[y.a].a,q2=n[y.a].b;
        if (p1==p2&&q1==mkNot(q2)) return mkNot(p1); if (q1==q2&&p1==mkNot(p2)) return mkNot(q1); if (p1==q2&&q1==mkNot(p2)) return mkNot(p1); if (q1==p2&&p1==mkNot(q2)) return mkNot(q1); } }
    return raw(AND,1,a,b,0,0);
  }
  T mkOr(T a, T b) { return mkNot(mkAnd(mkNot(a),mkNot(b))); }
  T simpUnder(T v, T g) { // follow ITE decisions already implied by g
    for (int i=0;i<10000;i++) { Node &q=n[v]; if (q.op!=ITE) break; T c=q.a, x=q.b, y=q.c;
      if (implies(g,c)) v=x; else if (contradict(g,c)) v=y; else if (contradict(g,mkNot(c))) v=x; else break; }
    return v;
  }
  T mkIte(T c, T a, T b) {
    if (c==tru) return a; if (c==fls) return b; if (a==b) return a;
    if (n[c].op==NOT) { c=n[c].a; std::swap(a,b); }
    // light simplification of arms under c
    for (int i=0;i<64 && n[a].op==ITE;i++) { T d=n[a].a; if (d==c||implies(c,d)) a=n[a].b; else if (implies(c,mkNot(d))) a=n[a].c; else break; }
    T nc=mkNot(c);
    for (int i=0;i<64 && n[b].op==ITE;i++) { T d=n[b].a; if (d==c||implies(nc,mkNot(d))) b=n[b].c; else if (implies(nc,d)) b=n[b].b; else break; }
    if (a==b) return a;
    if (w(a)==1) {
      if (a==tru) return mkOr(c,b); if (a==fls) return mkAnd(nc,b); if (b==fls) return mkAnd(c,a); if (b==tru) return mkOr(nc,a);
      if (a==c) return mkOr(c,b); if (b==c) return mkAnd(c,a);
      if (implies(c,a)) return mkOr(c,b); 
    } else {
      if (n[b].op==ITE && n[b].b==a) return mkIte(mkOr(c,n[b].a),a,n[b].c);
      if (n[a].op==ITE && n[a].c==b) return mkIte(mkAnd(c,n[a].a),n[a].b,b);
    }
    return raw(ITE,w(a),c,a,b,0);
  }
  // ---- generic --------------------------------------------------------------
  static uint64_t ev2(Op op,int w,uint64_t x,uint64_t y) {
    uint64_t m=mask(w); x&=m;y&=m;
    switch(op){
      case AND: return x&y; case OR: return x|y; case XOR: return x^y; case ADD: return (x+y)&m; case SUB: return (x-y)&m; case MUL: return (x*y)&m;
      case UDIV: return y? x/y : m; case UREM: return y? x%y : x;
      case SDIV: { int64_t a=sx(x,w),b=sx(y,w); if(!b) return a<0?1:m; if (b==-1) return (uint64_t)(0-(uint64_t)a)&m; return (uint64_t)(a/b)&m; }
      case SREM: { int64_t a=sx(x,w),b=sx(y,w); if(!b) return x; if (b==-1) return 0; return (uint64_t)(a%b)&m; }
      case SHL: return y>=(uint64_t)w?0:(x<<y)&m; case LSHR: return y>=(uint64_t)w?0:x>>y; case ASHR: { int64_t a=sx(x,w); return (uint64_t)(a>>(y>=(uint64_t)w?w-1:y))&m; }
      case EQ: return x==y; case ULT: return x<y; case SLT: return sx(x,w)<sx(y,w); default: abort(); }
  }
  static bool isCmp(Op op){ return op==EQ||op==ULT||op==SLT; }
  T mapUn(Op op, T a, int w_, uint64_t v) { // pure ITE tree, distribute unary op (NOT, EXTRACT(v=lo), ZEXT, SEXT)
    Node q=n[a];
    if (q.op==CONST) { uint64_t x=q.v; if (op==NOT) x=~x; else if (op==EXTRACT) x>>=v; else if (op==SEXT) x=(uint64_t)sx(x,q.w); return cst(w_,x); }
    NodeKey k{((uint64_t)op<<56)|((uint64_t)w_<<48)|a, 7, v}; auto it=opcache.find(k); if (it!=opcache.end()) return it->second;
    T r=mkIte(q.a,mapUn(op,q.b,w_,v),mapUn(op,q.c,w_,v)); opcache[k]=r; return r;
  }
  // ---- linear forms: sums of multiples are kept canonical, so that time arithmetic cancels syntactically ----
  struct Lin { std::map<T,uint64_t> c; uint64_t k=0; };
  std::unordered_map<T,Lin> lins;
  void linAdd(Lin &o, T t, uint64_t f, int W, int d=0) { uint64_t m=mask(W); Node q=n[t];
    if (q.op==CONST) { o.k=(o.k+f*q.v)&m; return; }
    auto it=lins.find(t); if (it!=lins.end()) { for (auto&x:it->second.c) { uint64_t &v=o.c[x.first]; v=(v+f*x.second)&m; } o.k=(o.k+f*it->second.k)&m; return; }
    if (d<40 && q.op==ADD) { linAdd(o,q.a,f,W,d+1); linAdd(o,q.b,f,W,d+1); return; }
    if (d<40 && q.op==SUB) { linAdd(o,q.a,f,W,d+1); linAdd(o,q.b,0-f,W,d+1); return; }
    uint64_t &v=o.c[t]; v=(v+f)&m; }
  T linMk(Lin &l, int W) { uint64_t m=mask(W); for (auto it=l.c.begin(); it!=l.c.end();) if (it->second==0) it=l.c.erase(it); else ++it;
    if (l.c.empty()) return cst(W,l.k); if (l.c.size()==1 && l.k==0 && l.c.begin()->second==1) return l.c.begin()->first;
    T pos=0, ng=0; auto acc=[&](T &s, T x){ s = s? raw(ADD,W,s,x,0,0) : x; };
    for (auto&x:l.c) { uint64_t f=x.second; bool nf=(f>>(W-1))&1; if (nf) f=(0-f)&m; T y = f==1? x.first : raw(MUL,W,x.first,cst(W,f),0,0); acc(nf?ng:pos,y); }
    if (l.k) acc(pos,cst(W,l.k)); if (!pos) pos=cst(W,0); T r= ng? raw(SUB,W,pos,ng,0,0) : pos; lins[r]=l; return r; }
  std::unordered_map<T,uint64_t> ubMemo;
  uint64_t ub(T t, int d=0) { if (isC(t)) return n[t].v; auto it=ubMemo.find(t); if (it!=ubMemo.end()) return it->second; uint64_t r=ub1(t,d); if (d<=20) ubMemo[t]=r; return r; }
  uint64_t ub1(T t, int d) { Node q=n[t]; uint64_t m=mask(q.w); if (d>30) return m;
    switch (q.op) { case CONST: return q.v; case ZEXT: return ub(q.a,d+1); case AND: return std::min(ub(q.a,d+1),ub(q.b,d+1));
      case CONCAT: { int lw=w(q.b); return (ub(q.a,d+1)<<lw)|ub(q.b,d+1); }
      case ITE: { uint64_t x=ub(q.b,d+1), y=ub(q.c,d+1); Node c=n[q.a]; if (c.op==ULT && c.a==q.b && isC(c.b) && n[c.b].v) x=std::min(x,n[c.b].v-1); if (c.op==ULT && isC(c.a) && c.b==q.c) y=std::min(y,n[c.a].v); if (c.op==NOT) { Node e=n[c.a]; if (e.op==ULT && e.a==q.c && isC(e.b) && n[e.b].v) y=std::min(y,n[e.b].v-1); } return std::max(x,y); }
      default: break; }
    auto it=lins.find(t); if (it!=lins.end()) { unsigned __int128 s=it->second.k; for (auto&x:it->second.c) { s+=(unsigned __int128)x.second*ub(x.first,d+1); if (s>m) return m; } return (uint64_t)s; }
    return m; }
  bool linExact(T t) { auto it=lins.find(t); if (it==lins.end()) return false; unsigned __int128 s=it->second.k; uint64_t m=mask(w(t)); for (auto&x:it->second.c) { if (x.second>>(w(t)-1)) return false; s+=(unsigned __int128)x.second*ub(x.first); if (s>m) return false; } return true; }
  typedef __int128 I128; // value range of a linear form read as a signed number; false if it may leave the word
  bool linRange(const Lin &l, int W, I128 &lo, I128 &hi) { auto sg=[&](uint64_t c){ return (I128)sx(c,W); }; lo=hi=sg(l.k); I128 lim=(I128)1<<(W-1);
    for (auto&x:l.c) { uint64_t u=ub(x.first); if (u>>(W-1)) return false; I128 c=sg(x.second); if (c>0) hi+=c*u; else lo+=c*u; if (hi>=lim||lo< -lim) return false; } return true; }
  bool linTree(T t, int &k, bool &any) { if (--k<0) return false; Node q=n[t]; if (q.op==ITE) return linTree(q.b,k,any)&&linTree(q.c,k,any); if (q.op==CONST) return true; if (lins.count(t)) { any=true; return true; } return false; }
  bool linIte(T t) { if (n[t].op!=ITE||w(t)<32) return false; int k=9; bool any=false; return linTree(t,k,any)&&any; }
  bool lin=false; // on for sequential scenarios
  bool linOp(Op op, T a, T b, T &r) { int W=w(a); if (!lin||W<32) return false; bool la=lins.count(a), lb=lins.count(b);
    if ((op==ADD||op==SUB) && (linIte(a)||linIte(b)) && (la||lb||isC(a)||isC(b))) { bool x=n[a].op==ITE; Node q=n[x?a:b]; r= x? mkIte(q.a,mkBin(op,q.b,b),mkBin(op,q.c,b)) : mkIte(q.a,mkBin(op,a,q.b),mkBin(op,a,q.c)); return true; }
    if ((op==UDIV||op==UREM||op==SDIV||op==SREM||op==MUL||op==SLT||op==ULT||op==EQ) && isC(b) && linIte(a)) { Node q=n[a]; r=mkIte(q.a,mkBin(op,q.b,b),mkBin(op,q.c,b)); return true; }
    if ((op==SLT||op==ULT||op==EQ) && ((linIte(a)&&lb)||(linIte(b)&&la))) { bool x=n[a].op==ITE; Node q=n[x?a:b]; r= x? mkIte(q.a,mkBin(op,q.b,b),mkBin(op,q.c,b)) : mkIte(q.a,mkBin(op,a,q.b),mkBin(op,a,q.c)); return true; }
    if (op==MUL && isC(b) && !pure(a) && n[a].op!=ITE && (la || (n[b].v & (n[b].v-1)))) { Lin l; linAdd(l,a,n[b].v,W); r=linMk(l,W); return true; }
    if (op==MUL && isC(b) && n[a].op==ITE && n[b].v>1000) { Lin l; l.c[a]=n[b].v; r=linMk(l,W); return true; }
    if (op==SLT && la && lb) { Lin x=lins[a],y=lins[b],z=x; I128 lo,hi; for (auto&q:y.c) { uint64_t &v=z.c[q.first]; v=(v-q.second)&mask(W); } z.k=(x.k-y.k)&mask(W); if (linRange(x,W,lo,hi)&&linRange(y,W,lo,hi)&&linRange(z,W,lo,hi)) { T d=linMk(z,W); r=mkBin(SLT,d,cst(W,0)); return true; } }
    if ((op==ADD||op==SUB) && (la||lb)) { Lin l; linAdd(l,a,1,W); linAdd(l,b,op==ADD?1:mask(W),W); r=linMk(l,W); return true; }
    if ((op==UDIV||op==UREM||op==SDIV||op==SREM) && la && isC(b) && n[b].v) { uint64_t C=n[b].v; if (C>>(W-1)) return false; I128 lo,hi; if (op==SDIV && linRange(lins[a],W,lo,hi) && lo<0) { // (A*C+R)/C = A-k+(R+k*C)/C when the dividend is not negative
        Lin l=lins[a], A, R; for (auto&x:l.c) { if (sx(x.second,W)%(int64_t)C==0) A.c[x.first]=(uint64_t)(sx(x.second,W)/(int64_t)C)&mask(W); else R.c[x.first]=x.second; } int64_t kk=sx(l.k,W); int64_t rk=kk%(int64_t)C; if (rk<0) rk+=C; A.k=(uint64_t)((kk-rk)/(int64_t)C)&mask(W); R.k=rk; if (A.c.empty()) return false;
        I128 rl,rh; if (!linRange(R,W,rl,rh)) return false; I128 k= rl<0? (-rl+C-1)/C : 0; if ((I128)rk+k*C>=((I128)1<<(W-1))) return false; R.k=(uint64_t)rk+(uint64_t)k*C; if (!linRange(R,W,rl,rh)) return false; T rt=linMk(R,W), at=linMk(A,W); T fl=mkBin(ADD,mkBin(SUB,at,cst(W,(uint64_t)k)),mkBin(UDIV,rt,b)); r=mkIte(mkBin(SLT,a,cst(W,0)),raw(SDIV,W,a,b,0,0),fl); return true; }
      if (!linExact(a)) return false; if ((op==SDIV||op==SREM) && (ub(a)>>(W-1))) return false;
      Lin &l=lins[a]; Lin q, rest; for (auto&x:l.c) { if (x.second%C==0) q.c[x.first]=x.second/C; else rest.c[x.first]=x.second; } q.k=l.k/C; rest.k=l.k%C; if (q.c.empty()&&!q.k) return false;
      unsigned __int128 s=rest.k; for (auto&x:rest.c) { s+=(unsigned __int128)x.second*ub(x.first); } if (s>=C) return false; r= op==UDIV||op==SDIV ? linMk(q,W) : linMk(rest,W); return true; }
    return false; }
  T mkBin(Op op, T a, T b) {
    int W=w(a); if (W!=w(b)) { fprintf(stderr,"width mismatch op %s %d %d\n",opname[op],W,w(b)); abort(); }
    int rw=isCmp(op)?1:W;
    if (isC(a)&&isC(b)) return cst(rw,ev2(op,W,n[a].v,n[b].v));
    if (W==1) {
      if (op==AND) return mkAnd(a,b); if (op==OR) return mkOr(a,b);
      if (op==XOR||op==ADD||op==SUB) return mkIte(a,mkNot(b),b); if (op==EQ) return mkIte(a,b,mkNot(b)); if (op==MUL) return mkAnd(a,b);
      if (op==ULT) return mkAnd(mkNot(a),b); if (op==SLT) return mkAnd(a,mkNot(b));
      if (op==SHL||op==LSHR) return mkAnd(a,mkNot(b)); if (op==ASHR) return a;
    }
    bool comm = op==AND||op==OR||op==XOR||op==ADD||op==MUL||op==EQ;
    if (comm && (isC(a) || (!isC(b) && a>b))) std::swap(a,b); // const right
    uint64_t m=mask(W);
    if (a==b) { switch(op){case AND:case OR:return a; case XOR:case SUB:return cst(W,0); case EQ:return tru; case ULT:case SLT:return fls; default:break;} }
    if (isC(b)) { uint64_t y=n[b].v;
      switch(op){
        case AND: if(y==0) return b; if (y==m) return a; break;
        case OR: if(y==0) return a; if (y==m) return b; break;
        case XOR: if(y==0) return a; if (y==m) return mkNot(a); break;
        case ADD: if(y==0) return a; if (!lins.count(a)&&n[a].op==ADD&&isC(n[a].b)) return mkBin(ADD,n[a].a,cst(W,n[n[a].b].v+y)); break;
        case SUB: if (y==0) return a; if (lins.count(a)) break; return mkBin(ADD,a,cst(W,0-y));
        case MUL: if(y==0) return b; if (y==1) return a; if ((y&(y-1))==0) { int s=__builtin_ctzll(y); return mkBin(SHL,a,cst(W,s)); } break;
        case UDIV: if (y==1) return a; if (y && (y&(y-1))==0) return mkBin(LSHR,a,cst(W,__builtin_ctzll(y))); break;
        case UREM: if (y && (y&(y-1))==0) return mkBin(AND,a,cst(W,y-1)); break;
        case SHL: case LSHR: if (y==0) return a; if (y>=(uint64_t)W) return cst(W,0);
          if (op==LSHR) return mkZext(mkExtract(a,y,W-y),W);
          return mkConcat(mkExtract(a,0,W-y),cst(y,0));
        case ASHR: if (y==0) return a; if (y>=(uint64_t)W) y=W-1; return mkSext(mkExtract(a,y,W-y),W);
        case ULT: if (y==0) return fls; if (y==1) return mkBin(EQ,a,cst(W,0)); break;
        case EQ: 
          if (n[a].op==ZEXT) { int iw=w(n[a].a); if (y>mask(iw)) return fls; return mkBin(EQ,n[a].a,cst(iw,y)); }
          if (n[a].op==SEXT) { int iw=w(n[a].a); if ((uint64_t)(sx(y,iw)&m)!=y && ((uint64_t)sx(y&mask(iw),iw)&m)!=y) return fls; if (((uint64_t)sx(y&mask(iw),iw)&m)!=y) return fls; return mkBin(EQ,n[a].a,cst(iw,y&mask(iw))); }
          if (n[a].op==ADD&&isC(n[a].b)) return mkBin(EQ,n[a].a,cst(W,y-n[n[a].b].v));
          if (n[a].op==CONCAT) { int lw=w(n[a].b); return mkAnd(mkBin(EQ,n[a].a,cst(W-lw,y>>lw)),mkBin(EQ,n[a].b,cst(lw,y))); }
          if (n[a].op==NOT) return mkBin(EQ,n[a].a,cst(W,~y));
          break;
        default: break; } }
    if (isC(a)) { uint64_t x=n[a].v; switch(op){ case ULT: if (x==m) return fls; if (x==0) return mkNot(mkBin(EQ,b,cst(W,0))); break; case SHL: case LSHR: case UDIV: case UREM: if (x==0 && op!=UDIV && op!=UREM) return a; break; default: break; } }
    if (op==ULT && n[a].op==ZEXT && n[b].op==ZEXT && w(n[a].a)==w(n[b].a)) return mkBin(ULT,n[a].a,n[b].a);
    if (op==AND && isC(b) && n[a].op==ZEXT) { int iw=w(n[a].a); return mkZext(mkBin(AND,n[a].a,cst(iw,n[b].v)),W); }
    { T lr; if (linOp(op,a,b,lr)) return lr; }
    // distribute over ITE
    NodeKey k{((uint64_t)op<<56)|((uint64_t)W<<48)|a, b, 3}; 
    auto it=opcache.find(k); if (it!=opcache.end()) return it->second;
    T r=0;
    if (n[a].op==ITE && isC(b) && (pure(a)||op==EQ||(op==ADD&&W==64))) { Node q=n[a]; r=mkIte(q.a,mkBin(op,q.b,b),mkBin(op,q.c,b)); }
    else if (n[b].op==ITE && isC(a) && pure(b)) { Node q=n[b]; r=mkIte(q.a,mkBin(op,a,q.b),mkBin(op,a,q.c)); }
    else if (n[a].op==ITE && n[b].op==ITE && pure(a) && pure(b) && leaves(a).v.size()*leaves(b).v.size()<= (op==EQ?400:64)) { Node q=n[a]; r=mkIte(q.a,mkBin(op,q.b,b),mkBin(op,q.c,b)); }
    if (!r) r=raw(op,rw,a,b,0,0);
    opcache[k]=r; return r;
  }
  std::unordered_map<uint64_t,T> exMemo;
  T mkExtract(T a, int lo, int W) { if (lo==0 && W==w(a)) return a; uint64_t k=((uint64_t)a<<16)|((uint64_t)lo<<8)|(uint64_t)W; auto it=exMemo.find(k); if(it!=exMemo.end()) return it->second; T r=mkExtract1(a,lo,W); exMemo[k]=r; return r; }
  T mkExtract1(T a, int lo, int W) {
    Node q=n[a];
    if (q.op==CONST) return cst(W,q.v>>lo);
    if (pure(a)) return mapUn(EXTRACT,a,W,lo);
    if (q.op==EXTRACT) return mkExtract(q.a,lo+q.v,W);
    if (q.op==CONCAT) { int lw=w(q.b); if (lo>=lw) return mkExtract(q.a,lo-lw,W); if (lo+W<=lw) return mkExtract(q.b,lo,W); return mkConcat(mkExtract(q.a,0,lo+W-lw),mkExtract(q.b,lo,lw-lo)); }
    if (q.op==ZEXT||q.op==SEXT) { int iw=w(q.a); if (lo+W<=iw) return mkExtract(q.a,lo,W); if (q.op==ZEXT) { if (lo>=iw) return cst(W,0); return mkZext(mkExtract(q.a,lo,iw-lo),W); } else if (lo<iw) return mkSext(mkExtract(q.a,lo,iw-lo),W); }
    if (q.op==ITE) { T x=mkExtract(q.b,lo,W), y=mkExtract(q.c,lo,W); return mkIte(q.a,x,y); }
    if (lo==0 && W>=32 && lins.count(a)) { Lin l=lins[a], z; z.k=l.k&mask(W); for (auto&x:l.c) { uint64_t &v=z.c[mkExtract(x.first,0,W)]; v=(v+x.second)&mask(W); } return linMk(z,W); }
    if (lo==0 && (q.op==ADD||q.op==SUB||q.op==MUL)) return mkBin(q.op,mkExtract(q.a,0,W),mkExtract(q.b,0,W));
    if (q.op==AND||q.op==OR||q.op==XOR) return mkBin(q.op,mkExtract(q.a,lo,W),mkExtract(q.b,lo,W));
    if (q.op==NOT) return mkNot(mkExtract(q.a,lo,W));
    return raw(EXTRACT,W,a,0,0,lo);
  }
  T mkConcat(T hi, T lo) {
    int W=w(hi)+w(lo); Node h=n[hi], l=n[lo];
    if (h.op==CONST&&l.op==CONST) return cst(W,(h.v<<w(lo))|l.v);
    if (h.op==CONST&&h.v==0) return mkZext(lo,W);
    if (h.op==EXTRACT&&l.op==EXTRACT&&h.a==l.a&&h.v==l.v+l.w) return mkExtract(h.a,l.v,W);
    if (h.op==EXTRACT&&h.a==lo&&h.v==(uint64_t)w(lo)) return mkExtract(lo,0,W);
    if (pure(hi)&&pure(lo)&&(leaves(hi).v.size()*leaves(lo).v.size()<=32)) {
      NodeKey k{((uint64_t)CONCAT<<56)|((uint64_t)W<<48)|hi, lo, 5}; auto it=opcache.find(k); if (it!=opcache.end()) return it->second;
      T r = h.op==ITE ? mkIte(h.a,mkConcat(h.b,lo),mkConcat(h.c,lo)) : mkIte(l.a,mkConcat(hi,l.b),mkConcat(hi,l.c)); opcache[k]=r; return r; }
    if (h.op==ITE&&l.op==ITE&&h.a==l.a) return mkIte(h.a,mkConcat(h.b,l.b),mkConcat(h.c,l.c));
    return raw(CONCAT,W,hi,lo,0,0);
  }
  T mkZext(T a, int W) { if (w(a)==W) return a; if (isC(a)) return cst(W,n[a].v); if (pure(a)) return mapUn(ZEXT,a,W,0); if (n[a].op==ZEXT) return mkZext(n[a].a,W);
    if (w(a)==1) return mkIte(a,cst(W,1),cst(W,0));
    if (linExact(a)) { Lin l=lins[a], z; z.k=l.k; for (auto&x:l.c) z.c[mkZext(x.first,W)]+=x.second; return linMk(z,W); }
    return raw(ZEXT,W,a,0,0,0); }
  T mkSext(T a, int W) { if (w(a)==W) return a; if (isC(a)) return cst(W,(uint64_t)sx(n[a].v,w(a))); if (pure(a)) return mapUn(SEXT,a,W,0); if (n[a].op==SEXT) return mkSext(n[a].a,W); if (n[a].op==ZEXT) return mkZext(n[a].a,W);
    if (w(a)==1) return mkIte(a,cst(W,~0ull),cst(W,0));
    if (lin && w(a)>=24 && !(ub(a)>>(w(a)-1))) return mkZext(a,W);
    return raw(SEXT,W,a,0,0,0); }
  T eq(T a,T b){ return mkBin(EQ,a,b); }
  T implT(T a,T b){ return mkOr(mkNot(a),b); }
  // ---- evaluation under a model ---------------------------------------------
  std::vector<uint64_t> mval; std::vector<uint8_t> mdone; // model
  uint64_t eval(T t0, const std::vector<uint64_t> &varval) {
    if (mval.size()<n.size()) { mval.resize(n.size()); mdone.resize(n.size(),0); }
    std::vector<T> st{t0};
    while(!st.empty()) { T t=st.back(); if (mdone[t]) { st.pop_back(); continue; } Node &q=n[t];
      if (q.op==CONST) { mval[t]=q.v; mdone[t]=1; st.pop_back(); continue; }
      if (q.op==VAR) { mval[t]=varval[q.v]&mask(q.w); mdone[t]=1; st.pop_back(); continue; }
      bool need=false; auto chk=[&](T x){ if(!mdone[x]) { st.push_back(x); need=true; } };
      if (q.op==ITE) { if(!mdone[q.a]) { st.push_back(q.a); continue; } T x=mval[q.a]?q.b:q.c; chk(x); if (need) continue; mval[t]=mval[x]; mdone[t]=1; st.pop_back(); continue; }
      chk(q.a); if (q.op!=NOT&&q.op!=EXTRACT&&q.op!=ZEXT&&q.op!=SEXT) chk(q.b); if (need) continue;
      uint64_t x=mval[q.a]; uint64_t r;
      switch(q.op){ case NOT: r=~x&mask(q.w); break; case EXTRACT: r=(x>>q.v)&mask(q.w); break; case ZEXT: r=x; break; case SEXT: r=(uint64_t)sx(x,n[q.a].w)&mask(q.w); break;
        case CONCAT: r=(x<<n[q.b].w)|mval[q.b]; break; default: r=ev2(q.op,n[q.a].w,x,mval[q.b]); }
      mval[t]=r; mdone[t]=1; st.pop_back(); }
    return mval[t0];
  }
};
