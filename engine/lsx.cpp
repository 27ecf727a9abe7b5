// lsx: symbolic executor for LLVM IR with lazy-sequentialised threads.
//   lsx prep in.bc out.bc            instrument (asm -> helper calls, allocas -> __vx_alloca, __vx_access)
//   lsx run prep.bc [options]        symbolic execution + SAT query
#include "term.h"
#include "sat.h"
#include "prune.h"
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <fstream>
#include <sstream>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/CaptureTracking.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
using std::string; using std::vector; using std::map; using std::pair;

static bool starts(StringRef s, const char *p) { return s.starts_with(p); }
static string locOf(const Instruction *I) {
  string r = I->getFunction()->getName().str();
  if (auto *d = I->getDebugLoc().get()) { r += "@" + d->getFilename().str() + ":" + std::to_string(d->getLine()); }
  return r;
}

// ============================================================== prep =====
static int prepMain(int argc, char **argv) {
  LLVMContext C; SMDiagnostic err; auto M = parseIRFile(argv[2], err, C);
  if (!M) { err.print("lsx", errs()); return 2; }
  auto &DL = M->getDataLayout();
  Type *ptrT = PointerType::get(C,0), *i32 = Type::getInt32Ty(C), *i64 = Type::getInt64Ty(C), *vd = Type::getVoidTy(C);
  FunctionCallee acc = M->getOrInsertFunction("__vx_access", vd, ptrT, i64, i32);
  FunctionCallee alc = M->getOrInsertFunction("__vx_alloca", ptrT, i64);
  FunctionCallee dea = M->getOrInsertFunction("__vx_dealloca", vd, ptrT);
  M->getFunction("__vx_access")->setDSOLocal(true);
  for (Function &F : *M) {
    if (F.isDeclaration()) continue;
    bool internal = starts(F.getName(),"__vx_");
    // inline asm
    vector<CallInst*> asms; 
    for (auto &I : instructions(F)) if (auto *ci = dyn_cast<CallInst>(&I)) if (ci->isInlineAsm()) asms.push_back(ci);
    for (auto *ci : asms) {
      auto *ia = cast<InlineAsm>(ci->getCalledOperand()); string s = ia->getAsmString(), cons = ia->getConstraintString();
      for (char &c : s) if (c=='\n'||c=='\t'||c==';') c=' ';
      std::istringstream is(s); vector<string> tok; string t; while (is>>t) tok.push_back(t);
      bool lock=false; size_t k=0; if (k<tok.size() && tok[k]=="lock") { lock=true; k++; }
      if (tok.empty() || (ci->arg_size()==0 && k>=tok.size())) { ci->eraseFromParent(); continue; }
      string mn = k<tok.size()?tok[k]:""; string rest; for (size_t j=k+1;j<tok.size();j++) rest+=tok[j];
      if (mn=="mfence"||mn=="lfence"||mn=="sfence"||mn=="pause"||mn=="nop"||mn=="rep") { ci->eraseFromParent(); continue; }
      char suf = mn.empty()?0:mn.back(); int bits = suf=='q'?64:suf=='l'?32:suf=='w'?16:8; string base = mn.substr(0,mn.size()-1);
      IRBuilder<> B(ci); Value *res=nullptr; Type *it = Type::getIntNTy(C,bits);
      auto toInt=[&](Value*v)->Value*{ if (v->getType()->isPointerTy()) return B.CreatePtrToInt(v,it); return B.CreateZExtOrTrunc(v,it); };
      auto toPtr=[&](Value*v)->Value*{ if (v->getType()->isPointerTy()) return v; return B.CreateIntToPtr(v,ptrT); };
      string nm; vector<Value*> args;
      if (base=="cmpxchg" && rest=="$2,($1)" && cons.find("={ax},r,r,{ax}")==0) { nm="__vx_cmpxchg"; args={toPtr(ci->getArgOperand(0)),toInt(ci->getArgOperand(1)),toInt(ci->getArgOperand(2))}; }
      else if (base=="xchg" && rest=="$0,($1)" && cons.find("=r,r,0")==0) { nm="__vx_xchg"; lock=true; args={toPtr(ci->getArgOperand(0)),toInt(ci->getArgOperand(1))}; }
      else if (base=="xadd" && rest=="$0,($1)" && cons.find("=r,r,0")==0) { nm="__vx_xadd"; args={toPtr(ci->getArgOperand(0)),toInt(ci->getArgOperand(1))}; }
      else if ((base=="inc"||base=="dec") && cons.find("r")==0) { nm="__vx_xadd"; args={toPtr(ci->getArgOperand(0)),ConstantInt::get(it,base=="inc"?1:-1,true)}; }
      else { errs()<<"lsx: unsupported inline asm: "<<ia->getAsmString()<<" | "<<cons<<" in "<<F.getName()<<"\n"; return 3; }
      if (!lock) nm += "_na"; nm += std::to_string(bits);
      vector<Type*> tys; for (auto*a:args) tys.push_back(a->getType());
      FunctionCallee fc = M->getOrInsertFunction(nm, FunctionType::get(it,tys,false));
      res = B.CreateCall(fc,args);
      if (auto *c2=dyn_cast<CallInst>(res)) c2->setDebugLoc(ci->getDebugLoc());
      if (!ci->getType()->isVoidTy()) { Value *r2 = ci->getType()->isPointerTy()? B.CreateIntToPtr(res,ptrT) : B.CreateZExtOrTrunc(res,ci->getType()); ci->replaceAllUsesWith(r2); }
      ci->eraseFromParent();
    }
    // allocas
    vector<AllocaInst*> al; for (auto &I : instructions(F)) if (auto *a = dyn_cast<AllocaInst>(&I)) al.push_back(a);
    std::set<Value*> priv;
    vector<Value*> heapd;
    for (auto *a : al) {
      if (!isa<ConstantInt>(a->getArraySize())) { errs()<<"lsx: dynamic alloca in "<<F.getName()<<"\n"; return 3; }
      uint64_t sz = DL.getTypeAllocSize(a->getAllocatedType())*cast<ConstantInt>(a->getArraySize())->getZExtValue();
      bool cap = PointerMayBeCaptured(a,true,true);
      IRBuilder<> B(a); auto *c = B.CreateCall(alc,{ConstantInt::get(i64,sz)}); c->setDebugLoc(a->getDebugLoc()); c->takeName(a);
      a->replaceAllUsesWith(c); a->eraseFromParent(); heapd.push_back(c); if (!cap) priv.insert(c);
    }
    // lifetime intrinsics on former allocas are invalid now
    vector<Instruction*> er; for (auto &I : instructions(F)) if (auto *ii = dyn_cast<IntrinsicInst>(&I)) if (ii->getIntrinsicID()==Intrinsic::lifetime_start||ii->getIntrinsicID()==Intrinsic::lifetime_end||isa<DbgInfoIntrinsic>(ii)) er.push_back(ii);
    for (auto *i:er) i->eraseFromParent();
    if (!heapd.empty()) for (auto &BB : F) if (auto *r = dyn_cast<ReturnInst>(BB.getTerminator())) { IRBuilder<> B(r); for (auto *c:heapd) { auto*q=B.CreateCall(dea,{c}); q->setDebugLoc(r->getDebugLoc()); } }
    if (internal) continue;
    vector<Instruction*> mem; for (auto &I : instructions(F)) if (isa<LoadInst>(I)||isa<StoreInst>(I)||isa<AtomicRMWInst>(I)||isa<AtomicCmpXchgInst>(I)||isa<MemIntrinsic>(I)) mem.push_back(&I);
    auto basePriv=[&](Value*p){ Value *b = p->stripInBoundsOffsets(); return priv.count(b)>0; };
    for (auto *I : mem) {
      IRBuilder<> B(I); auto ins=[&](Value*p,Value*sz,int fl){ if (basePriv(p)) return; auto *c=B.CreateCall(acc,{p,sz,ConstantInt::get(i32,fl)}); c->setDebugLoc(I->getDebugLoc()); };
      auto K=[&](Type*t)->Value*{ return ConstantInt::get(i64,DL.getTypeStoreSize(t)); };
      if (auto*l=dyn_cast<LoadInst>(I)) ins(l->getPointerOperand(),K(l->getType()),(l->isAtomic()?2:0)|(l->isVolatile()?4:0));
      else if (auto*s=dyn_cast<StoreInst>(I)) ins(s->getPointerOperand(),K(s->getValueOperand()->getType()),1|(s->isAtomic()?2:0)|(s->isVolatile()?4:0));
      else if (auto*r=dyn_cast<AtomicRMWInst>(I)) ins(r->getPointerOperand(),K(r->getValOperand()->getType()),3);
      else if (auto*x=dyn_cast<AtomicCmpXchgInst>(I)) ins(x->getPointerOperand(),K(x->getCompareOperand()->getType()),3);
      else if (auto*mi=dyn_cast<MemIntrinsic>(I)) { if (auto*mt=dyn_cast<MemTransferInst>(mi)) ins(mt->getSource(),mi->getLength(),0); ins(mi->getDest(),mi->getLength(),1); }
    }
  }
  if (verifyModule(*M,&errs())) { errs()<<"lsx: broken module after prep\n"; return 3; }
  std::error_code ec; raw_fd_ostream os(argv[3],ec); WriteBitcodeToFile(*M,os); return 0;
}

// ============================================================== engine ====
struct ByteRef { T t; uint8_t idx; };
struct Obj { uint64_t base; uint32_t size; string name; vector<ByteRef> b; T alive; bool escaped=false; bool isfn=false; Function *fn=nullptr; int kind=0; /*0 global 1 heap 2 stack*/ bool lazyUninit=false; T freed; vector<ByteRef> init; };
static const uint64_t STRIDE_SHIFT=20; static const uint64_t BASE_ID=256;

struct Ctx; struct Frame {
  Function *f; Frame *parent; Ctx *callCtx; Instruction *callI; vector<int> prefix; bool atomic=false; bool atomicNow=false; int tid; Ctx *root=nullptr; int id; int depth; T live; };
struct Ctx { Frame *fr; Ctx *parent; Loop *loop; int iter; int symIter; vector<int> keyBase; std::unordered_map<const Value*,T> regs; std::map<std::pair<Loop*,int>,Ctx*> kids; Ctx *sjKid=nullptr; std::map<std::pair<const Instruction*,Function*>,Frame*> frames; int id; };
typedef vector<int> Key;
struct PhiV { Value *first; T second; T g; };
struct Pending { Ctx *ctx; BasicBlock *bb; BasicBlock::iterator it; T g; vector<PhiV> phis; bool resumed=false; };
struct FnInfo { DominatorTree DT; LoopInfo LI; std::unordered_map<BasicBlock*,int> pos; };
struct Violation { T cond; string msg, loc; string kind; int tid=0, round=0; T dbg=0; };
struct Event { char k; int round, tid; T g; T v; string s; };

struct Engine {
  Terms tm; Module *M; const DataLayout *DL; 
  int nthreads=1, rounds=1, unwind=3, vis=2, recur=4; double timeout=300; 
  vector<Obj> objs; std::unordered_map<const Value*,uint64_t> gaddr; 
  std::map<Function*,std::unique_ptr<FnInfo>> finfo; 
  int curTid=0, curRound=0; bool threaded=false, probe=false; Frame *probeFrame=nullptr;
  T assumeAll; 
  vector<Violation> viol; vector<Violation> unw; map<string,T> covers; vector<Event> ev;
  map<Key,Pending> wl; 
  vector<map<Key,Pending>> resume; vector<T> done, stuck; vector<Frame*> tframe;
  int frameCnt=0, ctxCnt=0; long steps=0, segs=0; std::set<string> fnsEncoded; std::set<string> unmodeled; 
  long stops=0;
  // shared-access reduction
  struct AccessSet { std::map<string, std::vector<std::pair<uint32_t,uint32_t>>> m; };
  // byte-level: name -> vector of (mask readers, mask writers)
  std::map<string, vector<pair<uint32_t,uint32_t>>> acc1; bool useAcc=false; std::map<string, vector<pair<uint32_t,uint32_t>>> *prevAcc=nullptr;
  std::map<string,int> objNames;
  string fatal; 
  map<string,string> opts; long maxsteps=20000000;

  T cst(int w,uint64_t v){ return tm.cst(w,v); }
  FnInfo &info(Function *F){ auto &p=finfo[F]; if(!p){ p=std::make_unique<FnInfo>(); p->DT.recalculate(*F); p->LI.analyze(p->DT); order(F,*p); } return *p; }
  void order(Function *F, FnInfo &fi) {
    int cnt=0; auto &LI=fi.LI;
    std::function<void(Loop*,BasicBlock*)> region=[&](Loop *L, BasicBlock *entry){
      // nodes: blocks with LI.getLoopFor(b)==L, and child loops
      std::vector<pair<BasicBlock*,Loop*>> post; std::set<BasicBlock*> seen; // representative block (header for child loops)
      auto rep=[&](BasicBlock*b)->BasicBlock*{ Loop*x=LI.getLoopFor(b); if(x==L) return b; while(x && x->getParentLoop()!=L) x=x->getParentLoop(); return x? x->getHeader():nullptr; };
      std::function<void(BasicBlock*)> dfs=[&](BasicBlock*r){ if(!seen.insert(r).second) return; Loop*x=LI.getLoopFor(r); vector<BasicBlock*> succ;
        if(x==L){ for(auto*s:successors(r)) succ.push_back(s); } else { Loop*c=x; while(c->getParentLoop()!=L) c=c->getParentLoop(); SmallVector<BasicBlock*,8> ex; c->getExitBlocks(ex); for(auto*s:ex) succ.push_back(s); }
        for(auto*s:succ){ if(L && !L->contains(s)) continue; if(L && s==L->getHeader()) continue; BasicBlock*q=rep(s); if(q) dfs(q); }
        post.push_back({r, x==L?nullptr:x}); };
      dfs(entry);
      for(auto it=post.rbegin();it!=post.rend();++it){ BasicBlock*r=it->first; if(!it->second) fi.pos[r]=cnt++; else { Loop*c=it->second; while(c->getParentLoop()!=L) c=c->getParentLoop(); fi.pos[c->getHeader()]=cnt; region(c,c->getHeader()); } }
    };
    region(nullptr,&F->getEntryBlock());
  }
  [[noreturn]] void die(const string &m){ fprintf(stderr,"lsx: %s\n",m.c_str()); printf("{\"status\":\"error\",\"error\":\"%s\"}\n",esc(m).c_str()); fflush(stdout); _exit(3); }
  static string esc(const string&s){ string r; for(char c:s){ if(c=='"'||c=='\\') { r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if ((unsigned char)c<32) r+=' '; else r+=c; } return r; }

  // ---- objects -------------------------------------------------------------
  uint64_t newObj(uint32_t size,const string &name,int kind){ uint64_t id=objs.size(); Obj o; o.base=(id+BASE_ID)<<STRIDE_SHIFT; o.size=size; o.name=name; o.alive=tm.tru; o.freed=tm.fls; o.kind=kind; o.escaped=(kind==0); if(size>(1u<<STRIDE_SHIFT)/2) die("object too large: "+name); objs.push_back(o); return id; }
  Obj *objAt(uint64_t a){ uint64_t id=a>>STRIDE_SHIFT; if(id<BASE_ID||id-BASE_ID>=objs.size()) return nullptr; return &objs[id-BASE_ID]; }
  void initBytes(Obj&o,T zeroOr,bool zero){ o.b.resize(o.size); if(zero) { T z=cst(8,0); for(auto&x:o.b) x={z,0}; } else { for(uint32_t i=0;i<o.size;i+=8){ int n=std::min<uint32_t>(8,o.size-i); T v=tm.var(8*n,"uninit:"+o.name+"+"+std::to_string(i)); for(int j=0;j<n;j++) o.b[i+j]={v,(uint8_t)j}; } } }
  T rawLoad(Obj&o,uint64_t off,int n){ // n bytes
    ByteRef f=o.b[off]; bool same=true; for(int i=1;i<n;i++) if(o.b[off+i].t!=f.t||o.b[off+i].idx!=f.idx+i){ same=false; break; }
    if(same) return tm.mkExtract(f.t,f.idx*8,n*8);
    // group runs
    T r=0; int i=0; while(i<n){ ByteRef s=o.b[off+i]; int j=1; while(i+j<n && o.b[off+i+j].t==s.t && o.b[off+i+j].idx==s.idx+j) j++; T p=tm.mkExtract(s.t,s.idx*8,j*8); r = r? tm.mkConcat(p,r):p; i+=j; } return r; }
  void rawStore(Obj&o,uint64_t off,int n,T v){ for(int i=0;i<n;i++) o.b[off+i]={v,(uint8_t)i}; }
  void escape(T v){ if(tm.w(v)!=64) return; auto L=tm.full(v); vector<uint64_t> ls=L.v; for(uint64_t a:ls){ Obj*o=objAt(a); if(!o||o->escaped||o->isfn) continue; o->escaped=true; uint64_t id=o-&objs[0]; std::set<T> seen; for(size_t i=0;i<objs[id].b.size();i++){ T t=objs[id].b[i].t; if(seen.insert(t).second) escape(t); } } }
  // enumerate (object, offset, guard) of an address
  std::set<T> infeas; long tq=0,tu=0; bool feasT(T g){ if(tprune<1) return true; if(infeas.count(g)) return false; tq++; if(feas(g)) return true; tu++; infeas.insert(g); return false; }
  struct Tgt { uint64_t id; uint64_t off; T g; };
  void violate(T c,const string&msg,const Instruction*I,const char*kind="memory"){ c=tm.mkAnd(c,assumeAll); if(c==tm.fls) return; viol.push_back({c,msg,I?locOf(I):"",kind,curTid,curRound,dbgT}); }
  T dbgT=0;
  vector<Tgt> resolve(T addr,int n,T g,const Instruction*I,bool write){
    vector<Tgt> r; addr=tm.simpUnder(addr,g);
    auto useLeaf=[&](uint64_t a,T ga){ if(ga==tm.fls) return; Obj*o=objAt(a); if(!o||o->isfn||(a-o->base)+n>o->size){ char b[64]; sprintf(b,"%llx",(unsigned long long)a); violate(ga,string("invalid ")+(write?"write to":"read of")+" address 0x"+b+(o?" (object "+o->name+")":""),I); return; }
      T dead=tm.mkAnd(ga,tm.mkNot(o->alive)); if(dead!=tm.fls) violate(dead,string(write?"write to":"read of")+" freed object "+o->name,I);
      r.push_back({(uint64_t)(o-&objs[0]),a-o->base,ga}); };
    if (tm.n[addr].op==CONST||tm.n[addr].op==ITE) {
      auto L=tm.full(addr); T rest=g; for(uint64_t a:L.v){ T e=tm.eq(addr,cst(64,a)); T ga=tm.mkAnd(g,e); if(L.nonconst) rest=tm.mkAnd(rest,tm.mkNot(e)); if((L.v.size()>1||L.nonconst)&&!feasT(ga)) continue; useLeaf(a,ga); }
      if(L.nonconst && rest!=tm.fls && feasT(rest)) symAddr(addr,n,rest,I,write,r);
    } else symAddr(addr,n,g,I,write,r);
    return r; }
  void dumpT(T t,int d){ if(d>9) { fprintf(stderr,"%*s...\n",d*2,""); return; } Node q=tm.n[t]; fprintf(stderr,"%*s%s w%d",d*2,"",opname[q.op],q.w); if(q.op==CONST){ Obj*o=objAt(q.v); fprintf(stderr," %llx %s\n",(unsigned long long)q.v,o?o->name.c_str():""); return; } if(q.op==VAR){ fprintf(stderr," %s\n",tm.varname[q.v].c_str()); return; } fprintf(stderr,"\n"); if(q.op==ITE){ dumpT(q.b,d+1); dumpT(q.c,d+1); return; } dumpT(q.a,d+1); if(q.op!=NOT&&q.op!=EXTRACT&&q.op!=ZEXT&&q.op!=SEXT) dumpT(q.b,d+1); }
  // concat of two halves (a pointer overwritten by narrower stores on another path): split on an ITE half
  bool splitCat(T x,T&c,T&u1,T&u2){ Node q=tm.n[x]; T mx=tm.n[q.a].op==ITE?q.a:tm.n[q.b].op==ITE?q.b:0; if(!mx) return false; Node z=tm.n[mx]; c=z.a; if(mx==q.a){ u1=tm.mkConcat(z.b,q.b); u2=tm.mkConcat(z.c,q.b); } else { u1=tm.mkConcat(q.a,z.b); u2=tm.mkConcat(q.a,z.c); } return true; }
  void symAddr(T addr,int n,T g,const Instruction*I,bool write,vector<Tgt>&r){
    // collect non-const leaves of the ITE
    std::map<std::pair<T,bool>,T,std::greater<std::pair<T,bool>>> st{{{addr,false},g}}; int cnt=0; auto pushA=[&](T x,bool d,T gg){ if(gg==tm.fls) return; auto&z=st[{x,d}]; z= z? tm.mkOr(z,gg):gg; };
    while(!st.empty()){ auto it0=st.begin(); T x=it0->first.first; bool dist=it0->first.second; T gx=it0->second; st.erase(it0); if(gx==tm.fls) continue; if(++cnt>20000){ violate(gx,"unresolvable pointer",I); return; }
      Node q=tm.n[x]; if(q.op!=ITE&&!feasT(gx)) continue;
      if(q.op==CONCAT){ T c,u1,u2; if(splitCat(x,c,u1,u2)){ pushA(u1,true,tm.mkAnd(gx,c)); pushA(u2,true,tm.mkAnd(gx,tm.mkNot(c))); continue; } }
      if(q.op==ADD){ T c,u1,u2; T u=tm.n[q.a].op==CONCAT?q.a:q.b, ot=u==q.a?q.b:q.a; if(tm.n[u].op==CONCAT&&splitCat(u,c,u1,u2)){ pushA(tm.mkBin(ADD,u1,ot),true,tm.mkAnd(gx,c)); pushA(tm.mkBin(ADD,u2,ot),true,tm.mkAnd(gx,tm.mkNot(c))); continue; } }
      if(q.op==CONST) { if(!dist) continue; Obj*o=objAt(q.v); T ga=gx; if(!o||o->isfn||(q.v-o->base)+n>o->size){ violate(ga,"access to an invalid address",I); continue; } T dead=tm.mkAnd(ga,tm.mkNot(o->alive)); if(dead!=tm.fls) violate(dead,"access to freed object "+o->name,I); r.push_back({(uint64_t)(o-&objs[0]),q.v-o->base,ga}); continue; }
      if(q.op==ITE){ if(!dist&&tm.leaves(x).nonconst==false) continue; pushA(q.b,dist,tm.mkAnd(gx,q.a)); pushA(q.c,dist,tm.mkAnd(gx,tm.mkNot(q.a))); continue; }
      if(q.op==ADD){ T mx=0,ot=0; bool f=false; for(int k=0;k<2&&!f;k++){ T u=k?q.b:q.a; if(tm.n[u].op==ITE&&!tm.pure(u)){ mx=u; ot=k?q.a:q.b; f=true; } } if(f){ Node z=tm.n[mx]; pushA(tm.mkBin(ADD,z.b,ot),true,tm.mkAnd(gx,z.a)); pushA(tm.mkBin(ADD,z.c,ot),true,tm.mkAnd(gx,tm.mkNot(z.a))); continue; } }
      // find base object: constant addend or const-tree operand of ADD
      vector<T> ops; std::function<void(T)> flat=[&](T y){ if(tm.n[y].op==ADD){ flat(tm.n[y].a); flat(tm.n[y].b);} else ops.push_back(y); }; flat(x);
      std::set<uint64_t> ids; for(T o:ops) if(tm.pure(o)) for(uint64_t a:tm.full(o).v) if(objAt(a)) ids.insert((a>>STRIDE_SHIFT)-BASE_ID);
      if(ids.empty()){ if(getenv("LSX_DBG")){ fprintf(stderr,"WILD at %s:\n",I?locOf(I).c_str():""); dumpT(x,0); } dbgT=addr; violate(gx,"wild pointer dereference",I); continue; }
      T ok=tm.fls; for(uint64_t id:ids){ Obj&o=objs[id]; if(o.isfn) continue; if(o.size/n>600) { die("symbolic offset into large object "+o.name+" at "+(I?locOf(I):"")); }
        for(uint64_t off=0; off+n<=o.size; off+=n){ T e=tm.eq(x,cst(64,o.base+off)); T ge=tm.mkAnd(gx,e); if(ge==tm.fls||!feasT(ge)) continue; ok=tm.mkOr(ok,e); T dead=tm.mkAnd(ge,tm.mkNot(objs[id].alive)); if(dead!=tm.fls) violate(dead,"access to freed object "+objs[id].name,I); r.push_back({id,off,ge}); } }
      T bad=tm.mkAnd(gx,tm.mkNot(ok)); dbgT=addr; violate(bad,"out-of-bounds access (symbolic index)",I); } }
  T load(T addr,int n,T g,const Instruction*I){ auto v=resolve(addr,n,g,I,false); if(v.empty()){ /* certainly a reported violation: nothing happens after it */ assumeAll=tm.mkAnd(assumeAll,tm.mkNot(g)); return tm.var(n*8,"badload"); } T r=rawLoad(objs[v[0].id],v[0].off,n); for(size_t i=1;i<v.size();i++) r=tm.mkIte(v[i].g,rawLoad(objs[v[i].id],v[i].off,n),r); r=tm.simpUnder(r,g); return r; }
  void store(T addr,int n,T val,T g,const Instruction*I){ auto v=resolve(addr,n,g,I,true); for(auto&t:v){ T old=rawLoad(objs[t.id],t.off,n); T nv=tm.mkIte(t.g,val,old); rawStore(objs[t.id],t.off,n,nv); if(objs[t.id].escaped) escape(val); } }

  // ---- constants -------------------------------------------------------------
  uint64_t addrOf(const GlobalValue *G){ auto it=gaddr.find(G); if(it!=gaddr.end()) return it->second; 
    if(auto*F=dyn_cast<Function>(G)){ uint64_t id=newObj(16,F->getName().str(),0); objs[id].isfn=true; objs[id].fn=const_cast<Function*>(F); return gaddr[G]=objs[id].base; }
    if(auto*A=dyn_cast<GlobalAlias>(G)) return addrOf(cast<GlobalValue>(A->getAliasee()->stripPointerCasts()));
    auto*V=cast<GlobalVariable>(G); uint32_t sz=DL->getTypeAllocSize(V->getValueType()); uint64_t id=newObj(sz,V->getName().str(),0); gaddr[G]=objs[id].base; uint64_t base=objs[id].base;
    initBytes(objs[id],0,true); if(V->hasInitializer()) initConst(id,0,V->getInitializer()); else initBytes(objs[id],0,false); return base; }
  void initConst(uint64_t id,uint64_t off,const Constant*c){ Type*t=c->getType(); 
    if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) return;
    if(auto*s=dyn_cast<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(s->getType()); for(unsigned i=0;i<s->getNumOperands();i++) initConst(id,off+sl->getElementOffset(i),s->getOperand(i)); return; }
    if(auto*a=dyn_cast<ConstantArray>(c)){ uint64_t es=DL->getTypeAllocSize(a->getType()->getElementType()); for(unsigned i=0;i<a->getNumOperands();i++) initConst(id,off+i*es,a->getOperand(i)); return; }
    if(auto*d=dyn_cast<ConstantDataSequential>(c)){ uint64_t es=DL->getTypeAllocSize(d->getElementType()); for(unsigned i=0;i<d->getNumElements();i++) initConst(id,off+i*es,d->getElementAsConstant(i)); return; }
    T v=constant(c); int n=DL->getTypeStoreSize(t); if(tm.w(v)<8*n) v=tm.mkZext(v,8*n); rawStore(objs[id],off,n,v); }
  T constant(const Constant*c){ Type*t=c->getType();
    if(auto*i=dyn_cast<ConstantInt>(c)){ if(i->getBitWidth()>64) die("wide int"); return cst(i->getBitWidth(),i->getZExtValue()); }
    if(isa<ConstantPointerNull>(c)) return cst(64,0);
    if(isa<UndefValue>(c)) return cst(width(t),0);
    if(auto*g=dyn_cast<GlobalValue>(c)) return cst(64,addrOf(g));
    if(auto*e=dyn_cast<ConstantExpr>(c)){ if(auto*gep=dyn_cast<GEPOperator>(e)){ APInt off(64,0); if(!gep->accumulateConstantOffset(*DL,off)) die("gep constexpr"); return tm.mkBin(ADD,constant(cast<Constant>(gep->getPointerOperand())),cst(64,off.getZExtValue())); }
      switch(e->getOpcode()){ case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { T a=constant(e->getOperand(0)); int W=width(t); return W<=tm.w(a)? tm.mkExtract(a,0,W):tm.mkZext(a,W);} case Instruction::Trunc: return tm.mkExtract(constant(e->getOperand(0)),0,width(t)); case Instruction::Add: return tm.mkBin(ADD,constant(e->getOperand(0)),constant(e->getOperand(1))); case Instruction::Sub: return tm.mkBin(SUB,constant(e->getOperand(0)),constant(e->getOperand(1))); case Instruction::ICmp: break; default: break; } }
    string s; raw_string_ostream os(s); c->print(os); die("unsupported constant "+s); }
  int width(Type*t){ if(t->isPointerTy()) return 64; if(t->isIntegerTy()){ if(t->getIntegerBitWidth()>64) die("int width >64"); return t->getIntegerBitWidth(); } string s; raw_string_ostream os(s); t->print(os); die("unsupported type "+s); }

  // ---- contexts -----------------------------------------------------------------
  Ctx *newCtx(Frame*f,Ctx*p,Loop*l,int it,int sy){ Ctx*c=new Ctx(); c->fr=f;c->parent=p;c->loop=l;c->iter=it;c->symIter=sy;c->id=ctxCnt++; return c; }
  Frame *newFrame(Function*F,Frame*parent,Ctx*cc,Instruction*ci,Key prefix,int tid){ Frame*f=new Frame(); f->f=F;f->parent=parent;f->callCtx=cc;f->callI=ci;f->prefix=prefix;f->tid=tid;f->id=frameCnt++; f->depth=parent?parent->depth+1:0; f->atomic=parent?(parent->atomic||parent->atomicNow):!threaded; f->root=newCtx(f,nullptr,nullptr,0,0); f->root->keyBase=prefix; f->root->keyBase.push_back(0); f->live=tm.fls; fnsEncoded.insert(F->getName().str()); return f; }
  Key key(Ctx*c,BasicBlock*bb,int idx){ Key k=c->keyBase; k.push_back(info(c->fr->f).pos[bb]); k.push_back(idx); return k; }
  int instIdx(BasicBlock*bb,BasicBlock::iterator it){ int i=0; for(auto x=bb->begin();x!=it;++x) i++; return i; }
  std::unordered_map<const Instruction*,int> idxCache; int idxOf(const Instruction*I){ auto it=idxCache.find(I); if(it!=idxCache.end()) return it->second; int i=0; for(auto&x:*I->getParent()) idxCache[&x]=i++; return idxCache[I]; }
  T getReg(Ctx*c,const Value*v){ for(Ctx*x=c;x;x=x->parent){ auto it=x->regs.find(v); if(it!=x->regs.end()) return it->second; } string s; raw_string_ostream os(s); v->print(os); die("undefined register "+s+" in "+c->fr->f->getName().str()); }
  void setReg(Ctx*c,const Value*v,T val,T g){ auto it=c->regs.find(v); if(it==c->regs.end()) c->regs[v]=val; else it->second=tm.mkIte(g,val,it->second); }
  T evalRaw(Ctx*c,const Value*v){ if(auto*k=dyn_cast<Constant>(v)) return constant(k); return getReg(c,v); }
  T eval(Ctx*c,const Value*v,T g){ T t=evalRaw(c,v); if(tm.n[t].op==ITE) t=tm.simpUnder(t,g); return t; }
  void push(Key k,Ctx*c,BasicBlock*bb,BasicBlock::iterator it,T g,const vector<pair<Value*,T>>&phis,bool resumed=false){ if(g==tm.fls) return; auto f=wl.find(k); if(f==wl.end()){ Pending p{c,bb,it,g,{},resumed}; for(auto&x:phis) p.phis.push_back({x.first,x.second,g}); wl.emplace(k,p); return; } Pending&p=f->second; 
    for(auto&x:phis){ bool fd=false; for(auto&y:p.phis) if(y.first==x.first){ y.second=tm.mkIte(g,x.second,y.second); y.g=tm.mkOr(y.g,g); fd=true; break; } if(!fd) p.phis.push_back({x.first,x.second,g}); }
    p.g=tm.mkOr(p.g,g); p.resumed|=resumed; }
  void edge(Ctx*c,BasicBlock*from,BasicBlock*to,T g){ if(g==tm.fls) return; FnInfo&fi=info(c->fr->f); Ctx*n=c; bool back=false;
    while(n->loop && !n->loop->contains(to)) n=n->parent; 
    // skip setjmp contexts (loop==null, parent!=null): they stay as is
    if(n->loop && n->loop->getHeader()==to && n->loop->contains(from)) { back=true; }
    if(back){ Ctx*p=n->parent; bool sym = !(g==headG[n]); int sy=n->symIter+(sym?1:0); int ni=n->iter+1; 
      int ub=unwindFor(n->loop,c->fr->f);
      if(sy>ub||ni>5000){ T u=tm.mkAnd(g,assumeAll); unw.push_back({u,"unwind",locOf(from->getTerminator()),"unwind"}); assumeAll=tm.mkAnd(assumeAll,tm.mkNot(g)); return; }
      auto kk=std::make_pair(n->loop,ni); auto&k=p->kids[kk]; if(!k){ k=newCtx(c->fr,p,n->loop,ni,sy); k->keyBase=p->keyBase; k->keyBase.push_back(fi.pos[to]); k->keyBase.push_back(ni); } else if (sy>k->symIter) k->symIter=sy; n=k; }
    else { Loop*L=fi.LI.getLoopFor(to); vector<Loop*> chain; while(L && L!=n->loop && !(n->loop && n->loop->contains(L)==false)) { if(n->loop==L) break; chain.push_back(L); L=L->getParentLoop(); } 
      for(int i=(int)chain.size()-1;i>=0;i--){ auto&k=n->kids[{chain[i],0}]; if(!k){ k=newCtx(c->fr,n,chain[i],0,0); k->keyBase=n->keyBase; k->keyBase.push_back(fi.pos[chain[i]->getHeader()]); k->keyBase.push_back(0);} n=k; } }
    vector<pair<Value*,T>> ph; for(auto&P:to->phis()) ph.push_back({&P,eval(c,P.getIncomingValueForBlock(from),g)});
    push(key(n,to,0),n,to,to->getFirstNonPHI()->getIterator(),g,ph); }
  std::unordered_map<Ctx*,T> headG; map<string,int> unwindFn;
  int unwindFor(Loop*L,Function*f){ auto it=unwindFn.find(f->getName().str()); if(it!=unwindFn.end()) return it->second; return unwind; }

  // ---- calls ---------------------------------------------------------------------
  std::set<string> atomicFns; std::unique_ptr<Pruner> pr; int prune=0, tprune=getenv("LSX_TPRUNE")?atoi(getenv("LSX_TPRUNE")):1;
  bool feas(T g){ if(!prune||probe||(!nthreads&&prune<3)) return true; if(!pr) pr=std::make_unique<Pruner>(tm); return pr->feasible(g,assumeAll); }
  void enter(Function*F,Ctx*c,Instruction*ci,T g,const vector<T>&args,int cand){ auto&fr=c->frames[{ci,F}]; if(!fr){ Key k=key(c,ci->getParent(),idxOf(ci)); k.push_back(cand); fr=newFrame(F,c->fr,c,ci,k,c->fr->tid); if(fr->depth>80) die("call depth in "+F->getName().str()); int rec=0; for(Frame*x=fr;x;x=x->parent) if(x->f==F) rec++; if(rec>recur){ fr->depth=-1; } }
    if(fr->depth<0){ unw.push_back({tm.mkAnd(g,assumeAll),"recursion",locOf(ci),"unwind"}); assumeAll=tm.mkAnd(assumeAll,tm.mkNot(g)); return; }
    // atomic flag may change only lexically
    fr->atomic = c->fr->atomic||c->fr->atomicNow||atomicFns.count(F->getName().str()); fr->live=tm.mkOr(fr->live,g);
    unsigned i=0; for(auto&A:F->args()){ if(i<args.size()) { T v=args[i]; int W=width(A.getType()); if(tm.w(v)!=W) v= tm.w(v)>W? tm.mkExtract(v,0,W):tm.mkZext(v,W); setReg(fr->root,&A,v,g);} else setReg(fr->root,&A,cst(width(A.getType()),0),g); i++; }
    BasicBlock*b=&F->getEntryBlock(); push(key(fr->root,b,0),fr->root,b,b->begin(),g,{}); }
  void setRet(Ctx*c,CallBase*ci,T v,T g){ if(ci->getType()->isVoidTy()) return; int W=width(ci->getType()); if(tm.w(v)!=W) v= tm.w(v)>W? tm.mkExtract(v,0,W):tm.mkZext(v,W); setReg(c,ci,v,g); }
  string cstr(Ctx*c,Value*v){ T t=evalRaw(c,v); string s; if(tm.isC(t)){ Obj*o=objAt(tm.n[t].v); if(o) for(uint64_t i=tm.n[t].v-o->base;i<o->size;i++){ T b=rawLoad(*o,i,1); if(!tm.isC(b)||tm.n[b].v==0) break; s+=(char)tm.n[b].v; } } return s; }
  std::map<std::tuple<int,Ctx*,const Instruction*>,T> swv; std::map<pair<Ctx*,const Instruction*>,T> ndv; std::map<pair<Ctx*,const Instruction*>,uint64_t> allocv; 
  struct SjInfo { Ctx*ctx; Instruction*I; }; vector<SjInfo> sjs; 
  T assumeNow(T g){ return tm.mkAnd(g,assumeAll); }
  bool visibleAccess(T addr,int n,int fl,T g){ // records and decides
    addr=tm.simpUnder(addr,g); const auto L=tm.full(addr); bool vz=false; 
    for(uint64_t a:L.v){ if(L.v.size()>1 && tm.contradict(g,tm.eq(addr,cst(64,a)))) continue; Obj*o=objAt(a); if(!o||o->isfn||!o->escaped) continue; uint64_t off=a-o->base; if(off+n>o->size) { vz=true; continue; }
      bool w=fl&1; auto&v=acc1[o->name]; if(v.size()<o->size) v.resize(o->size,{0,0}); for(int i=0;i<n;i++){ if(w) v[off+i].second|=1u<<curTid; else v[off+i].first|=1u<<curTid; if((fl&3)==3) v[off+i].first|=1u<<curTid; }
      if(prevAcc){ auto it=prevAcc->find(o->name); if(it==prevAcc->end()) continue; bool conf=false; for(int i=0;i<n&&!conf;i++){ if(off+i>=it->second.size()) break; auto pr=it->second[off+i]; uint32_t oth=~(1u<<curTid); if(w? ((pr.first|pr.second)&oth):(pr.second&oth)) conf=true; } if(conf) vz=true; }
      else vz=true; }
    if(L.nonconst) vz=true; return vz; }
  // a yield point reached with guard g (after merging). returns guard that continues
  T yieldAt(Ctx*c,CallInst*ci,Key k,T g,bool visible){
    T sw=tm.fls; 
    if(visible && !(curRound==rounds-1 && lastThreadOpt(c->fr->tid))){ auto&s=swv[{curRound,c,ci}]; if(!s) s=tm.var(1,"stop_r"+std::to_string(curRound)+"_t"+std::to_string(curTid)+"_"+locOf(ci)); sw=s; stops++; }
    T st=tm.mkAnd(g,sw), go=tm.mkAnd(g,tm.mkNot(sw));
    ev.push_back({'Y',curRound,curTid,go,0,locOf(ci)});
    if(st!=tm.fls){ Pending p{c,ci->getParent(),ci->getIterator(),st,{},true}; auto&m=resume[curTid]; auto it=m.find(k); if(it==m.end()) m.emplace(k,p); else it->second.g=tm.mkOr(it->second.g,st); }
    return go; }
  bool lastThreadOpt(int tid){ return false; }
  void runPending(Key k0, Pending p){
    Ctx*c=p.ctx; T g=p.g; segs++; for(auto&x:p.phis) setReg(c,x.first,x.second,x.g);
    if(c->loop && p.bb==c->loop->getHeader() && p.it==p.bb->getFirstNonPHI()->getIterator()) headG[c]=g;
    bool first=true; 
    for(auto it=p.it;;++it,first=false){ Instruction*I=&*it; steps++; if(steps>maxsteps) die("step limit"); if(g==tm.fls) return;
      switch(I->getOpcode()){
      case Instruction::Call: { auto*ci=cast<CallInst>(I); int r=call(c,ci,g,first,k0); if(r==1) return; break; }
      case Instruction::Ret: { auto*ri=cast<ReturnInst>(I); doRet(c,ri->getReturnValue()?eval(c,ri->getReturnValue(),g):0,g); return; }
      case Instruction::Br: { auto*b=cast<BranchInst>(I); if(b->isUnconditional()) edge(c,p.bb,b->getSuccessor(0),g); else { T cd=eval(c,b->getCondition(),g); T g1=tm.mkAnd(g,cd), g2=tm.mkAnd(g,tm.mkNot(cd)); if(b->getSuccessor(0)==b->getSuccessor(1)) edge(c,p.bb,b->getSuccessor(0),g); else { if(prune>=2&&g1!=tm.fls&&g2!=tm.fls&&!c->fr->atomic){ if(!feas(g1)) { g1=tm.fls; g2=g; } else if(!feas(g2)) { g2=tm.fls; g1=g; } } edge(c,p.bb,b->getSuccessor(0),g1); edge(c,p.bb,b->getSuccessor(1),g2);} } return; }
      case Instruction::Switch: { auto*s=cast<SwitchInst>(I); T v=eval(c,s->getCondition(),g); map<BasicBlock*,T> gs; vector<BasicBlock*> ord; T rest=g; for(auto&cs:s->cases()){ T e=tm.eq(v,constant(cs.getCaseValue())); T ge=tm.mkAnd(rest,e); rest=tm.mkAnd(rest,tm.mkNot(e)); BasicBlock*b=cs.getCaseSuccessor(); if(!gs.count(b)){ gs[b]=tm.fls; ord.push_back(b);} gs[b]=tm.mkOr(gs[b],ge); } BasicBlock*d=s->getDefaultDest(); if(!gs.count(d)){gs[d]=tm.fls;ord.push_back(d);} gs[d]=tm.mkOr(gs[d],rest); for(auto*b:ord) edge(c,p.bb,b,gs[b]); return; }
      case Instruction::Unreachable: { unw.push_back({tm.mkAnd(g,assumeAll),"unreachable",locOf(I),"unreachable"}); assumeAll=tm.mkAnd(assumeAll,tm.mkNot(g)); return; }
      default: simple(c,I,g); }
      if(pendingAssume){ pendingAssume=false; g=tm.mkAnd(g,curAssume); }
    } }
  bool pendingAssume=false; T curAssume;
  void doRet(Ctx*c,T rv,T g){ Frame*f=c->fr; if(!f->callI){ if(f->tid>=0 && threaded) done[f->tid]=tm.mkOr(done[f->tid],g); return; }
    Instruction*ci=f->callI; vector<pair<Value*,T>> ph; if(rv && !ci->getType()->isVoidTy()){ int W=width(ci->getType()); if(tm.w(rv)!=W) rv=tm.w(rv)>W?tm.mkExtract(rv,0,W):tm.mkZext(rv,W); ph.push_back({ci,rv}); }
    else if(!ci->getType()->isVoidTy()) ph.push_back({ci,cst(width(ci->getType()),0)});
    auto nx=std::next(ci->getIterator()); push(key(f->callCtx,ci->getParent(),idxOf(ci)+1),f->callCtx,ci->getParent(),nx,g,ph); }
  void simple(Ctx*c,Instruction*I,T g){
    if(auto*b=dyn_cast<BinaryOperator>(I)){ static const map<unsigned,Op> mp={{Instruction::Add,ADD},{Instruction::Sub,SUB},{Instruction::Mul,MUL},{Instruction::UDiv,UDIV},{Instruction::SDiv,SDIV},{Instruction::URem,UREM},{Instruction::SRem,SREM},{Instruction::Shl,SHL},{Instruction::LShr,LSHR},{Instruction::AShr,ASHR},{Instruction::And,AND},{Instruction::Or,OR},{Instruction::Xor,XOR}}; auto it=mp.find(b->getOpcode()); if(it==mp.end()) die("binop "+string(b->getOpcodeName()));
      T x=eval(c,b->getOperand(0),g),y=eval(c,b->getOperand(1),g); if(it->second==UDIV||it->second==SDIV||it->second==UREM||it->second==SREM){ T z=tm.mkAnd(g,tm.eq(y,cst(tm.w(y),0))); violate(z,"division by zero",I,"arith"); }
      if((it->second==SHL||it->second==LSHR||it->second==ASHR)&&(tm.w(y)==32||tm.w(y)==64)) y=tm.mkBin(AND,y,cst(tm.w(y),tm.w(y)-1)); // x86 masks shift counts
      if(b->getOpcode()==Instruction::Add||b->getOpcode()==Instruction::Sub||b->getOpcode()==Instruction::Mul) if(auto*ob=dyn_cast<OverflowingBinaryOperator>(b)) if(ob->hasNoSignedWrap() && ovf) checkOvf(b,x,y,g);
      setReg(c,I,tm.mkBin(it->second,x,y),g); return; }
    switch(I->getOpcode()){
    case Instruction::ICmp: { auto*ic=cast<ICmpInst>(I); T a=eval(c,ic->getOperand(0),g),b=eval(c,ic->getOperand(1),g); T r; switch(ic->getPredicate()){ case ICmpInst::ICMP_EQ: r=tm.eq(a,b); break; case ICmpInst::ICMP_NE: r=tm.mkNot(tm.eq(a,b)); break; case ICmpInst::ICMP_ULT: r=tm.mkBin(ULT,a,b); break; case ICmpInst::ICMP_UGE: r=tm.mkNot(tm.mkBin(ULT,a,b)); break; case ICmpInst::ICMP_UGT: r=tm.mkBin(ULT,b,a); break; case ICmpInst::ICMP_ULE: r=tm.mkNot(tm.mkBin(ULT,b,a)); break; case ICmpInst::ICMP_SLT: r=tm.mkBin(SLT,a,b); break; case ICmpInst::ICMP_SGE: r=tm.mkNot(tm.mkBin(SLT,a,b)); break; case ICmpInst::ICMP_SGT: r=tm.mkBin(SLT,b,a); break; case ICmpInst::ICMP_SLE: r=tm.mkNot(tm.mkBin(SLT,b,a)); break; default: die("icmp"); } setReg(c,I,r,g); return; }
    case Instruction::Select: { auto*s=cast<SelectInst>(I); setReg(c,I,tm.mkIte(eval(c,s->getCondition(),g),eval(c,s->getTrueValue(),g),eval(c,s->getFalseValue(),g)),g); return; }
    case Instruction::Trunc: setReg(c,I,tm.mkExtract(eval(c,I->getOperand(0),g),0,width(I->getType())),g); return;
    case Instruction::ZExt: setReg(c,I,tm.mkZext(eval(c,I->getOperand(0),g),width(I->getType())),g); return;
    case Instruction::SExt: setReg(c,I,tm.mkSext(eval(c,I->getOperand(0),g),width(I->getType())),g); return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { T a=eval(c,I->getOperand(0),g); int W=width(I->getType()); setReg(c,I,W<=tm.w(a)?tm.mkExtract(a,0,W):tm.mkZext(a,W),g); return; }
    case Instruction::Freeze: setReg(c,I,eval(c,I->getOperand(0),g),g); return;
    case Instruction::Fence: return;
    case Instruction::GetElementPtr: { auto*gp=cast<GetElementPtrInst>(I); T a=eval(c,gp->getPointerOperand(),g); uint64_t k=0; T var=0; for(auto gti=gep_type_begin(gp),e=gep_type_end(gp);gti!=e;++gti){ Value*op=gti.getOperand(); if(StructType*st=gti.getStructTypeOrNull()){ k+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); } else { uint64_t es=DL->getTypeAllocSize(gti.getIndexedType()); if(auto*ki=dyn_cast<ConstantInt>(op)) k+=es*(uint64_t)ki->getSExtValue(); else { T ix=eval(c,op,g); ix= tm.w(ix)<64?tm.mkSext(ix,64):ix; T m=tm.mkBin(MUL,ix,cst(64,es)); var=var?tm.mkBin(ADD,var,m):m; } } }
      if(var) a=tm.mkBin(ADD,a,var); a=tm.mkBin(ADD,a,cst(64,k)); setReg(c,I,a,g); return; }
    case Instruction::Load: { auto*l=cast<LoadInst>(I); int W=width(l->getType()); int n=DL->getTypeStoreSize(l->getType()); T v=load(eval(c,l->getPointerOperand(),g),n,g,I); if(tm.w(v)!=W) v=tm.mkExtract(v,0,W); setReg(c,I,v,g); return; }
    case Instruction::Store: { auto*s=cast<StoreInst>(I); T v=eval(c,s->getValueOperand(),g); int n=DL->getTypeStoreSize(s->getValueOperand()->getType()); if(tm.w(v)<n*8) v=tm.mkZext(v,n*8); store(eval(c,s->getPointerOperand(),g),n,v,g,I); return; }
    case Instruction::AtomicRMW: { auto*r=cast<AtomicRMWInst>(I); T a=eval(c,r->getPointerOperand(),g); int n=DL->getTypeStoreSize(r->getValOperand()->getType()); T old=load(a,n,g,I), v=eval(c,r->getValOperand(),g), nv; switch(r->getOperation()){ case AtomicRMWInst::Xchg: nv=v; break; case AtomicRMWInst::Add: nv=tm.mkBin(ADD,old,v); break; case AtomicRMWInst::Sub: nv=tm.mkBin(SUB,old,v); break; case AtomicRMWInst::And: nv=tm.mkBin(AND,old,v); break; case AtomicRMWInst::Or: nv=tm.mkBin(OR,old,v); break; case AtomicRMWInst::Xor: nv=tm.mkBin(XOR,old,v); break; default: die("atomicrmw"); } store(a,n,nv,g,I); setReg(c,I,old,g); return; }
    case Instruction::AtomicCmpXchg: { auto*x=cast<AtomicCmpXchgInst>(I); T a=eval(c,x->getPointerOperand(),g); int n=DL->getTypeStoreSize(x->getCompareOperand()->getType()); T old=load(a,n,g,I); T e=tm.eq(old,eval(c,x->getCompareOperand(),g)); store(a,n,tm.mkIte(e,eval(c,x->getNewValOperand(),g),old),g,I); setReg(c,I,old,g); for(auto*u:x->users()) if(auto*ev=dyn_cast<ExtractValueInst>(u)) setReg(c,ev,ev->getIndices()[0]==0?old:e,g); return; }
    case Instruction::ExtractValue: if(isa<AtomicCmpXchgInst>(I->getOperand(0))||isa<WithOverflowInst>(I->getOperand(0))) return; die("extractvalue");
    default: die(string("unsupported instruction ")+I->getOpcodeName()+" in "+locOf(I)); } }
  bool ovf=true;
  void checkOvf(BinaryOperator*b,T x,T y,T g){ int W=tm.w(x); if(W>32||tm.isC(tm.mkBin(EQ,x,y))&&false) return; if(tm.isC(x)&&tm.isC(y)&&false) return; T r; Op op=b->getOpcode()==Instruction::Add?ADD:b->getOpcode()==Instruction::Sub?SUB:MUL; if(tm.n[x].op!=CONST||tm.n[y].op!=CONST){ T wx=tm.mkSext(x,W+W),wy=tm.mkSext(y,W+W); r=tm.mkBin(op,wx,wy); T n=tm.mkSext(tm.mkBin(op,x,y),W+W); T bad=tm.mkAnd(g,tm.mkNot(tm.eq(r,n))); (void)bad; if(ovfReport) violate(bad,"signed overflow",b,"arith"); } }
  bool ovfReport=false;
  // returns 1 if the segment ends here
  int call(Ctx*c,CallInst*ci,T &g,bool first,const Key&k0){
    if(isa<DbgInfoIntrinsic>(ci)) return 0;
    auto arg=[&](int i){ return eval(c,ci->getArgOperand(i),g); };
    if(auto*mi=dyn_cast<MemIntrinsic>(ci)){ memop(c,mi,g); return 0; }
    if(auto*ii=dyn_cast<IntrinsicInst>(ci)){ switch(ii->getIntrinsicID()){ case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: return 0; case Intrinsic::frameaddress: setRet(c,ci,cst(64,0),g); return 0; case Intrinsic::stacksave: case Intrinsic::stackrestore: die("stacksave");
        case Intrinsic::expect: setRet(c,ci,arg(0),g); return 0; 
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { T a=arg(0),b=arg(1); T l=tm.mkBin(ii->getIntrinsicID()==Intrinsic::umin||ii->getIntrinsicID()==Intrinsic::umax?ULT:SLT,a,b); bool mn=ii->getIntrinsicID()==Intrinsic::umin||ii->getIntrinsicID()==Intrinsic::smin; setRet(c,ci,mn?tm.mkIte(l,a,b):tm.mkIte(l,b,a),g); return 0; }
        case Intrinsic::abs: { T a=arg(0); setRet(c,ci,tm.mkIte(tm.mkBin(SLT,a,cst(tm.w(a),0)),tm.mkBin(SUB,cst(tm.w(a),0),a),a),g); return 0; }
        case Intrinsic::ctpop: { T a=arg(0); int W=tm.w(a); T s=cst(W,0); for(int i=0;i<W;i++) s=tm.mkBin(ADD,s,tm.mkZext(tm.mkExtract(a,i,1),W)); setRet(c,ci,s,g); return 0; }
        case Intrinsic::fshl: case Intrinsic::fshr: default: die("unsupported intrinsic "+ii->getCalledFunction()->getName().str()); } }
    Function*F=ci->getCalledFunction();
    if(!F){ Value*cv=ci->getCalledOperand()->stripPointerCasts(); if(auto*a=dyn_cast<GlobalAlias>(cv)) cv=a->getAliasee()->stripPointerCasts(); F=dyn_cast<Function>(cv); }
    vector<T> args; for(unsigned i=0;i<ci->arg_size();i++) { if(ci->getArgOperand(i)->getType()->isMetadataTy()) { args.push_back(0); continue; } args.push_back(arg(i)); }
    if(!F){ T fp=eval(c,ci->getCalledOperand(),g); auto L=tm.full(fp); T rest=g; int cand=0; for(uint64_t a:L.v){ T e=tm.eq(fp,cst(64,a)); T ga=tm.mkAnd(g,e); rest=tm.mkAnd(rest,tm.mkNot(e)); if(ga==tm.fls) continue; Obj*o=objAt(a); if(!o||!o->isfn||a!=o->base){ violate(ga,"call through invalid function pointer",ci); continue; }
        if(o->fn->isDeclaration()) die("indirect call to undefined "+o->fn->getName().str());
        enter(o->fn,c,ci,ga,args,(int)(o-&objs[0])); (void)cand; }
      if(rest!=tm.fls){ if(L.nonconst) violate(rest,"call through wild function pointer",ci); }
      return 1; }
    StringRef nm=F->getName();
    if(starts(nm,"__vx_")||F->isDeclaration()) { int r=builtin(c,ci,F,args,g,first,k0); if(r>=0) return r; }
    if(F->isDeclaration()&&starts(nm,"__vx_")) die("missing primitive "+nm.str());
    if(prune>=1&&!F->isDeclaration()&&!starts(nm,"__vx_")&&!feas(g)) return 1;
    if(F->isDeclaration()){ // unmodelled external: nondet result
      if(unmodeled.insert(nm.str()).second) {} if(!ci->getType()->isVoidTy()) { auto&v=ndv[{c,ci}]; if(!v) v=tm.var(width(ci->getType()),"ext:"+nm.str()); ev.push_back({'X',curRound,tidNow(g),g,v,nm.str()}); setRet(c,ci,v,g);} return 0; }
    enter(F,c,ci,g,args,0); return 1; }
  void memop(Ctx*c,MemIntrinsic*mi,T g){ T len=eval(c,mi->getLength(),g); if(!tm.isC(len)) { auto L=tm.full(len); if(L.nonconst) die("symbolic memop length at "+locOf(mi)); for(uint64_t n:L.v) memop1(c,mi,n,tm.mkAnd(g,tm.eq(len,cst(tm.w(len),n)))); return; } memop1(c,mi,tm.n[len].v,g); }
  void memop1(Ctx*c,MemIntrinsic*mi,uint64_t n,T g){ if(g==tm.fls||n==0) return; T d=eval(c,mi->getRawDest(),g); if(auto*ms=dyn_cast<MemSetInst>(mi)){ T v=eval(c,ms->getValue(),g); auto tg=resolve(d,n,g,mi,true); for(auto&t:tg) for(uint64_t i=0;i<n;){ Obj&o=objs[t.id]; int k=8; while(k>1&&(((t.off+i)%k)||i+k>n)) k/=2; for(;k>1;k/=2){ bool ok=true; for(int j=1;j<k&&ok;j++){ ByteRef p1=o.b[t.off+i+j-1],p2=o.b[t.off+i+j]; if(!((p1.t==p2.t&&p2.idx==p1.idx+1)||(tm.isC(p1.t)&&tm.isC(p2.t)))) ok=false; } if(ok) break; } T vv=v; for(int j=1;j<k;j++) vv=tm.mkConcat(v,vv); T old=rawLoad(o,t.off+i,k); if(t.g==tm.tru||old==vv) rawStore(o,t.off+i,k,vv); else rawStore(o,t.off+i,k,tm.mkIte(t.g,vv,old)); i+=k; } return; }
    auto*mt=cast<MemTransferInst>(mi); T s=eval(c,mt->getRawSource(),g); auto ts=resolve(s,n,g,mi,false); auto td=resolve(d,n,g,mi,true); if(ts.empty()||td.empty()) return; vector<pair<int,T>> ch; uint64_t i=0; // chunks aligned to source terms
    while(i<n){ int w=1; for(int k:{8,4,2}) { if(i+k>n||((ts[0].off+i)%k)) continue; bool ok=true; for(auto&t:ts){ Obj&o=objs[t.id]; ByteRef f=o.b[t.off+i]; for(int j=1;j<k&&ok;j++){ ByteRef p1=o.b[t.off+i+j-1], p2=o.b[t.off+i+j]; if(!((p1.t==p2.t&&p2.idx==p1.idx+1)||(tm.isC(p1.t)&&tm.isC(p2.t)))) ok=false; } } if(ok){ w=k; break; } } 
      T r=rawLoad(objs[ts[0].id],ts[0].off+i,w); for(size_t q=1;q<ts.size();q++) r=tm.mkIte(ts[q].g,rawLoad(objs[ts[q].id],ts[q].off+i,w),r); ch.push_back({w,r}); i+=w; }
    for(auto&t:td){ uint64_t o=0; for(auto&x:ch){ T old=rawLoad(objs[t.id],t.off+o,x.first); rawStore(objs[t.id],t.off+o,x.first,tm.mkIte(t.g,x.second,old)); if(objs[t.id].escaped) escape(x.second); o+=x.first; } } }
  string path(Ctx*c,const Instruction*I){ string s; for(Frame*f=c->fr;f;f=f->parent){ s+= f->f->getName().str(); if(f->callI) s+="/"+std::to_string(idxOf(f->callI)); s+="."; } Key k=key(c,const_cast<BasicBlock*>(I->getParent()),idxOf(I)); uint64_t h=1469598103934665603ull; for(int x:k){ h^=(uint32_t)x; h*=1099511628211ull; } h^=c->fr->tid*7919; char b[32]; sprintf(b,"#%08llx",(unsigned long long)(h&0xffffffff)); return c->fr->f->getName().str()+":"+(I->hasName()?I->getName().str():"")+b; }
  int builtin(Ctx*c,CallInst*ci,Function*F,vector<T>&a,T&g,bool first,const Key&k0){
    StringRef n=F->getName();
    if(n=="__vx_access"||n=="__vx_yield"||n=="__vx_wait_begin"){
      if(!threaded||c->fr->atomic||c->fr->atomicNow){ if(n=="__vx_access"&&!probe&&threaded) visibleAccess(a[0],tm.isC(a[1])?tm.n[a[1]].v:1,tm.n[a[2]].v,g); return 0; }
      Key k=key(c,ci->getParent(),idxOf(ci));
      if(probe){ if(first && n=="__vx_wait_begin") return 0; if (first) return 1; if(n=="__vx_access") return 0; return 1; }
      if(!first){ auto it=wl.find(k); if(it!=wl.end()){ push(k,c,ci->getParent(),ci->getIterator(),g,{}); return 1; } }
      bool visb=true; 
      if(n=="__vx_access"){ int fl=tm.n[a[2]].v; int sz=tm.isC(a[1])?tm.n[a[1]].v:1; visb=visibleAccess(a[0],sz,fl,g); if(vis==0&&!(fl&2)) visb=false; if(vis==1&&!(fl&6)) visb=false; }
      if(first&&resume_pending) visb=true;
      g=yieldAt(c,ci,k,g,visb); return g==tm.fls?1:0; }
    if(n=="__vx_atomic_begin"){ c->fr->atomicNow=true; return 0; } if(n=="__vx_atomic_end"){ c->fr->atomicNow=false; return 0; }
    if(n=="__vx_wait_end"){ T cd=tm.mkNot(tm.eq(a[0],cst(tm.w(a[0]),0))); if(probe){ stuck[curTid]=tm.mkOr(stuck[curTid],tm.mkAnd(g,tm.mkNot(cd))); return 1; } if(!threaded) violate(tm.mkAnd(g,tm.mkNot(cd)),"a call blocks for ever although no other thread can run",ci,"assert"); assumeAll=tm.mkAnd(assumeAll,tm.implT(g,cd)); g=tm.mkAnd(g,cd); return g==tm.fls?1:0; }
    if(n=="__vx_assume"){ T cd=tm.mkNot(tm.eq(a[0],cst(tm.w(a[0]),0))); assumeAll=tm.mkAnd(assumeAll,tm.implT(g,cd)); g=tm.mkAnd(g,cd); return g==tm.fls?1:0; }
    if(n=="__vx_assert"){ T cd=tm.mkNot(tm.eq(a[0],cst(tm.w(a[0]),0))); string m=cstr(c,ci->getArgOperand(1)); nasserts++; violate(tm.mkAnd(g,tm.mkNot(cd)),m,ci,"assert"); ev.push_back({'A',curRound,tidNow(g),g,cd,m}); g=tm.mkAnd(g,cd); return g==tm.fls?1:0; }
    if(n=="__vx_cover"){ string m=cstr(c,ci->getArgOperand(0)); auto it=covers.find(m); T x=tm.mkAnd(g,assumeAll); if(it==covers.end()) covers[m]=x; else it->second=tm.mkOr(it->second,x); ev.push_back({'C',curRound,tidNow(g),g,0,m}); return 0; }
    if(starts(n,"__vx_nondet")){ auto&v=ndv[{c,ci}]; int W=width(ci->getType()); if(!v) v=tm.var(W,cstr(c,ci->getArgOperand(0))); ev.push_back({'N',curRound,tidNow(g),g,v,cstr(c,ci->getArgOperand(0))}); setRet(c,ci,v,g); return 0; }
    if(n=="__vx_tid"){ setRet(c,ci,threaded?cst(32,curTid):tm.simpUnder(seqTid,g),g); return 0; }
    if(n=="__vx_set_tid"){ seqTid=tm.mkIte(g,a[0],seqTid); return 0; }
    if(n=="__vx_round"){ setRet(c,ci,cst(32,curRound),g); return 0; }
    if(n=="__vx_done"||n=="__vx_stuck"){ if(!tm.isC(a[0])) die("done arg"); int t=tm.n[a[0]].v; T x=n=="__vx_done"?done[t]:stuck[t]; setRet(c,ci,tm.mkZext(x,32),g); return 0; }
    if(n=="__vx_thread_exit"){ if(threaded) done[c->fr->tid]=tm.mkOr(done[c->fr->tid],g); return 1; }
    if(n=="__vx_alloca"||n=="__vx_alloc"){ bool heap=n=="__vx_alloc"; uint64_t sz; if(!tm.isC(a[0])) { auto L=tm.full(a[0]); if(L.nonconst||L.v.empty()) die("symbolic allocation size at "+locOf(ci)); sz=L.v.back(); } else sz=tm.n[a[0]].v; bool zero=heap && tm.isC(a[1]) && tm.n[a[1]].v; auto it=allocv.find({c,ci}); uint64_t id; 
      if(it==allocv.end()){ string nm=path(c,ci); id=newObj(sz,nm,heap?1:2); initBytes(objs[id],0,zero); if(!zero) objs[id].init=objs[id].b; objs[id].alive=tm.fls; allocv[{c,ci}]=id; } else id=it->second; 
      objs[id].alive=tm.mkOr(objs[id].alive,g); setRet(c,ci,cst(64,objs[id].base),g); if(!zero) for(uint32_t i=0;i<objs[id].size;i+=8) { int nn=std::min<uint32_t>(8,objs[id].size-i); (void)nn; }
      if(!zero) ev.push_back({'L',curRound,tidNow(g),g,cst(64,id),""}); return 0; }
    if(n=="__vx_dealloca"){ auto L=tm.full(a[0]); for(uint64_t ad:L.v){ Obj*o=objAt(ad); if(o) { T e=tm.mkAnd(g,tm.eq(a[0],cst(64,ad))); o->alive=tm.mkAnd(o->alive,tm.mkNot(e)); } } return 0; }
    if(n=="__vx_free"){ T ad=tm.simpUnder(a[0],g); auto L=tm.full(ad); T rest=g; for(uint64_t x:L.v){ T e=tm.mkAnd(g,tm.eq(ad,cst(64,x))); rest=tm.mkAnd(rest,tm.mkNot(tm.eq(ad,cst(64,x)))); if(e==tm.fls||x==0) continue; Obj*o=objAt(x); if(!o||x!=o->base||o->kind!=1){ violate(e,"free of non-heap pointer",ci); continue; } violate(tm.mkAnd(e,tm.mkNot(o->alive)),"double free of "+o->name,ci); if(threaded){ auto&v=acc1[o->name]; if(v.size()<o->size) v.resize(o->size,{0,0}); for(auto&q:v) q.second|=1u<<curTid; } o->alive=tm.mkAnd(o->alive,tm.mkNot(e)); } if(L.nonconst) violate(rest,"free of wild pointer",ci); return 0; }
    if(n=="__vx_live"){ auto L=tm.full(a[0]); T r=tm.fls; for(uint64_t x:L.v){ Obj*o=objAt(x); if(o) r=tm.mkOr(r,tm.mkAnd(tm.eq(a[0],cst(64,x)),o->alive)); } setRet(c,ci,tm.mkZext(r,32),g); return 0; }
    if(n=="__vx_nlive"){ // number of live heap objects (excluding those named in exclusions)
      T s=cst(32,0); for(auto&o:objs) if(o.kind==1) s=tm.mkBin(ADD,s,tm.mkZext(o.alive,32)); setRet(c,ci,s,g); return 0; }
    if(n=="_setjmp"||n=="setjmp"||n=="__intrinsic_setjmp"||n=="_setjmpex"||n=="__intrinsic_setjmpex"||n=="__mingw_setjmp"){ int id=-1; for(size_t i=0;i<sjs.size();i++) if(sjs[i].ctx==c&&sjs[i].I==ci) id=i; if(id<0){ id=sjs.size(); sjs.push_back({c,ci}); } store(a[0],8,cst(64,0x5a000000ull+id),g,ci); setRet(c,ci,cst(32,0),g); return 0; }
    if(n=="longjmp"||n=="__vx_longjmp"){ T v=load(a[0],8,g,ci); auto L=tm.full(v); if(L.nonconst) violate(g,"longjmp through uninitialised buffer",ci); for(uint64_t x:L.v){ T e=tm.mkAnd(g,tm.eq(v,cst(64,x))); if(e==tm.fls) continue; if(x<0x5a000000ull||x-0x5a000000ull>=sjs.size()){ violate(e,"longjmp through invalid buffer",ci); continue; } SjInfo s=sjs[x-0x5a000000ull];
          // is the target frame on our stack?
          bool on=false; for(Frame*f=c->fr;f;f=f->parent) if(f==s.ctx->fr) on=true; if(!on){ violate(e,"longjmp to a frame that is not active",ci); continue; }
          // kill stack objects of abandoned frames
          for(Frame*f=c->fr;f&&f!=s.ctx->fr;f=f->parent) killFrame(f,e);
          Ctx*&k=s.ctx->sjKid; if(!k){ k=newCtx(s.ctx->fr,s.ctx,nullptr,0,0); k->keyBase=s.ctx->fr->prefix; k->keyBase.push_back(1); k->keyBase.push_back(s.I->getParent()?1:1); }
          T val=a[1]; val=tm.mkIte(tm.eq(val,cst(32,0)),cst(32,1),val); auto nx=std::next(s.I->getIterator()); push(key(k,s.I->getParent(),idxOf(s.I)+1),k,s.I->getParent(),nx,e,{{s.I,val}}); } return 1; }
    if(n=="__vx_concrete_tid") return 0;
    if(n=="__vx_note"){ ev.push_back({'O',curRound,tidNow(g),g,a.size()>1?a[1]:0,cstr(c,ci->getArgOperand(0))}); return 0; }
    return -1; }
  void killFrame(Frame*f,T e){ for(auto&kv:allocv){ Ctx*x=kv.first.first; if(x->fr==f && objs[kv.second].kind==2) objs[kv.second].alive=tm.mkAnd(objs[kv.second].alive,tm.mkNot(e)); } }
  T seqTid=0; int tidNow(T g){ if(threaded) return curTid; T t=tm.simpUnder(seqTid,g); return tm.isC(t)?(int)tm.n[t].v:-(int)t; /* negative: a term, evaluated in the model */ }
  long nasserts=0; bool resume_pending=false;
  map<string,pair<long,long>> prof; bool profOn=getenv("LSX_PROF")!=nullptr;
  void drain(){ while(!wl.empty()){ auto it=wl.begin(); Key k=it->first; Pending p=it->second; wl.erase(it); resume_pending=p.resumed; size_t n0=tm.n.size(); runPending(k,p); if(profOn){ auto&q=prof[p.ctx->fr->f->getName().str()]; q.first+=tm.n.size()-n0; q.second++; } } }
  void runSeq(const char*fn){ seqTid=cst(32,0); Function*F=M->getFunction(fn); if(!F||F->isDeclaration()) return; threaded=false; Frame*f=newFrame(F,nullptr,nullptr,nullptr,{-1,frameCnt},0); f->atomic=true; push(key(f->root,&F->getEntryBlock(),0),f->root,&F->getEntryBlock(),F->getEntryBlock().begin(),tm.tru,{}); drain(); }
  void runAll(){
    assumeAll=tm.tru; done.assign(nthreads+1,tm.fls); stuck.assign(nthreads+1,tm.fls); resume.assign(nthreads+1,{}); tframe.assign(nthreads+1,nullptr);
    for(auto&G:M->globals()) addrOf(&G);
    curTid=0; curRound=-1; runSeq("vx_setup"); curTid=0;
    if(nthreads>0){ threaded=true;
      for(int t=1;t<=nthreads;t++){ Function*F=M->getFunction("vx_thread"+std::to_string(t)); if(!F) die("no thread entry"); tframe[t]=newFrame(F,nullptr,nullptr,nullptr,{t},t); tframe[t]->atomic=false; }
      vector<T> notstarted(nthreads+1,tm.tru);
      for(int r=0;r<rounds;r++) for(int t=1;t<=nthreads;t++){ curRound=r; curTid=t; wl.clear(); map<Key,Pending> rs; rs.swap(resume[t]); Frame*f=tframe[t]; BasicBlock*b=&f->f->getEntryBlock();
          if(notstarted[t]!=tm.fls){ T s=tm.fls; if(!(r==0&&t==1)) s=tm.var(1,"nostart_r"+std::to_string(r)+"_t"+std::to_string(t)); T go=tm.mkAnd(notstarted[t],tm.mkNot(s)); notstarted[t]=tm.mkAnd(notstarted[t],s); ev.push_back({'Y',r,t,go,0,"start"}); push(key(f->root,b,0),f->root,b,b->begin(),go,{}); }
          for(auto&kv:rs){ T gg=tm.mkAnd(kv.second.g,tm.mkNot(done[t])); if(!feas(gg)) continue; push(kv.first,kv.second.ctx,kv.second.bb,kv.second.it,gg,{},true); }
          if(getenv("LSX_TRACE")) fprintf(stderr,"round %d thread %d: pending %zu terms %zu\n",r,t,wl.size(),tm.n.size());
          drain(); }
      // probe
      auto sv=objs; T sa=assumeAll; size_t nv=viol.size(), nu=unw.size(), ne=ev.size(); auto scov=covers; probe=true; curRound=rounds; for(int t=1;t<=nthreads;t++){ curTid=t; wl.clear(); auto dsave=done; for(auto&kv:resume[t]) { CallInst*ci=dyn_cast<CallInst>(&*kv.second.it); if(ci&&ci->getCalledFunction()&&ci->getCalledFunction()->getName()=="__vx_wait_begin") push(kv.first,kv.second.ctx,kv.second.bb,kv.second.it,kv.second.g,{},true); } drain(); done=dsave; objs=sv; }
      probe=false; assumeAll=sa; viol.resize(nv); unw.resize(nu); ev.resize(ne); covers=scov; threaded=false; }
    curTid=0; curRound=rounds; runSeq("vx_final"); if(profOn){ if(pr) fprintf(stderr,"PRUNE queries %ld unsat %ld unknown %ld modelhits %ld time %.2f\n",pr->q,pr->unsat,pr->unk,pr->hit,pr->time); vector<pair<long,string>> v; for(auto&k:prof) v.push_back({k.second.first,k.first}); std::sort(v.rbegin(),v.rend()); for(size_t i=0;i<v.size()&&i<25;i++) fprintf(stderr,"PROF %9ld terms %7ld segs %s\n",v[i].first,prof[v[i].second].second,v[i].second.c_str()); } }
};

static string jstr(const string&s){ return "\""+Engine::esc(s)+"\""; }
static int runMain(int argc,char**argv){
  LLVMContext C; SMDiagnostic err; string file=argv[2]; auto M=parseIRFile(file,err,C); if(!M){ err.print("lsx",errs()); return 3; }
  int nthreads=0,rounds=1,unwind=3,vis=2; double timeout=300; string work="/tmp",trace,solver="kissat",smt; map<string,int> ufn; std::set<string> afn; int prune=2; bool nocover=false, noreduce=false, ovfrep=false; 
  for(int i=3;i<argc;i++){ string a=argv[i]; auto nx=[&]{ return string(argv[++i]); }; if(a=="--threads") nthreads=atoi(nx().c_str()); else if(a=="--rounds") rounds=atoi(nx().c_str()); else if(a=="--unwind") unwind=atoi(nx().c_str()); else if(a=="--vis") vis=atoi(nx().c_str()); else if(a=="--timeout") timeout=atof(nx().c_str()); else if(a=="--work") work=nx(); else if(a=="--trace") trace=nx(); else if(a=="--solver") solver=nx(); else if(a=="--smt") smt=nx(); else if(a=="--no-cover") nocover=true; else if(a=="--no-reduce") noreduce=true; else if(a=="--overflow") ovfrep=true; else if(a=="--atomic-fn"){ std::stringstream ss(nx()); string x; while(getline(ss,x,',')) afn.insert(x); } else if(a=="--prune") prune=atoi(nx().c_str()); else if(a=="--unwind-fn"){ string s=nx(); auto p=s.find(':'); ufn[s.substr(0,p)]=atoi(s.c_str()+p+1);} else { fprintf(stderr,"bad arg %s\n",a.c_str()); return 3; } }
  double t0=Solver::now(); std::map<string, vector<pair<uint32_t,uint32_t>>> acc; std::unique_ptr<Engine> E; int passes=0;
  for(int pass=0;pass<(nthreads>1&&!noreduce?2:1);pass++){ E=std::make_unique<Engine>(); E->M=M.get(); E->DL=&M->getDataLayout(); E->nthreads=nthreads; E->tm.lin=nthreads<=1; E->rounds=rounds; E->unwind=unwind; E->vis=vis; E->unwindFn=ufn; E->atomicFns=afn; E->prune=prune; E->ovfReport=ovfrep; if(pass==1) E->prevAcc=&acc; E->runAll(); passes++; if(pass==0) acc=E->acc1; }
  double enc=Solver::now()-t0; Engine&e=*E; Terms&tm=e.tm; Solver S; S.workdir=work; S.timeout=timeout; S.prog=solver;
  T any=tm.fls; for(auto&v:e.viol) any=tm.mkOr(any,v.cond); vector<uint64_t> val; 
  string status; string vmsg,vloc; SolveRes R=R_UNSAT; long nv=0,nc=0; double ts0=S.totalTime;
  if(!smt.empty()) Solver::dumpSmt(tm,{any},smt);
  if(any!=tm.fls) { R=S.solve(tm,{any},val,"viol"); nv=S.lastVars; nc=S.lastClauses; }
  double tviol=S.totalTime-ts0;
  auto writeTrace=[&](const string&fn){ if(fn.empty()) return; FILE*f=fopen(fn.c_str(),"w"); if(!f) return; // events under model
    for(int t=0;t<=nthreads;t++) fprintf(f,"thread %d\n",t); 
    map<pair<int,int>,long> yc; vector<pair<int,int>> order; 
    for(int r=0;r<rounds;r++) for(int t=1;t<=nthreads;t++){ order.push_back({r,t}); yc[{r,t}]=0; }
    for(auto x:e.ev){ if(!tm.eval(x.g,val)) continue; if(x.tid<0) x.tid=(int)tm.eval((T)-x.tid,val); if(x.k=='Y') yc[{x.round,x.tid}]++; else if(x.k=='N') fprintf(f,"N %d %d %llu %s\n",x.round,x.tid,(unsigned long long)tm.eval(x.v,val),x.s.c_str()); else if(x.k=='X') fprintf(f,"X %d %d %llu %s\n",x.round,x.tid,(unsigned long long)tm.eval(x.v,val),x.s.c_str()); else if(x.k=='C') fprintf(f,"C %d %d 0 %s\n",x.round,x.tid,x.s.c_str()); else if(x.k=='O') fprintf(f,"O %d %d %llu %s\n",x.round,x.tid,x.v?(unsigned long long)tm.eval(x.v,val):0,x.s.c_str()); else if(x.k=='A') fprintf(f,"A %d %d %d %s\n",x.round,x.tid,(int)tm.eval(x.v,val),x.s.c_str());
      else if(x.k=='L'){ uint64_t id=tm.n[x.v].v; fprintf(f,"L %d %d %u ",x.round,x.tid,e.objs[id].size); for(auto&b:e.objs[id].init){ uint64_t v=tm.eval(b.t,val); fprintf(f,"%02x",(unsigned)((v>>(8*b.idx))&0xff)); } fprintf(f,"\n"); } }
    for(auto&o:order) fprintf(f,"S %d %d %ld\n",o.first,o.second,yc[o]);
    if(getenv("LSX_YTRACE")) for(auto&x:e.ev) if(x.k=='Y'&&tm.eval(x.g,val)) fprintf(f,"# Y %d %d %s\n",x.round,x.tid,x.s.c_str());
    fclose(f); };
  string kinds; string which; 
  if(R==R_SAT){ status="violation"; for(auto&v:e.viol) if(tm.eval(v.cond,val)){ vmsg=v.msg; vloc=v.loc; which=v.kind; if(getenv("LSX_DBG")) { fprintf(stderr,"VIOL %s %s tid %d round %d\n",vmsg.c_str(),vloc.c_str(),v.tid,v.round); if(v.dbg){ e.dumpT(v.dbg,0); std::function<void(T,int)> tr=[&](T x,int d){ Node q=tm.n[x]; fprintf(stderr,"%*s[%u] %s = %llx",d,"",x,opname[q.op],(unsigned long long)tm.eval(x,val)); if(q.op==VAR) fprintf(stderr," %s",tm.varname[q.v].c_str()); fprintf(stderr,"\n"); if(q.op==ITE){ fprintf(stderr,"%*scond [%u]=%d\n",d,"",q.a,(int)tm.eval(q.a,val)); tr(tm.eval(q.a,val)?q.b:q.c,d+1); } else if(q.op==ADD){ tr(q.a,d+1); tr(q.b,d+1);} }; tr(v.dbg,0);} } break; } writeTrace(trace); }
  else if(R==R_UNKNOWN) status="unknown"; else status="holds";
  // unwinding
  string unwst="complete"; vector<string> unwloc; if(status=="holds"){ T u=tm.fls; for(auto&x:e.unw) if(x.kind=="unwind"&&x.cond!=tm.fls){ u=tm.mkOr(u,x.cond); } if(u!=tm.fls){ vector<uint64_t> v2; S.timeout=std::min(timeout,60.0); SolveRes r=S.solve(tm,{u},v2,"unw"); if(r==R_UNSAT) unwst="complete"; else { unwst= r==R_SAT?"truncated":"unknown"; std::set<string> ls; for(auto&x:e.unw) if(x.kind=="unwind"&&x.cond!=tm.fls && (r!=R_SAT||tm.eval(x.cond,v2))) ls.insert(x.loc); unwloc.assign(ls.begin(),ls.end()); } } }
  // covers
  int cov=0,ncov=0; vector<string> unc; vector<string> witness; if(status=="holds"&&!nocover){ for(auto&kv:e.covers){ ncov++; S.timeout=timeout; SolveRes r=kv.second==tm.fls?R_UNSAT:S.solve(tm,{kv.second},val,"cover"); if(r==R_SAT){ cov++; if(!trace.empty()){ string f=trace+".w"+std::to_string(cov); writeTrace(f); witness.push_back(f); witness.push_back(kv.first);} } else unc.push_back(kv.first+(r==R_UNKNOWN?"(unknown)":"(unreachable)")); } }
  printf("{\"status\":%s,\"msg\":%s,\"loc\":%s,\"kind\":%s,\"steps\":%ld,\"segments\":%ld,\"terms\":%zu,\"vars\":%ld,\"clauses\":%ld,\"asserts\":%ld,\"viol_conds\":%zu,\"encode_s\":%.2f,\"solve_s\":%.2f,\"viol_s\":%.2f,\"queries\":%d,\"unwind\":%s,\"covers\":%d,\"covers_ok\":%d,\"stops\":%ld,",jstr(status).c_str(),jstr(vmsg).c_str(),jstr(vloc).c_str(),jstr(which).c_str(),e.steps,e.segs,tm.n.size(),nv,nc,e.nasserts,e.viol.size(),enc,S.totalTime,tviol,S.queries,jstr(unwst).c_str(),ncov,cov,e.stops);
  auto arr=[&](const char*k,const vector<string>&v){ printf("\"%s\":[",k); for(size_t i=0;i<v.size();i++) printf("%s%s",i?",":"",jstr(v[i]).c_str()); printf("],"); };
  arr("uncovered",unc); arr("unwind_locs",unwloc); arr("witness",witness); vector<string> fs; for(auto&s:e.fnsEncoded) fs.push_back(s); arr("functions",fs); vector<string> um(e.unmodeled.begin(),e.unmodeled.end()); arr("unmodeled",um);
  printf("\"objects\":%zu}\n",e.objs.size()); return 0; }

static int nativeMain(int argc,char**argv){
  LLVMContext C; SMDiagnostic err; auto M=parseIRFile(argv[2],err,C); if(!M){ err.print("lsx",errs()); return 3; }
  M->setTargetTriple("x86_64-pc-linux-gnu"); M->setDataLayout("e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128");
  Type*i64=Type::getInt64Ty(C); Type*ptrT=PointerType::get(C,0); FunctionCallee ext=M->getOrInsertFunction("__vx_ext",i64,ptrT);
  vector<GlobalVariable*> dead; for(auto&G:M->globals()){ if(G.getName().starts_with("llvm.")) { dead.push_back(&G); continue; } if(G.hasSection()) G.setSection(""); if(!G.isDeclaration()) G.setLinkage(GlobalValue::InternalLinkage); G.setDLLStorageClass(GlobalValue::DefaultStorageClass); G.setComdat(nullptr); }
  for(auto*g:dead) g->eraseFromParent();
  for(auto&F:*M){ F.setComdat(nullptr); F.setDLLStorageClass(GlobalValue::DefaultStorageClass); if(F.isIntrinsic()) continue; F.removeFnAttr("target-cpu"); F.removeFnAttr("target-features"); F.removeFnAttr("stack-probe-size"); F.setUWTableKind(UWTableKind::None);
    bool entry=F.getName().starts_with("vx_setup")||F.getName().starts_with("vx_thread")||F.getName().starts_with("vx_final");
    if(F.isDeclaration()){ StringRef n=F.getName(); if(n.starts_with("__vx_")||n=="_setjmp"||n=="longjmp"||n=="setjmp"||n=="memcpy"||n=="memset"||n=="memmove") continue; if(F.use_empty()) continue;
      BasicBlock*b=BasicBlock::Create(C,"e",&F); IRBuilder<> B(b); Value*s=B.CreateGlobalStringPtr(n); Value*v=B.CreateCall(ext,{s}); Type*rt=F.getReturnType(); if(rt->isVoidTy()) B.CreateRetVoid(); else if(rt->isPointerTy()) B.CreateRet(B.CreateIntToPtr(v,rt)); else B.CreateRet(B.CreateZExtOrTrunc(v,rt)); }
    if(entry) F.setLinkage(GlobalValue::ExternalLinkage); else F.setLinkage(GlobalValue::InternalLinkage); }
  if(verifyModule(*M,&errs())) return 3; std::error_code ec; raw_fd_ostream os(argv[3],ec); WriteBitcodeToFile(*M,os); return 0; }

int main(int argc,char**argv){ if(argc>=4&&string(argv[1])=="native") return nativeMain(argc,argv); if(argc>=4&&string(argv[1])=="prep") return prepMain(argc,argv); if(argc>=3&&string(argv[1])=="run") return runMain(argc,argv); fprintf(stderr,"usage: lsx prep|run\n"); return 2; }
