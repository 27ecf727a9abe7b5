// Feasibility of path guards during encoding (in-process incremental SAT): infeasible paths are not encoded.
#pragma once
#include "sat.h"
#include <minisat/core/Solver.h>
struct Pruner {
  Terms &tm; Blaster bl; Minisat::Solver S; T assumed=0; long q=0,unsat=0,hit=0,unk=0; double time=0; int64_t budget=300; bool dead=false;
  struct Model { std::vector<uint64_t> var, val; std::vector<uint8_t> have; long use=0; };
  std::vector<Model> models; size_t nextM=0, cap=24;
  Pruner(Terms&t):tm(t),bl(t) { while(S.nVars()<2) S.newVar(); feed(); }
  Minisat::Lit L(int x){ return Minisat::mkLit(abs(x),x<0); }
  void feed(){ while(S.nVars()<=bl.nv) S.newVar(); Minisat::vec<Minisat::Lit> c; for(size_t i=0;i<bl.cls.size();i++){ if(bl.cls[i]==0){ S.addClause(c); c.clear(); } else c.push(L(bl.cls[i])); } bl.cls.clear(); }
  uint64_t fold(const Node&q,uint64_t x,uint64_t y){ int wa=tm.n[q.a].w; switch(q.op){ case NOT: return ~x&Terms::mask(q.w); case EXTRACT: return (x>>q.v)&Terms::mask(q.w); case ZEXT: return x; case SEXT: return (uint64_t)Terms::sx(x,wa)&Terms::mask(q.w); case CONCAT: return (x<<tm.n[q.b].w)|y; default: return Terms::ev2(q.op,wa,x,y); } }
  uint64_t ev(Model&m,T t0){ if(m.have.size()<tm.n.size()){ m.have.resize(tm.n.size()*2,0); m.val.resize(tm.n.size()*2); } if(m.have[t0]) return m.val[t0];
    std::vector<T> st{t0}; while(!st.empty()){ T t=st.back(); if(m.have[t]){ st.pop_back(); continue; } const Node&q=tm.n[t]; uint64_t r=0;
      if(q.op==CONST) r=q.v; else if(q.op==VAR) r=q.v<m.var.size()?m.var[q.v]:0;
      else if(q.op==ITE){ if(!m.have[q.a]){ st.push_back(q.a); continue; } T z=m.val[q.a]?q.b:q.c; if(!m.have[z]){ st.push_back(z); continue; } r=m.val[z]; }
      else if(q.op==AND&&q.w==1){ if(!m.have[q.a]){ st.push_back(q.a); continue; } if(!m.val[q.a]) r=0; else { if(!m.have[q.b]){ st.push_back(q.b); continue; } r=m.val[q.b]; } }
      else { if(!m.have[q.a]){ st.push_back(q.a); continue; } bool two=!(q.op==NOT||q.op==EXTRACT||q.op==ZEXT||q.op==SEXT); if(two&&!m.have[q.b]){ st.push_back(q.b); continue; } r=fold(q,m.val[q.a],two?m.val[q.b]:0); }
      m.val[t]=r; m.have[t]=1; st.pop_back(); }
    return m.val[t0]; }
  // false only if g is certainly infeasible under the assumptions
  bool feasible(T g,T as){ if(g==tm.fls) return false; if(g==tm.tru||dead) return true; double t0=Solver::now();
    T ga=g; for(auto&m:models) if(ev(m,g)&&ev(m,as)){ hit++; time+=Solver::now()-t0; return true; }
    q++; if(as!=assumed){ int l=bl.blast(as)[0]; feed(); S.addClause(L(l)); assumed=as; }
    int l=bl.blast(ga)[0]; feed(); if(!S.okay()){ dead=true; return true; }
    Minisat::vec<Minisat::Lit> a; a.push(L(l)); S.setConfBudget(budget); Minisat::lbool r=S.solveLimited(a); bool res=true;
    if(r==Minisat::lbool((uint8_t)1)){ unsat++; res=false; }
    else if(r==Minisat::lbool((uint8_t)0)){ Model m; m.var.assign(tm.vars.size(),0); for(size_t i=0;i<tm.vars.size();i++){ T v=tm.vars[i]; if(v<bl.bits.size()&&!bl.bits[v].empty()){ uint64_t x=0; for(size_t b=0;b<bl.bits[v].size();b++){ int w=bl.bits[v][b]; if(S.model[w]==Minisat::lbool((uint8_t)0)) x|=1ull<<b; } m.var[i]=x; } }
      if(models.size()<cap) models.push_back(std::move(m)); else { models[nextM]=std::move(m); nextM=(nextM+1)%cap; } }
    else unk++;
    time+=Solver::now()-t0; return res; }
};
