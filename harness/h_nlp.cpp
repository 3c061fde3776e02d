// The nonlinear subproblem interface: every history (up to the depth) of bound changes, solves, copies, warm and hot starts,
// feasibility problems and cut generation, on the real interface; each answer is judged for the bounds in force.
#include "e2e.hpp"
#include "BonOsiTMINLPInterface.hpp"
#include "OsiClpSolverInterface.hpp"
#include <functional>
using namespace vg; using namespace vr; using namespace Bonmin; using Ipopt::SmartPtr;
#define BAD(msg) do{ std::ostringstream _o; _o.precision(10); _o<<msg; return _o.str(); }while(0)
struct Cfg { const char*name,*opts; };
static const Cfg CF[]={ {"no warm start",""},{"warm start optimum","bonmin.warm_start optimum\n"},{"warm start interior point","bonmin.warm_start interior_point\n"},{"fake basis","bonmin.warm_start fake_basis\n"},
  {"resolves for cost","bonmin.num_resolve_at_root 1\nbonmin.num_resolve_at_node 1\nbonmin.num_resolve_at_infeasibles 1\n"} };
static const int NCF=5;
static std::vector<FamIdx> INST; static int DEPTH; static const int NOP=17;
static const char* OPN[NOP]={"up0","down0","up1","down1","restore","initialSolve","resolve","clone-and-drop-source","clone-ruin-and-drop","assign","save-warm-start","set-warm-start","hot-start","feasibility-problem","outer-approximation","set-point","linear-relaxation"};
static FamIdx fi(int l,int o,std::vector<int> c){ FamIdx f; f.lay=l; f.obj=o; f.cons=c; return f; }
static std::vector<std::pair<int,int> > COMBO;
static std::vector<FamIdx> FX; // fully fixed boxes
static long NH(){ return (long)COMBO.size()*NOP*NOP; }
static long build(bool th){ INST.clear(); DEPTH=3; if(getenv("DEPTH")) DEPTH=atoi(getenv("DEPTH"));
  INST.push_back(fi(2,3,{0,3})); INST.push_back(fi(0,6,{6,7})); INST.push_back(fi(3,2,{9}));
  if(th){ INST.push_back(fi(1,4,{0,2})); INST.push_back(fi(3,1,{5})); INST.push_back(fi(2,0,{})); INST.push_back(fi(4,5,{8,11})); }
  COMBO.clear(); for(int i=0;i<(int)INST.size();i++) for(int c=0;c<NCF;c++) if(th||(c+2*i)%3==0) COMBO.push_back(std::make_pair(i,c));
  FX.clear(); for(auto&f:family(th?2:1,false)) if(!f.cons.empty()&&(th||(f.obj+f.lay+f.cons[0])%4==0)) FX.push_back(f); return NH()+(long)FX.size(); }
struct Ref1 { int st; double obj; }; // 0 optimal 1 infeasible
struct World { const Prob&p; std::string opts; std::map<std::pair<Vec,Vec>,Ref1> memo; int d[2]; World(const Prob&q):p(q){ int k=0; d[0]=d[1]=0; for(int i=0;i<p.n&&k<2;i++) if(p.type[i]) d[k++]=i; } };
static void start(BonminSetup&b,SmartPtr<GenTMINLP> t,const std::string&o){ b.initializeOptionsAndJournalist(); b.readOptionsString(QUIET); b.readOptionsString(std::string("bonmin.algorithm B-BB\n")+o); b.initialize(GetRawPtr(t)); b.nonlinearSolver()->messageHandler()->setLogLevel(0); }
static double vcont(const Prob&p,const double*x,const Vec&l,const Vec&u){ double v=0; for(int i=0;i<p.n;i++) v=std::max(v,std::max(l[i]-x[i],x[i]-u[i])); for(int k=0;k<p.m();k++){ double r=p.g[k](x); v=std::max(v,std::max(p.gl[k]-r,r-p.gu[k])); } return v; }
template<class F> static void grid(const Prob&p,const Vec&l,const Vec&u,int K,F f){ Vec x(p.n); std::vector<int> c(p.n,0); for(;;){ for(int i=0;i<p.n;i++) x[i]=l[i]+(u[i]-l[i])*c[i]/(K-1.); f(x); int i=0; while(i<p.n){ bool fx=u[i]-l[i]<1e-12; if(!fx&&++c[i]<K) break; c[i]=0; i++; } if(i==p.n) break; } }
// bounds, sizes, types, row data
static std::string staticObs(const Prob&p,const OsiTMINLPInterface&s,const Vec&l,const Vec&u){
  if(s.getNumCols()!=p.n||s.getNumRows()!=p.m()) return "wrong size";
  for(int i=0;i<p.n;i++){ if(s.getColLower()[i]!=l[i]||s.getColUpper()[i]!=u[i]) BAD("bounds of column "<<i<<" are ["<<s.getColLower()[i]<<","<<s.getColUpper()[i]<<"] instead of ["<<l[i]<<","<<u[i]<<"]"); if(s.isInteger(i)!=(p.type[i]!=0)||s.isContinuous(i)!=(p.type[i]==0)||s.isBinary(i)!=(p.type[i]==1)) BAD("type of column "<<i); }
  for(int k=0;k<p.m();k++){ double gl=s.getRowLower()[k],gu=s.getRowUpper()[k]; if((p.gl[k]>-1e30?gl!=p.gl[k]:gl>-1e30)||(p.gu[k]<1e30?gu!=p.gu[k]:gu<1e30)) BAD("bounds of row "<<k);
    char c=s.getRowSense()[k]; double rhs=s.getRightHandSide()[k],rg=s.getRowRange()[k]; char w=p.gl[k]>-1e30?(p.gu[k]<1e30?(p.gl[k]==p.gu[k]?'E':'R'):'G'):(p.gu[k]<1e30?'L':'N'); if(c!=w||(w=='L'||w=='E'||w=='R'?rhs!=p.gu[k]:w=='G'?rhs!=p.gl[k]:false)||(w=='R'?rg!=p.gu[k]-p.gl[k]:rg!=0)) BAD("row "<<k<<": sense "<<c<<" right-hand side "<<rhs<<" range "<<rg); }
  return ""; }
static std::string solved(World&w,OsiTMINLPInterface&s,const Vec&l,const Vec&u,bool duals){
  const Prob&p=w.p; int fl=s.isProvenOptimal()+s.isProvenPrimalInfeasible()+s.isAbandoned()+s.isProvenDualInfeasible(); if(fl!=1) BAD(fl<<" of the mutually exclusive states are reported after a solve");
  if(s.isIterationLimitReached()) return "iteration limit reported";
  std::pair<Vec,Vec> key(l,u); auto it=w.memo.find(key);
  if(it==w.memo.end()){ Ref1 r; BonminSetup b; SmartPtr<GenTMINLP> t=new GenTMINLP(p); start(b,t,""); OsiTMINLPInterface&n=*b.nonlinearSolver(); n.setColLower(&l[0]); n.setColUpper(&u[0]); n.initialSolve(); r.st=n.isProvenOptimal()?0:1; r.obj=n.getObjValue();
    double best=1e300; grid(p,l,u,p.n<=2?81:25,[&](const Vec&x){ if(vcont(p,&x[0],l,u)<=1e-9) best=std::min(best,p.obj(&x[0])); });
    if(r.st==0&&r.obj>best+1e-4) BAD("in the box "<<show(l)<<".."<<show(u)<<" a new interface reports the minimum "<<r.obj<<" but a feasible point has "<<best); if(r.st==1&&best<1e300) BAD("in the box "<<show(l)<<".."<<show(u)<<" a new interface reports infeasibility");
    it=w.memo.insert(std::make_pair(key,r)).first; }
  const Ref1&r=it->second;
  if(s.isProvenPrimalInfeasible()){ if(r.st==0) BAD("reported infeasible in the box "<<show(l)<<".."<<show(u)<<" where a new interface finds "<<r.obj); return ""; }
  if(!s.isProvenOptimal()) return "not solved"; if(r.st!=0) BAD("reported optimal "<<s.getObjValue()<<" in an infeasible box");
  const double*x=s.getColSolution(); Vec X(x,x+p.n); double v=vcont(p,x,l,u); if(!(v<2e-6)) BAD("the solution "<<show(X)<<" violates the problem in the box "<<show(l)<<".."<<show(u)<<" by "<<v);
  if(!(std::fabs(p.obj(x)-s.getObjValue())<1e-7*(1+std::fabs(r.obj)))) BAD("objective "<<s.getObjValue()<<" but f(x)="<<p.obj(x));
  if(!(std::fabs(s.getObjValue()-r.obj)<2e-5*(1+std::fabs(r.obj)))) BAD("minimum "<<s.getObjValue()<<" where a new interface finds "<<r.obj);
  for(int k=0;k<p.m();k++) if(!(std::fabs(s.getRowActivity()[k]-p.g[k](x))<1e-7*(1+std::fabs(p.g[k](x))))) BAD("activity of row "<<k<<" is "<<s.getRowActivity()[k]<<" but g(x)="<<p.g[k](x));
  bool free=false; for(int i=0;i<p.n;i++) if(u[i]-l[i]>1e-5) free=true;
  if(duals&&free){ const double*d=s.getRowPrice(); for(int i=0;i<p.n;i++) if(u[i]-l[i]>1e-5){ double q=p.obj.d(i,x)-d[i]+d[p.n+i]; for(int k=0;k<p.m();k++) q+=d[2*p.n+k]*p.g[k].d(i,x); if(!(std::fabs(q)<1e-4*(1+std::fabs(p.obj.d(i,x))))) BAD("the multipliers are not stationary in variable "<<i<<": residual "<<q);
      if(d[i]<-1e-7||d[p.n+i]<-1e-7) return "a bound multiplier is negative"; if(d[i]>1e-3&&x[i]>l[i]+1e-3) return "a bound multiplier is positive though the bound is not active"; if(d[p.n+i]>1e-3&&x[i]<u[i]-1e-3) return "an upper bound multiplier is positive though the bound is not active"; }
    for(int k=0;k<p.m();k++){ double y=d[2*p.n+k]; if(y>1e-3&&p.g[k](x)<p.gu[k]-1e-3) BAD("row "<<k<<" has a multiplier though its upper side is not active"); if(y<-1e-3&&p.g[k](x)>p.gl[k]+1e-3) BAD("row "<<k<<" has a multiplier though its lower side is not active"); } }
  return ""; }
struct Mach { World&w; BonminSetup b; SmartPtr<GenTMINLP> t; OsiTMINLPInterface*s; bool own; Vec l,u; CoinWarmStart*ws; std::vector<OsiTMINLPInterface*> keep;
  Mach(World&ww):w(ww),own(false),ws(NULL){ t=new GenTMINLP(w.p); start(b,t,w.opts); s=b.nonlinearSolver(); l=w.p.lb; u=w.p.ub; }
  ~Mach(){ if(own) delete s; delete ws; }
  std::string op(int o){ const Prob&p=w.p; std::string e;
    switch(o){
      case 0: case 2: { int i=w.d[o/2]; double v=std::min(l[i]+1,u[i]); l[i]=v; s->setColLower(i,v); break; }
      case 1: case 3: { int i=w.d[o/2]; double v=std::max(u[i]-1,l[i]); u[i]=v; s->setColUpper(i,v); break; }
      case 4: l=p.lb; u=p.ub; s->setColLower(&l[0]); s->setColUpper(&u[0]); break;
      case 5: s->initialSolve(); if(!(e=solved(w,*s,l,u,true)).empty()) return e; break;
      case 6: s->resolve(); if(!(e=solved(w,*s,l,u,true)).empty()) return e; break;
      case 7: { OsiTMINLPInterface*c=dynamic_cast<OsiTMINLPInterface*>(s->clone()); if(!c) return "the copy has another type"; c->messageHandler()->setLogLevel(0); if(!(e=sameResult(*s,*c)).empty()) return e; for(int i=0;i<p.n;i++) s->setColUpper(i,p.lb[i]); if(own) delete s; s=c; own=true; break; }
      case 8: { OsiTMINLPInterface*c=dynamic_cast<OsiTMINLPInterface*>(s->clone()); c->messageHandler()->setLogLevel(0); if(!(e=sameResult(*s,*c)).empty()) return e; for(int i=0;i<p.n;i++) c->setColLower(i,p.ub[i]); Vec z(p.n,-77.); c->setColSolution(&z[0]); try{ c->initialSolve(); }catch(TNLPSolver::UnsolvedError*E){ delete E; } delete c; break; }
      case 9: { BonminSetup b2; SmartPtr<GenTMINLP> t2=new GenTMINLP(w.p); start(b2,t2,""); OsiTMINLPInterface*c=dynamic_cast<OsiTMINLPInterface*>(b2.nonlinearSolver()->clone()); c->setColLower(0,p.ub[0]); c->initialSolve(); *c=*s; c->messageHandler()->setLogLevel(0); if(!(e=sameResult(*s,*c)).empty()) return e; for(int i=0;i<p.n;i++) s->setColUpper(i,p.lb[i]); if(own) delete s; s=c; own=true; break; }
      case 10: delete ws; ws=s->getWarmStart(); break;
      case 11: if(ws) s->setWarmStart(ws); break;
      case 12: { s->resolve(); if(!s->isProvenOptimal()) break; s->markHotStart(); for(int q=0;q<2;q++){ int i=w.d[0]; Vec ll=l,uu=u; double mid=std::floor((l[i]+u[i])/2); if(q){ ll[i]=std::min(mid+1,u[i]); s->setColLower(i,ll[i]); } else { uu[i]=std::max(mid,l[i]); s->setColUpper(i,uu[i]); } s->solveFromHotStart(); if(!(e=solved(w,*s,ll,uu,true)).empty()) return "hot start: "+e; s->setColLower(i,l[i]); s->setColUpper(i,u[i]); } s->unmarkHotStart(); break; }
      case 13: { Vec xb; std::vector<int> id; for(int i=0;i<p.n;i++) if(p.type[i]){ id.push_back(i); xb.push_back(std::floor((p.lb[i]+p.ub[i])/2)); } double dist=s->solveFeasibilityProblem(id.size(),&xb[0],&id[0],1.,0.,2);
        if(s->isProvenOptimal()){ const double*x=s->getColSolution(); double v=vcont(p,x,l,u); if(!(v<2e-6)) BAD("feasibility problem: its solution violates the problem by "<<v); double q=0; for(size_t k=0;k<id.size();k++) q+=(x[id[k]]-xb[k])*(x[id[k]]-xb[k]); q*=100; /* the distance is scaled by 100 */ if(!(std::fabs(q-dist)<1e-3*(1+q))) BAD("feasibility problem: distance "<<dist<<" but the point is at "<<q); } break; }
      case 14: { OsiCuts cs; Vec x(p.n); for(int i=0;i<p.n;i++) x[i]=(p.lb[i]+2*p.ub[i])/3; s->getOuterApproximation(cs,&x[0],1,NULL,true); break; }
      case 15: { Vec x(p.n); for(int i=0;i<p.n;i++) x[i]=(2*l[i]+u[i])/3; s->setColSolution(&x[0]); for(int i=0;i<p.n;i++) if(s->getColSolution()[i]!=x[i]) return "the point that was set is not reported"; break; }
      case 16: { OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); Vec x(p.n); for(int i=0;i<p.n;i++) x[i]=(p.lb[i]+p.ub[i])/2; s->extractLinearRelaxation(si,&x[0],true); break; } }
    return staticObs(p,*s,l,u); }
  // a copy reports what its source reports
  std::string sameResult(OsiTMINLPInterface&a,OsiTMINLPInterface&c){ const Prob&p=w.p; if(a.isProvenOptimal()!=c.isProvenOptimal()||a.isProvenPrimalInfeasible()!=c.isProvenPrimalInfeasible()||a.isAbandoned()!=c.isAbandoned()) return "a copy reports another state than its source";
    const double*x=a.getColSolution(),*y=c.getColSolution(); if((x==NULL)!=(y==NULL)) return "a copy has no point while its source has one"; if(x) for(int i=0;i<p.n;i++) if(x[i]!=y[i]) BAD("a copy reports "<<y[i]<<" for variable "<<i<<" where its source has "<<x[i]);
    if(a.isProvenOptimal()&&a.getObjValue()!=c.getObjValue()) BAD("a copy reports objective "<<c.getObjValue()<<" where its source has "<<a.getObjValue()); double da,dc; if(a.getDblParam(OsiDualObjectiveLimit,da)&&c.getDblParam(OsiDualObjectiveLimit,dc)&&da!=dc) return "a copy has another objective limit"; return ""; }
};
// every fully fixed box (each variable at each integer of its range, continuous ones at two points), every row side moved to each of its values and slightly to either side of it
static void fixedBoxes(const FamIdx&f,Out&o){ Prob p0=mk(f); std::vector<Vec> pts; Vec x(p0.n); std::function<void(int)> go=[&](int i){ if(i==p0.n){ pts.push_back(x); return; } if(p0.type[i]) for(double v=std::ceil(std::max(p0.lb[i],-3.));v<=std::min(p0.ub[i],4.);v+=1){ x[i]=v; go(i+1); } else for(int q=1;q<=2;q++){ x[i]=p0.lb[i]+(p0.ub[i]-p0.lb[i])*q/3.; go(i+1); } }; go(0);
  static const double DL[]={0.,1e-3,-1e-3,0.05,-0.05};
  for(int k=0;k<p0.m();k++){ std::vector<double> vals; for(auto&y:pts){ double g=p0.g[k](&y[0]); bool dup=false; for(double z:vals) if(std::fabs(z-g)<1e-6) dup=true; if(!dup) vals.push_back(g); } std::sort(vals.begin(),vals.end()); if(vals.size()<2) continue;
    for(int side=0;side<2;side++) for(int d=0;d<5;d++){ double at=vals[(vals.size()/2+d)%vals.size()]; Prob p=p0; if(side) p.gl[k]=at+DL[d]; else p.gu[k]=at+DL[d]; if(p.gl[k]>p.gu[k]) { if(side) p.gu[k]=INF; else p.gl[k]=-INF; }
      Run g; std::string e,wh; guard(g,[&]{ BonminSetup b; SmartPtr<GenTMINLP> t=new GenTMINLP(p); start(b,t,""); OsiTMINLPInterface&s=*b.nonlinearSolver(); int n=0; o.add("histories");
        for(auto&y:pts){ s.setColLower(&y[0]); s.setColUpper(&y[0]); if(n++%2) s.resolve(); else s.initialSolve(); o.add("transitions"); double v=vcont(p,&y[0],y,y); std::ostringstream q; q.precision(10);
          if(v<=1e-9){ if(!s.isProvenOptimal()) q<<"not reported optimal though the point is feasible"; else if(!(std::fabs(s.getObjValue()-p.obj(&y[0]))<1e-6*(1+std::fabs(p.obj(&y[0]))))) q<<"objective "<<s.getObjValue()<<" instead of "<<p.obj(&y[0]); else for(int i=0;i<p.n;i++) if(!(std::fabs(s.getColSolution()[i]-y[i])<1e-7)) q<<"variable "<<i<<" is "<<s.getColSolution()[i]; }
          else if(v>9e-4&&!s.isProvenPrimalInfeasible()) q<<"not reported infeasible though a row is violated by "<<v; if(!q.str().empty()){ e=q.str(); wh=show(y); return; } o.outcome(v<=1e-9?"fixed:feasible":"fixed:infeasible"); } });
      if(g.threw) e="exception "+g.what; if(!e.empty()){ std::ostringstream q; q.precision(10); q<<"row "<<k<<(side?" lower":" upper")<<" side at "<<at+DL[d]<<", every variable fixed at "<<wh<<": "<<e; o.fail(q.str()); if(o.fails.size()>3) return; } } } }
static std::string desc(long u){ if(u>=NH()) return name(FX[u-NH()])+": every fully fixed box"; long h=u%(NOP*NOP); int i=COMBO[u/(NOP*NOP)].first,c=COMBO[u/(NOP*NOP)].second; return name(INST[i])+" "+CF[c].name+": "+OPN[h/NOP]+","+OPN[h%NOP]+",..."; }
static void unit(bool,long u,Out&o){ if(u>=NH()){ fixedBoxes(FX[u-NH()],o); return; }
  long h=u%(NOP*NOP); int i=COMBO[u/(NOP*NOP)].first,c=COMBO[u/(NOP*NOP)].second; Prob p=mk(INST[i]); World w(p); w.opts=CF[c].opts;
  long rest=1; for(int k=2;k<DEPTH;k++) rest*=NOP;
  for(long r=0;r<rest;r++){ std::vector<int> q; q.push_back(h/NOP); q.push_back(h%NOP); long z=r; for(int k=2;k<DEPTH;k++){ q.push_back(z%NOP); z/=NOP; }
    std::string e,at; Mach m(w); std::string d; Run g; guard(g,[&]{ if(!(e=staticObs(p,*m.s,m.l,m.u)).empty()) return; for(int x:q){ at=OPN[x]; d+=(d.empty()?"":",")+at; o.add("transitions"); e=m.op(x); if(!e.empty()) return; } at="final resolve"; m.s->resolve(); e=solved(w,*m.s,m.l,m.u,true); });
    if(g.threw) e="exception "+g.what; o.add("histories"); if(m.t->stale) { e="a function was evaluated at a changed point announced as unchanged"; }
    if(!e.empty()){ o.fail(d+" | "+at+": "+e); if(o.fails.size()>3) return; } else { std::ostringstream s; s<<show(m.l)<<show(m.u)<<(m.s->isProvenOptimal()?"opt":"inf"); o.outcome(s.str()); } }
  o.add("states",w.memo.size()); }
int main(int c,char**v){ return stdMain(c,v,build,unit,[](bool,long u){ return desc(u); },300); }
