// One complete Bonmin run, observed from outside.
#ifndef VE2E_HPP
#define VE2E_HPP
#include "family.hpp"
#include "runner.hpp"
#include "BonminConfig.h"
#include "BonBonminSetup.hpp"
#include "BonCbc.hpp"
#include "BonTNLPSolver.hpp"
#include "BonIpoptSolver.hpp"
#include "BonOsiTMINLPInterface.hpp"
#include "CoinError.hpp"
namespace vg {
struct Run { bool threw; std::string what; int mip; double obj,bound; bool hasX; Vec x; int nodes; Ipopt::SmartPtr<GenTMINLP> t; double contRelax; };
static const char* QUIET="print_level 0\nbonmin.bb_log_level 0\nbonmin.nlp_log_level 0\nbonmin.oa_log_level 0\nbonmin.fp_log_level 0\nbonmin.lp_log_level 0\nbonmin.milp_log_level 0\nsb yes\n";
inline void collect(Bonmin::Bab&bb,Run&r){ r.mip=bb.mipStatus(); r.obj=bb.bestObj(); r.bound=bb.bestBound(); r.hasX=bb.bestSolution()!=NULL; if(r.hasX) r.x.assign(bb.bestSolution(),bb.bestSolution()+r.t->p.n); r.nodes=bb.numNodes(); r.contRelax=bb.continuousRelaxation(); }
template<class F> void guard(Run&r,F f){
  r.threw=true;
  try{ f(); r.threw=false; }
  catch(Bonmin::TNLPSolver::UnsolvedError*E){ r.what="UnsolvedError"; delete E; }
  catch(Bonmin::OsiTMINLPInterface::SimpleError&E){ r.what="SimpleError:"+E.message(); }
  catch(CoinError&E){ r.what="CoinError:"+E.className()+"::"+E.methodName()+":"+E.message(); }
  catch(Ipopt::IpoptException&E){ r.what="IpoptException:"+E.Message(); }
  catch(int e){ r.what="int"; }
}
inline Run solve(const Prob&p,const std::string&opts,GenTMINLP*pre=NULL){
  using namespace Bonmin; Run r; r.t=pre?pre:new GenTMINLP(p); r.mip=-1; r.obj=0;r.bound=0;r.hasX=false;r.nodes=0;
  guard(r,[&]{ BonminSetup b; b.initializeOptionsAndJournalist(); if(!getenv("LOUD")) b.readOptionsString(QUIET); b.readOptionsString(opts);
    b.initialize(GetRawPtr(r.t)); Bab bb; bb(b); collect(bb,r); });
  return r; }
inline std::string show(const Vec&x){ std::ostringstream o; o<<"("; for(size_t i=0;i<x.size();i++) o<<(i?",":"")<<x[i]; o<<")"; return o.str(); }
inline const char* stName(int s){ static const char*n[]={"FeasibleOptimal","ProvenInfeasible","Feasible","UnboundedOrInfeasible","NoSolutionKnown"}; return s>=0&&s<5?n[s]:"?"; }
// full-solve oracle: well-posed convex instance, no limits
inline std::string judge(const Prob&p,const RefPair&ref,const Run&r,double tol=2e-4,bool onceOnly=true){
  std::ostringstream e; e.precision(10);
  if(r.threw){ e<<"exception instead of an answer: "<<r.what; return e.str(); }
  if(!ref.feas){ if(r.mip!=Bonmin::Bab::ProvenInfeasible) { e<<"infeasible problem reported as "<<stName(r.mip)<<" obj "<<r.obj; if(r.hasX) e<<" x="<<show(r.x); return e.str(); }
    if(r.hasX){ return "infeasible problem but a solution is returned"; } 
    if((onceOnly?r.t->finCount!=1:r.t->finCount<1)||r.t->finStatus!=Bonmin::TMINLP::INFEASIBLE||r.t->finHasX){ e<<"infeasible: user callback count="<<r.t->finCount<<" status="<<(r.t->finCount?(int)r.t->finStatus:-1)<<" hasX="<<r.t->finHasX; return e.str(); }
    return ""; }
  if(r.mip!=Bonmin::Bab::FeasibleOptimal){ e<<"solvable problem (opt "<<ref.lo<<") reported as "<<stName(r.mip)<<" obj "<<r.obj; return e.str(); }
  if(!r.hasX) return "optimal status without a solution";
  double v=p.viol(&r.x[0]); if(!(v<1e-4)){ e<<"returned point violates the problem by "<<v<<" x="<<show(r.x); return e.str(); }
  double o=p.obj(&r.x[0]); double s=tol*(1+std::fabs(ref.lo));
  if(!(std::fabs(o-r.obj)<=s)){ e<<"reported objective "<<r.obj<<" but f(x)="<<o<<" x="<<show(r.x); return e.str(); }
  if(!(r.obj<=ref.hi+s&&r.obj>=ref.lo-s)){ e<<"claimed optimum "<<r.obj<<" but true optimum "<<ref.lo<<".."<<ref.hi<<" at "<<show(ref.x)<<" got "<<show(r.x); return e.str(); }
  if(!(r.bound<=ref.hi+s)){ e<<"reported bound "<<r.bound<<" exceeds the optimum "<<ref.hi; return e.str(); }
  if(onceOnly?r.t->finCount!=1:r.t->finCount<1) { e<<"solution callback called "<<r.t->finCount<<" times"; return e.str(); }
  if(r.t->finStatus!=Bonmin::TMINLP::SUCCESS) { e<<"solution callback status "<<(int)r.t->finStatus; return e.str(); }
  if(!r.t->finHasX) return "solution callback without a point";
  for(int i=0;i<p.n;i++) if(std::fabs(r.t->finX[i]-r.x[i])>1e-9) return "solution callback point differs from returned point";
  if(std::fabs(r.t->finObj-r.obj)>1e-9*(1+std::fabs(r.obj))) { e<<"callback objective "<<r.t->finObj<<" vs "<<r.obj; return e.str(); }
  return ""; }
}
#endif
