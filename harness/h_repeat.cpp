// A run depends on nothing but the problem and the options.
// Part A: the complete sequence of evaluations and the answer are the same whatever uninitialised and freed memory holds.
// Part B: every sequence of runs (completed, limited, interrupted, failing, on other problems, with other algorithms, reusing objects)
//         in one process; each answer is judged for its own problem and equals the one of a process of its own.
#include "e2e.hpp"
#include <malloc.h>
#include <signal.h>
using namespace vg; using namespace vr; using namespace Bonmin; using Ipopt::SmartPtr;
static const char* CFA[]={"bonmin.algorithm B-BB\n","bonmin.algorithm B-OA\n","bonmin.algorithm B-QG\nbonmin.variable_selection most-fractional\n","bonmin.algorithm B-Hyb\nbonmin.variable_selection most-fractional\n","bonmin.algorithm B-Ecp\nbonmin.variable_selection most-fractional\n","bonmin.algorithm B-iFP\n",
  "bonmin.algorithm B-BB\nbonmin.variable_selection reliability-branching\nbonmin.tree_search_strategy probed-dive\n","bonmin.algorithm B-BB\nbonmin.warm_start interior_point\nbonmin.variable_selection osi-strong\nbonmin.tree_search_strategy top-node\nbonmin.node_comparison dynamic\n",
  "bonmin.algorithm B-BB\nbonmin.heuristic_dive_fractional yes\nbonmin.heuristic_dive_vectorLength yes\nbonmin.heuristic_feasibility_pump yes\n","bonmin.algorithm B-BB\nbonmin.heuristic_dive_MIP_fractional yes\nbonmin.heuristic_dive_MIP_vectorLength yes\nbonmin.heuristic_RINS yes\n",
  "bonmin.algorithm B-BB\nbonmin.variable_selection lp-strong-branching\n","bonmin.algorithm B-BB\nbonmin.variable_selection qp-strong-branching\n","bonmin.algorithm B-BB\nbonmin.variable_selection nlp-strong-branching\nbonmin.num_resolve_at_node 1\nbonmin.num_resolve_at_root 1\n","bonmin.algorithm B-BB\nbonmin.pump_for_minlp yes\n","bonmin.algorithm B-BB\nbonmin.tree_search_strategy dfs-dive\nbonmin.node_comparison depth-first\nbonmin.setup_pseudo_frac 0.9\nbonmin.number_strong_branch 2\nbonmin.number_before_trust 2\nbonmin.variable_selection strong-branching\n" };
static const int NA=sizeof(CFA)/sizeof(CFA[0]);
static std::vector<FamIdx> FA;
// part B operations
static const int NB=12; static const char* BN[NB]={"B-BB","B-OA","B-QG","B-Hyb","B-Ecp","B-iFP","B-BB cut short by node limit 1","B-BB on an infeasible problem","B-BB interrupted","B-BB with a failing function","same Bab object, other problem","same problem object"};
static int LEN=3; static long nA,nB;
static long build(bool th){ FA.clear(); std::vector<FamIdx> all=family(-1,true); for(size_t i=0;i<all.size();i++){ bool deep=all[i].lay>=100; if(th||(deep?(all[i].lay-100)%8==1:i%5==0)) FA.push_back(all[i]); } nA=(long)FA.size()*NA; nB=NB*NB; return nA+nB; }
static std::string one(const char*s){ std::string r=s; for(auto&c:r) if(c=='\n') c=';'; return r; }
static std::string desc(long u){ if(u<nA) return one(CFA[u%NA])+" "+name(FA[u/NA]); u-=nA; return std::string("runs: ")+BN[u/NB]+", "+BN[u%NB]+", ..."; }
static std::string full(const Run&r){ std::ostringstream o; o.precision(17); o<<(r.threw?r.what:stName(r.mip)); if(!r.threw){ o<<" obj "<<r.obj<<" bound "<<r.bound<<" nodes "<<r.nodes; if(r.hasX) o<<" x "<<show(r.x); } o<<" evaluations "<<r.t->nEval<<" trace "<<r.t->trace; return o.str(); }
static FamIdx fi(int l,int o,std::vector<int> c){ FamIdx f; f.lay=l; f.obj=o; f.cons=c; return f; }
struct Hist { Bab*bab; SmartPtr<GenTMINLP> prob; Hist():bab(NULL){} ~Hist(){ delete bab; } };
static Prob bprob(int op){ switch(op){ case 0: return mkDeep(9); case 1: return mk(fi(0,2,{0})); case 2: return mk(fi(1,3,{0})); case 3: return mk(fi(2,6,{9})); case 4: return mk(fi(4,3,{1})); case 5: return mk(fi(2,3,{0})); case 6: return mkDeep(17); case 7: return mk(fi(0,3,{10})); case 8: return mkDeep(9); case 9: return mk(fi(1,2,{0})); case 10: return mk(fi(3,1,{10})); default: return mk(fi(2,4,{0})); } }
static std::string runB(Hist&h,int op,std::string&out){
  Prob p=bprob(op); RefPair ref=refPair(p); std::string opt=op<6?CFA[op]:CFA[0]; if(op==6) opt+="bonmin.node_limit 1\n";
  SmartPtr<GenTMINLP> t; if(op==11){ if(!IsValid(h.prob)) h.prob=new GenTMINLP(p); t=h.prob; t->finCount=0; } else t=new GenTMINLP(p);
  GenTMINLP*s=GetRawPtr(t); if(op==8) t->onEval=[s](int){ if(s->nEval==200) raise(SIGINT); return true; }; if(op==9) t->onEval=[s](int){ return s->nEval<60; };
  Run r; r.t=t; r.mip=-1; r.hasX=false; r.nodes=0; r.obj=r.bound=0;
  guard(r,[&]{ BonminSetup b; b.initializeOptionsAndJournalist(); b.readOptionsString(QUIET); b.readOptionsString(opt); b.initialize(GetRawPtr(t)); if(op==10){ if(!h.bab) h.bab=new Bab; (*h.bab)(b); collect(*h.bab,r); } else if(op==11){ if(!h.bab) h.bab=new Bab; (*h.bab)(b); collect(*h.bab,r); } else { Bab bb; bb(b); collect(bb,r); } });
  std::ostringstream o; o.precision(6); o<<(r.threw?r.what:stName(r.mip)); if(!r.threw&&r.hasX) o<<" "<<r.obj; out=o.str();
  if(op==9){ if(r.threw) return ""; return "the failing run gave an answer"; }
  if(op==6||op==8){ if(r.threw) return "exception: "+r.what; if(r.hasX&&p.viol(&r.x[0])>1e-4) return "the returned point violates the problem"; if(r.mip==Bab::FeasibleOptimal&&r.obj>ref.hi+1e-3) return "a run that was cut short claims a wrong optimum"; if(r.mip==Bab::ProvenInfeasible&&ref.feas) return "a run that was cut short claims infeasibility"; return ""; }
  return judge(p,ref,r); }
static void unit(bool th,long u,Out&o){
  if(u<nA){ Prob p=mk(FA[u/NA]); int v[]={0,0x55,0xFF,0x80}; std::string first; for(int k=0;k<(th?4:3);k++){ Out q; int pv=v[k]; std::string cr=runAlone(0,[&](long,Out&x){ if(pv) mallopt(M_PERTURB,pv); Run r=solve(p,CFA[u%NA]); x.samples.push_back(full(r)); },60,q); o.add("histories"); std::string a=cr.empty()&&q.samples.size()?q.samples[0]:"no answer: "+cr; if(k==0){ first=a; o.outcome(a.substr(0,40)); } else if(a!=first){ o.fail("memory filled with "+std::to_string(pv)+": "+a+" | otherwise: "+first); return; } } return; }
  u-=nA; int n=LEN; long rest=1; for(int k=2;k<n;k++) rest*=NB;
  std::map<int,std::string> fresh;
  for(long z=0;z<rest;z++){ std::vector<int> q; q.push_back(u/NB); q.push_back(u%NB); long y=z; if(!th&&q[0]<6&&z%NB!=q[0]) continue; for(int k=2;k<n;k++){ q.push_back(y%NB); y/=NB; }
    for(int op:q) if(!fresh.count(op)){ Out f; runAlone(0,[&](long,Out&x){ Hist h; std::string a; runB(h,op,a); x.samples.push_back(a); },60,f); fresh[op]=f.samples.empty()?"crash":f.samples[0]; }
    Out f; std::string cr=runAlone(0,[&](long,Out&x){ Hist h; std::string d; for(int op:q){ d+=(d.empty()?"":", ")+std::string(BN[op]); std::string a,e=runB(h,op,a); x.add("transitions"); if(e.empty()&&op!=8&&a!=fresh[op]) e="answer "+a+" where a process of its own gives "+fresh[op]; if(!e.empty()){ x.fail(d+": "+e); return; } x.outcome(a); } },120,f);
    o.add("histories"); for(auto&c:f.cnt) if(c.first!="failures") o.cnt[c.first]+=c.second; for(auto&m:f.fails) o.fail(m); for(auto&x:f.outcomes) o.outcome(x); if(!cr.empty()){ std::string d; for(int op:q) d+=(d.empty()?"":", ")+std::string(BN[op]); o.fail(d+": "+cr); } if(o.fails.size()>3) return; } }
int main(int c,char**v){ return stdMain(c,v,build,unit,[](bool,long u){ return desc(u); },600); }
