// A copied solver set-up (BonminSetup) solves the same problem the same way, and neither touches the other:
// every algorithm setting x instance x way of obtaining a second set-up x order of solving and dropping them.
#include "e2e.hpp"
#include <memory>
using namespace vg; using namespace vr; using namespace Bonmin; using Ipopt::SmartPtr;
static const char*CF[]={"algorithm B-BB","algorithm B-BB;variable_selection most-fractional;tree_search_strategy dfs-dive","algorithm B-BB;heuristic_RINS yes;heuristic_dive_fractional yes","algorithm B-BB;heuristic_feasibility_pump yes;node_limit 100000;allowable_gap 1e-5",
 "algorithm B-OA","algorithm B-QG;variable_selection most-fractional","algorithm B-Hyb;variable_selection most-fractional","algorithm B-Hyb;variable_selection most-fractional;Gomory_cuts 0;filmint_ecp_cuts 1","algorithm B-Ecp;variable_selection most-fractional","algorithm B-iFP","algorithm B-OA;milp_strategy find_good_sol","algorithm B-BB;variable_selection lp-strong-branching","algorithm B-BB;variable_selection random;node_comparison depth-first","algorithm B-Hyb;variable_selection most-fractional;heuristic_dive_MIP_fractional yes;pump_for_minlp yes"};
static const int NCF=sizeof(CF)/sizeof(CF[0]);
enum { W_COPY,W_CLONE,W_COPY2,W_NLP,W_CLONENLP,W_PREFIX,W_INIT,W_INIT_NLP,W_N }; // ways of obtaining the second
enum { O_SECOND,O_FIRST_SECOND,O_SECOND_FIRST,O_DROP_SECOND,O_SECOND_TWICE,O_N };
static const char*WN[]={"copy","clone","copy of a copy","copy with another interface","clone with another interface","copy with another interface and prefix","initialize from the interface","initialize from the interface, copy with another interface"};
static const char*ON[]={"solve the second","solve the first then the second","solve the second then the first","drop the second, solve the first","solve the second twice"};
struct U { int inst,cf,w,o,ob; }; static std::vector<U> US; static std::vector<FamIdx> INST;
static std::string opts(int c){ std::string r="bonmin.",s=CF[c]; for(char ch:s) if(ch==';') r+="\nbonmin."; else r+=ch; return r+"\n"; }
static long build(bool th){ US.clear(); INST.clear(); std::vector<FamIdx> all=family(-1,true); for(size_t i=0;i<all.size();i++){ bool deep=all[i].lay>=100; if(th?(deep?i%4==2:i%5==1):(deep?(all[i].lay-100)%20==7:i%31==4)) INST.push_back(all[i]); }
  for(size_t i=0;i<INST.size();i++) for(int c=0;c<NCF;c++) for(int w=0;w<W_N;w++) for(int o=0;o<O_N;o++){ if(!th&&(i+c+w+o)%3) continue; US.push_back(U{(int)i,c,w,o,0}); if(w<=W_PREFIX) US.push_back(U{(int)i,c,w,o,1}); } return US.size(); }
static std::string desc(long u){ const U&x=US[u]; return "["+std::string(CF[x.cf])+"] "+name(INST[x.inst])+" "+WN[x.w]+", "+ON[x.o]+(x.ob?" (own branching objects)":""); }
static std::string shape(BonminSetup&b){ std::ostringstream o; o<<"cuts"<<b.cutGenerators().size()<<" heur"<<b.heuristics().size()<<" obj"<<b.objects().size()<<" algo"<<(int)b.getAlgorithm()<<" cmp"<<b.nodeComparisonMethod()<<" tree"<<b.treeTraversalMethod()<<" branch"<<(b.branchingMethod()!=NULL)<<" par"; for(int i=0;i<BabSetupBase::NumberIntParam;i++) o<<","<<b.getIntParameter((BabSetupBase::IntParameter)i); for(int i=0;i<BabSetupBase::NumberDoubleParam;i++) o<<","<<b.getDoubleParameter((BabSetupBase::DoubleParameter)i); return o.str(); }
static void unit(bool,long u,Out&o){ const U&x=US[u]; Prob p=mk(INST[x.inst]); RefPair ref=refPair(p); SmartPtr<GenTMINLP> t=new GenTMINLP(p); Run r; r.t=t; std::string e,at="set-up"; o.add("histories");
  auto solve1=[&](BonminSetup&b,const char*w){ at=w; r.mip=-1; r.hasX=false; t->finCount=0; Bab bb; bb(b); collect(bb,r); r.threw=false; std::string q=judge(p,ref,r,2e-4,false); o.outcome(std::string(stName(r.mip))+std::to_string(r.nodes)); if(!q.empty()&&e.empty()) e=std::string(w)+": "+q; };
  guard(r,[&]{ std::unique_ptr<BonminSetup> a(new BonminSetup),b,m; a->initializeOptionsAndJournalist(); a->readOptionsString(QUIET); a->readOptionsString(opts(x.cf)); a->initialize(GetRawPtr(t)); if(x.ob) for(int i=0;i<p.n;i++) if(p.type[i]){ a->objects().push_back(new OsiSimpleInteger(i,p.lb[i],p.ub[i])); a->objects().back()->setPriority(50+i); } std::string sa=shape(*a); OsiTMINLPInterface*nlp=NULL; at=WN[x.w];
    switch(x.w){ case W_COPY: b.reset(new BonminSetup(*a)); break; case W_CLONE: b.reset(dynamic_cast<BonminSetup*>(a->clone())); break; case W_COPY2: m.reset(new BonminSetup(*a)); b.reset(new BonminSetup(*m)); break;
      case W_NLP: nlp=dynamic_cast<OsiTMINLPInterface*>(a->nonlinearSolver()->clone()); b.reset(new BonminSetup(*a,*nlp)); break; case W_CLONENLP: nlp=dynamic_cast<OsiTMINLPInterface*>(a->nonlinearSolver()->clone()); b.reset(a->clone(*nlp)); break;
      case W_PREFIX: nlp=dynamic_cast<OsiTMINLPInterface*>(a->nonlinearSolver()->clone()); b.reset(a->clone(*nlp,"bonmin.")); break; case W_INIT: b.reset(new BonminSetup); b->initialize(*a->nonlinearSolver(),true); break; case W_INIT_NLP: m.reset(new BonminSetup); m->initialize(*a->nonlinearSolver(),true); nlp=dynamic_cast<OsiTMINLPInterface*>(a->nonlinearSolver()->clone()); b.reset(new BonminSetup(*m,*nlp)); break; }
    std::string sb=shape(*b); if(sb!=sa) e="the second set-up is "+sb+" but the first is "+sa; else if(shape(*a)!=sa) e="the first set-up changed";
    if(x.ob){ for(size_t i=0;e.empty()&&i<b->objects().size();i++){ OsiObject*q=b->objects()[i]; if(q==a->objects()[i]) e="the second set-up shares the first one's branching objects"; else if(q->priority()!=a->objects()[i]->priority()||q->columnNumber()!=a->objects()[i]->columnNumber()) e="a branching object of the second differs"; } if(!e.empty()){ a.release(); b.release(); m.release(); return; } at="dropping"; if(x.o%2) a.reset(); b.reset(); m.reset(); a.reset(); return; }
    switch(x.o){ case O_SECOND: solve1(*b,"second"); break; case O_FIRST_SECOND: solve1(*a,"first"); solve1(*b,"second"); break; case O_SECOND_FIRST: solve1(*b,"second"); solve1(*a,"first"); break; case O_DROP_SECOND: at="dropping the second"; b.reset(); solve1(*a,"first"); break; case O_SECOND_TWICE: solve1(*b,"second"); solve1(*b,"second again"); break; }
    at="dropping"; b.reset(); m.reset(); a.reset(); });
  if(r.threw) e="exception at "+at+": "+r.what; if(!e.empty()) o.fail(e); }
int main(int c,char**v){ return stdMain(c,v,build,unit,[](bool,long u){ return desc(u); },60); }
