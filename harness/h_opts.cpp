// An option set by the user is the value the algorithm uses, whichever way it was set and whatever else is set;
// a value outside the documented range is refused and leaves the old one: every way x option value x algorithm,
// every pair of option values x algorithm, every range end of every option.
#include "e2e.hpp"
#include "BonDiver.hpp"
#include <memory>
#include <typeinfo>
using namespace vg; using namespace vr; using namespace Bonmin; using Ipopt::SmartPtr; typedef BabSetupBase BS;
enum Kind { KI,KD,KE,KCUT,KHEU,KCMP,KTREE,KVAR };
struct A { const char*opt; Kind k; int id; const char*val; double want; const char*what; }; // want: the value the set-up must report
static const A AS[]={
 {"bb_log_level",KI,BS::BabLogLevel,"0",0,0},{"bb_log_level",KI,BS::BabLogLevel,"2",2,0},{"bb_log_interval",KI,BS::BabLogInterval,"17",17,0},{"bb_log_interval",KI,BS::BabLogInterval,"1",1,0},
 {"max_consecutive_failures",KI,BS::MaxFailures,"0",0,0},{"max_consecutive_failures",KI,BS::MaxFailures,"4",4,0},{"max_consecutive_infeasible",KI,BS::MaxInfeasible,"3",3,0},{"max_consecutive_infeasible",KI,BS::MaxInfeasible,"6",6,0},
 {"nlp_failure_behavior",KI,BS::FailureBehavior,"fathom",1,0},{"nlp_failure_behavior",KI,BS::FailureBehavior,"stop",0,0},
 {"number_strong_branch",KI,BS::NumberStrong,"3",3,0},{"number_strong_branch",KI,BS::NumberStrong,"0",0,0},{"number_before_trust",KI,BS::MinReliability,"2",2,0},{"number_before_trust",KI,BS::MinReliability,"5",5,0},
 {"node_limit",KI,BS::MaxNodes,"12345",12345,0},{"node_limit",KI,BS::MaxNodes,"77",77,0},{"solution_limit",KI,BS::MaxSolutions,"99",99,0},{"solution_limit",KI,BS::MaxSolutions,"4321",4321,0},{"iteration_limit",KI,BS::MaxIterations,"54321",54321,0},{"iteration_limit",KI,BS::MaxIterations,"100000",100000,0},
 {"sos_constraints",KI,BS::DisableSos,"disable",1,0},{"sos_constraints",KI,BS::DisableSos,"enable",0,0},{"num_cut_passes",KI,BS::NumCutPasses,"3",3,0},{"num_cut_passes",KI,BS::NumCutPasses,"5",5,0},{"num_cut_passes_at_root",KI,BS::NumCutPassesAtRoot,"7",7,0},{"num_cut_passes_at_root",KI,BS::NumCutPassesAtRoot,"1",1,0},{"nlp_log_at_root",KI,BS::RootLogLevel,"1",1,0},{"nlp_log_at_root",KI,BS::RootLogLevel,"2",2,0},
 {"cutoff_decr",KD,BS::CutoffDecr,"0.001",0.001,0},{"cutoff_decr",KD,BS::CutoffDecr,"-0.5",-0.5,0},{"cutoff",KD,BS::Cutoff,"1234.5",1234.5,0},{"cutoff",KD,BS::Cutoff,"1e6",1e6,0},{"allowable_gap",KD,BS::AllowableGap,"0.25",0.25,0},{"allowable_gap",KD,BS::AllowableGap,"1e-3",1e-3,0},{"allowable_fraction_gap",KD,BS::AllowableFractionGap,"0.125",0.125,0},{"allowable_fraction_gap",KD,BS::AllowableFractionGap,"1e-4",1e-4,0},
 {"integer_tolerance",KD,BS::IntTol,"1e-5",1e-5,0},{"integer_tolerance",KD,BS::IntTol,"0.0625",0.0625,0},{"time_limit",KD,BS::MaxTime,"5000",5000,0},{"time_limit",KD,BS::MaxTime,"321",321,0},
 {"node_comparison",KCMP,0,"depth-first",BS::DFS,0},{"node_comparison",KCMP,0,"breadth-first",BS::BFS,0},{"node_comparison",KCMP,0,"dynamic",BS::dynamic,0},{"node_comparison",KCMP,0,"best-guess",BS::bestGuess,0},{"node_comparison",KCMP,0,"best-bound",BS::bestBound,0},
 {"tree_search_strategy",KTREE,0,"top-node",BS::HeapOnly,0},{"tree_search_strategy",KTREE,0,"dive",BS::DiveFromBest,0},{"tree_search_strategy",KTREE,0,"probed-dive",BS::ProbedDive,0},{"tree_search_strategy",KTREE,0,"dfs-dive",BS::DfsDiveFromBest,0},{"tree_search_strategy",KTREE,0,"dfs-dive-dynamic",BS::DfsDiveDynamic,0},
 {"variable_selection",KVAR,0,"most-fractional",0,0},{"variable_selection",KVAR,0,"reliability-branching",0,0},
 {"Gomory_cuts",KCUT,0,"-3",-3,"Mixed Integer Gomory"},{"Gomory_cuts",KCUT,0,"0",0,"Mixed Integer Gomory"},{"mir_cuts",KCUT,0,"-2",-2,"Mixed Integer Rounding"},{"mir_cuts",KCUT,0,"0",0,"Mixed Integer Rounding"},{"2mir_cuts",KCUT,0,"4",4,"2-MIR"},{"cover_cuts",KCUT,0,"0",0,"Cover"},{"cover_cuts",KCUT,0,"-7",-7,"Cover"},{"clique_cuts",KCUT,0,"0",0,"Clique"},{"clique_cuts",KCUT,0,"2",2,"Clique"},{"flow_cover_cuts",KCUT,0,"0",0,"Flow Covers"},{"flow_cover_cuts",KCUT,0,"9",9,"Flow Covers"},{"lift_and_project_cuts",KCUT,0,"-4",-4,"Lift-and-Project"},{"reduce_and_split_cuts",KCUT,0,"6",6,"Reduce-and-Split"},
 {"heuristic_dive_fractional",KHEU,0,"yes",1,"DiveFractional"},{"heuristic_dive_vectorLength",KHEU,0,"yes",1,"DiveVectorLength"},{"heuristic_dive_MIP_fractional",KHEU,0,"yes",1,"DiveMIPFractional"},{"heuristic_dive_MIP_fractional",KHEU,0,"no",0,"DiveMIPFractional"},{"heuristic_dive_MIP_vectorLength",KHEU,0,"yes",1,"DiveMIPVectorLength"},{"heuristic_feasibility_pump",KHEU,0,"yes",1,"FPump"},{"heuristic_feasibility_pump",KHEU,0,"no",0,"FPump"},{"heuristic_RINS",KHEU,0,"yes",1,"RINS"},{"heuristic_local_branching",KHEU,0,"yes",1,"LocalBranching"},
 {"filmint_ecp_cuts",KCUT,1,"2",2,"Ecp cuts"},{"nlp_solve_frequency",KCUT,2,"3",3,"NLP solution based oa cuts"},{"nlp_solve_frequency",KCUT,2,"0",0,"NLP solution based oa cuts"} };
static const int NA=sizeof(AS)/sizeof(AS[0]);
static const char*AL[]={"B-BB","B-OA","B-QG","B-Hyb","B-Ecp","B-iFP"}; static const Algorithm AE[]={B_BB,B_OA,B_QG,B_Hyb,B_Ecp,B_IFP};
enum { W_PRE,W_BARE,W_FILE,W_SET,W_BARE_PRE,W_PRE_BARE,W_TWICE,W_IFACE,W_SUB,W_SUB_BARE,W_N };
static const char*WN[]={"prefixed string","plain string","file","option list","plain then prefixed","prefixed then plain","option list, twice","set-up made from the interface","set-up with another prefix","plain, set-up with another prefix"};
static Prob problem(int k){ Prob p(3); p.var(0,1,0,1,0); p.var(1,k?2:1,0,k?3:1,0); p.var(2,0,-1,2,0); p.obj=mkObj(3,k?0:2); addCon(p,0); return p; }
static bool isStr(const A&a){ return a.k==KHEU||a.k==KCMP||a.k==KTREE||a.k==KVAR||a.id==BS::FailureBehavior&&a.k==KI||a.id==BS::DisableSos&&a.k==KI; }
typedef std::map<std::string,double> Obs; // everything observable about a set-up
static Obs observe(BonminSetup&b){ Obs o; for(int i=0;i<BS::NumberIntParam;i++) o["int"+std::to_string(i)]=b.getIntParameter((BS::IntParameter)i); for(int i=0;i<BS::NumberDoubleParam;i++) o["dbl"+std::to_string(i)]=b.getDoubleParameter((BS::DoubleParameter)i);
  o["cmp"]=b.nodeComparisonMethod(); o["tree"]=b.treeTraversalMethod(); o["algo"]=b.getAlgorithm(); for(auto&c:b.cutGenerators()) o["cut:"+c.id]=c.frequency; for(auto&h:b.heuristics()) o["heu:"+h.id]+=1; return o; }
static void apply(Obs&o,const A&a,int al,bool pure){ // the model: effect of one assignment on the observation of the defaults
  bool lp=al!=0; std::ostringstream k; switch(a.k){
   case KI: if(a.id==BS::BabLogLevel&&al==5) return; k<<"int"<<a.id; o[k.str()]=a.want; return; case KD: k<<"dbl"<<a.id; o[k.str()]=a.want; return;
   case KCMP: o["cmp"]=a.want; return; case KTREE: o["tree"]=a.want; return; case KVAR: return;
   case KHEU: if(a.want) o[std::string("heu:")+a.what]=1; else o.erase(std::string("heu:")+a.what); return;
   case KCUT: if(!lp) return; if(a.id==0&&al!=3&&al!=4) return; if(a.id==1&&al==4) return; if(a.id==2&&al!=3) return; if(a.want) o[std::string("cut:")+a.what]=a.want; else o.erase(std::string("cut:")+a.what); return; case KE: return; } }
static void applyVar(Obs&o,const A&a){ if(std::string(a.val)=="most-fractional"){ o["int"+std::to_string((int)BS::NumberStrong)]=0; o["int"+std::to_string((int)BS::MinReliability)]=0; } else o["int"+std::to_string((int)BS::MinReliability)]=10; }
static std::string diff(const Obs&want,const Obs&got){ std::ostringstream e; std::string tm="dbl"+std::to_string((int)BS::MaxTime); for(auto&w:want){ auto g=got.find(w.first); if(g==got.end()) e<<w.first<<" is missing (expected "<<w.second<<"); "; else if(w.first==tm? !(std::fabs(g->second-w.second)<=30):g->second!=w.second) e<<w.first<<" is "<<g->second<<" instead of "<<w.second<<"; "; } for(auto&g:got) if(!want.count(g.first)) e<<g.first<<" is "<<g.second<<" but was not asked for; "; return e.str(); }
static bool setv(BonminSetup&b,const A&a){ std::string n=std::string("bonmin.")+a.opt; return isStr(a)?b.options()->SetStringValue(n,a.val):a.k==KD?b.options()->SetNumericValue(n,a.want):b.options()->SetIntegerValue(n,(int)a.want); }
static void put(BonminSetup&b,const A&a,int w,const std::string&dir){ std::string l=std::string(a.opt)+" "+a.val+"\n"; const A*alt=NULL; for(int i=0;i<NA&&!alt;i++) if(!strcmp(AS[i].opt,a.opt)&&strcmp(AS[i].val,a.val)) alt=&AS[i]; std::string m=alt?std::string(a.opt)+" "+alt->val+"\n":"";
  switch(w){ case W_PRE: case W_IFACE: b.readOptionsString("bonmin."+l); break; case W_BARE: case W_SUB_BARE: b.readOptionsString(l); break; case W_FILE:{ std::string f=dir+"/opt"; std::ofstream(f.c_str())<<"# a comment\n\nbonmin."<<l; b.readOptionsFile(f); break; }
   case W_SET: if(!setv(b,a)) throw CoinError("refused","put","h_opts"); break;
   case W_BARE_PRE: b.readOptionsString(m+"bonmin."+l); break; case W_PRE_BARE: b.readOptionsString("bonmin."+l+m); break; case W_TWICE: if(alt) setv(b,*alt); if(!setv(b,a)) throw CoinError("refused","put","h_opts"); break; case W_SUB: b.readOptionsString("sub."+l+(m.empty()?"":"bonmin."+m)); break; } }
static std::unique_ptr<BonminSetup> fresh(int al,int quiet){ std::unique_ptr<BonminSetup> b(new BonminSetup); b->initializeOptionsAndJournalist(); b->readOptionsString("print_level 0\nsb yes\n"); (void)quiet; b->readOptionsString(std::string("algorithm ")+AL[al]+"\n"); return b; }
static const char* TREE[]={"CbcTree","CbcDiver","CbcProbedDiver","CbcDfsDiver","CbcDfsDiver"};
static std::string model(BonminSetup&b,Bab&bb){ std::ostringstream e; const CbcModel&m=bb.model(); auto I=[&](const char*n,double v,BS::IntParameter q){ if(v!=b.getIntParameter(q)) e<<"the search uses "<<n<<" "<<v<<" instead of "<<b.getIntParameter(q)<<"; "; }; auto D=[&](const char*n,double v,BS::DoubleParameter q){ if(std::fabs(v-b.getDoubleParameter(q))>1e-12*(1+std::fabs(v))) e<<"the search uses "<<n<<" "<<v<<" instead of "<<b.getDoubleParameter(q)<<"; "; };
  I("node limit",m.getMaximumNodes(),BS::MaxNodes); I("solution limit",m.getMaximumSolutions(),BS::MaxSolutions); I("strong branching candidates",m.numberStrong(),BS::NumberStrong); I("trust",m.numberBeforeTrust(),BS::MinReliability); I("cut passes",m.getMaximumCutPasses(),BS::NumCutPasses); I("root cut passes",m.getMaximumCutPassesAtRoot(),BS::NumCutPassesAtRoot); I("log level",m.logLevel(),BS::BabLogLevel); I("log interval",m.printFrequency(),BS::BabLogInterval);
  D("integer tolerance",m.getIntegerTolerance(),BS::IntTol); D("absolute gap",m.getAllowableGap(),BS::AllowableGap); D("relative gap",m.getAllowableFractionGap(),BS::AllowableFractionGap); { double t=b.getDoubleParameter(BS::MaxTime),g=m.getMaximumSeconds(); if(!(g<=t&&g>=t-30)) e<<"the search uses time limit "<<g<<" instead of "<<t<<"; "; }
  std::string t=typeid(*m.tree()).name(); if(t.find(TREE[b.treeTraversalMethod()])==std::string::npos||(b.treeTraversalMethod()==BS::DiveFromBest&&t.find("Probed")!=std::string::npos)) e<<"the search uses tree "<<t<<" for strategy "<<b.treeTraversalMethod()<<"; "; return e.str(); }
struct R { const char*opt; int kind; double lo,hi; bool slo,shi; }; // documented range: kind 0 integer, 1 number; hi>=1e90: none; s*: open end
static const R RS[]={ {"bb_log_level",0,0,5,0,0},{"bb_log_interval",0,0,1e99,0,0},{"lp_log_level",0,0,4,0,0},{"nlp_log_at_root",0,0,12,0,0},{"max_consecutive_failures",0,0,1e99,0,0},{"max_consecutive_infeasible",0,0,1e99,0,0},{"number_strong_branch",0,0,1e99,0,0},{"number_before_trust",0,0,1e99,0,0},{"node_limit",0,0,1e99,0,0},{"solution_limit",0,0,1e99,0,0},{"iteration_limit",0,0,1e99,0,0},{"num_cut_passes",0,0,1e99,0,0},{"num_cut_passes_at_root",0,0,1e99,0,0},{"random_generator_seed",0,-1,1e99,0,0},
 {"Gomory_cuts",0,-100,1e99,0,0},{"mir_cuts",0,-100,1e99,0,0},{"2mir_cuts",0,-100,1e99,0,0},{"cover_cuts",0,-100,1e99,0,0},{"clique_cuts",0,-100,1e99,0,0},{"flow_cover_cuts",0,-100,1e99,0,0},{"lift_and_project_cuts",0,-100,1e99,0,0},{"reduce_and_split_cuts",0,-100,1e99,0,0},{"nlp_solve_frequency",0,0,1e99,0,0},{"filmint_ecp_cuts",0,0,1e99,0,0},{"num_resolve_at_root",0,0,1e99,0,0},{"num_resolve_at_node",0,0,1e99,0,0},{"num_retry_unsolved_random_point",0,0,1e99,0,0},{"oa_log_level",0,0,2,0,0},{"milp_log_level",0,0,4,0,0},
 {"time_limit",1,0,1e99,0,0},{"integer_tolerance",1,0,1e99,1,0},{"allowable_gap",1,-1e20,1e20,0,0},{"allowable_fraction_gap",1,-1e20,1e20,0,0},{"cutoff",1,-1e100,1e100,0,0},{"cutoff_decr",1,-1e10,1e10,0,0},{"oa_log_frequency",1,0,1e99,1,0},{"tiny_element",1,0,1e99,0,0},{"very_tiny_element",1,0,1e99,0,0},{"max_random_point_radius",1,0,1e99,1,0} };
static const int NR=sizeof(RS)/sizeof(RS[0]);
static const char*ENUM[]={"algorithm","node_comparison","tree_search_strategy","variable_selection","nlp_failure_behavior","sos_constraints","heuristic_RINS","heuristic_feasibility_pump","pump_for_minlp","oa_decomposition","milp_strategy","warm_start","nlp_solver","cut_strengthening_type","enable_dynamic_nlp","fp_pass_infeasible","random_point_type"}; static const int NE=sizeof(ENUM)/sizeof(ENUM[0]);
struct U { int kind,al,a,w,pr; }; static std::vector<U> US;
static long build(bool th){ US.clear(); for(int al=0;al<6;al++) for(int a=0;a<NA;a++){ for(int pr=0;pr<2;pr++){ if(!th&&pr&&(al+a)%3) continue; for(int w=0;w<W_N;w++) US.push_back(U{0,al,a,w,pr}); if(AS[a].k!=KVAR) US.push_back(U{1,al,a,0,pr}); } } for(int r=0;r<NR;r++) for(int al=0;al<(th?6:2);al++) US.push_back(U{2,al,r,0,0}); for(int r=0;r<=NE;r++) US.push_back(U{3,0,r,0,0}); return US.size(); }
static std::string nm(int a){ return std::string(AS[a].opt)+" "+AS[a].val; }
static std::string desc(long u){ const U&x=US[u]; std::string s=std::string(AL[x.al])+" problem "+std::to_string(x.pr)+" "; if(x.kind==0) return s+nm(x.a)+" by "+WN[x.w]; if(x.kind==1) return s+nm(x.a)+" with every other setting"; if(x.kind==2) return s+"range of "+RS[x.a].opt; return x.a<NE?"values of "+std::string(ENUM[x.a]):"unknown names"; }
static bool skip(const A&a,int pr,int al){ return (pr&&al==0&&!strcmp(a.opt,"heuristic_feasibility_pump"))||(a.k==KCUT&&((a.id==2&&al!=3)||(a.id==1&&al==4))); } // B-BB leaves this pump out on problems with general integers
static bool accepts(BonminSetup&b,const std::string&l){ try{ b.readOptionsString(l); return true; } catch(Ipopt::IpoptException&){ return false; } }
static void unit(bool th,long u,Out&o){ const U&x=US[u]; Run r; std::string e,at; char td[]="/tmp/vopts.XXXXXX"; std::string dir; if(x.kind==0&&x.w==W_FILE){ if(!mkdtemp(td)) { o.fail("mkdtemp"); return; } dir=td; }
  Prob p=problem(x.pr); auto T=[&]{ return SmartPtr<TMINLP>(new GenTMINLP(p)); };
  guard(r,[&]{ if(x.kind==0){ const A&a=AS[x.a]; if(skip(a,x.pr,x.al)) return; o.add("set-ups"); auto d=fresh(x.al,1); d->initialize(T()); Obs want=observe(*d); if(want["algo"]!=AE[x.al]) e="wrong algorithm"; std::unique_ptr<BonminSetup> b=fresh(x.al,1),s; BonminSetup*q=b.get();
      put(*b,a,x.w,dir); bool sub=x.w==W_SUB||x.w==W_SUB_BARE; if(sub&&(a.k==KHEU||a.k==KCUT)) return; // the copies of heuristics and cuts are not remade for a sub-problem
      b->initialize(T()); if(x.w==W_IFACE){ s.reset(new BonminSetup); s->initialize(*b->nonlinearSolver(),x.al!=0); q=s.get(); } if(sub){ Obs w0=observe(*b); OsiTMINLPInterface*nlp=dynamic_cast<OsiTMINLPInterface*>(b->nonlinearSolver()->clone()); s.reset(b->clone(*nlp,"sub.")); q=s.get(); std::string z=diff(w0,observe(*b)); if(!z.empty()) e+="the first set-up changed: "+z; Obs g=observe(*q); std::ostringstream k; k<<(a.k==KI?"int":a.k==KD?"dbl":a.k==KCMP?"cmp":"tree"); if(a.k==KI||a.k==KD) k<<a.id; if(a.k==KVAR){ applyVar(g,a); e+=diff(g,observe(*q)); } else if(g[k.str()]!=a.want&&!(a.k==KI&&a.id==BS::BabLogLevel&&x.al==5)&&!(a.k==KD&&a.id==BS::MaxTime)) { std::ostringstream m; m<<k.str()<<" is "<<g[k.str()]<<" instead of "<<a.want; e+=m.str(); } return; }
      if(a.k==KVAR) applyVar(want,a); else apply(want,a,x.al,true); Obs got=observe(*q); if(x.w==W_IFACE&&x.al==1) want["int0"]=got["int0"]; /*B-OA silences a second set-up*/ e+=diff(want,got); o.outcome(std::string(a.opt)+"="+a.val); if(!e.empty()) return;
      bool neg=a.k==KD&&a.id==BS::CutoffDecr&&a.want<0&&x.al!=0&&!(x.al==1&&x.pr==0&&x.w==W_PRE); /*known finding: searched once*/ if((x.w==W_PRE||x.w==W_IFACE)&&a.k!=KHEU&&!neg){ at="solve"; Bab bb; bb(*q); o.add("searches"); e+=model(*q,bb); } }
    else if(x.kind==1){ const A&a=AS[x.a]; if(skip(a,x.pr,x.al)) return; auto d=fresh(x.al,1); d->initialize(T()); Obs base=observe(*d); for(int j=0;j<NA&&e.empty();j++){ const A&c=AS[j]; if(!strcmp(a.opt,c.opt)||skip(c,x.pr,x.al)) continue; if(c.k==KVAR&&a.k==KI&&(a.id==BS::NumberStrong||a.id==BS::MinReliability)) continue; /*contradictory requests*/ if(!th&&x.al&&(x.a+j+x.al)%2) continue; o.add("pairs"); o.add("set-ups"); auto b=fresh(x.al,1); put(*b,a,W_PRE,""); put(*b,c,W_PRE,""); at=nm(j); b->initialize(T()); Obs want=base; apply(want,a,x.al,false); if(c.k==KVAR) applyVar(want,c); else apply(want,c,x.al,false); std::string z=diff(want,observe(*b)); if(z.empty()&&(a.k==KI||a.k==KD)&&(c.k==KI||c.k==KD)&&(x.al==0||x.al==2)&&x.pr==0&&(th||x.al==2||(x.a+j)%2==0)){ bool neg=false; for(const A*q:{&a,&c}) if(q->k==KD&&q->id==BS::CutoffDecr&&q->want<0) neg=true; if(!neg||x.al==0){ Bab bb; bb(*b); o.add("searches"); z=model(*b,bb); } } if(!z.empty()) e="with "+nm(j)+": "+z; } }
    else if(x.kind==2){ const R&q=RS[x.a]; auto b=fresh(x.al,1); auto chk=[&](double v,bool ok){ b=fresh(x.al,1); std::ostringstream s; s.precision(17); s<<v; for(int w=0;w<2;w++){ std::string l=(w?"":"bonmin.")+std::string(q.opt)+" "+s.str()+"\n"; o.add("values"); bool got=accepts(*b,l); if(got!=ok) e+=std::string(q.opt)+" "+s.str()+(got?" was accepted; ":" was refused; "); if(ok){ if(q.kind==0){ int i=-12345; b->options()->GetIntegerValue(q.opt,i,"bonmin."); if(i!=v) e+=std::string(q.opt)+" does not keep "+s.str()+"; "; } else { double z=-12345; b->options()->GetNumericValue(q.opt,z,"bonmin."); if(z!=v) e+=std::string(q.opt)+" does not keep "+s.str()+"; "; } } } };
      double in=q.kind==0?(q.lo+(q.hi<1e90?1:3)):(q.hi<1e90?0.5:q.lo+0.5); chk(in,true); double st=q.kind==0?1:std::max(1e-3,std::fabs(q.lo)*1e-3); chk(q.lo-st,false); chk(q.lo,!q.slo); if(q.hi<1e90||q.kind==1&&q.hi<1e150&&q.hi>1e99){ chk(q.hi,!q.shi); chk(q.kind==0?q.hi+1:q.hi*1.001,false); } chk(in,true);
      for(const char*bad:{"abc","1x","yes"}){ o.add("values"); if(accepts(*b,std::string("bonmin.")+q.opt+" "+bad+"\n")) e+=std::string(q.opt)+" accepts "+bad+"; "; } double z=-1; int i=-1; if(q.kind==0){ b->options()->GetIntegerValue(q.opt,i,"bonmin."); z=i; } else b->options()->GetNumericValue(q.opt,z,"bonmin."); if(z!=in) e+=std::string(q.opt)+" lost its value after refusals; "; }
    else { auto b=fresh(0,1); if(x.a<NE){ for(const char*bad:{"nonsense","7","yesno"}){ o.add("values"); if(accepts(*b,std::string("bonmin.")+ENUM[x.a]+" "+bad+"\n")) e+=std::string(ENUM[x.a])+" accepts "+bad+"; "; } } else for(const char*l:{"bonmin.no_such_option 1\n","no_such_option yes\n","bonmin.node_limits 3\n"}){ o.add("values"); if(accepts(*b,l)) e+=std::string("accepts ")+l; } } });
  if(!dir.empty()){ unlink((dir+"/opt").c_str()); rmdir(dir.c_str()); } if(r.threw) e="exception at "+at+": "+r.what; if(!e.empty()) o.fail(e); }
int main(int c,char**v){ return stdMain(c,v,build,unit,[](bool,long u){ return desc(u); },20); }
