// Search annotations (priorities, directions, pseudo-costs, special ordered sets) never change the answer:
// every combination of annotations x algorithm x instance.
#include "e2e.hpp"
using namespace vg; using namespace vr; using namespace Bonmin; using Ipopt::SmartPtr;
struct Cfg { const char*opts; int cbc; }; // cbc: Cbc's own branching objects are used (pseudo-costs and everything else supported)
static const Cfg CF[]={ {"bonmin.algorithm B-BB\n",0},{"bonmin.algorithm B-BB\nbonmin.variable_selection most-fractional\n",1},{"bonmin.algorithm B-BB\nbonmin.variable_selection random\nbonmin.tree_search_strategy probed-dive\n",0},{"bonmin.algorithm B-BB\nbonmin.variable_selection lp-strong-branching\n",0},
 {"bonmin.algorithm B-OA\n",1},{"bonmin.algorithm B-QG\nbonmin.variable_selection most-fractional\n",1},{"bonmin.algorithm B-Hyb\nbonmin.variable_selection most-fractional\n",1},{"bonmin.algorithm B-Ecp\nbonmin.variable_selection most-fractional\n",1},{"bonmin.algorithm B-iFP\n",1},
 {"bonmin.algorithm B-BB\nbonmin.variable_selection most-fractional\nbonmin.tree_search_strategy dfs-dive\nbonmin.heuristic_dive_fractional yes\n",1},{"bonmin.algorithm B-BB\nbonmin.number_strong_branch 1\nbonmin.number_before_trust 1\nbonmin.tree_search_strategy dive\n",0} };
static const int NCF=sizeof(CF)/sizeof(CF[0]), NPR=5,ND=4,NPS=3,NSOS=7;
struct U { int kind,inst,pr,di,ps,sos,cf; }; static std::vector<U> US; static std::vector<FamIdx> INST; static const int NS=12;
static Prob sosProb(int k,int s){ int two=k%2; int nb=two?4:3,n=nb+1; Prob p(n); for(int i=0;i<nb;i++) p.var(i,1,0,1,0); p.var(nb,0,-1,2,0); p.obj=mkObj(n,(k/2)%6==5?6:(k/2)%6); if((k/2)%3==1) addCon(p,0); if((k/2)%3==2) addCon(p,11);
  double lo=k%4<2?1.:-INF; if(two){ Func a(n),b(n); a.L(0,1.);a.L(1,1.); b.L(2,1.);b.L(3,1.); p.con(a,lo,1.); p.con(b,lo,1.); if(s==6){ Func c(n); c.L(1,1.);c.L(2,1.); p.con(c,-INF,1.); } } else { Func a(n); for(int i=0;i<3;i++) a.L(i,1.); p.con(a,lo,1.); }
  return p; }
static void setSos(Prob&p,int k,int s){ if(!s) return; bool two=k%2; std::vector<std::vector<int> > v; if(two){ v={{0,1},{2,3}}; if(s==6) v.push_back({1,2}); } else { v={{0,1,2}}; if(s==6) v={{0,1},{0,2}}; } for(auto&q:v){ if(s==2||s==5) std::reverse(q.begin(),q.end()); if(s==3&&q.size()>2) std::swap(q[0],q[1]); p.sos.push_back(q); p.sosType.push_back(1); } }
static Prob get(const U&x){ Prob p=x.kind?sosProb(x.inst,x.sos):mk(INST[x.inst]); if(x.kind) setSos(p,x.inst,x.sos); int k=0; if(x.pr){ p.prio.assign(p.n,1); for(int i=0;i<p.n;i++) if(p.type[i]){ p.prio[i]=x.pr==1?1+k:x.pr==2?9-k:x.pr==3?(k%2?0:7):1000; k++; } }
  if(x.di){ p.bdir.assign(p.n,0); k=0; for(int i=0;i<p.n;i++) if(p.type[i]){ p.bdir[i]=x.di==1?1:x.di==2?-1:1-k%3; k++; } } if(x.ps){ p.upPs.assign(p.n,1); p.downPs.assign(p.n,1); if(x.ps==2) for(int i=0;i<p.n;i++){ p.upPs[i]=0.1+3*(i%2); p.downPs[i]=2-1.9*(i%2); } } return p; }
struct AnnTMINLP : GenTMINLP { AnnTMINLP(const Prob&p,const U&x):GenTMINLP(p){ if(!brInfo&&(!p.bdir.empty()||!p.upPs.empty())){ brInfo=new TMINLP::BranchingInfo; brInfo->size=p.n; if(!p.bdir.empty()){ brInfo->branchingDirections=new int[p.n]; for(int i=0;i<p.n;i++) brInfo->branchingDirections[i]=p.bdir[i]; } if(!p.upPs.empty()){ brInfo->upPsCosts=new double[p.n]; brInfo->downPsCosts=new double[p.n]; for(int i=0;i<p.n;i++){ brInfo->upPsCosts[i]=p.upPs[i]; brInfo->downPsCosts[i]=p.downPs[i]; } } }
    if(sosInfo) for(int k=0;k<sosInfo->num;k++){ if(x.sos==4) sosInfo->priorities[k]=20-k; if(x.sos==5) sosInfo->priorities[k]=0; if(x.sos==3) for(int q=sosInfo->starts[k];q<sosInfo->starts[k+1];q++) sosInfo->weights[q]*=7.5; } } };
static long build(bool th){ US.clear(); INST.clear(); std::vector<FamIdx> all=family(-1,true); for(size_t i=0;i<all.size();i++){ bool deep=all[i].lay>=100; if(th?(deep?i%4==1:i%2==0):(deep?(all[i].lay-100)%16==9:i%9==2)) INST.push_back(all[i]); }
  for(size_t i=0;i<INST.size();i++) for(int c=0;c<NCF;c++) for(int a=0;a<NPR;a++) for(int d=0;d<ND;d++) for(int s=0;s<NPS;s++){ if(s&&!CF[c].cbc) continue; if(!a&&!d&&!s) continue; if(!th&&a&&d&&s&&(a+d+s+c+(int)i)%4) continue; US.push_back(U{0,(int)i,a,d,s,0,c}); }
  for(int k=0;k<(th?24:NS);k++) for(int c=0;c<NCF;c++) for(int s=1;s<NSOS;s++) for(int a=0;a<3;a++) for(int d=0;d<2;d++){ if(!th&&a&&d&&(k+c+s)%3) continue; if(d&&!a) continue; US.push_back(U{1,k,a,d?3:0,0,s,c}); }
  return US.size(); }
static std::string desc(long u){ const U&x=US[u]; std::ostringstream o; o<<"["; for(const char*c=CF[x.cf].opts;*c;c++) o<<(*c=='\n'?';':*c); o<<"] "; if(x.kind) o<<"sos instance "<<x.inst<<" sets "<<x.sos; else o<<name(INST[x.inst]); o<<" priorities "<<x.pr<<" directions "<<x.di<<" pseudo-costs "<<x.ps; return o.str(); }
static void unit(bool,long u,Out&o){ const U&x=US[u]; Prob p=get(x); Prob q=p; q.sos.clear(); q.sosType.clear(); RefPair r=refPair(q); SmartPtr<GenTMINLP> t=new AnnTMINLP(p,x); Run run=solve(p,CF[x.cf].opts,GetRawPtr(t)); o.add("histories"); o.outcome(run.threw?run.what:std::string(stName(run.mip))+std::to_string(run.nodes)); if(x.kind&&run.threw&&run.what.find("Can not use FP on problem with SOS constraints")!=std::string::npos){ o.add("refused"); return; } // the pump refuses special ordered sets, explicitly
  std::string e=judge(q,r,run); if(!e.empty()) o.fail(e); }
int main(int c,char**v){ return stdMain(c,v,build,unit,[](bool,long u){ return desc(u); },60); }
