// Every way a run can be cut short: node, iteration and solution limits at every value, the clock running out at every
// reading, an interrupt at every evaluation, cutoffs and gaps on both sides of the optimum (VR_MODE=limits), and a failing
// evaluation at every call (VR_MODE=faults). Each execution is its own process; only what is claimed is judged.
#include "e2e.hpp"
#include <sys/resource.h>
#include <limits>
using namespace vg; using namespace vr;
// virtual processor clock: advances a microsecond per reading until reading number expireAt, then far beyond every limit
// readings by Ipopt's statistics influence nothing (its own limit is 1e6 s), so expiry points between two others are equivalent
#include <dlfcn.h>
static bool fromIpopt(void*a){ static std::map<void*,bool> m; auto i=m.find(a); if(i!=m.end()) return i->second; Dl_info d; bool r=dladdr(a,&d)&&d.dli_fname&&strstr(d.dli_fname,"libipopt"); return m[a]=r; }
static long clockNow=0, reads=0, expireAt=0;
extern "C" int getrusage(__rusage_who_t,struct rusage*u) noexcept{ memset(u,0,sizeof *u); ++clockNow; u->ru_utime.tv_usec=clockNow%1000000; u->ru_utime.tv_sec=clockNow/1000000; if(fromIpopt(__builtin_return_address(0))){ if(expireAt&&reads>=expireAt) u->ru_utime.tv_sec=200000; return 0; } ++reads; if(expireAt&&reads>=expireAt) u->ru_utime.tv_sec=200000; return 0; }

static const char* ALG[]={"B-BB","B-OA","B-QG","B-Hyb","B-Ecp","B-iFP"};
static const char* EXTRA[]={"","bonmin.tree_search_strategy probed-dive\n","bonmin.variable_selection strong-branching\n","bonmin.tree_search_strategy dfs-dive\nbonmin.node_comparison depth-first\n"};
struct Case { int alg,extra; FamIdx f; int kind; }; // kind: see KIND
static int onlyKind(){ return getenv("KIND")?atoi(getenv("KIND")):-1; }
static const char* KL[]={"node_limit","iteration_limit","solution_limit","clock","interrupt","cutoff","allowable_gap","allowable_fraction_gap","cutoff_decr"};
static const char* KF[]={"fail","fail+fathom","fail-forever","fail-forever+fathom","fail-kind","fail-kind+fathom"};
static bool faults=false; static std::vector<Case> CS;
static std::vector<FamIdx> insts(bool th){ std::vector<FamIdx> all=family(-1,true),r; for(size_t i=0;i<all.size();i++){ bool deep=all[i].lay>=100; if(deep?(th||(all[i].lay-100)%4==1):true) r.push_back(all[i]); } return r; }
static long build(bool th){ CS.clear(); faults=getenv("VR_MODE")&&std::string(getenv("VR_MODE"))=="faults";
  std::vector<FamIdx> I=insts(th);
  for(int a=0;a<6;a++) for(int e=0;e<(a==0?(th||!faults?4:1):1);e++) for(size_t i=0;i<I.size();i++) for(int k=0;k<(faults?6:9);k++){
    bool deep=I[i].lay>=100;
    if(!th){ if(e&&!deep) continue; if(faults&&deep) continue;
      if(faults&&(i+a+k)%(a==0?3:5)) continue; bool slow=k==0||k==1||k==3||k==4; if(!faults&&!deep&&(i+a+k)%(slow?9:3)) continue; if(!faults&&deep&&slow&&(i+a+k+e)%3) continue; }
    if(onlyKind()>=0&&k!=onlyKind()) continue; Case c; c.alg=a; c.extra=e; c.f=I[i]; c.kind=k; CS.push_back(c); }
  return CS.size(); }
static std::string desc(long u){ const Case&c=CS[u]; std::string x=EXTRA[c.extra]; for(auto&q:x) if(q=='\n') q=';'; return std::string(ALG[c.alg])+";"+x+(faults?KF:KL)[c.kind]+" "+name(c.f); }

struct Claim { bool finite; double gap,cutoff; bool fullAnswer; bool fault,fathom; bool relGap=false; };
static std::string judgeStop(const Prob&p,const RefPair&ref,const Run&r,const Claim&cl){
  using namespace Bonmin; std::ostringstream e; e.precision(10); double s=2e-4*(1+std::fabs(ref.feas?ref.lo:0.));
  const char*nm=stName(r.mip); GenTMINLP&t=*r.t;
  if(r.threw){ if(cl.fault){ if(r.what.find("UnsolvedError")==0&&t.finCount>=1&&t.finStatus!=TMINLP::MINLP_ERROR){ e<<"the run ended with an error but the callback was told status "<<(int)t.finStatus; return e.str(); } return ""; } e<<"exception instead of an answer: "<<r.what; return e.str(); }
  if(r.hasX){
    double v=p.viol(&r.x[0]); if(!(v<1e-4)){ e<<nm<<": returned point violates the problem by "<<v<<" x="<<show(r.x); return e.str(); }
    double o=p.obj(&r.x[0]); if(!(std::fabs(o-r.obj)<=s)){ e<<nm<<": reported objective "<<r.obj<<" but f(x)="<<o<<" x="<<show(r.x); return e.str(); }
    if(o>cl.cutoff+s){ e<<nm<<": returned point has objective "<<o<<" above the cutoff "<<cl.cutoff; return e.str(); } }
  double gap=cl.gap*(cl.relGap?std::max(1.,std::fabs(r.obj)):1.);
  switch(r.mip){
    case Bab::FeasibleOptimal: if(!r.hasX) return "optimal status without a solution"; if(!ref.feas) return "optimal status on an infeasible problem";
      if(!cl.fathom&&r.obj>ref.hi+gap+s){ e<<"claimed optimum "<<r.obj<<" but true optimum "<<ref.lo<<".."<<ref.hi<<" at "<<show(ref.x); return e.str(); } break;
    case Bab::ProvenInfeasible: if(r.hasX) return "infeasible status with a solution"; if(!cl.fathom&&ref.feas&&ref.hi<cl.cutoff-cl.gap-s){ e<<"claimed infeasible but the optimum is "<<ref.hi<<" at "<<show(ref.x); return e.str(); } break;
    case Bab::Feasible: if(!r.hasX) return "status Feasible without a solution"; break;
    case Bab::NoSolutionKnown: if(r.hasX) return "status NoSolutionKnown with a solution"; break;
    case Bab::UnboundedOrInfeasible: if(ref.feas){ return "bounded feasible problem reported as unbounded or infeasible"; } break;
    default: e<<"status "<<r.mip; return e.str(); }
  if(cl.fullAnswer&&(r.mip!=Bab::FeasibleOptimal&&r.mip!=Bab::ProvenInfeasible)){ e<<"nothing limits the run but it ended with "<<nm; return e.str(); }
  if(!cl.fathom&&ref.feas&&r.mip!=Bab::ProvenInfeasible&&r.bound>std::max(ref.hi,ref.hi<cl.cutoff?ref.hi:cl.cutoff)+s+gap){ e<<nm<<": reported lower bound "<<r.bound<<" exceeds the optimum "<<ref.hi; return e.str(); }
  if(t.finCount<1) return std::string(nm)+": the solution callback was not called";
  int want=r.mip==Bab::FeasibleOptimal?TMINLP::SUCCESS:r.mip==Bab::ProvenInfeasible?TMINLP::INFEASIBLE:r.mip==Bab::UnboundedOrInfeasible?TMINLP::CONTINUOUS_UNBOUNDED:-1;
  if(want>=0?t.finStatus!=want:(t.finStatus!=TMINLP::LIMIT_EXCEEDED&&t.finStatus!=TMINLP::USER_INTERRUPT&&t.finStatus!=TMINLP::MINLP_ERROR)){ e<<nm<<": the solution callback got status "<<(int)t.finStatus; return e.str(); }
  if(t.finHasX!=r.hasX) return std::string(nm)+": callback and result disagree about a solution";
  if(r.hasX) for(int i=0;i<p.n;i++) if(std::fabs(t.finX[i]-r.x[i])>1e-9) return std::string(nm)+": callback point differs from the returned point";
  return ""; }
static std::string sig(const Run&r){ std::ostringstream o; o.precision(5); o<<(r.threw?r.what:stName(r.mip)); if(!r.threw&&r.hasX) o<<" "<<r.obj; return o.str(); }
static std::string num(double d){ std::ostringstream o; o.precision(12); o<<d; return o.str(); }
// one execution in a process of its own; the child's first outcome is its answer
static bool one(Out&o,const std::string&tag,const std::function<void(Out&)>&f,std::string*ans=NULL){
  Out q; std::string cr=runAlone(0,[&](long,Out&x){f(x);},getenv("SUBCPU")?atoi(getenv("SUBCPU")):8,q); o.add("executions");
  if(!cr.empty()) o.fail(tag+": "+cr); for(auto&m:q.fails) o.fail(tag+": "+m);
  for(auto&c:q.cnt) if(c.first!="failures") o.cnt[c.first]+=c.second; for(auto&x:q.outcomes) o.outcome(x); if(ans) *ans=q.outcomes.empty()?"":*q.outcomes.begin();
  return cr.empty()&&q.fails.empty(); }
static void unit(bool th,long u,Out&o){
  const Case&c=CS[u]; Prob p=mk(c.f); RefPair ref=refPair(p); if(!ref.wellPosed){ o.add("ill_posed_skipped"); return; }
  std::string base=std::string("bonmin.algorithm ")+ALG[c.alg]+"\n"+EXTRA[c.extra]+(c.alg>=1?"bonmin.variable_selection most-fractional\n":""); double big=1e100;
  Claim cl; cl.gap=0; cl.cutoff=big; cl.fullAnswer=false; cl.fault=faults; cl.fathom=false;
  auto go=[&](const std::string&tag,const std::string&opt,const Claim&k,const std::function<void(GenTMINLP&)>&prep,long*evals,long*rd)->std::string{
    std::string a; if(o.fails.size()>=3) return a; one(o,tag,[&](Out&x){ GenTMINLP*t=new GenTMINLP(p); if(prep) prep(*t); Run r=solve(p,base+opt,t); std::string e=judgeStop(p,ref,r,k); if(!e.empty()) x.fail(e); x.outcome(sig(r)); x.add("zz_ev",t->nEval); x.add("zz_rd",reads); x.add("nodes",r.nodes); if(!r.threw&&(r.mip==2||r.mip==4)) x.add("runs_cut_short"); if(r.threw) x.add("runs_ended_by_error"); },&a);
    if(evals) *evals=o.cnt["zz_ev"]; if(rd) *rd=o.cnt["zz_rd"]; o.cnt.erase("zz_ev"); o.cnt.erase("zz_rd"); return a; };
  std::string kn=(faults?KF:KL)[c.kind];
  if(!faults) switch(c.kind){
    case 0: case 1: case 2: { long K=c.kind==0?(th?200:60):c.kind==1?(th?400:60):4;
      for(long k=0;k<=K;k++){ if(c.kind==2&&k==0) continue; std::string a=go(kn+"="+num(k),"bonmin."+kn+" "+num(k)+"\n",cl,nullptr,NULL,NULL); if(c.kind!=1&&(a.find("FeasibleOptimal")==0||a.find("ProvenInfeasible")==0)) break; if(c.kind==1&&k>8&&(a.find("FeasibleOptimal")==0||a.find("ProvenInfeasible")==0)) break; } break; }
    case 3: { long R=0; go("clock never","bonmin.time_limit 1000\n",cl,nullptr,NULL,&R); long cap=th?2000:90; o.add(R>cap?"clock_bounded":"clock_all"); for(long k=1;k<=std::min(R,cap);k++){ expireAt=k; go("clock@"+num(k),"bonmin.time_limit 1000\n",cl,nullptr,NULL,NULL); } expireAt=0; break; }
    case 4: { long E=0; go("no interrupt","",cl,nullptr,&E,NULL); long cap=th?2000:60; for(long q=1;q<=std::min(E,cap);q++){ long k=E<=cap?q:1+(q-1)*E/cap; go("interrupt@"+num(k),"",cl,[k](GenTMINLP&t){ GenTMINLP*s=&t; t.onEval=[s,k](int){ if(s->nEval==k){ struct sigaction sa; sigaction(SIGINT,NULL,&sa); if(sa.sa_handler!=SIG_DFL) raise(SIGINT); } return true; }; },NULL,NULL); } break; }
    case 5: if(ref.feas){ double d[]={-3,-0.3,-0.01,0.01,0.3,3}; for(double x:d){ cl.cutoff=(x<0?ref.lo:ref.hi)+x; cl.fullAnswer=true; go("cutoff=opt"+num(x),"bonmin.cutoff "+num(cl.cutoff)+"\n",cl,nullptr,NULL,NULL); } } else go("cutoff=1","bonmin.cutoff 1\n",cl,nullptr,NULL,NULL); break;
    case 6: { double d[]={0.05,0.3,1.,5.}; for(double x:d){ cl.gap=x; cl.fullAnswer=true; go("gap="+num(x),"bonmin.allowable_gap "+num(x)+"\n",cl,nullptr,NULL,NULL); } break; }
    case 7: { double d[]={0.01,0.2,0.9}; for(double x:d){ cl.gap=ref.feas?x*std::max(1.,std::fabs(ref.hi)*(1+x)/(1-x)):0; cl.fullAnswer=true; go("fracgap="+num(x),"bonmin.allowable_fraction_gap "+num(x)+"\n",cl,nullptr,NULL,NULL); } break; }
    case 8: { double d[]={-0.2,-1e-3,0.05,0.4,2.}; for(double x:d){ if(x<0&&c.alg) continue; cl.relGap=c.alg!=0; cl.gap=std::max(x,0.); cl.fullAnswer=true; go("decr="+num(x),"bonmin.cutoff_decr "+num(x)+"\n",cl,nullptr,NULL,NULL); } break; }
  } else {
    std::string opt; bool fa=c.kind&1; if(fa){ opt="bonmin.nlp_failure_behavior fathom\n"; cl.fathom=true; }
    int mode=c.kind/2; long E=0; Claim full=cl; full.fault=false; full.fullAnswer=true; go("no fault",opt,full,nullptr,&E,NULL);
    if(mode==2){ for(int k=0;k<7;k++) go("every "+num(k),opt,cl,[k](GenTMINLP&t){ t.onEval=[k](int kd){ return kd!=k; }; },NULL,NULL); }
    else { long cap=th?3000:mode==1?24:50; for(long q=1;q<=std::min(E,cap);q++){ long k=E<=cap?q:1+(q-1)*E/cap;
      go(kn+"@"+num(k),opt,cl,[k,mode](GenTMINLP&t){ GenTMINLP*s=&t; if(mode==0) t.failAt=k; else t.onEval=[s,k](int){ return s->nEval<k; }; },NULL,NULL); } } }
}
int main(int c,char**v){ return stdMain(c,v,build,unit,[](bool,long u){ return desc(u); },600); }
