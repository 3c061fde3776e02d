// What the user says about branching reaches the search: after a run, every branching object of the search has the
// priority, preferred direction and pseudo-costs the user gave for its variable, every special ordered set its own.
#include "e2e.hpp"
#include "CbcModel.hpp"
#include "CbcBranchActual.hpp"
#include "OsiBranchingObject.hpp"
using namespace vg; using namespace vr; using namespace Bonmin; using Ipopt::SmartPtr;
struct Cfg { const char*opts; int osi; };
static const Cfg CF[]={ {"algorithm B-BB",1},{"algorithm B-BB;variable_selection most-fractional",0},{"algorithm B-BB;variable_selection lp-strong-branching",1},{"algorithm B-BB;variable_selection random",1},{"algorithm B-BB;variable_selection nlp-strong-branching;number_strong_branch 1",1},{"algorithm B-QG;variable_selection most-fractional",0},{"algorithm B-Hyb;variable_selection most-fractional",0},{"algorithm B-Ecp;variable_selection most-fractional",0},{"algorithm B-OA",0},{"algorithm B-iFP",0} };
static const int NCF=sizeof(CF)/sizeof(CF[0]); static const char*T[]={"cbi","bci","icb","bcbci","cibic","bib","ccbbi","bbb"}; static const int NT=8;
static const int NPR=5,ND=4,NPS=2,NSOS=3; struct U { int cf,t,pr,di,ps,sos,nl; }; static std::vector<U> US;
static long build(bool th){ US.clear(); for(int c=0;c<NCF;c++) for(int t=0;t<NT;t++) for(int a=0;a<NPR;a++) for(int d=0;d<ND;d++) for(int s=0;s<NPS;s++) for(int q=0;q<NSOS;q++) for(int nl=0;nl<2;nl++){ if(s&&CF[c].osi) continue; if(q&&(CF[c].opts==std::string("algorithm B-iFP")||std::string(CF[c].opts).find("Hyb")!=std::string::npos||t<5)) continue; if(!th&&nl&&(a+d+s+q+t)%3) continue; US.push_back(U{c,t,a,d,s,q,nl}); } return US.size(); }
static Prob get(const U&x){ std::string ty=T[x.t]; int n=ty.size(); Prob p(n); for(int i=0;i<n;i++){ if(ty[i]=='c') p.var(i,0,-1,2,0); else if(ty[i]=='b') p.var(i,1,0,1,0); else p.var(i,2,-1,3,0); } p.obj=mkObj(n,x.nl?2:0); addCon(p,0); int k=0;
  if(x.pr){ p.prio.assign(n,77); for(int i=0;i<n;i++) if(p.type[i]){ p.prio[i]=x.pr==1?1+k:x.pr==2?9-k:x.pr==3?(k%2?3:7):1000+5*i; k++; } } if(x.di){ p.bdir.assign(n,0); k=0; for(int i=0;i<n;i++) if(p.type[i]){ p.bdir[i]=x.di==1?1:x.di==2?-1:1-(k+1)%3; k++; } }
  if(x.ps){ p.upPs.resize(n); p.downPs.resize(n); for(int i=0;i<n;i++){ p.upPs[i]=0.5+i; p.downPs[i]=3.25+2*i; } }
  if(x.sos){ std::vector<int> b; for(int i=0;i<n;i++) if(p.type[i]==1) b.push_back(i); Func f(n); for(int i:b) f.L(i,1.); p.con(f,-INF,1.); std::vector<int> w=b; if(x.sos==2) std::reverse(w.begin(),w.end()); p.sos.push_back(w); p.sosType.push_back(1); if(x.sos==2){ std::vector<int> v(b.begin(),b.begin()+2); p.sos.push_back(v); p.sosType.push_back(1); } } return p; }
struct AnnTMINLP : GenTMINLP { AnnTMINLP(const Prob&p):GenTMINLP(p){ if(!brInfo&&(!p.bdir.empty()||!p.upPs.empty())){ brInfo=new TMINLP::BranchingInfo; brInfo->size=p.n; if(!p.bdir.empty()){ brInfo->branchingDirections=new int[p.n]; for(int i=0;i<p.n;i++) brInfo->branchingDirections[i]=p.bdir[i]; } if(!p.upPs.empty()){ brInfo->upPsCosts=new double[p.n]; brInfo->downPsCosts=new double[p.n]; for(int i=0;i<p.n;i++){ brInfo->upPsCosts[i]=p.upPs[i]; brInfo->downPsCosts[i]=p.downPs[i]; } } } if(sosInfo) for(int k=0;k<sosInfo->num;k++) sosInfo->priorities[k]=21+4*k; } };
static std::string desc(long u){ const U&x=US[u]; std::ostringstream o; o<<"["<<CF[x.cf].opts<<"] variables "<<T[x.t]<<" objective "<<x.nl<<" priorities "<<x.pr<<" directions "<<x.di<<" pseudo-costs "<<x.ps<<" sets "<<x.sos; return o.str(); }
static void unit(bool,long u,Out&o){ const U&x=US[u]; Prob p=get(x); SmartPtr<AnnTMINLP> t=new AnnTMINLP(p); Run r; r.t=GetRawPtr(t); std::ostringstream e; std::string op="bonmin."; for(const char*c=CF[x.cf].opts;*c;c++) if(*c==';') op+="\nbonmin."; else op+=*c; op+="\n";
  guard(r,[&]{ BonminSetup b; b.initializeOptionsAndJournalist(); b.readOptionsString(QUIET); b.readOptionsString(op); b.initialize(GetRawPtr(t)); Bab bb; bb(b); o.add("histories"); CbcModel&m=const_cast<CbcModel&>(bb.model()); std::set<int> seen; int sets=0; o.add("objects",m.numberObjects());
    for(int k=0;k<m.numberObjects();k++){ OsiObject*q=m.modifiableObject(k); int c=q->columnNumber(); if(c<0||dynamic_cast<CbcSOS*>(q)||dynamic_cast<OsiSOS*>(q)){ // a set
        int want=21+4*sets; if(q->priority()!=want) e<<"set "<<sets<<" has priority "<<q->priority()<<" instead of "<<want<<"; "; const int*mem=NULL; int nm=0; if(CbcSOS*z=dynamic_cast<CbcSOS*>(q)){ mem=z->members(); nm=z->numberMembers(); } else if(OsiSOS*z=dynamic_cast<OsiSOS*>(q)){ mem=z->members(); nm=z->numberMembers(); } if(sets<(int)p.sos.size()&&mem){ std::set<int> g(mem,mem+nm),w(p.sos[sets].begin(),p.sos[sets].end()); if(g!=w) e<<"set "<<sets<<" has other members; "; } sets++; continue; }
      if(c>=p.n||!p.type[c]){ e<<"branching object for column "<<c<<"; "; continue; } if(!seen.insert(c).second) e<<"two branching objects for variable "<<c<<"; ";
      if(x.pr&&q->priority()!=p.prio[c]) e<<"variable "<<c<<" has priority "<<q->priority()<<" instead of "<<p.prio[c]<<"; ";
      if(x.di){ if(CbcObject*z=dynamic_cast<CbcObject*>(q)){ if(z->preferredWay()!=p.bdir[c]) e<<"variable "<<c<<" has direction "<<z->preferredWay()<<" instead of "<<p.bdir[c]<<"; "; } else if(OsiObject2*z=dynamic_cast<OsiObject2*>(q)){ int w=p.bdir[c]>0?1:p.bdir[c]<0?0:-1; if(z->preferredWay()!=w) e<<"variable "<<c<<" has direction "<<z->preferredWay()<<" instead of "<<w<<"; "; } }
      if(x.ps) if(CbcSimpleIntegerPseudoCost*z=dynamic_cast<CbcSimpleIntegerPseudoCost*>(q)){ o.add("pseudo-costs"); if(z->upPseudoCost()!=p.upPs[c]||z->downPseudoCost()!=p.downPs[c]) e<<"variable "<<c<<" has pseudo-costs "<<z->upPseudoCost()<<","<<z->downPseudoCost()<<"; "; } }
    for(int i=0;i<p.n;i++) if(p.type[i]&&!seen.count(i)) e<<"no branching object for variable "<<i<<"; "; if(sets!=(int)p.sos.size()) e<<sets<<" sets instead of "<<p.sos.size()<<"; "; std::ostringstream oc; oc<<stName(bb.mipStatus())<<bb.numNodes(); o.outcome(oc.str()); });
  if(r.threw){ if(r.what.find("Can not use FP on problem with SOS")!=std::string::npos){ o.add("refused"); return; } e<<"exception: "<<r.what; } if(!e.str().empty()) o.fail(e.str()); }
int main(int c,char**v){ return stdMain(c,v,build,unit,[](bool,long u){ return desc(u); },40); }
