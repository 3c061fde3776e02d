// Every linear inequality Bonmin derives from a convex instance, against all admissible points of that instance.
// Part A: outer approximations, Benders cuts and linear relaxations taken at every grid point and in every listed box.
// Part B: every cut generator of a linear-programming based algorithm, called in every node box.
#include "e2e.hpp"
#include "BonBabInfos.hpp"
#include "BonOaDecBase.hpp"
#include "OsiClpSolverInterface.hpp"
using namespace vg; using namespace vr; using namespace Bonmin; using Ipopt::SmartPtr;
struct Cfg { const char*name,*opts; bool allnl,fort,rev,dense; bool strong; bool quick; double clean; double shift=0; };
static const Cfg CA[]={
  {"default","",0,0,0,0,0,1,0},
  {"everything declared nonlinear","",1,0,0,0,0,1,0},
  {"1-based indices, reversed entries","",0,1,1,0,0,1,0},
  {"dense Jacobian, everything declared nonlinear, 1-based","",1,1,0,1,0,0,0},
  {"tiny_element 0.7","bonmin.tiny_element 0.7\n",0,0,0,0,0,1,.7},
  {"tiny_element 0.7, everything declared nonlinear, dense","bonmin.tiny_element 0.7\n",1,0,0,1,0,1,.7},
  {"tiny_element 0.7, variables shifted by 3","bonmin.tiny_element 0.7\n",0,0,0,0,0,1,.7,3},
  {"tiny_element 0.7, variables shifted by -4","bonmin.tiny_element 0.7\n",1,0,0,0,0,0,.7,-4},
  {"oa_rhs_relax 1e-4","bonmin.oa_rhs_relax 1e-4\n",1,0,0,0,0,0,0},
  {"strengthened globally","bonmin.cut_strengthening_type sglobal\n",0,0,0,0,1,1,0},
  {"strengthened locally","bonmin.cut_strengthening_type uglobal-slocal\n",0,0,0,0,1,1,0},
  {"strengthened both","bonmin.cut_strengthening_type sglobal-slocal\n",0,1,0,0,1,0,0},
};
static const int NA=sizeof(CA)/sizeof(CA[0]);
static const Cfg CB[]={
  {"B-QG","bonmin.algorithm B-QG\n",0,0,0,0,0,1,0},
  {"B-QG, Benders","bonmin.algorithm B-QG\nbonmin.feas_check_cut_types Benders\n",0,0,0,0,0,1,0},
  {"B-QG, violated only, 1-based","bonmin.algorithm B-QG\nbonmin.add_only_violated_oa yes\n",0,1,1,0,0,1,0},
  {"B-Hyb","bonmin.algorithm B-Hyb\nbonmin.filmint_ecp_cuts 1\nbonmin.ecp_probability_factor -1\n",0,0,0,0,0,1,0},
  {"B-OA","bonmin.algorithm B-OA\n",0,0,0,0,0,1,0},
  {"B-Ecp","bonmin.algorithm B-Ecp\nbonmin.ecp_probability_factor -1\n",0,0,0,0,0,1,0},
  {"B-Hyb, everything declared nonlinear","bonmin.algorithm B-Hyb\nbonmin.filmint_ecp_cuts 1\nbonmin.ecp_probability_factor -1\nbonmin.oa_decomposition yes\n",1,0,0,0,0,0,0},
  {"B-iFP","bonmin.algorithm B-iFP\n",0,0,0,0,0,0,0},
};
static const int NB=sizeof(CB)/sizeof(CB[0]);
// all admissible points: every integer assignment, and for the continuous variable the ends and a grid of its exact interval
static void adm(const Prob&p,int i,Vec&x,int cont,std::vector<Vec>&out){
  if(i<p.n){ if(p.type[i]==0){ adm(p,i+1,x,i,out); return; } for(double v=std::ceil(p.lb[i]);v<=p.ub[i]+1e-9;v+=1){ x[i]=v; adm(p,i+1,x,cont,out); } return; }
  if(cont<0){ if(p.viol(&x[0])<=1e-9) out.push_back(x); return; }
  double lo=p.lb[cont],hi=p.ub[cont];
  for(int k=0;k<p.m();k++){ if(p.gu[k]<1e20&&!interval_le([&](double y){x[cont]=y;return p.g[k](&x[0]);},p.gu[k]+1e-9,lo,hi)) return; if(p.gl[k]>-1e20&&!interval_le([&](double y){x[cont]=y;return -p.g[k](&x[0]);},-p.gl[k]+1e-9,lo,hi)) return; }
  for(int q=0;q<=6;q++){ x[cont]=lo+(hi-lo)*q/6.; out.push_back(x); } }
struct Box { Vec l,u; };
static std::vector<Box> boxes(const Prob&p,int lim){ std::vector<Box> r; Box b; b.l=p.lb; b.u=p.ub; r.push_back(b);
  for(int i=0;i<p.n;i++){ if((int)r.size()>=lim) break; Box c=b; if(p.type[i]==0){ c.l[i]=b.l[i]+.25*(b.u[i]-b.l[i]); r.push_back(c); } else { c.u[i]=b.l[i]; r.push_back(c); c=b; c.l[i]=b.l[i]+1; r.push_back(c); } } return r; }
// one node box per choice for each discrete variable: free, fixed at each end, or halved
static std::vector<Box> nodeBoxes(const Prob&p){ std::vector<Box> r(1); r[0].l=p.lb; r[0].u=p.ub; for(int i=0;i<p.n;i++) if(p.type[i]){ std::vector<Box> s; for(auto&b:r){ s.push_back(b); Box c=b; c.u[i]=p.lb[i]; s.push_back(c); c=b; c.l[i]=p.lb[i]+1; s.push_back(c); if(p.ub[i]-p.lb[i]>1.5){ c=b; c.u[i]=p.lb[i]+1; c.l[i]=p.lb[i]+1; s.push_back(c); } } r.swap(s); } return r; }
static bool in(const Box&b,const Vec&y,double e=1e-9){ for(size_t i=0;i<y.size();i++) if(y[i]<b.l[i]-e||y[i]>b.u[i]+e) return false; return true; }
static double rowAct(const CoinPackedVector&v,const Vec&y,double alpha,int n,bool&bad){ double s=0; for(int k=0;k<v.getNumElements();k++){ int i=v.getIndices()[k]; if(i<0||i>n){bad=true;return 0;} s+=v.getElements()[k]*(i==n?alpha:y[i]); } return s; }
static double scale(const CoinPackedVector&v){ double s=1; for(int k=0;k<v.getNumElements();k++) s=std::max(s,std::fabs(v.getElements()[k])); return s; }
#define BAD(msg) do{ std::ostringstream _o; _o.precision(10); _o<<msg; return _o.str(); }while(0)
// cuts in cs from index "from" must be satisfied by every admissible point of the box (everywhere when global)
static std::string valid(const Prob&p,const std::vector<Vec>&Y,const Box&b,const OsiCuts&cs,int from,bool forceLocal,double ubnd,long&chk,double tol=2e-6,bool spare=false){
  for(int c=from;c<cs.sizeRowCuts();c++){ const OsiRowCut&r=cs.rowCut(c); double sc=scale(r.row()); bool glob=r.globallyValidAsInteger()>0&&!forceLocal;
    if(r.lb()!=r.lb()||r.ub()!=r.ub()) return "a cut has a NaN bound";
    for(auto&y:Y){ if(!glob&&!in(b,y)) continue; double f=p.obj(&y[0]); if(f>ubnd) continue; bool bad=false; double a=rowAct(r.row(),y,f,p.n,bad); if(bad) return "a cut refers to a column that does not exist"; chk++;
      double v=std::max(r.lb()-a,a-r.ub()); if(v>tol*sc||v!=v) BAD("a "<<(glob?"global":"local")<<" cut excludes the admissible point "<<show(y)<<" (value "<<f<<") by "<<v); } }
  if(cs.sizeColCuts()) for(int c=0;c<cs.sizeColCuts();c++){ const OsiColCut&r=cs.colCut(c); for(auto&y:Y){ if(!in(b,y)) continue; double f=p.obj(&y[0]); if(f>ubnd) continue; for(int s=0;s<2;s++){ const CoinPackedVector&v=s?r.ubs():r.lbs(); for(int k=0;k<v.getNumElements();k++){ int i=v.getIndices()[k]; double z=i<p.n?y[i]:f,w=v.getElements()[k]; chk++; if(s?z>w+tol:z<w-tol) BAD("a bound change excludes the admissible point "<<show(y)); } } } }
  return ""; }
static std::string relax(const Prob&p,const std::vector<Vec>&Y,const Box&b,OsiSolverInterface&si,bool getObj,bool linObj,long&chk){
  bool hasA=si.getNumCols()==p.n+1; if(si.getNumCols()!=p.n&&!hasA) BAD("linear relaxation has "<<si.getNumCols()<<" columns"); if(hasA!=(getObj&&!linObj)) BAD("linear relaxation "<<(hasA?"has":"lacks")<<" an objective column");
  for(int i=0;i<p.n;i++) if(si.isInteger(i)!=(p.type[i]!=0)) BAD("integrality of column "<<i<<" lost or invented"); const CoinPackedMatrix*M=si.getMatrixByRow(); 
  for(auto&y:Y){ if(!in(b,y)) continue; double f=p.obj(&y[0]); Vec z=y; z.push_back(f); for(int i=0;i<si.getNumCols();i++) if(z[i]<si.getColLower()[i]-1e-7||z[i]>si.getColUpper()[i]+1e-7) BAD("column bounds of the linear relaxation exclude "<<show(y));
    for(int k=0;k<si.getNumRows();k++){ double a=0,sc=1; for(CoinBigIndex q=M->getVectorStarts()[k];q<M->getVectorStarts()[k]+M->getVectorLengths()[k];q++){ double e=M->getElements()[q]; a+=e*z[M->getIndices()[q]]; sc=std::max(sc,std::fabs(e)); } chk++; double v=std::max(si.getRowLower()[k]-a,a-si.getRowUpper()[k]); if(v>2e-6*sc||v!=v) BAD("row "<<k<<" of the linear relaxation excludes the admissible point "<<show(y)<<" by "<<v); }
    if(getObj){ double o=0; for(int i=0;i<si.getNumCols();i++) o+=si.getObjCoefficients()[i]*z[i]; double off=0; si.getDblParam(OsiObjOffset,off); if(std::fabs(o-off-f)>1e-7*(1+std::fabs(f))) BAD("objective of the linear relaxation at "<<show(y)<<" is "<<o-off<<" instead of "<<f); } }
  return ""; }
// strength: the linearisation of one-sided nonlinear rows and of the objective at x must be implied by the cuts at the probes
static double maxViol(const OsiCuts&cs,int from,const Vec&z,double alpha,int n){ double w=-1e300; bool bad=false; for(int c=from;c<cs.sizeRowCuts();c++){ double a=rowAct(cs.rowCut(c).row(),z,alpha,n,bad); w=std::max(w,std::max(cs.rowCut(c).lb()-a,a-cs.rowCut(c).ub())); } return w; }
static std::string strength(const Prob&p,const Vec&x,const OsiCuts&cs,int from,int getObj,const double*x2,double theta,const std::vector<Vec>&probes,double slack){
  for(int k=0;k<p.m();k++){ if(p.g[k].linear()) continue; double g=p.g[k](&x[0]); double lo=p.gl[k],up=p.gu[k]; if(lo>-1e20&&up<1e20) continue;
    auto lin=[&](const double*z){ double s=g; for(int i=0;i<p.n;i++) s+=p.g[k].d(i,&x[0])*(z[i]-x[i]); return up<1e20?s-up:lo-s; };
    if(x2&&lin(x2)<theta+1e-5) continue;
    for(auto&z:probes){ double w=lin(&z[0]); if(w>1e-3&&maxViol(cs,from,z,1e6,p.n)<w-slack-1e-6*(1+std::fabs(w))) BAD("the linearisation of row "<<k<<" at "<<show(x)<<" is not among the cuts: "<<show(z)<<" violates it by "<<w<<" but the cuts only by "<<maxViol(cs,from,z,1e6,p.n)); } }
  bool lo=p.obj.linear()&&!p.allNl; if(getObj==2||(getObj&&!lo)){ auto lin=[&](const double*z){ double s=p.obj(&x[0]); for(int i=0;i<p.n;i++) s+=p.obj.d(i,&x[0])*(z[i]-x[i]); return s; };
    if(!x2||lin(x2)-x2[p.n]>theta+1e-5) for(auto&z:probes){ double a=lin(&z[0])-1.; if(maxViol(cs,from,z,a,p.n)<1.-slack-1e-5*(1+std::fabs(a))) BAD("the linearisation of the objective at "<<show(x)<<" is not among the cuts: "<<show(z)<<" with value "<<a<<" is not excluded"); } }
  return ""; }
static void gridRec(const Prob&p,int i,Vec&x,std::vector<Vec>&out){ if(i==p.n){out.push_back(x);return;} double f[3]={0.,.37,1.}; for(double t:f){ if(p.n==4&&i>0&&i<3&&t==.37) continue; x[i]=p.lb[i]+t*(p.ub[i]-p.lb[i]); gridRec(p,i+1,x,out); } }
struct Unit { bool B; int cfg; FamIdx f; }; static std::vector<Unit> U;
static long build(bool th){ U.clear(); for(int c=0;c<NA;c++) if(th||CA[c].quick){ std::vector<FamIdx> f=family(CA[c].strong?(th?1:-1):(th?2:1),false); if(!th&&!CA[c].strong){ std::vector<FamIdx> g=family(2,false); for(size_t k=0;k<g.size();k+=13) f.push_back(g[k]); } for(auto&x:f){ Unit u={false,c,x}; U.push_back(u); } }
  for(int c=0;c<NB;c++) if(th||CB[c].quick){ std::vector<FamIdx> f=family(th?2:-1,false); if(!th){ std::vector<FamIdx> g=family(2,false); for(size_t k=c;k<g.size();k+=23) f.push_back(g[k]); } for(auto&x:f){ Unit u={true,c,x}; U.push_back(u); } } return U.size(); }
static Prob prob(const Unit&u){ Prob p=mk(u.f); const Cfg&c=u.B?CB[u.cfg]:CA[u.cfg]; if(c.shift!=0) p=shifted(p,c.shift); p.allNl=c.allnl; p.fortran=c.fort; p.lastBlockRev=c.rev; p.denseJac=c.dense; return p; }
static std::string partA(const Unit&u,const Prob&p,Out&o){
  const Cfg&c=CA[u.cfg]; SmartPtr<GenTMINLP> t=new GenTMINLP(p); BonminSetup b; b.initializeOptionsAndJournalist(); b.readOptionsString(QUIET); b.readOptionsString(std::string("bonmin.algorithm B-BB\n")+c.opts); b.initialize(GetRawPtr(t)); OsiTMINLPInterface&nlp=*b.nonlinearSolver(); nlp.messageHandler()->setLogLevel(0);
  std::vector<Vec> Y; { Vec x(p.n,0.); adm(p,0,x,-1,Y); } std::vector<Vec> G; { Vec x(p.n,0.); gridRec(p,0,x,G); } long chk=0; o.add("admissible_points",Y.size());
  bool linObj=p.obj.linear()&&!p.allNl; bool localOnly=std::string(c.name)=="strengthened locally"||std::string(c.name)=="strengthened both"; double slack=c.clean>0?1e9:std::string(c.name).substr(0,3)=="oa_"?5e-3:2e-5; if(c.strong) slack=std::max(slack,1e-4);
  std::vector<Box> bx=boxes(p,3); std::string e;
  for(auto&bb:bx){ nlp.setColLower(&bb.l[0]); nlp.setColUpper(&bb.u[0]); nlp.initialSolve();
    bool full=&bb==&bx[0];
    for(size_t q=0;q<G.size();q+=(c.strong?5:1)){ Vec x=G[q]; for(int i=0;i<p.n;i++) x[i]=std::max(bb.l[i],std::min(bb.u[i],x[i]));
      std::vector<Vec> probes; probes.push_back(x); probes.push_back(G[(q+7)%G.size()]); probes.push_back(G[(q*5+3)%G.size()]);
      for(int gO=0;gO<3;gO++) for(int v=0;v<3;v++){ if(c.strong&&(gO==2||v==2)) continue; if((v==2&&gO!=1)||(v&&gO==2)) continue; Vec x2; double theta=0; if(v){ x2=G[(q*3+1)%G.size()]; for(int i=0;i<p.n;i++) x2[i]=std::max(bb.l[i],std::min(bb.u[i],x2[i])); x2.push_back(p.obj(&x2[0])-.5); theta=v==2?.3:0.; }
        OsiCuts cs; bool glob=v!=1; nlp.getOuterApproximation(cs,&x[0],gO,v?&x2[0]:NULL,theta,glob); o.add("outer_approximations"); o.add("cuts",cs.sizeRowCuts());
        e=valid(p,Y,bb,cs,0,localOnly&&!full,1e300,chk,c.strong?1e-4:2e-6); if(e.empty()&&c.clean==0) e=strength(p,x,cs,0,gO,v?&x2[0]:NULL,theta,probes,slack);
        if(!e.empty()) BAD("outer approximation at "<<show(x)<<" (objective "<<gO<<(v?", for a point":"")<<(full?"":", in a node box")<<"): "<<e); }
      if(!c.strong&&q%3==0){ for(int gO=0;gO<2;gO++){ OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); nlp.extractLinearRelaxation(si,&x[0],gO); o.add("linear_relaxations"); e=relax(p,Y,bb,si,gO,linObj,chk); if(!e.empty()) BAD("linear relaxation at "<<show(x)<<(full?"":", in a node box")<<": "<<e);
          // one-sided nonlinear rows must be present
          for(auto&z:probes) for(int k=0;k<p.m();k++){ if(p.g[k].linear()||(p.gl[k]>-1e20&&p.gu[k]<1e20)||c.clean>0) continue; double g=p.g[k](&x[0]),w=g; for(int i=0;i<p.n;i++) w+=p.g[k].d(i,&x[0])*(z[i]-x[i]); w=p.gu[k]<1e20?w-p.gu[k]:p.gl[k]-w; if(w<1e-3) continue; const CoinPackedMatrix*M=si.getMatrixByRow(); double best=-1e300; for(int r=0;r<si.getNumRows();r++){ double a=0; bool alpha=false; for(CoinBigIndex s=M->getVectorStarts()[r];s<M->getVectorStarts()[r]+M->getVectorLengths()[r];s++) if(M->getIndices()[s]<p.n) a+=M->getElements()[s]*z[M->getIndices()[s]]; else alpha=true; if(!alpha) best=std::max(best,std::max(si.getRowLower()[r]-a,a-si.getRowUpper()[r])); } if(best<w-5e-3-1e-5*w) BAD("linear relaxation at "<<show(x)<<" misses the linearisation of row "<<k<<": "<<show(z)<<" violates it by "<<w<<" but the rows only by "<<best); } }
        for(int k=0;k<p.m();k++){ OsiCuts cs; nlp.getConstraintOuterApproximation(cs,k,&x[0],NULL,true); o.add("single_row_approximations"); e=valid(p,Y,bb,cs,0,false,1e300,chk); if(e.empty()&&cs.sizeRowCuts()!=1) e="not exactly one cut"; if(!e.empty()) BAD("outer approximation of row "<<k<<" at "<<show(x)<<": "<<e);
          if(!(p.gl[k]>-1e20&&p.gu[k]<1e20)&&c.clean==0){ double v=p.gu[k]<1e20?p.g[k](&x[0])-p.gu[k]:p.gl[k]-p.g[k](&x[0]); if(v>1e-3&&maxViol(cs,0,x,0.,p.n)<.99*v) BAD("outer approximation of row "<<k<<" at "<<show(x)<<" does not exclude that point"); } } } }
  }
  // Benders cuts: every integer assignment
  if(!c.strong&&c.clean==0){ std::vector<Vec> I(1); for(int i=0;i<p.n;i++){ std::vector<Vec> s; for(auto&x:I) if(p.type[i]==0){ Vec y=x; y.push_back(0); s.push_back(y); } else for(double v=p.lb[i];v<=p.ub[i]+.5;v+=1){ Vec y=x; y.push_back(v); s.push_back(y); } I.swap(s); }
    for(auto&x:I){ Vec l=p.lb,h=p.ub; for(int i=0;i<p.n;i++) if(p.type[i]) l[i]=h[i]=x[i]; nlp.setColLower(&l[0]); nlp.setColUpper(&h[0]); nlp.resolve("verif"); bool opt=nlp.isProvenOptimal(); if(!opt) continue; OsiCuts cs; nlp.getBendersCut(cs,true); o.add("benders_cuts",cs.sizeRowCuts()); Box all; all.l=p.lb; all.u=p.ub; e=valid(p,Y,all,cs,0,false,1e300,chk,2e-5); if(!e.empty()) BAD("Benders cut at "<<show(x)<<": "<<e);
      // a Benders cut bounds the value of the assignment it came from (nonlinear objective: alpha at the solution)
      if(!linObj){ Vec s(nlp.getColSolution(),nlp.getColSolution()+p.n); double f=p.obj(&s[0]); if(maxViol(cs,0,s,f-1.,p.n)<.99) BAD("Benders cut at "<<show(x)<<" does not support the objective there"); } } }
  o.add("point_inequality_pairs",chk); return ""; }
static std::string partB(const Unit&u,const Prob&p,Out&o){
  const Cfg&c=CB[u.cfg]; SmartPtr<GenTMINLP> t=new GenTMINLP(p); BonminSetup b; b.initializeOptionsAndJournalist(); b.readOptionsString(QUIET); b.readOptionsString(c.opts); b.initialize(GetRawPtr(t));
  std::vector<Vec> Y; { Vec x(p.n,0.); adm(p,0,x,-1,Y); } long chk=0; bool linObj=p.obj.linear()&&!p.allNl; Box all; all.l=p.lb; all.u=p.ub; std::string e=relax(p,Y,all,*b.continuousSolver(),true,linObj,chk); if(!e.empty()) return "initial linear relaxation: "+e;
  std::vector<Box> bx=nodeBoxes(p); int gi=0;
  for(BabSetupBase::CuttingMethods::iterator g=b.cutGenerators().begin();g!=b.cutGenerators().end();++g,++gi){ 
    for(auto&bb:bx) for(int cut=0;cut<2;cut++){
      if(cut&&Y.empty()) continue; OsiSolverInterface*lp=b.continuousSolver()->clone(); Bab bab; BabInfo info(3); info.setSolver(lp); info.setBabPtr(&bab); lp->setAuxiliaryInfo(&info); BabInfo*bi=dynamic_cast<BabInfo*>(lp->getAuxiliaryInfo()); lp->messageHandler()->setLogLevel(0);
      for(int i=0;i<p.n;i++) lp->setColBounds(i,bb.l[i],bb.u[i]); double best=1e300; for(auto&y:Y) if(in(bb,y)) best=std::min(best,p.obj(&y[0])); double ubnd=1e300; if(cut){ if(best>1e299){ delete lp; continue; } ubnd=best+.3; lp->setDblParam(OsiDualObjectiveLimit,ubnd); }
      lp->initialSolve(); lp->resolve(); if(!lp->isProvenOptimal()||lp->isDualObjectiveLimitReached()){ if(lp->isProvenPrimalInfeasible()) for(auto&y:Y) if(in(bb,y)){ delete lp; BAD("the linear relaxation is infeasible although "<<show(y)<<" is admissible"); } delete lp; o.add("boxes_without_lp_solution"); continue; }
      double lpo=lp->getObjValue(); if(best<1e299&&lpo>best+1e-5*(1+std::fabs(best))){ delete lp; BAD("the linear relaxation has value "<<lpo<<" although a point of value "<<best<<" is admissible"); }
      Vec lpx(lp->getColSolution(),lp->getColSolution()+p.n); bool integral=true; for(int i=0;i<p.n;i++) if(p.type[i]&&std::fabs(lpx[i]-std::floor(lpx[i]+.5))>1e-6) integral=false;
      // the generators that solve the nonlinear problem rely on the node's bounds being set there
      OsiTMINLPInterface*nlp=b.nonlinearSolver(); nlp->setColLower(&bb.l[0]); nlp->setColUpper(&bb.u[0]);
      CglCutGenerator*gen=g->cgl->clone(); OaDecompositionBase*oa=dynamic_cast<OaDecompositionBase*>(gen); bool reassign=oa&&oa->reassignLpsolver(); if(oa) oa->assignLpInterface(reassign?lp:NULL); int rows=lp->getNumRows();
      OsiCuts cs; CglTreeInfo ti; ti.level=0; ti.pass=0; ti.formulation_rows=lp->getNumRows(); gen->generateCuts(*lp,cs,ti); o.add("generator_calls"); o.add("generator_cuts",cs.sizeRowCuts());
      double found=1e300; if(bi&&bi->hasSolution()){ Vec hs(p.n+1,0.); double*s=&hs[0]; bi->OsiBabSolver::hasSolution(found,s); double v=p.viol(s); if(v>1e-4||std::fabs(p.obj(s)-found)>1e-5*(1+std::fabs(found))){ delete lp; BAD("generator "<<g->id<<" hands over a solution "<<show(Vec(s,s+p.n))<<" of value "<<found<<" that violates the problem by "<<v<<" and has value "<<p.obj(s)); } o.add("generator_solutions"); for(int i=0;i<p.n;i++) if(p.type[i]&&(s[i]<bb.l[i]-1e-5||s[i]>bb.u[i]+1e-5)) o.add("solutions_outside_box"); }
      double lim=std::min(ubnd,found)-2e-3*(1+std::fabs(std::min(ubnd,found)));
      e=valid(p,Y,bb,cs,0,false,lim,chk,1e-5);
      if(e.empty()&&oa&&bi&&bi->mipBound()>-1e100&&best<lim){ if(bi->mipBound()>best+1e-3*(1+std::fabs(best))){ std::ostringstream m; m<<"claims the bound "<<bi->mipBound()<<" for the node although a point of value "<<best<<" is admissible (cutoff "<<ubnd<<", handed-over value "<<found<<")"; e=m.str(); } }
      // feasibility check at integral points: a point that is not optimal for the nonlinear problem must be cut off
      if(e.empty()&&oa&&integral&&std::string(c.name).substr(0,4)=="B-QG"){ Vec z=lpx; double viol=0; for(int k=0;k<p.m();k++){ double r=p.g[k](&z[0]); viol=std::max(viol,std::max(p.gl[k]-r,r-p.gu[k])); } if(viol>1e-2&&lpo<ubnd-1e-3){ o.add("integral_infeasible_lp_points"); double w=maxViol(cs,0,z,linObj?0:lpo,p.n); if(w<1e-7&&found>1e299){ std::ostringstream m; m<<"leaves the infeasible integral point "<<show(z)<<" (violation "<<viol<<") in the relaxation"; e=m.str(); } } }
      if(oa){ oa->assignLpInterface(NULL); for(int i=0;i<p.n;i++) if(nlp->getColLower()[i]!=bb.l[i]||nlp->getColUpper()[i]!=bb.u[i]) e="the generator leaves the bounds of the nonlinear problem changed"; }
      (void)rows; delete gen; delete lp; if(!e.empty()) BAD("generator "<<g->id<<" in box "<<show(bb.l)<<show(bb.u)<<(cut?" with a cutoff":"")<<": "<<e); } }
  o.add("point_inequality_pairs",chk); return ""; }
int main(int c,char**v){
  return stdMain(c,v,build,[](bool,long k,Out&o){ const Unit&u=U[k]; Prob p=prob(u); std::string e; try{ e=u.B?partB(u,p,o):partA(u,p,o); }catch(CoinError&x){ e="exception "+x.className()+"::"+x.methodName()+": "+x.message(); } if(!e.empty()) o.fail(e); if(k%499==0) o.samples.push_back(std::string(u.B?CB[u.cfg].name:CA[u.cfg].name)+" on "+name(u.f)); },
   [](bool,long k){ const Unit&u=U[k]; return std::string(u.B?"[generators: ":"[cuts: ")+(u.B?CB[u.cfg].name:CA[u.cfg].name)+"] "+name(u.f); },60);
}
