// Branching decisions: every chooser x setting x annotation x sequence of nodes, on the real chooser and NLP interface.
#include "e2e.hpp"
#include <climits>
#include "OsiChooseVariable.hpp"
#include "OsiBranchingObject.hpp"
using namespace vg; using namespace vr; using namespace Bonmin; using Ipopt::SmartPtr;
#define BAD(msg) do{ std::ostringstream _o; _o.precision(10); _o<<msg; return _o.str(); }while(0)
struct Cfg { const char*name,*opts; };
static const Cfg CF[]={ {"nlp-strong","bonmin.variable_selection nlp-strong-branching\n"},
 {"nlp-strong, 2 candidates, trusted after 1","bonmin.variable_selection nlp-strong-branching\nbonmin.number_strong_branch 2\nbonmin.number_before_trust 1\nbonmin.min_number_strong_branch 0\n"},
 {"nlp-strong, plain candidate list","bonmin.variable_selection nlp-strong-branching\nbonmin.number_before_trust_list -1\nbonmin.number_strong_branch 1\n"},
 {"qp-strong","bonmin.variable_selection qp-strong-branching\n"},{"lp-strong","bonmin.variable_selection lp-strong-branching\n"},{"osi-simple","bonmin.variable_selection osi-simple\n"},{"osi-strong","bonmin.variable_selection osi-strong\n"},{"random","bonmin.variable_selection random\n"},
 {"nlp-strong, fractional candidates first","bonmin.variable_selection nlp-strong-branching\nbonmin.setup_pseudo_frac 1.0\nbonmin.number_strong_branch 2\nbonmin.candidate_sort_criterion best-ps-cost\n"},
 {"nlp-strong, look ahead 1, worst first","bonmin.variable_selection nlp-strong-branching\nbonmin.number_look_ahead 1\nbonmin.candidate_sort_criterion least-fractional\n"},
 {"nlp-strong, own pseudo costs only","bonmin.variable_selection nlp-strong-branching\nbonmin.trust_strong_branching_for_pseudo_cost no\nbonmin.number_before_trust 2\n"},
 {"nlp-strong, strong at root only","bonmin.variable_selection nlp-strong-branching\nbonmin.number_strong_branch 0\nbonmin.number_strong_branch_root 3\n"} };
static const int NCF=sizeof(CF)/sizeof(CF[0]);
static const int NANN=5; static const char* ANN[NANN]={"no annotations","priorities increasing","priorities decreasing, directions up/none/down","two priority levels, all down","equal priorities, all up"};
static void annotate(Prob&p,int a){ p.prio.clear(); p.bdir.clear(); if(!a) return; p.prio.assign(p.n,1); if(a>=2) p.bdir.assign(p.n,0); int k=0,nd=0; for(int i=0;i<p.n;i++) if(p.type[i]) nd++; for(int i=0;i<p.n;i++) if(p.type[i]){ if(a==1) p.prio[i]=1+k; if(a==2){ p.prio[i]=1+nd-k; p.bdir[i]=1-k%3; } if(a==3){ p.prio[i]=5+k%2; p.bdir[i]=-1; } if(a==4) p.bdir[i]=1; k++; } }
struct Box { Vec l,u; };
static std::vector<FamIdx> INST; static bool TH;
static long build(bool th){ TH=th; INST.clear(); std::vector<FamIdx> all=family(-1,true); int k=0; for(size_t i=0;i<all.size();i++){ bool deep=all[i].lay>=100; Prob p=mk(all[i]); if(!refPair(p).feas&&!deep&&i%3) continue; if(th||(deep?(all[i].lay-100)%16==12:k%4==3)) INST.push_back(all[i]); k++; } return (long)INST.size()*NCF*NANN; }
static std::string desc(long u){ return name(INST[u/(NCF*NANN)])+" "+CF[u/NANN%NCF].name+", "+ANN[u%NANN]; }
struct World { Prob p; std::map<std::pair<Vec,Vec>,RefPair> memo; const RefPair& ref(const Vec&l,const Vec&u){ std::pair<Vec,Vec> k(l,u); auto it=memo.find(k); if(it==memo.end()){ Prob q=p; q.lb=l; q.ub=u; it=memo.insert(std::make_pair(k,refPair(q))).first; } return it->second; } };
// boxes worth visiting: root, and after each way of branching twice on discrete variables
static std::vector<Box> nodes(const Prob&p,bool th){ std::vector<Box> r(1); r[0].l=p.lb; r[0].u=p.ub; for(int i=0;i<p.n;i++) if(p.type[i]){ size_t k=r.size(); if(k>(th?20u:6u)) break; for(size_t j=0;j<k;j++){ double m=std::floor((r[j].l[i]+r[j].u[i])/2); Box b=r[j]; b.u[i]=m; r.push_back(b); b=r[j]; b.l[i]=m+1; if(b.l[i]<=b.u[i]) r.push_back(b); } } return r; }
static bool someBelow(World&w,const Vec&l,const Vec&u,double cutoff){ for(size_t i=0;i<l.size();i++) if(l[i]>u[i]+1e-9) return false; const RefPair&r=w.ref(l,u); return r.feas&&r.hi<cutoff-1e-4*(1+std::fabs(r.hi)); }
static std::string step(World&w,OsiTMINLPInterface*s,OsiChooseVariable*ch,const Box&b,int depth,double cutoff,bool fix,std::string&out,Out&o){
  const Prob&p=w.p; s->setColLower(&b.l[0]); s->setColUpper(&b.u[0]); s->resolve(); if(!s->isProvenOptimal()){ out="-"; return ""; }
  if(s->getObjValue()>=cutoff){ out="cutoff"; return ""; }
  Vec x(s->getColSolution(),s->getColSolution()+p.n); double z=s->getObjValue();
  OsiBranchingInformation info(s,true,false); info.integerTolerance_=1e-6; info.depth_=depth; info.cutoff_=cutoff; info.objectiveValue_=z; info.direction_=1; info.timeRemaining_=1e10; info.hotstartSolution_=NULL;
  int nf=0,best=INT_MAX; std::vector<bool> frac(p.n,false); for(int i=0;i<p.n;i++) if(p.type[i]){ double d=std::fabs(x[i]-std::floor(x[i]+.5)); if(d>2e-6){ frac[i]=true; nf++; int q=s->getPriorities()?p.prio[i]:1000; best=std::min(best,q); } else if(d>5e-7){ out="borderline"; return ""; } }
  int k=ch->setupList(&info,true); if((k==0)!=(nf==0)) BAD(nf<<" variables are fractional but the list has "<<k); if(k<0) return "a solved node is called infeasible by the list"; if(!nf){ out="integral"; return ""; }
  int rc=ch->chooseVariable(s,&info,fix); o.add("transitions"); out=std::to_string(rc)+"/"+std::to_string(ch->bestObjectIndex())+"/"+std::to_string(ch->bestWhichWay());
  if(ch->goodSolution()) cutoff=std::min(cutoff,ch->goodObjectiveValue());
  if(rc==1) return "fractional variables but no candidate";
  if(rc==-1){ if(someBelow(w,b.l,b.u,cutoff)) BAD("the node is called infeasible but holds the solution "<<show(w.ref(b.l,b.u).x)<<" of value "<<w.ref(b.l,b.u).hi); }
  if(rc==2||rc==3||rc==4){ int f=ch->firstForcedObjectIndex(); if(f<0||f>=s->numberObjects()) return "a bound change is announced without its object"; int c=s->object(f)->columnNumber(); int way=ch->firstForcedWhichWay(); Vec l=b.l,u=b.u; if(way==0) l[c]=std::ceil(x[c]); else u[c]=std::floor(x[c]); if(!frac[c]) BAD("a bound change is announced for column "<<c<<" which is not fractional"); if(someBelow(w,l,u,cutoff)) BAD("column "<<c<<" is fixed "<<(way?"up":"down")<<" but the other side holds the solution "<<show(w.ref(l,u).x)<<" of value "<<w.ref(l,u).hi); }
  Vec L(s->getColLower(),s->getColLower()+p.n),U(s->getColUpper(),s->getColUpper()+p.n);
  if(!fix||rc==0){ if(L!=b.l||U!=b.u) BAD("the bounds of the node are "<<show(L)<<".."<<show(U)<<" after the decision instead of "<<show(b.l)<<".."<<show(b.u)); }
  else { for(int i=0;i<p.n;i++) if(L[i]<b.l[i]-1e-9||U[i]>b.u[i]+1e-9) BAD("the bounds of the node grew in column "<<i); if(rc!=-1&&someBelow(w,b.l,b.u,cutoff)){ double v=w.ref(b.l,b.u).hi; bool e=false; for(int i=0;i<p.n;i++) if(L[i]>U[i]+1e-9) e=true; if(e||!w.ref(L,U).feas||w.ref(L,U).hi>std::max(v,std::min(cutoff,v))+1e-4*(1+std::fabs(v))) BAD("tightening to "<<show(L)<<".."<<show(U)<<" lost the solution "<<show(w.ref(b.l,b.u).x)<<" of value "<<v); } }
  if(rc==0||rc==2||rc==3){ int q=ch->bestObjectIndex(); if(q<0||q>=s->numberObjects()) return "no candidate is given"; int c=s->object(q)->columnNumber(); if(c<0||c>=p.n||!frac[c]) BAD("the candidate is column "<<c<<" which is not fractional, x="<<show(x)); if(!p.prio.empty()&&p.prio[c]!=best) BAD("the candidate has priority "<<p.prio[c]<<" though a fractional variable has "<<best);
    if(rc==0&&!p.bdir.empty()&&p.bdir[c]&&ch->bestWhichWay()!=(p.bdir[c]>0)) BAD("column "<<c<<" has preferred direction "<<p.bdir[c]<<" but the first branch goes "<<(ch->bestWhichWay()?"up":"down"));
    // the two branches leave nothing out
    OsiBranchingInformation in2(s,true,false); in2.integerTolerance_=1e-6; Vec xs=x; in2.solution_=&xs[0]; Vec bl=b.l,bu=b.u; s->setColLower(&bl[0]); s->setColUpper(&bu[0]); OsiBranchingObject*br=s->object(q)->createBranch(s,&in2,ch->bestWhichWay()); Vec l1,u1,l2,u2; br->branch(s); l1.assign(s->getColLower(),s->getColLower()+p.n); u1.assign(s->getColUpper(),s->getColUpper()+p.n); s->setColLower(&bl[0]); s->setColUpper(&bu[0]); br->branch(s); l2.assign(s->getColLower(),s->getColLower()+p.n); u2.assign(s->getColUpper(),s->getColUpper()+p.n); delete br;
    if(someBelow(w,b.l,b.u,1e49)){ const Vec&y=w.ref(b.l,b.u).x; bool in1=true,in2b=true; for(int i=0;i<p.n;i++){ if(y[i]<l1[i]-1e-6||y[i]>u1[i]+1e-6) in1=false; if(y[i]<l2[i]-1e-6||y[i]>u2[i]+1e-6) in2b=false; } if(!in1&&!in2b) BAD("the solution "<<show(y)<<" is in neither branch"); } }
  if(ch->goodSolution()){ const double*g=ch->goodSolution(); double v=p.viol(g); if(!(v<1e-4)) BAD("the solution found while branching violates the problem by "<<v); if(!(std::fabs(p.obj(g)-ch->goodObjectiveValue())<1e-4*(1+std::fabs(p.obj(g))))) BAD("the solution found while branching has value "<<p.obj(g)<<" not "<<ch->goodObjectiveValue()); }
  return ""; }
static void unit(bool th,long u,Out&o){
  { int c=u/NANN%NCF,a=u%NANN; if((c==2||c==5||c==6)&&a>=1) return; } // Osi's own candidate list does not support priorities (an assertion of its own fails)
  World w; w.p=mk(INST[u/(NCF*NANN)]); annotate(w.p,u%NANN); const Prob&p=w.p; std::vector<Box> N=nodes(p,th); const RefPair&R=w.ref(p.lb,p.ub); std::vector<double> cut; cut.push_back(1e50); if(R.feas){ cut.push_back(R.hi+0.02); cut.push_back(R.hi+0.4); }
  SmartPtr<GenTMINLP> t=new GenTMINLP(p); BonminSetup b; b.initializeOptionsAndJournalist(); b.readOptionsString(QUIET); b.readOptionsString(std::string("bonmin.algorithm B-BB\n")+CF[u/NANN%NCF].opts); b.initialize(GetRawPtr(t)); b.nonlinearSolver()->messageHandler()->setLogLevel(0);
  if(!b.branchingMethod()){ o.fail("no branching method"); return; }
  OsiTMINLPInterface*base=b.nonlinearSolver(); base->initialSolve(); if(!base->isProvenOptimal()) return;
  size_t nn=N.size();
  for(size_t c=0;c<cut.size();c++) for(int fix=0;fix<2;fix++) if((th||!fix||u%NANN==0)&&!(fix&&(u/NANN%NCF==5||u/NANN%NCF==6))) for(size_t i=0;i<nn;i++){ if(!th&&i>0&&(i+c+fix)%3) continue;
    for(size_t j=i+1;j<nn||j==i+1;j++){ if(j>=nn&&nn>1) break; if(!th&&(j+c+fix)%3&&nn>4) continue; if(th&&nn>20&&(i+j)%5) continue;
      OsiTMINLPInterface*s=dynamic_cast<OsiTMINLPInterface*>(base->clone()); OsiChooseVariable*ch=b.branchingMethod()->clone(); ch->setSolver(s); std::string a1,a2,e=step(w,s,ch,N[i],i?1:0,cut[c],fix,a1,o);
      if(e.empty()){ if(a1.find('/')!=std::string::npos&&ch->bestObjectIndex()>=0){ ch->updateInformation(ch->bestObjectIndex(),0,0.3,0.5,0); ch->updateInformation(ch->bestObjectIndex(),1,0.1,0.5,0); } if(j<nn){ e=step(w,s,ch,N[j],2,cut[c],fix,a2,o); if(!e.empty()) e="after a decision in "+show(N[i].l)+".."+show(N[i].u)+": "+e; } }
      o.add("histories"); o.outcome(a1+" "+a2); delete ch; delete s;
      if(!e.empty()){ std::ostringstream m; m<<"box "<<show(N[j<nn?j:i].l)<<".."<<show(N[j<nn?j:i].u)<<" cutoff "<<cut[c]<<(fix?" fixing":"")<<": "<<e; o.fail(m.str()); if(o.fails.size()>3) return; } } } }
int main(int c,char**v){ return stdMain(c,v,build,unit,[](bool,long u){ return desc(u); },300); }
