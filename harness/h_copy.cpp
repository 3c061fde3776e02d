// BUILD: -fno-access-control
// Copies and assignments: for every value class Bonmin hands out, every history of make / copy / clone / assign (also
// to itself) / change / destroy over two objects, up to a depth. Reference: the list of changes each object stands for;
// after every operation each live object must look exactly like a new object given the same changes directly.
#include "e2e.hpp"
#include "BonTMINLP.hpp"
#include "BonIpoptWarmStart.hpp"
#include "BonQuadCut.hpp"
#include "BonTMatrix.hpp"
#include "BonQuadRow.hpp"
#include "BonBabInfos.hpp"
#include "BonPseudoCosts.hpp"
#include "BonDiver.hpp"
#include "BonCbcNode.hpp"
#include "CbcCompareActual.hpp"
#include "CbcCompareDepth.hpp"
#include "CbcCompareObjective.hpp"
#include <memory>
using namespace vr; using namespace Bonmin;
typedef std::ostringstream OS;
static OS& d(OS&o,double x){ char b[40]; snprintf(b,40,"%.12g,",x); o<<b; return o; }
// ---- one adapter per class: V variants, M changes, make, mut, obs, clone; A: has assignment, D: has a difference transfer
struct Sos { typedef TMINLP::SosInfo T; enum{V=3,M=4,A=0,C=0}; static const char*nm(){return "SosInfo";}
  static T*make(int v){ T*t=new T; t->num=v; if(v){ t->numNz=v==1?3:4; t->types=new char[v]; t->priorities=new int[v]; t->starts=new int[v+1]; t->indices=new int[t->numNz]; t->weights=new double[t->numNz]; for(int i=0;i<v;i++){ t->types[i]=1; t->priorities[i]=5+i; t->starts[i]=2*i; } t->starts[v]=t->numNz; for(int i=0;i<t->numNz;i++){ t->indices[i]=10-i; t->weights[i]=1.5*i; } } return t; }
  static void mut(T&t,int k){ if(k==3){ t.gutsOfDestructor(); return; } if(!t.num) return; if(k==0) t.weights[t.numNz-1]+=7; if(k==1) t.priorities[t.num-1]++; if(k==2){ t.indices[0]+=3; t.types[0]=2; } }
  static std::string obs(T&t){ OS o; o<<t.num<<" "<<t.numNz<<":"; for(int i=0;i<t.num;i++) o<<(int)t.types[i]<<","<<t.priorities[i]<<","<<t.starts[i]<<";"; if(t.num) o<<t.starts[t.num]<<":"; else o<<(t.types||t.priorities||t.starts||t.indices||t.weights); for(int i=0;i<t.numNz;i++){ o<<t.indices[i]<<","; d(o,t.weights[i]); } return o.str(); } };
struct Brn { typedef TMINLP::BranchingInfo T; enum{V=4,M=4,A=0,C=0}; static const char*nm(){return "BranchingInfo";}
  static T*make(int v){ T*t=new T; if(v){ t->size=3; if(v&1){ t->priorities=new int[3]; t->branchingDirections=new int[3]; } if(v&2){ t->upPsCosts=new double[3]; t->downPsCosts=new double[3]; } for(int i=0;i<3;i++){ if(v&1){ t->priorities[i]=i+1; t->branchingDirections[i]=i-1; } if(v&2){ t->upPsCosts[i]=i*.5; t->downPsCosts[i]=9-i; } } } return t; }
  static void mut(T&t,int k){ if(k==0&&t.priorities) t.priorities[2]+=4; if(k==1&&t.branchingDirections) t.branchingDirections[0]*=-1; if(k==2&&t.upPsCosts){ t.upPsCosts[1]+=2; t.downPsCosts[0]-=1; } if(k==3) t.gutsOfDestructor(); }
  static std::string obs(T&t){ OS o; o<<t.size<<":"; for(int i=0;i<3;i++){ if(t.priorities) o<<t.priorities[i]; o<<";"; if(t.branchingDirections) o<<t.branchingDirections[i]; o<<";"; if(t.upPsCosts) d(o,t.upPsCosts[i]); o<<";"; if(t.downPsCosts) d(o,t.downPsCosts[i]); } return o.str(); } };
struct Per { typedef TMINLP::PerturbInfo T; enum{V=2,M=3,A=0,C=-1}; static const char*nm(){return "PerturbInfo";}
  static T*make(int v){ T*t=new T; if(v) mut(*t,0); return t; }
  static void mut(T&t,int k){ double r[3]={1,2.5,-1},s[2]={4,5}; if(k==0) t.SetPerturbationArray(3,r); if(k==1) t.SetPerturbationArray(2,s); if(k==2) t.SetPerturbationArray(2,NULL); }
  static std::string obs(T&t){ OS o; const double*p=t.GetPerturbationArray(); if(!p) return "none"; d(o,p[0]); d(o,p[1]); return o.str(); } };
struct Wst { typedef IpoptWarmStart T; enum{V=4,M=3,A=1,C=1}; static const char*nm(){return "IpoptWarmStart";}
  static T*make(int v){ double p[3]={1,2,3},q[8]={.1,.2,.3,.4,.5,.6,.7,.8}; if(v==0) return new T; if(v==1) return new T(3,8,p,q); if(v==2){ p[1]=7; q[7]=-1; q[0]=4; return new T(3,8,p,q); } return new T(2,5,p,q); }
  static void mut(T&t,int k){ if(k==0) t.flushPoint(); if(k==1&&t.primalSize()){ std::vector<double> p(t.primal(),t.primal()+t.primalSize()),q(t.dual(),t.dual()+t.dualSize()); p[0]+=10; q.back()*=2; static_cast<CoinWarmStartPrimalDual&>(t)=CoinWarmStartPrimalDual(p.size(),q.size(),&p[0],&q[0]); } if(k==2&&t.getNumStructural()) t.setStructStatus(0,t.getStructStatus(0)==CoinWarmStartBasis::basic?CoinWarmStartBasis::atUpperBound:CoinWarmStartBasis::basic); }
  static std::string obs(T&t){ OS o; o<<t.empty()<<" "<<t.primalSize()<<","<<t.dualSize()<<","<<t.getNumStructural()<<","<<t.getNumArtificial()<<":"; for(int i=0;i<t.primalSize();i++) d(o,t.primal()[i]); for(int i=0;i<t.dualSize();i++) d(o,t.dual()[i]); for(int i=0;i<t.getNumStructural();i++) o<<t.getStructStatus(i); return o.str(); } };
static CoinPackedMatrix mat(int v){ CoinPackedMatrix m(true,0,0); m.setDimensions(3,3); if(v&1){ m.modifyCoefficient(0,0,2.); m.modifyCoefficient(1,1,1.); } if(v&2) m.modifyCoefficient(v&4?2:0,v&4?0:2,-3.); if(v&8){ m.modifyCoefficient(1,2,.5); m.modifyCoefficient(2,1,.25); } return m; }
static const double XS[3][3]={{1,2,3},{0,-1,.5},{2,2,-4}};
static QuadCut* mkCut(int v){ QuadCut*c=new QuadCut; int ix[2]={0,2}; double el[2]={1.5,-2}; if(v!=1) c->setRow(2,ix,el); c->setLb(v==2?-1e30:-5-v); c->setUb(4+v); c->c()=.5*v; c->Q()=mat(v==0?3:v==1?7:v==2?11:0); c->type()=v==0?Upper:v==1?Lower:v==2?Full:Upper; return c; }
static void mutCut(QuadCut&c,int k){ int ix[1]={1}; double el[1]={7.}; if(k==0) c.c()+=3; if(k==1) c.Q()=mat(1); if(k==2) c.setRow(1,ix,el); if(k==3){ c.Q()=mat(9); c.type()=Full; c.setUb(1); } }
static std::string obsCut(const QuadCut&c){ OS o; d(o,c.lb()); d(o,c.ub()); d(o,c.c()); o<<c.type()<<":"; for(int i=0;i<c.row().getNumElements();i++){ o<<c.row().getIndices()[i]<<"="; d(o,c.row().getElements()[i]); } o<<c.Q().getNumElements()<<":"; for(int p=0;p<3;p++) d(o,c.violated(XS[p])); for(int i=0;i<c.Q().getNumRows();i++) for(int j=0;j<c.Q().getNumCols();j++) d(o,c.Q().getCoefficient(i,j)); return o.str(); }
struct Qct { typedef QuadCut T; enum{V=4,M=4,A=1,C=1}; static const char*nm(){return "QuadCut";} static T*make(int v){ return mkCut(v); } static void mut(T&t,int k){ mutCut(t,k); } static std::string obs(T&t){ return obsCut(t); } };
struct Cts { typedef Cuts T; enum{V=3,M=6,A=1,C=0}; static const char*nm(){return "Cuts";}
  static T*make(int v){ T*t=new T; for(int i=0;i<v;i++){ QuadCut*c=mkCut(i); if(i%2) t->insert(c); else { t->insert(*c); delete c; } } if(v==2) lin(*t,1); return t; }
  static void lin(T&t,int k){ OsiRowCut r; int ix[2]={0,1}; double e[2]={1.,double(k)}; r.setRow(2,ix,e); r.setUb(k); r.setLb(-9); t.OsiCuts::insert(r); }
  static void mut(T&t,int k){ if(k==0){ QuadCut*c=mkCut(3); t.insert(*c); delete c; } if(k==1){ QuadCut*c=mkCut(1); t.insert(c); if(c) throw "pointer not taken"; } if(k==2&&t.sizeQuadCuts()) t.eraseQuadCut(0); if(k==3) lin(t,4); if(k==4&&t.sizeQuadCuts()) mutCut(t.quadCut(t.sizeQuadCuts()-1),3); if(k==5){ T o; QuadCut*c=mkCut(2); o.insert(c); lin(o,6); t.insert(o); } }
  static std::string obs(T&t){ OS o; o<<t.sizeCuts()<<" "<<t.sizeQuadCuts()<<" "<<t.sizeRowCuts()<<":"; for(int i=0;i<t.sizeQuadCuts();i++) o<<obsCut(t.quadCut(i))<<"|"; for(int i=0;i<t.sizeRowCuts();i++){ d(o,t.rowCut(i).ub()); d(o,t.rowCut(i).row().getElements()[1]); } return o.str(); } };
static std::string obsMat(TMat&t){ OS o; double m[3][3]={{0}}; for(int i=0;i<t.nnz_;i++) m[t.iRow_[i]][t.jCol_[i]]+=t.value_[i]; o<<t.nnz_<<":"; for(int i=0;i<3;i++) for(int j=0;j<3;j++) d(o,m[i][j]); int r=t.numNonEmptyRows(),c=t.numNonEmptyCols(); o<<r<<","<<c<<":"; for(int i=0;i<r;i++) o<<t.nonEmptyRows()[i].first<<"@"<<t.nonEmptyRows()[i].second<<","; for(int i=0;i<c;i++) o<<t.nonEmptyCols()[i].first<<"@"<<t.nonEmptyCols()[i].second<<","; return o.str(); }
struct Tmt { typedef TMat T; enum{V=5,M=4,A=1,C=0}; static const char*nm(){return "TMat";} static T*make(int v){ if(!v) return new T; return v==1?new T(mat(3),Upper):v==2?new T(mat(7),Lower):v==3?new T(mat(11),Full):new T(mat(0),Upper); }
  static void mut(T&t,int k){ if(k==0) t=mat(3); if(k==1) t=mat(0); if(k==2&&t.nnz_) t.value_[t.nnz_-1]+=4; if(k==3) t.removeDuplicates(); } static std::string obs(T&t){ return obsMat(t); } };
struct Qrw { typedef QuadRow T; enum{V=5,M=5,A=1,C=0}; static const char*nm(){return "QuadRow";} static T*make(int v){ if(!v) return new T; if(v<4){ QuadCut*c=mkCut(v-1); T*t=new T(*c); delete c; return t; } OsiRowCut r; int ix[1]={2}; double e[1]={3.}; r.setRow(1,ix,e); return new T(r); }
  static void mut(T&t,int k){ if(k<3){ QuadCut*c=mkCut(k); t=*c; delete c; } if(k==3){ OsiRowCut r; int ix[1]={1}; double e[1]={-1.}; r.setRow(1,ix,e); t=r; } if(k==4){ std::vector<double> g(t.nnz_grad()+1); t.eval_f(XS[2],true); t.eval_grad(t.nnz_grad(),XS[2],true,&g[0]); } }
  static std::string obs(T&t){ OS o; int n=t.nnz_grad(); o<<t.isLinear()<<","<<n<<":"; std::vector<int> ix(n+1); std::vector<double> g(n+1); for(int off=0;off<2;off++){ t.gradiant_struct(n,&ix[0],off); for(int i=0;i<n;i++) o<<ix[i]<<","; } for(int p=0;p<2;p++){ d(o,t.eval_f(XS[p],true)); t.eval_grad(n,XS[p],true,&g[0]); for(int i=0;i<n;i++) d(o,g[i]); d(o,t.eval_f(XS[p],false)); }
    for(int off=0;off<2;off++){ AdjustableMat M; t.add_to_hessian(M,off); std::vector<double> h(M.size()+1,0.); t.eval_hessian(2.,&h[0]); for(auto&q:M){ o<<q.first.first<<"."<<q.first.second<<"="; d(o,h[q.second.first]); } t.remove_from_hessian(M); o<<M.size(); } return o.str(); } };
struct Bbi { typedef BabInfo T; enum{V=2,M=6,A=0,C=1}; static const char*nm(){return "BabInfo";} static T*make(int v){ T*t=new T(v?3:0); if(v){ mut(*t,0); mut(*t,2); } return t; }
  static void mut(T&t,int k){ double a[3]={1,2,3},b[2]={8,9}; if(k==0) t.setNlpSolution(a,3,5.5); if(k==1) t.setNlpSolution(b,2,-1.); if(k==2) t.setHasNlpSolution(true); if(k==3) t.setHasNlpSolution(false); if(k==4) t.setInfeasibleNode(); if(k==5){ t.setBabPtr((Bab*)0x10); t.setFeasibleNode(); } }
  static std::string obs(T&t){ OS o; o<<t.infeasibleNode()<<","<<t.babPtr()<<","<<t.solverType()<<":"; d(o,t.nlpObjValue()); const double*p=t.nlpSolution(); if(p) for(int i=0;i<2;i++) d(o,p[i]); else o<<"none"; return o.str(); } };
struct Psc { typedef PseudoCosts T; enum{V=3,M=4,A=1,C=0}; static const char*nm(){return "PseudoCosts";} static T*make(int v){ T*t=new T; if(v){ t->initialize(1+v); t->setNumberBeforeTrusted(3*v); } return t; }
  static void mut(T&t,int k){ if(k==3){ t.initialize(2); return; } if(k==2){ t.setNumberBeforeTrusted(t.numberBeforeTrusted()+1); return; } if(!t.numberObjects()) return; if(k==0){ t.upTotalChange()[0]+=2; t.upNumber()[0]++; } if(k==1){ t.downTotalChange()[t.numberObjects()-1]+=3; t.downNumber()[t.numberObjects()-1]+=2; } }
  static std::string obs(T&t){ OS o; o<<t.numberObjects()<<","<<t.numberBeforeTrusted()<<":"; for(int i=0;i<t.numberObjects();i++){ d(o,t.upTotalChange()[i]); d(o,t.downTotalChange()[i]); o<<t.upNumber()[i]<<","<<t.downNumber()[i]<<";"; } return o.str(); } };
struct Dcm { typedef DiverCompare T; enum{V=2,M=4,A=1,C=1}; static const char*nm(){return "DiverCompare";} static T*make(int v){ T*t=new T; if(v){ mut(*t,0); mut(*t,1); } return t; }
  static void mut(T&t,int k){ CbcCompareDepth dp; CbcCompareObjective ob; if(k==0) t.setComparisonDive(dp); if(k==1) t.setComparisonBound(ob); if(k==2) t.setNumberSolToStopDive(7); if(k==3) t.setNumberNodesToLimitTreeSize(9); }
  static std::string obs(T&t){ OS o; o<<t.numberSolToStopDive_<<","<<t.numberNodesToLimitTreeSize_<<","; if(t.comparisonDive_) o<<typeid(*t.comparisonDive_).name(); o<<","; if(t.comparisonBound_) o<<typeid(*t.comparisonBound_).name(); return o.str(); } };
// ---- generic engine
template<class X> struct Clone { static typename X::T* go(const typename X::T&t){ return dynamic_cast<typename X::T*>(t.clone()); } };
template<class X,int C> struct Cp { static typename X::T* copy(const typename X::T&t){ return new typename X::T(t); } static typename X::T* clone(const typename X::T&t){ return new typename X::T(t); } };
template<class X> struct Cp<X,1> { static typename X::T* copy(const typename X::T&t){ return new typename X::T(t); } static typename X::T* clone(const typename X::T&t){ return Clone<X>::go(t); } };
template<class X> struct Cp<X,-1> { static typename X::T* copy(const typename X::T&){ return NULL; } static typename X::T* clone(const typename X::T&){ return NULL; } };
template<class X,int A> struct As { static void go(typename X::T&,const typename X::T&){} };
template<class X> struct As<X,1> { static void go(typename X::T&a,const typename X::T&b){ a=b; } };
template<class X> struct Df { static bool has(){ return false; } static void go(typename X::T&,typename X::T&){} };
template<> struct Df<Wst> { static bool has(){ return true; } static void go(IpoptWarmStart&to,IpoptWarmStart&from){ CoinWarmStartDiff*df=from.generateDiff(&to),*d2=df->clone(); delete df; to.applyDiff(d2); delete d2; } };
typedef std::vector<int> H; // history an object stands for: variant, then changes
enum { COPY_AB,COPY_BA,CLONE_AB,CLONE_BA,ASG_AB,ASG_BA,ASG_AA,DEL_A,DEL_B,DIFF_AB,DIFF_BA,MK_B0 }; // MK_B0+v, then changes of A, of B
struct Base { virtual ~Base(){} virtual const char*nm()=0; virtual int V()=0; virtual int nOps()=0; virtual std::string opName(int)=0; virtual bool ok(int)=0; virtual std::string play(int v,const std::vector<int>&ops,long&done,std::set<std::string>*states)=0; };
template<class X> struct Eng : Base { typedef typename X::T T; std::map<H,std::string> memo;
  const char*nm(){ return X::nm(); } int V(){ return X::V; } int nOps(){ return MK_B0+X::V+2*X::M; }
  bool ok(int k){ if(k<=COPY_BA) return X::C>=0; if(k<=CLONE_BA) return X::C==1; if(k<=ASG_AA) return X::A; if(k==DIFF_AB||k==DIFF_BA) return Df<X>::has(); return true; }
  std::string opName(int k){ static const char*n[]={"B=copy(A)","A=copy(B)","B=clone(A)","A=clone(B)","B:=A","A:=B","A:=A","destroy A","destroy B","diff A to B","diff B to A"}; if(k<MK_B0) return n[k]; k-=MK_B0; if(k<X::V) return "B=new "+std::to_string(k); k-=X::V; return std::string(k<X::M?"change A ":"change B ")+std::to_string(k%X::M); }
  const std::string& ref(const H&h){ auto it=memo.find(h); if(it!=memo.end()) return it->second; T*t=X::make(h[0]); for(size_t i=1;i<h.size();i++) X::mut(*t,h[i]); std::string s=X::obs(*t); delete t; return memo[h]=s; }
  std::string play(int v,const std::vector<int>&ops,long&done,std::set<std::string>*states){ T*s[2]={X::make(v),NULL}; H h[2]={H(1,v),H()}; std::string e; done=0;
    for(size_t i=0;i<ops.size()&&e.empty();i++){ int k=ops[i]; bool use=true; auto put=[&](int to,T*n,const H&hh){ delete s[to]; s[to]=n; h[to]=hh; };
      switch(k){ case COPY_AB: case CLONE_AB: use=s[0]; if(use) put(1,k==COPY_AB?Cp<X,X::C>::copy(*s[0]):Cp<X,X::C>::clone(*s[0]),h[0]); break; case COPY_BA: case CLONE_BA: use=s[1]; if(use) put(0,k==COPY_BA?Cp<X,X::C>::copy(*s[1]):Cp<X,X::C>::clone(*s[1]),h[1]); break;
        case ASG_AB: use=s[0]&&s[1]; if(use){ As<X,X::A>::go(*s[1],*s[0]); h[1]=h[0]; } break; case ASG_BA: use=s[0]&&s[1]; if(use){ As<X,X::A>::go(*s[0],*s[1]); h[0]=h[1]; } break; case ASG_AA: use=s[0]; if(use) As<X,X::A>::go(*s[0],*s[0]); break;
        case DEL_A: use=s[0]; if(use) put(0,NULL,H()); break; case DEL_B: use=s[1]; if(use) put(1,NULL,H()); break;
        case DIFF_AB: case DIFF_BA: { int f=k==DIFF_AB?0:1; use=s[f]&&s[1-f]&&h[f][0]==h[1-f][0]&&h[f].size()==h[1-f].size(); for(size_t q=1;use&&q<h[f].size();q++) if(h[f][q]!=1||h[1-f][q]!=1) use=false; (void)use; // transfer is defined between starts of one problem
            use=s[0]&&s[1]&&compat(h[0],h[1]); if(use){ Df<X>::go(*s[1-f],*s[f]); h[1-f]=h[f]; } break; }
        default: { int q=k-MK_B0; if(q<X::V){ put(1,X::make(q),H(1,q)); } else { q-=X::V; int w=q/X::M; use=s[w]; if(use){ X::mut(*s[w],q%X::M); h[w].push_back(q%X::M); } } } }
      if(!use) return ""; // disabled here: the shorter history is enumerated on its own
      done=i+1; if(states) { OS o; for(int w=0;w<2;w++){ o<<(s[w]?"L":"-"); for(int q:h[w]) o<<q; o<<"/"; } states->insert(o.str()); }
      for(int w=0;w<2;w++) if(s[w]){ std::string o=X::obs(*s[w]); const std::string&r=ref(h[w]); if(o!=r){ e=std::string("object ")+(w?"B":"A")+" reads "+o+" but should read "+r; break; } } }
    delete s[0]; delete s[1]; return e; }
  static bool compat(const H&a,const H&b){ auto pure=[](const H&h){ for(size_t i=1;i<h.size();i++) if(h[i]!=1) return false; return h[0]==1||h[0]==2; }; return pure(a)&&pure(b); } };
static std::vector<Base*> CL={new Eng<Sos>,new Eng<Brn>,new Eng<Per>,new Eng<Wst>,new Eng<Qct>,new Eng<Cts>,new Eng<Tmt>,new Eng<Qrw>,new Eng<Bbi>,new Eng<Psc>,new Eng<Dcm>};
struct U { int c,v,o0,o1; }; static std::vector<U> US; static int DEPTH;
static std::string fmt(const U&u,const std::vector<int>&ops){ std::string r=std::string(CL[u.c]->nm())+": A=new "+std::to_string(u.v); for(int k:ops) r+="; "+CL[u.c]->opName(k); return r; }
static long build(bool th){ US.clear(); DEPTH=th?5:4; for(int c=0;c<(int)CL.size();c++) for(int v=0;v<CL[c]->V();v++) for(int a=0;a<CL[c]->nOps();a++) if(CL[c]->ok(a)){ if(th) for(int b=0;b<CL[c]->nOps();b++){ if(CL[c]->ok(b)) US.push_back(U{c,v,a,b}); } else US.push_back(U{c,v,a,-1}); } return US.size(); }
static void unit(bool,long u,Out&o){ const U&x=US[u]; Base*b=CL[x.c]; std::vector<int> ops(1,x.o0); if(x.o1>=0) ops.push_back(x.o1); std::set<std::string> st; long dn; int pre=ops.size();
  // depth first over the remaining operations; a history whose last operation is disabled is not extended
  std::vector<int> stack(ops); std::function<bool()> rec=[&]()->bool{ std::string e=b->play(x.v,stack,dn,&st); o.add("transitions",dn); if(!e.empty()){ o.fail(fmt(x,stack)+" | "+e); return false; } if(dn<(long)stack.size()) return true; o.add("histories"); if((int)stack.size()==DEPTH) return true; for(int k=0;k<b->nOps();k++) if(b->ok(k)){ stack.push_back(k); bool g=rec(); stack.pop_back(); if(!g) return false; } return true; };
  (void)pre; rec(); for(auto&s:st) o.outcome(std::string(b->nm())+s); }
static std::string desc(long u){ const U&x=US[u]; std::vector<int> ops(1,x.o0); if(x.o1>=0) ops.push_back(x.o1); return fmt(x,ops)+"; ..."; }
int main(int c,char**v){ return stdMain(c,v,build,unit,[](bool,long u){ return desc(u); },120); }
