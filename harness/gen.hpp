// A tiny parametric MINLP (quadratic + exponential terms) as a Bonmin TMINLP, and an independent
// brute-force reference optimum (no Bonmin code involved in the reference).
#ifndef VGEN_HPP
#define VGEN_HPP
#include <vector>
#include <string>
#include <cmath>
#include <cstdio>
#include <algorithm>
#include <functional>
#include "BonTMINLP.hpp"

namespace vg {
using Ipopt::Index; using Ipopt::Number; using Ipopt::TNLP;
typedef std::vector<double> Vec;
static double INF = 1.7976931348623157e308;

struct Func {                 // c0 + lin'x + x'Qx (Q full symmetric, stored dense) + sum ex_i exp(x_i)
  int n; double c0; Vec lin, Q, ex;
  Func(int n_=0):n(n_),c0(0),lin(n_,0.),Q(n_*n_,0.),ex(n_,0.){}
  double operator()(const double*x)const{
    double r=c0; for(int i=0;i<n;i++){ r+=lin[i]*x[i]; if(ex[i]!=0) r+=ex[i]*std::exp(x[i]);
      for(int j=0;j<n;j++) r+=Q[i*n+j]*x[i]*x[j]; }
    return r; }
  double d(int i,const double*x)const{
    double r=lin[i]; if(ex[i]!=0) r+=ex[i]*std::exp(x[i]);
    for(int j=0;j<n;j++) r+=2*Q[i*n+j]*x[j];
    return r; }
  double dd(int i,int j,const double*x)const{
    double r=2*Q[i*n+j]; if(i==j&&ex[i]!=0) r+=ex[i]*std::exp(x[i]); return r; }
  bool varNonlin(int i)const{ if(ex[i]!=0) return true; for(int j=0;j<n;j++) if(Q[i*n+j]!=0) return true; return false; }
  bool linear()const{ for(int i=0;i<n;i++) if(varNonlin(i)) return false; return true; }
  bool uses(int i)const{ return lin[i]!=0||varNonlin(i); }
  Func& L(int i,double c){lin[i]+=c;return *this;}
  Func& S(int i,double a,double t){ Q[i*n+i]+=a; lin[i]+=-2*a*t; c0+=a*t*t; return *this; } // a (x_i-t)^2
  Func& C(double c){c0+=c;return *this;}
  Func& E(int i,double a){ex[i]+=a;return *this;}
  Func& X(int i,int j,double a){Q[i*n+j]+=a/2;Q[j*n+i]+=a/2;return *this;} // a x_i x_j
};

struct Prob {
  int n; std::vector<int> type; /*0 cont 1 bin 2 int*/ Vec lb,ub,x0; Func obj;
  std::vector<Func> g; Vec gl,gu;
  bool fortran; bool denseJac; bool lastBlockRev; bool allNl=false; // index style / entry order / everything declared nonlinear
  std::vector<std::vector<int> > sos; std::vector<int> sosType;
  std::vector<int> prio; std::vector<int> bdir; Vec upPs, downPs;
  Prob(int n_=0):n(n_),type(n_,0),lb(n_,0.),ub(n_,1.),x0(n_,0.),obj(n_),fortran(false),denseJac(false),lastBlockRev(false){}
  int m()const{return (int)g.size();}
  Prob& con(const Func&f,double l,double u){g.push_back(f);gl.push_back(l);gu.push_back(u);return *this;}
  Prob& var(int i,int t,double l,double u,double s){type[i]=t;lb[i]=l;ub[i]=u;x0[i]=s;return *this;}
  double viol(const double*x)const{ // max violation of bounds, constraints, integrality
    double v=0; for(int i=0;i<n;i++){ v=std::max(v,std::max(lb[i]-x[i],x[i]-ub[i])); if(type[i]) v=std::max(v,std::fabs(x[i]-std::floor(x[i]+.5))); }
    for(int k=0;k<m();k++){ double r=g[k](x); v=std::max(v,std::max(gl[k]-r,r-gu[k])); }
    for(size_t s=0;s<sos.size();s++) v=std::max(v,sosViol(s,x));
    return v; }
  double sosViol(size_t s,const double*x)const{
    const std::vector<int>&v=sos[s]; double best=1e9; int t=sosType[s];
    for(size_t a=0;a<v.size();a++){ double r=0; for(size_t k=0;k<v.size();k++) if(!(k>=a&&k<a+t)) r=std::max(r,std::fabs(x[v[k]])); best=std::min(best,r);} return best; }
};

// ---- reference ----------------------------------------------------------------------------
struct Ref { bool feas; double obj; Vec x; };
// minimise convex objective over all-but-continuous fixed; at most one continuous variable per "cont" list handled exactly
inline bool interval_le(const std::function<double(double)>&f,double u,double&lo,double&hi){
  // {y in [lo,hi] : f(y)<=u}, f convex
  double a=lo,b=hi; for(int it=0;it<200&&b-a>1e-13;it++){ double m1=a+(b-a)*0.381966,m2=b-(b-a)*0.381966; if(f(m1)<f(m2)) b=m2; else a=m1; }
  double c=(a+b)/2; if(f(lo)<f(c)) c=lo; if(f(hi)<f(c)) c=hi;
  if(f(c)>u) return false;
  if(f(lo)>u){ double p=lo,q=c; for(int it=0;it<100;it++){ double m=(p+q)/2; if(f(m)>u) p=m; else q=m; } lo=q; }
  if(f(hi)>u){ double p=hi,q=c; for(int it=0;it<100;it++){ double m=(p+q)/2; if(f(m)>u) p=m; else q=m; } hi=q; }
  return lo<=hi; }
inline void refRec(const Prob&p,int i,Vec&x,double eps,Ref&best,int cont){
  if(i<p.n){
    if(p.type[i]==0){ refRec(p,i+1,x,eps,best,i); return; }
    for(double v=std::ceil(p.lb[i]-1e-9);v<=p.ub[i]+1e-9;v+=1){ x[i]=v; refRec(p,i+1,x,eps,best,cont); }
    return; }
  if(cont>=0){
    double lo=p.lb[cont]-eps,hi=p.ub[cont]+eps;
    if(lo>hi) return;
    for(int k=0;k<p.m();k++){
      if(p.gu[k]<1e20){ if(!interval_le([&](double y){x[cont]=y;return p.g[k](&x[0]);},p.gu[k]+eps,lo,hi)) return; }
      if(p.gl[k]>-1e20){ if(!interval_le([&](double y){x[cont]=y;return -p.g[k](&x[0]);},-p.gl[k]+eps,lo,hi)) return; }
    }
    double a=lo,b=hi; auto f=[&](double y){x[cont]=y;return p.obj(&x[0]);};
    for(int it=0;it<200&&b-a>1e-13;it++){ double m1=a+(b-a)*0.381966,m2=b-(b-a)*0.381966; if(f(m1)<f(m2)) b=m2; else a=m1; }
    double c=(a+b)/2; if(f(lo)<f(c)) c=lo; if(f(hi)<f(c)) c=hi;
    x[cont]=c;
  } else for(int k=0;k<p.m();k++){ double r=p.g[k](&x[0]); if(r>p.gu[k]+eps||r<p.gl[k]-eps) return; }
  for(size_t s=0;s<p.sos.size();s++) if(p.sosViol(s,&x[0])>std::max(eps,1e-9)) return;
  double o=p.obj(&x[0]); if(!best.feas||o<best.obj){best.feas=true;best.obj=o;best.x=x;}
}
inline Ref reference(const Prob&p,double eps){ Ref r; r.feas=false; r.obj=1e300; Vec x(p.n,0.); refRec(p,0,x,eps,r,-1); return r; }
struct RefPair { bool wellPosed; bool feas; double lo,hi; Vec x; }; // optimum lies in [lo,hi]
inline RefPair refPair(const Prob&p,double eps=2e-5){
  Ref a=reference(p,eps), b=reference(p,-eps), c=reference(p,1e-9); RefPair r; r.feas=c.feas;
  // equality rows cannot be tightened: compare relaxed against nominal instead
  bool eq=false; for(int k=0;k<p.m();k++) if(p.gl[k]==p.gu[k]) eq=true; for(int i=0;i<p.n;i++) if(p.lb[i]==p.ub[i]) eq=true;
  const Ref&bb = eq? c : b;
  r.wellPosed = (a.feas==bb.feas) && (a.feas==c.feas) && (!a.feas || std::fabs(a.obj-bb.obj)<5e-3);
  r.lo=a.obj; r.hi=bb.obj; r.x=c.x; return r; }

// ---- TMINLP -------------------------------------------------------------------------------
class GenTMINLP : public Bonmin::TMINLP {
 public:
  Prob p; std::vector<std::pair<int,int> > jac, hes;
  // observation
  int finCount; Bonmin::TMINLP::SolverReturn finStatus; bool finHasX; Vec finX; double finObj;
  long nEval; long failAt; long nanAt=0; int failKind; // fail the failAt-th evaluation (1-based; 0 never)
  std::function<bool(int)> onEval;       // optional: kind -> ok?
  Vec lastX; long stale; unsigned long trace=1469598103934665603UL; void mix(const void*q,size_t k){ const unsigned char*b=(const unsigned char*)q; for(size_t i=0;i<k;i++){ trace^=b[i]; trace*=1099511628211UL; } }
  void seen(const double*x,bool nx){ if(!x) return; mix(x,p.n*sizeof(double)); if(!nx&&!(lastX.size()==(size_t)p.n&&std::equal(lastX.begin(),lastX.end(),x))) stale++; lastX.assign(x,x+p.n); } // new_x=false must mean same point as before
  Bonmin::TMINLP::SosInfo* sosInfo; Bonmin::TMINLP::BranchingInfo* brInfo;
  std::vector<char> bytes; std::vector<int> sosStarts, sosIdx, sosPrio; std::vector<double> sosW;
  GenTMINLP(const Prob&q):p(q),finCount(0),finHasX(false),finObj(0),nEval(0),failAt(0),failKind(0),stale(0),sosInfo(NULL),brInfo(NULL){
    for(int k=0;k<p.m();k++) for(int i=0;i<p.n;i++) if(p.denseJac||p.g[k].uses(i)) jac.push_back(std::make_pair(k,i));
    for(int i=0;i<p.n;i++) for(int j=0;j<=i;j++){ bool u=p.obj.Q[i*p.n+j]!=0||(i==j&&p.obj.ex[i]!=0);
      for(int k=0;k<p.m();k++) u=u||p.g[k].Q[i*p.n+j]!=0||(i==j&&p.g[k].ex[i]!=0);
      if(u) hes.push_back(std::make_pair(i,j)); }
    if(p.lastBlockRev){ std::reverse(jac.begin(),jac.end()); std::reverse(hes.begin(),hes.end()); }
    if(!p.sos.empty()){
      sosInfo=new Bonmin::TMINLP::SosInfo; Bonmin::TMINLP::SosInfo&s=*sosInfo; s.num=(int)p.sos.size(); int nz=0; for(size_t k=0;k<p.sos.size();k++) nz+=p.sos[k].size();
      s.numNz=nz; s.types=new char[s.num]; s.priorities=new int[s.num]; s.starts=new int[s.num+1]; s.indices=new int[nz]; s.weights=new double[nz];
      int q2=0; for(int k=0;k<s.num;k++){ s.types[k]=(char)p.sosType[k]; s.priorities[k]=1; s.starts[k]=q2; for(size_t t=0;t<p.sos[k].size();t++){ s.indices[q2]=p.sos[k][t]; s.weights[q2]=t+1; q2++; } } s.starts[s.num]=q2; }
    if(!p.prio.empty()){ brInfo=new Bonmin::TMINLP::BranchingInfo; brInfo->size=p.n; brInfo->priorities=new int[p.n]; for(int i=0;i<p.n;i++) brInfo->priorities[i]=p.prio[i];
      if(!p.bdir.empty()){ brInfo->branchingDirections=new int[p.n]; for(int i=0;i<p.n;i++) brInfo->branchingDirections[i]=p.bdir[i]; }
      if(!p.upPs.empty()){ brInfo->upPsCosts=new double[p.n]; brInfo->downPsCosts=new double[p.n]; for(int i=0;i<p.n;i++){brInfo->upPsCosts[i]=p.upPs[i];brInfo->downPsCosts[i]=p.downPs[i];} } }
  }
  virtual ~GenTMINLP(){ delete sosInfo; delete brInfo; }
  void bad(double*v,int n){ if(nanAt&&nEval==nanAt&&n>0) v[n-1]=std::nan(""); }
  bool tick(int kind){ ++nEval; if(onEval) return onEval(kind); return !(failAt&&nEval==failAt); }
  virtual bool get_nlp_info(Index&n,Index&m,Index&nj,Index&nh,TNLP::IndexStyleEnum&st){ n=p.n;m=p.m();nj=jac.size();nh=hes.size();st=p.fortran?TNLP::FORTRAN_STYLE:TNLP::C_STYLE;return true;}
  virtual bool get_variables_types(Index n,VariableType*t){for(int i=0;i<n;i++) t[i]=p.type[i]==0?CONTINUOUS:p.type[i]==1?BINARY:INTEGER;return true;}
  virtual bool get_variables_linearity(Index n,TNLP::LinearityType*t){for(int i=0;i<n;i++){bool nl=p.obj.varNonlin(i);for(int k=0;k<p.m();k++) nl=nl||p.g[k].varNonlin(i);t[i]=nl||p.allNl?TNLP::NON_LINEAR:TNLP::LINEAR;}return true;}
  virtual bool get_constraints_linearity(Index m,TNLP::LinearityType*t){for(int k=0;k<m;k++) t[k]=p.g[k].linear()&&!p.allNl?TNLP::LINEAR:TNLP::NON_LINEAR;return true;}
  virtual bool get_bounds_info(Index n,Number*xl,Number*xu,Index m,Number*gl,Number*gu){for(int i=0;i<n;i++){xl[i]=p.lb[i];xu[i]=p.ub[i];}for(int k=0;k<m;k++){gl[k]=p.gl[k];gu[k]=p.gu[k];}return true;}
  virtual bool get_starting_point(Index n,bool ix,Number*x,bool iz,Number*zl,Number*zu,Index m,bool il,Number*l){ if(ix) for(int i=0;i<n;i++) x[i]=p.x0[i]; if(iz) for(int i=0;i<n;i++) zl[i]=zu[i]=1.; if(il) for(int k=0;k<m;k++) l[k]=0.; return true;}
  virtual bool eval_f(Index,const Number*x,bool nx,Number&o){ seen(x,nx); if(!tick(0)) return false; o=p.obj(x); bad(&o,1); return true;}
  virtual bool eval_grad_f(Index n,const Number*x,bool nx,Number*g){ seen(x,nx); if(!tick(1)) return false; for(int i=0;i<n;i++) g[i]=p.obj.d(i,x); bad(g,n); return true;}
  virtual bool eval_g(Index,const Number*x,bool nx,Index m,Number*g){ seen(x,nx); if(!tick(2)) return false; for(int k=0;k<m;k++) g[k]=p.g[k](x); bad(g,m); return true;}
  virtual bool eval_jac_g(Index,const Number*x,bool nx,Index,Index nz,Index*r,Index*c,Number*v){
    int o=p.fortran?1:0; if(v==NULL){ for(int k=0;k<nz;k++){r[k]=jac[k].first+o;c[k]=jac[k].second+o;} return true;}
    seen(x,nx); if(!tick(3)) return false; for(int k=0;k<nz;k++) v[k]=p.g[jac[k].first].d(jac[k].second,x); bad(v,nz); return true;}
  virtual bool eval_h(Index,const Number*x,bool nx,Number of,Index m,const Number*l,bool,Index nz,Index*r,Index*c,Number*v){
    int o=p.fortran?1:0; if(v==NULL){ for(int k=0;k<nz;k++){r[k]=hes[k].first+o;c[k]=hes[k].second+o;} return true;}
    seen(x,nx); if(!tick(4)) return false; for(int k=0;k<nz;k++){ int i=hes[k].first,j=hes[k].second; double s=of*p.obj.dd(i,j,x); for(int q=0;q<m;q++) s+=l[q]*p.g[q].dd(i,j,x); v[k]=s;} bad(v,nz); return true;}
  virtual bool eval_gi(Index,const Number*x,bool nx,Index i,Number&g){ seen(x,nx); if(!tick(5)) return false; g=p.g[i](x); bad(&g,1); return true; }
  virtual bool eval_grad_gi(Index n,const Number*x,bool nx,Index i,Index&ne,Index*jc,Number*v){
    int o=p.fortran?1:0; int k=0;
    if(v==NULL){ for(size_t q=0;q<jac.size();q++) if(jac[q].first==i){ if(jc) jc[k]=jac[q].second+o; k++; } ne=k; return true; }
    seen(x,nx); if(!tick(6)) return false; for(size_t q=0;q<jac.size();q++) if(jac[q].first==i) v[k++]=p.g[i].d(jac[q].second,x); ne=k; bad(v,k); return true; }
  virtual void finalize_solution(Bonmin::TMINLP::SolverReturn st,Index n,const Number*x,Number o){ finCount++; finStatus=st; finHasX=x!=NULL; finX.clear(); if(x) finX.assign(x,x+n); finObj=o; }
  virtual const BranchingInfo*branchingInfo()const{return brInfo;}
  virtual const SosInfo*sosConstraints()const{return sosInfo;}
  virtual bool hasLinearObjective(){return p.obj.linear()&&!p.allNl;}
};
}
#endif
