// Every problem Bonmin derives from the user's one, after every bounded history of changes, against the mathematical
// problem it stands for: sizes, bounds, sparsity, values, first and second derivatives, linearity, stored results.
#include "e2e.hpp"
#include "BonTMINLP2TNLP.hpp"
#include "BonTNLP2FPNLP.hpp"
#include "BonBranchingTQP.hpp"
#include "BonTMINLPLinObj.hpp"
#include "BonTMINLP2Quad.hpp"
#include "BonQuadCut.hpp"
#include <climits>
using namespace vg; using namespace vr; using namespace Bonmin; using Ipopt::SmartPtr;
struct Spec { Vec dz,dl; bool started=false; int n; Func obj; std::vector<Func> g; Vec xl,xu,gl,gu; bool fortran; bool linExact; std::vector<int> lin; int m()const{return (int)g.size();} };
static bool same(double a,double b){ if(std::fabs(a)>=1e19||std::fabs(b)>=1e19) return a*b>0&&std::fabs(a)>=1e19&&std::fabs(b)>=1e19; return std::fabs(a-b)<=1e-8*(1+std::fabs(a)+std::fabs(b)); }
static Spec specOf(const Prob&p){ Spec s; s.n=p.n; s.obj=p.obj; s.g=p.g; s.xl=p.lb; s.xu=p.ub; s.gl=p.gl; s.gu=p.gu; s.fortran=p.fortran; s.linExact=false; return s; }
static std::vector<Vec> points(int n){ std::vector<Vec> r; double a[3][6]={{.3,-.7,1.1,.5,.2,-.4},{1,0,2,-1,.6,1.2},{-.45,.8,0,1.25,-2,.1}}; for(int k=0;k<3;k++) r.push_back(Vec(a[k],a[k]+n)); return r; }
static const double MAGIC=-7.77e77;
#define BAD(msg) do{ std::ostringstream _o; _o.precision(10); _o<<msg; return _o.str(); }while(0)
static std::string checkTNLP(Ipopt::TNLP&t,const Spec&s,long&evals,GenTMINLP*user=NULL){
  int n,m,nj,nh; Ipopt::TNLP::IndexStyleEnum st; if(!t.get_nlp_info(n,m,nj,nh,st)) return "get_nlp_info failed";
  if(n!=s.n||m!=s.m()) BAD("size "<<n<<"x"<<m<<" instead of "<<s.n<<"x"<<s.m());
  if((st==Ipopt::TNLP::FORTRAN_STYLE)!=s.fortran) return "index style changed";
  Vec xl(n+1,MAGIC),xu(n+1,MAGIC),gl(m+1,MAGIC),gu(m+1,MAGIC); if(!t.get_bounds_info(n,&xl[0],&xu[0],m,&gl[0],&gu[0])) return "get_bounds_info failed";
  for(int i=0;i<n;i++) if(!same(xl[i],s.xl[i])||!same(xu[i],s.xu[i])) BAD("bounds of variable "<<i<<" are ["<<xl[i]<<","<<xu[i]<<"] instead of ["<<s.xl[i]<<","<<s.xu[i]<<"]");
  for(int k=0;k<m;k++) if(!same(gl[k],s.gl[k])||!same(gu[k],s.gu[k])) BAD("bounds of row "<<k<<" are ["<<gl[k]<<","<<gu[k]<<"] instead of ["<<s.gl[k]<<","<<s.gu[k]<<"]");
  if(xl[n]!=MAGIC||xu[n]!=MAGIC||gl[m]!=MAGIC||gu[m]!=MAGIC) return "get_bounds_info writes past the arrays";
  std::vector<Ipopt::TNLP::LinearityType> lt(m+1,Ipopt::TNLP::NON_LINEAR); if(m>0&&t.get_constraints_linearity(m,&lt[0])) for(int k=0;k<m;k++) if(lt[k]==Ipopt::TNLP::LINEAR&&!s.g[k].linear()) BAD("nonlinear row "<<k<<" declared linear");
  std::vector<Ipopt::TNLP::LinearityType> vt(n+1,Ipopt::TNLP::NON_LINEAR); if(t.get_variables_linearity(n,&vt[0])) for(int i=0;i<n;i++) if(vt[i]==Ipopt::TNLP::LINEAR){ bool nl=s.obj.varNonlin(i); for(auto&f:s.g) nl=nl||f.varNonlin(i); if(nl) BAD("nonlinear variable "<<i<<" declared linear"); }
  int o=s.fortran?1:0; std::vector<int> jr(nj+1,INT_MIN),jc(nj+1,INT_MIN),hr(nh+1,INT_MIN),hc(nh+1,INT_MIN);
  if(!t.eval_jac_g(n,NULL,false,m,nj,&jr[0],&jc[0],NULL)) return "Jacobian structure failed";
  if(!t.eval_h(n,NULL,false,1.,m,NULL,false,nh,&hr[0],&hc[0],NULL)) return "Hessian structure failed";
  if(jr[nj]!=INT_MIN||jc[nj]!=INT_MIN||hr[nh]!=INT_MIN||hc[nh]!=INT_MIN) return "structure written past its length";
  for(int k=0;k<nj;k++){ jr[k]-=o; jc[k]-=o; if(jr[k]<0||jr[k]>=m||jc[k]<0||jc[k]>=n) BAD("Jacobian entry "<<k<<" at ("<<jr[k]<<","<<jc[k]<<")"); }
  for(int k=0;k<nh;k++){ hr[k]-=o; hc[k]-=o; if(hr[k]<0||hr[k]>=n||hc[k]<0||hc[k]>=n) BAD("Hessian entry "<<k<<" at ("<<hr[k]<<","<<hc[k]<<")"); }
  std::vector<Vec> P=points(n);
  for(size_t q=0;q<P.size();q++){ const double*x=&P[q][0]; bool nx=true; double f; evals+=5;
    Vec gr(n+1,MAGIC),g(m+1,MAGIC),jv(nj+1,MAGIC),hv(nh+1,MAGIC),lam(m+1);
    for(int step=0;step<5;step++){ int w=(step+(int)q*2)%5; // another first evaluation at each point
      if(w==0){ if(!t.eval_f(n,x,nx,f)) return "eval_f failed"; if(!same(f,s.obj(x))) BAD("objective "<<f<<" instead of "<<s.obj(x)); }
      if(w==1){ if(!t.eval_grad_f(n,x,nx,&gr[0])) return "eval_grad_f failed"; for(int i=0;i<n;i++) if(!same(gr[i],s.obj.d(i,x))) BAD("objective gradient["<<i<<"] "<<gr[i]<<" instead of "<<s.obj.d(i,x)); if(gr[n]!=MAGIC) return "gradient written past its length"; }
      if(w==2&&m>0){ if(!t.eval_g(n,x,nx,m,&g[0])) return "eval_g failed"; for(int k=0;k<m;k++) if(!same(g[k],s.g[k](x))) BAD("row "<<k<<" value "<<g[k]<<" instead of "<<s.g[k](x)); if(g[m]!=MAGIC) return "constraint values written past their length"; }
      if(w==3&&m>0){ if(!t.eval_jac_g(n,x,nx,m,nj,NULL,NULL,&jv[0])) return "eval_jac_g failed"; Vec D(n*m,0.); for(int k=0;k<nj;k++) D[jr[k]*n+jc[k]]+=jv[k]; for(int k=0;k<m;k++) for(int i=0;i<n;i++) if(!same(D[k*n+i],s.g[k].d(i,x))) BAD("Jacobian("<<k<<","<<i<<") "<<D[k*n+i]<<" instead of "<<s.g[k].d(i,x)); if(jv[nj]!=MAGIC) return "Jacobian written past its length"; }
      if(w==4) for(int v=0;v<3;v++){ double of=v==0?1.:v==1?0.:-1.5; for(int k=0;k<m;k++) lam[k]=v==0?0.7-0.9*k:v==1?1.+k:0.; if(!t.eval_h(n,x,nx,of,m,&lam[0],true,nh,NULL,NULL,&hv[0])) return "eval_h failed"; nx=false;
          Vec D(n*n,0.); for(int k=0;k<nh;k++){ D[hr[k]*n+hc[k]]+=hv[k]; if(hr[k]!=hc[k]) D[hc[k]*n+hr[k]]+=hv[k]; }
          for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double r=of*s.obj.dd(i,j,x); for(int k=0;k<m;k++) r+=lam[k]*s.g[k].dd(i,j,x); if(!same(D[i*n+j],r)) BAD("Hessian("<<i<<","<<j<<") "<<D[i*n+j]<<" instead of "<<r<<" (objective factor "<<of<<")"); } if(hv[nh]!=MAGIC) return "Hessian written past its length"; }
      if(!((w==2||w==3)&&m==0)) nx=false; } }
  if(user&&user->stale) return "an evaluation was announced as unchanged point although the point had changed";
  return ""; }
static std::string checkGi(TMINLP2TNLP&t,const Spec&s){
  std::vector<Vec> P=points(s.n); int o=s.fortran?1:0;
  for(int k=0;k<s.m();k++) for(auto&x:P){ double v; if(!t.eval_gi(s.n,&x[0],true,k,v)) BAD("eval_gi("<<k<<") failed"); if(!same(v,s.g[k](&x[0]))) BAD("eval_gi("<<k<<") "<<v<<" instead of "<<s.g[k](&x[0]));
    int ne=s.n; std::vector<int> jc(s.n+1,-5); if(!t.eval_grad_gi(s.n,NULL,false,k,ne,&jc[0],NULL)) BAD("eval_grad_gi structure of "<<k<<" failed"); if(ne>s.n||ne<0) BAD("eval_grad_gi("<<k<<") has "<<ne<<" entries"); Vec val(s.n+1,0.); if(!t.eval_grad_gi(s.n,&x[0],true,k,ne,NULL,&val[0])) BAD("eval_grad_gi("<<k<<") failed");
    Vec D(s.n,0.); for(int q=0;q<ne;q++){ int c=jc[q]-o; if(c<0||c>=s.n) BAD("eval_grad_gi("<<k<<") column "<<c); D[c]+=val[q]; } for(int i=0;i<s.n;i++) if(!same(D[i],s.g[k].d(i,&x[0]))) BAD("eval_grad_gi("<<k<<")["<<i<<"] "<<D[i]<<" instead of "<<s.g[k].d(i,&x[0])); }
  return ""; }
// ---------------------------------------------------------------- problems
struct PI { int lay,obj; std::vector<int> cons; int pres; };
static std::vector<PI> big,small_;
static std::string pname(const PI&p){ std::ostringstream o; o<<LAY[p.lay].name<<"/obj"<<p.obj<<"/con"; for(int c:p.cons) o<<c<<","; o<<"/presentation"<<p.pres; return o.str(); }
static Prob mkp(const PI&q){ FamIdx f; f.lay=q.lay; f.obj=q.obj; f.cons=q.cons; Prob p=mk(f); p.fortran=q.pres&1; p.lastBlockRev=q.pres&2; p.denseJac=q.pres&4; return p; }
static void mkProblems(){ if(!big.empty()) return; std::vector<std::vector<int> > cs={{},{0},{2,4},{9,3},{6,8,11},{7,1}};
  for(int l=0;l<NLAY;l++) for(int o=0;o<NOBJ;o++) for(auto&c:cs) for(int pr=0;pr<8;pr++) { bool third=LAY[l].n<3; (void)third; PI p={l,o,c,pr}; big.push_back(p); }
  std::vector<std::vector<int> > cs2={{},{9,4},{1,8}}; int ls[]={0,2,3},os[]={0,2,6},pr[]={0,1}; for(int l:ls) for(int o:os) for(auto&c:cs2) for(int r:pr){ PI p={l,o,c,r}; small_.push_back(p);} }
// ---------------------------------------------------------------- part 1: the bounded copy of the user's problem, all histories
struct BaseState { Vec xl,xu; int start; /*0 user 1 x 2 x+duals*/ Vec x; Vec du; std::vector<int> ty; Vec xs; bool solved; double obj; };
static const int NB=11; static const char*BN[]={"lower","upper","both","allbounds","xinit","duals","reset","copy","copyAndChangeSource","finalize","type"};
static std::string baseHist(const Prob&p,const std::vector<int>&h,long&ev){
  SmartPtr<GenTMINLP> u=new GenTMINLP(p); SmartPtr<TMINLP2TNLP> t=new TMINLP2TNLP(GetRawPtr(u)); int n=p.n,m=p.m();
  BaseState s; s.xl=p.lb; s.xu=p.ub; s.start=0; s.ty=p.type; s.solved=false; s.obj=0; std::vector<SmartPtr<TMINLP2TNLP> > keep; std::vector<BaseState> keepS;
  for(size_t k=0;k<h.size();k++){ int v=k%n; double w=.25*(k+1);
    switch(h[k]){
      case 0: t->SetVariableLowerBound(v,p.lb[v]+w); s.xl[v]=p.lb[v]+w; break;
      case 1: t->SetVariableUpperBound(v,p.ub[v]-w); s.xu[v]=p.ub[v]-w; break;
      case 2: t->SetVariableBounds(v,w,w+.5); s.xl[v]=w; s.xu[v]=w+.5; break;
      case 3: { Vec a(n),b(n); for(int i=0;i<n;i++){a[i]=-w-i;b[i]=w+i;} if(k%3==0) t->SetVariablesBounds(n,&a[0],&b[0]); else if(k%3==1){ t->SetVariablesLowerBounds(n,&a[0]); t->SetVariablesUpperBounds(n,&b[0]); } else { t->SetVariablesUpperBounds(n,&b[0]); t->SetVariablesLowerBounds(n,&a[0]); } s.xl=a; s.xu=b; break; }
      case 4: { Vec a(n); for(int i=0;i<n;i++) a[i]=w+2*i; t->setxInit(n,&a[0]); s.x=a; if(s.start<1) s.start=1; break; }
      case 5: { Vec d(2*n+m); for(size_t i=0;i<d.size();i++) d[i]=w+3.*i; t->setDualsInit(2*n+m,&d[0]); s.du=d; if(s.start==0){ s.x.assign(n,0.); } s.start=2; break; }
      case 6: t->resetStartingPoint(); s.start=0; s.du.clear(); break;
      case 7: { keep.push_back(t); keepS.push_back(s); t=t->clone(); break; }
      case 8: { SmartPtr<TMINLP2TNLP> o=t->clone(); Vec a(n,-9.),d(2*n+m,9.); t->SetVariableBounds(0,-9,9); t->setDualsInit(2*n+m,&d[0]); t->setxInit(n,&a[0]); t=o; break; } // the source is changed, then destroyed
      case 9: { Vec x(n),zl(n),zu(n),g(m+1),l(m+1); for(int i=0;i<n;i++){x[i]=w+i;zl[i]=.1*i+w;zu[i]=.2*i+w;} for(int q=0;q<m;q++){g[q]=5.+q+w;l[q]=6.+q-w;} t->finalize_solution(Ipopt::SUCCESS,n,&x[0],&zl[0],&zu[0],m,&g[0],&l[0],w+100,NULL,NULL); s.solved=true; s.obj=w+100; s.xs=x; s.xs.insert(s.xs.end(),zl.begin(),zl.end()); s.xs.insert(s.xs.end(),zu.begin(),zu.end()); s.xs.insert(s.xs.end(),l.begin(),l.begin()+m); s.xs.insert(s.xs.end(),g.begin(),g.begin()+m); break; }
      case 10: { t->SetVariableType(v,TMINLP::CONTINUOUS); s.ty[v]=0; break; }
    } }
  keep.push_back(t); keepS.push_back(s);
  for(size_t q=0;q<keep.size();q++){ TMINLP2TNLP&z=*keep[q]; const BaseState&c=keepS[q]; Spec sp=specOf(p); sp.xl=c.xl; sp.xu=c.xu; u->stale=0; std::string e=checkTNLP(z,sp,ev,GetRawPtr(u)); if(e.empty()) e=checkGi(z,sp);
    if(e.empty()){ for(int i=0;i<n;i++){ if(z.x_l()[i]!=c.xl[i]||z.x_u()[i]!=c.xu[i]) e="stored variable bounds differ"; if(z.orig_x_l()[i]!=p.lb[i]||z.orig_x_u()[i]!=p.ub[i]) e="original variable bounds changed"; int ty=z.var_types()[i]==TMINLP::CONTINUOUS?0:z.var_types()[i]==TMINLP::BINARY?1:2; if(ty!=c.ty[i]) e="variable type differs"; } }
    if(e.empty()){ Vec x(n+1,MAGIC),zl(n+1,MAGIC),zu(n+1,MAGIC),l(m+1,MAGIC); if(!z.get_starting_point(n,true,&x[0],false,NULL,NULL,m,false,NULL)) e="no starting point"; Vec want=c.start==0?p.x0:c.x; for(int i=0;i<n&&e.empty();i++) if(x[i]!=want[i]){ std::ostringstream o; o<<"starting point["<<i<<"] "<<x[i]<<" instead of "<<want[i]; e=o.str(); }
      bool d=z.get_starting_point(n,true,&x[0],true,&zl[0],&zu[0],m,true,&l[0]); if(d!=(c.start==2)) e=d?"dual starting point offered although none is set":"dual starting point lost"; if(d&&e.empty()){ for(int i=0;i<n;i++) if(zl[i]!=c.du[i]||zu[i]!=c.du[n+i]) e="bound multipliers of the starting point differ"; for(int k=0;k<m;k++) if(l[k]!=c.du[2*n+k]) e="row multipliers of the starting point differ"; } }
    if(e.empty()&&c.solved){ if(!same(z.obj_value(),c.obj)) e="stored objective differs"; for(int i=0;i<n;i++) if(z.x_sol()[i]!=c.xs[i]) e="stored solution differs"; for(int i=0;i<2*n+m;i++) if(z.duals_sol()[i]!=c.xs[n+i]) e="stored multipliers differ"; for(int k=0;k<m;k++) if(z.g_sol()[k]!=c.xs[3*n+m+k]) e="stored row values differ"; if(z.optimization_status()!=Ipopt::SUCCESS) e="stored status differs"; }
    if(!e.empty()) return (q+1<keep.size()?"(copy's source) ":"")+e; }
  return ""; }
// ---------------------------------------------------------------- part 2: feasibility-pump / local-branching problem
static std::string fpAll(const Prob&p,long&ev,long&cases){
  SmartPtr<GenTMINLP> u=new GenTMINLP(p); SmartPtr<TMINLP2TNLP> t=new TMINLP2TNLP(GetRawPtr(u)); int n=p.n,m=p.m();
  double lams[]={0.,.3,1.},sigs[]={1.,2.5},scs[]={1.,.4}; std::vector<std::vector<int> > inds; std::vector<int> ints; for(int i=0;i<n;i++) if(p.type[i]) ints.push_back(i); inds.push_back(ints); inds.push_back(std::vector<int>(1,ints.back()));
  for(int flags=0;flags<8;flags++) for(int norm=1;norm<=2;norm++) for(double lam:lams) for(double sig:sigs) for(double sc:scs) for(auto&I:inds) for(int via=0;via<2;via++){
    SmartPtr<TNLP2FPNLP> f=new TNLP2FPNLP(GetRawPtr(t),sc); f->set_use_feasibility_pump_objective(flags&1); f->set_use_cutoff_constraint(flags&2); f->set_use_local_branching_constraint(flags&4); f->setNorm(norm); f->setLambda(lam); f->setSigma(sig);
    Vec vals; for(size_t k=0;k<I.size();k++) vals.push_back(k%2?1.:0.); f->set_dist_to_point_obj(I.size(),&vals[0],&I[0]); double cut[]={3.,-2.,0.}; double cv=cut[(flags+norm)%3]; f->set_cutoff(cv); f->set_rhs_local_branching_constraint(1.5);
    if(via){ SmartPtr<TNLP2FPNLP> g=new TNLP2FPNLP(GetRawPtr(t),f); f=g; }
    Spec s=specOf(p);
    if(flags&1){ Func o(n); double a=(1-lam)*sig; o.c0=a*p.obj.c0; for(int i=0;i<n;i++){o.lin[i]=a*p.obj.lin[i];o.ex[i]=a*p.obj.ex[i];} for(int i=0;i<n*n;i++) o.Q[i]=a*p.obj.Q[i]; for(size_t k=0;k<I.size();k++){ if(norm==2) o.S(I[k],sc*lam,vals[k]); else if(vals[k]<.5) o.L(I[k],sc*lam); else { o.L(I[k],-sc*lam); o.C(sc*lam); } } s.obj=o; }
    if(flags&2){ s.g.push_back(p.obj); s.gl.push_back(-1e300); s.gu.push_back(cv-1e-6*(std::fabs(cv)>0?std::fabs(cv):1.)); }
    if(flags&4){ Func l(n); for(size_t k=0;k<I.size();k++) if(vals[k]<.5) l.L(I[k],1.); else { l.L(I[k],-1.); l.C(1.); } s.g.push_back(l); s.gl.push_back(-1e300); s.gu.push_back(1.5); }
    u->stale=0; std::string e=checkTNLP(*f,s,ev,GetRawPtr(u)); cases++;
    if(e.empty()){ // start and result in the space of the extended problem
      int M=m+((flags>>1)&1)+((flags>>2)&1); Vec x(n),zl(n),zu(n),l(M+1,MAGIC); if(!f->get_starting_point(n,true,&x[0],false,NULL,NULL,M,false,NULL)) e="no starting point"; for(int i=0;i<n;i++) if(x[i]!=p.x0[i]) e="starting point differs";
      Vec d(2*n+m); for(size_t i=0;i<d.size();i++) d[i]=1.+i; t->setxInit(n,&p.x0[0]); t->setDualsInit(2*n+m,&d[0]); if(!f->get_starting_point(n,true,&x[0],true,&zl[0],&zu[0],M,true,&l[0])) e="dual starting point lost"; for(int k=0;k<M&&e.empty();k++) if(l[k]!=(k<m?d[2*n+k]:0.)) e="row multiplier of the starting point differs"; t->resetStartingPoint();
      Vec g(M+1),lm(M+1); for(int k=0;k<M;k++){g[k]=10.+k;lm[k]=20.+k;} for(int i=0;i<n;i++) x[i]=.5+i; f->finalize_solution(Ipopt::SUCCESS,n,&x[0],&zl[0],&zu[0],M,&g[0],&lm[0],4.5,NULL,NULL); for(int i=0;i<n;i++) if(t->x_sol()[i]!=x[i]) e="solution not stored"; for(int k=0;k<m;k++) if(t->g_sol()[k]!=g[k]||t->duals_sol()[2*n+k]!=lm[k]) e="row values or multipliers not stored"; }
    if(!e.empty()){ std::ostringstream o; o<<"feasibility problem (distance objective "<<(flags&1)<<", cutoff row "<<((flags>>1)&1)<<", local branching row "<<((flags>>2)&1)<<", norm "<<norm<<", lambda "<<lam<<", sigma "<<sig<<", scaling "<<sc<<", "<<I.size()<<" coordinates"<<(via?", rebuilt from another":"")<<"): "<<e; return o.str(); } }
  return ""; }
// ---------------------------------------------------------------- part 3: epigraph reformulation
static Spec linSpec(const Prob&p){ Spec s; int n=p.n+1; s.n=n; auto up=[&](const Func&f){ Func r(n); r.c0=f.c0; for(int i=0;i<p.n;i++){r.lin[i]=f.lin[i];r.ex[i]=f.ex[i];for(int j=0;j<p.n;j++) r.Q[i*n+j]=f.Q[i*p.n+j];} return r; };
  s.obj=Func(n); s.obj.L(p.n,1.); Func e=up(p.obj); e.L(p.n,-1.); s.g.push_back(e); s.gl.push_back(-1e300); s.gu.push_back(0.); for(int k=0;k<p.m();k++){ s.g.push_back(up(p.g[k])); s.gl.push_back(p.gl[k]); s.gu.push_back(p.gu[k]); } s.xl=p.lb; s.xu=p.ub; s.xl.push_back(-1e300); s.xu.push_back(1e300); s.fortran=p.fortran; s.linExact=false; return s; }
static std::string linAll(const Prob&p,long&ev,long&cases){
  SmartPtr<GenTMINLP> u=new GenTMINLP(p); SmartPtr<TMINLPLinObj> l=new TMINLPLinObj; l->setTminlp(GetRawPtr(u)); SmartPtr<TMINLP2TNLP> t=new TMINLP2TNLP(GetRawPtr(l)); int n=p.n+1; cases++;
  Spec s=linSpec(p); std::string e=checkTNLP(*t,s,ev,GetRawPtr(u)); if(e.empty()) e=checkGi(*t,s); if(!e.empty()) return "linear-objective reformulation: "+e;
  Vec x(n),z(n),la(p.m()+1); if(!t->get_starting_point(n,true,&x[0],false,NULL,NULL,p.m()+1,false,NULL)) return "linear-objective reformulation: no starting point"; for(int i=0;i<p.n;i++) if(x[i]!=p.x0[i]) return "linear-objective reformulation: starting point differs"; if(!same(x[p.n],p.obj(&p.x0[0]))) return "linear-objective reformulation: starting value of the objective variable differs";
  for(int i=0;i<p.n;i++) if((t->var_types()[i]==TMINLP::CONTINUOUS)!=(p.type[i]==0)) return "linear-objective reformulation: variable type differs"; if(t->var_types()[p.n]!=TMINLP::CONTINUOUS) return "objective variable is not continuous"; if(!l->hasLinearObjective()) return "objective not declared linear";
  Vec y(n,.5); l->finalize_solution(TMINLP::SUCCESS,n,&y[0],3.); if(u->finCount!=1||u->finX.size()!=(size_t)p.n||u->finObj!=3.) return "linear-objective reformulation: solution not handed to the user's problem"; return ""; }
// ---------------------------------------------------------------- part 4: quadratic model used for branching
static std::string qpAll(const Prob&p,long&ev,long&cases){
  int n=p.n,m=p.m(); std::vector<Vec> P=points(n);
  for(auto&x0:P) for(int dv=0;dv<2;dv++){ SmartPtr<GenTMINLP> u=new GenTMINLP(p); SmartPtr<TMINLP2TNLP> t=new TMINLP2TNLP(GetRawPtr(u)); if(dv) t->SetVariableBounds(0,-3,5);
    Vec zl(n,.5),zu(n,.25),l(m+1),g(m+1,0.); for(int k=0;k<m;k++) l[k]=dv?.6-.5*k:0.; t->finalize_solution(Ipopt::SUCCESS,n,&x0[0],&zl[0],&zu[0],m,&g[0],&l[0],1.,NULL,NULL);
    SmartPtr<BranchingTQP> q=new BranchingTQP(t); Spec s; s.n=n; s.fortran=p.fortran; s.linExact=false; s.obj=Func(n);
    for(int i=0;i<n;i++){ s.obj.L(i,p.obj.d(i,&x0[0])); for(int j=0;j<n;j++){ double h=p.obj.dd(i,j,&x0[0]); for(int k=0;k<m;k++) h+=l[k]*p.g[k].dd(i,j,&x0[0]); s.obj.Q[i*n+j]+=.5*h; } }
    for(int k=0;k<m;k++){ Func f(n); for(int i=0;i<n;i++) f.L(i,p.g[k].d(i,&x0[0])); s.g.push_back(f); double v=p.g[k](&x0[0]); s.gl.push_back(p.gl[k]<-1e19?-1e300:p.gl[k]-v); s.gu.push_back(p.gu[k]>1e19?1e300:p.gu[k]-v); }
    for(int i=0;i<n;i++){ s.xl.push_back((dv&&i==0?-3:p.lb[i])-x0[i]); s.xu.push_back((dv&&i==0?5:p.ub[i])-x0[i]); }
    cases++; std::string e=checkTNLP(*q,s,ev,GetRawPtr(u));
    if(e.empty()){ Vec d(n,.125),gg(m+1,2.); q->finalize_solution(Ipopt::SUCCESS,n,&d[0],&zl[0],&zu[0],m,&gg[0],&l[0],7.,NULL,NULL); for(int i=0;i<n;i++) if(!same(t->x_sol()[i],x0[i]+.125)) e="result not translated back to the original variables"; if(!same(t->obj_value(),7.+p.obj(&x0[0]))) e="objective value not translated back"; }
    if(!e.empty()) return "quadratic branching model: "+e; }
  return ""; }
// ---------------------------------------------------------------- part 5: problem with linear and quadratic cuts, all histories
static const int NQ=13; static const char*QN[]={"addLinear","addQuadUpper","addQuadLower","addQuadFull","addMixed","removeFirst","removeLast","removeAllCuts","removeMiddle","copy","linearObjective","resetObjective","bounds+start"};
static Func mkCut(int n,int kind,int serial,double&c){ Func f(n); c=kind>0?0.5+serial:0.; f.L(serial%n,1.+serial); f.L((serial+1)%n,-.5); if(kind>0){ f.C(c); int a=serial%n,b=(serial+1)%n; f.Q[a*n+a]+=1.5; f.X(a,b,2*.75); if(n>2&&serial%2) f.X(b,(serial+2)%n,2*.2); } return f; }
static QuadCut quad(const Func&f,int kind,double c,double lb,double ub){ int n=f.n; QuadCut q; std::vector<int> id; std::vector<double> el; for(int i=0;i<n;i++) if(f.lin[i]!=0){id.push_back(i);el.push_back(f.lin[i]);} q.setRow((int)id.size(),&id[0],&el[0]); q.setLb(lb); q.setUb(ub); q.c()=c;
  std::vector<int> r,cc; std::vector<double> v; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(f.Q[i*n+j]!=0){ if(kind==1&&j<i) continue; if(kind==2&&j>i) continue; r.push_back(i); cc.push_back(j); v.push_back(f.Q[i*n+j]); }
  q.Q()=CoinPackedMatrix(true,&r[0],&cc[0],&v[0],(CoinBigIndex)v.size()); q.type()=kind==1?Upper:kind==2?Lower:Full; return q; }
struct QS { Spec s; Vec du; std::vector<bool> hasStart; };
static std::string quadHist(const Prob&p,const std::vector<int>&h,long&ev,bool&valid){
  SmartPtr<GenTMINLP> u=new GenTMINLP(p); SmartPtr<TMINLP2TNLPQuadCuts> t=new TMINLP2TNLPQuadCuts(GetRawPtr(u)); Spec s=specOf(p); int n=p.n,m0=p.m(); int serial=0; std::vector<SmartPtr<TMINLP2TNLPQuadCuts> > keep; std::vector<Spec> ks; valid=true; SmartPtr<TMINLP2TNLP> hold;
  auto addSpec=[&](const Func&f,double lb,double ub){ s.dl.push_back(0.); s.g.push_back(f); s.gl.push_back(lb); s.gu.push_back(ub); };
  auto rem=[&](std::vector<int> id){ t->removeCuts((unsigned)id.size(),&id[0]); std::sort(id.begin(),id.end()); for(size_t k=id.size();k-->0;){ s.g.erase(s.g.begin()+id[k]); s.gl.erase(s.gl.begin()+id[k]); s.gu.erase(s.gu.begin()+id[k]); if(s.started) s.dl.erase(s.dl.begin()+id[k]); } };
  for(size_t k=0;k<h.size();k++){ int cuts=s.m()-m0; double c;
    switch(h[k]){
      case 0: { Func f=mkCut(n,0,serial++,c); std::vector<int> id; std::vector<double> el; for(int i=0;i<n;i++) if(f.lin[i]!=0){id.push_back(i);el.push_back(f.lin[i]);} OsiRowCut rc; rc.setRow((int)id.size(),&id[0],&el[0]); rc.setLb(-2.-serial); rc.setUb(3.+serial); const OsiRowCut*pp[1]={&rc}; if(k%2){ t->addCuts(1,pp); } else { OsiCuts cs; cs.insert(rc); t->addCuts(cs); } addSpec(f,-2.-serial,3.+serial); break; }
      case 1: case 2: case 3: { Func f=mkCut(n,h[k],serial++,c); QuadCut q=quad(f,h[k],c,-1.-serial,4.+serial); const OsiRowCut*pp[1]={&q}; switch((k+h[k])%3){ case 0: t->addCuts(1,pp); break; case 1: { Cuts cs; cs.insert(q); t->addCuts(cs,true); break; } default: { OsiCuts cs; OsiRowCut*rp=q.clone(); cs.insert(rp); t->addCuts(cs); } } addSpec(f,-1.-serial,4.+serial);
          std::vector<Vec> P=points(n); for(auto&x:P){ double v=f(&x[0]),w=std::max(-1.-serial-v,v-4.-serial); if(!same(q.violated(&x[0]),w)) BAD("violation of a quadratic cut ("<<QN[h[k]]<<") is "<<q.violated(&x[0])<<" instead of "<<w); } break; }
      case 4: { Cuts cs; Func a=mkCut(n,1,serial++,c); cs.insert(quad(a,1,c,-5,5)); Func f=mkCut(n,0,serial++,c); std::vector<int> id; std::vector<double> el; for(int i=0;i<n;i++) if(f.lin[i]!=0){id.push_back(i);el.push_back(f.lin[i]);} OsiRowCut rc; rc.setRow((int)id.size(),&id[0],&el[0]); rc.setLb(-6); rc.setUb(6); cs.OsiCuts::insert(rc); t->addCuts(static_cast<const OsiCuts&>(cs)); addSpec(a,-5,5); addSpec(f,-6,6); break; }
      case 5: if(cuts<1){valid=false;return "";} rem({m0}); break;
      case 6: if(cuts<2){valid=false;return "";} rem({m0+cuts-1}); break;
      case 7: { if(cuts<2){valid=false;return "";} std::vector<int> id; for(int i=cuts-1;i>=0;i--) id.push_back(m0+i); rem(id); break; }
      case 8: if(cuts<3){valid=false;return "";} rem({m0+1}); break;
      case 9: { keep.push_back(t); ks.push_back(s); t=dynamic_cast<TMINLP2TNLPQuadCuts*>(t->clone()); break; }
      case 10: { Vec o(n); Func f(n); f.C(2.+k); for(int i=0;i<n;i++){o[i]=1.+i-k;f.L(i,o[i]);} t->set_linear_objective(n,&o[0],2.+k); s.obj=f; break; }
      case 11: t->reset_objective(); s.obj=p.obj; break;
      case 12: { t->SetVariableBounds(0,-1.5,1.5+k); s.xl[0]=-1.5; s.xu[0]=1.5+k; Vec x(n,.5+k),d(2*n+s.m()); for(size_t i=0;i<d.size();i++) d[i]=1.+k+.1*i; t->setxInit(n,&x[0]); t->setDualsInit(2*n+s.m(),&d[0]); s.started=true; s.dz=x; s.dz.insert(s.dz.end(),d.begin(),d.begin()+2*n); s.dl.assign(d.begin()+2*n,d.end()); break; }
    } }
  keep.push_back(t); ks.push_back(s);
  for(size_t q=0;q<keep.size();q++){ u->stale=0; std::string e=checkTNLP(*keep[q],ks[q],ev,GetRawPtr(u)); if(e.empty()) e=checkGi(*keep[q],ks[q]); int M=ks[q].m();
    if(e.empty()){ Vec x(n),zl(n),zu(n),l(M+1,MAGIC); if(!keep[q]->get_starting_point(n,true,&x[0],false,NULL,NULL,M,false,NULL)) e="no starting point"; keep[q]->get_starting_point(n,true,&x[0],true,&zl[0],&zu[0],M,true,&l[0]); if(l[M]!=MAGIC) e="multipliers written past their length"; const Spec&c=ks[q]; if(c.started){ for(int i=0;i<n;i++) if(x[i]!=c.dz[i]||zl[i]!=c.dz[n+i]||zu[i]!=c.dz[2*n+i]) e="starting point or bound multipliers lost"; for(int k=0;k<M;k++) if(l[k]!=c.dl[k]) e="row multipliers of the starting point differ"; }
      double osc; bool ux=false,ug=false; Vec xs(n),gs(M+1); keep[q]->get_scaling_parameters(osc,ux,n,&xs[0],ug,M,&gs[0]);
      Vec g(M+1,1.); keep[q]->finalize_solution(Ipopt::SUCCESS,n,&x[0],&zl[0],&zu[0],M,&g[0],&l[0],1.,NULL,NULL); for(int k=0;k<M;k++) if(keep[q]->g_sol()[k]!=1.) e="result not stored"; }
    if(!e.empty()) return (q+1<keep.size()?"(copy's source) ":"")+e; }
  return ""; }
// ---------------------------------------------------------------- units
struct U { int part; int prob; int a,b; };
static std::vector<U> units; static int DB,DQ; static const char*PN[]={"","bounded copy","feasibility problem","linear objective","quadratic model","cuts"};
static long build(bool th){ mkProblems(); units.clear(); DB=th?5:4; DQ=th?6:5; 
  for(size_t i=0;i<big.size();i++){ U u={3,(int)i,0,0}; units.push_back(u); u.part=4; units.push_back(u); if(big[i].pres<2||th){ u.part=2; units.push_back(u); } }
  for(size_t i=0;i<small_.size();i++){ if(!th&&i%6!=0&&i%6!=3) continue; for(int a=0;a<NB;a++){ U u={1,(int)i,a,0}; units.push_back(u); } }
  for(size_t i=0;i<small_.size();i++){ if(!th&&(small_[i].obj!=2||small_[i].lay==3)) continue; for(int a=0;a<NQ;a++) for(int b=0;b<NQ;b++){ U u={5,(int)i,a,b}; units.push_back(u); } }
  return units.size(); }
static std::string desc(bool,long k){ const U&u=units[k]; std::ostringstream o; o<<PN[u.part]<<" of "<<pname(u.part==1||u.part==5?small_[u.prob]:big[u.prob]); if(u.part==1) o<<" first "<<BN[u.a]; if(u.part==5) o<<" first "<<QN[u.a]<<","<<QN[u.b]; return o.str(); }
int main(int c,char**v){ return stdMain(c,v,build,[](bool th,long k,Out&o){ const U&u=units[k]; long ev=0,cases=0; std::string e; if(u.part!=1&&u.part!=5){ Prob p=mkp(big[u.prob]); e=u.part==2?fpAll(p,ev,cases):u.part==3?linAll(p,ev,cases):qpAll(p,ev,cases); if(!e.empty()) o.fail(e); }
    else { Prob p=mkp(small_[u.prob]); int N=u.part==1?NB:NQ,D=u.part==1?DB:DQ; std::vector<int> h; h.push_back(u.a); size_t fixed=1; if(u.part==5){ h.push_back(u.b); fixed=2; }
      std::vector<std::vector<int> > stack; stack.push_back(h); if(u.part==5&&u.b==0){ stack.push_back(std::vector<int>(1,u.a)); }
      while(!stack.empty()){ h=stack.back(); stack.pop_back(); bool valid=true; e=u.part==1?baseHist(p,h,ev):quadHist(p,h,ev,valid); if(!valid) continue; cases++; if(!e.empty()){ std::string s; for(int x:h) s+=std::string(s.empty()?"":",")+(u.part==1?BN[x]:QN[x]); o.fail("after "+s+": "+e); break; } if((int)h.size()<D&&h.size()>=fixed) for(int x=0;x<N;x++){ std::vector<int> g=h; g.push_back(x); stack.push_back(g); } } }
    o.add("histories",cases); o.add("evaluations",ev); o.add(std::string("histories_")+PN[u.part],cases); std::ostringstream s; s<<PN[u.part]<<" "<<cases; o.outcome(s.str()); if(k%997==0) o.samples.push_back(desc(th,k)); },desc,15); }
