// Enumerated family of small convex MINLPs: every combination of layout x objective x constraint subset.
#ifndef VFAM_HPP
#define VFAM_HPP
#include "gen.hpp"
#include <sstream>
namespace vg {
// layouts: which variables are discrete
struct Layout { const char*name; int n; int type[4]; double lb[4],ub[4],x0[4]; };
static const Layout LAY[]={
  {"bbc",3,{1,1,0,0},{0,0,-1,0},{1,1,2,0},{0,0,0,0}},
  {"cii",3,{0,2,2,0},{-1,0,-1,0},{3,3,2,0},{0,1,0,0}},
  {"bic",3,{1,2,0,0},{0,-2,0,0},{1,2,4,0},{1,0,1,0}},
  {"ii", 2,{2,2,0,0},{-2,0,0,0},{2,3,0,0},{0,0,0,0}},
  {"bbbc",4,{1,1,1,0},{0,0,0,0},{1,1,1,3},{1,1,1,1}},
};
static const int NLAY=5, NOBJ=8, NCON=12;
inline Func mkObj(int n,int k){
  Func f(n);
  switch(k){
    case 0: for(int i=0;i<n;i++) f.L(i,-1.-0.5*i); break;
    case 1: for(int i=0;i<n;i++) f.L(i,(i%2?-1.:1.3)); break;
    case 2: for(int i=0;i<n;i++) f.S(i,1.,0.4+0.7*i); break;
    case 3: for(int i=0;i<n;i++) f.S(i,i%2?2.:1.,1.6-0.9*i); f.L(0,0.3); break;
    case 4: f.E(0,0.5); for(int i=0;i<n;i++) f.L(i,-0.9+0.2*i); break;
    case 5: f.S(n-1,1.,0.25); f.L(0,1.); break;                       // a variable absent from the objective
    case 6: f.S(0,1.,0.3); f.S(1,1.,-0.3); f.X(0,1,0.8); f.L(n-1,-0.7); break;
    case 7: f.C(5.); for(int i=0;i<n;i++) f.L(i,0.8-0.45*i); break;
  }
  return f; }
inline void addCon(Prob&p,int k){
  int n=p.n; Func f(n);
  switch(k){
    case 0: for(int i=0;i<n;i++) f.S(i,1.,0.2); p.con(f,-INF,2.1); break;                 // ball
    case 1: for(int i=0;i<n;i++) f.L(i,1.); p.con(f,-INF,2.6); break;                     // sum <=
    case 2: for(int i=0;i<n;i++) f.L(i,1.+0.5*i); p.con(f,1.2,INF); break;                // >=
    case 3: for(int i=0;i<n;i++) f.L(i,i%2?-1.:1.); p.con(f,-0.7,1.3); break;             // range
    case 4: f.E(0,1.); f.L(1,-1.5); p.con(f,-INF,0.8); break;                             // exp
    case 5: f.S(0,1.,0.5); f.S(1,1.,0.5); p.con(f,-INF,0.4); break;                       // integer-infeasible disc when both discrete
    case 6: f.L(0,1.); f.L(n-1,1.); p.con(f,1.,1.); break;                                // equality
    case 7: f.S(n-1,1.,1.0); f.L(0,-1.); p.con(f,-INF,0.6); break;
    case 8: for(int i=0;i<n;i++) f.S(i,-1.,0.1); p.con(f,-3.2,INF); break;                // concave >=  (convex set)
    case 9: f.S(0,1.,0.); f.X(0,1,0.6); f.S(1,1.,0.); f.C(0.5); p.con(f,-INF,2.9); break; // with constant term
    case 10: for(int i=0;i<n;i++) f.L(i,2.); f.C(-1.); p.con(f,-INF,-8.5); break;         // mostly infeasible
    case 11: f.L(1,1.); f.S(n-1,0.5,0.); p.con(f,-INF,1.7); break;
  } }
struct FamIdx { int lay,obj; std::vector<int> cons; };
inline void subsets(std::vector<std::vector<int> >&out,int maxk){
  out.push_back(std::vector<int>()); for(int a=0;a<NCON;a++) out.push_back(std::vector<int>(1,a));
  if(maxk>=2) for(int a=0;a<NCON;a++) for(int b=a+1;b<NCON;b++){ std::vector<int> v; v.push_back(a); v.push_back(b); out.push_back(v);} 
  if(maxk>=3) for(int a=0;a<NCON;a++) for(int b=a+1;b<NCON;b++) for(int c=b+1;c<NCON;c++){ std::vector<int> v; v.push_back(a); v.push_back(b); v.push_back(c); out.push_back(v);} }
inline Prob mkDeep(int k);
inline Prob mk(const FamIdx&f){
  if(f.lay>=100) return mkDeep(f.lay-100);
  const Layout&l=LAY[f.lay]; Prob p(l.n); for(int i=0;i<l.n;i++) p.var(i,l.type[i],l.lb[i],l.ub[i],l.x0[i]);
  p.obj=mkObj(l.n,f.obj); for(size_t k=0;k<f.cons.size();k++) addCon(p,f.cons[k]);
  return p; }
inline std::string name(const FamIdx&f){ std::ostringstream o; if(f.lay>=100){ o<<"deep"<<f.lay-100; return o.str(); } o<<LAY[f.lay].name<<"/obj"<<f.obj<<"/con"; for(size_t k=0;k<f.cons.size();k++) o<<(k?"+":"")<<f.cons[k]; return o.str(); }
// deeper trees: 4-5 general integers / binaries coupled by quadratic terms; lay==100+k
static const int NDEEP=40;
inline Prob mkDeep(int k){
  if(k>=32){ // equations that involve discrete variables only
    int j=k-32,n=(j&1)?5:4; Prob p(n); for(int i=0;i<n;i++){ bool last=i==n-1; if(last) p.var(i,(j&2)?2:0,-1,2,0); else p.var(i,(n==5&&i==3)?2:1,0,(n==5&&i==3)?3:1,0); }
    Func f(n); if(j<4) for(int i=0;i<n;i++) f.S(i,1.+0.2*i,0.3+0.43*((i*3+j)%4)); else for(int i=0;i<n;i++) f.L(i,-1.-0.5*((i*2+j)%3)); p.obj=f;
    Func g(n); for(int i=0;i<3;i++) g.L(i,1.); p.con(g,1.,1.); if(n==5&&j>=4){ Func h(n); h.L(0,2.); h.L(3,1.); p.con(h,2.,2.); } if(j&4){ Func h(n); h.L(0,1.5); h.L(n-1,1.); p.con(h,0.5,INF); } return p; }
  int n=(k&1)?5:4, var=(k>>1)&3, con=(k>>3)&3; Prob p(n);
  for(int i=0;i<n;i++){ bool cont=(var==3&&i==n-1); p.var(i,cont?0:(var==1||(var==2&&i%2))?1:2,(var==0&&i%2)?-1:0,(var==1||(var==2&&i%2))?1:3,0); }
  Func f(n); for(int i=0;i<n;i++) f.S(i,1.+0.3*i,0.47+0.31*((i*7+k)%5)); for(int i=0;i+1<n;i++) f.X(i,i+1,0.35*((i+k)%2?1:-1)); p.obj=f;
  if(con>=1){ Func g(n); for(int i=0;i<n;i++) g.L(i,2.+((i*3+k)%4)); p.con(g,4.7,INF); }
  if(con>=2){ Func g(n); for(int i=0;i<n;i++) g.S(i,1.,0.5); p.con(g,-INF,2.6+0.2*(k%3)); }
  if(con>=3){ Func g(n); g.E(0,1.); for(int i=1;i<n;i++) g.L(i,-1.); p.con(g,-INF,0.9); }
  return p; }
// the same problem in translated variables y = x + s (integer s keeps integrality): bounds away from zero
inline Func shiftFunc(const Func&f,double s){ Func r(f.n); r.c0=f.c0; for(int i=0;i<f.n;i++){ r.lin[i]+=f.lin[i]; r.c0-=f.lin[i]*s; r.ex[i]=f.ex[i]*std::exp(-s); for(int j=0;j<f.n;j++){ double q=f.Q[i*f.n+j]; r.Q[i*f.n+j]+=q; r.lin[i]-=q*s; r.lin[j]-=q*s; r.c0+=q*s*s; } } return r; }
inline Prob shifted(const Prob&p,double s){ Prob r=p; r.obj=shiftFunc(p.obj,s); for(size_t k=0;k<p.g.size();k++) r.g[k]=shiftFunc(p.g[k],s); for(int i=0;i<p.n;i++){ r.lb[i]+=s; r.ub[i]+=s; r.x0[i]+=s; if(r.type[i]==1) r.type[i]=2; } return r; }
// maxk<0: a reduced family, every layout with every single constraint (or none), objectives in rotation
inline std::vector<FamIdx> family(int maxk,bool deep=true){
  if(maxk<0){ std::vector<FamIdx> r; for(int c=-1;c<NCON;c++) for(int l=0;l<NLAY;l++){ FamIdx f; f.lay=l; f.obj=(3*l+c+1)%NOBJ; if(c>=0) f.cons.push_back(c); r.push_back(f);} if(deep) for(int k=0;k<NDEEP;k++){ FamIdx f; f.lay=100+k; f.obj=0; r.push_back(f);} return r; }
   std::vector<std::vector<int> > s; subsets(s,maxk); std::vector<FamIdx> r; for(size_t c=0;c<s.size();c++) for(int l=0;l<NLAY;l++) for(int o=0;o<NOBJ;o++){ FamIdx f; f.lay=l; f.obj=o; f.cons=s[c]; r.push_back(f);} if(deep) for(int k=0;k<NDEEP;k++){ FamIdx f; f.lay=100+k; f.obj=0; r.push_back(f);} return r; }
}
#endif
