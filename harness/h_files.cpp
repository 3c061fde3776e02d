// Files Bonmin reads and writes: every small bounds, names and starting-point file and every truncation of it, read by the
// real readers (also repeatedly into one object and applied to a real interface); records of failed subproblems read back.
#include "e2e.hpp"
#include "BonOsiTMINLPInterface.hpp"
#include "BonBoundsReader.hpp"
#include "BonColReader.hpp"
#include "BonStartPointReader.hpp"
#include "CoinError.hpp"
#include <unistd.h>
using namespace vg; using namespace vr; using namespace Bonmin; using Ipopt::SmartPtr;
static Prob prob(){ Prob p(3); p.var(0,0,-2,7,0); p.var(1,2,-3,5,0); p.var(2,2,0,9,0); Func f(3); for(int i=0;i<3;i++) f.L(i,1.); p.con(f,-INF,10.); p.obj=Func(3); p.obj.L(0,1.); return p; }
struct Dir { char n[64],old[4096]; Dir(){ if(!getcwd(old,sizeof old)) old[0]=0; strcpy(n,"/tmp/vrfXXXXXX"); if(!mkdtemp(n)||chdir(n)) abort(); } ~Dir(){ for(const char*f:{"f","g","a.col","a.row","p.row","prob.col","prob.row","prob.nl.col","fail_bounds","fail_start","fail_bounds.mod","fail.col","pre.fail_bounds","pre.fail_start","pre.fail_bounds.mod"}) unlink((std::string(n)+"/"+f).c_str()); if(old[0]&&chdir(old)){} rmdir(n); } };
static void put(const char*f,const std::string&s){ std::ofstream o(f,std::ios::binary); o<<s; }
static void start(BonminSetup&b,SmartPtr<GenTMINLP> t){ b.initializeOptionsAndJournalist(); b.readOptionsString(QUIET); b.readOptionsString("bonmin.algorithm B-BB\n"); b.initialize(GetRawPtr(t)); b.nonlinearSolver()->messageHandler()->setLogLevel(0); }
// ---- bounds: independent parser: lines "LO|UP index value [anything]"; ok=false if not of this form
struct BLine { bool up; int i; double v; };
static bool parseB(const std::string&s,std::vector<BLine>&r){ r.clear(); std::vector<std::string> tok; size_t k=0; auto word=[&](std::string&w){ while(k<s.size()&&isspace((unsigned char)s[k])) k++; w=""; while(k<s.size()&&!isspace((unsigned char)s[k])) w+=s[k++]; return !w.empty(); };
  std::string a,b,c; while(word(a)){ BLine l; if(a!="LO"&&a!="UP") return false; if(!word(b)||!word(c)) return false; char*e; l.up=a=="UP"; l.i=strtol(b.c_str(),&e,10); if(*e) return false; l.v=strtod(c.c_str(),&e); if(*e) return false; r.push_back(l); while(k<s.size()&&s[k]!='\n') k++; } return true; }
static const char*BL[]={"LO 1 -1","UP 0 0.125","LO 2 3","UP 2 6.5e0 # x","LO\t0\t-1.75","UP 1 4"}; static const int NBL=6;
static const char*SEP[]={"\n","\n\n","\r\n"}; static const char*END[]={"","\n","\n \n"};
static std::string boundsUnit(const std::string&txt,int mode,Out&o){ // mode 0: new reader, 1: default-constructed reader with another file read before, 2: wrong index
  std::vector<BLine> r; bool ok=parseB(txt,r); put("f",txt); put("g","LO 2 1\nUP 1 2\nLO 1 0\n"); Prob p=prob(); static BonminSetup*b=NULL; if(!b){ b=new BonminSetup; SmartPtr<GenTMINLP> t=new GenTMINLP(p); start(*b,t); } OsiTMINLPInterface&s=*b->nonlinearSolver(); s.setColLower(&p.lb[0]); s.setColUpper(&p.ub[0]);
  Vec l=p.lb,u=p.ub; bool threw=false; for(auto&x:r) if(x.i<0||x.i>=p.n) ok=false; if(ok) for(auto&x:r) (x.up?u:l)[x.i]=x.v;
  try{ if(mode==1){ BoundsReader br; br.read("g"); br.setFileName("f"); br.readAndApply(&s); } else { BoundsReader br("f"); br.readAndApply(&s); if(mode==2) br.readAndApply(&s); } }catch(CoinError&){ threw=true; }
  o.add("histories"); o.outcome(std::string("bounds ")+(ok?"ok":"refused")); if(ok&&threw) return "a well-formed bounds file was refused"; if(!ok&&!threw) return "an ill-formed bounds file was accepted";
  for(int i=0;i<p.n;i++) if(s.getColLower()[i]!=l[i]||s.getColUpper()[i]!=u[i]){ std::ostringstream q; q.precision(12); q<<"column "<<i<<" has bounds ["<<s.getColLower()[i]<<","<<s.getColUpper()[i]<<"] instead of ["<<l[i]<<","<<u[i]<<"]"; return q.str(); } return ""; }
// ---- names
static const char*NM[]={"x","y[1]","a_name_that_is_longer_than_a_short_string['b',12]","z2","x1"}; static const int NNM=5;
static std::string namesUnit(const std::vector<int>&v,int sep,int end,int nlname,Out&o){ std::string txt; for(size_t k=0;k<v.size();k++) txt+=(k?SEP[sep]:"")+std::string(NM[v[k]]); if(!v.empty()) txt+=END[end]; const char*base=nlname==0?"a":nlname==1?"a.nl":nlname==2?"prob":"prob.nl"; put(nlname<2?"a.col":"prob.col",txt); put("p.row","c1\nc2\nx\n"); o.add("histories");
  for(int re=0;re<3;re++){ NamesReader n(re==2?std::string("p"):std::string(base),re==2?std::string(".row"):std::string(".col")); if(re==1){ if(!n.readFile()) return "the names file was not read"; } if(re==2) { if(!n.readFile()) return "the names of rows were not read"; OsiSolverInterface::OsiNameVec w; n.copyNames(w); if(w.size()!=3||w[1]!="c2"||n.index("x")!=2) return "the names of rows are wrong"; continue; }
    if(!n.readFile(base)) return "the names file was not read"; OsiSolverInterface::OsiNameVec w(2,"old"); n.copyNames(w); if(w.size()!=v.size()){ std::ostringstream q; q<<w.size()<<" names copied instead of "<<v.size(); return q.str(); } for(size_t k=0;k<v.size();k++){ if(n.name(k)!=NM[v[k]]||w[k]!=NM[v[k]]) return "name "+std::to_string(k)+" is "+n.name(k)+" copied as "+w[k]+" instead of "+NM[v[k]]; std::string key=NM[v[k]]; if(n.index(key.c_str())!=(int)k) return "index of "+key+" is "+std::to_string(n.index(key.c_str()))+" instead of "+std::to_string(k); }
    if(n.index("unknown")!=-1) return "an unknown name has an index"; }
  NamesReader m("nofile",".col"); if(m.readFile()) return "a missing names file was read"; NamesReader c(base,".col"); if(!c.readFile()) return "the names file was not read"; o.outcome("names "+std::to_string(v.size())); return ""; }
// ---- starting points
static std::string startUnit(const std::string&txt,int mode,Out&o){ put("f",txt); o.add("histories"); std::istringstream is(txt); std::vector<std::string> t; std::string w; while(is>>w) t.push_back(w); long a=0,d=0; std::vector<double> v; char*e; bool ok=t.size()>=2; if(ok){ a=strtol(t[0].c_str(),&e,10); if(*e) ok=false; d=strtol(t[1].c_str(),&e,10); if(*e) ok=false; if(a<0||d<0) ok=false; } for(size_t k=2;ok&&k<t.size()&&(long)v.size()<a+d;k++){ v.push_back(strtod(t[k].c_str(),&e)); if(*e||e==t[k].c_str()) ok=false; } if(ok&&(long)v.size()<a+d) ok=false;
  Prob p=prob(); long N=p.n,D=2*p.n+p.m(); static BonminSetup*b=NULL; if(!b){ b=new BonminSetup; SmartPtr<GenTMINLP> t2=new GenTMINLP(p); start(*b,t2); } OsiTMINLPInterface&s=*b->nonlinearSolver(); s.problem()->resetStartingPoint(); Vec x0(N,1.5); s.setColSolution(&x0[0]);
  StartPointReader r; if(mode==1){ put("g","1 1 4 5\n"); if(!r.readFile("g")||r.getPrimals()[0]!=4||r.getDuals()[0]!=5) return "a starting point with one value each is read wrongly"; } bool got=r.readFile("f"); if(got!=ok) return ok?"a well-formed starting point was refused":"an ill-formed starting point was accepted"; if(ok){ for(long k=0;k<a+d;k++) if((k<a?r.getPrimals()[k]:r.getDuals()[k-a])!=v[k]) return "value "+std::to_string(k)+" of the starting point is wrong"; }
  bool fit=ok&&a==N&&(d==D||d==0); StartPointReader r2("f"); bool ap=r2.readAndApply(&s); if(ap!=fit) return fit?"a fitting starting point was not applied":"a starting point that does not fit was applied"; const double*x=s.problem()->x_init(); for(long i=0;i<N;i++) if(x[i]!=(fit?v[i]:1.5)) return "the starting point of the problem is wrong in variable "+std::to_string(i);
  if(fit&&d){ const double*y=s.problem()->duals_init(); if(!y) return "the dual starting point was not applied"; for(long i=0;i<D;i++) if(y[i]!=v[N+i]) return "the dual starting point is wrong in entry "+std::to_string(i); } o.outcome(std::string("start ")+(ok?fit?"fits":"other size":"refused")); return ""; }
// ---- record of a failed subproblem
static const double VL[]={1.,1./3.,0.1234567890123456,-1.9999999}; 
static std::string recordUnit(int pat,int vi,int pt,int named,int pre,Out&o){ o.add("histories"); Prob p=prob(); BonminSetup b; SmartPtr<GenTMINLP> t=new GenTMINLP(p); start(b,t); OsiTMINLPInterface&s=*b.nonlinearSolver(); Vec l=p.lb,u=p.ub; int z=pat; for(int i=0;i<3;i++){ int q=z%4; z/=4; double v=p.type[i]?std::ceil(VL[vi]):VL[vi]; if(q&1) l[i]=std::max(p.lb[i],v)+(i?0:0.); if(q&2) u[i]=v+3; } s.setColLower(&l[0]); s.setColUpper(&u[0]);
  Vec x(3),y(7); for(int i=0;i<3;i++) x[i]=l[i]+(u[i]-l[i])/3.; for(int i=0;i<7;i++) y[i]=0.1*i+1e-9; if(pt>0) s.setColSolution(&x[0]); if(pt>1) s.setRowPrice(&y[0]); const double*xi=s.problem()->x_init(); Vec X; if(xi) X.assign(xi,xi+3); if(named) put("fail.col","v0\nv1\nv2\n");
  std::string pf=pre?"pre.":""; TNLPSolver::UnsolvedError*E=s.newUnsolvedError(0,s.problem(),"fail"); E->writeDiffFiles(pf); delete E;
  BonminSetup c; SmartPtr<GenTMINLP> t2=new GenTMINLP(p); start(c,t2); OsiTMINLPInterface&n=*c.nonlinearSolver(); try{ BoundsReader br(pf+"fail_bounds"); br.readAndApply(&n); }catch(CoinError&e){ return "the record of the bounds is refused"; } for(int i=0;i<3;i++) if(std::fabs(n.getColLower()[i]-l[i])>1e-9||std::fabs(n.getColUpper()[i]-u[i])>1e-9){ std::ostringstream q; q.precision(12); q<<"the record gives column "<<i<<" the bounds ["<<n.getColLower()[i]<<","<<n.getColUpper()[i]<<"] instead of ["<<l[i]<<","<<u[i]<<"]"; return q.str(); }
  StartPointReader r(pf+"fail_start"); if(!xi){ if(r.readAndApply(&n)) return "a starting point is recorded though there is none"; } else if(!r.readAndApply(&n)) return "the record of the starting point is refused"; if(xi) for(int i=0;i<3;i++) if(n.problem()->x_init()[i]!=X[i]) return "the record gives another starting point"; if(pt>1){ if(!n.problem()->duals_init()) return "the record has no dual starting point"; for(int i=0;i<7;i++) if(n.problem()->duals_init()[i]!=y[i]) return "the record gives another dual starting point"; }
  if(named){ std::ifstream f((pf+"fail_bounds.mod").c_str()); std::string ln; int cnt=0,want=0; for(int i=0;i<3;i++) want+=(l[i]!=p.lb[i])+(u[i]!=p.ub[i]); while(std::getline(f,ln)){ cnt++; std::istringstream q(ln); std::string h,v,op,val; q>>h>>v>>op>>val; int i=v.size()==2?v[1]-'0':-1; if(i<0||i>2||v[0]!='v') return "the record names a variable "+v; double w=atof(val.c_str()); if((op==">="&&std::fabs(w-l[i])>1e-9)||(op=="<="&&std::fabs(w-u[i])>1e-9)||(op!=">="&&op!="<=")) return "the named record says "+ln; } if(cnt!=want) return "the named record has the wrong number of lines"; }
  o.outcome("record "+std::to_string(pt)); return ""; }
struct U { int kind; std::vector<int> v; int a,b,c; }; static std::vector<U> US;
static void seqs(int N,int L,bool distinct,std::vector<std::vector<int> >&r){ r.clear(); r.push_back({}); for(size_t k=0;k<r.size();k++) if((int)r[k].size()<L) for(int i=0;i<N;i++){ if(distinct&&std::find(r[k].begin(),r[k].end(),i)!=r[k].end()) continue; auto q=r[k]; q.push_back(i); r.push_back(q); } }
static long build(bool th){ US.clear(); std::vector<std::vector<int> > s; seqs(NBL,th?4:3,false,s); for(auto&v:s) for(int a=0;a<3;a++) for(int b=0;b<3;b++) if(th||(int)v.size()<3||a==b) US.push_back({0,v,a,b,0}); seqs(NNM,th?5:4,true,s); for(auto&v:s) US.push_back({1,v,0,0,0}); for(int a=0;a<6;a++) for(int b=0;b<4;b++) US.push_back({2,{},a,b,0}); for(int pat=0;pat<64;pat++) US.push_back({3,{},pat,0,0}); return US.size(); }
static std::string desc(long u){ const U&x=US[u]; std::ostringstream o; if(x.kind==0){ o<<"bounds file:"; for(int i:x.v) o<<" ["<<BL[i]<<"]"; o<<" separator "<<x.a<<" end "<<x.b; } else if(x.kind==1){ o<<"names file:"; for(int i:x.v) o<<" "<<NM[i]; } else if(x.kind==2) o<<"starting point file "<<x.a<<" layout "<<x.b; else o<<"record of a failed subproblem, bounds pattern "<<x.a; return o.str(); }
static void unit(bool,long u,Out&o){ const U&x=US[u]; Dir d; auto chk=[&](const std::string&e,const std::string&w){ o.add("transitions"); if(!e.empty()) o.fail(w+": "+e); return o.fails.size()<4; };
  if(x.kind==0){ std::string t; for(size_t k=0;k<x.v.size();k++) t+=(k?SEP[x.a]:"")+std::string(BL[x.v[k]]); if(!x.v.empty()) t+=END[x.b]; for(int m=0;m<3;m++) if(!chk(boundsUnit(t,m,o),"mode "+std::to_string(m))) return; for(size_t k=0;k<t.size();k++) if(!chk(boundsUnit(t.substr(0,k),0,o),"cut after "+std::to_string(k)+" characters")) return; if(x.v.size()<2){ for(const char*bad:{"LO -1 0","UP 3 1","XX 0 1","LO a 1"}){ if(!chk(boundsUnit(t+(t.empty()||t.back()=='\n'?"":"\n")+bad+"\n",0,o),bad)) return; }
      try{ BoundsReader br("nofile"); br.read(); chk("a missing bounds file was read","missing file"); }catch(CoinError&){} } }
  else if(x.kind==1){ for(int a=0;a<3;a++) for(int b=0;b<3;b++) for(int c=0;c<4;c++) if(!chk(namesUnit(x.v,a,b,c,o),"separator "+std::to_string(a)+" end "+std::to_string(b)+" name "+std::to_string(c))) return; }
  else if(x.kind==2){ static const int S[6][2]={{3,7},{3,0},{2,7},{3,6},{0,0},{4,8}}; std::ostringstream q; const char*sp=x.b==0?"\n":x.b==1?" ":x.b==2?"\t":"\r\n"; q<<S[x.a][0]<<sp<<S[x.a][1]; for(int i=0;i<S[x.a][0]+S[x.a][1];i++) q<<sp<<(i%3==0?-1.25*i:i%3==1?i+0.5:i*1e-3); q<<sp; std::string t=q.str(); for(int m=0;m<2;m++) if(!chk(startUnit(t,m,o),"whole")) return; for(size_t k=0;k<t.size();k++) if(!chk(startUnit(t.substr(0,k),k%2,o),"cut after "+std::to_string(k)+" characters")) return; chk(startUnit("-1 3 1 1 1",0,o),"negative count"); chk(startUnit("3 7 a b",0,o),"letters"); chk(startUnit("2000000000 2000000000 1",0,o),"huge counts"); StartPointReader r("nofile"); if(r.readFile()) chk("a missing starting point was read","missing file"); }
  else for(int v=0;v<4;v++) for(int pt=0;pt<3;pt++) for(int n=0;n<2;n++) for(int pr=0;pr<2;pr++){ unlink("fail.col"); unlink("fail_start"); unlink("pre.fail_start"); if(!chk(recordUnit(x.a,v,pt,n,pr,o),"values "+std::to_string(v)+" point "+std::to_string(pt)+" named "+std::to_string(n)+" prefix "+std::to_string(pr))) return; } }
int main(int c,char**v){ return stdMain(c,v,build,unit,[](bool,long u){ return desc(u); },60); }
