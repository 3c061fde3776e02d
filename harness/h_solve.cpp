// Full solves of every instance of the family under every listed configuration, against brute force.
// VR_CONFIGS: file of lines "tier K options;options;..." ; pseudo options: @fortran @rev @dense (problem presentation),
// @allnl (all declared nonlinear) @shift=K (variables translated), @sub (sub-solves report through the user's callback too: judge its last call), @only=INSTANCE
#include "e2e.hpp"
using namespace vg; using namespace vr;
struct Cfg { int k; std::string opts,label; bool fort,rev,dense,sub,allnl; double shift; std::string only; };
static std::vector<Cfg> C; static std::vector<std::vector<FamIdx> > FAM; static std::vector<long> start;
static long build(bool th){
  C.clear(); start.clear(); FAM.clear(); std::ifstream is(getenv("VR_CONFIGS")); std::string l;
  while(std::getline(is,l)){ if(l.empty()||l[0]=='#') continue; std::istringstream ls(l); std::string tier; Cfg c; ls>>tier>>c.k; if(tier=="T"&&!th) continue; if(tier=="Q"&&th) continue;
    std::string rest; std::getline(ls,rest); size_t b=rest.find_first_not_of(' '); c.label=b==std::string::npos?"":rest.substr(b); c.fort=c.rev=c.dense=c.sub=c.allnl=false; c.shift=0;
    std::string o; std::istringstream os(c.label); std::string t; while(std::getline(os,t,';')){ size_t q=t.find_first_not_of(' '); if(q==std::string::npos) continue; t=t.substr(q); if(t=="@fortran") c.fort=true; else if(t=="@rev") c.rev=true; else if(t=="@dense") c.dense=true; else if(t=="@sub") c.sub=true; else if(t=="@allnl") c.allnl=true; else if(t.substr(0,7)=="@shift=") c.shift=atof(t.c_str()+7); else if(t.substr(0,6)=="@only=") c.only=t.substr(6); else c.opts+=t+"\n"; }
    C.push_back(c); }
  long n=0; for(size_t i=0;i<C.size();i++){ std::vector<FamIdx> f=family(C[i].k); if(!C[i].only.empty()){ std::vector<FamIdx> g; for(auto&x:f) if(name(x)==C[i].only) g.push_back(x); f=g; } FAM.push_back(f); start.push_back(n); n+=f.size(); } return n; }
static size_t which(long u){ size_t i=0; while(i+1<start.size()&&start[i+1]<=u) i++; return i; }
int main(int c,char**v){
  return stdMain(c,v,build,[](bool,long u,Out&o){
     size_t i=which(u); const FamIdx&f=FAM[i][u-start[i]]; Prob p=mk(f); if(C[i].shift!=0) p=shifted(p,C[i].shift); p.fortran=C[i].fort; p.allNl=C[i].allnl; p.lastBlockRev=C[i].rev; p.denseJac=C[i].dense;
     RefPair ref=refPair(p); if(!ref.wellPosed){o.add("ill_posed_skipped");return;}
     o.add("solves"); o.add(ref.feas?"feasible_instances":"infeasible_instances"); Run r=solve(p,C[i].opts); std::string e=judge(p,ref,r,2e-4,!C[i].sub);
     o.add("nodes",r.nodes); o.add("evaluations",r.t->nEval); if(r.nodes>0) o.add("solves_that_branched"); if(!e.empty()) o.fail(e);
     std::ostringstream s; s<<stName(r.mip)<<" "<<r.obj; o.outcome(s.str()); if(u%997==0){ std::ostringstream q; q<<C[i].label<<" on "<<name(f)<<" -> "<<s.str(); o.samples.push_back(q.str()); } },
   [](bool,long u){ size_t i=which(u); return "["+C[i].label+"] "+name(FAM[i][u-start[i]]); },getenv("CPU")?atoi(getenv("CPU")):20);
}
