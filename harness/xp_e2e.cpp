#include "e2e.hpp"
using namespace vg; using namespace vr;
static std::vector<FamIdx> F; static std::string OPT;
int main(int c,char**v){
  OPT=getenv("OPTS")?getenv("OPTS"):"bonmin.algorithm B-BB\n"; for(size_t i=0;i<OPT.size();i++) if(OPT[i]==';') OPT[i]='\n'; OPT+="\n";
  return stdMain(c,v,[](bool th){ F=family(getenv("K")?atoi(getenv("K")):1); return (long)F.size(); },
   [](bool th,long u,Out&o){ Prob p=mk(F[u]); if(getenv("FORT")) p.fortran=true; RefPair ref=refPair(p); if(!ref.wellPosed){o.add("illposed");return;}
     o.add(ref.feas?"feasible":"infeasible"); Run r=solve(p,OPT); std::string e=judge(p,ref,r,2e-4,!getenv("SUB")); o.add("nodes",r.nodes); if(!e.empty()) o.fail(e); std::ostringstream s; s<<stName(r.mip)<<" "<<r.obj; o.outcome(s.str()); },
   [](bool th,long u){ return name(F[u]); },getenv("CPU")?atoi(getenv("CPU")):60);
}
