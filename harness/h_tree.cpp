// BUILD: -fno-access-control
// Every history (up to a depth) of what branch-and-bound can do with a search tree, on the real tree classes:
// take the next node, branch on it (child fathomed / same bound / worse bound / a solution is found and the tree is
// pruned), change the diving mode, copy the tree. After every history the tree is drained and compared with a
// multiset reference: nothing open may be lost, duplicated, or hidden from the reported bound.
#include "BonDiver.hpp"
#include "BonBonminSetup.hpp"
#include "BonCbc.hpp"
#include "CbcModel.hpp"
#include "CbcNode.hpp"
#include "CbcNodeInfo.hpp"
#include "CbcCompareObjective.hpp"
#include "CbcCompareDepth.hpp"
#include "CbcCompareDefault.hpp"
#include "CbcCompareEstimate.hpp"
#include "OsiClpSolverInterface.hpp"
#include "runner.hpp"
#include <unordered_set>
using namespace vr; using namespace Bonmin;
struct Info:CbcNodeInfo{ Info():CbcNodeInfo(){} virtual void applyToModel(CbcModel*,CoinWarmStartBasis*&,CbcCountRowCut**,int&)const{} virtual CbcNodeInfo*clone()const{return new Info(*this);} virtual CbcNodeInfo*buildRowBasis(CoinWarmStartBasis&)const{return NULL;} virtual int applyBounds(int,double&,double&,int){return 0;} };
static CbcNodeInfo*rootInfo(){ static Info*r=NULL; if(!r){ r=new Info; r->numberPointingToThis_=1000000000; } return r; }
struct Br:OsiBranchingObject{ Br(){ numberBranches_=2; branchIndex_=0; } virtual OsiBranchingObject*clone()const{return new Br(*this);} virtual double branch(OsiSolverInterface*){branchIndex_++;return 0;} };
struct N{ CbcNode*c; double obj; int depth,left; bool out; };
struct Cfg{ int type; int cmp; bool stop; int maxDepth,maxBack; bool dynamic; };
static std::vector<Cfg> CF;
static const char*TN[]={"plain","dive","probed","dfs"}; static const char*CN[]={"bound","depth","default","estimate"};
static const int NCH=4; // child outcomes
struct Sim{
  CbcModel*model; CbcTree*t; Cfg c; std::vector<N> nodes; double cutoff; int cur; bool dead; std::string err; DiverCompare*dc; std::vector<CbcTree*> trash; long steps;
  Sim(CbcModel*m,const Cfg&cc,const std::vector<CbcTree*>&proto):model(m),c(cc),cutoff(1e50),cur(-1),dead(false),dc(NULL),steps(0){
    t=proto[0]->clone(); trash.push_back(t); setCmp(); int r=mk(0.,0); push(r); }
  ~Sim(){ for(auto&n:nodes) if(n.c){ n.c->nodeInfo_=NULL; } for(auto x:trash){ delete x; } delete dc; }
  CbcCompareBase*base(int k){ switch(k){case 0:return new CbcCompareObjective; case 1:return new CbcCompareDepth; case 2:return new CbcCompareDefault; default:return new CbcCompareEstimate;} }
  void setCmp(){ if(c.dynamic){ delete dc; dc=new DiverCompare; CbcCompareBase*a=base(c.cmp),*b=base(0); dc->setComparisonDive(*a); dc->setComparisonBound(*b); delete a; delete b; dc->setDiver(dynamic_cast<CbcDfsDiver*>(t)); t->setComparison(*dc); } else { CbcCompareBase*a=base(c.cmp); static std::vector<CbcCompareBase*> keep; keep.push_back(a); if(keep.size()>64){ delete keep[0]; keep.erase(keep.begin()); } t->setComparison(*a); } }
  int mk(double obj,int depth){ N n; n.c=new CbcNode; n.c->setObjectiveValue(obj); n.c->setGuessedObjectiveValue(obj+0.5); n.c->setDepth(depth); n.c->setNumberUnsatisfied(3); n.c->setActive(true); n.c->branch_=new Br; Info*i=new Info; i->numberPointingToThis_=1; i->numberBranchesLeft_=2; i->owner_=n.c; i->parent_=rootInfo(); n.c->nodeInfo_=i; n.obj=obj; n.depth=depth; n.left=2; n.out=false; nodes.push_back(n); return (int)nodes.size()-1; }
  void push(int k){ nodes[k].out=false; if(c.type==0) t->push(nodes[k].c); else t->push(nodes[k].c); }
  int find(CbcNode*p){ for(size_t i=0;i<nodes.size();i++) if(nodes[i].c==p) return i; return -1; }
  int openCount(bool certain){ int k=0; for(auto&n:nodes) if(!n.out&&n.c&&(!certain||n.obj<cutoff-1e-9)) k++; return k; }
  void check(const char*w){ if(!err.empty()) return; double mn=1e90; int must=0,may=0; for(auto&n:nodes) if(!n.out&&n.c){ may++; if(n.obj<cutoff){ must++; mn=std::min(mn,n.obj);} }
    int s=t->size(); bool e=t->empty(); double b=t->getBestPossibleObjective(); std::ostringstream o;
    if(s<must||s>may) o<<w<<": tree reports "<<s<<" nodes, "<<must<<".."<<may<<" are open";
    else if(e!=(s==0)) o<<w<<": emptiness disagrees with size "<<s;
    else if(must&&b>mn+1e-9) o<<w<<": reported bound "<<b<<" above the bound "<<mn<<" of an open node";
    else if(must&&b<mn-1e-9) { bool other=false; for(auto&n:nodes) if(!n.out&&n.c&&fabs(n.obj-b)<1e-9) other=true; if(!other) o<<w<<": reported bound "<<b<<" is of no open node (min "<<mn<<")"; }
    err=o.str(); }
  // reference state: the multiset of open subproblems, the cutoff and the mode (what the property can observe)
  unsigned long long state(){ std::vector<int> v; for(auto&n:nodes) if(!n.out&&n.c) v.push_back(((int)n.obj*64+n.depth)*4+n.left); std::sort(v.begin(),v.end()); CbcDfsDiver*d=dynamic_cast<CbcDfsDiver*>(t); v.push_back(d?(int)d->getComparisonMode():9); v.push_back(cutoff>1e20?99:(int)cutoff); unsigned long long h=1469598103934665603ull; for(int x:v){ h^=(unsigned)x; h*=1099511628211ull; h^=h>>29; } return h; }
  void take(double cut){ CbcNode*p=t->bestNode(cut); steps++; cur=-1; if(!p){ for(auto&n:nodes) if(!n.out&&n.c&&n.obj<cut-1e-9){ std::ostringstream o; o<<"no node returned while a node of bound "<<n.obj<<" below the cutoff "<<cut<<" is open"; err=o.str(); } dead=true; return; }
    int k=find(p); if(k<0){ err="a node was returned that is not open"; return; } if(nodes[k].out){ err="a node was returned twice"; return; } if(nodes[k].left<=0){ err="returned node has no branch left"; return; }
    nodes[k].out=true; cur=k; }
  void clean(){ double best=0; double before=1e90; for(auto&n:nodes) if(!n.out&&n.c&&n.obj<cutoff) before=std::min(before,n.obj); std::vector<char> openBefore(nodes.size()); 
    model->lastDepth_=1; model->currentDepth_=0; model->lastNodeInfo_[0]=rootInfo(); model->lastNumberCuts_[0]=0; t->cleanTree(model,cutoff,best); steps++; for(auto&n:nodes) if(!n.out&&n.c&&n.obj>=cutoff){ n.c=NULL; } // deleted by the tree
    if(before<1e80&&best>before+1e-9){ std::ostringstream o; o<<"pruning reported best bound "<<best<<" above open node "<<before; err=o.str(); } }
  bool step(int op){ // op: 0..3 child outcome ; 4..7 set mode ; 8 copy
    if(op<NCH){
      take(cutoff); if(!err.empty()||dead) return err.empty();
      int x=cur; N&n=nodes[x]; n.left--; n.c->branch_->branchIndex_++; n.c->nodeInfo_->numberBranchesLeft_--; double ob=n.obj; int dp=n.depth; bool alive=n.left>0; if(alive) push(x); else { delete n.c->branch_; n.c->branch_=NULL; n.c->nodeInfo_=NULL; n.c=NULL; }
      steps++;
      if(op==1&&ob<cutoff) push(mk(ob,dp+1)); else if(op==2){ if(ob+2<cutoff) push(mk(ob+2,dp+1)); } else if(op==3){ cutoff=std::min(cutoff,ob+1); if(c.dynamic) { } clean(); }
    } else if(op<8){ CbcDfsDiver*d=dynamic_cast<CbcDfsDiver*>(t); if(!d||!c.dynamic) return false; if(d->getComparisonMode()==(CbcDfsDiver::ComparisonModes)(op-4)) return false; d->setComparisonMode((CbcDfsDiver::ComparisonModes)(op-4)); steps++; }
    else { CbcTree*u=t->clone(); trash.push_back(u); CbcTree*old=t; t=u; (void)old; setCmp(); steps++; }
    check("after a step"); return err.empty(); }
  void drain(int how){ // 0: bestNode, 1: top/pop, 2: prune everything at the cutoff then bestNode
    if(!err.empty()) return; int guard=0;
    if(how==1){ while(!t->empty()&&guard++<200){ CbcNode*p=t->top(); if(!p){ t->pop(); continue; } t->pop(); int k=find(p); if(k<0||nodes[k].out){ err="top of the tree is not an open node"; return; } nodes[k].out=true; } }
    else { if(how==2) { clean(); check("after pruning"); if(!err.empty()) return; } while(guard++<200){ take(cutoff); if(!err.empty()||dead) break; nodes[cur].left=1; } }
    if(!err.empty()) return; for(auto&n:nodes) if(!n.out&&n.c&&n.obj<cutoff-1e-9){ std::ostringstream o; o<<"an open node of bound "<<n.obj<<" depth "<<n.depth<<" was lost"; err=o.str(); }
    if(how==1&&!t->empty()) err="tree never becomes empty"; }
};
static void cfgs(bool th){ CF.clear(); for(int ty=1;ty<=3;ty++) for(int cm=0;cm<4;cm++) for(int s=0;s<(ty==3?1:2);s++) { if(ty<3){ Cfg c={ty,cm,s!=0,1000,5,false}; CF.push_back(c);} else for(int md=0;md<3;md++) for(int mb=0;mb<3;mb++) for(int dy=0;dy<2;dy++){ if(!th&&cm>=2&&(md||mb)) continue; Cfg c={3,cm,false,md==2?1000:md,mb==2?5:mb,dy!=0}; CF.push_back(c);} } }
static const int SPLIT=4; // first ops of the history are part of the unit number
static std::string cname(const Cfg&c){ std::ostringstream o; o<<TN[c.type]<<" tree, "<<CN[c.cmp]<<" order"<<(c.stop?", stop_diving_on_cutoff":""); if(c.type==3) o<<", max_dive_depth "<<c.maxDepth<<", max_backtracks "<<c.maxBack<<(c.dynamic?", dynamic modes":""); return o.str(); }
static std::string hist(const std::vector<int>&h){ static const char*n[]={"fathom","child","worse-child","solution","mode-enlarge","mode-find","mode-close-bound","mode-limit-size","copy"}; std::string r; for(int x:h) r+=std::string(r.empty()?"":",")+n[x]; return r; }
int main(int c,char**v){
  return stdMain(c,v,[](bool th){ cfgs(th); return (long)CF.size()*NCH; },
   [](bool th,long u,Out&o){
     const Cfg&cf=CF[u/NCH]; int first=u%NCH; int D=th?8:7;
     BonminSetup b; b.initializeOptionsAndJournalist(); std::ostringstream os; os<<"print_level 0\nstop_diving_on_cutoff "<<(cf.stop?"yes":"no")<<"\nmax_dive_depth "<<cf.maxDepth<<"\nmax_backtracks_in_dive "<<cf.maxBack<<"\n"; b.readOptionsString(os.str());
     std::vector<CbcTree*> proto; if(cf.type==1){ CbcDiver*d=new CbcDiver; d->initialize(b); proto.push_back(d);} else if(cf.type==2){ CbcProbedDiver*d=new CbcProbedDiver; d->initialize(b); proto.push_back(d);} else { CbcDfsDiver*d=new CbcDfsDiver; d->initialize(b); proto.push_back(d);} 
     OsiClpSolverInterface clp; clp.messageHandler()->setLogLevel(0); double z=0,one=1; clp.addCol(0,NULL,NULL,0.,1.,1.); clp.setInteger(0); clp.initialSolve(); CbcModel model(clp); model.setLogLevel(0); model.findIntegers(true);
     model.emptyWarmStart_=clp.getEmptyWarmStart(); model.maximumDepth_=64; model.walkback_=new CbcNodeInfo*[64]; model.lastNodeInfo_=new CbcNodeInfo*[64]; model.lastNumberCuts_=new int[64]; model.maximumCuts_=8; model.lastCut_=new const OsiRowCut*[8]; model.maximumNumberCuts_=8; model.addedCuts_=new CbcCountRowCut*[8]; 
     // depth-first over histories, each replayed from the start
     std::vector<int> h(1,first); long hs=0,steps=0; int maxop=cf.dynamic?9:NCH+1; std::unordered_set<unsigned long long> seen;
     std::function<void()> rec=[&](){ bool ok=true,dead=false; int hows=(h.size()<=4||th)?3:1;
        for(int how=0;how<hows;how++){ if(getenv("VR_VERBOSE")) fprintf(stderr,"H %d %s\n",how,hist(h).c_str()); Sim s(&model,cf,proto); s.check("at the start"); bool valid=true; for(int x:h){ int op=(!cf.dynamic&&x==NCH)?8:x; if(!s.step(op)){ if(s.err.empty()) valid=false; break; } if(s.dead) break; }
          if(!valid) return; steps+=s.steps; dead=s.dead; if(how==0&&s.err.empty()) seen.insert(s.state()); if(s.err.empty()) s.drain(how); if(!s.err.empty()){ std::vector<int> hh=h; for(auto&x:hh) if(!cf.dynamic&&x==NCH) x=8; o.fail(cname(cf)+": ["+hist(hh)+"] drained "+(how==0?"by taking nodes":how==1?"from the top":"after pruning")+": "+s.err); ok=false; break; } }
        hs++; if((int)h.size()>=D||dead||!ok||o.fails.size()>=5) return;
        for(int op=0;op<maxop;op++){ h.push_back(op); rec(); h.pop_back(); } };
     rec(); o.add("histories",hs); o.add("states",seen.size()); o.add("transitions",steps); o.outcome(std::to_string(u)+":"+std::to_string(hs)); if(u%41==0) o.samples.push_back(cname(cf)+": "+std::to_string(hs)+" histories from "+hist(std::vector<int>(1,first)));
   },[](bool,long u){ return cname(CF[u/NCH])+" from "+hist(std::vector<int>(1,u%NCH)); },600);
}
