// Exhaustive unit runner: units 0..N-1 are each executed in a forked child (fresh process state, so a
// unit is deterministic and replayable); crashes and CPU-time overruns are replayed alone before being reported.
#ifndef VRUN_HPP
#define VRUN_HPP
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <poll.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <fstream>
#include <sstream>
#include <iostream>

namespace vr {
struct Out {            // what one unit reports
  std::vector<std::string> fails; // "key|message": key identifies the history
  std::map<std::string,long> cnt; // counters, summed over units
  std::set<std::string> outcomes; // distinct observed outcomes
  std::vector<std::string> samples;
  void fail(const std::string&s){ if(fails.size()<20) fails.push_back(s); cnt["failures"]++; }
  void add(const std::string&k,long v=1){ cnt[k]+=v; }
  void outcome(const std::string&s){ if(outcomes.size()<2000) outcomes.insert(s); }
  std::string ser()const{ std::string r; for(auto&f:fails){ std::string t=f; for(auto&c:t) if(c=='\n') c=' '; r+="F "+t+"\n"; } for(auto&c:cnt) r+="C "+c.first+" "+std::to_string(c.second)+"\n"; for(auto&o:outcomes) r+="O "+o+"\n"; for(auto&s:samples) r+="S "+s+"\n"; return r+"END\n"; }
  bool parse(const std::string&s){ std::istringstream is(s); std::string l; bool end=false; while(std::getline(is,l)){ if(l=="END"){end=true;break;} if(l.size()<2) continue; std::string b=l.substr(2); if(l[0]=='F') fails.push_back(b); else if(l[0]=='C'){ size_t q=b.rfind(' '); cnt[b.substr(0,q)]+=atol(b.c_str()+q+1);} else if(l[0]=='O') outcomes.insert(b); else if(l[0]=='S') samples.push_back(b);} return end; }
  void merge(const Out&o,size_t maxs=6){ for(auto&c:o.cnt) cnt[c.first]+=c.second; for(auto&x:o.outcomes) outcome(x); for(auto&s:o.samples) if(samples.size()<maxs) samples.push_back(s); }
};
typedef std::function<void(long,Out&)> UnitFn;
typedef std::function<std::string(long)> DescFn;

struct Child { pid_t pid; int fd; long unit; std::string buf; };
inline Child spawn(long u,const UnitFn&fn,int cpu){
  int pp[2]; if(pipe(pp)) { perror("pipe"); exit(3); }
  fflush(stdout); fflush(stderr);
  pid_t pid=fork(); if(pid<0){perror("fork");exit(3);}
  if(pid==0){
    close(pp[0]); if(!getenv("VR_VERBOSE")){ int dn=open("/dev/null",O_WRONLY); dup2(dn,1); dup2(dn,2); }
    struct rlimit rl; rl.rlim_cur=cpu; rl.rlim_max=cpu+5; setrlimit(RLIMIT_CPU,&rl); rl.rlim_cur=rl.rlim_max=0; setrlimit(RLIMIT_CORE,&rl);
    Out o; std::string exc;
    try { fn(u,o); } catch(const char*s){ exc=s; } catch(std::exception&e){ exc=e.what(); } catch(...){ exc="unknown exception"; }
    if(!exc.empty()) o.fail("uncaught exception escaped the unit: "+exc);
    std::string s=o.ser(); size_t off=0; while(off<s.size()){ ssize_t k=write(pp[1],s.data()+off,s.size()-off); if(k<=0) break; off+=k; }
    _exit(0);
  }
  close(pp[1]); Child c; c.pid=pid;c.fd=pp[0];c.unit=u; return c; }
inline std::string finish(Child&c,Out&o){ // waits; returns "" or crash description
  int st=0; waitpid(c.pid,&st,0); close(c.fd);
  bool ok=o.parse(c.buf);
  if(WIFSIGNALED(st)){ int sg=WTERMSIG(st); if(sg==SIGXCPU||sg==SIGKILL) return "HANG (CPU limit)"; return std::string("CRASH signal ")+strsignal(sg); }
  if(!ok) return "CRASH exit status "+std::to_string(WEXITSTATUS(st));
  return ""; }
inline std::string runAlone(long u,const UnitFn&fn,int cpu,Out&o){ Child c=spawn(u,fn,cpu); char b[65536]; ssize_t k; while((k=read(c.fd,b,sizeof b))>0) c.buf.append(b,k); return finish(c,o); }

struct Fail { long unit; std::string msg; };
struct Total { Out out; std::vector<Fail> fails; std::vector<Fail> known; long units; long unreproduced; bool budgetHit; };
// histories listed in the known-findings file (one description per line); they are run like all others
inline std::set<std::string> knownSet(){ std::set<std::string> k; const char*f=getenv("VR_KNOWN"); if(f){ std::ifstream is(f); std::string l; while(std::getline(is,l)) if(!l.empty()) k.insert(l); } return k; }

inline Total runAll(long N,const UnitFn&fn,const DescFn&desc,int cpu=60,int jobs=8,size_t maxFails=10){
  std::set<std::string> K=knownSet(); Total t; t.units=0; t.budgetHit=false; std::vector<Child> live; long next=0;
  std::vector<std::pair<long,std::string> > crashed;
  std::vector<std::pair<long,Out> > failing;
  while(next<N||!live.empty()){
    while(next<N&&(int)live.size()<jobs&&crashed.size()+failing.size()<maxFails) live.push_back(spawn(next++,fn,cpu));
    if(live.empty()) break;
    std::vector<struct pollfd> pf(live.size()); for(size_t i=0;i<live.size();i++){pf[i].fd=live[i].fd;pf[i].events=POLLIN;pf[i].revents=0;}
    poll(&pf[0],pf.size(),1000);
    for(size_t i=live.size();i-->0;) if(pf[i].revents){ char b[65536]; ssize_t k=read(live[i].fd,b,sizeof b); if(k>0) live[i].buf.append(b,k); else {
        Out o; std::string cr=finish(live[i],o); t.units++;
        bool kn=(!cr.empty()||!o.fails.empty())&&K.count(desc(live[i].unit));
        if(kn){ Fail f; f.unit=live[i].unit; f.msg=cr.empty()?o.fails[0]:cr; t.known.push_back(f); }
        else if(!cr.empty()) crashed.push_back(std::make_pair(live[i].unit,cr));
        else if(!o.fails.empty()) failing.push_back(std::make_pair(live[i].unit,o));
        t.out.merge(o); live.erase(live.begin()+i); } }
    if(crashed.size()+failing.size()>=maxFails&&live.empty()) break;
  }
  if(next<N) t.budgetHit=true;
  // replay alone before report; a failure that does not reproduce is an error of the harness, not a violation
  size_t confirmed=0; t.unreproduced=0;
  for(auto&c:crashed){ if(confirmed>=4) break; Out o; std::string cr=runAlone(c.first,fn,cpu*2,o); size_t before=t.fails.size(); if(!cr.empty()){ Fail f; f.unit=c.first; f.msg=cr; t.fails.push_back(f);} else for(auto&m:o.fails){ Fail f; f.unit=c.first; f.msg=m; t.fails.push_back(f);} if(t.fails.size()>before) confirmed++; else t.unreproduced++; }
  for(auto&c:failing){ if(confirmed>=20&&!getenv("VR_MAXFAILS")) break; Out o; std::string cr=runAlone(c.first,fn,cpu*2,o); size_t before=t.fails.size(); if(!cr.empty()){ Fail f; f.unit=c.first; f.msg=cr; t.fails.push_back(f);} else { std::set<std::string> again(o.fails.begin(),o.fails.end()); for(auto&m:c.second.fails) if(again.count(m)){ Fail f; f.unit=c.first; f.msg=m; t.fails.push_back(f);} } if(t.fails.size()>before) confirmed++; else t.unreproduced++; }
  return t; }

inline std::string jesc(const std::string&s){ std::string r; for(char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }
inline void report(const Total&t,const DescFn&d,long N){
  std::ostringstream o; o<<"{\"units\":"<<t.units<<",\"units_total\":"<<N<<",\"complete\":"<<(t.units==N?"true":"false")<<",\"unreproduced\":"<<t.unreproduced<<",\"counters\":{"; bool f=true; for(auto&c:t.out.cnt){ o<<(f?"":",")<<"\""<<jesc(c.first)<<"\":"<<c.second; f=false; } o<<"},\"distinct_outcomes\":"<<t.out.outcomes.size()<<",\"outcomes_sample\":["; f=true; int k=0; for(auto&x:t.out.outcomes){ if(k++>=8) break; o<<(f?"":",")<<"\""<<jesc(x)<<"\""; f=false; } o<<"],\"samples\":["; f=true; for(auto&s:t.out.samples){ o<<(f?"":",")<<"\""<<jesc(s)<<"\""; f=false; } o<<"],\"fails\":["; f=true; for(auto&x:t.fails){ o<<(f?"":",")<<"{\"unit\":"<<x.unit<<",\"desc\":\""<<jesc(d(x.unit))<<"\",\"msg\":\""<<jesc(x.msg)<<"\"}"; f=false; } o<<"],\"known\":["; f=true; for(auto&x:t.known){ o<<(f?"":",")<<"{\"unit\":"<<x.unit<<",\"desc\":\""<<jesc(d(x.unit))<<"\",\"msg\":\""<<jesc(x.msg)<<"\"}"; f=false; } o<<"]}"; printf("RESULT %s\n",o.str().c_str()); fflush(stdout); }
// standard main: argv: [quick|thorough] or "unit <k> <tier>" to replay one
inline int stdMain(int argc,char**argv,const std::function<long(bool thorough)>&count,const std::function<void(bool,long,Out&)>&fn,const std::function<std::string(bool,long)>&desc,int cpu=60){
  std::string a=argc>1?argv[1]:"quick";
  if(a=="unit"){ bool th=argc>3&&std::string(argv[3])=="thorough"; long u=atol(argv[2]); Out o; count(th); std::string cr=runAlone(u,[&](long k,Out&oo){fn(th,k,oo);},cpu*4,o); printf("unit %ld: %s\n",u,desc(th,u).c_str()); if(!cr.empty()) printf("%s\n",cr.c_str()); for(auto&f:o.fails) printf("FAIL %s\n",f.c_str()); for(auto&s:o.samples) printf("S %s\n",s.c_str()); for(auto&s:o.outcomes) printf("O %s\n",s.c_str()); return (!cr.empty()||!o.fails.empty())?1:0; }
  bool th=a=="thorough"; long N=count(th); int jobs=8; if(getenv("VERIF_JOBS")) jobs=atoi(getenv("VERIF_JOBS"));
  long from=0; (void)from; size_t mf=10; if(getenv("VR_MAXFAILS")) mf=atoi(getenv("VR_MAXFAILS"));
  Total t=runAll(N,[&](long k,Out&oo){fn(th,k,oo);},[&](long k){return desc(th,k);},cpu,jobs,mf);
  report(t,[&](long k){return desc(th,k);},N); return t.fails.empty()?0:1; }
}
#endif
