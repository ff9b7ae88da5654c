// Runtime-monitoring harness support: seeded workloads, oracles, crash isolation, measured coverage.
//
// A harness registers workload families with VF_FAMILY(name, quick, thorough).  Every family runs in
// child processes of its own: a sanitizer report, a signal or a hang is attributed to the case that was
// running, and the family carries on behind it.  The parent writes one JSON report with what the
// monitors observed (evaluations, distinct non-trivial cases, event counts, samples) and every failure.
#ifndef VF_H_
#define VF_H_
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#ifdef VF_MEMCHECK
#include <valgrind/valgrind.h>
#endif

namespace vf {

inline uint64_t mix(uint64_t x)
{
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline uint64_t hashs(const std::string& s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h);
}

class Rng
{
  uint64_t s;
public:
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t u64() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
  int i(int lo, int hi) { return lo + (int)(u64() % (uint64_t)(hi-lo+1)); }
  size_t z(size_t lo, size_t hi) { return lo + u64() % (hi-lo+1); }
  double u() { return (u64() >> 11) * (1.0/9007199254740992.0); }
  double r(double lo, double hi) { return lo + (hi-lo)*u(); }
  bool p(double prob) { return u() < prob; }
  //! A value of moderate size, every now and then a special one
  double v()
  {
    int k = i(0,11);
    if (k == 0) return 0.0;
    if (k == 1) return i(-3,3);
    if (k == 2) return r(-1.0,1.0)*1.0e-3;
    if (k == 3) return r(-1.0,1.0)*1.0e3;
    return r(-2.0,2.0);
  }
  std::vector<double> vec(size_t n) { std::vector<double> x(n); for (double& d : x) d = v(); return x; }
  template<class T> const T& pick(const std::vector<T>& x) { return x[u64() % x.size()]; }
  template<class T> T pick(std::initializer_list<T> x) { return *(x.begin() + u64() % x.size()); }
  template<class T> void shuffle(std::vector<T>& x)
  { for (size_t k = x.size(); k > 1; k--) std::swap(x[k-1],x[u64()%k]); }
};

inline std::string fmt(const char* f, ...)
{
  char buf[2048];
  va_list ap; va_start(ap,f); vsnprintf(buf,sizeof(buf),f,ap); va_end(ap);
  return buf;
}
template<class V> std::string str(const V& x, size_t maxn = 24)
{
  std::string s = "[";
  size_t n = 0;
  for (const auto& d : x)
    if (n++ < maxn) s += (n > 1 ? " " : "") + fmt("%.10g",(double)d);
  return s + (n > maxn ? fmt(" ..%zu",n) : "") + "]";
}

struct Shared { volatile long idx, evals, distinct, nfail; volatile int done; };

struct Fam
{
  std::string name;
  long quick, thorough;
  std::function<void(class Ctx&)> body;
};
inline std::vector<Fam>& families() { static std::vector<Fam> f; return f; }

class Ctx
{
public:
  Rng rng;
  long idx = 0;
  bool thorough = false, verbose = false;
  std::string fam, scratch;
  std::map<std::string,long> events;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> seen;
  std::map<std::string,long> nfail;
  FILE* out = nullptr;
  Shared* sh = nullptr;
  uint64_t dig = 0;
  bool nontrivial = false;
  std::string descr;

  void ev(const std::string& name, long n = 1) { events[name] += n; }
  //! Keep the largest observed value under this name
  void mx(const std::string& name, long n) { long& e = events["max:"+name]; if (n > e) e = n; }
  //! Adds to the digest that tells distinct cases apart
  template<class T> void d(const T& x) { std::ostringstream s; s.precision(15); s << x; dig = mix(dig ^ hashs(s.str())); }
  template<class T> void dv(const std::vector<T>& v) { for (const T& x : v) d(x); d(v.size()); }
  //! Declares the current case as non-trivial
  void nt() { nontrivial = true; }
  //! Describes the current case (used in samples and failure reports)
  void desc(const std::string& s) { descr = s; }

  void fail(const std::string& key, const std::string& msg)
  {
#ifdef VF_MEMCHECK
    // Valgrind emulates long double in 64 bits, so only what Memcheck itself reports is judged in its runs
    if (RUNNING_ON_VALGRIND && key.compare(0,8,"memcheck") != 0) return;
#endif
    if (verbose) fprintf(stdout,"FAIL %s: %s {%s}\n",key.c_str(),msg.c_str(),descr.c_str());
    sh->nfail++;
    if (nfail[key]++ < 3 && out)
    {
      std::string m = msg + (descr.empty() ? "" : " {" + descr + "}");
      for (char& c : m) if (c == '\n' || c == '\t') c = ' ';
      fprintf(out,"F\t%s\t%ld\t%s\n",key.c_str(),idx,m.substr(0,1500).c_str());
      fflush(out);
    }
  }
  bool check(bool ok, const std::string& key, const std::string& msg = "")
  {
    if (!ok) fail(key,msg.empty() ? key : msg);
    return ok;
  }
  template<class A, class B> bool eq(const A& a, const B& b, const std::string& key, const std::string& msg = "")
  {
    if (a == b) return true;
    std::ostringstream s; s << msg << " got " << a << " expected " << b;
    fail(key,s.str());
    return false;
  }
  //! Compares two numbers, relative to the given scale of the operands
  bool near(double a, double b, const std::string& key, double scale = 1.0, double tol = 1.0e-10, const std::string& msg = "")
  {
    if (std::fabs(a-b) <= tol*std::max(std::fabs(scale),std::max(std::fabs(a),std::fabs(b)))) return true;
    if (std::isnan(a) && std::isnan(b)) return true;
    fail(key,fmt("%s got %.15g expected %.15g (scale %.3g)",msg.c_str(),a,b,scale));
    return false;
  }
  template<class A, class B>
  bool nearv(const A& a, const B& b, const std::string& key, double scale = 1.0, double tol = 1.0e-10, const std::string& msg = "")
  {
    if (a.size() != b.size())
    { fail(key,fmt("%s size %zu expected %zu",msg.c_str(),(size_t)a.size(),(size_t)b.size())); return false; }
    double m = std::fabs(scale);
    for (double x : b) if (std::isfinite(x)) m = std::max(m,std::fabs(x));
    auto ia = a.begin(); auto ib = b.begin();
    for (size_t k = 0; ib != b.end(); ++ia, ++ib, ++k)
      if (!(std::fabs(*ia-*ib) <= tol*m) && !(std::isnan(*ia) && std::isnan(*ib)))
      {
        fail(key,fmt("%s [%zu] got %.15g expected %.15g (scale %.3g) in %s vs %s",msg.c_str(),k,
                     (double)*ia,(double)*ib,m,str(a).c_str(),str(b).c_str()));
        return false;
      }
    return true;
  }
};

struct Reg { Reg(const char* n, long q, long t, std::function<void(Ctx&)> b) { families().push_back({n,q,t,b}); } };

extern "C" void __gcov_dump() __attribute__((weak));
inline void covdump() { if (__gcov_dump) __gcov_dump(); }
//! Looks for errors reported by Memcheck since the last time
inline void memcheck(Ctx& c, const std::string& dir, long& seen, long& pos)
{
#ifdef VF_MEMCHECK
  if (!RUNNING_ON_VALGRIND) return;
  long n = VALGRIND_COUNT_ERRORS;
  std::ifstream is(fmt("%s/vg.%d",dir.c_str(),(int)getpid()).c_str()); is.seekg(pos); std::string line, kind, where, text; static bool other = false;
  auto report = [&]{ if (!kind.empty()) c.fail("memcheck:"+kind+":"+where,kind+" in "+where+text); kind.clear(); where.clear(); text.clear(); };
  if (n > seen || c.idx < 0)
    while (std::getline(is,line)) {
      size_t p = line.find("== "); std::string l = p == std::string::npos ? line : line.substr(p+3);
      if (l.compare(0,18,"Conditional jump o") == 0 || l.compare(0,9,"Use of un") == 0 || l.compare(0,8,"Invalid ") == 0 || l.compare(0,8,"Syscall ") == 0 ) { report(); kind = l; for (char& ch : kind) if (isdigit(ch)) ch = '#'; }
      else if (l.compare(0,10,"Mismatched") == 0) { report(); other = true; } // sized deallocation in Dune's allocators
      else if (!kind.empty() && l.compare(0,3,"   ") == 0 && text.size() < 600) {
        size_t q = l.find(": ");
        if (q != std::string::npos) { std::string f = l.substr(q+2); text += " < "+f; if (where.empty() && f.find("std::") != 0 && f.find("(in /usr") == std::string::npos) where = f.substr(0,f.find('(')); }
      }
    }
  report();
  if (n > seen && c.sh->nfail == 0 && !other) c.fail("memcheck","errors reported by Memcheck");
  is.clear(); is.seekg(0,std::ios::end); pos = is.tellg(); seen = n;
#endif
}
inline void onprof(int) { _exit(97); }
inline void onalrm(int) { _exit(96); }

inline std::string jstr(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char ch : s)
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32 || ch > 126) o += fmt("\\u%04x",ch);
    else o += ch;
  return o + "\"";
}

struct Job { size_t fam; pid_t pid; Shared* sh; std::string base; long from; int crashes, hangs; };

inline int run(int argc, char** argv, void (*init)(int,char**) = nullptr)
{
  uint64_t seed = 1; bool thorough = false; std::string report, only, dir = "/tmp"; long index = -1; int jobs = 8;
  double scale = 1.0;
  for (int k = 1; k < argc; k++) {
    std::string a = argv[k];
    auto next = [&]{ return std::string(k+1 < argc ? argv[++k] : ""); };
    if (a == "--seed") seed = strtoull(next().c_str(),nullptr,10);
    else if (a == "--thorough") thorough = true;
    else if (a == "--report") report = next();
    else if (a == "--family") only = next();
    else if (a == "--index") index = atol(next().c_str());
    else if (a == "--dir") dir = next();
    else if (a == "--jobs") jobs = atoi(next().c_str());
    else if (a == "--scale") scale = atof(next().c_str());
  }
  auto caseseed = [&](const Fam& f, long i) { return mix(mix(seed) ^ hashs(f.name) ^ mix(7919*(uint64_t)i+13)); };

  auto runfrom = [&](const Fam& f, Shared* sh, FILE* out, long from, long to, bool verbose, const std::string& scr) {
    Ctx c; c.fam = f.name; c.sh = sh; c.out = out; c.thorough = thorough; c.verbose = verbose; c.scratch = scr;
    mkdir(scr.c_str(),0700);
    if (init) init(argc,argv);
    long mseen = 0, mpos = 0; memcheck(c,dir,mseen,mpos);
    struct sigaction sa; memset(&sa,0,sizeof(sa));
    sa.sa_handler = onprof; sigaction(SIGPROF,&sa,nullptr);
    sa.sa_handler = onalrm; sigaction(SIGALRM,&sa,nullptr);
    for (long i = from; i < to; i++) {
      sh->idx = i;
      c.idx = i; c.rng = Rng(caseseed(f,i)); c.dig = hashs(f.name); c.nontrivial = false; c.descr.clear();
      if (!verbose) {
        struct itimerval tv = {{0,0},{90,0}}; setitimer(ITIMER_PROF,&tv,nullptr);
        alarm(300);
        // Keep the diagnostics of the library bounded; only the current case's are of interest
        fflush(stderr);
        struct stat st;
        if (fstat(2,&st) == 0 && S_ISREG(st.st_mode) && st.st_size > 65536)
        { if (ftruncate(2,0) == 0) lseek(2,0,SEEK_SET); }
      }
      try { f.body(c); }
      catch (const std::exception& e) { c.fail("exception",std::string("uncaught exception: ")+e.what()); }
      catch (...) { c.fail("exception","uncaught exception"); }
      memcheck(c,dir,mseen,mpos);
      sh->evals++;
      if (c.nontrivial && c.seen.insert(c.dig).second) {
        sh->distinct++;
        if (!c.descr.empty() && c.samples.size() < 4) c.samples.push_back(fmt("#%ld ",i)+c.descr.substr(0,300));
      }
    }
    alarm(0);
    if (out) {
      for (auto& e : c.events) fprintf(out,"E\t%s\t%ld\n",e.first.c_str(),e.second);
      for (auto s : c.samples) { for (char& ch : s) if (ch == '\n' || ch == '\t') ch = ' '; fprintf(out,"S\t%s\n",s.c_str()); }
      for (auto& e : c.nfail) if (e.second > 3) fprintf(out,"N\t%s\t%ld\n",e.first.c_str(),e.second-3);
      fflush(out);
    }
    sh->done = 1;
  };

  if (index >= 0) { // replay of one case, in this process
    for (const Fam& f : families())
      if (f.name == only) {
        Shared sh; memset(&sh,0,sizeof(sh));
        runfrom(f,&sh,nullptr,index,index+1,true,dir+"/replay.d");
        printf("REPLAY %s #%ld failures=%ld\n",f.name.c_str(),index,(long)sh.nfail);
        fflush(nullptr);
        covdump();
        _exit(sh.nfail ? 1 : 0);
      }
    fprintf(stderr,"no such family\n");
    return 3;
  }

  std::vector<Job> active;
  struct Res { long evals = 0, distinct = 0; std::vector<std::string> lines; };
  std::map<size_t,Res> res;
  std::vector<Job> queue;
  auto total = [&](size_t k) { long n = thorough ? families()[k].thorough : families()[k].quick;
                               return std::max(1L,(long)(n*scale)); };
  // Large families are split, so that all cores take part
  std::vector<std::pair<long,long>> range;
  struct Part { size_t fam; long from, to; };
  std::vector<Part> parts;
  for (size_t k = 0; k < families().size(); k++)
    if (only.empty() || families()[k].name == only) {
      long n = total(k), np = n >= 64 ? std::min(8L,n/16) : 1;
      for (long q = 0; q < np; q++) parts.push_back({k,n*q/np,n*(q+1)/np});
    }
  std::vector<Job> jobsv(parts.size());
  auto start = [&](size_t q, long from, int crashes, int hangs) {
    Job& j = jobsv[q];
    const Fam& f = families()[parts[q].fam];
    if (!j.sh || from == parts[q].from) {
      j.base = fmt("%s/p%zu",dir.c_str(),q);
      j.sh = (Shared*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    }
    j.fam = parts[q].fam; j.from = from; j.crashes = crashes; j.hangs = hangs;
    j.sh->done = 0; j.sh->idx = from;
    fflush(nullptr);
    j.pid = fork();
    if (j.pid == 0) {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(VF_MEMCHECK)
      struct rlimit lim = {4ul<<30,4ul<<30}; setrlimit(RLIMIT_AS,&lim); // runaway allocations fail here, and not in the whole sandbox
#endif
      int fd = open((j.base+".err").c_str(),O_RDWR|O_CREAT|O_TRUNC,0600); dup2(fd,2); close(fd);
      fd = open("/dev/null",O_WRONLY); dup2(fd,1); close(fd);
      FILE* o = fopen((j.base+".out").c_str(),"a");
      if (chdir(dir.c_str()) != 0) _exit(95);
      runfrom(f,j.sh,o,from,parts[q].to,false,j.base+".d");
      fclose(o);
      covdump();
      _exit(0);
    }
  };
  size_t nextp = 0; int running = 0;
  while (nextp < parts.size() || running > 0) {
    while (running < jobs && nextp < parts.size()) { jobsv[nextp].sh = nullptr; start(nextp,parts[nextp].from,0,0); nextp++; running++; }
    int st; pid_t pid = wait(&st);
    if (pid < 0) break;
    for (size_t q = 0; q < jobsv.size(); q++)
      if (jobsv[q].pid == pid) {
        Job& j = jobsv[q]; j.pid = 0; running--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && j.sh->done) continue;
        // The case j.sh->idx crashed or hung
        long bad = j.sh->idx;
        std::string kind, where, text;
        std::ifstream is((j.base+".err").c_str()); std::string line;
        auto inRepo = [](const std::string& l) { for (const char* d : {"src/ASM/","src/LinAlg/","src/SIM/","src/Utility/","src/Eig/","src/IFEM","Apps/Utils/","3rdparty/"}) { size_t e = l.find(d); if (e != std::string::npos) return l.substr(e,l.find(' ',e)-e); } return std::string(); };
        while (std::getline(is,line)) {
          size_t p;
          if (kind.empty() && (p = line.find("ERROR: AddressSanitizer: ")) != std::string::npos)
            kind = line.substr(p+25,line.find_first_of(" (",p+25)-p-25);
          else if (kind.empty() && (p = line.find("runtime error: ")) != std::string::npos) {
            kind = "ub";
            std::string loc = line.substr(0,p);
            if (loc.rfind('/') != std::string::npos) loc = loc.substr(loc.rfind('/')+1);
            if (loc.find(':') != std::string::npos) loc = loc.substr(0,loc.find(':'));
            text = line.substr(p+15,160);
          }
          else if (kind.empty() && line.find("WARNING: ThreadSanitizer: ") != std::string::npos)
            kind = "tsan:" + line.substr(line.find("Sanitizer: ")+11,line.find(" (",line.find("Sanitizer: "))-line.find("Sanitizer: ")-11);
          else if (kind.empty() && line.find("left out of this build") != std::string::npos) kind = "leftout";
          else if (kind.empty() && line.find("Assertion") != std::string::npos) { kind = "assert"; text = line.substr(0,200); }
          else if (kind.rfind("tsan:",0) == 0 && where.empty() && (p = line.find("    #")) == 0 && !inRepo(line).empty()) {
            where = line.substr(line.find(' ',5)+1); // "#0 function(arguments) /path/file.C:line"
            where = where.substr(0,where.find_first_of("(<",where.find("operator(") != std::string::npos ? where.find("operator(")+9 : 0));
            text = inRepo(line);
          }
          else if (!kind.empty() && where.empty() && (p = line.find(" in ")) != std::string::npos && line.find('#') != std::string::npos
                   && (line.find("src/ASM") != std::string::npos || line.find("src/LinAlg") != std::string::npos || line.find("src/SIM") != std::string::npos || line.find("src/Utility") != std::string::npos || line.find("src/Eig") != std::string::npos || line.find("src/IFEM") != std::string::npos || line.find("Apps/Utils") != std::string::npos || line.find("3rdparty") != std::string::npos)) {
            where = line.substr(p+4);
            where = where.substr(0,where.find_first_of("(<",where.rfind("operator(") == 0 ? 10 : 0));
          }
        }
        if (kind.empty()) {
          if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 96)) kind = "hang";
          else if (WIFSIGNALED(st)) kind = fmt("signal%d",WTERMSIG(st));
          else kind = fmt("exit%d",WIFEXITED(st) ? WEXITSTATUS(st) : -1);
        }
        while (!where.empty() && where.back() == ' ') where.pop_back();
        FILE* o = fopen((j.base+".out").c_str(),"a");
        if (kind == "hang" && j.hangs == 0) { // run it once more before believing it
          fprintf(o,"E\thang-retried\t1\n"); fclose(o);
          start(q,bad,j.crashes,1); running++;
          continue;
        }
        fprintf(o,"F\tcrash:%s:%s\t%ld\tprocess ended abnormally (%s) in %s %s\n",kind.c_str(),where.c_str(),bad,kind.c_str(),where.c_str(),text.c_str());
        fclose(o);
        j.sh->nfail++;
        if (bad+1 < parts[q].to && j.crashes < 3 && kind != "hang")
        { start(q,bad+1,j.crashes+1,0); running++; }
      }
  }
  for (size_t q = 0; q < jobsv.size(); q++) {
    Res& r = res[parts[q].fam];
    r.evals += jobsv[q].sh->evals; r.distinct += jobsv[q].sh->distinct;
    std::ifstream is((jobsv[q].base+".out").c_str()); std::string line;
    while (std::getline(is,line)) r.lines.push_back(line);
  }
  FILE* o = report.empty() ? stdout : fopen(report.c_str(),"w");
  fprintf(o,"{\"families\":[");
  bool first = true; long nf = 0;
  for (auto& [k,r] : res) {
    std::map<std::string,long> ev; std::vector<std::string> sm; std::map<std::string,long> extra;
    for (auto& l : r.lines) {
      std::vector<std::string> t; std::stringstream ss(l); std::string x;
      while (std::getline(ss,x,'\t')) t.push_back(x);
      if (t.size() >= 3 && t[0] == "E")
      { if (t[1].compare(0,4,"max:") == 0) ev[t[1]] = std::max(ev[t[1]],atol(t[2].c_str())); else ev[t[1]] += atol(t[2].c_str()); }
      else if (t.size() >= 2 && t[0] == "S" && sm.size() < 4) sm.push_back(t[1]);
      else if (t.size() >= 3 && t[0] == "N") extra[t[1]] += atol(t[2].c_str());
    }
    fprintf(o,"%s\n{\"name\":%s,\"evaluations\":%ld,\"distinct\":%ld,\"events\":{",first ? "" : ",",jstr(families()[k].name).c_str(),r.evals,r.distinct);
    bool f2 = true;
    for (auto& e : ev) { fprintf(o,"%s%s:%ld",f2 ? "" : ",",jstr(e.first).c_str(),e.second); f2 = false; }
    fprintf(o,"},\"samples\":["); f2 = true;
    for (auto& s : sm) { fprintf(o,"%s%s",f2 ? "" : ",",jstr(s).c_str()); f2 = false; }
    fprintf(o,"],\"failures\":["); f2 = true;
    for (auto& l : r.lines) {
      std::vector<std::string> t; std::stringstream ss(l); std::string x;
      while (std::getline(ss,x,'\t')) t.push_back(x);
      if (t.size() >= 3 && t[0] == "F") {
        fprintf(o,"%s{\"key\":%s,\"index\":%s,\"msg\":%s}",f2 ? "" : ",",jstr(t[1]).c_str(),t[2].c_str(),jstr(t.size() > 3 ? t[3] : "").c_str());
        f2 = false; nf++;
      }
    }
    fprintf(o,"]}"); first = false;
  }
  fprintf(o,"\n]}\n");
  if (o != stdout) fclose(o);
  return 0;
}

} // namespace vf

#define VF_CAT2(a,b) a##b
#define VF_CAT(a,b) VF_CAT2(a,b)
#define VF_FAMILY(name,quick,thorough) \
  static void VF_CAT(vf_fam_,name)(vf::Ctx& c); \
  static vf::Reg VF_CAT(vf_reg_,name)(#name,quick,thorough,VF_CAT(vf_fam_,name)); \
  static void VF_CAT(vf_fam_,name)(vf::Ctx& c)

#define VF_MAIN(init) \
  extern "C" __attribute__((no_sanitize("address","undefined","thread"),visibility("default"))) const char* __asan_default_options() \
  { return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=3000"; } \
  extern "C" __attribute__((no_sanitize("address","undefined","thread"),visibility("default"))) const char* __ubsan_default_options() \
  { return "print_stacktrace=1:halt_on_error=1"; } \
  extern "C" __attribute__((no_sanitize("address","undefined","thread"),visibility("default"))) const char* __tsan_default_options() \
  { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0"; } \
  int main(int argc, char** argv) { return vf::run(argc,argv,init); }
#endif
