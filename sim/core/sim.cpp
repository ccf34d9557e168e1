// Driver: seeded search over tapes, one forked child per run; gating, minimisation, replay files.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "simint.h"
#include <H5Cpp.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unordered_set>

namespace sim
{
bool thorough = false;
static const size_t MAXTAPE = 1 << 17, MAXCTR = 256, MAXSTATE = 8192;
struct Counter { char name[48]; uint64_t n; char kind; };
struct Shared
{
  volatile int done; // 1 finished, 2 violation
  char cls[160]; char detail[4096];
  uint64_t hash, evals, events; int nontrivial; double simtime;
  uint64_t tapeLen; int tapeOverflow;
  uint64_t nctr; Counter ctr[MAXCTR];
  uint64_t nstate; uint64_t states[MAXSTATE];
  uint64_t tape[MAXTAPE];
};
static Shared *sh;
static bool replaying = false; static const uint64_t *inTape = 0; static size_t inLen = 0; static uint64_t prng = 0;
static FILE *logf = 0; static bool logging = false; static char *logBuf = 0; static size_t logLen = 0, logCap = 0;
static std::string gProp;

static uint64_t sm(uint64_t &s) { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xFF51AFD7ED558CCDull; return h ^ (h >> 33); }
uint64_t hashd(double v) { if (v == 0) v = 0; uint64_t u; memcpy(&u, &v, 8); return u; }
static uint64_t hashs(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } return h; }

static bool echoing = false, echoShort = false; static size_t echoPos = 0, echoEnd = 0;
size_t tapeMark() { return sh->tapeLen; }
void echo(size_t from, size_t to) { echoing = true; echoShort = false; echoPos = from; echoEnd = to; }
bool echoDone() { bool all = echoing && !echoShort && echoPos == echoEnd; echoing = false; return all; }
void __attribute__((noinline, no_sanitize("address"))) stackFill(unsigned char b) { volatile unsigned char *p = (volatile unsigned char *)__builtin_alloca(100000); for (size_t i = 0; i < 100000; i++) p[i] = b; }
uint64_t choose(uint64_t n)
{
  if (n <= 1) return 0;
  uint64_t v;
  if (echoing) { if (echoPos >= echoEnd) { echoShort = true; return 0; } return sh->tape[echoPos++] % n; }
  if (replaying) v = sh->tapeLen < inLen ? inTape[sh->tapeLen] % n : 0;
  else v = sm(prng) % n;
  if (sh->tapeLen < MAXTAPE) sh->tape[sh->tapeLen++] = v; else { sh->tapeOverflow = 1; v = 0; }
  return v;
}
bool chance(double p) { if (p <= 0) return false; return choose(1 << 16) >= (uint64_t)((1 - p) * 65536); }
bool more(double p) { return chance(p); }
int range(int lo, int hi) { return lo + (int)choose((uint64_t)(hi - lo + 1)); }
double real(double lo, double hi) { return lo + (hi - lo) * (double)choose(4097) / 4096.0; }
size_t weighted(std::initializer_list<double> w)
{
  double t = 0; for (double x : w) t += x;
  double u = choose(1 << 20) / 1048576.0 * t; size_t i = 0, last = w.size() - 1;
  for (double x : w) { if (u < x || i == last) return i; u -= x; i++; }
  return last;
}
void ev(const char *f, ...)
{
  char b[1200]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  sh->hash = mix(sh->hash, hashs(b)); sh->events++;
  if (logging)
  {
    size_t n = strlen(b); if (logLen + n + 2 > logCap) { logCap = (logLen + n + 2) * 2; logBuf = (char *)realloc(logBuf, logCap); }
    memcpy(logBuf + logLen, b, n); logLen += n; logBuf[logLen++] = '\n';
  }
}
void evd(const char *w, double v) { ev("%s %.17g", w, v); }
static void count(const char *nm, char kind, uint64_t n)
{
  for (uint64_t i = 0; i < sh->nctr; i++) if (sh->ctr[i].kind == kind && !strncmp(sh->ctr[i].name, nm, 47)) { sh->ctr[i].n += n; return; }
  if (sh->nctr < MAXCTR) { Counter &c = sh->ctr[sh->nctr++]; strncpy(c.name, nm, 47); c.name[47] = 0; c.kind = kind; c.n = n; }
}
void fault(const char *k) { count(k, 'f', 1); ev("  FAULT %s", k); }
void probe(const char *k, uint64_t n) { count(k, 'p', n); }
void state(uint64_t h) { if (sh->nstate < MAXSTATE) sh->states[sh->nstate++] = h; }
void evaluation(uint64_t n) { sh->evals += n; }
void nontrivial() { sh->nontrivial = 1; }
std::string fmt(const char *f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
void violate(const std::string &c, const std::string &d) { Violation v; v.cls = c; v.detail = d; throw v; }

static std::vector<Workload> &wls() { static std::vector<Workload> v; return v; }
void registerWorkload(const Workload &w) { wls().push_back(w); }

// ---------------------------------------------------------------- running one tape
struct Result { int status; std::string cls, detail; uint64_t hash; std::vector<uint64_t> tape; std::string log; }; // status 0 ok 1 violation 2 internal
static std::string scratch; static int errFd = -1, logFd = -1;
static void wipe()
{
  DIR *d = opendir("."); if (!d) return;
  while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) syscall(SYS_unlink, e->d_name);
  closedir(d);
}
static bool crashed(int st, std::string &cls, std::string &det)
{
  std::string err; char b[4096]; lseek(errFd, 0, SEEK_SET); ssize_t n;
  while ((n = syscall(SYS_read, errFd, b, sizeof b)) > 0 && err.size() < 200000) err.append(b, n);
  size_t p = err.find("ERROR: AddressSanitizer: ");
  if (p != std::string::npos)
  {
    std::string what = err.substr(p + 25); what = what.substr(0, what.find_first_of(" \n"));
    cls = "crash:" + what;
    // first frame in the library
    size_t q = p; std::string where;
    while ((q = err.find("\n    #", q + 1)) != std::string::npos)
    {
      std::string line = err.substr(q + 1, err.find('\n', q + 1) - q - 1);
      if (line.find("/src/") != std::string::npos && line.find("/verif/") == std::string::npos && line.find("compiler-rt") == std::string::npos)
      { size_t i = line.find(" in "); where = i == std::string::npos ? line : line.substr(i + 4); size_t pth = where.find(" /"); if (pth != std::string::npos) where = where.substr(0, pth); break; }
    }
    det = "AddressSanitizer " + what + (where.empty() ? "" : " in " + where);
    return true;
  }
  if (WIFSIGNALED(st)) { cls = WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? "hang" : fmt("crash:signal-%d", WTERMSIG(st)); det = "process ended by signal " + fmt("%d", WTERMSIG(st)); if (WTERMSIG(st) == SIGABRT && err.find("terminate called") != std::string::npos) { cls = "crash:terminate"; det = err.substr(err.find("terminate called"), 200); } return true; }
  cls = fmt("crash:exit-%d", WEXITSTATUS(st)); det = "process exited " + err.substr(0, 300); return true;
}
static double lastCpu = 0; // of the last run
static Result runOne(const Workload &w, bool rep, const std::vector<uint64_t> *tape, uint64_t seed, bool log)
{
  wipe();
  memset(sh, 0, offsetof(Shared, ctr)); sh->nstate = 0;
  if (ftruncate(errFd, 0)) {} lseek(errFd, 0, SEEK_SET);
  if (ftruncate(logFd, 0)) {} lseek(logFd, 0, SEEK_SET);
  pid_t pid = fork();
  if (pid == 0)
  {
    int nul = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0); dup2(nul, 1); dup2(errFd, 2);
    struct rlimit rl; rl.rlim_cur = thorough ? 20 : 10; rl.rlim_max = 60; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 256u << 20; setrlimit(RLIMIT_FSIZE, &rl);
    replaying = rep; prng = seed; if (tape) { inTape = tape->data(); inLen = tape->size(); }
    logging = log; now = 1500000000.0; sh->hash = 88172645463325252ull;
    H5::Exception::dontPrint();
    setActive(true);
    double t0 = now;
    try { w.run(); sh->done = 1; }
    catch (Violation &v) { snprintf(sh->cls, sizeof sh->cls, "%s", v.cls.c_str()); snprintf(sh->detail, sizeof sh->detail, "%s", v.detail.c_str()); ev("VIOLATION %s: %s", v.cls.c_str(), v.detail.c_str()); sh->done = 2; }
    // an exception no workload expected: the code under test threw where it never does (nothing in the workloads throws one by itself)
    catch (std::exception &e) { snprintf(sh->cls, sizeof sh->cls, "unexpected-exception"); snprintf(sh->detail, sizeof sh->detail, "%s", e.what()); ev("VIOLATION unexpected-exception: %s", e.what()); sh->done = 2; }
    catch (H5::Exception &e) { snprintf(sh->cls, sizeof sh->cls, "unexpected-exception"); snprintf(sh->detail, sizeof sh->detail, "H5 %s", e.getCDetailMsg()); ev("VIOLATION unexpected-exception: H5 %s", e.getCDetailMsg()); sh->done = 2; }
    catch (...) { snprintf(sh->cls, sizeof sh->cls, "unexpected-exception"); snprintf(sh->detail, sizeof sh->detail, "not a std::exception"); ev("VIOLATION unexpected-exception"); sh->done = 2; }
    setActive(false);
    sh->simtime = now - t0;
    if (logging) { size_t o = 0; while (o < logLen) { ssize_t k = syscall(SYS_write, logFd, logBuf + o, logLen - o); if (k <= 0) break; o += k; } }
    syscall(SYS_exit_group, 0);
  }
  int st = 0; struct rusage ru; memset(&ru, 0, sizeof ru); while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {}
  lastCpu = ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + 1e-6 * (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec);
  Result r; r.status = 0; r.hash = sh->hash;
  r.tape.assign(sh->tape, sh->tape + sh->tapeLen);
  if (!sh->done || !WIFEXITED(st) || WEXITSTATUS(st)) { r.status = 1; crashed(st, r.cls, r.detail); r.hash = mix(r.hash, hashs(r.cls.c_str())); }
  else if (sh->done == 2) { r.status = 1; r.cls = sh->cls; r.detail = sh->detail; }
  else if (sh->done == 3) { r.status = 2; r.cls = sh->cls; r.detail = sh->detail; }
  if (sh->tapeOverflow) { r.status = 2; r.cls = "tape-overflow"; }
  if (log) { lseek(logFd, 0, SEEK_SET); char b[8192]; ssize_t n; while ((n = syscall(SYS_read, logFd, b, sizeof b)) > 0) r.log.append(b, n); }
  return r;
}

// ---------------------------------------------------------------- minimisation
static size_t gTries = 0;
static std::vector<uint64_t> minimise(const Workload &w, std::vector<uint64_t> t, const std::string &cls, double budget)
{
  double end = wallSeconds() + budget;
  auto ok = [&](const std::vector<uint64_t> &c, std::vector<uint64_t> &used) { gTries++; Result r = runOne(w, true, &c, 0, false); if (r.status == 1 && r.cls == cls) { used = r.tape; return true; } return false; };
  std::vector<uint64_t> u;
  if (ok(t, u)) t = u;
  bool changed = true;
  while (changed && wallSeconds() < end)
  {
    changed = false;
    for (size_t blk = std::max<size_t>(1, t.size() / 2); blk >= 1 && wallSeconds() < end; blk /= 2)
    {
      for (size_t i = 0; i + blk <= t.size() && wallSeconds() < end;)
      {
        std::vector<uint64_t> c(t.begin(), t.begin() + i); c.insert(c.end(), t.begin() + i + blk, t.end());
        if (ok(c, u) && (u.size() < t.size())) { t = u; changed = true; } else i += blk;
      }
      for (size_t i = 0; i + blk <= t.size() && wallSeconds() < end; i += blk)
      {
        bool z = true; for (size_t j = i; j < i + blk; j++) if (t[j]) z = false;
        if (z) continue;
        std::vector<uint64_t> c = t; for (size_t j = i; j < i + blk; j++) c[j] = 0;
        if (ok(c, u) && (u.size() < t.size() || (u.size() == t.size() && u < t))) { t = u; changed = true; }
      }
      if (blk == 1) break;
    }
    for (size_t i = 0; i < t.size() && wallSeconds() < end; i++)
    {
      uint64_t lo = 0, hi = t[i];
      while (lo < hi && wallSeconds() < end)
      {
        uint64_t m = lo + (hi - lo) / 2; std::vector<uint64_t> c = t; c[i] = m;
        if (m < t[i] && ok(c, u) && u.size() <= t.size() && u.size() > i && u[i] <= m) { if (u != t) changed = true; t = u; hi = m; } else lo = m + 1;
        if (i >= t.size()) break;
      }
    }
  }
  return t;
}

static std::string jesc(const std::string &s)
{
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += c; }
  return o;
}
static const Workload *find(const std::string &n) { for (auto &w : wls()) if (n == w.name) return &w; return 0; }
static void writeFile(const std::string &p, const std::string &s) { std::ofstream f(p.c_str()); f << s; }

static void setup(const std::string &dir)
{
  scratch = dir; mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) { perror("scratch"); exit(2); }
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  errFd = memfd_create("err", 0); logFd = memfd_create("log", 0);
  // warm the library up once so that every child starts from the same state
  { H5::Exception::dontPrint(); H5::DataSpace d(H5S_SCALAR); H5::StrType t(H5::PredType::C_S1, 8); }
}
}
using namespace sim;

int main(int argc, char **argv)
{
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC"))
  {
    setenv("SIM_NOREEXEC", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> o; std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  thorough = o["--tier"] == "thorough";
  if (mode == "list") { for (auto &w : wls()) printf("%s %s %g %s\n", w.property, w.name, w.weight, w.rule); return 0; }
  std::string dir = o["--scratch"];
  if (mode == "search")
  {
    std::string prop = o["--prop"], out = o["--out"]; uint64_t seed = strtoull(o["--seed"].c_str(), 0, 10);
    long wi = atol(o["--worker"].c_str()), wn = atol(o["--workers"].c_str()); double secs = atof(o["--secs"].c_str()); long maxRuns = atol(o["--runs"].c_str());
    std::vector<std::string> known; { std::ifstream kf(o["--known"].c_str()); std::string l; while (std::getline(kf, l)) if (!l.empty()) known.push_back(l); }
    bool hashes = o.count("--hashes"); std::ofstream hf; if (hashes) hf.open(o["--hashes"].c_str());
    setup(dir);
    std::vector<Workload> my; double tot = 0; for (auto &w : wls()) if (prop == w.property && (o["--workload"].empty() || o["--workload"] == w.name)) { my.push_back(w); tot += std::max(0.0, w.weight); }
    if (my.empty()) { fprintf(stderr, "no workloads for %s\n", prop.c_str()); return 2; }
    double t0 = wallSeconds(); long runs = 0, nontriv = 0, knownHits = 0; uint64_t evals = 0, events = 0; double simt = 0;
    std::map<std::string, uint64_t> faults, probes, perWl; std::unordered_set<uint64_t> states, hist; std::map<std::string, long> knownCls;
    double slow = 0; long slowRun = -1; std::vector<std::string> samples; int nviol = 0, unrepro = 0; std::string err; uint64_t tapeSum = 0;
    for (long r = wi; (maxRuns <= 0 || r < maxRuns) && wallSeconds() - t0 < secs; r += wn)
    {
      uint64_t s = mix(mix(seed * 0x9E3779B97F4A7C15ull + 1, hashs(prop.c_str())), (uint64_t)r);
      uint64_t ws = s; double u = (sm(ws) >> 11) / 9007199254740992.0 * tot; size_t k = 0; while (k + 1 < my.size() && (my[k].weight <= 0 || u >= my[k].weight)) { u -= std::max(0.0, my[k].weight); k++; }
      // a workload with a negative weight is expensive: it gets the first -weight runs of the search and no others
      { double before = 0; for (size_t i = 0; i < my.size(); i++) if (my[i].weight < 0) { if (r >= before && r < before - my[i].weight) k = i; before -= my[i].weight; } }
      const Workload &w = my[k];
      bool keep = samples.size() < 2 && wi == 0;
      Result res = runOne(w, false, 0, s, keep);
      if (lastCpu > slow) { slow = lastCpu; slowRun = r; }
      if (hashes) hf << r << " " << w.name << " " << std::hex << res.hash << std::dec << " " << res.status << " " << res.cls << "\n";
      runs++; nontriv += sh->nontrivial; evals += sh->evals; events += sh->events; simt += sh->simtime; perWl[w.name]++; tapeSum += sh->tapeLen;
      for (uint64_t i = 0; i < sh->nctr; i++) (sh->ctr[i].kind == 'f' ? faults : probes)[sh->ctr[i].name] += sh->ctr[i].n;
      for (uint64_t i = 0; i < sh->nstate; i++) states.insert(sh->states[i]);
      hist.insert(res.hash);
      if (keep && !res.log.empty()) samples.push_back(fmt("run %ld workload %s seed %llu: ", r, w.name, (unsigned long long)s) + res.log.substr(0, 500));
      if (res.status == 2) { err = res.cls + ": " + res.detail + fmt(" (run %ld workload %s)", r, w.name); break; }
      if (res.status == 1)
      {
        // gate: the same seed twice, then the recorded tape
        Result a = runOne(w, false, 0, s, false), b = runOne(w, true, &res.tape, 0, false);
        if (a.hash != res.hash || a.cls != res.cls || b.hash != res.hash || b.cls != res.cls) { err = fmt("not reproducible: run %ld workload %s class %s/%s/%s", r, w.name, res.cls.c_str(), a.cls.c_str(), b.cls.c_str()); if (++unrepro > 20) break; continue; }
        bool isKnown = false; for (auto &kl : known) if (kl == res.cls) isKnown = true;
        if (isKnown) { knownHits++; knownCls[res.cls]++; continue; }
        std::vector<uint64_t> m = minimise(w, res.tape, res.cls, atof(o.count("--minsecs") ? o["--minsecs"].c_str() : "20"));
        Result fin = runOne(w, true, &m, 0, true);
        if (fin.status != 1 || fin.cls != res.cls) { err = "minimised tape does not fail"; break; }
        std::string js = "{\n \"property\": \"" + prop + "\",\n \"workload\": \"" + w.name + "\",\n \"class\": \"" + jesc(fin.cls) + "\",\n \"detail\": \"" + jesc(fin.detail) + "\",\n \"hash\": \"" + fmt("%016llx", (unsigned long long)fin.hash) + "\",\n";
        js += fmt(" \"verif_seed\": %llu,\n \"run\": %ld,\n \"run_seed\": \"%016llx\",\n \"original_choices\": %zu,\n \"minimised_choices\": %zu,\n \"tape\": [", (unsigned long long)seed, r, (unsigned long long)s, res.tape.size(), m.size());
        for (size_t i = 0; i < m.size(); i++) js += (i ? "," : "") + fmt("%llu", (unsigned long long)m[i]);
        js += "],\n \"trace\": [\n"; std::istringstream is(fin.log); std::string l; bool first = true; size_t nl = 0;
        while (std::getline(is, l) && nl++ < 400) { js += (first ? "  \"" : ",\n  \"") + jesc(l) + "\""; first = false; }
        js += "\n ]\n}\n";
        writeFile(out + fmt("/violation_%ld_%d.json", wi, nviol), js);
        nviol++; err.clear(); break;
      }
    }
    std::string js = fmt("{\"runs\":%ld,\"nontrivial\":%ld,\"known_hits\":%ld,\"evaluations\":%llu,\"events\":%llu,\"simtime\":%.3f,\"choices\":%llu,\"slowest_cpu\":%.2f,\"slowest_run\":%ld,\"violations\":%d,\"wall\":%.3f,\"minimiser_runs\":%zu,\"error\":\"%s\"", runs, nontriv, knownHits, (unsigned long long)evals, (unsigned long long)events, simt, (unsigned long long)tapeSum, slow, slowRun, nviol, wallSeconds() - t0, gTries, jesc(err).c_str());
    auto dump = [&](const char *n, std::map<std::string, uint64_t> &m) { js += std::string(",\"") + n + "\":{"; bool f = true; for (auto &kv : m) { js += (f ? "\"" : ",\"") + jesc(kv.first) + "\":" + fmt("%llu", (unsigned long long)kv.second); f = false; } js += "}"; };
    dump("faults", faults); dump("probes", probes); dump("workloads", perWl);
    js += ",\"known\":{"; { bool f = true; for (auto &kv : knownCls) { js += (f ? "\"" : ",\"") + jesc(kv.first) + "\":" + fmt("%ld", kv.second); f = false; } } js += "}";
    js += ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) js += (i ? ",\"" : "\"") + jesc(samples[i]) + "\""; js += "]";
    js += ",\"states\":["; size_t c = 0; for (uint64_t s : states) { if (c++ >= 200000) break; js += (c > 1 ? "," : "") + fmt("%llu", (unsigned long long)(s & 0xffffffffffffull)); } js += "]";
    js += fmt(",\"histories\":%zu}", hist.size());
    writeFile(out + fmt("/worker_%ld.json", wi), js);
    wipe(); if (chdir("/")) {} rmdir(dir.c_str());
    return err.empty() ? (nviol ? 1 : 0) : 2;
  }
  if (mode == "replay")
  {
    std::ifstream f(o["--file"].c_str()); std::stringstream ss; ss << f.rdbuf(); std::string j = ss.str();
    auto str = [&](const char *k) { size_t p = j.find("\"" + std::string(k) + "\":"); if (p == std::string::npos) return std::string(); p = j.find('"', p + strlen(k) + 3) + 1; std::string v; while (p < j.size() && j[p] != '"') { if (j[p] == '\\') p++; v += j[p++]; } return v; };
    std::vector<uint64_t> t; size_t p = j.find("\"tape\":"); p = j.find('[', p) + 1; while (p < j.size() && j[p] != ']') { char *e; t.push_back(strtoull(&j[p], &e, 10)); p = e - &j[0]; if (j[p] == ',') p++; }
    const Workload *w = find(str("workload")); if (!w) { fprintf(stderr, "unknown workload %s\n", str("workload").c_str()); return 2; }
    std::string cls = str("class"), hash = str("hash");  thorough = thorough || cls == "memory-leaked-after-failure"; // looked for by the thorough tier alone
    setup(dir);
    Result r = runOne(*w, true, &t, 0, true);
    std::string h = fmt("%016llx", (unsigned long long)r.hash);
    if (!o.count("--quiet")) fputs(r.log.c_str(), stdout);
    printf("replay: status=%d class=%s hash=%s\n", r.status, r.cls.c_str(), h.c_str());
    if (r.status == 1) printf("detail: %s\n", r.detail.c_str());
    wipe(); if (chdir("/")) {} rmdir(dir.c_str());
    if (r.status == 1 && r.cls == cls && h == hash) { puts("REPRODUCED"); return 1; }
    if (r.status == 0) { puts("NO VIOLATION"); return 0; }
    puts("DIFFERENT"); return 3;
  }
  fprintf(stderr, "usage: simrun list|search|replay ...\n");
  return 2;
}
