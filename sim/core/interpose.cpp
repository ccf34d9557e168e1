// Seams: disk system calls, clock, allocator, random numbers.  Everything the library (and HDF5 and
// libstdc++ under it) asks of the outside world passes through the functions in this file.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "simint.h"
#include <TRandom3.h>
#include <TStopwatch.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <dirent.h>
#include <sys/time.h>
#include <sys/file.h>
#include <time.h>
#include <math.h>
#include <malloc.h>
#include <new>
#include <algorithm>

namespace sim
{
// ================================================================ clock
double now = 1500000000.0;
static bool gActive = false;
void setActive(bool b) { gActive = b; }
void advance(double dt) { now += dt; }

// ================================================================ allocator
static uint64_t gAllocs = 0; static long gLive = 0; static int gPause = 0;
static int64_t gCountdown = -1; static bool gSticky = false, gFiredAlloc = false;
static unsigned char gFill = 0;
uint64_t allocCount() { return gAllocs; }
long liveAllocs() { return gLive; }
void allocPause(bool b) { gPause += b ? 1 : -1; }
AllocFault::AllocFault(uint64_t k, bool sticky) { gCountdown = (int64_t)k; gSticky = sticky; gFiredAlloc = false; }
AllocFault::~AllocFault() { gCountdown = -1; gSticky = false; }
bool AllocFault::fired() const { return gFiredAlloc; }
void heapFill(unsigned char b) { gFill = b; }
static bool allocFails()
{
  if (gPause) return false;
  gAllocs++;
  if (gCountdown < 0) return false;
  if (gSticky && gFiredAlloc) return true;
  if (gCountdown > 0 && --gCountdown == 0) { gFiredAlloc = true; if (!gSticky) gCountdown = -1; return true; }
  return false;
}
// what a function's static variables take on first use is kept for good: it is not counted as live
static int gStatics = 0; static void *gKept[256]; static unsigned nKept = 0;
static void keep(void *p) { if (nKept < 256) gKept[nKept++] = p; else gLive++; }
static bool wasKept(void *p) { for (unsigned i = 0; i < nKept; i++) if (gKept[i] == p) { gKept[i] = gKept[--nKept]; return true; } return false; }
static std::vector<void *> gHoles;
void heapJitter(unsigned n)
{
  NoAllocFault g;
  for (size_t i = 0; i < gHoles.size(); i++) free(gHoles[i]);
  gHoles.clear();
  std::vector<void *> tmp;
  for (unsigned i = 0; i < n; i++) { void *p = malloc(16 + (i * 48) % 640); if (i % 3) tmp.push_back(p); else gHoles.push_back(p); }
  for (size_t i = 0; i < tmp.size(); i++) free(tmp[i]);
}
static void *simNew(size_t n)
{
  if (allocFails()) { fault("alloc-failure"); throw std::bad_alloc(); }
  if (n > (size_t)1 << 31) throw std::bad_alloc();
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (gFill) memset(p, gFill, n);
  if (gStatics) keep(p); else gLive++;
  return p;
}
static void simDelete(void *p) { if (!p) return; if (!nKept || !wasKept(p)) gLive--; free(p); }
}
extern "C" // through the linker's --wrap
{
int __real___cxa_guard_acquire(void *g);
void __real___cxa_guard_release(void *g);
void __real___cxa_guard_abort(void *g);
int __wrap___cxa_guard_acquire(void *g) { int r = __real___cxa_guard_acquire(g); if (r) sim::gStatics++; return r; }
void __wrap___cxa_guard_release(void *g) { sim::gStatics--; __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(void *g) { sim::gStatics--; __real___cxa_guard_abort(g); }
}
void *operator new(size_t n) { return sim::simNew(n); }
void *operator new[](size_t n) { return sim::simNew(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return sim::simNew(n); } catch (...) { return 0; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return sim::simNew(n); } catch (...) { return 0; } }
void operator delete(void *p) noexcept { sim::simDelete(p); }
void operator delete[](void *p) noexcept { sim::simDelete(p); }
void operator delete(void *p, size_t) noexcept { sim::simDelete(p); }
void operator delete[](void *p, size_t) noexcept { sim::simDelete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::simDelete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::simDelete(p); }

extern "C" int posix_memalign(void **out, size_t al, size_t n) // armadillo's element storage
{
  if (sim::gActive && sim::allocFails()) { sim::fault("alloc-failure"); return ENOMEM; }
  void *p = memalign(al, n ? n : 1);
  if (!p) return ENOMEM;
  if (sim::gFill) memset(p, sim::gFill, n);
  *out = p;
  return 0;
}

// ================================================================ clock symbols
extern "C" time_t time(time_t *t)
{
  time_t r = sim::gActive ? (time_t)sim::now : (time_t)sim::wallSeconds();
  if (t) *t = r;
  return r;
}
extern "C" int gettimeofday(struct timeval *tv, void *)
{
  double s = sim::gActive ? sim::now : sim::wallSeconds();
  tv->tv_sec = (time_t)s; tv->tv_usec = (suseconds_t)((s - floor(s)) * 1e6);
  return 0;
}
extern "C" int clock_gettime(clockid_t id, struct timespec *ts)
{
  if (!sim::gActive) return (int)syscall(SYS_clock_gettime, id, ts);
  ts->tv_sec = (time_t)sim::now; ts->tv_nsec = (long)((sim::now - floor(sim::now)) * 1e9);
  return 0;
}
namespace sim
{
double wallSeconds() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
}
void TStopwatch::Start(bool) { fStart = sim::now; }
double TStopwatch::RealTime() { return sim::now - fStart; }

// ================================================================ random numbers
namespace sim
{
RngMode rngMode = RNG_SEEDED;
uint64_t rngDraws = 0;
std::vector<RngRecord> *rngTrace = 0;
static uint64_t gUuid = 0;
static uint64_t splitmix(uint64_t &s) { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
void rngRec(char k, double a, double b, double v) { if (rngTrace) { NoAllocFault g; RngRecord r = {k, a, b, v}; rngTrace->push_back(r); } }
static int rngNest = 0;
}
TRandom::TRandom(unsigned seed) { SetSeed(seed); }
void TRandom::SetSeed(unsigned long seed)
{
  if (seed == 0) seed = 0x5EED0000ul + ++sim::gUuid; // ROOT: a unique seed; here the simulator owns uniqueness
  fSeed = (unsigned)seed; fState = seed * 0xD1342543DE82EF95ull + 12345;
}
unsigned TRandom::GetSeed() const { return fSeed; }
double TRandom::Rndm()
{
  sim::rngDraws++;
  uint64_t z = sim::splitmix(fState);
  double u = ((z >> 32) + 0.5) / 4294967296.0; // open interval, 32 bit as TRandom3
  if (sim::rngMode == sim::RNG_EXTREME)
    switch (z & 7) { case 0: u = 0.5 / 4294967296.0; break; case 1: u = 1 - 0.5 / 4294967296.0; break; default: break; }
  if (!sim::rngNest) sim::rngRec('U', 0, 0, u);
  return u;
}
double TRandom::Gaus(double mean, double sigma)
{
  sim::rngNest++; double u = Rndm(), v = Rndm(); sim::rngNest--;
  double z = sqrt(-2 * log(u)) * cos(2 * M_PI * v);
  double r = mean + sigma * z; sim::rngRec('G', mean, sigma, r); return r;
}
int TRandom::Poisson(double mean)
{
  if (mean <= 0) { sim::rngRec('P', mean, 0, 0); return 0; }
  int n;
  sim::rngNest++;
  if (mean < 50) { double l = exp(-mean), p = 1; n = -1; do { n++; p *= Rndm(); } while (p > l && n < 1000); }
  else { double u = Rndm(), v = Rndm(); n = (int)floor(mean + sqrt(mean) * sqrt(-2 * log(u)) * cos(2 * M_PI * v) + 0.5); if (n < 0) n = 0; }
  sim::rngNest--;
  sim::rngRec('P', mean, 0, n); return n;
}
unsigned TRandom::Integer(unsigned imax) { return (unsigned)(imax * Rndm()); }
double TRandom::Exp(double tau) { return -tau * log(Rndm()); }

// ================================================================ disk
namespace sim { namespace disk {
struct FdInfo { bool used; bool sync; bool wrote; char path[96]; };
static FdInfo gFd[4096];
static bool gArmed = false, gHard = false, gBenign = false, gRecord = false;
static Plan gPlan; static long gCount[NOPS]; static long gBenignCtr = 0;
static std::vector<Rec> gLog;
Plan::Plan() : shortReads(false), shortWrites(false), eintr(false), spaceLeft(-1)
{ for (int i = 0; i < NOPS; i++) { failAt[i] = -1; err[i] = EIO; sticky[i] = false; } }
static const char *opName[] = {"open", "read", "write", "truncate", "close", "sync", "lock", "stat", "seek", "rename"};
std::string path(const std::string &n) { return n; }
void reset() { NoAllocFault g; gLog.clear(); gArmed = gRecord = gHard = gBenign = false; }
void arm(const Plan &p) { gPlan = p; gArmed = true; gHard = gBenign = false; gBenignCtr = 0; for (int i = 0; i < NOPS; i++) gCount[i] = 0; }
void disarm() { gArmed = false; }
bool hardFired() { return gHard; }
bool benignFired() { return gBenign; }
long count(Op o) { return gCount[o]; }
void record(bool on) { NoAllocFault g; gRecord = on; if (on) gLog.clear(); }
const std::vector<Rec> &log() { return gLog; }
static bool mine(const char *p) { return gActive && p && p[0] != '/' && p[0] != 0; }
static bool tracked(int fd) { return fd >= 0 && fd < 4096 && gFd[fd].used; }
static void track(int fd, const char *p) { if (fd >= 0 && fd < 4096) { gFd[fd].used = true; gFd[fd].wrote = false; snprintf(gFd[fd].path, sizeof gFd[fd].path, "%s", p); } }
static void rec(int op, const char *p, long off, const void *d, long n)
{
  if (!gRecord) return;
  NoAllocFault g; Rec r; r.op = op; r.path = p; r.off = off; r.len = n;
  if (d) r.data.assign((const char *)d, (const char *)d + n);
  gLog.push_back(r);
}
// does this operation fail?  returns errno or 0
static int fails(int op)
{
  if (!gArmed) return 0;
  long k = gCount[op]++;
  if (gPlan.failAt[op] >= 0 && (k == gPlan.failAt[op] || (gPlan.sticky[op] && k > gPlan.failAt[op])))
  {
    gHard = true; char nm[64]; snprintf(nm, sizeof nm, "disk-%s-%s", opName[op], gPlan.err[op] == ENOSPC ? "ENOSPC" : gPlan.err[op] == EIO ? "EIO" : "err"); fault(nm);
    return gPlan.err[op];
  }
  return 0;
}
static bool interrupted() { if (!gArmed || !gPlan.eintr) return false; if (++gBenignCtr % 3 == 1) { gBenign = true; fault("disk-EINTR"); return true; } return false; }
static size_t shortened(size_t n, bool on, const char *nm)
{
  if (!gArmed || !on || n < 2) return n;
  size_t k = n / 2 + (n % 5 == 0 ? 1 : 0); if (k >= n) k = n - 1; if (n > 4096 && (++gBenignCtr % 2)) k = n - 1;
  gBenign = true; fault(nm); return k;
}
static ssize_t doRead(int fd, void *b, size_t n, long off, bool pos)
{
  if (interrupted()) { errno = EINTR; return -1; }
  if (int e = fails(READ)) { errno = e; return -1; }
  n = shortened(n, gPlan.shortReads, "disk-short-read");
  return pos ? syscall(SYS_pread64, fd, b, n, off) : syscall(SYS_read, fd, b, n);
}
static ssize_t doWrite(int fd, const void *b, size_t n, long off, bool pos)
{
  if (interrupted()) { errno = EINTR; return -1; }
  if (int e = fails(WRITE)) { errno = e; return -1; }
  n = shortened(n, gPlan.shortWrites, "disk-short-write");
  if (gArmed && gPlan.spaceLeft >= 0)
  {
    if (gPlan.spaceLeft == 0 && n) { gHard = true; fault("disk-full"); errno = ENOSPC; return -1; }
    if ((long)n > gPlan.spaceLeft) n = gPlan.spaceLeft;
    gPlan.spaceLeft -= n;
  }
  long at = pos ? off : (long)syscall(SYS_lseek, fd, 0, SEEK_CUR);
  ssize_t r = pos ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
  if (r > 0) { gFd[fd].wrote = true; rec(WRITE, gFd[fd].path, at, b, r); }
  return r;
}
// a close that fails tells that what was written before did not all reach the disk (delayed allocation, quotas, network file systems)
static void lateLoss(int fd)
{
  off_t end = (off_t)syscall(SYS_lseek, fd, 0, SEEK_END); if (!gFd[fd].wrote || end < 2) return;
  syscall(SYS_ftruncate, fd, end / 2); rec(TRUNC, gFd[fd].path, 0, 0, end / 2); fault("disk-late-loss");
}
static int opened(const char *p, int flags, mode_t m, int dirfd)
{
  if (!mine(p)) return (int)syscall(SYS_openat, dirfd, p, flags, m);
  if (int e = fails(OPEN)) { errno = e; return -1; }
  int fd = (int)syscall(SYS_openat, dirfd, p, flags, m);
  if (fd >= 0) { track(fd, p); if (flags & (O_TRUNC | O_CREAT)) rec(OPEN, p, 0, 0, (flags & O_TRUNC) ? 0 : -1); }
  return fd;
}
std::vector<char> contents(const std::string &n)
{
  NoAllocFault g; std::vector<char> v; int fd = (int)syscall(SYS_openat, AT_FDCWD, n.c_str(), O_RDONLY, 0);
  if (fd < 0) return v;
  char buf[65536]; ssize_t k; while ((k = syscall(SYS_read, fd, buf, sizeof buf)) > 0) v.insert(v.end(), buf, buf + k);
  syscall(SYS_close, fd); return v;
}
void setContents(const std::string &n, const std::vector<char> &v)
{
  int fd = (int)syscall(SYS_openat, AT_FDCWD, n.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  size_t o = 0; while (fd >= 0 && o < v.size()) { ssize_t k = syscall(SYS_write, fd, &v[o], v.size() - o); if (k <= 0) break; o += k; }
  syscall(SYS_close, fd);
}
bool exists(const std::string &n) { return syscall(SYS_access, n.c_str(), F_OK) == 0; }
std::map<std::string, std::vector<char>> image(const std::map<std::string, std::vector<char>> &base, size_t n, long torn)
{
  NoAllocFault g; std::map<std::string, std::vector<char>> fs = base;
  for (size_t i = 0; i < gLog.size() && i <= n; i++)
  {
    const Rec &r = gLog[i];
    if (i == n) // the torn operation
    {
      if (r.op == WRITE && torn > 0) { std::vector<char> &f = fs[r.path]; long k = std::min<long>(torn, r.len); if ((long)f.size() < r.off + k) f.resize(r.off + k); memcpy(&f[r.off], &r.data[0], k); }
      break;
    }
    if (r.op == 100) { std::string to(r.data.begin(), r.data.end()); std::vector<char> c = fs[r.path]; fs.erase(r.path); fs[to] = c; }
    else if (r.op == 101) fs.erase(r.path);
    else
    {
      std::vector<char> &f = fs[r.path];
      if (r.op == OPEN) { if (r.len == 0) f.clear(); }
      else if (r.op == WRITE) { if ((long)f.size() < r.off + r.len) f.resize(r.off + r.len); if (r.len) memcpy(&f[r.off], &r.data[0], r.len); }
      else if (r.op == TRUNC) f.resize(r.len);
    }
  }
  return fs;
}
std::map<std::string, std::vector<char>> snapshot()
{
  NoAllocFault g; std::map<std::string, std::vector<char>> m; DIR *d = opendir("."); if (!d) return m;
  while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) m[e->d_name] = contents(e->d_name);
  closedir(d); return m;
}
void restore(const std::map<std::string, std::vector<char>> &m)
{
  NoAllocFault g; std::map<std::string, std::vector<char>> old = snapshot();
  for (auto &kv : old) if (!m.count(kv.first)) syscall(SYS_unlink, kv.first.c_str());
  for (auto &kv : m) setContents(kv.first, kv.second);
}
}}
using namespace sim::disk;
extern "C" {
int open(const char *p, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return opened(p, f, m, AT_FDCWD); }
int open64(const char *p, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return opened(p, f, m, AT_FDCWD); }
int openat(int d, const char *p, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return opened(p, f, m, d); }
int creat(const char *p, mode_t m) { return opened(p, O_CREAT | O_WRONLY | O_TRUNC, m, AT_FDCWD); }
static FILE *fopened(const char *p, const char *mode, const char *sym)
{
  typedef FILE *(*F)(const char *, const char *); F real = (F)dlsym(RTLD_NEXT, sym);
  if (!mine(p)) return real(p, mode);
  if (int e = fails(OPEN)) { errno = e; return 0; }
  FILE *f = real(p, mode);
  if (f) { track(fileno(f), p); if (mode[0] != 'r') rec(OPEN, p, 0, 0, mode[0] == 'w' ? 0 : -1); }
  return f;
}
FILE *fopen(const char *p, const char *m) { return fopened(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return fopened(p, m, "fopen64"); }
int fclose(FILE *f)
{
  typedef int (*F)(FILE *); static F real = (F)dlsym(RTLD_NEXT, "fclose");
  int fd = f ? fileno(f) : -1; bool t = tracked(fd); int e = t ? fails(CLOSE) : 0;
  if (t) gFd[fd].used = false;
  int r = real(f);
  if (e) { errno = e; return EOF; }
  return r;
}
int close(int fd)
{
  int e = 0; if (tracked(fd)) { e = fails(CLOSE); if (e) lateLoss(fd); gFd[fd].used = false; }
  int r = (int)syscall(SYS_close, fd);
  if (e) { errno = e; return -1; }
  return r;
}
ssize_t read(int fd, void *b, size_t n) { if (!tracked(fd)) return syscall(SYS_read, fd, b, n); return doRead(fd, b, n, 0, false); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (!tracked(fd)) return syscall(SYS_pread64, fd, b, n, o); return doRead(fd, b, n, o, true); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { if (!tracked(fd)) return syscall(SYS_write, fd, b, n); return doWrite(fd, b, n, 0, false); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (!tracked(fd)) return syscall(SYS_pwrite64, fd, b, n, o); return doWrite(fd, b, n, o, true); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n)
{
  if (!tracked(fd)) return syscall(SYS_writev, fd, v, n);
  sim::NoAllocFault g; std::vector<char> all; for (int i = 0; i < n; i++) all.insert(all.end(), (const char *)v[i].iov_base, (const char *)v[i].iov_base + v[i].iov_len);
  return doWrite(fd, all.data(), all.size(), 0, false);
}
int ftruncate(int fd, off_t n)
{
  if (tracked(fd)) { if (int e = fails(TRUNC)) { errno = e; return -1; } rec(TRUNC, gFd[fd].path, 0, 0, n); }
  return (int)syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fsync(int fd) { if (tracked(fd)) { if (int e = fails(SYNC)) { errno = e; return -1; } return 0; } return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return fsync(fd); }
int flock(int fd, int op) { if (tracked(fd)) { if (int e = fails(LOCK)) { errno = e; return -1; } } return (int)syscall(SYS_flock, fd, op); }
int fstat(int fd, struct stat *st) { if (tracked(fd)) { if (int e = fails(STAT)) { errno = e; return -1; } } return (int)syscall(SYS_newfstatat, fd, "", st, 0x1000); }
off_t lseek(int fd, off_t o, int w) { if (tracked(fd)) { if (int e = fails(SEEK)) { errno = e; return -1; } } return syscall(SYS_lseek, fd, o, w); }
int rename(const char *a, const char *b)
{
  if (mine(a)) { if (int e = fails(RENAME)) { errno = e; return -1; } }
  int r = (int)syscall(SYS_rename, a, b);
  if (r == 0 && gRecord && mine(a)) rec(100, a, 0, b, strlen(b));
  return r;
}
int unlink(const char *a) { if (gRecord && mine(a)) rec(101, a, 0, 0, 0); return (int)syscall(SYS_unlink, a); }
}
