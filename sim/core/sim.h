// Deterministic simulator core: one tape of choices decides everything in a run.
#ifndef SIM_H
#define SIM_H
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <exception>

namespace sim
{
// ---------------------------------------------------------------- violation
struct Violation { std::string cls, detail; };
[[noreturn]] void violate(const std::string &cls, const std::string &detail);

// ---------------------------------------------------------------- choices
uint64_t choose(uint64_t n);             // uniform in [0,n); 0 is always the simplest choice
bool chance(double p);                   // true with probability p; the simplest choice is false
bool more(double p);                     // loop continuation
int range(int lo, int hi);               // inclusive; simplest is lo
double real(double lo, double hi);       // a real on a 1/4096 lattice of the interval; simplest is lo
size_t weighted(std::initializer_list<double> w); // index, simplest is 0
size_t tapeMark();                       // where the tape is now
void echo(size_t from, size_t to);       // the next choices repeat those made between the two marks
bool echoDone();                         // ends the repetition; true when exactly all of them were repeated
void stackFill(unsigned char b);         // leave this byte all over the unused stack
template <class T> const T &pick(const std::vector<T> &v) { return v[choose(v.size())]; }

// ---------------------------------------------------------------- history, coverage
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // one line of the history (hashed)
void evd(const char *what, double v);                                // value with all its bits
void fault(const char *kind);            // a fault of this kind actually fired
void probe(const char *name, uint64_t n = 1);
void state(uint64_t h);                  // an abstract state reached
uint64_t mix(uint64_t h, uint64_t v);
uint64_t hashd(double v);
void evaluation(uint64_t n = 1);         // one oracle decision was made
void nontrivial();                       // this run satisfied the check's non-triviality rule
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- simulated clock
extern double now;                       // simulated seconds since the epoch
void advance(double dt);

// ---------------------------------------------------------------- allocator faults
struct AllocFault {                      // fails the k-th allocation (counting from 1) made while armed
  AllocFault(uint64_t k, bool sticky = false); ~AllocFault();
  bool fired() const;
};
uint64_t allocCount();                   // allocations since start (operator new + posix_memalign)
long liveAllocs();                       // live operator-new blocks
void allocPause(bool);                   // nestable: allocations by the simulator itself do not count
struct NoAllocFault { NoAllocFault() { allocPause(true); } ~NoAllocFault() { allocPause(false); } };
void heapFill(unsigned char b);          // new memory is filled with this byte (0 = leave alone)
void heapJitter(unsigned n);             // leave n odd-size holes so that addresses differ

// ---------------------------------------------------------------- random-number seam
enum RngMode { RNG_SEEDED, RNG_EXTREME };
extern RngMode rngMode;
extern uint64_t rngDraws;                // uniforms drawn so far
struct RngRecord { char kind; double a, b, v; };
extern std::vector<RngRecord> *rngTrace; // when set every draw is recorded

// ---------------------------------------------------------------- disk seam
namespace disk
{
  enum Op { OPEN, READ, WRITE, TRUNC, CLOSE, SYNC, LOCK, STAT, SEEK, RENAME, NOPS };
  struct Rec { int op; std::string path; long off; std::vector<char> data; long len; };
  const std::string &root();             // private scratch directory of this run
  std::string path(const std::string &name);
  void reset();
  struct Plan {                           // faults, all decided by the tape before the operation
    // benign: legal behaviour the code must ride out
    bool shortReads, shortWrites, eintr;
    // hard faults: the op with this index (per kind, counted while armed) fails; -1 never
    long failAt[NOPS]; int err[NOPS]; bool sticky[NOPS];
    long spaceLeft;                       // bytes that still fit, -1 unlimited (ENOSPC after a short write)
    Plan();
  };
  void arm(const Plan &p);
  void disarm();
  bool hardFired();                       // a hard fault fired since arm()
  bool benignFired();
  long count(Op o);                       // ops of this kind since arm()
  void record(bool on);                   // record mutating ops
  const std::vector<Rec> &log();
  std::vector<char> contents(const std::string &name);
  void setContents(const std::string &name, const std::vector<char> &);
  bool exists(const std::string &name);
  // the files after the first n recorded mutations of `base` (plus `torn` bytes of the next write)
  std::map<std::string, std::vector<char>> image(const std::map<std::string, std::vector<char>> &base, size_t n, long torn);
  std::map<std::string, std::vector<char>> snapshot();              // every file of the scratch directory
  void restore(const std::map<std::string, std::vector<char>> &);   // make the scratch directory exactly this
}

// ---------------------------------------------------------------- registration
struct Workload { const char *property; const char *name; double weight; void (*run)(); const char *rule; };
void registerWorkload(const Workload &);
struct Reg { Reg(const Workload &w) { registerWorkload(w); } };
#define SIM_WORKLOAD(prop, nm, weight, rule) \
  static void wl_##nm(); static sim::Reg reg_##nm(sim::Workload{prop, #nm, weight, wl_##nm, rule}); static void wl_##nm()

extern bool thorough;
}
#endif
