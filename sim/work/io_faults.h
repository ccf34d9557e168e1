// Fault, crash and recovery scenarios for anything that is saved to and loaded from a file.
#ifndef WORK_IO_FAULTS_H
#define WORK_IO_FAULTS_H
#include "common.h"
namespace work
{
struct Art // something that can be saved and loaded
{
  virtual ~Art() {}
  virtual void save(const std::string &f) = 0;
  virtual std::string loadDiff(const std::string &f) = 0; // throws when it does not load; "" when it is this
  virtual long sourceLength() { return 0; }               // how often saving asks a user-supplied object for data
  virtual void breakSource(long) {}                       // that object throws at this call; -1 never
};
struct Ops { long n[sim::disk::NOPS]; uint64_t allocs; long size; };
inline Ops measure(std::function<void()> f)
{
  using namespace sim; Ops o; disk::arm(disk::Plan()); uint64_t a0 = allocCount(); f(); o.allocs = allocCount() - a0;
  for (int i = 0; i < disk::NOPS; i++) o.n[i] = disk::count((disk::Op)i);
  disk::disarm(); o.size = 0; return o;
}
inline void failedSave(Art &oldA, Art &newA)
{
  using namespace sim;
  bool hadOld = chance(0.6); std::string f = "x.h5", why;
  if (hadOld) check(attempt([&] { oldA.save(f); }, &why) == OK, "save-failed-without-fault", why);
  // count the operations of a clean save, then choose which of them fails
  Ops ops = measure([&] { attempt([&] { newA.save("dry.h5"); }, &why); });
  long size = (long)disk::contents("dry.h5").size(), srcLen = newA.sourceLength(); unlink("dry.h5");
  disk::Plan p = chance(0.2) ? benignPlan() : disk::Plan(); size_t kind = weighted({6, 3, srcLen ? 2.0 : 0.0, 2}); uint64_t failAlloc = 0; long srcAt = -1;
  if (kind == 0)
  {
    std::vector<int> able; const int all[] = {disk::WRITE, disk::OPEN, disk::TRUNC, disk::CLOSE, disk::SYNC, disk::LOCK, disk::STAT, disk::RENAME, disk::READ};
    for (int o : all) if (ops.n[o] > 0) for (int k = 0; k < (o == disk::WRITE ? 4 : 1); k++) able.push_back(o);
    int o = pick(able); p.failAt[o] = (long)choose(ops.n[o]); p.err[o] = ERRS[choose(o == disk::OPEN || o == disk::LOCK ? 4 : 2)]; p.sticky[o] = chance(0.5);
    ev("plan op %d index %ld of %ld err %d sticky %d", o, p.failAt[o], ops.n[o], p.err[o], p.sticky[o]);
  }
  else if (kind == 1) { p.spaceLeft = (long)choose(size + 1); ev("plan disk full after %ld of %ld", p.spaceLeft, size); }
  else if (kind == 2 && srcLen) { srcAt = (long)choose(srcLen); ev("plan source throws at %ld of %ld", srcAt, srcLen); }
  else { failAlloc = 1 + choose(ops.allocs); ev("plan allocation %llu of %llu fails", (unsigned long long)failAlloc, (unsigned long long)ops.allocs); }
  Out o; bool fired; newA.breakSource(srcAt);
  {
    disk::arm(p); std::unique_ptr<AllocFault> af; { NoAllocFault g; if (failAlloc) af.reset(new AllocFault(failAlloc)); }
    o = attempt([&] { newA.save(f); }, &why);
    fired = (af && af->fired()) || disk::hardFired() || srcAt >= 0; NoAllocFault g; af.reset(); disk::disarm();
  }
  ev("save ended %d", o); newA.breakSource(-1);
  if (!fired) check(o == OK, "save-failed-without-fault", why);
  std::string dn, dold; Out lo = attempt([&] { dn = newA.loadDiff(f); }, &why);
  if (lo == OK && hadOld) dold = oldA.loadDiff(f);
  if (o == OK) check(lo == OK && dn.empty(), "save-reported-success-but-lost-data", lo == OK ? dn : "does not load: " + why);
  else if (lo == OK) check(dn.empty() || (hadOld && dold.empty()), "failed-save-left-wrong-file", "after a save that failed the file loads, but as neither the old nor the new data: " + dn);
  else check(!hadOld, "failed-save-destroyed-old-file", why);
  // nothing stays open: a program that saves again and again does not run out of files
  if (kind == 2) { ssize_t n = H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_FILE); check(n <= 0, "file-left-open", fmt("%ld files are still open", (long)n)); }
  // progress once the faults have stopped
  std::string g = chance(0.5) ? f : "y.h5";
  Out r = attempt([&] { newA.save(g); dn = newA.loadDiff(g); }, &why);
  check(r == OK, "no-recovery-after-failed-save", why);
  check(dn.empty(), "no-recovery-after-failed-save", dn);
  state(mix(mix(kind, o), mix(lo, hadOld))); if (fired) nontrivial();
  if (fired && o == OK) probe("fault-absorbed");
  if (o != OK && hadOld && lo == OK) probe("old-file-survived");
}
inline void crashDuringSave(Art &oldA, Art &newA)
{
  using namespace sim;
  bool hadOld = chance(0.6); std::string f = "x.h5", why;
  if (hadOld) check(attempt([&] { oldA.save(f); }, &why) == OK, "save-failed-without-fault", why);
  std::map<std::string, std::vector<char>> base = disk::snapshot();
  if (chance(0.3)) disk::arm(benignPlan());
  disk::record(true); Out o = attempt([&] { newA.save(f); }, &why); disk::record(false); disk::disarm();
  check(o == OK, "save-failed-without-fault", why);
  size_t nops = disk::log().size(); int tries = range(1, 4);
  ev("recorded %zu mutations", nops);
  for (int k = 0; k < tries; k++)
  {
    size_t at = choose(nops + 1); long torn = 0;
    if (at < nops && disk::log()[at].op == disk::WRITE && chance(0.5)) { torn = (long)choose(disk::log()[at].len); if (torn) fault("torn-write"); }
    fault("crash"); ev("crash after %zu of %zu mutations, torn %ld", at, nops, torn);
    disk::restore(disk::image(base, at, torn));
    std::string dn, dold = "no old data"; Out lo = attempt([&] { dn = newA.loadDiff(f); }, &why);
    if (lo == OK)
    {
      if (hadOld) dold = oldA.loadDiff(f);
      check(dn.empty() || dold.empty(), "crash-left-wrong-file", fmt("crash after %zu of %zu mutations (torn %ld): the file loads as neither old nor new: ", at, nops, torn) + dn);
      probe(dn.empty() ? "loads-new" : "loads-old");
      if (at == nops) check(dn.empty(), "completed-save-not-durable", dn);
    }
    else { check(at < nops, "completed-save-not-durable", why); check(!hadOld, "crash-destroyed-old-file", fmt("crash after %zu of %zu mutations: the previous file no longer loads: ", at, nops) + why); probe("load-refused"); }
    // restart: the same save succeeds on top of whatever the crash left behind
    if (chance(0.5))
    {
      Out r = attempt([&] { newA.save(f); dn = newA.loadDiff(f); }, &why);
      check(r == OK, "no-recovery-after-crash", why); check(dn.empty(), "no-recovery-after-crash", dn);
    }
    state(mix(mix(at * 16 / (nops + 1), torn != 0), mix(lo, hadOld)));
  }
  nontrivial();
}
// try: loads and compares under the plan.  "" equal, otherwise the difference; throws when the load fails
inline void failedLoad(const std::string &f, std::function<std::string()> tryLoad, bool holdsDataInMemory, const Ops &ops)
{
  using namespace sim; std::string why, d;
  disk::Plan p = chance(0.3) ? benignPlan() : disk::Plan(); uint64_t failAlloc = 0; bool gone = false, trunc = false;
  size_t kind = weighted({6, 2, 1, 1, 1});
  if (kind == 0)
  {
    std::vector<int> able; const int all[] = {disk::READ, disk::OPEN, disk::STAT, disk::CLOSE, disk::LOCK, disk::SEEK};
    for (int o : all) if (ops.n[o] > 0) for (int j = 0; j < (o == disk::READ ? 4 : 1); j++) able.push_back(o);
    int o = pick(able); p.failAt[o] = (long)choose(ops.n[o]); p.err[o] = ERRS[choose(o == disk::OPEN || o == disk::LOCK ? 4 : 1)]; p.sticky[o] = chance(0.5);
    ev("plan op %d index %ld of %ld", o, p.failAt[o], ops.n[o]);
  }
  else if (kind == 1) { failAlloc = 1 + choose(ops.allocs); ev("plan allocation %llu fails", (unsigned long long)failAlloc); }
  else if (kind == 2) gone = true;
  else if (kind == 3) trunc = true;
  std::map<std::string, std::vector<char>> fs = disk::snapshot();
  if (gone) { unlink(f.c_str()); fault("file-missing"); }
  if (trunc) { std::vector<char> c = fs[f]; c.resize(choose(c.size())); disk::setContents(f, c); fault("file-truncated"); }
  Out o; bool fired;
  {
    disk::arm(p); std::unique_ptr<AllocFault> af; { NoAllocFault g; if (failAlloc) af.reset(new AllocFault(failAlloc)); }
    o = attempt([&] { std::string x = tryLoad(); NoAllocFault g; d = x; }, &why);
    fired = (af && af->fired()) || disk::hardFired() || gone || trunc; NoAllocFault g; af.reset(); disk::disarm();
  }
  ev("load ended %d", o);
  if (!fired) check(o == OK, "load-failed-without-fault", why);
  if ((gone || trunc) && !holdsDataInMemory) check(o != OK, "load-of-damaged-file-succeeded", gone ? "file is missing" : "file is truncated");
  if (o == OK) { check(d.empty(), "load-reported-success-but-wrong-data", d); if (fired) probe("fault-absorbed"); }
  else evaluation();
  if (gone || trunc) disk::restore(fs);
  // faults over: the same object or a new load gives the data
  Out r = attempt([&] { d = tryLoad(); }, &why); check(r == OK, "no-recovery-after-failed-load", why); check(d.empty(), "no-recovery-after-failed-load", d);
  state(mix(mix(kind, o), holdsDataInMemory * 2 + fired)); if (fired) nontrivial();
}
}
#endif
