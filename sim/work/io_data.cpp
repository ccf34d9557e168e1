#include <sys/resource.h>
// Saving and loading data sets: round trip (D01), failed saves (D02), crashes (D03), failed loads (D04).
#include "io_faults.h"
#include <IO.h>
#include <LazyOXSXDataSet.h>
using namespace work;
using namespace sim;

namespace
{
struct Src : DataSet // a data source that is not an OXSXDataSet; may start to fail
{
  Table t; long throwAt; mutable long seen;
  Src(const Table &t_) : t(t_), throwAt(-1), seen(0) {}
  Event GetEntry(size_t i) const { if (seen++ == throwAt) { fault("source-exception"); throw NotFoundError("source gave up"); } Event e(t.row(i)); e.SetObservableNames(&t.names); return e; }
  unsigned GetNEntries() const { return t.nEv; }
  unsigned GetNObservables() const { return t.nObs; }
  Strs GetObservableNames() const { return t.names; }
};
size_t pickEntries(size_t nObs)
{
  switch (weighted({5, 3, 1}))
  {
  case 1: { size_t per = 10000 / nObs, k = per * range(1, 3); int d = range(-2, 2); return (size_t)std::max<long>(1, (long)k + d); }
  case 2: return 1 + choose(40000 / nObs);
  default: return 1 + choose(40);
  }
}
void save(const DataSet &d, const std::string &f, bool direct) { Quiet q; if (direct) IO::SaveDataSetH5(d, f); else IO::SaveDataSet(d, f); }
std::unique_ptr<OXSXDataSet> load(const std::string &f) { Quiet q; return std::unique_ptr<OXSXDataSet>(IO::LoadDataSet(f)); }
std::unique_ptr<DataSet> source(const Table &t)
{
  if (chance(0.4)) return std::unique_ptr<DataSet>(new Src(t));
  OXSXDataSet *d = new OXSXDataSet; fill(*d, t); return std::unique_ptr<DataSet>(d);
}
std::string describe(const Table &t) { std::string s = fmt("%zu events x %zu", t.nEv, t.nObs); return s; }
// names that the format cannot represent must be refused, anything else must survive
bool colon(const Strs &n) { for (auto &s : n) if (s.find(':') != std::string::npos) return true; return false; }

void roundTrip(const Table &t, bool benign)
{
  std::unique_ptr<DataSet> d = source(t);
  std::string f = chance(0.3) ? pick(Strs{"a.b.h5", ".h5", "./x.h5", "x.root.h5", "x..h5", "with space.h5", "h5.h5", "x.part.h5"}) : "x.h5"; if (chance(0.05)) { char cwd[512]; if (getcwd(cwd, sizeof cwd)) f = std::string(cwd) + "/abs.h5"; } bool direct = chance(0.3);
  ev("round trip %s names %zu", describe(t).c_str(), t.names[0].size());
  if (benign) disk::arm(benignPlan());
  std::string why; Out o = attempt([&] { save(*d, f, direct); }, &why);
  check(o == OK, "save-failed-without-fault", why + " " + describe(t));
  std::unique_ptr<OXSXDataSet> l; o = attempt([&] { l = load(f); }, &why);
  check(o == OK && l, "load-failed-without-fault", why + " " + describe(t));
  disk::disarm();
  std::string df = diff(*l, t);
  check(df.empty(), "round-trip-differs", df + " in " + describe(t));
  // and once more through the loaded object
  if (t.nEv < 2000 && chance(0.3))
  {
    o = attempt([&] { save(*l, f, direct); l = load(f); }, &why);
    check(o == OK, "save-failed-without-fault", why);
    df = diff(*l, t); check(df.empty(), "round-trip-differs", df + " second generation");
  }
}
}

SIM_WORKLOAD("D01", dataset_roundtrip, 10, "")
{
  int rounds = range(1, 3);
  for (int i = 0; i < rounds; i++)
  {
    size_t nObs = 1 + choose(i ? 3 : 6); Table t = table(pickEntries(nObs), nObs);
    bool benign = chance(0.5);
    roundTrip(t, benign);
    state(mix(mix(t.nObs, t.nEv * nObs / 10000), benign)); if (t.nEv > 1) nontrivial();
    probe(t.nEv * nObs >= 10000 ? "several-slabs" : "one-slab");
    size_t flat = nObs - 1; for (auto &n : t.names) flat += n.size(); if (flat > 63) probe("names-longer-than-63");
  }
}
SIM_WORKLOAD("D01", dataset_degenerate, 1, "")
{
  // empty data sets, names the format cannot hold, unknown extensions: refused, or round-tripped exactly
  size_t what = choose(6); size_t nObs = what == 4 ? 0 : 1 + choose(3); // 4: no observables at all
  Table t = table(what == 0 || what == 4 ? 0 : 1 + choose(5), nObs);
  if (what == 1) t.names[choose(nObs)] += ":";
  if (what == 2) t.names[choose(nObs)] = ":x";
  if (what == 5) { t.names[choose(nObs)] = ""; if (chance(0.3) && nObs > 1) t.names[choose(nObs)] = ""; }
  Src d(t); std::string why;
  if (what == 3)
  {
    const char *bad[] = {"noext", "x.txt", "x.h5x", "x.", "x.H5"}; std::string f = bad[choose(5)];
    Out o = attempt([&] { save(d, f, false); }, &why);
    check(o == ERR && !disk::exists(f), "unknown-extension-accepted", f);
    nontrivial(); return;
  }
  ev("degenerate %zu", what);
  Out o = attempt([&] { save(d, "x.h5", true); }, &why);
  if (o == OK)
  {
    std::unique_ptr<OXSXDataSet> l; o = attempt([&] { l = load("x.h5"); }, &why);
    check(o == OK, "load-failed-without-fault", why);
    std::string df = diff(*l, t, false); check(df.empty(), "round-trip-differs", df + (what == 5 ? " (empty name)" : what ? " (name with a colon)" : " (empty)"));
  }
  else
  {
    probe("refused");
    std::unique_ptr<OXSXDataSet> l; o = attempt([&] { l = load("x.h5"); });
    if (o == OK) { std::string df = diff(*l, t, false); check(df.empty(), "failed-save-left-wrong-file", df); } else evaluation();
  }
  nontrivial();
}
SIM_WORKLOAD("D01", dataset_large, -8, "")
{
  struct rlimit rl; rl.rlim_cur = 40; rl.rlim_max = 45; setrlimit(RLIMIT_CPU, &rl); // a million entries take a few seconds
  const size_t n[] = {1000000, 1000001, 1099999, 1100000, 999999, 1200001}; size_t nObs = 1 + choose(2);
  Table t = table(n[choose(6)], nObs, false); Src d(t); std::string why;
  Out o = attempt([&] { save(d, "x.h5", true); }, &why); check(o == OK, "save-failed-without-fault", why);
  std::unique_ptr<OXSXDataSet> l; o = attempt([&] { l = load("x.h5"); }, &why); check(o == OK, "load-failed-without-fault", why);
  std::string df = diff(*l, t); check(df.empty(), "round-trip-differs", df + " (large) " + describe(t));
  nontrivial(); probe("million-entries");
}

// ---------------------------------------------------------------------------------------------------
namespace
{
struct SetArt : Art
{
  Src src; bool direct;
  SetArt(const Table &t, bool d) : src(t), direct(d) {}
  void save(const std::string &f) { src.seen = 0; ::save(src, f, direct); }
  std::string loadDiff(const std::string &f) { std::unique_ptr<OXSXDataSet> l = load(f); return diff(*l, src.t, false); }
  long sourceLength() { return src.t.nEv; }
  void breakSource(long k) { src.throwAt = k; }
};
Table small(size_t nObs) { return table(chance(0.3) ? pickEntries(nObs) : 1 + choose(60), nObs); }
}
SIM_WORKLOAD("D02", dataset_failed_save, 10, "")
{
  SetArt a(table(1 + choose(30), 1 + choose(3)), chance(0.3)), b(small(1 + choose(3)), a.direct);
  failedSave(a, b);
}
SIM_WORKLOAD("D03", dataset_crash_during_save, 10, "")
{
  SetArt a(table(1 + choose(30), 1 + choose(3)), chance(0.3)), b(small(1 + choose(3)), a.direct);
  crashDuringSave(a, b);
}
SIM_WORKLOAD("D04", dataset_failed_load, 10, "")
{
  SetArt a(small(1 + choose(3)), true); std::string f = "x.h5", why;
  check(attempt([&] { a.save(f); }, &why) == OK, "save-failed-without-fault", why);
  Ops ops = measure([&] { load(f); });
  bool lazy = chance(0.4); LazyOXSXDataSet lz(f); bool loaded = false; int tries = range(1, 3);
  for (int k = 0; k < tries; k++)
  {
    failedLoad(f, [&] { if (!lazy) return a.loadDiff(f); Quiet q; std::string d = diff(lz, a.src.t, false); loaded = true; return d; }, lazy && loaded, ops);
    if (lazy && chance(0.5)) { lz.Close(); loaded = false; }
  }
}
