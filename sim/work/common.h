// Shared generators and comparisons for the workloads.
#ifndef WORK_COMMON_H
#define WORK_COMMON_H
#include "sim.h"
#include <DataSet.h>
#include <OXSXDataSet.h>
#include <Event.h>
#include <AxisCollection.h>
#include <BinAxis.h>
#include <Histogram.h>
#include <Exceptions.h>
#include <ParameterDict.h>
#include <H5Cpp.h>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <memory>
#include <unistd.h>
#include <new>
#include <iostream>
#include <sstream>
#include <algorithm>

namespace work
{
typedef std::vector<std::string> Strs;
typedef std::vector<double> Doubles;

inline bool sameBits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
inline bool close(double a, double b, double rel = 1e-9, double abs_ = 1e-12)
{
  if (a == b) return true;
  if (std::isnan(a) && std::isnan(b)) return true;
  if (!std::isfinite(a) || !std::isfinite(b)) return false;
  return fabs(a - b) <= abs_ + rel * std::max(fabs(a), fabs(b));
}
// an ordinary or a nasty double
inline double anyDouble()
{
  switch (sim::weighted({6, 1, 1, 1, 1, 1, 1, 1}))
  {
  case 1: return -0.0;
  case 2: return std::numeric_limits<double>::quiet_NaN();
  case 3: return std::numeric_limits<double>::infinity() * (sim::chance(0.5) ? -1 : 1);
  case 4: return std::numeric_limits<double>::denorm_min() * (1 + (double)sim::choose(1000));
  case 5: return std::numeric_limits<double>::max() * (sim::chance(0.5) ? -1 : 1);
  case 6: { uint64_t u = sim::choose(~0ull); double d; memcpy(&d, &u, 8); return d; }
  case 7: return 1.0 + (double)sim::choose(1000) * 2.2204460492503131e-16;
  default: return sim::real(-100, 100);
  }
}
// a value computed from its position: distinct everywhere, so that any misplaced element is seen
inline double cell(uint64_t salt, size_t ev, size_t obs) { uint64_t h = sim::mix(sim::mix(salt, ev), obs); return (double)(h >> 11) / 9007199254740992.0 * 1000 - 500; }

inline std::string letters(size_t n, uint64_t salt) { std::string s; for (size_t i = 0; i < n; i++) s += (char)('a' + sim::mix(salt, i) % 26); return s; }

// names that are told apart only by looking at all of them: one scheme for each run (a run is a process of its own)
inline int nameScheme() { static int s = -1; if (s < 0) s = (int)sim::weighted({6, 1, 1, 1, 1, 1}); return s; }
inline std::string id(const std::string &stem, size_t i)
{
  switch (nameScheme())
  {
  case 1: return stem + std::string(i, 'a');                       // each one begins with the one before
  case 2: return std::string(i, 'b') + stem;                       // each one ends with the one before
  case 3: { std::string s = stem + sim::fmt("%zu", i / 2); if (i % 2) s[0] = (char)toupper(s[0]); return s; } // they differ by case
  case 4: return stem + std::string(i, ' ');                       // they differ by blanks
  case 5: return stem + sim::fmt("%zu", 12 - std::min<size_t>(i, 12)) + (i > 12 ? sim::fmt("_%zu", i) : ""); // alphabetical order is another one: x12, x11, ... x1, x10
  default: return stem + sim::fmt("%zu", i);
  }
}
inline std::string obsName(size_t i) { return nameScheme() ? id("x", i) : std::string(1, "xyzw"[i]); }

// distinct observable names
inline Strs names(size_t n, bool mayBeLong = true)
{
  Strs v; size_t mode = mayBeLong ? sim::weighted({6, 1, 1, 1}) : 0;
  for (size_t i = 0; i < n; i++)
  {
    std::string s = sim::fmt("o%zu", i);
    if (nameScheme()) s = id("o", i);
    else if (mode == 0) s += letters(sim::choose(6), sim::choose(1000));
    else if (mode == 1) s += letters(1 + sim::choose(40), 7 + i);
    else if (mode == 2) { s = sim::fmt("%zu", i); s += letters((size_t)std::max(0, 64 / (int)n - 2 + sim::range(-2, 2)), 3 + i); }
    else s = std::string(1, " _-.#/"[sim::choose(6)]) + s + std::string(1, " _-.=\\"[sim::choose(6)]);
    v.push_back(s);
  }
  return v;
}

// a plain model of a table of events
struct Table
{
  Strs names; size_t nEv, nObs; uint64_t salt; std::map<size_t, double> special; // flat index -> value
  double at(size_t e, size_t o) const { std::map<size_t, double>::const_iterator i = special.find(e * nObs + o); return i == special.end() ? cell(salt, e, o) : i->second; }
  Doubles row(size_t e) const { Doubles d(nObs); for (size_t i = 0; i < nObs; i++) d[i] = at(e, i); return d; }
};
inline Table table(size_t nEv, size_t nObs, bool longNames = true)
{
  Table t; t.names = names(nObs, longNames); t.nEv = nEv; t.nObs = nObs; t.salt = sim::choose(1000000);
  if (nEv) { size_t k = sim::choose(6); for (size_t i = 0; i < k; i++) { size_t p = sim::choose(nEv * nObs); t.special[p] = anyDouble(); } }
  return t;
}
inline void fill(OXSXDataSet &ds, const Table &t)
{
  ds.SetObservableNames(t.names);
  for (size_t i = 0; i < t.nEv; i++) ds.AddEntry(Event(t.row(i)));
}
// "" when equal, otherwise the first difference
inline std::string diff(const DataSet &ds, const Table &t, bool byName = true)
{
  if (ds.GetNEntries() != t.nEv) return sim::fmt("%u entries instead of %zu", ds.GetNEntries(), t.nEv);
  if (ds.GetObservableNames() != t.names) { std::string s = "observable names differ:"; Strs n = ds.GetObservableNames(); for (size_t i = 0; i < n.size(); i++) s += " '" + n[i] + "'"; return s; }
  if (t.nEv && ds.GetNObservables() != t.nObs) return sim::fmt("%u observables instead of %zu", ds.GetNObservables(), t.nObs);
  for (size_t i = 0; i < t.nEv; i++)
  {
    Event e = ds.GetEntry(i); const std::vector<double> d = e.GetData();
    if (d.size() != t.nObs) return sim::fmt("event %zu has %zu values", i, d.size());
    for (size_t j = 0; j < t.nObs; j++)
      if (!sameBits(d[j], t.at(i, j))) return sim::fmt("event %zu observable %zu is %.17g instead of %.17g", i, j, d[j], t.at(i, j));
    if (byName && (i < 3 || i + 1 == t.nEv))
      for (size_t j = 0; j < t.nObs; j++) if (!sameBits(e.GetDatum(t.names[j]), t.at(i, j))) return sim::fmt("event %zu by name '%s' is wrong", i, t.names[j].c_str());
  }
  return "";
}

// how did a call end
enum Out { OK, ERR, NOMEM };
template <class F> Out attempt(F f, std::string *what = 0)
{
  try { f(); return OK; }
  catch (sim::Violation &) { throw; }
  catch (std::bad_alloc &) { if (what) { sim::NoAllocFault g; *what = "bad_alloc"; } return NOMEM; }
  catch (std::exception &e) { sim::NoAllocFault g; if (what) *what = e.what(); return ERR; }
  catch (H5::Exception &e) { sim::NoAllocFault g; if (what) *what = "H5 " + std::string(e.getCDetailMsg()); return ERR; }
}
inline void check(bool ok, const char *cls, const std::string &d) { sim::evaluation(); if (!ok) sim::violate(cls, d); }

// discard what the library prints
struct Quiet { std::streambuf *o, *e; Quiet() : o(std::cout.rdbuf(0)), e(std::cerr.rdbuf(0)) { nameScheme(); } ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); } };

inline sim::disk::Plan benignPlan()
{
  sim::disk::Plan p; p.shortReads = sim::chance(0.4); p.shortWrites = sim::chance(0.4); p.eintr = sim::chance(0.3); return p;
}
const int ERRS[] = {5 /*EIO*/, 28 /*ENOSPC*/, 13 /*EACCES*/, 24 /*EMFILE*/, 122 /*EDQUOT*/};
}
#endif
