// Data sets and events as values (E01), and data sets paged in from disk on demand (L01).
#include "io_faults.h"
#include <IO.h>
#include <LazyOXSXDataSet.h>
#include <ObsSet.h>
using namespace work;
using namespace sim;
namespace
{
struct SetModel { Strs names; std::vector<Doubles> rows; size_t nObs; int id; };
struct Held { Event e; Doubles row; Strs names; int from; bool namesKnown; };
std::string checkEvent(const Event &e, const Doubles &row, const Strs &names, bool byName)
{
  if (e.GetNObservables() != row.size()) return fmt("event reports %zu observables", e.GetNObservables());
  Doubles d = e.GetData(); if (d.size() != row.size()) return fmt("event has %zu values instead of %zu", d.size(), row.size());
  for (size_t i = 0; i < row.size(); i++) if (!sameBits(d[i], row[i]) || !sameBits(e.GetDatum(i), row[i])) return fmt("value %zu is %.17g instead of %.17g", i, d[i], row[i]);
  if (!byName || names.size() != row.size()) return "";
  if (e.GetObservableNames() != names) return "event has other observable names";
  for (size_t i = 0; i < row.size(); i++) if (!sameBits(e.GetDatum(names[i]), row[i])) return "value by name " + names[i] + " is wrong";
  std::map<std::string, double> m = e.GetDataMap(); if (m.size() != row.size()) return "map of the event is incomplete";
  for (size_t i = 0; i < row.size(); i++) if (!sameBits(m[names[i]], row[i])) return "map value " + names[i] + " is wrong";
  Strs sub; Doubles want; size_t k = 1 + choose(row.size()); for (size_t i = 0; i < k; i++) { size_t j = choose(row.size()); if (std::find(sub.begin(), sub.end(), names[j]) == sub.end()) { sub.push_back(names[j]); want.push_back(row[j]); } }
  Doubles got = e.ToObsSet(ObsSet(sub)); if (got.size() != want.size()) return "projection has the wrong length";
  for (size_t i = 0; i < want.size(); i++) if (!sameBits(got[i], want[i])) return "projection onto " + sub[i] + " is wrong";
  return "";
}
std::string checkSet(const OXSXDataSet &d, const SetModel &m, bool all)
{
  if (d.GetNEntries() != m.rows.size()) return fmt("%u entries instead of %zu", d.GetNEntries(), m.rows.size());
  if (m.rows.size() && d.GetNObservables() != m.nObs) return fmt("%u observables instead of %zu", d.GetNObservables(), m.nObs);
  if (d.GetObservableNames() != m.names) return "observable names differ";
  for (size_t i = 0; i < m.rows.size(); i++)
    if (all || i == 0 || i + 1 == m.rows.size() || chance(0.1)) { std::string s = checkEvent(d.GetEntry(i), m.rows[i], m.names, true); if (!s.empty()) return fmt("entry %zu: ", i) + s; }
  return "";
}
struct World
{
  std::vector<std::unique_ptr<OXSXDataSet>> ds; std::vector<SetModel> m; std::vector<Held> held; int nextId;
  World() : nextId(0) {}
  void forget(int id) { for (size_t i = 0; i < held.size();) if (held[i].from == id) held.erase(held.begin() + i); else i++; }
  void add(OXSXDataSet *d, const SetModel &x) { ds.emplace_back(d); m.push_back(x); m.back().id = nextId++; }
  void drop(size_t i) { forget(m[i].id); ds.erase(ds.begin() + i); m.erase(m.begin() + i); }
  void verify(bool all)
  {
    for (size_t i = 0; i < ds.size(); i++) { std::string s = checkSet(*ds[i], m[i], all); check(s.empty(), "data-set-changed", fmt("data set %d: ", m[i].id) + s); }
    for (Held &h : held) { std::string s = checkEvent(h.e, h.row, h.names, h.namesKnown); check(s.empty(), "event-changed", s); }
  }
};
OXSXDataSet byValue(const OXSXDataSet &d, bool twist) { OXSXDataSet a(d), b; if (twist) return b; return a; }
}
SIM_WORKLOAD("E01", event_values, 10, "")
{
  World w; int steps = 0; bool rich = false; Quiet q;
  while (steps < 60 && (steps < 5 || more(0.93)))
  {
    steps++;
    size_t op = weighted({3, 5, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1});
    if (w.ds.empty()) op = 0;
    size_t i = w.ds.empty() ? 0 : choose(w.ds.size()), j = w.ds.empty() ? 0 : choose(w.ds.size());
    switch (op)
    {
    case 0: { if (w.ds.size() > 5) break; SetModel m; m.nObs = 1 + choose(3); m.names = names(m.nObs, false); if (!w.m.empty() && w.m[i].names.size() == w.m[i].nObs && chance(0.4)) { m.nObs = w.m[i].nObs; m.names = w.m[i].names; for (size_t k = 0; k < m.nObs; k++) std::swap(m.names[k], m.names[k + choose(m.nObs - k)]); } OXSXDataSet *d = new OXSXDataSet; bool late = chance(0.3); if (!late) d->SetObservableNames(m.names); size_t n = choose(6); for (size_t k = 0; k < n; k++) { Doubles r; for (size_t o = 0; o < m.nObs; o++) r.push_back(anyDouble()); m.rows.push_back(r); d->AddEntry(Event(r)); } if (late) d->SetObservableNames(m.names); w.add(d, m); ev("new set %zu events", n); break; }
    case 1: // append an event, possibly one of another set, possibly of the wrong size, possibly without memory
    {
      Doubles r; Event e(r); size_t src = choose(3);
      if (src == 1 && !w.m[j].rows.empty()) { size_t k = choose(w.m[j].rows.size()); r = w.m[j].rows[k]; e = w.ds[j]->GetEntry(k); }
      else { size_t n = w.m[i].nObs; if (src == 2 && chance(0.3)) n = choose(5); for (size_t o = 0; o < n; o++) r.push_back(anyDouble()); e = Event(r); }
      bool fits = w.m[i].rows.empty() ? !r.empty() : r.size() == w.m[i].nObs; Out o; bool fired = false;
      { std::unique_ptr<AllocFault> af; if (chance(0.15)) { NoAllocFault g; af.reset(new AllocFault(1 + choose(4))); } o = attempt([&] { w.ds[i]->AddEntry(e); }); fired = af && af->fired(); NoAllocFault g; af.reset(); }
      ev("append %zu values to %d -> %d", r.size(), w.m[i].id, o);
      if (fits && !fired) check(o == OK, "append-refused", "an event of the right size was refused");
      if (!fits) check(o != OK, "append-accepted", fmt("an event with %zu values was accepted by a set with %zu", r.size(), w.m[i].nObs));
      if (o == OK) { w.m[i].nObs = r.size(); w.m[i].rows.push_back(r); }
      break;
    }
    case 2: // take an event and keep it
    {
      if (w.m[i].rows.empty()) { check(attempt([&] { w.ds[i]->GetEntry(choose(3)); }) == ERR, "out-of-range-accepted", "empty set handed out an event"); break; }
      if (chance(0.2)) { size_t far = w.m[i].rows.size() + choose(3); check(attempt([&] { w.ds[i]->GetEntry(far); }) == ERR, "out-of-range-accepted", "event beyond the end"); break; }
      size_t k = choose(w.m[i].rows.size()); Held h = {w.ds[i]->GetEntry(k), w.m[i].rows[k], w.m[i].names, w.m[i].id, w.m[i].names.size() == w.m[i].nObs};
      if (w.held.size() < 12) w.held.push_back(h); ev("hold"); break;
    }
    case 3: if (w.ds.size() < 7) { w.add(new OXSXDataSet(*w.ds[i]), w.m[i]); rich = true; ev("copy %d", w.m[i].id); } break;
    case 4: // sometimes without memory: then the set keeps what it held, or holds the new events
    {
      ev("assign %d = %d", w.m[i].id, w.m[j].id); if (i != j) w.forget(w.m[i].id); OXSXDataSet &l = *w.ds[i], &from = *w.ds[j]; Out o; bool fired = false; SetModel want = w.m[j]; want.id = w.m[i].id;
      { std::unique_ptr<AllocFault> af; if (chance(0.2)) { NoAllocFault g; af.reset(new AllocFault(1 + choose(3 * (want.rows.size() + 1)))); } o = attempt([&] { l = from; }); fired = af && af->fired(); NoAllocFault g; af.reset(); }
      if (!fired) check(o == OK, "assignment-refused", "without any fault");
      if (o == OK || checkSet(l, w.m[i], true) != "") w.m[i] = want;
      if (o != OK) { std::string s = checkSet(l, w.m[i], true); check(s.empty(), "assigned-by-halves", "the memory ran out while a set was assigned: " + s); }
      rich = true; break;
    }
    case 5: // destroy; whatever was copied from it must not notice
      if (w.ds.size() > 1) { ev("destroy %d", w.m[i].id); w.drop(i); rich = true; } break;
    case 6: // concatenate
    {
      if (w.ds.size() >= 7) break;
      bool fits = w.m[i].rows.empty() || w.m[j].rows.empty() || w.m[i].nObs == w.m[j].nObs; ev("concatenate %d + %d", w.m[i].id, w.m[j].id);
      if (i == j && w.m[i].rows.size() > 50) break;
      OXSXDataSet *r = 0; Out o = attempt([&] { r = new OXSXDataSet(*w.ds[i] + *w.ds[j]); });
      check((o == OK) == fits, "concatenation-outcome", fmt("outcome %d", o));
      if (o == OK) { SetModel x = w.m[i]; if (x.rows.empty()) x.nObs = w.m[j].rows.empty() ? x.nObs : w.m[j].nObs; x.rows.insert(x.rows.end(), w.m[j].rows.begin(), w.m[j].rows.end()); w.add(r, x); rich = true; }
      break;
    }
    case 7: { Strs old = w.m[i].names, keep = old; if (old.size() == w.m[i].nObs && old.size() > 1 && chance(0.5)) { for (size_t k = 0; k < old.size(); k++) std::swap(old[k], old[k + choose(old.size() - k)]); w.m[i].names = old; } else { w.m[i].names = names(w.m[i].nObs, false); for (auto &s : w.m[i].names) s += "r"; } SetModel was = w.m[i]; was.names = keep; OXSXDataSet &d = *w.ds[i]; Out o; bool fired = false;
      { std::unique_ptr<AllocFault> af; if (chance(0.2)) { NoAllocFault g; af.reset(new AllocFault(1 + choose(3))); } o = attempt([&] { d.SetObservableNames(w.m[i].names); }); fired = af && af->fired(); NoAllocFault g; af.reset(); }
      if (!fired) check(o == OK, "rename-refused", "without any fault");
      if (o != OK && checkSet(d, was, true) == "") w.m[i] = was; else for (Held &h : w.held) if (h.from == w.m[i].id) h.namesKnown = false; ev("rename %d", w.m[i].id); break; }
    case 8: w.ds[i]->Reserve((int)choose(200)); break;
    case 9: // sets stored by value move about when the vector grows
    {
      std::vector<OXSXDataSet> v; std::vector<SetModel> vm; size_t n = 1 + choose(4); for (size_t k = 0; k < n; k++) { size_t x = choose(w.ds.size()); v.push_back(*w.ds[x]); vm.push_back(w.m[x]); }
      if (n > 1 && chance(0.5)) { v.erase(v.begin()); vm.erase(vm.begin()); }
      for (size_t k = 0; k < v.size(); k++) { std::string s = checkSet(v[k], vm[k], true); check(s.empty(), "data-set-changed", "stored by value: " + s); }
      rich = true; break;
    }
    case 10: if (w.ds.size() < 7) { OXSXDataSet *d = new OXSXDataSet; *d = byValue(*w.ds[i], false); w.add(d, w.m[i]); rich = true; ev("by value"); } break;
    case 11: // changing a held event changes nothing else
      if (!w.held.empty())
      {
        Held &h = w.held[choose(w.held.size())]; size_t k = choose(h.row.size()); double x = anyDouble();
        if (h.namesKnown && chance(0.5)) h.e.SetDatum(h.names[k], x); else h.e.SetDatum(k, x);
        h.row[k] = x; Event &e = h.e;
        check(attempt([&] { e.SetDatum(h.row.size() + choose(2), 1); }) == ERR, "out-of-range-accepted", "value set beyond the end of an event");
        check(attempt([&] { e.GetDatum(h.row.size() + choose(2)); }) == ERR, "out-of-range-accepted", "value read beyond the end of an event");
        if (h.namesKnown) check(attempt([&] { e.GetDatum("no such name"); }) == ERR && attempt([&] { e.SetDatum("no such name", 1); }) == ERR, "out-of-range-accepted", "unknown observable");
        Event bare(h.row); check(attempt([&] { bare.GetDatum(std::string("x")); }) == ERR && attempt([&] { bare.SetDatum("x", 2); }) == ERR, "out-of-range-accepted", "an event without names answered by name");
        ev("change");
      }
      break;
    }
    w.verify(chance(0.2));
    state(mix(mix(w.ds.size(), w.held.size()), op));
  }
  w.verify(true); if (rich) nontrivial();
}

// sets of observables: values that answer by name and position, whatever names they had before
SIM_WORKLOAD("E01", observable_sets, 1, "")
{
  std::vector<ObsSet> v; std::vector<Strs> m; Strs pool = names(5, false); int steps = 0;
  auto subset = [&]() { Strs p = pool; for (size_t i = 0; i + 1 < p.size(); i++) std::swap(p[i], p[i + choose(p.size() - i)]); p.resize(1 + choose(p.size())); return p; };
  while (steps < 30 && (steps < 4 || more(0.9)))
  {
    steps++; size_t op = weighted({2, 2, 1, 2, 1, 1}); if (v.empty()) op = 0;
    size_t i = v.empty() ? 0 : choose(v.size()), j = v.empty() ? 0 : choose(v.size());
    switch (op)
    {
    case 0: if (v.size() < 6) { Strs n = subset(); if (chance(0.3)) { n.resize(1); v.push_back(ObsSet(n[0])); } else v.push_back(ObsSet(n)); m.push_back(n); ev("new of %zu", n.size()); } break;
    case 1: { Strs n = subset(); v[i].SetNames(n); m[i] = n; ev("rename %zu", i); break; }
    case 2: v[i] = v[j]; m[i] = m[j]; ev("assign %zu = %zu", i, j); break;
    case 3: { Strs n = m[i]; for (size_t k = 0; k < n.size(); k++) std::swap(n[k], n[k + choose(n.size() - k)]); v[j].SetNames(n); m[j] = n; ev("reorder %zu into %zu", i, j); break; }
    case 4: if (v.size() < 6) { v.push_back(v[i]); m.push_back(m[i]); ev("copy %zu", i); } break;
    case 5: { Strs n = m[i]; n.resize(1 + choose(n.size())); v[i].SetNames(n); m[i] = n; ev("shrink %zu", i); break; }
    }
    for (size_t a = 0; a < v.size(); a++)
    {
      check(v[a].GetNames() == m[a] && v[a].GetNObservables() == m[a].size(), "observable-set-changed", fmt("set %zu has other names", a));
      for (auto &n : pool)
      {
        auto it = std::find(m[a].begin(), m[a].end(), n); size_t k = 99; Out o = attempt([&] { k = v[a].GetIndex(n); });
        if (it == m[a].end()) check(o == ERR, "unknown-observable-found", fmt("set %zu has a position for %s, which it does not hold", a, n.c_str()));
        else check(o == OK && k == size_t(it - m[a].begin()), "observable-position", fmt("set %zu has %s at %zu", a, n.c_str(), k));
      }
      for (size_t b = 0; b < v.size(); b++)
      {
        check((v[a] == v[b]) == (m[a] == m[b]) && (v[a] != v[b]) == (m[a] != m[b]), "observable-set-equality", fmt("sets %zu and %zu", a, b));
        std::vector<size_t> want, got; bool in = true; for (auto &n : m[a]) { auto it = std::find(m[b].begin(), m[b].end(), n); if (it == m[b].end()) in = false; want.push_back(it - m[b].begin()); }
        Out o = attempt([&] { got = v[a].GetRelativeIndices(v[b]); });
        check((o == OK) == in && (!in || got == want), "relative-positions", fmt("positions of set %zu in set %zu (%d)", a, b, o));
      }
    }
  }
  nontrivial();
}

// ---------------------------------------------------------------------------------------------------
static std::string pagedName(size_t i) { return i == 3 ? "f0.h5.h5" : fmt("f%zu.h5", i); } // one is the beginning of another
SIM_WORKLOAD("L01", lazy_paging, 10, "")
{
  Quiet q; size_t nf = 1 + choose(4); std::vector<Table> t; long biggest = 0;
  for (size_t i = 0; i < nf; i++)
  {
    t.push_back(table(1 + choose(chance(0.1) ? 300 : 20), 1 + choose(3), false)); OXSXDataSet d; fill(d, t[i]); IO::SaveDataSet(d, pagedName(i));
    long a = liveAllocs(); OXSXDataSet *l = IO::LoadDataSet(pagedName(i)); biggest = std::max(biggest, liveAllocs() - a); delete l;
  }
  struct L { std::unique_ptr<LazyOXSXDataSet> d; size_t f; int id; }; std::vector<L> ls; std::vector<Held> held; int next = 0;
  auto forget = [&](int id) { for (size_t i = 0; i < held.size();) if (held[i].from == id) held.erase(held.begin() + i); else i++; };
  int steps = 0; bool rich = false; long base = -1;
  while (steps < 50 && (steps < 4 || more(0.92)))
  {
    steps++; size_t op = weighted({3, 8, 3, 1, 1, 2, 2, 2, 2}); if (ls.empty()) op = 0;
    size_t i = ls.empty() ? 0 : choose(ls.size()), j = ls.empty() ? 0 : choose(ls.size()); std::string why, s;
    switch (op)
    {
    case 0: if (ls.size() < 6) { size_t f = choose(nf); L l; l.d.reset(new LazyOXSXDataSet(pagedName(f))); l.f = f; l.id = next++; ls.push_back(std::move(l)); ev("new %zu", f); } break;
    case 1: { size_t k = choose(t[ls[i].f].nEv); ev("event %zu of %d", k, ls[i].id); Held h = {ls[i].d->GetEntry(k), t[ls[i].f].row(k), t[ls[i].f].names, ls[i].id, true}; s = checkEvent(h.e, h.row, h.names, true); check(s.empty(), "paged-event-differs", s); if (held.size() < 10) held.push_back(h); break; }
    case 2: { ev("all of %d", ls[i].id); s = diff(*ls[i].d, t[ls[i].f], true); check(s.empty(), "paged-set-differs", s); break; }
    case 3: ev("load %d", ls[i].id); ls[i].d->Load(); break;
    case 4: ev("close %d", ls[i].id); ls[i].d->Close(); break;
    case 5: if (ls.size() < 6) { L l; l.d.reset(new LazyOXSXDataSet(*ls[i].d)); l.f = ls[i].f; l.id = next++; ls.push_back(std::move(l)); rich = true; ev("copy %d", ls[i].id); } break;
    case 6: ev("assign %d = %d", ls[i].id, ls[j].id); if (i != j) forget(ls[i].id); *ls[i].d = *ls[j].d; ls[i].f = ls[j].f; rich = true; break;
    case 7: ev("destroy %d", ls[i].id); forget(ls[i].id); ls.erase(ls.begin() + i); rich = true; break;
    case 8: // the file cannot be read for a while
    {
      if (chance(0.4))
      { // or there is no memory for it, right up to the last bit
        uint64_t n = 0; { LazyOXSXDataSet probe_(pagedName(ls[i].f)); long a = (long)allocCount(); probe_.GetNEntries(); n = allocCount() - a; } ls[i].d->Close();
        Out r; bool fired; { NoAllocFault g0; std::unique_ptr<AllocFault> af(new AllocFault(chance(0.5) ? 1 + choose(n + 1) : n - choose(std::min<uint64_t>(n, 8)))); { allocPause(false); r = attempt([&] { ls[i].d->GetNEntries(); }, &why); allocPause(true); } fired = af->fired(); }
        ev("no memory for %d -> %d", ls[i].id, r); if (!fired) check(r == OK, "load-failed-without-fault", why); break;
      }
      disk::Plan p; int o = chance(0.5) ? disk::OPEN : disk::READ; p.failAt[o] = (long)choose(o == disk::OPEN ? 2 : 6); p.sticky[o] = true; disk::arm(p);
      Out r = attempt([&] { s = diff(*ls[i].d, t[ls[i].f], false); }, &why); bool fired = disk::hardFired(); disk::disarm();
      ev("unreadable %d -> %d", ls[i].id, r); if (r == OK) check(s.empty(), "load-reported-success-but-wrong-data", s); else check(fired, "load-failed-without-fault", why);
      break;
    }
    }
    for (Held &h : held) { s = checkEvent(h.e, h.row, h.names, h.namesKnown); check(s.empty(), "event-changed", s); }
    state(mix(mix(ls.size(), held.size()), op));
  }
  // memory: after every set was read in turn, closing the last one gives back everything that was paged in
  held.clear(); held.shrink_to_fit();
  if (!ls.empty())
  {
    for (auto &l : ls) l.d->Close();
    base = liveAllocs(); long peak = 0;
    for (int r = 0; r < 2; r++) for (auto &l : ls) { l.d->GetNEntries(); { NoAllocFault g; peak = std::max(peak, liveAllocs() - base); } }
    for (auto &l : ls) l.d->Close();
    long after = liveAllocs() - base;
    check(after <= 40 + 4 * (long)ls.size(), "paged-memory-not-returned", fmt("%ld blocks remain after closing every set (biggest file takes %ld)", after, biggest));
    check(peak <= biggest + 40 + 6 * (long)ls.size(), "several-files-in-memory", fmt("%ld blocks in use while reading %zu sets one after another, the biggest file takes %ld", peak, ls.size(), biggest));
  }
  if (rich) nontrivial();
}
