// Cut flow, filling of distributions and counting experiments (K01).
#include "io_faults.h"
#include <IO.h>
#include <LazyOXSXDataSet.h>
#include <BinnedED.h>
#include <DistFiller.h>
#include <CutCollection.h>
#include <CutLog.h>
#include <BoxCut.h>
#include <LineCut.h>
#include <BoolCut.h>
#include <CountingExperiment.h>
#include <EventScale.h>
#include <EventShift.h>
#include <EventReconvolution.h>
#include <EventSystematicManager.h>
using namespace work;
using namespace sim;
namespace
{
// a data source that stops working for a while
struct Flaky : public DataSet
{
  const OXSXDataSet &d; mutable long left;
  Flaky(const OXSXDataSet &x) : d(x), left(-1) {}
  Event GetEntry(size_t i) const { if (left == 0) { fault("source-error"); throw IOError("simulated: source unreadable"); } if (left > 0) left--; return d.GetEntry(i); }
  unsigned GetNEntries() const { return d.GetNEntries(); }
  std::vector<std::string> GetObservableNames() const { return d.GetObservableNames(); }
  unsigned GetNObservables() const { return d.GetNObservables(); }
};
struct CutM { int kind; size_t obs; double a, b; std::string name; };
bool passes(const CutM &c, const Doubles &r)
{
  double v = r[c.obs];
  switch (c.kind) { case 0: return v > c.a && v < c.b; case 1: return v > c.a; case 2: return v < c.a; default: return v == c.a; }
}
struct SysM { int kind; size_t in, out; double p; std::shared_ptr<EventSystematic> s; };
Doubles warp(const std::vector<SysM> &v, Doubles r)
{
  for (const SysM &s : v)
    if (s.kind == 0) r[s.out] = r[s.out] * s.p;
    else if (s.kind == 1) r[s.out] = r[s.out] + s.p;
    else r[s.out] = r[s.in] + s.p * (r[s.out] - r[s.in]);
  return r;
}
// dyadic values: sums and products of a few of them are exact, so no borderline comparison depends on rounding
double dy() { return chance(0.08) ? anyDouble() : (double)range(-40, 40) / 8; }
struct AxM { std::string name; Doubles lo, hi; };
size_t binOf(const AxM &a, double v) { for (size_t i = 0; i < a.hi.size(); i++) if (v < a.hi[i]) return i; return a.hi.size() - 1; }
size_t binOf(const std::vector<AxM> &ax, const std::vector<size_t> &obs, const Doubles &r) { size_t b = 0; for (size_t i = 0; i < ax.size(); i++) b = b * ax[i].hi.size() + binOf(ax[i], r[obs[i]]); return b; }
bool anyNaN(const Doubles &r) { for (double d : r) if (std::isnan(d)) return true; return false; }
std::unique_ptr<Cut> makeCut(const CutM &c, const Strs &names)
{
  if (c.kind == 0) return std::unique_ptr<Cut>(new BoxCut(c.name, names[c.obs], c.a, c.b));
  if (c.kind == 1) return std::unique_ptr<Cut>(new LineCut(c.name, names[c.obs], c.a, "lower"));
  if (c.kind == 2) return std::unique_ptr<Cut>(new LineCut(c.name, names[c.obs], c.a, "upper"));
  return std::unique_ptr<Cut>(new BoolCut(c.name, names[c.obs], c.a));
}
std::vector<CutM> cutModels(size_t nObs)
{
  std::vector<CutM> v; size_t n = choose(5);
  for (size_t i = 0; i < n; i++) { CutM c; c.kind = choose(4); c.obs = choose(nObs); c.a = range(-40, 30) / 8.; c.b = c.a + range(0, 60) / 8.; c.name = id("c", i); v.push_back(c); }
  return v;
}
std::vector<SysM> sysModels(size_t nObs, const Strs &names)
{
  std::vector<SysM> v; size_t n = chance(0.85) ? choose(4) : 2 + choose(5);
  for (size_t i = 0; i < n; i++)
  {
    SysM s; s.kind = choose(3); s.in = choose(nObs); s.out = choose(nObs); s.p = s.kind == 1 ? range(-16, 16) / 8. : range(1, 6) / 2.;
    if (s.kind == 0) { EventScale *e = new EventScale(fmt("s%zu", i)); e->SetScale(s.p); s.s.reset(e); }
    else if (s.kind == 1) { EventShift *e = new EventShift(fmt("s%zu", i)); e->SetShift(s.p); s.s.reset(e); }
    else { EventReconvolution *e = new EventReconvolution(fmt("s%zu", i)); e->SetCorrection(s.p); check(e->GetCorrection() == s.p, "setting-differs", "correction of a reconvolution"); s.s.reset(e); }
    s.s->SetInObservables(Strs(1, names[s.in])); s.s->SetOutObservables(Strs(1, names[s.out])); check(s.s->GetInObservables() == Strs(1, names[s.in]) && s.s->GetOutObservables() == Strs(1, names[s.out]), "systematic-observables-differ", ""); v.push_back(s);
    if (chance(0.1)) v.push_back(s); // the same one again acts twice
  }
  return v;
}
void tweak(std::vector<SysM> &v)
{
  if (v.empty()) return; SysM &s = v[choose(v.size())]; s.p = s.kind == 1 ? range(-16, 16) / 8. : range(1, 6) / 2.;
  std::string n = *s.s->GetParameterNames().begin(); if (chance(0.5)) s.s->SetParameter(n, s.p); else { ParameterDict d; d[n] = s.p; d["unrelated"] = 5; s.s->SetParameters(d); }
  check(s.s->GetParameter(n) == s.p, "parameter-lost", "event systematic parameter"); for (SysM &o : v) if (o.s == s.s) o.p = s.p;
}
struct Flow { std::vector<long> cut; long pass, total; std::map<size_t, double> bins; Flow() : pass(0), total(0) {} };
struct Sample { OXSXDataSet d; std::vector<Doubles> rows; };
void make(Sample &s, const Strs &names, size_t maxEv, bool nan)
{
  s.d.SetObservableNames(names); size_t n = choose(maxEv + 1);
  for (size_t i = 0; i < n; i++) { Doubles r; for (size_t o = 0; o < names.size(); o++) { double v = dy(); if (!nan && !std::isfinite(v)) v = 1; if (fabs(v) > 1e100 || (v != 0 && fabs(v) < 1e-100)) v = 2; r.push_back(v); } s.rows.push_back(r); s.d.AddEntry(Event(r)); }
}
void step(Flow &f, const std::vector<CutM> &cuts, const Doubles &r, const std::vector<AxM> &ax, const std::vector<size_t> &obs)
{
  f.total++; f.cut.resize(cuts.size());
  for (size_t i = 0; i < cuts.size(); i++) if (!passes(cuts[i], r)) { f.cut[i]++; return; }
  f.pass++; if (!ax.empty()) f.bins[binOf(ax, obs, r)] += 1;
}
std::string sameLog(CutLog &l, const Flow &f, const std::vector<CutM> &cuts)
{
  std::vector<int> c = l.GetCutCounts(); if (c.size() != cuts.size()) return "wrong number of cuts";
  Strs n = l.GetCutNames(); for (size_t i = 0; i < cuts.size(); i++) { if (n[i] != cuts[i].name) return "cut name " + n[i]; if (c[i] != (i < f.cut.size() ? f.cut[i] : 0)) return fmt("cut %zu removed %d events instead of %ld", i, c[i], i < f.cut.size() ? f.cut[i] : 0); }
  if (f.total) { if (chance(0.5)) { l.CalculateMeta(); Doubles p = l.GetCutPercentages(); if (p.size() != cuts.size()) return "wrong number of percentages"; for (size_t i = 0; i < cuts.size(); i++) if (!close(p[i], 100. * f.cut[i] / f.total, 1e-9, 1e-9)) return fmt("cut %zu removed %.9g%% instead of %.9g%%", i, p[i], 100. * f.cut[i] / f.total);
      std::vector<int> rc = l.GetRemainderCounts(); Doubles rp = l.GetRemainderPercentages(); if (rc.size() != cuts.size() || rp.size() != cuts.size()) return "wrong number of remainders"; long rest = f.total; for (size_t i = 0; i < cuts.size(); i++) { rest -= f.cut[i]; if (rc[i] != rest || !close(rp[i], 100. * rest / f.total, 1e-9, 1e-9)) return fmt("after cut %zu %d events or %.9g%% remain instead of %ld", i, rc[i], rp[i], rest); } }
    if (!cuts.empty())
    { // the printed cut flow: name, removed, %, remaining, %
      std::istringstream is(l.AsString()); std::string line; std::getline(is, line); long rest = f.total;
      for (size_t i = 0; i < cuts.size(); i++)
      {
        const std::string &n = cuts[i].name; long k = -1, r = -1; double pk = -1, pr = -1; std::getline(is, line); rest -= f.cut[i];
        bool named = line.compare(0, n.size(), n) == 0; if (named && n.size() >= 15) continue; // longer names run into the numbers
        if (named) { std::istringstream row(line.substr(n.size())); row >> k >> pk >> r >> pr; }
        if (!named || k != f.cut[i] || r != rest || !close(pk, 100. * f.cut[i] / f.total, 2e-2, 1e-2) || !close(pr, 100. * rest / f.total, 2e-2, 1e-2)) return fmt("the printed cut flow of cut %zu is '%s'", i, line.c_str());
      }
    } }
  return "";
}
std::string sameBins(const BinnedED &d, const std::map<size_t, double> &b)
{
  double tot = 0;
  for (size_t i = 0; i < d.GetNBins(); i++) { std::map<size_t, double>::const_iterator it = b.find(i); double w = it == b.end() ? 0 : it->second; tot += w; if (d.GetBinContent(i) != w) return fmt("bin %zu holds %g instead of %g", i, d.GetBinContent(i), w); }
  if (d.Integral() != tot) return "integral differs from the number of events"; return "";
}
}
SIM_WORKLOAD("K01", fill_and_cut, 6, "")
{
  Quiet q; size_t nObs = 1 + choose(3); Strs nm = names(nObs, false); bool nan = chance(0.3);
  std::vector<std::unique_ptr<Sample>> samples; size_t ns = 1 + choose(3); for (size_t i = 0; i < ns; i++) { samples.emplace_back(new Sample); make(*samples[i], nm, 30, nan); }
  // distribution over a subset of the observables in any order
  size_t nd = 1 + choose(std::min<size_t>(nObs, 2)); std::vector<size_t> obs; while (obs.size() < nd) { size_t o = choose(nObs); if (std::find(obs.begin(), obs.end(), o) == obs.end()) obs.push_back(o); else obs.push_back((o + 1) % nObs), obs.erase(std::unique(obs.begin(), obs.end()), obs.end()); }
  std::vector<AxM> ax; AxisCollection axes; Strs obsNames;
  for (size_t i = 0; i < nd; i++)
  {
    AxM a; a.name = nm[obs[i]]; size_t nb = 1 + choose(6);
    double x = range(-32, 0) / 8.; bool even = chance(0.5); double w = range(1, 8) / 8.;
    for (size_t b = 0; b < nb; b++) { double ww = even ? w : range(1, 12) / 8.; a.lo.push_back(x); x += ww; a.hi.push_back(x); }
    if (even) axes.AddAxis(BinAxis(a.name, a.lo[0], a.hi.back(), nb)); else axes.AddAxis(BinAxis(a.name, a.lo, a.hi));
    ax.push_back(a); obsNames.push_back(nm[obs[i]]);
  }
  if (nan) { // a NaN value belongs to no bin: keep NaN out of the binned observables
    for (auto &s : samples) { OXSXDataSet d; d.SetObservableNames(nm); for (auto &r : s->rows) { for (size_t o : obs) if (std::isnan(r[o])) r[o] = 3; d.AddEntry(Event(r)); } s->d = d; } }
  std::vector<CutM> cm = cutModels(nObs); CutCollection cuts; for (CutM &c : cm) cuts.AddCut(*makeCut(c, nm));
  std::vector<SysM> sm = sysModels(nObs, nm);
  std::vector<CutM> cm2 = cm; CutCollection copy = cuts; if (chance(0.2)) { CutM c = {1, 0, 0., 0, "extra"}; cuts.AddCut(*makeCut(c, nm)); cm.push_back(c); }
  BinnedED dist("d", axes); dist.SetObservables(obsNames); CutLog log(cuts.GetCutNames()); Flow fl, flDist; bool faulted = false;
  fl.cut.resize(cm.size());
  int steps = 0;
  while (steps < 15 && (steps < 2 || more(0.85)))
  {
    steps++; Sample &s = *samples[choose(ns)]; Flaky src(s.d); bool useLog = chance(0.6), useSys = chance(0.6), all = !chance(0.3);
    bool useCopy = !useLog && chance(0.3); const std::vector<CutM> &m = useCopy ? cm2 : cm; const CutCollection &cc = useCopy ? copy : cuts;
    if (useSys && chance(0.3)) tweak(sm);
    int n = all ? -1 : range(0, (int)s.rows.size() + (chance(0.1) ? 2 : 0)); size_t want = all ? s.rows.size() : n; bool beyond = want > s.rows.size();
    if (chance(0.25)) src.left = choose(want + 2);
    EventSystematicManager man; if (chance(0.2)) { if (!sm.empty()) man.Add(sm[0].s.get()); man.Clear(); } if (useSys) for (SysM &x : sm) man.Add(x.s.get()); check(man.GetNSystematics() == (useSys ? sm.size() : 0) && man.GetSystematics().size() == man.GetNSystematics(), "systematic-count-differs", "");
    bool bad = false; for (size_t i = 0; i < std::min(want, s.rows.size()) && !bad; i++) { Doubles r = warp(useSys ? sm : std::vector<SysM>(), s.rows[i]); for (size_t o : obs) if (std::isnan(r[o])) bad = true; }
    if (bad) continue;
    std::string why; Out o = attempt([&] { if (useLog) DistFiller::FillDist(dist, src, cc, log, man, n); else DistFiller::FillDist(dist, src, cc, man, n); }, &why);
    ev("fill %zu of %zu log %d sys %d -> %d", want, s.rows.size(), useLog, useSys, o);
    bool shouldFail = beyond || (src.left == 0 && false);
    if (o == OK)
    {
      check(!shouldFail, "filled-beyond-the-end", "more events than the set has were filled");
      for (size_t i = 0; i < want; i++) { Doubles r = warp(useSys ? sm : std::vector<SysM>(), s.rows[i]); step(flDist, m, r, ax, obs); if (useLog) step(fl, m, r, std::vector<AxM>(), obs); }
    }
    else
    {
      check(beyond || src.left == 0, "fill-failed-without-fault", why); faulted = true;
      // everything up to some event was accounted for, in the distribution and in the log alike
      std::string d, l; bool match = false; Flow a = flDist, b = fl;
      for (size_t i = 0; i <= std::min(want, s.rows.size()) && !match; i++)
      {
        d = sameBins(dist, a.bins); l = useLog ? sameLog(log, b, cm) : ""; match = d.empty() && l.empty(); if (match || i == std::min(want, s.rows.size())) break;
        Doubles r = warp(useSys ? sm : std::vector<SysM>(), s.rows[i]); step(a, m, r, ax, obs); if (useLog) step(b, m, r, std::vector<AxM>(), obs);
      }
      check(match, "inconsistent-after-failure", d + " " + l); flDist = a; fl = b;
    }
    std::string e = sameBins(dist, flDist.bins); check(e.empty(), "distribution-differs", e);
    e = sameLog(log, fl, cm); check(e.empty(), "cut-log-differs", e);
    if (chance(0.2)) { CutCollection z; z = cuts; CutCollection &alias = z; z = alias; Doubles r; for (size_t k = 0; k < nObs; k++) r.push_back(dy()); Event ee(r); ee.SetObservableNames(&nm); bool w = true; for (CutM &c : cm) w = w && passes(c, r); check(z.PassesCuts(ee) == w, "cut-decision-differs", "copied cut collection"); }
    if (chance(0.15)) { dist.Empty(); flDist.bins.clear(); }
    state(mix(mix(cm.size(), sm.size()), mix(faulted, useLog)));
  }
  if (faulted || (fl.total && flDist.pass != flDist.total && flDist.pass)) nontrivial();
}

// cuts whose settings change, alone and in collections that must not notice
SIM_WORKLOAD("K01", cut_settings, 1, "")
{
  Quiet q; size_t nObs = 1 + choose(3); Strs nm = names(nObs, false); struct C { CutM m; std::unique_ptr<Cut> c; }; std::vector<C> v; struct Col { CutCollection c; std::vector<CutM> m; }; std::vector<Col> cols(1); int steps = 0; std::string why;
  // a collection that could not be changed for want of memory is as it was
  auto guarded = [&](const std::function<void()> &f, size_t n) { std::unique_ptr<AllocFault> af; if (chance(0.2)) { NoAllocFault g; af.reset(new AllocFault(1 + choose(n))); } Out o = attempt(f, &why); bool fired = af && af->fired(); NoAllocFault g; af.reset(); check(o == OK || fired, "operation-failed", why); return o == OK; };
  auto lim = [] { return chance(0.1) ? pick(Doubles{0., -0., HUGE_VAL, -HUGE_VAL, 1e-12, -1e12}) : range(-40, 40) / 8.; };
  while (steps < 30 && (steps < 4 || more(0.9)))
  {
    steps++; size_t op = weighted({2, 4, 2, 1, 1, 1, 1, 1}); if (v.empty()) op = 0; size_t i = v.empty() ? 0 : choose(v.size()), k = choose(cols.size()); ev("op %zu", op);
    switch (op)
    {
    case 0: if (v.size() < 6) { C x; x.m.kind = choose(4); x.m.obs = choose(nObs); x.m.a = lim(); x.m.b = lim(); x.m.name = chance(0.5) ? fmt("c%d", steps) : id("c", choose(2)); x.c = makeCut(x.m, nm); v.push_back(std::move(x)); } break;
    case 1:
    {
      CutM &m = v[i].m; double x = lim();
      if (BoxCut *b = dynamic_cast<BoxCut *>(v[i].c.get())) { if (chance(0.5)) { b->SetLowerLimit(x); m.a = x; } else { b->SetUpperLimit(x); m.b = x; } check(b->GetLowerLimit() == m.a && b->GetUpperLimit() == m.b, "cut-setting-lost", "limits of a box cut"); }
      if (LineCut *l = dynamic_cast<LineCut *>(v[i].c.get()))
      {
        size_t how = choose(3); if (how == 0) { l->SetCutValue(x); m.a = x; } else if (how == 1) { bool up = chance(0.5); l->SetSidedness(up ? "upper" : "lower"); m.kind = up ? 2 : 1; } else check(attempt([&] { l->SetSidedness(pick(Strs{"both", "", "Upper", "uppe"})); }) == ERR, "bad-side-accepted", "sidedness");
        check(l->GetCutValue() == m.a && l->GetSidedness() == (m.kind == 2 ? "upper" : "lower"), "cut-setting-lost", "value or side of a line cut");
      }
      break;
    }
    case 2: if (cols[k].m.size() < 6) { CutCollection &c = cols[k].c; Cut &cut = *v[i].c; if (guarded([&] { c.AddCut(cut); }, 4)) { cols[k].m.push_back(v[i].m); nontrivial(); } } break;
    case 3: if (cols.size() < 4) cols.push_back(cols[k]); break;
    case 4: { Col &to = cols[choose(cols.size())], &from = cols[k]; if (guarded([&] { to.c = from.c; }, 1 + 3 * from.m.size())) to.m = from.m; break; }
    case 5: if (v.size() < 6) { C x; x.m = v[i].m; x.c.reset(v[i].c->Clone()); v.push_back(std::move(x)); } break;
    case 6: if (v.size() > 1) v.erase(v.begin() + i); break;
    case 7: // cuts of the same names that cut elsewhere, assigned one way or the other
    { Col twin; for (CutM m : cols[k].m) { if (chance(0.6)) { m.kind = choose(4); m.obs = choose(nObs); m.a = lim(); m.b = lim(); } twin.c.AddCut(*makeCut(m, nm)); twin.m.push_back(m); } if (chance(0.5)) cols[k] = twin; else { Col copy = cols[k]; if (cols.size() < 4) cols.push_back(twin); twin = copy; } break; }
    }
    Doubles r; for (size_t o = 0; o < nObs; o++) { double x = dy(); if (chance(0.3) && !v.empty()) { CutM &m = v[choose(v.size())].m; x = chance(0.5) ? m.a : m.b; if (std::isfinite(x) && chance(0.4)) x = std::nextafter(x, chance(0.5) ? HUGE_VAL : -HUGE_VAL); } r.push_back(x); } Event e(r); e.SetObservableNames(&nm);
    for (C &c : v) { check(c.c->PassesCut(e) == passes(c.m, r), "cut-decision-differs", fmt("kind %d at %.17g", c.m.kind, r[c.m.obs])); check(c.c->GetName() == c.m.name, "cut-setting-lost", "name of a cut"); }
    for (Col &c : cols)
    {
      Strs n; bool ok = true; size_t first = 0; for (CutM &m : c.m) n.push_back(m.name); while (first < c.m.size() && passes(c.m[first], r)) first++; ok = first == c.m.size();
      check(c.c.GetCutNames() == n, "cut-setting-lost", "names of the cuts of a collection"); check(c.c.PassesCuts(e) == ok, "cut-decision-differs", "collection"); CutLog l(n); check(c.c.PassesCuts(e, l) == ok, "cut-decision-differs", "collection with a log");
      std::vector<int> cc = l.GetCutCounts(); for (size_t x = 0; x < cc.size(); x++) check(cc[x] == (x == first), "cut-log-differs", fmt("an event removed by cut %zu is logged at cut %zu", first, x));
    }
    if (chance(0.2)) { Strs other(1, "elsewhere"); Event f(Doubles(1, 1.)); f.SetObservableNames(&other); for (C &c : v) check(attempt([&] { c.c->PassesCut(f); }, &why) == ERR, "missing-observable-cut", "a cut decided about an event without its observable"); }
    state(mix(op, mix(v.size(), cols.size())));
  }
}

namespace
{
Strs withoutDate(const std::string &text) { Strs r; std::istringstream is(text); std::string l; while (std::getline(is, l)) r.push_back(l); return r; }
// the table at the end of a counting report
std::string sameSummary(const std::string &text, const Doubles &rates, const Doubles &errs, const Strs &names, double eff, long obs)
{
  size_t at = text.rfind("Background "), n = rates.size(); if (at == std::string::npos) return "no summary"; std::istringstream is(text.substr(at)); std::string l; std::getline(is, l); double last = INFINITY; std::vector<bool> used(n, false);
  auto num = [](const std::string &s) { std::istringstream i(s); double x = NAN; i >> x; return x; };
  for (size_t i = 0; i < n; i++)
  {
    std::getline(is, l); size_t pm = l.rfind(" +- "); if (pm == std::string::npos) return "line '" + l + "'"; double e = num(l.substr(pm + 4)); bool found = false;
    for (size_t k = 0; k < n && !found; k++) if (!used[k] && l.compare(0, names[k].size(), names[k]) == 0 && close(e, errs[k], 2e-5, 1e-9))
    { double r = num(l.substr(names[k].size())); if (close(r, rates[k], 2e-5, 1e-9)) { used[k] = found = true; if (rates[k] > last * (1 + 1e-9)) return "order of the backgrounds"; last = rates[k]; } }
    if (!found) return "no background has the line '" + l + "'";
  }
  double sum = 0, sq = 0; for (size_t i = 0; i < n; i++) { sum += rates[i]; sq += errs[i] * errs[i]; }
  std::getline(is, l); size_t pm = l.rfind(" +- "); if (l.compare(0, 7, "Total :") || pm == std::string::npos || !close(num(l.substr(7)), sum, 2e-5, 1e-9) || !close(num(l.substr(pm + 4)), sqrt(sq), 2e-5, 1e-9)) return "line '" + l + "'";
  std::getline(is, l); std::getline(is, l); if (l.compare(0, 17, "Signal Efficiency") || (eff >= 0 && !close(num(l.substr(17)), eff, 2e-5, 1e-9))) return "line '" + l + "'";
  std::getline(is, l); std::getline(is, l); if (l.compare(0, 9, "Observed:") || (obs >= 0 && num(l.substr(9)) != (double)obs)) return "line '" + l + "'";
  return "";
}
}
SIM_WORKLOAD("K01", counting_experiment, 5, "")
{
  Quiet q; size_t nObs = 1 + choose(3); Strs nm = names(nObs, false); bool nan = chance(0.3);
  std::vector<std::unique_ptr<Sample>> smp; std::vector<std::unique_ptr<Flaky>> src; size_t ns = 2 + choose(4);
  for (size_t i = 0; i < ns; i++) { smp.emplace_back(new Sample); make(*smp[i], nm, 25, nan); if (smp[i]->rows.empty()) { Doubles r(nObs, 1.5); smp[i]->rows.push_back(r); smp[i]->d.AddEntry(Event(r)); } src.emplace_back(new Flaky(smp[i]->d)); }
  CountingExperiment ex; std::vector<CutM> cm; std::vector<SysM> sm = sysModels(nObs, nm), used; struct Bg { size_t s; double norm; std::string name; }; std::vector<Bg> bgs; size_t sig = 0; bool haveSig = false;
  long obsCount = -1; bool counted = false, sigCounted = false; Doubles rates, errs; double eff = -1; int steps = 0; bool faulted = false; std::string why;
  auto pass = [&](size_t s) { long n = 0; for (auto &r0 : smp[s]->rows) { Doubles r = warp(used, r0); bool ok = true; for (CutM &c : cm) ok = ok && passes(c, r); n += ok; } return n; };
  auto logOf = [&](size_t s) { Strs cn; for (CutM &c : cm) cn.push_back(c.name); CutLog l(cn); for (auto &r0 : smp[s]->rows) { Doubles r = warp(used, r0); size_t k = 0; while (k < cm.size() && passes(cm[k], r)) k++; if (k < cm.size()) l.LogCut(k); else l.LogPass(); } return l.AsString(); };
  std::string dataLog, sigLog; Strs bgLogs, bgNames;
  auto breakAll = [&]() { if (!chance(0.25)) return; size_t i = choose(ns); src[i]->left = choose(smp[i]->rows.size() + 1); };
  auto mend = [&]() { for (auto &s : src) s->left = -1; };
  auto broke = [&]() { for (auto &s : src) if (s->left == 0) return true; return false; };
  while (steps < 25 && (steps < 5 || more(0.9)))
  {
    steps++; size_t op = weighted({3, 1, 2, 1, 3, 3, 3, 1});
    switch (op)
    {
    case 0: if (cm.size() < 5) { std::vector<CutM> v = cutModels(nObs); if (v.empty()) break; CutM c = v[0]; c.name = id("c", cm.size()); ex.AddCut(*makeCut(c, nm)); cm.push_back(c); ev("cut"); } break;
    case 1: if (used.size() < sm.size()) { used.push_back(sm[used.size()]); ex.AddSystematic(used.back().s.get(), id("s", used.size())); ev("systematic"); } break;
    case 2: if (bgs.size() < 4) { Bg b = {choose(ns), range(0, 400) / 8., bgs.empty() || !chance(0.15) ? id("b", bgs.size()) : bgs[choose(bgs.size())].name}; ex.AddBackground(src[b.s].get(), b.norm, b.name); bgs.push_back(b); ev("background"); } break;
    case 3: sig = choose(ns); haveSig = true; ex.SetSignal(src[sig].get(), "sig"); ev("signal"); break;
    case 4: { size_t s = choose(ns); breakAll(); Out o = attempt([&] { ex.CountData(src[s].get()); }, &why); bool b = broke(); mend(); ev("data -> %d", o); if (o == OK) { obsCount = pass(s); dataLog = logOf(s); counted = true; } else { check(b, "count-failed-without-fault", why); faulted = true; } break; }
    case 5:
    {
      breakAll(); Out o = attempt([&] { ex.CountBackgrounds(); }, &why); bool b = broke(); mend(); ev("backgrounds -> %d", o);
      if (o != OK) { check(b, "count-failed-without-fault", why); faulted = true; o = attempt([&] { ex.CountBackgrounds(); }, &why); check(o == OK, "count-failed-without-fault", "after the source works again: " + why); }
      rates.clear(); errs.clear(); bgLogs.clear(); bgNames.clear(); for (Bg &g : bgs) { bgLogs.push_back(logOf(g.s)); bgNames.push_back(g.name); double n = pass(g.s), t = smp[g.s]->rows.size(); rates.push_back(n * g.norm / t); errs.push_back(sqrt(n) * g.norm / t); } break;
    }
    case 6: if (haveSig) { breakAll(); Out o = attempt([&] { ex.CountSignal(); }, &why); bool b = broke(); mend(); ev("signal -> %d", o); if (o == OK) { eff = (double)pass(sig) / smp[sig]->rows.size(); sigLog = logOf(sig); sigCounted = true; } else { check(b, "count-failed-without-fault", why); faulted = true; } } break;
    case 7: if (!used.empty()) { tweak(used); for (SysM &u : used) for (SysM &x : sm) if (x.s == u.s) x.p = u.p; ev("parameter"); } break;
    }
    const CountingResult &r = ex.GetCountingResult();
    if (counted) check(r.GetObservedCounts() == obsCount, "observed-counts-differ", fmt("%d instead of %ld", r.GetObservedCounts(), obsCount));
    check(r.GetExpectedRates().size() == rates.size(), "backgrounds-miscounted", fmt("%zu backgrounds in the result instead of %zu", r.GetExpectedRates().size(), rates.size()));
    double sum = 0, sq = 0; for (size_t i = 0; i < rates.size(); i++) { check(close(r.GetExpectedRates()[i], rates[i]) && close(r.GetExpectedRateErrors()[i], errs[i]), "background-rate-differs", fmt("background %zu: %.12g +- %.12g instead of %.12g +- %.12g", i, r.GetExpectedRates()[i], r.GetExpectedRateErrors()[i], rates[i], errs[i])); sum += rates[i]; sq += errs[i] * errs[i]; }
    check(close(r.GetExpectedCounts(), sum) && close(r.GetExpectedCountError(), sqrt(sq)), "expected-counts-differ", fmt("%.12g +- %.12g instead of %.12g +- %.12g", r.GetExpectedCounts(), r.GetExpectedCountError(), sum, sqrt(sq)));
    if (sigCounted) check(close(r.GetSignalEfficiency(), eff), "signal-efficiency-differs", fmt("%.12g instead of %.12g", r.GetSignalEfficiency(), eff));
    if (chance(0.3))
    { // the report attributes to every sample its own cut flow
      CountingResult c(r); std::string text = c.AsString(); size_t at = 0; bool ok = true; std::string what;
      auto next = [&](const std::string &part, const std::string &label) { if (!ok) return; size_t k = text.find(part, at); if (k == std::string::npos) { ok = false; what = label; } else at = k + part.size(); };
      for (size_t i = 0; i < bgLogs.size(); i++) { next(bgNames[i], "name of " + bgNames[i]); next(bgLogs[i], "cut flow of " + bgNames[i]); }
      if (sigCounted) { next("sig", "signal"); next(sigLog, "cut flow of the signal"); }
      if (counted) next(dataLog, "cut flow of the data");
      check(ok, "cut-flow-misreported", what); probe("cut-flows-compared");
      std::string e = sameSummary(text, rates, errs, bgNames, sigCounted ? eff : -1, counted ? obsCount : -1); check(e.empty(), "summary-misreported", e);
      if (chance(0.2)) { Strs t = withoutDate(text), p; { std::ostringstream os; std::streambuf *b = std::cout.rdbuf(os.rdbuf()); std::cout.clear(); c.Print(); std::cout.rdbuf(b); if (!b) std::cout.setstate(std::ios::badbit); p = withoutDate(os.str()); } while (!p.empty() && p.back().empty()) p.pop_back(); while (!t.empty() && t.back().empty()) t.pop_back(); check(p == t, "summary-misreported", "what is printed differs"); probe("report-printed"); }
    }
    state(mix(mix(cm.size(), used.size()), mix(bgs.size(), mix(op, faulted))));
  }
  if (!rates.empty() && counted) nontrivial();
}
