// The collections of distributions behind a fit, used directly: EDManager (unbinned; P01, X01) and
// BinnedEDManager (binned, with its three kinds of normalisation; N01).
#include "likeworld.h"
#include <BinnedEDShrinker.h>
#include <EDManager.h>
#include <BinnedEDManager.h>
#include <AnalyticED.h>
#include <CompositeED.h>
using namespace det; using namespace sim;
namespace
{
double density(double x, double m, double s) { return exp(-(x - m) * (x - m) / (2 * s * s)) / (s * sqrt(2 * M_PI)); }
double pos() { return range(1, 40) / 8.; }
double nrm() { return chance(0.2) ? pick(Doubles{0., -1., -2.5, 1e-9, 1e9, 1.}) : pos(); }
typedef std::function<double(const Doubles &)> Fn; // of the observables x, y
struct Dist { std::shared_ptr<EventDistribution> d; Fn f; size_t dims; std::string name; };
Dist makeDist(size_t dims, const std::string &name)
{
  Dist r; r.dims = dims; r.name = name; size_t kind = choose(dims == 2 ? 3 : 2);
  if (kind == 0) { Gaussian g(dims); Doubles m, s; for (size_t i = 0; i < dims; i++) { m.push_back(pos()); s.push_back(pos()); g.SetMean(i, m[i]); g.SetStDev(i, s[i]); } AnalyticED *a = new AnalyticED(name, &g); bool flip = dims == 2 && chance(0.5); Strs o; o.push_back(flip ? "y" : "x"); if (dims == 2) o.push_back(flip ? "x" : "y"); a->SetObservables(ObsSet(o)); r.d.reset(a); r.f = [=](const Doubles &v) { double p = 1; for (size_t i = 0; i < m.size(); i++) p *= density(v[flip ? 1 - i : i], m[i], s[i]); return p; }; }
  else if (kind == 1)
  { Axes ax; ax.push_back(axis("x", false, 4)); if (dims == 2) ax.push_back(axis("y", false, 4)); if (dims == 2 && chance(0.5)) std::swap(ax[0], ax[1]); Doubles c(nBins(ax)); for (double &x : c) x = pos(); BinnedED *b = new BinnedED(name, build(ax)); b->SetObservables(namesOf(ax)); b->SetBinContents(c); r.d.reset(b); double tot = det::sum(c); r.f = [=](const Doubles &v) { std::vector<size_t> u; for (auto &a : ax) u.push_back(findBin(a, v[a.name == "x" ? 0 : 1])); return c[pack(ax, u)] / tot; }; }
  else { double m = pos(), s = pos(), n = pos(), t = pos(); Gaussian g(m, s), h(n, t); AnalyticED a("a", &g), b("b", &h); a.SetObservables(ObsSet(Strs(1, "x"))); b.SetObservables(ObsSet(Strs(1, "y"))); CompositeED *c; if (chance(0.5)) c = new CompositeED(&a, &b); else { std::vector<EventDistribution *> v; v.push_back(&a); v.push_back(&b); c = new CompositeED(v); } if (chance(0.3)) c->Normalise(); c->SetName(name); r.d.reset(c); r.f = [=](const Doubles &v) { return density(v[0], m, s) * density(v[1], n, t); }; }
  return r;
}
struct Man { std::shared_ptr<EDManager> m; std::vector<Fn> f; Strs pname; Doubles norm; size_t dims; std::string name; };
std::string differs(const Man &k, const Event &e, const Doubles &x)
{
  if (k.m->GetNDists() != k.f.size()) return fmt("%zu distributions instead of %zu", k.m->GetNDists(), k.f.size()); if (!k.f.empty() && k.m->GetNDims() != k.dims) return fmt("%zu dimensions instead of %zu", k.m->GetNDims(), k.dims); if (k.m->GetName() != k.name) return "name"; if (k.m->GetNormalisations() != k.norm) return "normalisations differ";
  ParameterDict d; for (size_t i = 0; i < k.f.size(); i++) d[k.pname[i]] = k.norm[i]; if (k.m->GetParameters() != d) return "parameters differ"; std::set<std::string> n; for (auto &p : d) { n.insert(p.first); if (k.m->GetParameter(p.first) != p.second) return "single parameter differs"; } if (k.m->GetParameterNames() != n || k.m->GetParameterCount() != n.size()) return "parameter names differ";
  double want = 0, scale = 0; for (size_t i = 0; i < k.f.size(); i++) { double v = k.norm[i] * k.f[i](x); want += v; scale += fabs(v); } double got = k.m->Probability(e); if (!close(got, want, 1e-7, 1e-7 * scale + 1e-250)) return fmt("probability %.17g instead of %.17g", got, want); return "";
}
void unbinned(bool params, bool faults)
{
  Quiet q; std::string why; bool fired = false; { BinnedED warm("w", AxisCollection()); } Strs obs; obs.push_back("y"); obs.push_back("x"); long before = liveAllocs();
  {
    std::vector<Man> v; int fresh = 0, steps = 0; auto add = [&] { Man m; m.m.reset(new EDManager); m.dims = 0; m.name = "norms"; v.push_back(m); };
    auto put = [&](Man &k) { size_t d = k.f.empty() ? 1 + choose(2) : k.dims; k.dims = d; if (chance(0.7)) { Dist x = makeDist(d, id("d", fresh++)); k.m->AddDist(x.d.get()); k.f.push_back(x.f); k.pname.push_back(x.name); k.norm.push_back(0); } else { std::vector<EventDistribution *> p; std::vector<Dist> keep; for (size_t i = 1 + choose(2); i--;) { keep.push_back(makeDist(d, id("d", fresh++))); p.push_back(keep.back().d.get()); k.f.push_back(keep.back().f); k.pname.push_back(keep.back().name); k.norm.push_back(0); } k.m->AddDists(p); } };
    add(); put(v[0]);
    while (steps < 24 && (steps < 3 || more(0.9)))
    {
      steps++; size_t i = choose(v.size()), j = choose(v.size()), op = params ? choose(9) : weighted({2, 2, 1, 1, 1, 1, 1, 1, 1, 5, 5, 2}); ev("op %zu on %zu %zu", op, i, j); state(mix(op, mix(v[i].f.size(), v.size()))); Man &k = v[i]; Out o = OK;
      auto guarded = [&](const std::function<void()> &f) { std::unique_ptr<AllocFault> af; if (faults && chance(0.4)) af.reset(new AllocFault(1 + choose(15))); o = attempt([&] { f(); }, &why); bool x = af && af->fired(); af.reset(); if (x) { fired = true; probe("out-of-memory"); } check(o == OK || x, "operation-failed", why); };
      switch (op)
      {
      case 0: if (k.f.size() < 5) put(k); break;
      case 1: { Doubles n(k.f.size()); for (double &x : n) x = nrm(); o = attempt([&] { k.m->SetNormalisations(n); }, &why); check(o == OK, "operation-failed", why); k.norm = n; break; }
      case 2: if (k.f.empty()) break; { Doubles n(k.f.size() + (chance(0.5) ? 1 : -1), 3.); check(attempt([&] { k.m->SetNormalisations(n); }, &why) == ERR, "wrong-number-accepted", fmt("%zu normalisations for %zu distributions", n.size(), k.f.size())); break; }
      case 3: if (k.f.empty()) break; { Dist x = makeDist(3 - k.dims, "odd"); check(attempt([&] { k.m->AddDist(x.d.get()); }, &why) == ERR, "wrong-dimensions-accepted", ""); break; }
      case 4: if (k.f.empty()) break; { size_t s = choose(k.f.size()); double x = nrm(); k.m->SetParameter(k.pname[s], x); k.norm[s] = x; break; }
      case 5: { ParameterDict d; for (size_t s = 0; s < k.f.size(); s++) d[k.pname[s]] = k.norm[s] = nrm(); d["zz"] = 1; k.m->SetParameters(d); nontrivial(); break; }
      case 6: if (k.f.empty()) break; { size_t s = choose(k.f.size()); std::string to = id("u", fresh++); k.m->RenameParameter(k.pname[s], to); k.pname[s] = to; break; }
      case 7: { check(attempt([&] { k.m->SetParameter("nosuch", 1); }, &why) == ERR, "unknown-parameter-set", "EDManager"); check(attempt([&] { k.m->RenameParameter("nosuch", "other"); }, &why) == ERR, "unknown-parameter-renamed", "EDManager"); if (!k.f.empty()) { ParameterDict d; size_t miss = choose(k.f.size()); for (size_t s = 0; s < k.f.size(); s++) if (s != miss) d[k.pname[s]] = nrm(); check(attempt([&] { k.m->SetParameters(d); }, &why) == ERR, "missing-parameter-accepted", "EDManager"); ParameterDict now = k.m->GetParameters(); for (size_t s = 0; s < k.f.size(); s++) { check(now.count(k.pname[s]) != 0, "parameter-lost", "EDManager"); double x = now[k.pname[s]]; check(x == k.norm[s] || (s != miss && x == d[k.pname[s]]), "parameter-scrambled", "EDManager"); k.norm[s] = x; } } break; }
      case 8: k.name = fmt("n%d", fresh++); k.m->SetName(k.name); break;
      case 9: if (v.size() < 5) { EDManager *c = 0; guarded([&] { c = new EDManager(*k.m); }); if (o != OK) break; Man n = k; n.m.reset(c); v.push_back(n); nontrivial(); } else v.erase(v.begin() + i); break;
      case 10: guarded([&] { *k.m = *v[j].m; }); if (o != OK) { attempt([&] { *k.m = *v[j].m; }, &why); probe("assigned-again"); } { std::shared_ptr<EDManager> keep = k.m; v[i] = v[j]; v[i].m = keep; if (i == j) probe("self-assignment"); else nontrivial(); } break;
      default: if (v.size() < 5) add();
      }
      Doubles x; x.push_back(range(-20, 40) / 8. + 1 / 64.); x.push_back(range(-20, 40) / 8. + 1 / 64.); Doubles ev_; ev_.push_back(x[1]); ev_.push_back(x[0]); Event e(ev_); e.SetObservableNames(&obs);
      for (size_t a = 0; a < v.size(); a++) { std::string d = differs(v[a], e, x); check(d == "", a == i ? "value-differs" : "copies-not-independent", fmt("after operation %zu, manager %zu: ", op, a) + d); }
    }
  }
  why = std::string(); why.shrink_to_fit(); long left = liveAllocs() - before; if (!fired || thorough) check(left <= 0, fired ? "memory-leaked-after-failure" : "memory-leaked", fmt("%ld blocks were not freed", left));
}

// normalisations of all kinds
struct BPdf { std::string pname; Doubles c; NormFittingStatus st; double val; Doubles w; double norm; }; // w is what the last evaluation left
struct BMan { std::shared_ptr<BinnedEDManager> m; std::vector<BPdf> p; Axes ax; std::string name; Axes wax; bool shrunk; BMan() : shrunk(false) {} };
std::string bdiffers(BMan &k, const Strs &obs)
{
  if (k.m->GetNPdfs() != k.p.size()) return "number of distributions"; if (k.m->GetNDims() != (k.p.empty() ? 0 : k.ax.size())) return fmt("%zu dimensions", k.m->GetNDims()); if (k.m->GetName() != k.name) return "name";
  ParameterDict d; for (auto &p : k.p) if (p.st != FALSE) d[p.pname] = p.val; if (k.m->GetParameters() != d) { std::string s = "parameters are"; for (auto &x : k.m->GetParameters()) s += fmt(" %s=%g", x.first.c_str(), x.second); s += " instead of"; for (auto &x : d) s += fmt(" %s=%g", x.first.c_str(), x.second); return s; }
  std::set<std::string> n; for (auto &x : d) { n.insert(x.first); if (k.m->GetParameter(x.first) != x.second) return "single parameter"; } if (k.m->GetParameterNames() != n || k.m->GetParameterCount() != n.size()) return "parameter names";
  for (size_t i = 0; i < k.p.size(); i++) if (k.m->GetOriginalPdf(i).GetBinContents() != k.p[i].c) return fmt("distribution %zu", i);
  if (k.p.empty()) return "";
  { Doubles n = k.m->GetNormalisations(); for (size_t i = 0; i < n.size(); i++) if (k.p[i].st == FALSE && !close(n[i], k.p[i].norm)) return fmt("normalisation %zu is %.17g instead of %.17g", i, n[i], k.p[i].norm); }
  for (int t = 0; t < 3; t++)
  {
    size_t b = choose(nBins(k.wax)); double want = 0, wantE = 0; for (auto &p : k.p) { double w = p.st == FALSE ? 1 : p.val; want += w * p.w[b]; wantE += w * p.w[b] / det::sum(p.w); } double got = k.m->BinProbability(b); if (!close(got, want)) return fmt("bin %zu has %.17g instead of %.17g", b, got, want);
    std::vector<size_t> u = unpack(k.wax, b); Doubles x; for (auto &o : obs) { size_t a = indexOf(k.wax, o); x.push_back(a == (size_t)-1 ? 99 : centre(k.wax[a], u[a])); } Event e(x); e.SetObservableNames(&obs); got = k.m->Probability(e); if (!close(got, wantE)) return fmt("an event in bin %zu has %.17g instead of %.17g", b, got, wantE);
  }
  return "";
}
void binned()
{
  Quiet q; std::string why; std::vector<BMan> v; int fresh = 0, steps = 0; Strs obs; obs.push_back("u"); obs.push_back("y"); obs.push_back("x"); obs.push_back("z");
  auto restore = [&](BMan &k) { SystematicManager none; k.m->ApplySystematics(none); k.wax = k.ax; k.shrunk = false; for (auto &p : k.p) { p.w = p.c; if (p.st == FALSE) p.norm = det::sum(p.c); } };
  auto pdf = [&](BMan &k, NormFittingStatus s, BinnedED &e) { BPdf p; p.pname = fmt("n%d", fresh++); p.st = s; p.val = 0; p.norm = 0; p.c.resize(nBins(k.ax)); for (double &x : p.c) x = range(1, 32) / 8.; p.w = p.c; e = BinnedED(p.pname, build(k.ax)); e.SetObservables(namesOf(k.ax)); e.SetBinContents(p.c); k.p.push_back(p); };
  auto put = [&](BMan &k) { if (k.p.empty()) { k.ax.clear(); k.ax.push_back(axis("x", false, 4)); if (chance(0.6)) { k.ax.push_back(axis("y", false, 3)); if (chance(0.5)) k.ax.push_back(axis("z", false, 3)); } k.wax = k.ax; } bool before = chance(0.5), dirty = k.shrunk || namesOf(k.wax) != namesOf(k.ax); if (before && dirty) restore(k); BinnedED e; if (chance(0.7)) { NormFittingStatus s = (NormFittingStatus)choose(3); pdf(k, s, e); if (s == INDIRECT && chance(0.5)) k.m->AddPdf(e); else k.m->AddPdf(e, s); } else { std::vector<BinnedED> es; std::vector<NormFittingStatus> st; bool def = chance(0.3); for (size_t i = 1 + choose(3); i--;) { st.push_back(def ? INDIRECT : chance(0.5) ? DIRECT : (NormFittingStatus)choose(3)); pdf(k, st.back(), e); es.push_back(e); } k.m->AddPdfs(es, def ? 0 : &st); } if (!before && dirty) restore(k); };
  { BMan m; m.m.reset(new BinnedEDManager); m.name = "norms"; v.push_back(m); } put(v[0]);
  while (steps < 24 && (steps < 3 || more(0.9)))
  {
    steps++; size_t i = choose(v.size()), j = choose(v.size()), op = weighted({1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2}); ev("op %zu on %zu %zu", op, i, j); BMan &k = v[i]; size_t nf = 0; for (auto &p : k.p) nf = nf * 3 + p.st + 1; state(mix(op, mix(nf, v.size()))); std::vector<size_t> fit; bool direct = true; for (size_t s = 0; s < k.p.size(); s++) { if (k.p[s].st != FALSE) fit.push_back(s); direct = direct && k.p[s].st == DIRECT; }
    switch (op)
    {
    case 0: if (k.p.size() < 6) put(k); break;
    case 1: if (fit.empty()) break; { size_t s = fit[choose(fit.size())]; k.p[s].val = pos(); k.m->SetParameter(k.p[s].pname, k.p[s].val); break; }
    case 2: { ParameterDict d; for (size_t s : fit) d[k.p[s].pname] = k.p[s].val = pos(); d["zz"] = 2; k.m->SetParameters(d); if (fit.size() > 1) nontrivial(); break; }
    case 3: if (fit.empty()) break; { size_t s = fit[choose(fit.size())]; std::string to = id("u", fresh++); k.m->RenameParameter(k.p[s].pname, to); k.p[s].pname = to; probe("renamed"); break; }
    case 4: { Doubles n; for (auto &p : k.p) n.push_back(p.st == FALSE ? det::sum(p.c) : pos()); Doubles wrong = n; wrong.push_back(1); check(attempt([&] { k.m->SetNormalisations(wrong); }, &why) == ERR, "wrong-number-accepted", "normalisations"); if (!direct || k.p.empty()) break; k.m->SetNormalisations(n); for (size_t s = 0; s < n.size(); s++) k.p[s].val = n[s]; check(k.m->GetNormalisations() == n, "normalisations-differ", ""); probe("normalisations-set"); break; }
    case 5: if (v.size() < 5) { BMan c = k; if (chance(0.5)) c.m.reset(new BinnedEDManager(*k.m)); else { c.m.reset(new BinnedEDManager); *c.m = *k.m; } v.push_back(c); nontrivial(); } else if (v.size() > 1) v.erase(v.begin() + i); break;
    case 6: { *k.m = *v[j].m; std::shared_ptr<BinnedEDManager> keep = k.m; v[i] = v[j]; v[i].m = keep; break; }
    case 7: { check(attempt([&] { k.m->SetParameter("nosuch", 1); }, &why) == ERR, "unknown-parameter-set", ""); std::vector<BinnedED> e(2); std::vector<NormFittingStatus> s(1, DIRECT); check(attempt([&] { k.m->AddPdfs(e, &s); }, &why) == ERR, "wrong-number-accepted", "statuses"); for (auto &p : k.p) if (p.st == FALSE && chance(0.3)) { std::string n = p.pname; check(attempt([&] { k.m->SetParameter(n, 1); }, &why) == ERR, "unknown-parameter-set", "normalisation that is not fitted"); } break; }
    case 8: k.name = fmt("m%d", fresh++); k.m->SetName(k.name); break;
    // the steps of an evaluation, in any order: back to the originals, onto the observables of the data, without the buffer regions
    case 9: restore(k); break;
    case 10: { if (k.p.empty()) break; Axes to = k.wax; for (size_t a = 0; a + 1 < to.size(); a++) std::swap(to[a], to[a + choose(to.size() - a)]); if (chance(0.5)) to.resize(1 + choose(to.size())); k.m->AssertDimensions(namesOf(to)); for (auto &p : k.p) p.w = like::project(k.wax, p.w, to); k.wax = to; probe("onto-observables"); break; }
    default:
    {
      if (k.p.empty()) break; BinnedEDShrinker sh; like::Buffers buf; Axes to = k.wax; bool over = chance(0.3); sh.SetUsingOverflows(over);
      for (auto &a : to) if (chance(0.6)) { unsigned n = (unsigned)a.lo.size(), lo = (unsigned)choose(n), hi = (unsigned)choose(n - lo); if (chance(0.2)) lo = hi = 0; buf[a.name] = std::make_pair(lo, hi); sh.SetBuffer(a.name, lo, hi); a.lo = Doubles(a.lo.begin() + lo, a.lo.end() - hi); a.hi = Doubles(a.hi.begin() + lo, a.hi.end() - hi); }
      BinnedED shape("shape", build(k.wax)); shape.SetObservables(namesOf(k.wax)); if (!buf.empty()) sh.SetBinMap(shape); k.m->ApplyShrink(sh); if (buf.empty() || k.shrunk) break;
      for (auto &p : k.p) { p.w = like::shrink(k.wax, p.w, buf, over); double in = det::sum(p.w); if (p.st == FALSE) p.norm = in; if (p.st == DIRECT) for (double &x : p.w) x /= in; } k.wax = to; k.shrunk = true; probe("without-buffers"); break;
    }
    }
    for (size_t a = 0; a < v.size(); a++) { std::string d = bdiffers(v[a], obs); check(d == "", a == i ? "manager-differs" : "unrelated-manager-changed", fmt("after operation %zu, manager %zu: ", op, a) + d); }
  }
}
// the cutting off of buffer regions, after any history of settings and maps
void shrinker()
{
  Quiet q; std::string why; BinnedEDShrinker sh; like::Buffers buf; bool over = false, mapped = false; Axes ax; Strs lat; int steps = 0;
  auto fresh = [&] { ax.clear(); lat.clear(); size_t nd = 1 + choose(3); Strs n; for (size_t i = 0; i < 3; i++) n.push_back(obsName(i)); for (size_t i = 0; i < nd; i++) { size_t j = choose(n.size()); ax.push_back(axis(n[j], false, nd == 1 ? (chance(0.3) ? 40 : 8) : nd == 2 ? 7 : 4)); lat.push_back(chance(0.5) ? "" : "$" + n[j] + "$"); n.erase(n.begin() + j); } };
  auto make = [&](const Axes &a, const Strs &l, const std::string &name, Doubles &c, bool wild) { AxisCollection x; for (size_t i = 0; i < a.size(); i++) { double w = a[i].hi[0] - a[i].lo[0]; bool eq = true; for (size_t k = 0; k < a[i].lo.size(); k++) eq = eq && a[i].hi[k] - a[i].lo[k] == w; std::string t = l[i].empty() ? a[i].name : l[i]; if (eq) x.AddAxis(BinAxis(a[i].name, a[i].lo[0], a[i].hi.back(), a[i].lo.size(), t)); else x.AddAxis(BinAxis(a[i].name, a[i].lo, a[i].hi, t)); } BinnedED e(name, x); e.SetObservables(namesOf(a)); c.resize(nBins(a)); for (double &y : c) y = chance(0.15) ? 0 : range(wild ? -16 : 1, 32) / 8.; e.SetBinContents(c); return e; };
  fresh();
  while (steps < 24 && (steps < 5 || more(0.92)))
  {
    steps++; size_t op = weighted({4, 2, 2, 4, 8, 1}); ev("op %zu", op); state(mix(mix(op, ax.size()), mix(buf.size(), mix(mapped, over))));
    switch (op)
    {
    case 0: { size_t a = choose(ax.size()); unsigned n = (unsigned)ax[a].lo.size(), lo = (unsigned)choose(n), hi = (unsigned)choose(n - lo); if (chance(0.1)) { lo = hi = 0; } std::string name = chance(0.85) ? ax[a].name : obsName(3); sh.SetBuffer(name, lo, hi); buf[name] = std::make_pair(lo, hi); mapped = false; break; }
    case 1: over = !over; sh.SetUsingOverflows(over); mapped = false; break;
    case 2: if (chance(0.5)) fresh(); else { probe("resembling-axes"); if (ax.size() > 1 && chance(0.6)) { size_t a = choose(ax.size()), b = choose(ax.size()); std::swap(ax[a].lo, ax[b].lo); std::swap(ax[a].hi, ax[b].hi); } else { Ax &a = ax[choose(ax.size())]; double by = range(1, 8) / 4.; for (double &x : a.lo) x += by; for (double &x : a.hi) x += by; } } mapped = false; break;   // same names and number of bins
    case 3:
    { // a buffer that leaves nothing is refused, whatever the other axis says
      bool fits = true; for (auto &a : ax) if (buf.count(a.name)) { auto b = buf[a.name]; if ((b.first || b.second) && b.first + b.second >= a.lo.size()) fits = false; }
      if (fits && chance(0.2)) { const Ax &a = ax[choose(ax.size())]; bool had = buf.count(a.name) != 0; std::pair<unsigned, unsigned> was = had ? buf[a.name] : std::make_pair(0u, 0u); unsigned n = (unsigned)a.lo.size(), lo = (unsigned)choose(n + 1); sh.SetBuffer(a.name, lo, n - lo + (unsigned)choose(2)); Doubles c; BinnedED e = make(ax, lat, "e", c, true); check(attempt([&] { sh.SetBinMap(e); }, &why) == ERR, "buffer-too-large-accepted", "for axis " + a.name); probe("buffer-too-large"); sh.SetBuffer(a.name, was.first, was.second); buf[a.name] = was; mapped = false; break; }
      Doubles c; BinnedED e = make(ax, lat, "e", c, true); Out o = attempt([&] { sh.SetBinMap(e); }, &why); check((o == OK) == (fits || buf.empty()), fits ? "map-refused" : "buffer-too-large-accepted", why); if (o == OK) { mapped = true; if (steps > 4) nontrivial(); } else { for (auto &a : ax) if (buf.count(a.name)) { buf[a.name] = std::make_pair(0u, 0u); sh.SetBuffer(a.name, 0, 0); } } break;
    }
    case 4:
    {
      if (!mapped && !buf.empty()) break; Doubles c; std::string name = id("d", choose(4)); BinnedED e = make(ax, lat, name, c, true); BinnedED r; Out o = attempt([&] { r = sh.ShrinkDist(e); }, &why); check(o == OK, "shrinking-failed", why);
      Doubles want = buf.empty() ? c : like::shrink(ax, c, buf, over); check(r.GetBinContents() == want, "shrunk-differs", fmt("%zu bins, first %g, instead of %zu bins, first %g", r.GetNBins(), r.GetBinContent(0), want.size(), want[0]));
      check(e.GetBinContents() == c, "input-changed", ""); check(ObsSet(r.GetObservables()).GetNames() == namesOf(ax), "observables-differ", ""); const AxisCollection &x = r.GetAxes(); check(x.GetAxisNames() == namesOf(ax), "axes-differ", "names");
      for (size_t i = 0; i < ax.size(); i++) { const BinAxis &b = x.GetAxis(i); unsigned lo = 0, hi = 0; if (buf.count(ax[i].name)) { lo = buf[ax[i].name].first; hi = buf[ax[i].name].second; } size_t n = ax[i].lo.size() - lo - hi; check(b.GetNBins() == n, "axes-differ", "number of bins of " + ax[i].name); check(b.GetLatexName() == (lat[i].empty() ? ax[i].name : lat[i]), "axes-differ", "title of " + ax[i].name); for (size_t k = 0; k < n; k++) check(close(b.GetBinLowEdge(k), ax[i].lo[k + lo]) && close(b.GetBinHighEdge(k), ax[i].hi[k + lo]), "axes-differ", "edges of " + ax[i].name); }
      probe("shrunk"); break;
    }
    default: { BinnedEDShrinker c(sh); check(c.GetBuffers() == sh.GetBuffers() && c.GetUsingOverflows() == over, "copy-differs", ""); if (chance(0.5)) { BinnedEDShrinker d; d = c; sh = d; } const Ax &a = ax[choose(ax.size())]; BinAxis x(a.name, a.lo, a.hi); unsigned n = (unsigned)a.lo.size(), lo = (unsigned)choose(n + 1), hi = (unsigned)choose(n + 1); bool ok = lo + hi < n; BinAxis y("y", 0, 1, 1); Out o = attempt([&] { y = sh.ShrinkAxis(x, lo, hi); }, &why); check((o == OK) == ok, ok ? "shrinking-failed" : "buffer-too-large-accepted", a.name); if (ok) check(y.GetNBins() == n - lo - hi && y.GetName() == a.name && close(y.GetBinLowEdge(0), a.lo[lo]) && close(y.GetBinHighEdge(n - lo - hi - 1), a.hi[n - hi - 1]), "axes-differ", "one axis"); }
    }
    check(sh.GetBuffers() == buf && sh.GetUsingOverflows() == over, "settings-differ", ""); for (auto &b : buf) check(sh.GetBuffer(b.first) == b.second, "settings-differ", "of " + b.first); check(attempt([&] { sh.GetBuffer("nosuch"); }, &why) == ERR, "unknown-buffer-accepted", "");
  }
}
}
SIM_WORKLOAD("P01", unbinned_manager, 3, "") { unbinned(true, false); }
SIM_WORKLOAD("X01", unbinned_manager_values, 3, "") { unbinned(false, chance(0.4)); }
SIM_WORKLOAD("N01", binned_manager, 3, "") { binned(); }
SIM_WORKLOAD("N01", buffer_shrinker, 2, "") { shrinker(); }
