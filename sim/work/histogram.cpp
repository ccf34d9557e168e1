// H01: histograms and binned distributions under histories of operations, against a plain table of cells.
#include "common.h"
#include <BinnedED.h>
#include <HistTools.h>
#include <ObsSet.h>
using namespace work; using namespace sim;
namespace
{
struct Ax { std::string name; Doubles lo, hi; };
struct Model
{
  std::vector<Ax> ax; Doubles c; Strs obs;
  size_t n() const { size_t k = ax.empty() ? 0 : 1; for (auto &a : ax) k *= a.lo.size(); return k; }
  std::vector<size_t> unpack(size_t b) const { std::vector<size_t> v(ax.size()); for (size_t i = ax.size(); i-- > 0;) { v[i] = b % ax[i].lo.size(); b /= ax[i].lo.size(); } return v; }
  size_t pack(const std::vector<size_t> &v) const { size_t b = 0; for (size_t i = 0; i < ax.size(); i++) b = b * ax[i].lo.size() + v[i]; return b; }
  static size_t find1(const Ax &a, double x) { for (size_t i = 0; i < a.lo.size(); i++) if (x < a.hi[i]) return i; return a.lo.size() - 1; }
  size_t find(const Doubles &x) const { std::vector<size_t> v; for (size_t i = 0; i < ax.size(); i++) v.push_back(find1(ax[i], x[i])); return pack(v); }
  Strs names() const { Strs s; for (auto &a : ax) s.push_back(a.name); return s; }
  double sum() const { double s = 0; for (double x : c) s += x; return s; }
  bool solid() const { double a = 0; for (double x : c) a += fabs(x); return a > 1e-200 && a < 1e200 && fabs(sum()) > 0.05 * a; }   // no cancellation between bins
  double size() const { double a = 0; for (double x : c) a += fabs(x); return a; }
  bool sameBins(const Model &o) const { if (ax.size() != o.ax.size()) return false; for (size_t i = 0; i < ax.size(); i++) if (ax[i].lo != o.ax[i].lo || ax[i].hi != o.ax[i].hi) return false; return true; }
};
Ax axis(const std::string &name, bool wide)
{
  Ax a; a.name = name; size_t n = wide && chance(0.15) ? 10 + choose(4) : 1 + choose(5);
  if (chance(0.5)) { double lo = range(-8, 8) / 4., w = range(1, 8) / 4.; for (size_t i = 0; i < n; i++) { a.lo.push_back(lo + i * w); a.hi.push_back(lo + (i + 1) * w); } }
  else { bool gaps = chance(0.15); double x = range(-8, 8) / 4.; for (size_t i = 0; i < n; i++) { a.lo.push_back(x); x += range(1, 8) / 4.; a.hi.push_back(x); if (gaps && chance(0.5)) x += range(1, 8) / 4.; } }
  return a;
}
AxisCollection build(const std::vector<Ax> &v)
{
  AxisCollection c; std::vector<BinAxis> all; bool atOnce = chance(0.3); for (auto &a : v) { double w = a.hi[0] - a.lo[0]; bool eq = true; for (size_t i = 0; i < a.lo.size(); i++) eq = eq && a.hi[i] - a.lo[i] == w && (!i || a.lo[i] == a.hi[i - 1]); if (eq && chance(0.7)) all.push_back(BinAxis(a.name, a.lo[0], a.hi.back(), a.lo.size())); else all.push_back(BinAxis(a.name, a.lo, a.hi)); }
  if (atOnce) c.AddAxes(all); else for (auto &a : all) c.AddAxis(a);
  return c;
}
std::vector<Ax> axes() { std::vector<Ax> v; size_t n = 1 + choose(4); for (size_t i = 0; i < n; i++) v.push_back(axis(id("x", i), n < 3)); return v; }
double val() { return chance(0.2) ? 0 : chance(0.04) ? pick(Doubles{1e-15, -1e-15, -0., 1e-300, 1e4}) : range(-16, 64) / 8.; }
std::string cmp(const Histogram &h, const Model &m)
{
  if (h.GetNDims() != m.ax.size()) return fmt("%zu dimensions instead of %zu", h.GetNDims(), m.ax.size());
  if (h.GetNBins() != m.n()) return fmt("%zu bins instead of %zu", h.GetNBins(), m.n());
  if (h.GetAxisNames() != m.names()) return "axis names differ";
  Doubles c = h.GetBinContents(); if (c.size() != m.n()) return fmt("%zu contents instead of %zu", c.size(), m.n());
  double tol = 1e-13 * m.size() + 1e-16;
  for (size_t b = 0; b < m.n(); b++)
  {
    if (!close(c[b], m.c[b], 1e-9, tol)) return fmt("bin %zu holds %.17g instead of %.17g", b, c[b], m.c[b]);
    if (!close(h.GetBinContent(b), m.c[b], 1e-9, tol)) return fmt("bin %zu yields %.17g instead of %.17g", b, h.GetBinContent(b), m.c[b]);
  }
  return "";
}
std::string geometry(const Histogram &h, const Model &m, size_t b)
{
  std::vector<size_t> ix = m.unpack(b); if (h.UnpackIndices(b) != ix) return fmt("indices of bin %zu", b); if (h.FlattenIndices(ix) != b) return fmt("flat index of bin %zu is %zu", b, h.FlattenIndices(ix));
  Doubles lo(ix.size()), hi(ix.size()), ce(ix.size()); h.GetBinLowEdges(b, lo); h.GetBinHighEdges(b, hi); h.GetBinCentres(b, ce);
  for (size_t d = 0; d < ix.size(); d++)
  {
    double l = m.ax[d].lo[ix[d]], u = m.ax[d].hi[ix[d]]; if (!close(lo[d], l) || !close(hi[d], u) || !close(ce[d], (l + u) / 2)) return fmt("edges of bin %zu in dimension %zu", b, d);
    if (!close(h.GetBinLowEdge(b, d), l) || !close(h.GetBinHighEdge(b, d), u) || !close(h.GetBinCentre(b, d), (l + u) / 2)) return fmt("edge of bin %zu in dimension %zu", b, d);
    if (!close(h.GetAxes().GetBinWidth(b, d), u - l)) return fmt("width of bin %zu in dimension %zu", b, d);
  }
  if (h.FindBin(ce) != b) return fmt("the centre of bin %zu is found in %zu", b, h.FindBin(ce)); return "";
}
// the same questions asked of the distribution and of its axes
std::string through(const BinnedED &e, const Model &m, size_t b)
{
  std::vector<size_t> ix = m.unpack(b); if (e.UnpackIndices(b) != ix || e.FlattenIndices(ix) != b) return "indices of the distribution"; const AxisCollection &ax = e.GetAxes(); if (ax.GetNDimensions() != m.ax.size() || ax.GetAxisNames() != m.names() || ax.GetNBins() != m.n()) return "axes of the distribution";
  if (!(ax == e.GetHistogram().GetAxes()) || ax != e.GetHistogram().GetAxes()) return "axes differ from themselves";
  Doubles x; for (size_t d = 0; d < ix.size(); d++)
  {
    const Ax &a = m.ax[d]; if (e.GetHistogram().GetAxisIndex(a.name) != d || ax.GetAxisIndex(a.name) != d) return "index of axis " + a.name; const BinAxis &ba = ax.GetAxis(a.name), &bb = ax.GetAxis(d); if (ba != bb || !(ba == bb) || ba.GetName() != a.name) return "axis by name " + a.name; if (ax.UnflattenIndex(b, d) != ix[d]) return "index in one dimension";
    if (ba.GetNBins() != a.lo.size() || !close(ba.GetMin(), a.lo[0]) || !close(ba.GetMax(), a.hi.back()) || !close(ba.GetMinimum(), a.lo[0]) || !close(ba.GetMaximum(), a.hi.back())) return "range of axis " + a.name; Doubles l = ba.GetBinLowEdges(), h = ba.GetBinHighEdges(), c = ba.GetBinCentres(); if (l.size() != a.lo.size() || h.size() != l.size() || c.size() != l.size()) return "edges of axis " + a.name;
    for (size_t k = 0; k < l.size(); k++) if (!close(l[k], a.lo[k]) || !close(h[k], a.hi[k]) || !close(c[k], (a.lo[k] + a.hi[k]) / 2) || !close(ba.GetBinWidth(k), a.hi[k] - a.lo[k])) return fmt("bin %zu of axis ", k) + a.name;
    for (size_t k = 0; k < d; k++) { bool same = m.ax[k].lo == a.lo && m.ax[k].hi == a.hi; if ((ax.GetAxis(k) == ba) != same || (ax.GetAxis(k) != ba) == same) return fmt("axes %zu and %zu compare wrongly", k, d); }
    x.push_back((a.lo[ix[d]] + a.hi[ix[d]]) / 2);
  }
  if (e.FindBin(x) != b || ax.FindBin(x) != b || (x.size() == 1 && e.GetHistogram().FindBin(x[0]) != b)) return "bin of its centre"; Strs n = m.obs; n.push_back("other"); Doubles y; for (auto &s : m.obs) { size_t k = 0; while (m.ax[k].name != s) k++; y.push_back(x[k]); } y.push_back(3); std::rotate(n.begin(), n.begin() + 1, n.end()); std::rotate(y.begin(), y.begin() + 1, y.end()); Event ev_(y); ev_.SetObservableNames(&n); if (e.FindBin(ev_) != b) return "bin of an event at its centre";
  Doubles a = e.Means(), c = e.GetHistogram().Means(), v = e.Variances(), w = e.GetHistogram().Variances(); for (size_t d = 0; d < a.size(); d++) if (!close(a[d], c[d]) || !close(v[d], w[d])) return "moments of the distribution"; if (e.GetNDims() != m.ax.size()) return "dimensions";
  std::string nm = m.ax[b % m.ax.size()].name; if (m.ax.size() > 1) { Histogram h1 = e.GetHistogram().Marginalise(nm), h2 = e.GetHistogram().Marginalise(Strs(1, nm)); if (h1.GetBinContents() != h2.GetBinContents() || h1.GetAxisNames() != h2.GetAxisNames()) return "projection on one axis"; }
  return "";
}
Model marg(const Model &m, const std::vector<size_t> &keep)
{
  Model r; for (size_t k : keep) r.ax.push_back(m.ax[k]); r.c.assign(r.n(), 0);
  for (size_t b = 0; b < m.n(); b++) { std::vector<size_t> ix = m.unpack(b), o; for (size_t k : keep) o.push_back(ix[k]); r.c[r.pack(o)] += m.c[b]; } return r;
}
Model slice(const Model &m, const std::map<size_t, size_t> &fix)
{
  Model r; for (size_t d = 0; d < m.ax.size(); d++) if (!fix.count(d)) r.ax.push_back(m.ax[d]); r.c.assign(r.n(), 0);
  for (size_t b = 0; b < m.n(); b++) { std::vector<size_t> ix = m.unpack(b), o; bool in = true; for (size_t d = 0; d < ix.size(); d++) if (fix.count(d)) in = in && fix.at(d) == ix[d]; else o.push_back(ix[d]); if (in) r.c[r.pack(o)] = m.c[b]; } return r;
}
void history(bool faults)
{
  Quiet q; struct Obj { BinnedED e; Model m; }; std::vector<Obj> v; std::string why;
  auto add = [&](const std::vector<Ax> &ax, bool fillIt) { Obj o; o.m.ax = ax; o.m.c.assign(o.m.n(), 0); o.m.obs = o.m.names(); o.e = BinnedED(fmt("e%zu", v.size()), chance(0.5) ? build(ax) : Histogram(build(ax)).GetAxes()); o.e.SetObservables(o.m.obs); if (fillIt) { for (double &x : o.m.c) x = val(); o.e.SetBinContents(o.m.c); } v.push_back(o); };
  add(axes(), true); int steps = 0; std::vector<std::string> opn;
  while (steps < 24 && (steps < 3 || more(0.9)))
  {
    steps++; size_t i = choose(v.size()); Obj &o = v[i]; Model &m = o.m; size_t nb = m.n(), op = choose(24); ev("op %zu on %zu", op, i); state(mix(mix(op, m.ax.size()), v.size()));
    std::unique_ptr<AllocFault> af; bool faulty = faults && chance(0.15); Model before = m; bool fired = false; Out r = OK; bool changed = true; std::string what;
    auto guarded = [&](const std::function<void()> &f) { if (faulty) af.reset(new AllocFault(1 + choose(12))); r = attempt([&] { f(); }, &why); fired = af && af->fired(); af.reset(); };
    auto refused = [&](std::function<void()> f, const char *w) { changed = false; check(attempt(f, &why) == ERR, "impossible-request-accepted", w); };
    const Histogram &h = o.e.GetHistogram();
    switch (op)
    {
    case 0: { Doubles x; for (auto &a : m.ax) x.push_back(chance(0.3) ? (chance(0.5) ? a.lo[choose(a.lo.size())] : a.hi[choose(a.hi.size())]) : range(-60, 60) / 8. + 1 / 64.); double w = chance(0.5) ? 1 : val(); size_t how = choose(4);
        for (size_t d = 0; d < x.size(); d++) for (size_t k = 1; k < m.ax[d].lo.size(); k++) if (x[d] >= m.ax[d].hi[k - 1] && x[d] < m.ax[d].lo[k]) probe("gap");
        guarded([&] { if (how == 0) o.e.Fill(x, w); else if (how == 1) { Event e(x); Strs n = m.names(); e.SetObservableNames(&n); o.e.Fill(e, w); } else if (how == 2 && x.size() == 1) o.e.Fill(x[0], w); else { Histogram c = h; std::map<std::string, double> d; for (size_t k = 0; k < x.size(); k++) d[m.ax[k].name] = x[k]; d["zz"] = 5; c.Fill(d, w); o.e.SetHistogram(c); } });
        m.c[m.find(x)] += w; probe("fill"); break; }
    case 1: { size_t b = choose(nb); double w = val(); guarded([&] { o.e.AddBinContent(b, w); }); m.c[b] += w; break; }
    case 2: { size_t b = choose(nb); double w = val(); guarded([&] { o.e.SetBinContent(b, w); }); m.c[b] = w; break; }
    case 3: { Doubles c(nb); for (double &x : c) x = val(); guarded([&] { o.e.SetBinContents(c); }); m.c = c; break; }
    case 4: { double s = chance(0.1) ? pick(Doubles{1e-6, 1e6, -1, 1, 2}) : val(); guarded([&] { o.e.Scale(s); }); for (double &x : m.c) x *= s; break; }
    case 5: if (!m.solid()) break; { double s = m.sum(); guarded([&] { o.e.Normalise(); }); for (double &x : m.c) x /= s; if (r == OK) check(close(o.e.Integral(), 1), "not-normalised", fmt("%.17g", o.e.Integral())); break; }
    case 6: guarded([&] { o.e.Empty(); }); for (double &x : m.c) x = 0; break;
    case 7: { double p = range(1, 8) / 8.; guarded([&] { o.e.AddPadding(p); }); for (double &x : m.c) if (x == 0) x = p; break; }
    case 8: case 9: case 10:
    { size_t j = choose(v.size()); Model other = v[j].m; if (i == j) probe("self"); double w = chance(0.5) ? 1 : val();
      if (chance(0.3))
      {
        const AxisCollection &a = h.GetAxes(), &b = v[j].e.GetHistogram().GetAxes(); bool same = m.sameBins(other); check((a == b) == same && (b == a) == same && (a != b) == !same, "axes-comparison", fmt("axes of %zu and %zu bins are %s", m.n(), other.n(), same ? "the same" : "different"));
        std::vector<Ax> n = m.ax; size_t d = choose(n.size()), k = choose(n[d].lo.size()); bool last = k + 1 == n[d].lo.size(); int what = (int)choose(4); if (what == 1) { n[d].hi[k] += last ? 0.125 : 0; if (!last) { n[d].hi[k] += 0.125; n[d].lo[k + 1] += 0.125; } } else if (what == 2) { n[d].lo[0] -= 0.125; } else if (what == 3) n[d].name += "_";
        AxisCollection c = build(n); bool eq = what == 0 || what == 3; check((a == c) == eq && (c != a) == !eq, "axes-comparison", fmt("axes that differ %s", what == 0 ? "in nothing" : what == 3 ? "in a name" : "in one edge")); check((a.GetAxis(d) == c.GetAxis(d)) == eq && (a.GetAxis(d) != c.GetAxis(d)) == !eq, "axes-comparison", "of one axis"); probe("axes-compared");
      }
      if (op == 10) { bool zero = false; for (double x : other.c) zero = zero || x == 0;
        if (zero) // the quotient of every bin all the same, then something finite again
        { changed = false; if (!m.sameBins(other) || chance(0.5)) break; changed = true; Doubles q = m.c, c(nb); for (size_t b = 0; b < nb; b++) q[b] /= other.c[b]; guarded([&] { o.e.Divide(v[j].e); }); if (r == OK) { af.reset(); for (size_t b = 0; b < nb; b++) { double g = o.e.GetBinContent(b); check(std::isnan(q[b]) ? std::isnan(g) : std::isinf(q[b]) ? std::isinf(g) : close(g, q[b]), "contents-differ", fmt("%g divided by %g gives %g", m.c[b], other.c[b], g)); } probe("divided-by-zero"); } for (double &x : c) x = val(); o.e.SetBinContents(c); m.c = c; break; } }
      if (!m.sameBins(other)) { refused([&] { if (op == 8) o.e.Add(v[j].e, w); else if (op == 9) o.e.Multiply(v[j].e); else o.e.Divide(v[j].e); }, "combined different binnings"); break; }
      guarded([&] { if (op == 8) o.e.Add(v[j].e, w); else if (op == 9) o.e.Multiply(v[j].e); else o.e.Divide(v[j].e); });
      for (size_t b = 0; b < nb; b++) if (op == 8) m.c[b] += w * other.c[b]; else if (op == 9) m.c[b] *= other.c[b]; else m.c[b] /= other.c[b]; break; }
    case 11: case 12: // project
    { changed = false; std::vector<size_t> all, keep; for (size_t d = 0; d < m.ax.size(); d++) all.push_back(d); for (size_t k = 1 + choose(all.size()); k--;) { size_t z = choose(all.size()); keep.push_back(all[z]); all.erase(all.begin() + z); }
      Strs n; for (size_t k : keep) n.push_back(m.ax[k].name); Obj p; p.m = marg(m, keep); p.m.obs = n; std::string nm; guarded([&] { p.e = keep.size() == 1 && chance(0.5) ? o.e.Marginalise(n[0]) : o.e.Marginalise(n); });
      if (r == OK) { af.reset(); check(cmp(p.e.GetHistogram(), p.m) == "", "projection-differs", cmp(p.e.GetHistogram(), p.m)); check(p.e.GetObservables() == n, "observables-differ", "observables of a projection"); { std::string want = o.e.GetName(); for (auto &x : n) want += "_" + x; check(p.e.GetName() == want + "_proj", "name-differs", "projection called " + p.e.GetName()); } check(close(p.e.Integral(), m.sum(), 1e-9, 1e-12 * (1 + m.size())), "projection-loses-content", fmt("%.17g of %.17g", p.e.Integral(), m.sum())); if (v.size() < 6) v.push_back(p); if (keep.size() > 1) nontrivial(); } break; }
    case 13: case 14: // slice
    { changed = false; if (m.ax.size() < 2) break; std::map<size_t, size_t> fix; std::map<std::string, size_t> req; for (size_t d = 0; d < m.ax.size(); d++) if (chance(0.5) && fix.size() + 1 < m.ax.size()) { fix[d] = choose(m.ax[d].lo.size()); req[m.ax[d].name] = fix[d]; }
      Obj p; p.m = slice(m, fix); p.m.obs = p.m.names(); guarded([&] { p.e = o.e.GetSlice(req); });
      if (r == OK) { af.reset(); check(cmp(p.e.GetHistogram(), p.m) == "", "slice-differs", cmp(p.e.GetHistogram(), p.m)); check(p.e.GetObservables() == p.m.obs, "observables-differ", "observables of a slice"); { std::string want = o.e.GetName(); for (size_t d = 0; d < m.ax.size(); d++) if (fix.count(d)) want += fmt("_%s%zu", m.ax[d].name.c_str(), fix[d]); check(p.e.GetName() == want + "_slice", "name-differs", "slice called " + p.e.GetName() + " instead of " + want); } if (v.size() < 6) v.push_back(p); if (p.m.ax.size() > 1) nontrivial(); } break; }
    case 15: // 1D slices add up to the projection
    { changed = false; if (m.ax.size() < 2) break; size_t d = choose(m.ax.size()); std::vector<BinnedED> s; guarded([&] { s = HistTools::Get1DSlices(o.e, m.ax[d].name); }); if (r != OK) break; af.reset();
      check(s.size() * m.ax[d].lo.size() == nb, "slices-missing", fmt("%zu slices", s.size())); Model want = marg(m, std::vector<size_t>(1, d)); for (size_t b = 0; b < want.n(); b++) { double t = 0; for (auto &e : s) t += e.GetBinContent(b); check(close(t, want.c[b], 1e-9, 1e-12 * (1 + m.size())), "slices-do-not-add-up", fmt("bin %zu", b)); } break; }
    case 16: { changed = false; std::vector<BinnedED> s; guarded([&] { s = HistTools::GetVisualisableProjections(o.e); }); if (r != OK) break; af.reset(); size_t d = m.ax.size(); check(s.size() == d + (d > 2 ? d * (d - 1) / 2 : 0), "projections-missing", fmt("%zu", s.size())); for (auto &e : s) check(close(e.Integral(), m.sum(), 1e-9, 1e-12 * (1 + m.size())), "projection-loses-content", e.GetName());
      std::set<std::set<std::string>> got; for (auto &e : s) { Strs n = e.GetAxes().GetAxisNames(); check(got.insert(std::set<std::string>(n.begin(), n.end())).second, "projections-missing", "one twice"); BinnedED w = n.size() == 1 ? o.e.Marginalise(n[0]) : o.e.Marginalise(n); check(w.GetBinContents() == e.GetBinContents(), "projection-differs", e.GetName()); } for (size_t i = 0; i < d; i++) check(s[i].GetNDims() == 1 && s[i].GetAxes().GetAxis(0).GetName() == m.ax[i].name, "projections-missing", "order"); break; }
    case 17: // out of range requests
    { size_t b = nb + choose(3) * choose(3), nd = m.ax.size(); const AxisCollection &A = h.GetAxes(); switch (choose(17)) {
      case 10: refused([&] { if (chance(0.5)) h.UnpackIndices(b); else A.UnflattenIndex(b, choose(nd)); }, "indices of a bin that does not exist"); break;
      case 11: refused([&] { A.UnflattenIndex(choose(nb), nd + choose(3)); }, "index on an axis that does not exist"); break;
      case 12: refused([&] { size_t k = choose(3); if (k == 0) A.GetAxis(nd + choose(3)); else if (k == 1) A.GetAxis("nosuch"); else A.GetAxisIndex("nosuch"); }, "axis that does not exist"); break;
      case 13: refused([&] { o.e.FindBin(Doubles(chance(0.5) ? nd + 1 : nd - 1, 0.)); }, "bin of too many or too few values"); break;
      case 14: refused([&] { h.FlattenIndices(std::vector<size_t>(chance(0.5) ? nd + 1 : nd - 1, 0)); }, "flat index of too many or too few indices"); break;
      case 15: { bool bad = chance(0.5); size_t k = choose(4), x = bad ? b : choose(nb), d = bad ? choose(nd) : nd + choose(3); refused([&] { if (k == 0) A.GetBinLowEdge(x, d); else if (k == 1) A.GetBinHighEdge(x, d); else if (k == 2) A.GetBinCentre(x, d); else A.GetBinWidth(x, d); }, "edge of a bin that does not exist"); break; }
      case 16: refused([&] { std::map<std::string, double> w; for (size_t d = 1; d < nd; d++) w[m.ax[d].name] = 0; w["nosuch"] = 1; Histogram c = h; c.Fill(w); }, "filled without one of its observables"); break;
      case 0: refused([&] { o.e.GetBinContent(b); }, "read a bin that does not exist"); break;
      case 1: refused([&] { o.e.SetBinContent(b, 5); }, "set a bin that does not exist"); break;
      case 2: refused([&] { o.e.AddBinContent(b, 5); }, "added to a bin that does not exist"); break;
      case 3: refused([&] { Doubles x(m.ax.size()); size_t k = choose(3); if (k == 0) h.GetBinLowEdges(b, x); else if (k == 1) h.GetBinHighEdges(b, x); else h.GetBinCentres(b, x); }, "edges of a bin that does not exist"); break;
      case 4: refused([&] { o.e.SetBinContents(Doubles(nb + 1, 1)); }, "too many contents"); break;
      case 5: refused([&] { o.e.Fill(Doubles(m.ax.size() + 1, 0.)); }, "filled with too many values"); break;
      case 6: refused([&] { Strs s(1, "nosuch"); o.e.Marginalise(s); }, "projected on an axis that does not exist"); break;
      case 7: if (m.ax.size() > 1) { size_t d = choose(m.ax.size()); std::map<std::string, size_t> f; f[m.ax[d].name] = m.ax[d].lo.size() + choose(2); refused([&] { o.e.GetSlice(f); }, "sliced at a bin that does not exist"); } else { refused([&] { std::map<std::string, size_t> f; f[m.ax[0].name] = 0; o.e.GetSlice(f); }, "sliced away the last axis"); } break;
      case 8: refused([&] { std::vector<size_t> ix(m.ax.size(), 0); size_t d = choose(ix.size()); ix[d] = m.ax[d].lo.size() + choose(2); h.FlattenIndices(ix); }, "flat index of a bin that does not exist"); break;
      default: refused([&] { h.GetBinCentre(choose(2) ? b : 0, b == 0 ? 0 : m.ax.size() + 1); }, "centre of a bin that does not exist"); break; } break; }
    case 18: { changed = false; size_t b = choose(nb); std::string g = geometry(h, m, b); if (g == "") g = through(o.e, m, b); check(g == "", "bin-geometry-differs", g); break; }
    case 19: if (m.ax.size() == 1) { changed = false; double a = range(-60, 60) / 8., b = a + (chance(0.2) ? range(-8, 0) : range(1, 40)) / 8.; double want = 0; if (b > a) for (size_t k = Model::find1(m.ax[0], a); k <= Model::find1(m.ax[0], b); k++) want += m.c[k]; guarded([&] { double got = h.Integral(a, b); NoAllocFault g; check(close(got, want, 1e-9, 1e-12 * (1 + m.size())), "partial-integral-differs", fmt("%.17g instead of %.17g", got, want)); }); } break;
    case 20: { changed = false; Doubles me = h.Means(), va = h.Variances(); for (size_t d = 0; d < m.ax.size(); d++) { double s = 0, s2 = 0; for (size_t b = 0; b < nb; b++) { size_t k = m.unpack(b)[d]; double c = (m.ax[d].lo[k] + m.ax[d].hi[k]) / 2; s += m.c[b] * c; s2 += m.c[b] * c * c; } check(close(me[d], s, 1e-9, 1e-10 * (1 + m.size())) && close(va[d], s2 - s * s, 1e-9, 1e-6 + 1e-9 * m.size() * m.size()), "moments-differ", fmt("dimension %zu", d)); } break; }
    case 21: if (m.solid()) { changed = false; Doubles x; for (size_t d = 0; d < m.ax.size(); d++) x.push_back(range(-60, 60) / 8.); double p = o.e.Probability(x); check(close(p, m.c[m.find(x)] / m.sum()), "probability-differs", fmt("%.17g", p)); Strs n = m.names(); n.push_back("y"); Doubles y = x; y.push_back(77); std::reverse(n.begin(), n.end()); std::reverse(y.begin(), y.end()); Event e(y); e.SetObservableNames(&n); check(close(o.e.Probability(e), p), "probability-differs", "through an event with its observables in another order"); } break;
    case 22: // copies are independent
      if (v.size() < 6) { Obj c = o; if (chance(0.3)) { std::unique_ptr<EventDistribution> cl(o.e.Clone()); c.e = *dynamic_cast<BinnedED *>(cl.get()); } std::string nm = fmt("copy%d", steps); c.e.SetName(nm); v.push_back(c); check(v[i].e.GetName() != nm, "copy-not-independent", "name"); } else v.erase(v.begin() + choose(v.size())); continue;
    default: // rebin from scratch, or another distribution
      if (v.size() < 6) { if (chance(0.5)) { std::vector<Ax> a = m.ax; if (chance(0.25)) { Ax &x = a[choose(a.size())]; double by = range(1, 8) / 4.; for (double &y : x.lo) y += by; for (double &y : x.hi) y += by; probe("twin-elsewhere"); } add(a, true); } else add(axes(), chance(0.7)); }
      else { m.ax = axes(); Doubles c(m.n(), 0.); for (double &x : c) x = val(); m.c = c; o.e.SetAxes(build(m.ax)); m.obs = m.names(); o.e.SetObservables(m.obs); if (chance(0.5)) { o.e.Empty(); m.c.assign(m.n(), 0); } else o.e.SetBinContents(c); probe("rebinned"); } continue;
    }
    if (r != OK) { check(fired, "operation-failed-without-fault", fmt("operation %zu: ", op) + why); probe("out-of-memory"); std::string a = cmp(v[i].e.GetHistogram(), before), b = cmp(v[i].e.GetHistogram(), v[i].m); check(a == "" || b == "", "half-done-after-failure", a); if (a == "") v[i].m = before; }
    (void)changed;
    for (size_t k = 0; k < v.size(); k++) { std::string d = cmp(v[k].e.GetHistogram(), v[k].m); check(d == "", k == i ? "contents-differ" : "unrelated-histogram-changed", fmt("after operation %zu, histogram %zu: ", op, k) + d); check(v[k].e.GetObservables() == v[k].m.obs, "observables-differ", fmt("histogram %zu", k)); check(close(v[k].e.Integral(), v[k].m.sum(), 1e-9, 1e-12 * (1 + v[k].m.size())), "integral-differs", fmt("histogram %zu", k)); }
  }
}
}
SIM_WORKLOAD("H01", histogram_history, 10, "") { history(false); }
SIM_WORKLOAD("H01", histogram_faults, 5, "") { history(true); }

// Axes with edges that are not round numbers: every value between the edges an axis reports for a bin belongs to that bin.
SIM_WORKLOAD("H01", axis_edges, 3, "")
{
  Quiet q; size_t nd = 1 + choose(3); AxisCollection axes; std::vector<BinAxis> ax; Strs nm;
  for (size_t d = 0; d < nd; d++)
  {
    std::string n = fmt("a%zu", d); nm.push_back(n); size_t nb = 1 + choose(chance(0.3) ? 300 : 20); double scale = std::pow(10., range(-12, 12)), lo = chance(0.3) ? 0 : real(-10, 10) * scale, w = real(0.01, 10) * scale;
    if (chance(0.3)) { lo = range(-30, 30) / 10.; w = range(1, 30) / 10.; }
    if (chance(0.6)) ax.push_back(BinAxis(n, lo, lo + w, nb));
    else { Doubles l, h; double x = lo; for (size_t i = 0; i < nb; i++) { double y = x + w * real(0.1, 1); if (!(y > x)) break; l.push_back(x); h.push_back(y); x = y; } if (l.empty()) { l.push_back(0); h.push_back(1); } ax.push_back(BinAxis(n, l, h)); }
    axes.AddAxis(ax.back());
  }
  size_t total = 1; for (auto &a : ax) total *= a.GetNBins(); bool small = total < 20000; BinnedED ed; if (small) { ed = BinnedED("e", axes); ed.SetObservables(nm); }
  std::map<size_t, double> filled; const double inf = HUGE_VAL;
  for (size_t d = 0; d < nd; d++)
    for (size_t i = 0; i < ax[d].GetNBins(); i++)
    {
      const BinAxis &a = ax[d]; double l = a.GetBinLowEdge(i), h = a.GetBinHighEdge(i);
      check(l < h && close(a.GetBinWidth(i), h - l, 1e-6, 0) && a.GetBinCentre(i) >= l && a.GetBinCentre(i) <= h, "axis-geometry-differs", fmt("axis %zu bin %zu", d, i));
      if (i) check(close(a.GetBinHighEdge(i - 1), l, 1e-13, 1e-13 * (fabs(a.GetMin()) + fabs(a.GetMax()))), "axis-geometry-differs", fmt("gap before bin %zu", i));
    }
  int steps = 20 + (int)choose(100);
  for (int s = 0; s < steps; s++)
  {
    Doubles v; std::vector<size_t> want; std::string kinds;
    for (size_t d = 0; d < nd; d++)
    {
      const BinAxis &a = ax[d]; size_t n = a.GetNBins(), i = choose(n); double l = a.GetBinLowEdge(i), h = a.GetBinHighEdge(i), x = l; size_t k = choose(7); bool gap = i && a.GetBinHighEdge(i - 1) != l; 
      if (k == 0) { x = l; if (gap && a.GetBinHighEdge(i - 1) > l) x = a.GetBinHighEdge(i - 1); } else if (k == 1) x = std::nextafter(h, -inf); else if (k == 2) x = a.GetBinCentre(i); else if (k == 3) x = l + (h - l) * real(0.001, 0.999);
      else if (k == 4) { x = chance(0.3) ? -inf : a.GetMin() - real(0, 3) * a.GetBinWidth(0); i = 0; } else if (k == 5) { x = chance(0.3) ? inf : a.GetBinHighEdge(n - 1) + real(0, 3) * a.GetBinWidth(0); i = n - 1; } else { i = n - 1; x = a.GetBinHighEdge(n - 1); }
      if (k < 4 && x < (i ? std::max(l, a.GetBinHighEdge(i - 1)) : l)) x = a.GetBinCentre(i);
      v.push_back(x); want.push_back(i); kinds += fmt(" %zu", k); check(a.FindBin(x) == i, "wrong-bin", fmt("axis %zu of %zu bins: value %.17g is put in bin %zu instead of %zu [%.17g, %.17g), kind %zu", d, n, x, a.FindBin(x), i, a.GetBinLowEdge(i), a.GetBinHighEdge(i), k));
    }
    size_t flat = 0; for (size_t d = 0; d < nd; d++) flat = flat * ax[d].GetNBins() + want[d];
    check(axes.FindBin(v) == flat && axes.FlattenIndices(want) == flat && axes.UnpackIndices(flat) == want, "wrong-bin", fmt("flat bin %zu instead of %zu", axes.FindBin(v), flat));
    if (small) { double w = range(1, 8) / 4.; ed.Fill(v, w); filled[flat] += w; check(ed.FindBin(v) == flat, "wrong-bin", "of the distribution"); check(ed.GetBinContent(flat) == filled[flat], "fill-lost", fmt("bin %zu holds %g instead of %g", flat, ed.GetBinContent(flat), filled[flat])); }
    evaluation(); state(mix(nd, total));
  }
  if (small) { double t = 0; for (auto &f : filled) t += f.second; check(close(ed.Integral(), t), "fill-lost", "integral"); }
  nontrivial();
}

// What is a valid axis: the edges can leave gaps or overlap, but not go backwards; two axes are the same if all their edges are.
SIM_WORKLOAD("H01", axis_specification, 2, "")
{
  Quiet q; std::string why; const double inf = HUGE_VAL;
  for (int s = 0, steps = 5 + (int)choose(20); s < steps; s++)
  {
    if (chance(0.25))
    {
      double lo = range(-8, 8) / 4., w = range(-2, 4) / 4.; size_t nb = choose(4); bool ok = w > 0 && nb; BinAxis *a = 0; int r = attempt([&] { a = new BinAxis("a", lo, lo + w, nb); }, &why); std::unique_ptr<BinAxis> own(a);
      check((r == OK) == ok, ok ? "axis-refused" : "impossible-axis-accepted", fmt("%zu bins from %g to %g", nb, lo, lo + w)); if (r == OK) { check(a->GetNBins() == nb && a->GetMin() == lo && a->GetMax() == lo + w, "axis-geometry-differs", "equal bins"); evaluation(); } continue;
    }
    size_t n = choose(8); Doubles l, h; double x = range(-16, 16) / 4.; for (size_t i = 0; i < n; i++) { l.push_back(x); double w = range(1, 8) / 8.; h.push_back(x + w); x += w; if (chance(0.15)) x += range(1, 4) / 8.; }
    if (n && chance(0.15)) l.back() = h.back(); 
    size_t spoil = chance(0.5) ? 1 + choose(4) : 0; size_t at = n ? choose(n) : 0; 
    if (n && spoil == 1) h[at] = l[at] - range(1, 4) / 8.; else if (n > 1 && spoil == 2) { size_t k = 1 + choose(n - 1); l[k] = l[k - 1] - range(1, 4) / 8.; h[k] = std::max(h[k], l[k] + 0.125); } else if (spoil == 3) h.push_back(x + 1); else if (n > 1 && spoil == 4) { size_t k = choose(n - 1); std::swap(l[k], l[k + 1]); std::swap(h[k], h[k + 1]); }
    bool ok = n && l.size() == h.size(); for (size_t i = 0; ok && i < n; i++) ok = l[i] <= h[i] && (!i || l[i - 1] <= l[i]);
    BinAxis *p = 0; int r = attempt([&] { p = new BinAxis("a", l, h); }, &why); std::unique_ptr<BinAxis> a(p);
    check((r == OK) == ok, ok ? "axis-refused" : "impossible-axis-accepted", fmt("%zu low and %zu high edges, spoilt %zu", l.size(), h.size(), spoil)); if (r != OK) { probe("axis refused"); evaluation(); continue; }
    check(a->GetNBins() == n && a->GetMin() == l[0] && a->GetMax() == h.back() && a->GetBinLowEdges() == l && a->GetBinHighEdges() == h, "axis-geometry-differs", "explicit edges");
    for (size_t i = 0; i < n; i++) check(a->GetBinLowEdge(i) == l[i] && a->GetBinHighEdge(i) == h[i] && close(a->GetBinWidth(i), h[i] - l[i], 1e-14, 1e-14) && close(a->GetBinCentre(i), (l[i] + h[i]) / 2, 1e-14, 1e-14), "axis-geometry-differs", fmt("bin %zu", i));
    for (size_t i = 0; i < n; i++) { bool own = l[i] < h[i]; for (size_t k = 0; k < n; k++) if (k != i && l[k] < h[i] && l[i] < h[k]) own = false; if (own) for (double z : Doubles{l[i], (l[i] + h[i]) / 2, std::nextafter(h[i], -inf)}) check(a->FindBin(z) == i, "wrong-bin", fmt("%g is put in bin %zu instead of %zu", z, a->FindBin(z), i)); }
    check(a->FindBin(l[0] - 1) == 0 && a->FindBin(h.back() + 1) == n - 1, "wrong-bin", "outside of the axis");
    // another axis with one edge changed
    Doubles l2 = l, h2 = h; size_t k = choose(n); bool same = chance(0.3); if (!same) { if (chance(0.5)) { h2[k] = l[k] + (h[k] - l[k]) / 2; if (h2[k] == h[k]) h2[k] += k + 1 == n ? 0.125 : 0; } else l2[k] = l[k] + (h[k] - l[k]) / 2; } bool eq = l2 == l && h2 == h; bool fine = true; for (size_t i = 0; i < n; i++) fine = fine && l2[i] <= h2[i] && (!i || l2[i - 1] <= l2[i]); if (!fine) continue;
    BinAxis b(chance(0.5) ? "a" : "b", l2, h2); check((*a == b) == eq && (b == *a) == eq && (*a != b) == !eq, "equality-wrong", fmt("axes with %s edges, bin %zu", eq ? "the same" : "different", k)); evaluation(); state(mix(n, spoil)); if (n > 2) nontrivial();
  }
}
