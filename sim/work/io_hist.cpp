// Saving and loading histograms (D05): round trip, failed saves, crashes, failed loads.
#include "io_faults.h"
#include <IO.h>
using namespace work;
using namespace sim;
namespace
{
struct AxisModel { std::string name, latex; Doubles lo, hi; };
struct HistModel { std::vector<AxisModel> ax; Doubles c; };
Histogram make(const HistModel &m)
{
  AxisCollection a; for (auto &x : m.ax) a.AddAxis(BinAxis(x.name, x.lo, x.hi, x.latex));
  Histogram h(a); h.SetBinContents(m.c); return h;
}
HistModel model(bool big)
{
  HistModel m; size_t nd = 1 + choose(3), tot = 1; Strs ns = names(nd); Doubles edges;
  for (size_t d = 0; d < nd; d++)
  {
    AxisModel a; a.name = ns[d]; a.latex = chance(0.4) ? "" : chance(0.3) ? "$\\frac{E}{" + letters(1 + choose(60), d) + "}$" : chance(0.3) ? ns[choose(ns.size())] : letters(1 + choose(8), 90 + d);
    size_t n = 1 + choose(big ? 300 / (nd * nd) : 8); double x = real(-50, 50); bool gaps = chance(0.15), equal = chance(0.4); double w = real(0.125, 3);
    for (size_t i = 0; i < n; i++) { a.lo.push_back(x); x += equal ? w : real(0.001, 3); a.hi.push_back(x); if (gaps) x += real(0, 1); }
    tot *= n; m.ax.push_back(a);
  }
  uint64_t salt = choose(100000); for (size_t i = 0; i < tot; i++) m.c.push_back(cell(salt, i, 0));
  size_t k = choose(5); for (size_t i = 0; i < k; i++) { size_t at = choose(tot); m.c[at] = anyDouble(); }
  return m;
}
std::string diffH(const Histogram &h, const HistModel &m)
{
  if (h.GetNDims() != m.ax.size()) return fmt("%zu dimensions instead of %zu", h.GetNDims(), m.ax.size());
  if (h.GetNBins() != m.c.size()) return fmt("%zu bins instead of %zu", h.GetNBins(), m.c.size());
  for (size_t d = 0; d < m.ax.size(); d++)
  {
    const BinAxis &a = h.GetAxes().GetAxis(d); const AxisModel &x = m.ax[d];
    if (a.GetName() != x.name) return "axis name '" + a.GetName() + "' instead of '" + x.name + "'";
    std::string lx = x.latex.empty() ? x.name : x.latex; if (a.GetLatexName() != lx) return "latex name '" + a.GetLatexName() + "' instead of '" + lx + "'";
    if (a.GetNBins() != x.lo.size()) return fmt("axis %zu has %zu bins", d, a.GetNBins());
    for (size_t i = 0; i < x.lo.size(); i++) if (!sameBits(a.GetBinLowEdge(i), x.lo[i]) || !sameBits(a.GetBinHighEdge(i), x.hi[i])) return fmt("axis %zu bin %zu edges [%.17g,%.17g] instead of [%.17g,%.17g]", d, i, a.GetBinLowEdge(i), a.GetBinHighEdge(i), x.lo[i], x.hi[i]);
  }
  Doubles c = h.GetBinContents(); if (c.size() != m.c.size()) return "bin contents have a different length";
  for (size_t i = 0; i < c.size(); i++) if (!sameBits(c[i], m.c[i]) || !sameBits(h.GetBinContent(i), m.c[i])) return fmt("bin %zu is %.17g instead of %.17g", i, c[i], m.c[i]);
  return "";
}
struct HistArt : Art
{
  HistModel m; Histogram h; bool direct;
  HistArt(bool big) : m(model(big)), h(make(m)), direct(chance(0.3)) {}
  void save(const std::string &f) { Quiet q; if (direct) IO::SaveHistogramH5(h, f); else IO::SaveHistogram(h, f); }
  std::string loadDiff(const std::string &f) { Quiet q; return diffH(IO::LoadHistogram(f), m); }
};
}
SIM_WORKLOAD("D05", hist_roundtrip, 4, "")
{
  HistArt a(chance(0.3)); std::string why, d, f = chance(0.2) ? "a.b.h5" : "h.h5";
  ev("histogram %zu dims %zu bins", a.m.ax.size(), a.m.c.size());
  bool benign = chance(0.5); if (benign) disk::arm(benignPlan());
  check(attempt([&] { a.save(f); }, &why) == OK, "save-failed-without-fault", why);
  check(attempt([&] { d = a.loadDiff(f); }, &why) == OK, "load-failed-without-fault", why);
  check(d.empty(), "round-trip-differs", d);
  disk::disarm();
  { Quiet q; Histogram l = IO::LoadHistogram(f); check(l.GetAxes() == a.h.GetAxes(), "round-trip-differs", "axes do not compare equal"); IO::SaveHistogram(l, "g.h5"); d = a.loadDiff("g.h5"); }
  check(d.empty(), "round-trip-differs", d + " (second generation)");
  state(mix(mix(a.m.ax.size(), a.m.c.size()), benign)); nontrivial();
}
SIM_WORKLOAD("D05", hist_degenerate, 0.5, "")
{
  HistModel m = model(false); size_t k = choose(3); std::string why;
  if (k == 0) m.ax[choose(m.ax.size())].name += ":b"; else if (k == 1) m.ax[choose(m.ax.size())].latex = "a:b";
  Histogram h = make(m); Quiet q;
  if (k == 2) { Out o = attempt([&] { IO::SaveHistogram(h, "x.txt"); }, &why); check(o == ERR && !disk::exists("x.txt"), "unknown-extension-accepted", ""); nontrivial(); return; }
  Out o = attempt([&] { IO::SaveHistogram(h, "x.h5"); }, &why);
  if (o == OK) { std::string d; Out l = attempt([&] { d = diffH(IO::LoadHistogram("x.h5"), m); }, &why); check(l == OK && d.empty(), "round-trip-differs", l == OK ? d : why); }
  else { std::string d; Out l = attempt([&] { d = diffH(IO::LoadHistogram("x.h5"), m); }, &why); check(l != OK || d.empty(), "failed-save-left-wrong-file", d); probe("refused"); }
  nontrivial();
}
SIM_WORKLOAD("D05", hist_failed_save, 4, "") { HistArt a(false), b(chance(0.3)); failedSave(a, b); }
SIM_WORKLOAD("D05", hist_crash_during_save, 4, "") { HistArt a(false), b(chance(0.3)); crashDuringSave(a, b); }
SIM_WORKLOAD("D05", hist_failed_load, 4, "")
{
  HistArt a(chance(0.3)); std::string why; check(attempt([&] { a.save("x.h5"); }, &why) == OK, "save-failed-without-fault", why);
  Ops ops = measure([&] { a.loadDiff("x.h5"); }); int n = range(1, 3);
  for (int i = 0; i < n; i++) failedLoad("x.h5", [&] { return a.loadDiff("x.h5"); }, false, ops);
}
