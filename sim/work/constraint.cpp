// T01: the constraint manager under histories of setting, replacing and refusing constraints.
#include "common.h"
#include <ConstraintManager.h>
using namespace work; using namespace sim;
namespace
{
typedef std::pair<std::string, std::string> P2;
struct Lattice { std::vector<Doubles> c; Doubles v; Strs names; };   // bin centres per axis, values (last axis fastest)
struct Model
{
  struct I { double m, hi, lo; }; struct B { double m1, s1, m2, s2, r; }; struct R { double m, s; }; struct S { int f; double m, s; };
  std::map<std::string, I> ind; std::map<P2, B> pair; std::map<P2, R> ratio, frac; std::map<std::string, Lattice> interp; std::map<ParameterDict, S> shape;
};
const char *PARS[] = {"a", "b", "c", "d"};
double shapeFn(int f, const ParameterDict &p) { return f == 0 ? p.at("a") : f == 1 ? p.at("a") * p.at("b") : p.at("c") - 2 * p.at("d"); }
// multilinear interpolation between the surrounding bin centres; false outside the lattice of centres
bool interpolate(const Lattice &l, const ParameterDict &p, double &out)
{
  size_t nd = l.names.size(); std::vector<size_t> k(nd); Doubles t(nd);
  for (size_t d = 0; d < nd; d++) { double x = p.at(l.names[d]); const Doubles &c = l.c[d]; if (x < c[0] || x >= c.back()) return false; size_t i = 0; while (x >= c[i + 1]) i++; k[d] = i; t[d] = (x - c[i]) / (c[i + 1] - c[i]); }
  out = 0; for (size_t s = 0; s < (1u << nd); s++) { double w = 1; size_t b = 0; for (size_t d = 0; d < nd; d++) { bool up = s >> d & 1; w *= up ? t[d] : 1 - t[d]; b = b * l.c[d].size() + k[d] + up; } out += w * l.v[b]; }
  return true;
}
double pull(double x, double m, double s) { return (x - m) * (x - m) / (2 * s * s); }
// 0 fine, 1 must be an error (a parameter is missing or outside every lattice cell)
int reference(const Model &m, const ParameterDict &p, double &out)
{
  out = 0; bool err = false; auto has = [&](const std::string &n) { if (!p.count(n)) err = true; return p.count(n) != 0; };
  for (auto &i : m.ind) if (has(i.first)) { double x = p.at(i.first); out += pull(x, i.second.m, x >= i.second.m ? i.second.hi : i.second.lo); }
  for (auto &i : m.pair) if (has(i.first.first) && has(i.first.second)) { auto &b = i.second; double u = (p.at(i.first.first) - b.m1) / b.s1, v = (p.at(i.first.second) - b.m2) / b.s2; out += (u * u - 2 * b.r * u * v + v * v) / (2 * (1 - b.r * b.r)); }
  for (auto &i : m.ratio) if (has(i.first.first) && has(i.first.second)) out += pull(p.at(i.first.first) / p.at(i.first.second), i.second.m, i.second.s);
  for (auto &i : m.frac) if (has(i.first.first) && has(i.first.second)) { double a = p.at(i.first.first), b = p.at(i.first.second); out += pull((a - b) / (a + b), i.second.m, i.second.s); }
  for (auto &i : m.interp) { bool ok = true; for (auto &n : i.second.names) ok = has(n) && ok; double v; if (ok) { if (interpolate(i.second, p, v)) out += v; else err = true; } }
  for (auto &i : m.shape) { bool ok = i.second.f == 2 ? has("c") && has("d") : has("a") && (i.second.f == 0 || has("b")); if (ok && !err) out += pull(shapeFn(i.second.f, p), i.second.m, i.second.s); }
  return err;
}
void history(bool faults)
{
  Quiet q; struct Obj { ConstraintManager c; Model m; }; std::vector<Obj> v(1); int steps = 0; std::string why;
  auto sg = [] { if (chance(0.05)) return chance(0.5) ? 1e-4 : 1e3; return range(1, 16) / 8.; }; auto mean = [] { return range(-16, 32) / 8.; };
  while (steps < 30 && (steps < 4 || more(0.92)))
  {
    steps++; size_t i = choose(v.size()); Obj &o = v[i]; size_t op = choose(10); std::string a = PARS[choose(4)], b = PARS[choose(4)]; if (a == b) b = a == "a" ? "b" : "a"; P2 ab(a, b);
    if (chance(0.4)) { std::vector<P2> used; for (auto &k : o.m.pair) used.push_back(k.first); for (auto &k : o.m.ratio) used.push_back(k.first); for (auto &k : o.m.frac) used.push_back(k.first); if (!used.empty()) { ab = used[choose(used.size())]; a = ab.first; b = ab.second; probe("pair-used-again"); } }   // several kinds of constraint on one pair
    Model next = o.m; bool refuse = false; std::function<void()> f; bool evalOp = false;
    ev("op %zu on %zu %s %s", op, i, a.c_str(), b.c_str());
    bool pairedA = false, pairedB = false; for (auto &p : o.m.pair) { pairedA = pairedA || p.first.first == a || p.first.second == a; pairedB = pairedB || p.first.first == b || p.first.second == b; }
    switch (op)
    {
    case 0: { double m = mean(), s = sg(); f = [=, &o] { o.c.SetConstraint(a, m, s); }; refuse = pairedA; next.ind[a] = {m, s, s}; break; }
    case 1: { double m = mean(), s = sg(), t = sg(); f = [=, &o] { o.c.SetConstraint(a, m, s, t); }; refuse = pairedA; next.ind[a] = {m, s, t}; break; }
    case 2: { double m = mean(), s = sg(), n = mean(), t = sg(), r = range(-8, 8) / 8.; if (chance(0.05)) r = chance(0.5) ? -1.5 : 2; f = [=, &o] { o.c.SetConstraint(a, m, s, b, n, t, r); }; bool again = o.m.pair.count(ab); refuse = fabs(r) >= 1 || (!again && (pairedA || pairedB || o.m.ind.count(a) || o.m.ind.count(b))); next.pair[ab] = {m, s, n, t, r}; if (refuse) probe("refused-pair"); break; }
    case 3: { double m = mean(), s = sg(); f = [=, &o] { o.c.SetConstraint(a, b, m, s); }; next.ratio[ab] = {m, s}; break; }
    case 4: { double m = mean(), s = sg(); f = [=, &o] { o.c.SetFracConstraint(a, b, m, s); }; next.frac[ab] = {m, s}; break; }
    case 5: { ParameterDict d; d["a"] = range(0, 2); if (chance(0.3)) d[b] = 1; int k = choose(3); double m = mean(), s = sg(); f = [=, &o] { o.c.SetConstraint(d, [k](const ParameterDict &p) { return shapeFn(k, p); }, m, s); }; next.shape[d] = {k, m, s}; break; }
    case 6: { Lattice l; size_t nd = chance(0.1) ? 4 : 1 + choose(3); AxisCollection ax; size_t n = 1, at = choose(4); for (size_t d = 0; d < nd; d++) { l.names.push_back(PARS[(at + d) % 4]); size_t nb = 2 + choose(3); double lo = range(-8, 8) / 8., w = range(2, 8) / 8.; Doubles c; for (size_t k = 0; k < nb; k++) c.push_back(lo + (k + 0.5) * w); l.c.push_back(c); ax.AddAxis(BinAxis(l.names[d], lo, lo + nb * w, nb)); n *= nb; }
        for (size_t k = 0; k < n; k++) l.v.push_back(range(0, 80) / 8.); Histogram h(ax); h.SetBinContents(l.v); std::string lab = chance(0.5) ? "l" : "k"; f = [=, &o] { o.c.SetConstraint(lab, h); }; next.interp[lab] = l; break; }
    case 7: if (v.size() < 3) { v.push_back(o); } else if (chance(0.5)) { size_t j = choose(v.size()); v[j] = v[i]; } continue;
    default: evalOp = true;
    }
    if (!evalOp)
    {
      bool fired = false; Out r; { std::unique_ptr<AllocFault> af; if (faults && chance(0.2)) af.reset(new AllocFault(1 + choose(8))); r = attempt([&] { f(); }, &why); fired = af && af->fired(); }
      if (fired) { probe("out-of-memory"); if (r == OK) o.m = next; else if (r == NOMEM) { // either the old or the new set of constraints
          ParameterDict p; for (auto n : PARS) p[n] = range(-16, 32) / 8. + 1 / 32.; double x = 0, y = 0, got = 0; int ex = reference(o.m, p, x), ey = reference(next, p, y); Out e = attempt([&] { got = o.c.Evaluate(p); }, &why); bool old = ex ? e == ERR : e == OK && close(got, x, 1e-9, 1e-9), neu = ey ? e == ERR : e == OK && close(got, y, 1e-9, 1e-9); check(old || neu, "half-done-after-failure", fmt("%.17g, not %.17g or %.17g", got, x, y)); return; } }
      else { check((r == ERR) == refuse, refuse ? "conflict-accepted" : "constraint-refused", why); if (r == OK) o.m = next; }
      state(mix(op, mix(o.m.ind.size() * 100 + o.m.pair.size() * 10 + o.m.ratio.size(), o.m.frac.size() * 100 + o.m.interp.size() * 10 + o.m.shape.size()))); continue;
    }
    ParameterDict p; for (auto n : PARS) p[n] = range(-16, 32) / 8. + 1 / 32.;
    if (chance(0.5)) for (auto &l : o.m.interp) for (size_t d = 0; d < l.second.names.size(); d++) { const Doubles &c = l.second.c[d]; p[l.second.names[d]] = c[0] + choose(64) / 64. * (c.back() - c[0]); }   // into the lattice, often onto centres
    if (chance(0.15)) { size_t k = choose(4); p[PARS[k]] = pick(Doubles{0., -0., 1e6, -1e6, 1e-9, -1e-9, 1., 1.125, 1e-5, -1e-5, 1e-6, 1e-3}); probe("special-value"); }
    if (chance(0.3)) p["unused"] = 7; if (chance(0.15)) { p.erase(PARS[choose(4)]); probe("missing-parameter"); }
    for (auto &o2 : v) { bool singular = false; for (auto &k : o2.m.ratio) singular = singular || (p.count(k.first.second) && fabs(p[k.first.second]) < 1e-7); for (auto &k : o2.m.frac) singular = singular || (p.count(k.first.first) && p.count(k.first.second) && fabs(p[k.first.first] + p[k.first.second]) < 1e-5); if (singular)
      { // a vanishing denominator: how large the penalty of the ratio is is not promised, but it is a penalty
        double x, got = 0; int err = reference(o2.m, p, x); bool sum = false; for (auto &k : o2.m.frac) sum = sum || (p.count(k.first.first) && p.count(k.first.second) && fabs(p[k.first.first] + p[k.first.second]) < 1e-5); if (sum) continue;
        Out r = attempt([&] { got = o2.c.Evaluate(p); }, &why); check(r == (err ? ERR : OK), err ? "made-up-constraint" : "evaluation-failed", why); if (!err) check(std::isfinite(got), "constraint-differs", fmt("%.17g for a ratio with nothing below", got)); probe("vanishing-denominator"); continue;
      }
      double want, got = 0; int err = reference(o2.m, p, want); Out r = attempt([&] { got = o2.c.Evaluate(p); }, &why); ev("%d %.17g", err, want);
      if (err) check(r == ERR, "made-up-constraint", fmt("%.17g although a parameter is missing or outside the lattice", got)); else { check(r == OK, "evaluation-failed", why); check(close(got, want, 1e-9, 1e-9), "constraint-differs", fmt("%.17g instead of %.17g", got, want)); if (o2.m.ind.size() + o2.m.pair.size() + o2.m.ratio.size() + o2.m.frac.size() + o2.m.interp.size() + o2.m.shape.size() > 2) nontrivial(); if (o2.m.interp.size()) probe("interpolated"); } }
  }
}
}
SIM_WORKLOAD("T01", constraint_history, 10, "") { history(false); }
SIM_WORKLOAD("T01", constraint_faults, 4, "") { history(true); }
