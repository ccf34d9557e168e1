// V01: functions and distributions evaluate to their definition, after any history.
#include "common.h"
#include <Gaussian.h>
#include <JumpPDF.h>
#include <VaryingCDF.h>
#include <SquareRootScale.h>
#include <Heaviside.h>
#include <AnalyticED.h>
#include <CompositeED.h>
#include <BinnedED.h>
using namespace work; using namespace sim;
namespace
{
double density(double x, double m, double s) { return exp(-(x - m) * (x - m) / (2 * s * s)) / (s * sqrt(2 * M_PI)); }
double cumulative(double x, double m, double s) { return 0.5 * erfc(-(x - m) / (s * sqrt(2.))); }
double pos() { return chance(0.1) ? pick(Doubles{1e-3, 1., 1000.}) : range(1, 40) / 8.; }
double loc() { return chance(0.1) ? pick(Doubles{0., -1e-9, 1e3, -1e3}) : range(-40, 40) / 8.; }
double place() { return chance(0.05) ? pick(Doubles{1e6, -1e6, INFINITY, -INFINITY, 0.}) : range(-80, 80) / 16. + 1 / 64.; }

// ------------------------------------------------------------------------------------------ Gaussians
struct G { std::shared_ptr<Gaussian> g; Doubles m, s; Strs mn, sn; double cut; };
double cdf(const G &k, size_t d, double x) { double n = (x - k.m[d]) / k.s[d]; return n > k.cut ? 1 : n < -k.cut ? 0 : cumulative(x, k.m[d], k.s[d]); }
bool nearCut(const G &k, size_t d, double x) { return fabs(fabs((x - k.m[d]) / k.s[d]) - k.cut) < 1e-6; }
std::string differs(const G &k)
{
  size_t n = k.m.size(); if (k.g->GetNDims() != n) return fmt("%zu dimensions instead of %zu", k.g->GetNDims(), n); if (k.g->GetMeans() != k.m || k.g->GetStdDevs() != k.s) return "means or widths"; if (k.g->GetMeanNames() != k.mn || k.g->GetStDevNames() != k.sn) return "names of the parameters"; if (k.g->GetCdfCutOff() != k.cut || k.g->Integral() != 1) return "cut-off or integral";
  Doubles x(n), lo(n), hi(n); double want = 1, box = 1; bool skip = false; for (size_t i = 0; i < n; i++)
  { x[i] = chance(0.1) ? k.m[i] : place(); want *= density(x[i], k.m[i], k.s[i]); lo[i] = place(); hi[i] = chance(0.1) ? lo[i] : place(); if (lo[i] > hi[i] && chance(0.8)) std::swap(lo[i], hi[i]); if (chance(0.1)) { lo[i] = -INFINITY; hi[i] = INFINITY; } box *= cdf(k, i, hi[i]) - cdf(k, i, lo[i]); skip = skip || nearCut(k, i, lo[i]) || nearCut(k, i, hi[i]);
    if (!nearCut(k, i, x[i])) { double c = k.g->Cdf(i, x[i]), w = cdf(k, i, x[i]); if (!close(c, w, 1e-9, 1e-12)) return fmt("cumulative %.17g instead of %.17g at %g in dimension %zu", c, w, x[i], i); } if (k.g->GetMean(i) != k.m[i] || k.g->GetStDev(i) != k.s[i]) return fmt("mean or width %zu", i); if (k.g->GetParameter(k.mn[i]) != k.m[i] || k.g->GetParameter(k.sn[i]) != k.s[i]) return fmt("parameters of dimension %zu", i); }
  double got = (*k.g)(x); if (!close(got, want, 1e-7, 1e-300)) return fmt("density %.17g instead of %.17g", got, want); if (!skip) { got = k.g->Integral(lo, hi); if (!close(got, box, 1e-6, 1e-11)) return fmt("integral %.17g instead of %.17g", got, box); } return "";
}
void gaussians()
{
  Quiet q; std::string why; std::vector<G> v; int fresh = 0, steps = 0;
  auto add = [&] { G k; size_t n = 1 + choose(4); k.cut = 6; size_t how = choose(n == 1 ? 4 : 2); for (size_t i = 0; i < n; i++) { k.m.push_back(how == 0 || how == 3 ? 0 : loc()); k.s.push_back(how == 0 || how == 3 ? 1 : pos()); k.mn.push_back(fmt("means_%zu", i)); k.sn.push_back(fmt("stddevs_%zu", i)); }
    std::string nm = chance(0.5) ? "" : "name"; k.g.reset(how == 0 ? new Gaussian(n, nm) : how == 1 ? new Gaussian(k.m, k.s, nm) : how == 2 ? new Gaussian(k.m[0], k.s[0], nm) : new Gaussian()); if (how != 3) check(k.g->GetName() == (nm == "" ? "gaussian" : nm), "name-differs", k.g->GetName()); v.push_back(k); };
  add();
  while (steps < 24 && (steps < 3 || more(0.9)))
  {
    steps++; size_t i = choose(v.size()), j = choose(v.size()), op = weighted({1, 3, 3, 1, 1, 1, 1, 1, 2}); ev("op %zu on %zu %zu", op, i, j); state(mix(op, mix(v.size(), v[i].m.size()))); G &k = v[i]; size_t n = k.m.size(), d = choose(n);
    switch (op)
    {
    case 0: if (v.size() < 5) add(); break;
    case 1: if (chance(0.5)) k.g->SetMean(d, k.m[d] = loc()); else k.g->SetParameter(k.mn[d], k.m[d] = loc()); break;
    case 2: if (chance(0.5)) k.g->SetStDev(d, k.s[d] = pos()); else k.g->SetParameter(k.sn[d], k.s[d] = pos()); break;
    case 3: { ParameterDict p; for (size_t a = 0; a < n; a++) { if (chance(0.7)) p[k.mn[a]] = k.m[a] = loc(); if (chance(0.7)) p[k.sn[a]] = k.s[a] = pos(); } p["other"] = 3; k.g->SetParameters(p); nontrivial(); break; }
    case 4: for (double &x : k.m) x = loc(); k.g->SetMeans(k.m); if (chance(0.5)) { for (double &x : k.s) x = pos(); k.g->SetStDevs(k.s); } break;
    case 5: { std::string to = fmt("r%d", fresh++); if (chance(0.5)) { k.g->RenameParameter(k.mn[d], to); k.mn[d] = to; } else { k.g->RenameParameter(k.sn[d], to); k.sn[d] = to; } break; }
    case 6: k.cut = pick(Doubles{0.5, 2., 6., 30.}); k.g->SetCdfCutOff(k.cut); probe("cut-off-changed"); break;
    case 7:
    { Doubles x(n + (chance(0.5) ? 1 : -1), 1.), y(n, 1.); size_t w = choose(8); ev("refusal %zu", w); if (w == 6 && x.size() > n) x[n] = 0; Doubles bad(n, 1.); bad[d] = chance(0.5) ? 0 : -pos();
      Out o = attempt([&] { switch (w) { case 0: (*k.g)(x); break; case 1: k.g->Integral(x, y); break; case 2: k.g->Integral(y, x); break; case 3: k.g->Cdf(n + choose(3), 1); break; case 4: k.g->GetMean(n + choose(3)); break; case 5: k.g->GetStDev(n + choose(3)); break; case 6: Gaussian(y, x); break; default: Gaussian(y, bad); } }, &why); check(o == ERR, "senseless-request-accepted", fmt("case %zu with %zu dimensions", w, n)); break; }
    default: if (chance(0.5) && v.size() < 5) { G c = k; c.g.reset(chance(0.5) ? new Gaussian(*k.g) : static_cast<Gaussian *>(k.g->Clone())); v.push_back(c); nontrivial(); } else { *k.g = *v[j].g; std::shared_ptr<Gaussian> keep = k.g; k = v[j]; k.g = keep; }
    }
    for (size_t a = 0; a < v.size(); a++) { std::string s = differs(v[a]); check(s == "", a == i ? "value-differs" : "copies-not-independent", fmt("after operation %zu, Gaussian %zu: ", op, a) + s); }
  }
}

// ------------------------------------------------------------------------------------------ conditional distributions
struct Line : public Function // a + b x, may fail
{
  double a, b; std::string nm; std::shared_ptr<long> left; Line(double a_, double b_) : a(a_), b(b_), nm("line"), left(new long(-1)) {}
  Function *Clone() const { return new Line(*this); } size_t GetNDims() const { return 1; }
  double operator()(const std::vector<double> &x) const { if (*left == 0) { fault("function-fails"); throw ValueError("simulated: the function fails"); } if (*left > 0) --*left; return a + b * x.at(0); }
  void SetParameter(const std::string &n, double v) { if (n != "slope") throw ParameterError("no such parameter"); b = v; } double GetParameter(const std::string &n) const { if (n != "slope") throw ParameterError("no such parameter"); return b; }
  void SetParameters(const ParameterDict &p) { auto i = p.find("slope"); if (i == p.end()) throw ParameterError("no such parameter"); b = i->second; } ParameterDict GetParameters() const { ParameterDict p; p["slope"] = b; return p; } size_t GetParameterCount() const { return 1; } std::set<std::string> GetParameterNames() const { std::set<std::string> s; s.insert("slope"); return s; }
  void RenameParameter(const std::string &, const std::string &) {} std::string GetName() const { return nm; } void SetName(const std::string &n) { nm = n; }
};
struct Dep { int kind; double a, b; }; // 0: none, 1: root, 2: line
double of(const Dep &d, double x, double none) { return d.kind == 0 ? none : d.kind == 1 ? d.b * sqrt(fabs(x)) : d.a + d.b * x; }
void conditionals()
{
  Quiet q; std::string why; int steps = 0; struct V { std::shared_ptr<ConditionalPDF> c; VaryingCDF *v; double m, s; Dep dm, ds; std::shared_ptr<long> lm, ls; }; std::vector<V> all;
  auto add = [&] { V k; k.m = loc(); k.s = pos(); k.dm.kind = k.ds.kind = 0; k.v = 0; Gaussian g(k.m, k.s); if (chance(0.4)) k.c.reset(new JumpPDF("j", &g)); else { k.v = new VaryingCDF(chance(0.5) ? "v" : ""); k.c.reset(k.v); if (chance(0.3)) { check(attempt([&] { k.v->ConditionalProbability(Doubles(1, 1.), Doubles(1, 1.)); }, &why) == ERR, "kernel-missing", ""); check(attempt([&] { k.v->Integral(Doubles(1, 1.), Doubles(1, 2.), Doubles(1, 1.)); }, &why) == ERR, "kernel-missing", ""); } JumpPDF j("j", &g); if (chance(0.5)) k.v->SetKernel(&g); else k.v->SetKernel(&j); } all.push_back(k); };
  add(); if (chance(0.1)) { JumpPDF none("n", 0); check(attempt([&] { none.ConditionalProbability(Doubles(1, 1.), Doubles(1, 1.)); }, &why) == ERR && attempt([&] { none.Integral(Doubles(1, 1.), Doubles(1, 2.), Doubles(1, 1.)); }, &why) == ERR, "kernel-missing", "JumpPDF"); }
  while (steps < 24 && (steps < 3 || more(0.9)))
  {
    steps++; size_t i = choose(all.size()), op = choose(8); V &k = all[i]; ev("op %zu on %zu", op, i); state(mix(op, mix(k.dm.kind * 3 + k.ds.kind, all.size())));
    switch (op)
    {
    case 0: if (all.size() < 4) add(); break;
    case 1: case 2: if (k.v) { bool mean = op == 1; Dep d; d.kind = 1 + (int)choose(2); d.a = mean ? loc() : 30 + pos(); d.b = mean ? range(-16, 16) / 8. : d.kind == 1 ? pos() : range(-4, 4) / 8.; std::string p = mean ? "means_0" : "stddevs_0"; if (d.kind == 1) { SquareRootScale r("r"); r.SetGradient(d.b); check(r.GetGradient() == d.b && close(r(Doubles(1, -4.)), 2 * d.b), "value-differs", "root of minus four"); k.v->SetDependance(p, &r); (mean ? k.lm : k.ls).reset(); } else { Line l(d.a, d.b); (mean ? k.lm : k.ls) = l.left; k.v->SetDependance(p, &l); } (mean ? k.dm : k.ds) = d; nontrivial(); } break;
    case 3: { double x = mix(steps, i) % 2 ? loc() : pos(); k.m = k.dm.kind ? k.m : x; if (!k.v) { k.m = x; k.c->SetParameter("means_0", x); } else { Gaussian g(x, k.s = pos()); k.m = x; k.v->SetKernel(&g); } break; }
    case 4: if (k.dm.kind && k.dm.kind == k.ds.kind) // both functions know the parameter
      {
        bool line = k.dm.kind == 2; double x = line ? range(-16, 16) / 8. : pos(); k.dm.b = k.ds.b = x; ParameterDict d; d[line ? "slope" : "grad"] = x; d["other"] = 3; if (chance(0.5)) k.v->SetParameter(line ? "slope" : "grad", x); else k.v->SetParameters(d);
        check(k.v->GetParameter(line ? "slope" : "grad") == x, "value-differs", "shared parameter"); probe("shared-parameter");
      }
      else if (k.dm.kind == 2 && k.ds.kind == 1 && chance(0.5)) { ParameterDict d; d["slope"] = k.dm.b = range(-16, 16) / 8.; d["grad"] = k.ds.b = pos(); k.v->SetParameters(d); }
      else if (k.dm.kind == 2 && k.ds.kind != 2) { k.v->SetParameter("slope", k.dm.b = range(-16, 16) / 8.); check(k.v->GetParameter("slope") == k.dm.b, "value-differs", "slope"); } else if (k.ds.kind == 1 && k.dm.kind != 1) { k.v->SetParameter("grad", k.ds.b = pos()); check(k.v->GetParameter("grad") == k.ds.b, "value-differs", "gradient"); } break;
    case 5: { std::shared_ptr<long> l = chance(0.5) ? k.lm : k.ls; if (!l) break; *l = 0; Out o = chance(0.5) ? attempt([&] { k.c->ConditionalProbability(Doubles(1, 2.), Doubles(1, 1.)); }, &why) : attempt([&] { k.c->Integral(Doubles(1, 2.), Doubles(1, 3.), Doubles(1, 1.)); }, &why); check(o == ERR, "failure-hidden", "a parameter function that fails"); *l = -1; break; }
    default: if (all.size() < 4) { V c = k; c.lm.reset(); c.ls.reset(); c.c.reset(k.c->Clone()); c.v = k.v ? static_cast<VaryingCDF *>(c.c.get()) : 0; all.push_back(c); } else all.erase(all.begin() + i);
    }
    for (size_t a = 0; a < all.size(); a++)
    {
      V &z = all[a]; double y = chance(0.1) ? 0 : range(-64, 64) / 8.; bool second = chance(0.5); double x = y + range(-40, 40) / 8., m = of(z.dm, y, z.m), s = of(z.ds, y, z.s); if (!(s > 1e-3)) continue; // either the density or the integral first
      double got = 0, want; if (!second) { got = z.c->ConditionalProbability(Doubles(1, x), Doubles(1, y)); want = density(x - y, m, s); check(close(got, want, 1e-7, 1e-300), "value-differs", fmt("after operation %zu distribution %zu has density %.17g instead of %.17g at %g given %g", op, a, got, want, x, y)); }
      double lo = x, hi = x + range(0, 40) / 8., n1 = (lo - y - m) / s, n2 = (hi - y - m) / s; if (fabs(fabs(n1) - 6) < 1e-6 || fabs(fabs(n2) - 6) < 1e-6) continue; auto c = [](double n) { return n > 6 ? 1. : n < -6 ? 0. : cumulative(n, 0, 1); }; want = c(n2) - c(n1); got = z.c->Integral(Doubles(1, lo), Doubles(1, hi), Doubles(1, y)); check(close(got, want, 1e-6, 1e-9), "value-differs", fmt("after operation %zu distribution %zu has integral %.17g instead of %.17g", op, a, got, want));
    }
  }
}

// ------------------------------------------------------------------------------------------ distributions of events
struct Part { int kind; Strs obs; Doubles a, b; }; // 0: Gaussian of means a, widths b; 1: bins of contents a
struct D { std::shared_ptr<EventDistribution> d; std::vector<Part> p; std::string name; };
void products()
{
  Quiet q; std::string why; Strs names({"o0", "o1", "o2", "o3"}); size_t no = 4; std::vector<D> v; int steps = 0;
  for (size_t i = no; i-- > 1;) std::swap(names[i], names[choose(i + 1)]);
  auto plain = [&](size_t id) { D r; Part p; p.kind = (int)choose(2); size_t n = 1 + choose(2); Strs left = names; for (size_t i = 0; i < n; i++) { size_t c = choose(left.size()); p.obs.push_back(left[c]); left.erase(left.begin() + c); } r.name = fmt("d%zu", id);
    if (p.kind == 0) { for (size_t i = 0; i < n; i++) { p.a.push_back(loc()); p.b.push_back(pos()); } Gaussian g(p.a, p.b); AnalyticED *e = new AnalyticED(r.name, &g); e->SetObservables(ObsSet(p.obs)); r.d.reset(e); if (chance(0.1)) check(attempt([&] { e->Probability(Doubles(n + 1, 0.)); }, &why) == ERR, "senseless-request-accepted", "a point of another dimension"); }
    else { AxisCollection ax; for (size_t i = 0; i < n; i++) ax.AddAxis(BinAxis(p.obs[i], -2, 2, 4)); for (size_t b = 0; b < ax.GetNBins(); b++) p.a.push_back(chance(0.2) ? 0 : range(1, 40) / 8.); p.a[0] = 1; BinnedED *e = new BinnedED(r.name, ax); e->SetObservables(p.obs); e->SetBinContents(p.a); r.d.reset(e); }
    r.p.push_back(p); return r; };
  auto value = [&](const D &k, const Doubles &x) { double w = 1; for (auto &p : k.p) { Doubles y; for (auto &o : p.obs) y.push_back(x[std::find(names.begin(), names.end(), o) - names.begin()]); if (p.kind == 0) for (size_t i = 0; i < y.size(); i++) w *= density(y[i], p.a[i], p.b[i]); else { size_t b = 0; for (size_t i = 0; i < y.size(); i++) b = b * 4 + (size_t)std::max(0., std::min(3., floor(y[i] + 2))); double t = 0; for (double z : p.a) t += z; w *= p.a[b] / t; } } return w; };
  auto sum = [](const Doubles &a) { double s = 0; for (double x : a) s += x; return s; };
  v.push_back(plain(0)); v.push_back(plain(1));
  while (steps < 16 && (steps < 3 || more(0.88)))
  {
    steps++; size_t i = choose(v.size()), j = choose(v.size()), op = weighted({2, 4, 2, 2, 1, 1}); ev("op %zu on %zu %zu", op, i, j); state(mix(op, mix(v[i].p.size(), v.size())));
    switch (op)
    {
    case 0: if (v.size() < 7) v.push_back(plain(v.size() + steps)); break;
    case 1: if (v.size() < 7 && v[i].p.size() + v[j].p.size() < 7)
      { D r; size_t how = choose(3), h = choose(v.size()); CompositeED *c; if (how == 0) c = new CompositeED(v[i].d.get(), v[j].d.get()); else if (how == 1) c = new CompositeED(*v[i].d * *v[j].d); else { std::vector<EventDistribution *> l; l.push_back(v[i].d.get()); l.push_back(v[j].d.get()); l.push_back(v[h].d.get()); c = new CompositeED(l); } r.p = v[i].p; r.p.insert(r.p.end(), v[j].p.begin(), v[j].p.end()); r.name = v[i].name + "*" + v[j].name; if (how == 2) { r.p.insert(r.p.end(), v[h].p.begin(), v[h].p.end()); r.name += "*" + v[h].name; } r.d.reset(c); v.push_back(r); nontrivial(); probe(v[i].p.size() + v[j].p.size() > 2 ? "nested-product" : "product"); } break;
    case 2: v[i].d->Normalise(); for (auto &p : v[i].p) if (p.kind == 1) { double t = sum(p.a); for (double &x : p.a) x /= t; } break;
    case 3: if (v.size() < 7) { D c = v[i]; c.d.reset(v[i].d->Clone()); v.push_back(c); } else v.erase(v.begin() + i); break;
    case 4: v[i].name = fmt("n%d", steps); v[i].d->SetName(v[i].name); break;
    default: { Strs few(names.begin(), names.begin() + choose(no)); Event e(Doubles(few.size(), 0.)); e.SetObservableNames(&few); bool needs = false; for (auto &p : v[i].p) for (auto &o : p.obs) needs = needs || std::find(few.begin(), few.end(), o) == few.end(); Out o = attempt([&] { v[i].d->Probability(e); }, &why); check((o == OK) == !needs, needs ? "observable-invented" : "value-refused", why); }
    }
    Doubles x; for (size_t k = 0; k < no; k++) x.push_back(range(-48, 48) / 16. + 1 / 64.); Strs order = names; Doubles y = x; if (chance(0.5)) { size_t a = choose(no), b = choose(no); std::swap(order[a], order[b]); std::swap(y[a], y[b]); } Event e(y); e.SetObservableNames(&order);
    for (size_t a = 0; a < v.size(); a++)
    {
      D &k = v[a]; double want = value(k, x), got = k.d->Probability(e); check(close(got, want, 1e-7, 1e-300), a == i ? "value-differs" : "unrelated-distribution-changed", fmt("after operation %zu distribution %zu of %zu parts gives %.17g instead of %.17g", op, a, k.p.size(), got, want));
      double in = 1; unsigned dims = 0; for (auto &p : k.p) { dims += p.obs.size(); if (p.kind == 1) in *= sum(p.a); } check(close(k.d->Integral(), in, 1e-8) && k.d->GetNDims() == dims && k.d->GetName() == k.name, "description-differs", fmt("integral %.17g instead of %.17g, %u dimensions instead of %u, or the name", k.d->Integral(), in, k.d->GetNDims(), dims));
    }
  }
}

// ------------------------------------------------------------------------------------------ steps
struct Step : public Heaviside
{
  size_t n; Step(size_t n_) : Heaviside((int)n_), n(n_) {} Function *Clone() const { return new Step(*this); } size_t GetNDims() const { return n; }
  void SetParameter(const std::string &, double) {} double GetParameter(const std::string &) const { return 0; } void SetParameters(const ParameterDict &) {} ParameterDict GetParameters() const { return ParameterDict(); } size_t GetParameterCount() const { return 0; } std::set<std::string> GetParameterNames() const { return std::set<std::string>(); } void RenameParameter(const std::string &, const std::string &) {} std::string GetName() const { return ""; } void SetName(const std::string &) {}
};
void steps()
{
  Quiet q; std::string why; size_t n = 1 + choose(4); Step s(n); Doubles at(n, 0); std::vector<int> side(n, 2);
  for (int t = 0; t < 30; t++)
  {
    if (chance(0.3)) { size_t d = choose(n); at[d] = range(-8, 8) / 4.; side[d] = (int)choose(2); s.AddConstraint((unsigned)d, at[d], side[d] ? Heaviside::MINIMUM : Heaviside::MAXIMUM); ev("side"); }
    if (chance(0.1)) check(attempt([&] { if (chance(0.5)) s.AddConstraint((unsigned)(n + choose(2)), 0, Heaviside::MAXIMUM); else s.AddConstraint(0, 1, Heaviside::IGNORE); }, &why) == ERR, "senseless-request-accepted", "constraint");
    Doubles x(n); bool in = true; for (size_t d = 0; d < n; d++) { x[d] = range(-12, 12) / 4.; if (side[d] == 0 && x[d] > at[d]) in = false; if (side[d] == 1 && x[d] < at[d]) in = false; } check(s(x) == (in ? 1 : 0), "value-differs", "step function"); if (chance(0.1)) { Doubles y(n + 1, 0.); check(attempt([&] { s(y); }, &why) == ERR, "senseless-request-accepted", "point"); }
  }
  nontrivial(); state(n);
}
}
SIM_WORKLOAD("V01", gaussian_history, 5, "") { gaussians(); }
SIM_WORKLOAD("V01", conditional_history, 5, "") { conditionals(); }
SIM_WORKLOAD("V01", product_history, 5, "") { products(); }
SIM_WORKLOAD("V01", step_functions, 0.3, "") { steps(); }
