// P01: parameters reach exactly the components that own them.  X01: components are independent values that free what they own.
#include "common.h"
#include <Gaussian.h>
#include <Scale.h>
#include <Shift.h>
#include <ScaleFunction.h>
#include <Shape.h>
#include <Renorm.h>
#include <Convolution.h>
#include <JumpPDF.h>
#include <VaryingCDF.h>
#include <SquareRootScale.h>
#include <AnalyticED.h>
#include <CompositeED.h>
#include <SpectralFitDist.h>
#include <EventScale.h>
#include <EventShift.h>
#include <EventReconvolution.h>
#include <EventConvolution.h>
#include <ParameterManager.h>
#include <ComponentManager.h>
#include <FitResult.h>
#include <DenseMatrix.h>
#include <Rand.h>
#include <list>
using namespace work; using namespace sim;
namespace
{
double gaussDensity(double x, double m, double s) { return exp(-(x - m) * (x - m) / (2 * s * s)) / (s * sqrt(2 * M_PI)); }
double gaussCdf(double x, double m, double s) { return 0.5 * (1 + erf((x - m) / (s * sqrt(2.)))); }
double gaussIntegral(double a, double b, double m, double s) { return gaussCdf(b, m, s) - gaussCdf(a, m, s); }

// a component that owns doubles and containers through a ParameterManager
struct Managed : public FitComponent
{
  ParameterManager m; double d[2]; Doubles v; std::list<double> l; std::string name; Managed(size_t nv, size_t nl) : v(nv, 0.), l(nl, 0.) { d[0] = d[1] = 0; m.AddDouble(d[0], "p0"); m.AddDouble(d[1], "p1"); Strs n; for (size_t i = 0; i < nv; i++) n.push_back(fmt("p%zu", i + 2)); m.AddContainer(v, n); m.AddContainer(l, "q"); }
  void SetParameter(const std::string &n, double x) { m.SetParameter(n, x); } double GetParameter(const std::string &n) const { return m.GetParameter(n); }
  void SetParameters(const ParameterDict &p) { m.SetParameters(p); } ParameterDict GetParameters() const { return m.GetParameters(); } size_t GetParameterCount() const { return m.GetParameterCount(); }
  std::set<std::string> GetParameterNames() const { return m.GetParameterNames(); } void RenameParameter(const std::string &a, const std::string &b) { m.RenameParameter(a, b); } std::string GetName() const { return name; } void SetName(const std::string &n) { name = n; }
};

struct Comp
{
  int kind; std::shared_ptr<FitComponent> c; Strs slot; Doubles val; bool strict; // strict: complains about missing and unknown names
  std::shared_ptr<Strs> funcNames;                              // what a user function is called with
  std::shared_ptr<ParameterDict> seen;
  std::string name; Strs obs;                                   // the name, and the observables of a distribution
  bool renamable() const { return true; }
};
AxisCollection oneAxis(size_t nb) { AxisCollection a; a.AddAxis(BinAxis("x", 0, (double)nb, nb)); return a; }
const int KINDS = 17;
Comp make(int kind, const std::string &tag)
{
  Comp k; k.kind = kind; k.strict = true; ObsSet ox(Strs(1, "x")); std::vector<std::string> init;
  auto sys = [&](Systematic *s) { s->SetAxes(oneAxis(4)); s->SetTransformationObs(ox); s->SetDistributionObs(ox); };
  switch (kind)
  {
  case 0: { size_t nd = 1 + choose(3); Gaussian *g = new Gaussian(nd); k.c.reset(g); for (size_t i = 0; i < nd; i++) { init.push_back(fmt("means_%zu", i)); init.push_back(fmt("stddevs_%zu", i)); } k.strict = false; break; }
  case 1: { Scale *s = new Scale(tag); sys(s); k.c.reset(s); init.push_back("scaleFactor"); break; }
  case 2: { Shift *s = new Shift(tag); sys(s); k.c.reset(s); init.push_back("shift"); break; }
  case 3: { ScaleFunction *s = new ScaleFunction(tag); sys(s); k.seen.reset(new ParameterDict); std::shared_ptr<ParameterDict> seen = k.seen; Strs n; for (size_t i = 1 + choose(3); i--;) n.push_back(fmt("%s_f%zu", tag.c_str(), i)); s->SetScaleFunction([seen](const ParameterDict &p, const double &x) { *seen = p; return x; }, n); k.c.reset(s); init = n; break; }
  case 4: { Shape *s = new Shape(tag); sys(s); k.seen.reset(new ParameterDict); std::shared_ptr<ParameterDict> seen = k.seen; Strs n; for (size_t i = 1 + choose(3); i--;) n.push_back(fmt("%s_h%zu", tag.c_str(), i)); s->SetShapeFunction([seen](const ParameterDict &p, const Doubles &) { *seen = p; return 1.; }, n); k.c.reset(s); init = n; break; }
  case 5: { Convolution *s = new Convolution(tag); sys(s); Gaussian g(0, 1); s->SetFunction(&g); k.c.reset(s); init.push_back("means_0"); init.push_back("stddevs_0"); k.strict = false; break; }
  case 6: { VaryingCDF *v = new VaryingCDF(tag); Gaussian g(0, 1); v->SetKernel(&g); SquareRootScale a("a"), b("b"); a.RenameParameter("grad", "grad0"); b.RenameParameter("grad", "grad1"); v->SetDependance("means_0", &a); init.push_back("grad0"); if (chance(0.6)) { v->SetDependance("stddevs_0", &b); init.push_back("grad1"); } k.c.reset(v); break; }
  case 7: { Convolution *s = new Convolution(tag); sys(s); VaryingCDF v(tag); Gaussian g(0, 1); v.SetKernel(&g); SquareRootScale b("b"); v.SetDependance("stddevs_0", &b); s->SetConditionalPDF(&v); k.c.reset(s); init.push_back("grad"); break; }
  case 8: { Gaussian g(0, 1); AnalyticED *e = new AnalyticED(tag, &g); e->SetObservables(ox); k.obs = Strs(1, "x"); k.c.reset(e); init.push_back("means_0"); init.push_back("stddevs_0"); k.strict = false; break; }
  case 9: { size_t nb = chance(0.15) ? 12 : 1 + choose(4); SpectralFitDist *e = new SpectralFitDist(tag, oneAxis(nb)); k.c.reset(e); for (size_t i = 0; i < nb; i++) init.push_back(fmt("%s_bin_%zu", tag.c_str(), i)); break; }
  case 10: { EventScale *e = new EventScale(tag); e->SetOutObservables(Strs(1, "x")); e->SetInObservables(Strs(1, "x")); k.c.reset(e); init.push_back("scale"); break; }
  case 11: { EventShift *e = new EventShift(tag); e->SetOutObservables(Strs(1, "x")); e->SetInObservables(Strs(1, "x")); k.c.reset(e); init.push_back("shift"); break; }
  case 12: { EventReconvolution *e = new EventReconvolution(tag); e->SetOutObservables(Strs(1, "x")); e->SetInObservables(Strs(1, "y")); k.c.reset(e); init.push_back("correction"); break; }
  case 13: { EventConvolution *e = new EventConvolution(tag); Gaussian g(0, 1); e->SetPDF(&g); e->SetOutObservables(Strs(1, "x")); e->SetInObservables(Strs(1, "x")); k.c.reset(e); init.push_back("means_0"); init.push_back("stddevs_0"); k.strict = false; break; }
  case 14: { Gaussian g(0, 1); k.c.reset(new JumpPDF(tag, &g)); init.push_back("means_0"); init.push_back("stddevs_0"); k.strict = false; break; }
  case 15: { size_t nv = chance(0.2) ? 12 : 1 + choose(3), nl = chance(0.2) ? 12 : 1 + choose(3); k.c.reset(new Managed(nv, nl)); for (size_t i = 0; i < nv + 2; i++) init.push_back(fmt("p%zu", i)); for (size_t i = 0; i < nl; i++) init.push_back(fmt("q_%zu", i)); break; }
  default: k.c.reset(new SquareRootScale(tag)); init.push_back("grad"); break;
  }
  k.slot = init; for (size_t i = 0; i < init.size(); i++) k.val.push_back(0);
  k.name = k.c->GetName();
  return k;
}
double value() { return range(1, 40) / 8.; }
bool gaussian(const Comp &k) { return k.kind == 0 || k.kind == 5 || k.kind == 8 || k.kind == 13 || k.kind == 14; }
// a value for slot i: mostly ordinary; now and then zero, negative, tiny, huge, the value it has or one next to it
double value(const Comp &k, size_t i)
{
  bool width = k.kind == 7 || k.slot[i] == "grad" || (k.kind == 6 && i == 1) || (gaussian(k) && i % 2 == 1);
  if (gaussian(k)) for (size_t j = 1; j < k.slot.size(); j += 2) width = width || k.slot[j] == k.slot[i];
  switch (weighted({16, 2, 1, 1, 1}))
  {
  case 1: return width ? pick(Doubles{1e-3, 1., 1000.}) : pick(Doubles{0., -1., -2.5, 1e-12, -1e-12, 1e12, -1e12, 1., 2.});
  case 2: return k.val[i] != 0 ? k.val[i] : value();
  case 3: return k.val[i] != 0 ? k.val[i] * (1 + 1e-14) : value();
  case 4: return k.val[i] != 0 ? k.val[i] * (1 - 1e-9) : value();
  }
  return value();
}
// does the component do what its parameters say; "" if so
std::string effect(Comp &k)
{
  auto bad = [&](size_t i, double got, double want) { return fmt("parameter '%s' is %.17g but the component behaves as for %.17g", k.slot[i].c_str(), want, got); };
  const Doubles &v = k.val;
  switch (k.kind)
  {
  case 0: { Gaussian *g = static_cast<Gaussian *>(k.c.get()); double d = 1; Doubles x; for (size_t i = 0; i < v.size() / 2; i++) { x.push_back(1.25 + i); d *= gaussDensity(1.25 + i, v[2 * i], v[2 * i + 1]); if (g->GetMean(i) != v[2 * i]) return bad(2 * i, g->GetMean(i), v[2 * i]); if (g->GetStDev(i) != v[2 * i + 1]) return bad(2 * i + 1, g->GetStDev(i), v[2 * i + 1]); } double got = (*g)(x); if (!close(got, d, 1e-7, 1e-300)) return fmt("density %.17g instead of %.17g", got, d); break; }
  case 1: { Scale *s = static_cast<Scale *>(k.c.get()); if (s->GetScaleFactor() != v[0]) return bad(0, s->GetScaleFactor(), v[0]); break; }
  case 2: { Shift *s = static_cast<Shift *>(k.c.get()); if (s->GetShift() != v[0]) return bad(0, s->GetShift(), v[0]); break; }
  case 3: case 4: { static_cast<Systematic *>(dynamic_cast<Systematic *>(k.c.get()))->Construct(); for (size_t i = 0; i < v.size(); i++) if (!k.seen->count(k.slot[i]) || (*k.seen)[k.slot[i]] != v[i]) return bad(i, k.seen->count(k.slot[i]) ? (*k.seen)[k.slot[i]] : NAN, v[i]); if (k.seen->size() != v.size()) return fmt("the function is given %zu parameters instead of %zu", k.seen->size(), v.size()); break; }
  case 5: case 7:
  { Systematic *s = dynamic_cast<Systematic *>(k.c.get()); s->Construct(); for (size_t i = 0; i < 4; i++) for (size_t j = 0; j < 4; j++) { double c = i + 0.5, m = k.kind == 5 ? v[0] : 0, sd = k.kind == 5 ? v[1] : v[0] * sqrt(c), want = gaussIntegral(j - c, j + 1 - c, m, sd), got = s->GetResponse().GetComponent(j, i); if (!close(got, want, 1e-6, 1e-7)) return fmt("smearing bin %zu into %zu gives %.10g instead of %.10g", i, j, got, want); } break; }
  case 6: { VaryingCDF *c = static_cast<VaryingCDF *>(k.c.get()); Doubles x(1, 3.5), y(1, 2.25); double m = v[0] * 1.5, s = v.size() > 1 ? v[1] * 1.5 : 1, want = gaussDensity(1.25, m, s), got = c->ConditionalProbability(x, y); if (!close(got, want, 1e-7, 1e-300)) return fmt("density %.17g instead of %.17g", got, want); break; }
  case 8: { AnalyticED *e = static_cast<AnalyticED *>(k.c.get()); double got = e->Probability(Doubles(1, 1.25)), want = gaussDensity(1.25, v[0], v[1]); if (!close(got, want, 1e-7, 1e-300)) return fmt("density %.17g instead of %.17g", got, want); if (e->GetObservables().GetNames() != k.obs || e->GetNDims() != 1 || e->Integral() != 1) return "observables, dimensions or integral differ"; Strs n({"x", "y"}); Event ev_(Doubles{3.5, 1.25}); ev_.SetObservableNames(&n); want = gaussDensity(k.obs[0] == "x" ? 3.5 : 1.25, v[0], v[1]); got = e->Probability(ev_); if (!close(got, want, 1e-7, 1e-300)) return fmt("density of an event %.17g instead of %.17g", got, want); break; }
  case 9: { SpectralFitDist *s = static_cast<SpectralFitDist *>(k.c.get()); for (size_t i = 0; i < v.size(); i++) if (s->GetBinContent(i) != v[i]) return bad(i, s->GetBinContent(i), v[i]); break; }
  case 10: case 11: case 12: case 13:
  { Doubles d; d.push_back(2); d.push_back(6); Strs n; n.push_back("x"); n.push_back("y"); Event e(d); e.SetObservableNames(&n); std::vector<RngRecord> tr; rngTrace = &tr; Event o = (*dynamic_cast<EventSystematic *>(k.c.get()))(e); rngTrace = 0; double got = o.GetDatum("x"), want = k.kind == 10 ? 2 * v[0] : k.kind == 11 ? 2 + v[0] : 6 + v[0] * (2 - 6);
    if (k.kind == 13) { if (tr.size() != 1 || tr[0].kind != 'G' || tr[0].a != v[0] || tr[0].b != v[1]) return "the random shift was drawn from another distribution"; want = 2 + tr[0].v; }
    if (!close(got, want)) return fmt("an event is moved from 2 to %.17g instead of %.17g", got, want); if (o.GetDatum("y") != 6) return "another observable changed"; break; }
  case 14: { double got = static_cast<JumpPDF *>(k.c.get())->ConditionalProbability(Doubles(1, 3.5), Doubles(1, 2.25)), want = gaussDensity(1.25, v[0], v[1]); if (!close(got, want, 1e-7, 1e-300)) return fmt("density %.17g instead of %.17g", got, want); break; }
  case 15: { Managed *m = static_cast<Managed *>(k.c.get()); Doubles x(m->d, m->d + 2); x.insert(x.end(), m->v.begin(), m->v.end()); x.insert(x.end(), m->l.begin(), m->l.end()); for (size_t i = 0; i < x.size(); i++) if (x[i] != v[i]) return bad(i, x[i], v[i]); break; }
  default: { double got = (*static_cast<SquareRootScale *>(k.c.get()))(Doubles(1, 2.25)); if (!close(got, v[0] * 1.5)) return bad(0, got / 1.5, v[0]); }
  }
  return "";
}
std::map<std::string, double> named(const Comp &k) { std::map<std::string, double> m; for (size_t i = 0; i < k.slot.size(); i++) m[k.slot[i]] = k.val[i]; return m; }
std::string compare(Comp &k)
{
  if (k.kind != 0 && k.c->GetName() != k.name) return "is named '" + k.c->GetName() + "' instead of '" + k.name + "'";
  std::map<std::string, double> want = named(k); ParameterDict got = k.c->GetParameters(); if (got != want) { std::string s = "reported parameters:"; for (auto &p : got) s += fmt(" %s=%.17g", p.first.c_str(), p.second); s += ", instead of:"; for (auto &p : want) s += fmt(" %s=%.17g", p.first.c_str(), p.second); return s; }
  std::set<std::string> n; for (auto &p : want) n.insert(p.first); if (k.c->GetParameterNames() != n) return "reported parameter names differ"; if (n.size() == k.slot.size() && k.c->GetParameterCount() != n.size()) return fmt("reports %zu parameters instead of %zu", k.c->GetParameterCount(), n.size());
  std::string why; for (auto &p : want) { double x = 0; if (attempt([&] { x = k.c->GetParameter(p.first); }, &why) != OK) return "reading '" + p.first + "' failed: " + why; if (x != p.second) return fmt("parameter '%s' reads %.17g instead of %.17g", p.first.c_str(), x, p.second); }
  return effect(k);
}
const char *KN[] = {"Gaussian", "Scale", "Shift", "ScaleFunction", "Shape", "Convolution", "VaryingCDF", "Convolution(VaryingCDF)", "AnalyticED", "SpectralFitDist", "EventScale", "EventShift", "EventReconvolution", "EventConvolution", "JumpPDF", "ParameterManager", "SquareRootScale"};
// give a component a fully known state
void setAll(Comp &k, bool single)
{
  ParameterDict d; for (size_t i = 0; i < k.slot.size(); i++) { double x = value(k, i); for (size_t j = 0; j < i; j++) if (k.slot[j] == k.slot[i]) x = k.val[j]; k.val[i] = x; d[k.slot[i]] = x; }
  if (single) for (auto &p : d) k.c->SetParameter(p.first, p.second); else { size_t extra = choose(3); for (size_t i = 0; i < extra; i++) d[fmt("zz%zu", i)] = 99; k.c->SetParameters(d); }
}
void history()
{
  Quiet q; Rand::SetSeed(1 + choose(1000)); std::vector<Comp> v; size_t n = 1 + choose(5); ComponentManager man; std::string why; int fresh = 0, steps = 0;
  for (size_t i = 0; i < n; i++) { v.push_back(make((int)choose(KINDS), id("c", i))); Comp &k = v.back(); std::set<std::string> init(k.slot.begin(), k.slot.end()); check(k.c->GetParameterNames() == init, "names-differ", std::string(KN[k.kind]) + " starts with other parameter names"); bool single = chance(0.5); Out o = attempt([&] { setAll(k, single); }, &why); check(o == OK, "set-failed", std::string(KN[k.kind]) + ": " + why); man.AddComponent(k.c.get()); if (chance(0.8) && k.renamable()) for (auto &s : k.slot) { std::string to = fmt("u%d", fresh++); k.c->RenameParameter(s, to); s = to; } }
  while (steps < 24 && (steps < 3 || more(0.9)))
  {
    steps++; size_t i = choose(v.size()), op = choose(13); Comp &k = v[i]; ev("op %zu on %zu %s", op, i, KN[k.kind]); state(mix(op, mix(k.kind, k.slot.size()))); bool bulk = false;
    switch (op)
    {
    case 0: { size_t s = choose(k.slot.size()); double x = value(k, s); Out o = attempt([&] { k.c->SetParameter(k.slot[s], x); }, &why); check(o == OK, "set-failed", std::string(KN[k.kind]) + ": " + why); for (size_t j = 0; j < k.slot.size(); j++) if (k.slot[j] == k.slot[s]) k.val[j] = x; break; }
    case 1: { double x; Out o = attempt([&] { x = k.c->GetParameter("nosuch"); }, &why); check(o == ERR, "unknown-parameter-read", KN[k.kind]); Out p = attempt([&] { k.c->SetParameter("nosuch", 77); }, &why); if (k.strict) check(p == ERR, "unknown-parameter-set", KN[k.kind]); (void)x; break; }
    case 2: if (k.renamable()) { size_t s = choose(k.slot.size()); std::string from = k.slot[s], to = fmt("u%d", fresh++); Out o = attempt([&] { k.c->RenameParameter(from, to); }, &why); check(o == OK, "rename-failed", std::string(KN[k.kind]) + ": " + why); for (auto &x : k.slot) if (x == from) x = to; } break;
    case 3: if (k.kind == 15 && chance(0.3)) { Managed *m = static_cast<Managed *>(k.c.get()); size_t last = m->v.size() + 1; std::string n = k.slot[last]; bool shared = false; for (size_t j = 0; j < k.slot.size(); j++) if (j != last && k.slot[j] == n) shared = true; if (shared) break; double keep = m->v.back(); m->v.pop_back(); double x = 0; Out g = attempt([&] { x = m->GetParameter(n); }, &why), t = attempt([&] { m->SetParameter(n, 1); }, &why); m->v.push_back(keep); check(g == ERR && t == ERR, "vanished-element-used", "of a container that shrank"); (void)x; break; }
    { std::string from = k.slot[choose(k.slot.size())]; attempt([&] { k.c->RenameParameter(from, from); }, &why); probe("rename-to-itself"); break; }
    case 4: { Out o = attempt([&] { k.c->RenameParameter("nosuch", "other"); }, &why); check(o == ERR, "unknown-parameter-renamed", KN[k.kind]); break; }
    case 5: { bool one = chance(0.5); Out o = attempt([&] { setAll(k, one); }, &why); check(o == OK, "set-failed", std::string(KN[k.kind]) + ": " + why); break; }
    case 6: // a dictionary that lacks one of the parameters
    { ParameterDict d; std::map<std::string, double> want; size_t miss = choose(k.slot.size()); for (size_t j = 0; j < k.slot.size(); j++) d[k.slot[j]] = value(k, j); d.erase(k.slot[miss]); d["zz"] = 1; Out o = attempt([&] { k.c->SetParameters(d); }, &why); probe("missing-parameter"); if (k.strict) check(o == ERR, "missing-parameter-accepted", KN[k.kind]);
      ParameterDict now = k.c->GetParameters(); for (size_t j = 0; j < k.slot.size(); j++) { check(now.count(k.slot[j]) != 0, "parameter-lost", std::string(KN[k.kind]) + " " + k.slot[j]); double x = now[k.slot[j]]; check(x == k.val[j] || (d.count(k.slot[j]) && x == d[k.slot[j]]), "parameter-scrambled", std::string(KN[k.kind]) + " " + k.slot[j]); k.val[j] = x; } break; }
    case 7: // parameters of a Gaussian that share one name are one parameter
      if (gaussian(k) && k.slot.size() >= 2) { std::string to = fmt("u%d", fresh++); size_t ia = choose(k.slot.size()), ib = choose(k.slot.size() - 1); if (ib >= ia) ib++; std::string a = k.slot[ia], b = k.slot[ib]; k.c->RenameParameter(a, to); if (b != a) k.c->RenameParameter(b, to); for (auto &x : k.slot) if (x == a || x == b) x = to; double y = value(); k.c->SetParameter(to, y); for (size_t j = 0; j < k.slot.size(); j++) if (k.slot[j] == to) k.val[j] = y; probe("shared-name"); } break;
    case 8: // through the manager with one parameter missing
    { bool strict = true; for (auto &c : v) strict = strict && c.strict; ParameterDict d; for (auto &c : v) for (size_t s = 0; s < c.slot.size(); s++) if (!d.count(c.slot[s])) d[c.slot[s]] = value(c, s); Comp &x = v[choose(v.size())]; d.erase(x.slot[choose(x.slot.size())]); if (d.empty()) break; bulk = true; Out o = attempt([&] { man.SetParameters(d); }, &why); probe("missing-parameter"); if (x.strict) check(o == ERR, "missing-parameter-accepted", std::string("by the component manager, of a ") + KN[x.kind]); (void)strict;
      for (auto &c : v) { ParameterDict now = c.c->GetParameters(); for (size_t j = 0; j < c.slot.size(); j++) { check(now.count(c.slot[j]) != 0, "parameter-lost", std::string(KN[c.kind]) + " " + c.slot[j]); double y = now[c.slot[j]]; check(y == c.val[j] || (d.count(c.slot[j]) && y == d[c.slot[j]]), "parameter-scrambled", std::string(KN[c.kind]) + " " + c.slot[j]); c.val[j] = y; } } break; }
    case 9: // a value that is not a number is kept like any other
      if (k.strict && k.kind != 7 && k.kind != 5 && k.kind != 6) { size_t s = choose(k.slot.size()); bool all = chance(0.5); ParameterDict d; for (size_t j = 0; j < k.slot.size(); j++) d[k.slot[j]] = k.val[j]; d[k.slot[s]] = NAN; Out o = attempt([&] { if (all) k.c->SetParameters(d); else k.c->SetParameter(k.slot[s], NAN); }, &why); if (o == OK) { check(std::isnan(k.c->GetParameter(k.slot[s])), "parameters-differ", std::string(KN[k.kind]) + ": not a number was set, another value is read"); } double x = value(); Out p = attempt([&] { k.c->SetParameter(k.slot[s], x); }, &why); check(p == OK, "set-failed", std::string(KN[k.kind]) + ": " + why); for (size_t j = 0; j < k.slot.size(); j++) if (k.slot[j] == k.slot[s]) k.val[j] = x; } break;
    default: // through the manager of all components, as a fit does; shared names are one parameter
    { bulk = true; ParameterDict d; for (auto &c : v) for (size_t s = 0; s < c.slot.size(); s++) if (!d.count(c.slot[s])) d[c.slot[s]] = value(c, s); if (chance(0.5)) d["zz"] = 5; Out o = attempt([&] { man.SetParameters(d); }, &why); check(o == OK, "set-failed", why); for (auto &c : v) for (size_t j = 0; j < c.slot.size(); j++) c.val[j] = d[c.slot[j]];
      d.erase("zz"); ParameterDict g = man.GetParameters(); check(g == d, "parameters-differ", "parameters read back through the component manager"); check((size_t)man.GetTotalParameterCount() == d.size() && man.GetParameterNames().size() == d.size(), "parameters-differ", "number of parameters of the component manager"); for (auto &p : d) check(man.GetParameter(p.first) == p.second, "parameters-differ", "single parameter"); check(man.GetComponentCount() == v.size(), "parameters-differ", "number of components"); check(attempt([&] { man.GetParameter("nosuch"); }, &why) == ERR, "unknown-parameter-read", "by the component manager"); if (v.size() > 1) nontrivial(); break; }
    }
    for (size_t j = 0; j < v.size(); j++) { std::string d = compare(v[j]); check(d == "", j == i || bulk ? "parameters-differ" : "unrelated-component-changed", fmt("after operation %zu, %s: ", op, KN[v[j].kind]) + d); }
  }
}
}
namespace
{
template <class T> FitComponent *copyAs(const FitComponent *f, int how)
{
  const T *t = dynamic_cast<const T *>(f); if (how == 0) return new T(*t);
  T a(*t); a = a; return new T(a);
}
template <class T> void assignAs(FitComponent *to, const FitComponent *from) { *dynamic_cast<T *>(to) = *dynamic_cast<const T *>(from); }
template <class T> FitComponent *cloneAs(const FitComponent *f) { return dynamic_cast<FitComponent *>(dynamic_cast<const T *>(f)->Clone()); }
#define DISPATCH(F, ...) switch (kind) { case 0: return F<Gaussian>(__VA_ARGS__); case 1: return F<Scale>(__VA_ARGS__); case 2: return F<Shift>(__VA_ARGS__); case 3: return F<ScaleFunction>(__VA_ARGS__); case 4: return F<Shape>(__VA_ARGS__); case 5: case 7: return F<Convolution>(__VA_ARGS__); case 6: return F<VaryingCDF>(__VA_ARGS__); case 8: return F<AnalyticED>(__VA_ARGS__); case 9: return F<SpectralFitDist>(__VA_ARGS__); case 10: return F<EventScale>(__VA_ARGS__); case 11: return F<EventShift>(__VA_ARGS__); case 12: return F<EventReconvolution>(__VA_ARGS__); case 13: return F<EventConvolution>(__VA_ARGS__); case 14: return F<JumpPDF>(__VA_ARGS__); default: return F<SquareRootScale>(__VA_ARGS__); }
FitComponent *copyOf(int kind, const FitComponent *f, int how)
{
  if (how == 2) switch (kind) { case 0: return cloneAs<Gaussian>(f); case 6: return cloneAs<VaryingCDF>(f); case 8: return cloneAs<AnalyticED>(f); case 14: return cloneAs<JumpPDF>(f); case 16: return cloneAs<SquareRootScale>(f); default: how = 0; }
  DISPATCH(copyAs, f, how)
}
void assignTo(int kind, FitComponent *to, const FitComponent *from) { DISPATCH(assignAs, to, from) }

void values(bool faults)
{
  Quiet q; Rand::SetSeed(1 + choose(1000)); std::string why; bool fired = false;
  { BinnedED warm("w", oneAxis(2)); Comp w = make(5, "w"); setAll(w, false); effect(w); }
  long before = liveAllocs();
  {
    std::vector<Comp> v; int fresh = 0, steps = 0; size_t focus = choose(KINDS); if (focus == 15) focus = 16;
    auto add = [&] { int kind = (int)(chance(0.7) ? focus : choose(KINDS)); if (kind == 15) kind = 6; v.push_back(make(kind, id("c", v.size()))); setAll(v.back(), false); };
    add();
    while (steps < 24 && (steps < 3 || more(0.9)))
    {
      steps++; size_t i = choose(v.size()), op = choose(9); ev("op %zu on %zu %s", op, i, KN[v[i].kind]); state(mix(op, mix(v[i].kind, v.size())));
      std::unique_ptr<AllocFault> af; uint64_t at = faults && chance(0.3) ? 1 + choose(12) : 0; Out o = OK;
      auto guarded = [&](const std::function<void()> &f) { if (at) af.reset(new AllocFault(at)); o = attempt([&] { f(); }, &why); bool x = af && af->fired(); af.reset(); if (x) { fired = true; probe("out-of-memory"); } check(o == OK || x, "operation-failed", std::string(KN[v[i].kind]) + ": " + why); };
      switch (op)
      {
      case 0: if (v.size() < 7) { add(); i = v.size() - 1; } break;
      case 1: case 2: if (v.size() < 7) { int how = (int)choose(3), kind = v[i].kind; Comp n = v[i]; FitComponent *c = 0; guarded([&] { c = copyOf(kind, v[i].c.get(), how); }); if (o != OK) break; n.c.reset(c); v.push_back(n); nontrivial(); } break;
      case 3: case 4: { std::vector<size_t> same; for (size_t j = 0; j < v.size(); j++) if (v[j].kind == v[i].kind || ((v[j].kind == 5 || v[j].kind == 7) && (v[i].kind == 5 || v[i].kind == 7))) same.push_back(j); size_t j = same[choose(same.size())]; if (i == j) probe("self-assignment"); else nontrivial(); guarded([&] { assignTo(v[i].kind, v[i].c.get(), v[j].c.get()); });
          if (o != OK) { attempt([&] { assignTo(v[i].kind, v[i].c.get(), v[j].c.get()); }, &why); probe("assigned-again"); } std::shared_ptr<FitComponent> c = v[i].c; v[i] = v[j]; v[i].c = c; break; }
      case 5: if (v.size() > 1) v.erase(v.begin() + i); break;
      case 6: { bool one = chance(0.5); Out x = attempt([&] { setAll(v[i], one); }, &why); check(x == OK, "set-failed", why); break; }
      case 8: { Comp &k = v[i]; std::string to = fmt("n%d", fresh++); std::string was = k.c->GetName(); k.c->SetName(to); k.name = k.c->GetName(); if (k.kind == 8) { AnalyticED *e = static_cast<AnalyticED *>(k.c.get()); check(k.name == to, "name-lost", "AnalyticED"); k.obs = Strs(1, chance(0.5) ? "x" : "y"); e->SetObservables(ObsSet(k.obs)); if (chance(0.3)) e->Normalise(); } else check(k.name == to || k.name == was, "name-lost", KN[k.kind]); break; }
      default: if (v[i].renamable()) { size_t s = choose(v[i].slot.size()); std::string from = v[i].slot[s], to = fmt("u%d", fresh++); v[i].c->RenameParameter(from, to); for (auto &x : v[i].slot) if (x == from) x = to; } else v[i].c->SetName("other");
      }
      for (size_t j = 0; j < v.size(); j++) { std::string d = compare(v[j]); check(d == "", j == i ? "value-differs" : "copies-not-independent", fmt("after operation %zu, %s: ", op, KN[v[j].kind]) + d); }
    }
  }
  why = std::string(); why.shrink_to_fit(); long left = liveAllocs() - before; if (!fired || thorough) check(left <= 0, fired ? "memory-leaked-after-failure" : "memory-leaked", fmt("%ld blocks were not freed", left));
}
// composite distributions and fit results
struct Part { double a, b; bool binned; double integral; };
struct CMod { std::string name; std::vector<Part> g; };
void composites(bool faults)
{
  Quiet q; std::string why; bool fired = false; { BinnedED warm("w", oneAxis(2)); } long before = liveAllocs();
  {
    std::vector<std::pair<CompositeED, CMod>> v; int steps = 0; Strs obs; obs.push_back("x"); obs.push_back("y"); Doubles d; d.push_back(1.5); d.push_back(2.5); Event e(d); e.SetObservableNames(&obs);
    auto one = [&](CMod &m) { Part p = {value(), value(), chance(0.4), 1}; m.g.push_back(p); std::string nm = fmt("g%zu", m.g.size()), ob = m.g.size() % 2 ? "x" : "y"; std::unique_ptr<EventDistribution> r; if (p.binned) { AxisCollection ax; ax.AddAxis(BinAxis(ob, 0, 3, 3)); BinnedED *e = new BinnedED(nm, ax); r.reset(e); e->SetObservables(Strs(1, ob)); e->SetBinContents(Doubles{p.a, p.b, p.a + p.b}); m.g.back().integral = 2 * (p.a + p.b); } else { Gaussian g(p.a, p.b); AnalyticED *a = new AnalyticED(nm, &g); r.reset(a); a->SetObservables(ObsSet(Strs(1, ob))); } return r; };
    auto add = [&] { CMod m; std::unique_ptr<EventDistribution> a = one(m), b = one(m); m.name = "g1*g2"; v.push_back(std::make_pair(CompositeED(a.get(), b.get()), m)); };
    add();
    while (steps < 16 && (steps < 3 || more(0.88)))
    {
      steps++; size_t i = choose(v.size()), j = choose(v.size()), op = choose(7); ev("op %zu on %zu %zu", op, i, j); state(mix(op, mix(v[i].second.g.size(), v.size()))); if (v[i].second.g.size() + v[j].second.g.size() > 10 && op == 1) op = 5; Out o = OK;
      auto guarded = [&](const std::function<void()> &f) { std::unique_ptr<AllocFault> af; if (faults && chance(0.3)) af.reset(new AllocFault(1 + choose(10))); o = attempt([&] { f(); }, &why); bool x = af && af->fired(); af.reset(); if (x) { fired = true; probe("out-of-memory"); } check(o == OK || x, "operation-failed", why); };
      switch (op)
      {
      case 0: if (v.size() < 5) add(); break;
      case 1: if (v.size() < 5) { CMod m = v[i].second; for (auto &p : v[j].second.g) m.g.push_back(p); m.name = v[i].second.name + "*" + v[j].second.name; std::unique_ptr<CompositeED> c; guarded([&] { c.reset(new CompositeED(v[i].first * v[j].first)); }); if (o != OK) break; v.push_back(std::make_pair(*c, m)); nontrivial(); } break;
      case 2: if (v.size() < 5) { CMod m = v[i].second; std::unique_ptr<EventDistribution> c; guarded([&] { c.reset(v[i].first.Clone()); }); if (o != OK) break; v.push_back(std::make_pair(*dynamic_cast<CompositeED *>(c.get()), m)); nontrivial(); } break;
      case 3: guarded([&] { v[i].first = v[j].first; }); if (o == OK) v[i].second = v[j].second; break;
      case 4: if (v.size() > 1) v.erase(v.begin() + i); break;
      case 6: v[i].first.Normalise(); for (auto &p : v[i].second.g) p.integral = 1; break;
      default: v[i].second.name = fmt("n%d", steps); v[i].first.SetName(v[i].second.name); break;
      }
      for (size_t k = 0; k < v.size(); k++)
      {
        double p = 1, integral = 1; for (size_t l = 0; l < v[k].second.g.size(); l++) { Part &g = v[k].second.g[l]; p *= g.binned ? (l % 2 ? 0.5 : g.b / (2 * (g.a + g.b))) : gaussDensity(l % 2 ? 2.5 : 1.5, g.a, g.b); integral *= g.integral; }
        check(v[k].first.GetName() == v[k].second.name, "value-differs", "name of a composite distribution: " + v[k].first.GetName() + " instead of " + v[k].second.name); check(v[k].first.GetNDims() == v[k].second.g.size(), "value-differs", "dimensions of a composite distribution"); double got = v[k].first.Probability(e); check(close(got, p, 1e-7, 1e-250), k == i ? "value-differs" : "copies-not-independent", fmt("probability %.17g instead of %.17g", got, p)); check(close(v[k].first.Integral(), integral), k == i ? "value-differs" : "copies-not-independent", fmt("integral %.17g instead of %.17g", v[k].first.Integral(), integral));
      }
    }
  }
  why = std::string(); why.shrink_to_fit(); long left = liveAllocs() - before; if (!fired || thorough) check(left <= 0, fired ? "memory-leaked-after-failure" : "memory-leaked", fmt("%ld blocks were not freed", left));
}
struct RMod { ParameterDict best; std::vector<Doubles> sample; bool space; double salt; double ext; size_t prec; bool valid; size_t n1, n2, nb, nc; double psalt, covSalt, top, ptop; };
double some() { return weighted({3, 1}) ? pick(Doubles{0., -1., -2.5, 1e-12, 1e12, 1e-300}) : value(); }
void results(bool faults)
{
  Quiet q; std::string why; bool fired = false; { BinnedED warm("w", oneAxis(2)); } long before = liveAllocs();
  {
    struct Obj { std::unique_ptr<FitResult> r; RMod m; }; std::vector<Obj> v; int steps = 0; auto add = [&] { Obj o; o.r.reset(new FitResult); o.m.space = false; o.m.salt = 0; o.m.ext = 0; o.m.prec = 5; o.m.valid = true; o.m.n1 = o.m.n2 = 0; o.m.nb = o.m.nc = 0; o.m.psalt = o.m.covSalt = o.m.top = o.m.ptop = 0; v.push_back(std::move(o)); }; add();
    while (steps < 20 && (steps < 3 || more(0.9)))
    {
      steps++; size_t i = choose(v.size()), j = choose(v.size()), op = choose(11); ev("op %zu on %zu %zu", op, i, j); state(mix(op, mix(v[i].m.space, v[j].m.space))); Out o = OK; RMod &m = v[i].m;
      auto guarded = [&](const std::function<void()> &f) { std::unique_ptr<AllocFault> af; if (faults && chance(0.3)) af.reset(new AllocFault(1 + choose(10))); o = attempt([&] { f(); }, &why); bool x = af && af->fired(); af.reset(); if (x) { fired = true; probe("out-of-memory"); } check(o == OK || x, "operation-failed", why); };
      switch (op)
      {
      case 0: if (v.size() < 5) add(); break;
      case 1: { m.space = true; m.salt = some(); m.nb = 1 + choose(4); m.top = range(1, 4); AxisCollection ax; ax.AddAxis(BinAxis(fmt("s%g", m.top), 0, m.top, m.nb)); Histogram h(ax); for (size_t b = 0; b < m.nb; b++) h.SetBinContent(b, m.salt + b); v[i].r->SetStatSpace(h); break; }
      case 2: { m.best.clear(); for (size_t k = choose(4); k--;) m.best[fmt("p%zu", k)] = some(); v[i].r->SetBestFit(m.best); break; }
      case 3: { m.sample.assign(choose(4), Doubles(2, some())); if (m.sample.size()) m.sample.back().push_back(some()); v[i].r->SetStatSample(m.sample); break; }
      case 4: m.ext = some(); v[i].r->SetExtremeVal(m.ext); m.valid = chance(0.5); v[i].r->SetValid(m.valid); break;
      case 5: m.prec = 1 + choose(9); v[i].r->SetPrintPrecision(m.prec); break;
      case 6: { HistMap a; m.psalt = some(); m.ptop = range(1, 4); m.n1 = choose(3); for (size_t k = 0; k < m.n1; k++) { AxisCollection ax; ax.AddAxis(BinAxis("p", 0, m.ptop, 2)); Histogram h(ax); h.SetBinContent(1, m.psalt + k); a[fmt("h%zu", k)] = h; } v[i].r->Set1DProjections(a); m.n2 = choose(3); HistMap b; for (size_t k = 0; k < m.n2; k++) { Histogram h(oneAxis(3)); h.SetBinContent(0, m.psalt - k); b[fmt("g%zu", k)] = h; } v[i].r->Set2DProjections(b); break; }
      case 9: { m.nc = 1 + choose(3); DenseMatrix c((int)m.nc, (int)m.nc); for (size_t r = 0; r < m.nc; r++) for (size_t s = 0; s < m.nc; s++) c.SetComponent(r, s, m.salt + 10. * r + s); v[i].r->SetCovarianceMatrix(c); m.covSalt = m.salt; break; }
      case 7: if (v.size() < 5) { Obj n; n.m = m; guarded([&] { n.r.reset(new FitResult(*v[i].r)); }); if (o == OK) { v.push_back(std::move(n)); nontrivial(); } } break;
      case 8: guarded([&] { *v[i].r = *v[j].r; }); if (o == OK) { v[i].m = v[j].m; nontrivial(); } break;
      default: if (v.size() > 1) v.erase(v.begin() + i); break;
      }
      for (size_t k = 0; k < v.size(); k++)
      {
        FitResult &r = *v[k].r; RMod &w = v[k].m; const char *cls = k == i ? "value-differs" : "copies-not-independent"; check(r.GetBestFit() == w.best, cls, "best fit"); check(r.GetStatSample() == w.sample, cls, "samples"); check(r.GetExtremeVal() == w.ext && r.GetValid() == w.valid, cls, "extreme value or validity"); check(r.GetPrintPrecision() == w.prec, cls, fmt("print precision %zu instead of %zu", r.GetPrintPrecision(), w.prec)); check(r.Get1DProjections().size() == w.n1 && r.Get2DProjections().size() == w.n2, cls, "projections"); { HistMap a = r.Get1DProjections(), b = r.Get2DProjections(); for (size_t l = 0; l < w.n1; l++) check(a.count(fmt("h%zu", l)) && a[fmt("h%zu", l)].GetBinContent(1) == w.psalt + l && a[fmt("h%zu", l)].GetBinHighEdge(1, 0) == w.ptop, cls, "one-dimensional projection"); for (size_t l = 0; l < w.n2; l++) check(b.count(fmt("g%zu", l)) && b[fmt("g%zu", l)].GetNBins() == 3 && b[fmt("g%zu", l)].GetBinContent(0) == w.psalt - l, cls, "two-dimensional projection"); }
        { DenseMatrix c = r.GetCovarianceMatrix(); check(attempt([&] { c.GetComponent(w.nc, 0); }) == ERR, cls, "size of the covariance"); for (size_t x = 0; x < w.nc; x++) for (size_t y = 0; y < w.nc; y++) check(c.GetComponent(x, y) == w.covSalt + 10. * x + y, cls, "covariance"); }
        if (w.space) { Histogram h = r.GetStatSpace(); check(h.GetBinHighEdge(w.nb - 1, 0) == w.top && h.GetAxes().GetAxis(0).GetName() == fmt("s%g", w.top), cls, "axis of the stat space"); check(h.GetNBins() == w.nb && h.GetBinContent(0) == w.salt && h.GetBinContent(w.nb - 1) == w.salt + (w.nb - 1), cls, "stat space"); } else check(attempt([&] { r.GetStatSpace(); }, &why) == ERR, "missing-stat-space-returned", "no stat space was set");
      }
    }
  }
  why = std::string(); why.shrink_to_fit(); long left = liveAllocs() - before; if (!fired || thorough) check(left <= 0, fired ? "memory-leaked-after-failure" : "memory-leaked", fmt("%ld blocks were not freed", left));
}
}
SIM_WORKLOAD("X01", component_values, 10, "") { values(false); }
SIM_WORKLOAD("X01", component_values_faults, 5, "") { values(true); }
SIM_WORKLOAD("X01", composite_values, 4, "") { composites(chance(0.3)); }
SIM_WORKLOAD("X01", result_values, 4, "") { results(chance(0.3)); }
SIM_WORKLOAD("P01", parameter_history, 10, "") { history(); }
