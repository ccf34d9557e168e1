// F01: the wrapper around Minuit; the simulator plays the minimiser and sees everything it is given.
#include "likeworld.h"
#include "statfn.h"
#include <Minuit.h>
#include <FitResult.h>
#include <cfloat>
using namespace like;
using work::Stat; using work::quadratic; using work::paramNames;
namespace M2 = ROOT::Minuit2;
namespace
{
struct Config
{
  ParameterDict val, err, lo, hi; std::set<std::string> fixed; std::string method; double up, tol; unsigned calls; int strategy; bool maxi;
  Config() : method("Migrad"), up(0.5), tol(0.1), calls(0), strategy(2), maxi(false) {}
};
struct Seen { bool called, finished; ParameterDict best; double fval; bool valid; std::vector<Doubles> cov; Seen() : called(false), finished(false), fval(0), valid(false) {} };
std::set<std::string> keys(const ParameterDict &d) { std::set<std::string> s; for (auto &p : d) s.insert(p.first); return s; }
bool sane(const Config &c, const std::set<std::string> &names)
{
  if (keys(c.lo) != keys(c.hi) || keys(c.val) != keys(c.err) || keys(c.val) != names) return false; for (auto &p : c.lo) if (!(p.second < c.hi.at(p.first))) return false; for (auto &f : c.fixed) if (!names.count(f)) return false;
  return c.method == "Migrad" || c.method == "Minimize" || c.method == "Simplex";
}
bool unknownLimits(const Config &c, const std::set<std::string> &names) { for (auto &p : c.lo) if (!names.count(p.first)) return true; return false; }
// what the wrapper hands to the minimiser has to be what was configured, parameter by parameter in the order of their names
template <class F> void engine(Seen &s, const Config &c, const std::set<std::string> &nameSet, F f, bool mayFail)
{
  Strs names(nameSet.begin(), nameSet.end());
  M2::stubEngine() = [&s, &c, names, f, mayFail](M2::MnApplication &a, unsigned calls, double tol)
  {
    size_t n = names.size(); s.called = true; check(a.kind == c.method, "wrong-algorithm", std::string(a.kind) + " instead of " + c.method); check(calls == c.calls && tol == c.tol && (int)a.strategy.Strategy() == c.strategy, "wrong-settings", fmt("%u calls, tolerance %g, strategy %u", calls, tol, a.strategy.Strategy())); check(a.fcn.Up() == c.up, "wrong-contour", fmt("%g defines an error instead of %g", a.fcn.Up(), c.up));
    check(a.par.MinuitParameters().size() == n, "wrong-parameters", fmt("%zu instead of %zu", a.par.MinuitParameters().size(), n)); std::vector<size_t> free;
    for (size_t i = 0; i < n; i++)
    {
      const M2::MinuitParameter &p = a.par.Parameter(i); const std::string &k = names[i]; check(p.value == c.val.at(k) && p.error == c.err.at(k), "wrong-start", fmt("%s starts at %g with error %g", k.c_str(), p.value, p.error)); check(p.fixed == (c.fixed.count(k) > 0), "wrong-fixing", k + (p.fixed ? " is fixed" : " is free"));
      bool lim = c.lo.count(k); check(p.hasLower == lim && p.hasUpper == lim && (!lim || (p.lower == c.lo.at(k) && p.upper == c.hi.at(k))), "wrong-limits", fmt("%s is limited to %g - %g", k.c_str(), p.lower, p.upper)); if (!p.fixed) free.push_back(i);
    }
    // wander about
    M2::FunctionMinimum m; double best = 0; bool any = false; Doubles at = a.Params(); int tries = 1 + (int)choose(6);
    for (int t = 0; t < tries; t++)
    {
      Doubles x = a.Params(); for (size_t i : free) if (t && chance(0.8)) { const M2::MinuitParameter &p = a.par.Parameter(i); x[i] = p.hasLower ? p.lower + (p.upper - p.lower) * choose(17) / 16. : p.value + p.error * range(-16, 16) / 4.; }
      ParameterDict d; for (size_t i = 0; i < n; i++) d[names[i]] = x[i]; double v = a.fcn(x), want = f(d) * (c.maxi ? -1 : 1); check(sameBits(v, want) || close(v, want, 1e-12, 1e-12) || (std::isnan(v) && std::isnan(want)), "wrong-value-minimised", fmt("%.12g instead of %.12g", v, want)); if (!any || v < best) { best = v; at = x; any = true; }
      if (mayFail && chance(0.08)) { fault("minimiser-fails"); throw ValueError("simulated: the minimiser fails"); }
    }
    for (size_t i = 0; i < n; i++) { a.SetValue(i, at[i]); s.best[names[i]] = at[i]; } m.valid = chance(0.8); if (!m.valid) fault("fit-not-converged"); m.fval = best; m.par = a.par; m.up = a.fcn.Up();
    if (m.valid || chance(0.5)) { m.cov = M2::MnUserCovariance((unsigned)free.size()); for (size_t i = 0; i < free.size(); i++) for (size_t j = 0; j <= i; j++) m.cov(i, j) = i == j ? range(1, 64) / 8. : range(-8, 8) / 16.; }
    s.cov.assign(m.cov.Nrow(), Doubles(m.cov.Nrow())); for (size_t i = 0; i < m.cov.Nrow(); i++) for (size_t j = 0; j < m.cov.Nrow(); j++) s.cov[i][j] = m.cov(i, j); s.fval = c.maxi ? -best : best; s.valid = m.valid; s.finished = true; return m;
  };
}
void judge(const FitResult &r, const Seen &s, const char *what)
{
  check(r.GetBestFit() == s.best, "wrong-best-fit", what); check(sameBits(r.GetExtremeVal(), s.fval) || r.GetExtremeVal() == s.fval || (std::isnan(s.fval) && std::isnan(r.GetExtremeVal())), "wrong-extreme-value", fmt("%.12g instead of %.12g", r.GetExtremeVal(), s.fval)); check(r.GetValid() == s.valid, "wrong-validity", what);
  DenseMatrix m = r.GetCovarianceMatrix(); size_t n = s.cov.size(); if (n) check(attempt([&] { m.GetComponent(n - 1, n - 1); }) == OK, "wrong-covariance", fmt("smaller than %zu", n)); check(attempt([&] { m.GetComponent(n, 0); }) == ERR && attempt([&] { m.GetComponent(0, n); }) == ERR, "wrong-covariance", fmt("larger than %zu", n)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) check(m.GetComponent(i, j) == s.cov[i][j], "wrong-covariance", fmt("(%zu, %zu) is %g instead of %g", i, j, m.GetComponent(i, j), s.cov[i][j]));
}
void apply(Minuit &m, const Config &c, const Config &before, bool all)
{
  if (all || c.method != before.method) m.SetMethod(c.method); if (all || c.up != before.up) m.SetUpperContourEdge(c.up); if (all || c.tol != before.tol) m.SetTolerance(c.tol); if (all || c.calls != before.calls) m.SetMaxCalls(c.calls); if (all || c.strategy != before.strategy) m.SetStrategy(c.strategy); if (all || c.maxi != before.maxi) m.SetMaximising(c.maxi);
  m.SetInitialValues(c.val); m.SetInitialErrors(c.err); m.SetMinima(c.lo); m.SetMaxima(c.hi); for (auto &f : before.fixed) if (!c.fixed.count(f)) m.Release(f); for (auto &f : c.fixed) if (!before.fixed.count(f) || chance(0.2)) m.Fix(f);
  check(m.GetMethod() == c.method && m.GetUpperContourEdge() == c.up && m.GetTolerance() == c.tol && m.GetMaxCalls() == c.calls && m.GetStrategy() == c.strategy && m.GetMaximising() == c.maxi && m.GetMinima() == c.lo && m.GetMaxima() == c.hi, "setting-lost", "");
}
void starts(Config &c, const std::set<std::string> &names, const ParameterDict *at)
{
  c.val.clear(); c.err.clear(); c.lo.clear(); c.hi.clear(); int lim = (int)weighted({3, 2, 2}); for (auto &k : names) { double w = range(4, 32) / 8., l = range(-24, 8) / 8.; if (at) { w = 0.5 + fabs(at->at(k)) / 2; l = at->at(k) - w / 2; } c.val[k] = l + w * choose(17) / 16.; c.err[k] = w * range(1, 8) / 16.; if (!at && chance(0.1)) { c.val[k] = chance(0.5) ? l - w / 4 : l + w * 1.25; probe("start-outside"); } if (lim == 2 || (lim == 1 && chance(0.6))) { c.lo[k] = l; c.hi[k] = l + w; } }
  std::set<std::string> fx; for (auto &k : c.fixed) if (names.count(k)) fx.insert(k); c.fixed = fx;
}
void settings(Config &c)
{
  if (chance(0.3)) { const char *ms[] = {"Migrad", "Minimize", "Simplex"}; c.method = ms[choose(3)]; } if (chance(0.3)) c.up = range(1, 40) / 8.; if (chance(0.3)) c.tol = range(1, 40) / 400.; if (chance(0.3)) c.calls = (unsigned)choose(10000); if (chance(0.3)) c.strategy = (int)choose(3); if (chance(0.3)) c.maxi = !c.maxi;
}
void wrapper()
{
  Quiet q; struct Obj { std::unique_ptr<Minuit> m; Config c; Seen last; }; std::vector<Obj> o(1); o[0].m.reset(new Minuit); Stat st; st.f = quadratic(paramNames(1 + choose(4)), 1); Config d; std::string why; int steps = 0;
  check(o[0].m->GetMethod() == "Migrad" && o[0].m->GetMaxCalls() == 0 && o[0].m->GetStrategy() == 2 && !o[0].m->GetMaximising() && o[0].m->GetUpperContourEdge() == 0.5, "wrong-defaults", ""); starts(d, st.GetParameterNames(), 0); settings(d); apply(*o[0].m, d, o[0].c, chance(0.3)); o[0].c = d;
  while (steps < 14 && (steps < 3 || more(0.88)))
  {
    steps++; size_t k = choose(o.size()), op = weighted({8, 3, 3, 3, 1, 1, 1}); ev("op %zu on %zu", op, k); Obj &x = o[k]; std::set<std::string> names = st.GetParameterNames(); state(mix(op, mix(names.size(), mix(x.c.fixed.size(), x.c.lo.size() + 8 * x.c.maxi))));
    switch (op)
    {
    case 0:
    {
      Seen s; bool ok = sane(x.c, names), lax = unknownLimits(x.c, names); bool faulty = chance(0.15); st.registered = false; if (faulty && chance(0.5)) st.countdown = (long)choose(4); engine(s, x.c, names, [&](const ParameterDict &p) { return st.f(p); }, faulty); const FitResult *r = 0; Out e;
      if (faulty && chance(0.7)) { AllocFault af(1 + choose(pick(std::vector<size_t>{60, 300, 900})), chance(0.3)); e = attempt([&] { r = &x.m->Optimise(&st); }, &why); } else e = attempt([&] { r = &x.m->Optimise(&st); }, &why);
      bool failed = faulty && e != OK; st.countdown = -1; M2::stubEngine() = nullptr; if (failed && ok) { if (x.last.finished) { judge(x.m->GetFitResult(), x.last, "kept after a fit that failed"); probe("earlier-result-kept"); } nontrivial(); probe("fit-interrupted"); break; }
      if (!ok) { check(e != OK && !s.called, "impossible-fit-accepted", e == OK ? "no error" : "the minimiser ran: " + why); probe("impossible-fit-refused"); break; } if (lax && e == ERR) break;
      check(e == OK, "fit-failed", why); check(st.registered, "components-not-registered", ""); check(s.finished, "nothing-minimised", ""); judge(*r, s, "returned"); x.last = s; judge(x.m->GetFitResult(), s, "kept"); nontrivial(); probe(x.c.fixed.empty() ? "fitted" : "fitted-with-fixed"); break;
    }
    case 1: { Config c = x.c; settings(c); if (chance(0.5)) starts(c, names, 0); apply(*x.m, c, x.c, false); x.c = c; break; }
    case 2: { auto i = names.begin(); std::advance(i, choose(names.size())); if (chance(0.6)) { x.m->Fix(*i); x.c.fixed.insert(*i); } else { x.m->Release(*i); x.c.fixed.erase(*i); } break; }
    case 3: // something impossible, taken back later by other settings
    {
      Config c = x.c; auto i = names.begin(); std::advance(i, choose(names.size())); switch (choose(9)) { case 0: c.method = "Nonsense"; break; case 1: c.lo.erase(*i); break; case 2: c.err.erase(*i); break; case 7: if (c.lo.erase(*i)) c.lo[*i + "2"] = 0; break; case 8: c.err.erase(*i); c.err[*i + "2"] = 1; break; case 3: if (c.lo.count(*i) && c.hi.count(*i)) c.lo[*i] = c.hi[*i] + choose(2); break; case 4: c.fixed.insert("nobody"); break; case 5: c.val["nobody"] = c.err["nobody"] = 1; break; default: c.lo["nobody"] = 0; c.hi["nobody"] = 1; }
      apply(*x.m, c, x.c, false); if (chance(0.7)) { Seen s; engine(s, c, names, [&](const ParameterDict &p) { return st.f(p); }, false); Out e = attempt([&] { x.m->Optimise(&st); }, &why); M2::stubEngine() = nullptr; if (!sane(c, names)) { check(e != OK && !s.called, "impossible-fit-accepted", ""); probe("impossible-fit-refused"); } else if (e == OK) x.last = s; } apply(*x.m, x.c, c, false); break;
    }
    case 4: { if (o.size() < 3) { Obj n; n.m.reset(new Minuit(*x.m)); n.c = x.c; n.last = x.last; o.push_back(std::move(n)); probe("copied"); } break; }
    case 5: { size_t j = choose(o.size()); *o[j].m = *x.m; o[j].c = x.c; o[j].last = x.last; if (o[j].last.finished) judge(o[j].m->GetFitResult(), o[j].last, "copied"); if (o.size() > 1 && chance(0.3)) o.erase(o.begin() + choose(o.size())); probe("assigned"); break; }
    default: { st.f = quadratic(paramNames(1 + choose(4)), 1); for (auto &y : o) { Config c = y.c; starts(c, st.GetParameterNames(), 0); apply(*y.m, c, y.c, false); y.c = c; } }
    }
  }
}
void likelihoods()
{
  Quiet q; World w; w.setup("likelihood", choose(3), 1 + choose(3)); ParameterDict d; w.draw(d); w.lh->SetParameters(d); w.applied(d); w.renorms(); w.newDataDist(); if (chance(0.5)) w.constrain(w.paramNames()); std::set<std::string> names = w.paramNames(); if (names.empty()) return; std::string why; if (attempt([&] { w.lh->Evaluate(); }, &why) != OK) return;
  Minuit m; Config c; starts(c, names, &d); settings(c); apply(m, c, Config(), true); int runs = 1 + (int)choose(3);
  for (int k = 0; k < runs; k++)
  {
    if (k) { Config n = c; settings(n); starts(n, names, &d); if (chance(0.5)) n.fixed.insert(*names.begin()); apply(m, n, c, false); c = n; }
    BinnedNLLH &lh = *w.lh; bool bad = false; auto f = [&lh, &bad](const ParameterDict &p) { double v = 0; lh.SetParameters(p); if (attempt([&] { v = lh.Evaluate(); }) != OK) { bad = true; v = 0; } return v; };
    Seen s; engine(s, c, names, f, false); const FitResult *r = 0; Out e = attempt([&] { r = &m.Optimise(&lh); }, &why); M2::stubEngine() = nullptr; if (e != OK) { check(s.called, "fit-failed", why); probe("likelihood-undefined"); continue; } judge(*r, s, "returned"); if (!bad) { double v = f(s.best); if (!std::isnan(v)) check(close(v, r->GetExtremeVal(), 1e-9, 1e-9), "wrong-extreme-value", fmt("%.12g, but the likelihood there is %.12g", r->GetExtremeVal(), v)); } nontrivial(); probe("likelihood-fitted"); state(mix(names.size(), 100 + k));
  }
}
}
SIM_WORKLOAD("F01", minuit_history, 10, "") { wrapper(); }
SIM_WORKLOAD("F01", minuit_likelihood, 4, "") { likelihoods(); }
