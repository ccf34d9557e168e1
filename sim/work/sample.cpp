// S01 random sampling, Q01 repeatability, I01 limits from posteriors.
#include "likeworld.h"
#include "statfn.h"
#include <Gaussian.h>
#include <JumpPDF.h>
#include <VaryingCDF.h>
#include <SquareRootScale.h>
#include <EventConvolution.h>
#include <EventReconvolution.h>
#include <EventScale.h>
#include <EventShift.h>
#include <EventSystematicManager.h>
#include <GridSearch.h>
#include <MCMC.h>
#include <MetropolisSampler.h>
#include <HamiltonianSampler.h>
#include <HMCEnergy.h>
#include <FitResult.h>
#include <DataSetGenerator.h>
#include <BinnedEDGenerator.h>
#include <DistFiller.h>
#include <LineCut.h>
#include <CutLog.h>
#include <BayesIntervalCalc.h>
#include <CountingExperiment.h>
#include <CountingResult.h>
#include <Rand.h>
#include <cfloat>
using namespace like;
using work::Stat; using work::Fn;
namespace
{
// ------------------------------------------------------------------------------------------ sampling
struct Curve : public Gaussian // any curve; remembers where it was asked
{
  Doubles h; double lo, w; mutable std::vector<std::pair<double, double>> asked; mutable long left; Curve(size_t nd = 1) : Gaussian(nd), lo(0), w(1), left(-1) {}
  double operator()(const std::vector<double> &x) const { if (left == 0) { fault("function-fails"); throw ValueError("simulated: the function fails"); } if (left > 0) left--; long k = (long)((x.at(0) - lo) / w * (double)h.size()); double v = h[std::max(0L, std::min((long)h.size() - 1, k))]; asked.push_back(std::make_pair(x.at(0), v)); return v; }
};
double stdNormal(const RngRecord &t) { return t.b ? (t.v - t.a) / t.b : 0; }
void sampling()
{
  Quiet q; rngMode = chance(0.4) ? RNG_EXTREME : RNG_SEEDED; unsigned seed = 1 + (unsigned)choose(1000000); Rand::SetSeed(seed); check(Rand::GetSeed() == seed, "seed-differs", ""); int steps = 0;
  size_t nd = 1 + choose(3); Gaussian g(nd); Doubles m(nd), s(nd); for (size_t i = 0; i < nd; i++) { m[i] = 0; s[i] = 1; } // what the Gaussian is now
  Gaussian one(range(-8, 8) / 8., range(1, 16) / 8.); std::unique_ptr<ConditionalPDF> cond; double grad = 0; bool varying = false; EventConvolution conv("conv"); bool ready = false; std::string why; Strs obs({"e", "r", "z"}); size_t target = 0; conv.SetOutObservables(Strs(1, obs[0])); conv.SetInObservables(Strs(1, obs[0]));
  double om = one.GetMean(0), os = one.GetStDev(0);
  auto rebuild = [&] { varying = chance(0.4); if (varying) { VaryingCDF *v = new VaryingCDF("v"); Gaussian k(0.5, 1); v->SetKernel(&k); SquareRootScale r("r"); grad = range(1, 16) / 8.; r.SetGradient(grad); v->SetDependance("stddevs_0", &r); cond.reset(v); conv.SetConditionalPDF(v); } else { cond.reset(new JumpPDF("j", &one)); om = one.GetMean(0); os = one.GetStDev(0); if (chance(0.5)) conv.SetPDF(&one); else conv.SetConditionalPDF(cond.get()); } ready = true; };
  auto width = [&](double x) { return varying ? grad * sqrt(x) : os; }; auto mean = [&] { return varying ? 0.5 : om; };
  while (steps < 20 && (steps < 4 || more(0.9)))
  {
    steps++; size_t op = choose(9); ev("op %zu", op); state(mix(op, mix(nd, varying * 2 + ready))); std::vector<RngRecord> tr; rngTrace = &tr;
    switch (op)
    {
    case 0: { double max = range(1, 40) / 4.; double v = Rand::Uniform(max); check(tr.size() == 1 && v > 0 && v < max && (close(v, max * tr[0].v, 1e-12, 0)), "uniform-out-of-range", fmt("%.17g of %g", v, max)); break; }
    case 1: { double lo = range(-40, 40) / 4., hi = lo + range(0, 40) / 4., v = Rand::UniformRange(lo, hi), f = hi > lo ? (v - lo) / (hi - lo) : 0; check(tr.size() == 1 && v >= lo && v <= hi && (hi == lo || fabs(f - tr[0].v) < 1e-6 || fabs(1 - f - tr[0].v) < 1e-6), "uniform-out-of-range", fmt("%.17g in %g to %g", v, lo, hi)); break; }
    case 2: { int n = 1 + (int)choose(chance(0.5) ? 5 : 2000000); int k = Rand::Shoot(n); check(k >= 0 && k < n, "shot-out-of-range", fmt("%d of %d", k, n)); check(tr.size() == 1 && (k == (int)(n * tr[0].v) || k == (int)(n * (1 - tr[0].v))), "shot-not-uniform", fmt("%d of %d", k, n)); break; }
    case 3:
    { // acceptance-rejection sampling
      bool twoD = chance(0.05); Curve c(twoD ? 2 : 1); size_t nb = 1 + choose(6); double top = 0; for (size_t i = 0; i < nb; i++) { c.h.push_back(range(0, 16) / 16.); top = std::max(top, c.h.back()); } if (top == 0) c.h[0] = top = 0.5; c.lo = range(-16, 16) / 4.; c.w = range(1, 32) / 4.; double ymax = top * (chance(0.5) ? 1 : 1.5);
      if (twoD || chance(0.1)) { double lo = c.lo, hi = c.lo + c.w, y = ymax; if (!twoD) { if (chance(0.5)) hi = lo - (double)choose(2); else y = -(double)choose(2); } check(attempt([&] { Rand::VonNeumannSample(&c, lo, hi, y); }, &why) == ERR, "impossible-sample-accepted", ""); break; }
      if (chance(0.15)) { c.left = (long)choose(3); Out o = attempt([&] { Rand::VonNeumannSample(&c, c.lo, c.lo + c.w, ymax); }, &why); if (c.left == 0) { /* may have been enough */ } check(o != NOMEM, "sample-failed", why); c.left = -1; c.asked.clear(); tr.clear(); }
      double v = 0; Out o = attempt([&] { v = Rand::VonNeumannSample(&c, c.lo, c.lo + c.w, ymax); }, &why); check(o == OK, "sample-failed", why); check(v >= c.lo && v <= c.lo + c.w, "sample-out-of-range", fmt("%g", v));
      check(!c.asked.empty() && c.asked.back().first == v, "sample-not-drawn", fmt("%.10g was returned without looking at the function there", v)); check(tr.size() == 2 * c.asked.size(), "sample-not-drawn", fmt("%zu random numbers for %zu tries", tr.size(), c.asked.size()));
      for (size_t k = 0; k < c.asked.size(); k++)
      { double f = (c.asked[k].first - c.lo) / c.w, a = tr[2 * k].v, b = tr[2 * k + 1].v, y; if (fabs(f - a) < 1e-6 || fabs(1 - f - a) < 1e-6) y = b; else { check(fabs(f - b) < 1e-6 || fabs(1 - f - b) < 1e-6, "sample-not-uniform", fmt("%.10g", c.asked[k].first)); y = a; }
        bool last = k + 1 == c.asked.size(), acc = y * ymax <= c.asked[k].second; if (fabs(y * ymax - c.asked[k].second) > 1e-9) check(acc == last, "wrong-rejection", fmt("at %.10g the function is %g, drawn height %g", c.asked[k].first, c.asked[k].second, y * ymax)); }
      if (c.asked.size() > 1) nontrivial(); probe("accept-reject"); break;
    }
    case 4: { size_t i = choose(nd); m[i] = range(-16, 16) / 8.; s[i] = range(1, 16) / 8.; if (chance(0.5)) { g.SetParameter(fmt("means_%zu", i), m[i]); g.SetParameter(fmt("stddevs_%zu", i), s[i]); } else { g.SetMeans(m); g.SetStDevs(s); } break; }
    case 5:
    { Doubles v = g.Sample(); check(v.size() == nd && tr.size() == nd, "sample-incomplete", fmt("%zu values, %zu random numbers for %zu dimensions", v.size(), tr.size(), nd)); std::set<size_t> used; for (size_t i = 0; i < nd; i++) { bool found = false; for (size_t k = 0; k < nd && !found; k++) if (!used.count(k) && tr[k].kind == 'G' && close(v[i], m[i] + s[i] * stdNormal(tr[k]), 1e-9, 1e-9)) { used.insert(k); found = true; } check(found, "wrong-sample", fmt("dimension %zu: %.10g for mean %g, width %g", i, v[i], m[i], s[i])); } nontrivial(); probe("gaussian"); break; }
    case 6: rebuild(); if (!varying && chance(0.5)) { one.SetParameter("means_0", range(-8, 8) / 8.); one.SetParameter("stddevs_0", range(1, 16) / 8.); } break; // the source may change afterwards
    case 7: if (ready) { double x = range(1, 64) / 8.; Doubles v = cond->Sample(Doubles(1, x)); check(v.size() == 1 && tr.size() == 1 && tr[0].kind == 'G' && close(v[0], x + mean() + width(x) * stdNormal(tr[0]), 1e-9, 1e-9), "wrong-sample", fmt("%.10g around %g", v.empty() ? 0. : v[0], x)); probe("conditional"); nontrivial(); } break;
    default:
    { // an event is smeared in exactly the observable asked for, by its own random number
      if (chance(0.3)) { target = choose(3); conv.SetOutObservables(Strs(1, obs[target])); conv.SetInObservables(Strs(1, obs[target])); } Doubles d; for (int i = 0; i < 3; i++) d.push_back(range(1, 64) / 8.); Event e(d); e.SetObservableNames(&obs); Event r = e; Out o = attempt([&] { r = conv(e); }, &why); if (!ready) { check(o == ERR, "sampled-without-distribution", ""); break; }
      check(o == OK, "convolution-failed", why); check(e.GetData() == d, "original-event-changed", ""); for (size_t i = 0; i < 3; i++) if (i != target) check(r.GetDatum(obs[i]) == d[i], "other-observable-changed", obs[i]); check(tr.size() == 1 && close(r.GetDatum(obs[target]), d[target] + mean() + width(d[target]) * stdNormal(tr[0]), 1e-9, 1e-9), "wrong-smearing", fmt("%.10g from %.10g", r.GetDatum(obs[target]), d[target])); probe("event-smeared"); nontrivial();
    }
    }
    rngTrace = 0;
  }
  rngTrace = 0;
}

// ------------------------------------------------------------------------------------------ repeatability
typedef std::vector<std::pair<std::string, double>> Notes;
struct Taker { Notes n; void operator()(const std::string &w, double v) { n.push_back(std::make_pair(w, v)); } void all(const std::string &w, const Doubles &v) { for (double x : v) (*this)(w, x); } void dict(const std::string &w, const ParameterDict &d) { for (auto &p : d) (*this)(w + " " + p.first, p.second); } };
void fakeData(Taker &t)
{
  size_t ns = 1 + choose(3); std::vector<std::unique_ptr<OXSXDataSet>> src; DataSetGenerator gen; std::vector<DataSet *> v; Doubles rates; std::vector<bool> boot, seq; Strs nm({"e", "r"});
  for (size_t i = 0; i < ns; i++) { src.emplace_back(new OXSXDataSet); src[i]->SetObservableNames(nm); size_t n = 8 + choose(12); for (size_t k = 0; k < n; k++) { Doubles d; d.push_back(i * 100. + k); d.push_back(range(-8, 8) / 8.); src[i]->AddEntry(Event(d)); } v.push_back(src[i].get()); rates.push_back(range(1, 8) / 2.); boot.push_back(chance(0.5)); seq.push_back(chance(0.5)); }
  gen.SetDataSets(v); gen.SetExpectedRates(rates); gen.SetSequentialFlags(seq); gen.SetBootstrap(boot); CutCollection c; if (chance(0.5)) { c.AddCut(LineCut("l", "r", -0.5, "lower")); gen.SetCuts(c); }
  for (int k = 0; k < 3; k++) { OXSXDataSet o; std::string why; bool poisson = chance(0.5); if (attempt([&] { o = poisson ? gen.PoissonFluctuatedDataSet() : gen.ExpectedRatesDataSet(); }, &why) != OK) { t("refused", k); continue; } for (size_t i = 0; i < o.GetNEntries(); i++) t("fake event", o.GetEntry(i).GetDatum("e")); }
}
void fakeDist(Taker &t)
{
  BinnedEDGenerator g; std::vector<BinnedED> v; Doubles r; size_t n = 1 + choose(3); AxisCollection ax; ax.AddAxis(BinAxis("x", 0, 4, 4)); if (chance(0.5)) ax.AddAxis(BinAxis("y", 0, 3, 3));
  for (size_t i = 0; i < n; i++) { BinnedED e(fmt("d%zu", i), ax); e.SetObservables(chance(0) ? Strs() : ax.GetNDimensions() == 2 ? Strs({"x", "y"}) : Strs({"x"})); for (size_t b = 0; b < ax.GetNBins(); b++) e.SetBinContent(b, range(1, 16) / 16.); e.Normalise(); v.push_back(e); r.push_back(range(1, 40)); }
  g.SetPdfs(v); g.SetRates(r); t.all("fake distribution", g.PoissonFluctuatedED().GetBinContents()); t.all("expected distribution", g.ExpectedRatesED().GetBinContents());
}
void smear(Taker &t)
{
  EventSystematicManager m; std::vector<std::unique_ptr<EventSystematic>> keep; size_t n = 1 + choose(3); for (size_t i = 0; i < n; i++) { EventSystematic *s; if (chance(0.5)) { EventConvolution *c = new EventConvolution("c"); Gaussian g(range(-4, 4) / 8., range(1, 8) / 8.); c->SetPDF(&g); s = c; } else { EventShift *c = new EventShift("s"); c->SetShift(range(-8, 8) / 8.); s = c; } s->SetOutObservables(Strs(1, "x")); s->SetInObservables(Strs(1, "x")); keep.emplace_back(s); m.Add(s); }
  OXSXDataSet d; d.SetObservableNames(Strs({"x", "y"})); size_t ne = 1 + choose(20); for (size_t i = 0; i < ne; i++) { Doubles v; v.push_back(range(0, 32) / 8.); v.push_back(0); d.AddEntry(Event(v)); } AxisCollection ax; ax.AddAxis(BinAxis("x", 0, 4, 8)); BinnedED e("e", ax); e.SetObservables(Strs(1, "x")); CutCollection cuts; if (chance(0.5)) cuts.AddCut(LineCut("l", "x", 1, "lower")); CutLog log(cuts.GetCutNames()); DistFiller::FillDist(e, d, cuts, log, m); t.all("smeared distribution", e.GetBinContents());
}
// an energy with gradients that a leapfrog step of fixed length can follow: a likelihood next to a forbidden region
// has none, and its trajectory is reflected 10^10 times within one step
struct SoftEnergy { HMCEnergy<BinnedNLLH> e; SoftEnergy(BinnedNLLH &l) : e(l) {} double Evaluate() { return 50 * atan(e.Evaluate() / 50); } void SetParameters(const ParameterDict &p) { e.SetParameters(p); } std::set<std::string> GetParameterNames() const { return e.GetParameterNames(); } };
void optimise(Taker &t)
{
  World w; w.setup("likelihood", choose(3), 1 + choose(3)); ParameterDict d; w.draw(d); w.lh->SetParameters(d); w.applied(d); w.renorms(); if (w.canBin() && chance(0.5)) w.newDataSet(); else w.newDataDist(); if (chance(0.5)) w.newBuffer(); if (chance(0.5)) w.constrain(w.paramNames());
  std::string why; double v = 0; Out o = attempt([&] { v = w.lh->Evaluate(); }, &why); t("evaluation ended", o); t("likelihood", o == OK ? v : 0); if (o != OK) return; t.all("normalisations", w.lh->GetNormalisations()); t.dict("parameters", w.lh->GetParameters()); std::set<std::string> names = w.paramNames(); if (names.empty()) return; ParameterDict cur = w.lh->GetParameters();
  ParameterDict lo, hi, st, sig; for (auto &n : names) { lo[n] = cur[n] * 0.5; hi[n] = cur[n] * 1.5 + 0.25; st[n] = (hi[n] - lo[n]) * 0.7; sig[n] = (hi[n] - lo[n]) / 8; }
  if (chance(0.4) && names.size() < 3) { GridSearch g; g.SetMinima(lo); g.SetMaxima(hi); g.SetStepSizes(st); o = attempt([&] { FitResult r = g.Optimise(w.lh.get()); t.dict("grid search", r.GetBestFit()); t("grid search", r.GetExtremeVal()); }, &why); t("grid search ended", o); }
  std::unique_ptr<MCSampler> s; typedef SoftEnergy En; En en(*w.lh); if (chance(0.3) && names.size() < 3) { auto *h = new HamiltonianSampler<En>(en, 0.01, 2); h->SetMinima(lo); h->SetMaxima(hi); s.reset(h); } else { auto *m = new MetropolisSampler; m->SetSigmas(sig); if (chance(0.3)) m->Fix(*names.begin()); s.reset(m); }
  MCMC mc(*s); mc.SetMaxIter(1 + (unsigned)choose(8)); mc.SetBurnIn(0); mc.SetMinima(lo); mc.SetMaxima(hi); if (chance(0.5)) mc.SetInitialTrial(cur); mc.SetTestStatLogged(true); mc.SetFlipSign(true); t("saves chain", mc.GetSaveChain());
  o = attempt([&] { FitResult r = mc.Optimise(w.lh.get()); t.dict("chain", r.GetBestFit()); t("chain", r.GetExtremeVal()); t("chain valid", r.GetValid()); t("acceptance", mc.GetSamples().GetAcceptanceRate()); for (auto &h : mc.GetSamples().Get1DProjections()) t.all("posterior of " + h.first, h.second.GetBinContents()); for (auto &h : mc.GetSamples().Get2DProjections()) t.all("posterior of " + h.first, h.second.GetBinContents()); }, &why); t("chain ended", o);
}
void responses(Taker &t)
{
  Axes full; full.push_back(det::axis("x", true, 2)); if (chance(0.5)) full.push_back(det::axis("y", true, 2)); std::shared_ptr<Bomb> b(new Bomb); int kind = (int)choose(NKINDS); Spec s = spec(kind, "s", pickTrans(kind, full).size()); s.trans.clear(); for (size_t i = 0; i < (s.trans.empty() ? 1u : 1u); i++) s.trans.push_back(full[i].name); s = spec(kind, "s", 1); s.trans = Strs(1, full[0].name); std::unique_ptr<Systematic> p(realise(s, b)); setParams(p.get(), s); std::string why;
  Out o = attempt([&] { p->SetAxes(det::build(full)); p->SetDistributionObs(ObsSet(namesOf(full))); p->SetTransformationObs(ObsSet(s.trans)); p->Construct(); }, &why); t("response built", o); if (o == OK) for (size_t i = 0; i < nBins(full); i++) for (size_t j = 0; j < nBins(full); j++) t("response", p->GetResponse().GetComponent(i, j));
}
void program(Taker &t, unsigned seed)
{
  Rand::SetSeed(seed); size_t parts = 1 + choose(2); for (size_t i = 0; i < parts; i++) switch (choose(5)) { case 0: fakeData(t); break; case 1: fakeDist(t); break; case 2: smear(t); break; case 3: responses(t); break; default: optimise(t); }
}
void repeatable()
{
  Quiet q; rngMode = chance(0.2) ? RNG_EXTREME : RNG_SEEDED; unsigned seed = 1 + (unsigned)choose(1000000); const unsigned char fills[] = {0, 0xff, 0x5a, 0x01, 0x7f, 0x80};
  heapFill(fills[choose(6)]); stackFill(fills[choose(6)]); Taker a; size_t from = tapeMark(); program(a, seed); size_t to = tapeMark(); size_t again = 1 + choose(2);
  for (size_t k = 0; k < again; k++)
  {
    // another day in another place: what was done before, the time, the addresses and whatever lies about in memory
    if (chance(0.4)) { Taker junk; program(junk, seed + 1); probe("other-work-before"); } if (chance(0.5)) { sim::advance(choose(100000000)); fault("clock-jump"); } heapJitter((unsigned)choose(200)); fault("addresses-moved"); heapFill(fills[choose(6)]); fault("memory-filled"); stackFill(fills[choose(6)]);
    Taker b; echo(from, to); program(b, seed); bool same = echoDone(); heapFill(0);
    for (size_t i = 0; i < a.n.size() && i < b.n.size(); i++) { check(a.n[i].first == b.n[i].first, "not-repeatable", a.n[i].first + " is followed by " + b.n[i].first); check(sameBits(a.n[i].second, b.n[i].second) || (std::isnan(a.n[i].second) && std::isnan(b.n[i].second)), "not-repeatable", fmt("%s: %.17g, then %.17g", a.n[i].first.c_str(), a.n[i].second, b.n[i].second)); }
    check(same && a.n.size() == b.n.size(), "not-repeatable", fmt("%zu results, then %zu", a.n.size(), b.n.size())); state(mix(a.n.size() % 97, k)); if (a.n.size() > 3) nontrivial();
  }
  for (auto &n : a.n) evd(n.first.c_str(), n.second);
}

// ------------------------------------------------------------------------------------------ limits
void limits()
{
  Quiet q; Rand::SetSeed(1 + choose(1000000)); std::vector<Histogram> hs; std::string why; int steps = 0;
  auto fresh = [&]
  {
    hs.clear(); if (chance(0.5)) { Stat st; st.f = quadratic(work::paramNames(1 + choose(2)), 0.5); st.f.mode = 0; for (auto &r : st.f.a) for (double &x : r) x = -x; MetropolisSampler m; ParameterDict lo, hi, sig; for (auto &n : st.f.names) { lo[n] = -3; hi[n] = 3; sig[n] = range(1, 16) / 8.; } m.SetSigmas(sig); MCMC mc(m); mc.SetMaxIter(20 + (unsigned)choose(100)); mc.SetBurnIn(0); mc.SetMinima(lo); mc.SetMaxima(hi); mc.SetTestStatLogged(true); mc.SetSaveChain(false); mc.Optimise(&st); for (auto &h : mc.GetSamples().Get1DProjections()) hs.push_back(h.second); probe("posterior-of-a-chain"); }
    else { size_t n = 1 + choose(8); Doubles lo, hi; double x = range(-16, 16) / 4.; for (size_t i = 0; i < n; i++) { lo.push_back(x); x += range(1, 8) / 8.; hi.push_back(x); } AxisCollection ax; ax.AddAxis(BinAxis("p", lo, hi)); double sc = chance(0.3) ? pow(10, range(-12, 12)) : 1; Histogram h(ax); for (size_t i = 0; i < n; i++) h.SetBinContent(i, chance(0.3) ? 0 : range(1, 16) / 4. * sc); hs.push_back(h); }
  };
  fresh();
  while (steps < 12 && (steps < 3 || more(0.85)))
  {
    steps++; size_t op = weighted({8, 2, 1, 3}); ev("op %zu", op); state(mix(op, mix(hs.size(), hs[0].GetNBins())));
    if (op == 1) { fresh(); continue; }
    if (op == 2) { AxisCollection ax; ax.AddAxis(BinAxis("a", 0, 1, 2)); bool two = chance(0.5); if (two) ax.AddAxis(BinAxis("b", 0, 1, 2)); Histogram h(ax); if (two) h.SetBinContent(0, 1); check(attempt([&] { BayesIntervalCalc::UpperBound(h, 0.5); }, &why) == ERR, "impossible-limit-accepted", two ? "two dimensions" : "empty"); check(attempt([&] { BayesIntervalCalc::UpperBound(hs[0], -0.5 * choose(3)); }, &why) == ERR, "impossible-limit-accepted", "confidence level"); check(attempt([&] { BayesIntervalCalc::UpperBound(hs[0], 1.25); }, &why) == ERR || hs[0].Integral() == 0, "impossible-limit-accepted", "confidence level above one"); continue; }
    if (op == 3)
    { // counting: the credibility of the limit is the one asked for
      double b = range(0, 80) / 4., tol = chance(0.5) ? 0.01 : 0.001; int n = (int)choose(25); if (chance(0.15)) { const double B[] = {1e-6, 60.5, 100, 0}; b = B[choose(4)]; n = (int)choose(90); } if (chance(0.2)) { double bad = chance(0.5) ? 1 + range(0, 4) / 4. : -range(0, 4) / 4.; check(attempt([&] { BayesIntervalCalc::UpperBound(b, n, bad, tol); }, &why) == ERR, "impossible-limit-accepted", fmt("confidence level %g", bad)); continue; }
      double cl = chance(0.1) ? (chance(0.5) ? 0.99 : 0.999) : range(1, 39) / 40.; if (chance(0.04)) { n = (int)choose(3); b = (double)choose(2); tol = 1e-4; cl = 0.9998; } double l = BayesIntervalCalc::UpperBound(b, n, cl, tol); auto cdf = [&](double s) { double den = 0, num = 0, x = 1, y = 1; for (int k = 0; k <= n; k++) { den += x; num += y; x *= b / (k + 1); y *= (b + s) / (k + 1); } return 1 - exp(-s) * num / den; }; double c = cdf(l); check(l > 0 && fabs(c - cl) <= tol * 1.001 + 1e-6, "wrong-limit", fmt("the limit %g for %g expected and %d observed has credibility %g instead of %g", l, b, n, c, cl)); double s = range(0, 80) / 8.; check(close(BayesIntervalCalc::OneSidedUpperInterval(b, n, s), cdf(s), 1e-6, 1e-7), "wrong-credibility", fmt("of %g for %g expected and %d observed", s, b, n)); nontrivial(); continue;
    }
    const Histogram &h = hs[choose(hs.size())]; Doubles c = h.GetBinContents(), before = c; double tot = det::sum(c); double cl = chance(0.1) ? 1 : chance(0.1) ? (chance(0.5) ? 0.001 : 0.999) : range(1, 63) / 64.; double v = 0; Out o = attempt([&] { v = BayesIntervalCalc::UpperBound(h, cl); }, &why); if (tot == 0) { check(o == ERR, "impossible-limit-accepted", "empty"); continue; }
    check(o == OK, "limit-failed", why); check(h.GetBinContents() == before, "posterior-changed", ""); double run = 0; size_t k = 0; while (k + 1 < c.size() && run + c[k] / tot < cl - 1e-12) run += c[k++] / tot; while (c[k] == 0 && k > 0) { k--; run -= c[k] / tot; } double lo = h.GetBinLowEdge(k, 0), hi = h.GetBinHighEdge(k, 0), want = lo + (cl - run) / (c[k] / tot) * (hi - lo); bool edge = fabs(run + c[k] / tot - cl) < 1e-9; size_t z = k + 1; while (z < c.size() && c[z] == 0) z++; double upto = z < c.size() ? h.GetBinLowEdge(z, 0) : h.GetBinHighEdge(c.size() - 1, 0);
    check(close(v, want, 1e-7, 1e-7) || (edge && v >= want - 1e-7 && v <= upto + 1e-7), "wrong-limit", fmt("%.10g instead of %.10g at %g", v, want, cl)); nontrivial();
  }
}
}
SIM_WORKLOAD("S01", sampling_history, 10, "") { sampling(); }
SIM_WORKLOAD("Q01", repeat_program, 10, "") { repeatable(); }
SIM_WORKLOAD("I01", limits_of_posteriors, 10, "") { limits(); }
