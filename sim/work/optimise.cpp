// O01 grid search, M01 Markov chains, M02 proposals (Metropolis steps, Hamiltonian trajectories).
#include "statfn.h"
#include <GridSearch.h>
#include <MCMC.h>
#include <MetropolisSampler.h>
#include <HamiltonianSampler.h>
#include <HMCEnergy.h>
#include <SigmoidBoundary.h>
#include <LeapFrog.h>
#include <AutoCorrelationCalc.h>
#include <FitResult.h>
#include <Rand.h>
#include <TTree.h>
using namespace work;
using namespace sim;
namespace
{
// ------------------------------------------------------------------------------------------ grid search
struct GridPlan { Strs names; ParameterDict lo, hi, step; std::vector<size_t> n; };
GridPlan gridPlan()
{
  GridPlan g; g.names = paramNames(1 + weighted({3, 4, 3, 1})); size_t total = 1;
  for (auto &s : g.names)
  {
    size_t n = 1 + choose(total > 60 ? 2 : 5); total *= n; bool dyadic = chance(0.7); double lo = dyadic ? range(-16, 16) / 8. : range(-30, 30) / 10., st = dyadic ? range(1, 8) / 8. : range(1, 9) / 10.;
    g.lo[s] = lo; g.step[s] = st; g.n.push_back(n); double part = n == 1 && chance(0.5) ? 0 : chance(0.4) ? 0.5 : 0; /* a range that is not a multiple of the step */ g.hi[s] = lo + (n - 1) * st + part * st; if (!dyadic && part == 0) { g.hi[s] = chance(0.5) ? round((lo + (n - 1) * st) * 10) / 10 : lo + (n - 1) * st; if (n == 1) g.hi[s] = lo; } if (n > 2 && !dyadic && !part) probe("rounded-steps-to-the-end");
  }
  return g;
}
void gridSearch()
{
  Quiet q; GridSearch gs; int steps = 0; bool had = false; ParameterDict lastBest; double lastExtreme = 0; auto kept = [&](const char *what) { if (had) { FitResult x = gs.GetFitResult(); check(x.GetBestFit() == lastBest && sameBits(x.GetExtremeVal(), lastExtreme), "earlier-result-changed", what); probe("earlier-result-kept"); } };
  while (steps < 5 && (steps < 1 || more(0.7)))
  {
    steps++; GridPlan g = gridPlan(); Stat st; st.f = quadratic(g.names, chance(0.2) ? -1 : 1); st.f.mode = (int)weighted({5, 4, 1}); st.f.lattice0 = g.lo; st.f.lattice1 = g.step; if (chance(0.15)) { st.f.offset = pick(Doubles{1e300, -1e300, 1e15, -1e7, 1e7, HUGE_VAL, -HUGE_VAL, NAN, NAN}); probe("extreme-statistic"); } bool maxi = chance(0.4); gs.SetMaximising(maxi);
    ParameterDict gst = g.step; for (auto &p : gst) if (g.lo[p.first] == g.hi[p.first] && chance(0.3)) { p.second = chance(0.5) ? 0 : -0.25; probe("single-value-no-step"); } gs.SetMinima(g.lo); gs.SetMaxima(g.hi); gs.SetStepSizes(gst); state(mix(mix(g.names.size(), st.f.mode), mix(maxi, steps))); size_t total = 1; for (size_t n : g.n) total *= n; ev("grid of %zu points in %zu dimensions", total, g.names.size());
    std::string why; const FitResult *r = 0; auto run = [&] { r = &gs.Optimise(&st); };
    if (chance(0.15))
    { // an inconsistent request is refused
      int kind = (int)choose(5); ParameterDict x = kind == 0 ? g.lo : kind == 1 ? g.hi : g.step; if (kind == 3) { GridPlan h = g; h.lo.erase(g.names[0]); h.hi.erase(g.names[0]); h.step.erase(g.names[0]); if (h.lo.empty()) kind = 0; else { gs.SetMinima(h.lo); gs.SetMaxima(h.hi); gs.SetStepSizes(h.step); } }
      if (kind == 4) { ParameterDict h = g.hi, t = g.step; h[g.names[0]] = g.lo[g.names[0]] + 1; if (chance(0.5)) t[g.names[0]] = -range(0, 4) / 8.; else h[g.names[0]] = g.lo[g.names[0]] - 0.5; gs.SetMaxima(h); gs.SetStepSizes(t); }
      if (kind < 3) { bool swap = chance(0.4); std::string who = g.names[choose(g.names.size())]; if (swap || chance(0.5)) x.erase(who); if (swap || x.size() == g.lo.size()) x[chance(0.5) ? "other" : who + "2"] = 1; if (kind == 0) gs.SetMinima(x); else if (kind == 1) gs.SetMaxima(x); else gs.SetStepSizes(x); }
      check(attempt(run, &why) != OK, "mismatch-accepted", "limits and steps of different parameters"); probe("mismatch-refused"); kept("by a refused search"); gs.SetMinima(g.lo); gs.SetMaxima(g.hi); gs.SetStepSizes(gst);
    }
    if (chance(0.3))
    { // the statistic or the allocator fails somewhere
      Out o; bool fired; if (chance(0.6)) { st.countdown = (long)choose(total); o = attempt(run, &why); fired = st.countdown < 0; st.countdown = -1; } else { AllocFault af(1 + choose(chance(0.5) ? 40 : 40 + 12 * total), chance(0.3)); o = attempt(run, &why); fired = af.fired(); }
      check(fired || o == OK, "search-failed", why); if (o == OK) had = false; else kept("by a search that failed"); if (fired) { nontrivial(); probe("search-interrupted"); }
    }
    Out o = attempt(run, &why); check(o == OK, "search-failed", why);
    check(gs.GetMinima() == g.lo && gs.GetMaxima() == g.hi && gs.GetStepSizes() == gst && gs.GetMaximising() == maxi, "setting-differs", "the search does not report the settings it was given");
    // every point of the grid, from first principles
    double best = 0; bool any = false; std::vector<size_t> idx(g.names.size(), 0);
    auto value = [&](const ParameterDict &p) { return maxi ? -st.f(p) : st.f(p); };
    for (size_t k = 0; k < total; k++)
    {
      size_t t = k; ParameterDict p; for (size_t i = 0; i < g.names.size(); i++) { size_t j = t % g.n[i]; t /= g.n[i]; p[g.names[i]] = g.lo[g.names[i]] + j * g.step[g.names[i]]; }
      double v = value(p); if (std::isnan(v)) continue; if (!any || v < best) { best = v; any = true; }
    }
    ParameterDict b = r->GetBestFit(); evd("extreme", r->GetExtremeVal()); had = true; lastBest = b; lastExtreme = r->GetExtremeVal();
    if (!any) { check(b.empty() && gs.GetFitResult().GetBestFit().empty(), "best-of-nothing", "a fit is reported, but the statistic has no value anywhere on the grid"); probe("nothing-to-find"); continue; }
    check(b.size() == g.names.size(), "best-fit-incomplete", fmt("%zu parameters instead of %zu", b.size(), g.names.size())); bool onGrid = true;
    for (size_t i = 0; i < g.names.size(); i++) { const std::string &s = g.names[i]; check(b.count(s) == 1, "best-fit-incomplete", s); double j = (b[s] - g.lo[s]) / g.step[s]; if (fabs(j - round(j)) > 1e-6 || round(j) < 0 || round(j) >= g.n[i]) onGrid = false; }
    std::string at; for (auto &p : b) at += fmt(" %s=%.10g", p.first.c_str(), p.second); check(onGrid, "not-a-grid-point", at);
    double v = value(b), tol = 1e-9 * (1 + fabs(best)); check(v == best || fabs(v - best) <= tol, "not-the-optimum", fmt("%.12g at%s, but the grid has %.12g", maxi ? -v : v, at.c_str(), maxi ? -best : best));
    check(close(r->GetExtremeVal(), maxi ? -v : v), "wrong-extreme-value", fmt("%.12g instead of %.12g", r->GetExtremeVal(), maxi ? -v : v)); if (total > 1) nontrivial();
    FitResult c = gs.GetFitResult(); check(c.GetBestFit() == b && sameBits(c.GetExtremeVal(), r->GetExtremeVal()), "result-differs", "of GetFitResult"); probe("searched");
  }
}

// ------------------------------------------------------------------------------------------ Markov chains
struct Step { ParameterDict cur, prop; double corr; size_t rng0, rng1; };
struct Jumps : public MCSampler // proposals scripted by the simulator
{
  ParameterDict lo, hi; double reach, c; bool corrects; Jumps() : reach(1), c(0), corrects(false) {}
  ParameterDict Draw(const ParameterDict &p) { ParameterDict r = p; for (auto &x : r) { double w = hi.at(x.first) - lo.at(x.first); switch (weighted({6, 1, 1, 1})) { case 0: x.second += w * reach * real(-1, 1); break; case 1: break; case 2: x.second = chance(0.5) ? lo[x.first] : hi[x.first]; break; default: x.second = hi[x.first] + w * real(0, 1); } } c = corrects ? real(-1, 1) : 0; return r; }
  double CorrectAccParam() { return c; }
};
struct Spy : public MCSampler
{
  MCSampler *in; std::vector<Step> steps; long countdown; Spy() : in(0), countdown(-1) {}
  ParameterDict Draw(const ParameterDict &p) { if (countdown >= 0 && countdown-- == 0) { fault("sampler-fails"); throw ValueError("simulated: the sampler fails"); } Step s; s.cur = p; s.rng0 = rngTrace->size(); s.prop = in->Draw(p); s.rng1 = rngTrace->size(); s.corr = in->CorrectAccParam(); steps.push_back(s); return s.prop; }
  double CorrectAccParam() { return in->CorrectAccParam(); }
};
std::string show(const ParameterDict &p) { std::string s; for (auto &x : p) s += fmt(" %s=%.10g", x.first.c_str(), x.second); return s; }
Doubles autocorr(const Doubles &v, size_t len)
{ // running estimate over a window of the last len values
  Doubles d(len, 0.), n(len, 0.); for (size_t k = 0; k < v.size(); k++) { size_t first = k + 1 > len ? k + 1 - len : 0; double m = 0; for (size_t i = first; i <= k; i++) m += v[i]; m /= (double)(k + 1 - first); for (size_t l = 0; l <= k - first; l++) { d[l] += (v[k] - m) * (v[k - l] - m); n[l] += (v[k] - m) * (v[k] - m); } }
  for (size_t i = 0; i < len; i++) d[i] /= n[i]; return d;
}
void seedRng() { rngMode = chance(0.4) ? RNG_EXTREME : RNG_SEEDED; Rand::SetSeed(1 + choose(1000000)); }
void chains()
{
  Quiet q; seedRng(); Spy spy; Jumps jumps; MetropolisSampler met; std::unique_ptr<MCMC> mc(new MCMC(spy)); int runs = 0; bool saveChain = false, full = false, logged = false, flip = false; unsigned burn = mc->GetBurnIn(), thin = 1; check(mc->GetSaveChain() == false, "chain-saved-unasked", "a new chain says it saves its steps");
  Stat st; st.tick = chance(0.5) ? 0.25 : 0;
  while (runs < 4 && (runs < 1 || more(0.5)))
  {
    runs++; size_t n = 1 + weighted({3, 4, 2}); if (runs == 1 || chance(0.6)) { Strs nm = paramNames(n); st.f = quadratic(nm, 0.5); } n = st.f.names.size(); ParameterDict lo, hi, init, sig;
    for (auto &s : st.f.names) { lo[s] = range(-24, 8) / 8.; hi[s] = lo[s] + (chance(0.05) ? 0 : range(4, 32) / 8.); sig[s] = (hi[s] - lo[s]) * range(1, 8) / 16.; init[s] = lo[s] + (hi[s] - lo[s]) * choose(9) / 8.; }
    if (runs == 1 || chance(0.5)) logged = chance(0.7); if (runs == 1 || chance(0.5)) flip = logged && chance(0.5); st.f.mode = logged ? (chance(0.15) ? 2 : 0) : 3; if (logged && !flip) for (auto &r : st.f.a) for (double &x : r) x = -x; if (!logged) st.f.offset = fabs(st.f.offset) / 10;
    if (!logged && chance(0.1)) { st.f.mode = 2; st.f.offset = 0; }
    mc->SetTestStatLogged(logged); mc->SetFlipSign(flip); unsigned iter = (unsigned)(1 + choose(chance(0.1) ? 2 : 80)); mc->SetMaxIter(iter);
    if (runs == 1 || chance(0.5)) { burn = (unsigned)choose(chance(0.1) ? 100 : 12); mc->SetBurnIn(burn); thin = 1 + (unsigned)choose(4); mc->SetThinFactor(thin); }
    if (runs == 1 || chance(0.3)) { full = chance(0.4); mc->SetSaveFullHistogram(full); } if (runs == 1 || chance(0.3)) { saveChain = chance(0.5); mc->SetSaveChain(saveChain); }
    mc->SetMinima(lo); mc->SetMaxima(hi); bool given = chance(0.5); mc->SetInitialTrial(given ? init : ParameterDict());
    AxisCollection ax; bool ownAxes = chance(0.4); if (ownAxes) for (auto &p : lo) ax.AddAxis(BinAxis(p.first, p.second, hi[p.first] + 0.125, 1 + choose(6))); mc->SetHistogramAxes(ax);
    int kind = (int)weighted({4, 4, 2}); jumps.lo = lo; jumps.hi = hi; jumps.reach = range(1, 8) / 8.; jumps.corrects = logged && chance(0.5); std::unique_ptr<MCSampler> hmc; typedef HMCEnergy<Stat> Energy; Stat inner; inner.f = st.f; if (logged) { inner.f.mode = 0; for (auto &r : inner.f.a) for (double &x : r) x = flip ? -fabs(x) / 8 : x; }
    Energy en(inner); if (kind == 2 && logged) { HamiltonianSampler<Energy> *h = new HamiltonianSampler<Energy>(en, range(1, 8) / 32., 1 + (int)choose(5)); ParameterDict m; for (auto &s : st.f.names) m[s] = range(1, 16) / 8.; h->SetMasses(m); if (chance(0.7)) { h->SetMinima(lo); h->SetMaxima(hi); } hmc.reset(h); }
    met.SetSigmas(sig); spy.in = hmc ? hmc.get() : kind == 1 ? (MCSampler *)&met : &jumps; state(mix(mix(n, kind * 8 + full * 4 + saveChain * 2 + given), mix(logged * 2 + flip, mix(runs, ownAxes)))); ev("chain of %u steps, %zu parameters", iter, n);
    std::string why; const FitResult *fr = 0; auto run = [&] { fr = &mc->Optimise(&st); }; std::vector<RngRecord> tr; rngTrace = &tr; spy.steps.clear();
    if (chance(0.1)) { ParameterDict x = lo; bool swap = chance(0.4); const std::string &who = st.f.names[choose(st.f.names.size())]; if (swap || chance(0.5)) x.erase(who); if (swap || x.size() == lo.size()) x[chance(0.5) ? "other" : who + "2"] = 1; size_t which = choose(3); if (x.empty()) x["other"] = 1; if (which == 0) mc->SetMinima(x); else if (which == 1) mc->SetMaxima(x); else mc->SetInitialTrial(x); check(attempt(run, &why) != OK, "mismatch-accepted", "limits of different parameters"); probe("mismatch-refused"); check(!rngTrace || rngTrace->empty(), "mismatch-accepted", "random numbers were drawn"); mc->SetMinima(lo); mc->SetMaxima(hi); mc->SetInitialTrial(given ? init : ParameterDict()); }
    if (chance(0.25))
    {
      Out o; bool fired; size_t how = choose(3); if (how == 0) { st.countdown = (long)choose(iter); o = attempt(run, &why); fired = st.countdown < 0; st.countdown = -1; } else if (how == 1) { spy.countdown = (long)choose(iter); o = attempt(run, &why); fired = spy.countdown < 0; spy.countdown = -1; }
      else { AllocFault af(1 + choose(400), chance(0.3)); o = attempt(run, &why); fired = af.fired(); }
      check(fired || o == OK, "chain-failed", why); if (fired) probe("chain-interrupted");
    }
    tr.clear(); spy.steps.clear(); Out o = attempt(run, &why); rngTrace = 0; check(o == OK, "chain-failed", why); check(spy.steps.size() == iter, "wrong-number-of-steps", fmt("%zu instead of %u", spy.steps.size(), iter));
    // replay the chain
    auto value = [&](const ParameterDict &p) { double v = st.f(p); return flip ? -v : v; };
    ParameterDict cur = spy.steps[0].cur; if (given) check(cur == init, "initial-trial-ignored", "started at" + show(cur) + " instead of" + show(init));
    else
    {
      check(cur.size() == n, "start-incomplete", show(cur)); Doubles us; for (size_t i = 0; i < spy.steps[0].rng0; i++) if (tr[i].kind == 'U') us.push_back(tr[i].v); check(us.size() == n, "start-not-random", fmt("%zu random numbers for %zu parameters", us.size(), n));
      for (auto &p : cur) { double w = hi[p.first] - lo[p.first]; if (w == 0) { check(p.second == lo[p.first], "start-outside", show(cur)); continue; } double u = (p.second - lo[p.first]) / w; bool found = false; for (size_t i = 0; i < us.size() && !found; i++) if (fabs(us[i] - u) < 1e-6 || fabs(1 - us[i] - u) < 1e-6) { us.erase(us.begin() + i); found = true; } check(found, "start-not-uniform", show(cur)); }
    }
    double best = value(cur); std::vector<ParameterDict> at; Doubles val; std::vector<bool> acc; size_t nacc = 0; bool tie = false; std::vector<ParameterDict> visited(1, cur);
    for (size_t i = 0; i < iter; i++)
    {
      Step &s = spy.steps[i]; check(s.cur == cur, "proposal-from-elsewhere", fmt("step %zu proposes from%s instead of%s", i, show(s.cur).c_str(), show(cur).c_str()));
      bool in = true; for (auto &p : s.prop) if (p.second < lo[p.first] || p.second > hi[p.first]) in = false; size_t end = i + 1 < iter ? spy.steps[i + 1].rng0 : tr.size(); Doubles us; for (size_t k = s.rng1; k < end; k++) if (tr[k].kind == 'U') us.push_back(tr[k].v);
      bool a = false, sure = true; double old = value(cur), nw = in ? value(s.prop) : 0;
      if (in)
      {
        double ratio = logged ? exp(nw - old + s.corr) : nw / old; check(us.size() <= 1, "too-many-random-numbers", fmt("%zu in one step", us.size()));
        if (std::isnan(ratio)) a = false; else if (ratio >= 1) a = true; else if (ratio == 0) a = false; else { check(us.size() == 1, "acceptance-not-random", fmt("step %zu with acceptance probability %g", i, ratio)); a = ratio >= us[0]; sure = fabs(ratio - us[0]) > 1e-9; }
      }
      bool seen = i + 1 < iter && s.prop != cur; if (seen) { bool b = spy.steps[i + 1].cur == s.prop; if (!sure) a = b; check(a == b, "wrong-decision", fmt("step %zu %s accepted", i, b ? "is" : "is not")); }
      if (a) { cur = s.prop; visited.push_back(cur); double v = value(cur); if (std::isnan(best) || v > best) best = v; nacc++; } at.push_back(cur); val.push_back(value(cur)); acc.push_back(a);
      if (!sure) { tie = true; break; }
    }
    if (tie) { probe("near-tie"); continue; }
    // what is reported
    check(mc->GetBurnIn() == burn && mc->GetThinFactor() == thin && mc->GetMaxIter() == iter && mc->GetMinima() == lo && mc->GetMaxima() == hi && mc->GetFlipSign() == flip && mc->GetTestStatLogged() == logged && mc->GetSaveFullHistogram() == full && mc->GetSaveChain() == saveChain && mc->GetInitialTrial() == (given ? init : ParameterDict()) && (mc->GetHistogramAxes() == ax && mc->GetHistogramAxes().GetAxisNames() == ax.GetAxisNames()), "setting-differs", "the chain does not report the settings it was given");
    check(close(mc->GetRejectionRate(), 1 - (double)nacc / iter), "wrong-acceptance-rate", fmt("rejection rate of the chain: %.10g", mc->GetRejectionRate()));
    check(fr->GetValid(), "result-invalid", ""); ParameterDict b = fr->GetBestFit(); double ext = fr->GetExtremeVal(); if (!std::isnan(best)) { check(std::find(visited.begin(), visited.end(), b) != visited.end(), "best-fit-not-visited", show(b)); check(close(value(b), best), "best-fit-not-best", fmt("%.12g at%s but the chain reached %.12g", value(b), show(b).c_str(), best)); check(close(ext, best) || close(-ext, best), "wrong-extreme-value", fmt("%.12g instead of %.12g", ext, best)); }
    const MCMCSamples &sm = mc->GetSamples(); check(close(sm.GetAcceptanceRate(), (double)nacc / iter) && close(sm.GetRejectionRate(), 1 - (double)nacc / iter), "wrong-acceptance-rate", fmt("%.10g instead of %zu of %u", sm.GetAcceptanceRate(), nacc, iter));
    std::vector<ParameterDict> kept; Doubles keptVal; for (size_t i = 0; i < iter; i++) if (i > burn && i % thin == 0) { kept.push_back(at[i]); keptVal.push_back(val[i]); }
    auto compare = [&](const Histogram &h, const std::string &what) { Doubles want(h.GetNBins(), 0.); for (auto &p : kept) { Doubles x; for (auto &nmx : h.GetAxisNames()) x.push_back(p.at(nmx)); want[h.FindBin(x)]++; } Doubles got = h.GetBinContents(); for (size_t k = 0; k < want.size(); k++) check(got[k] == want[k], "samples-differ", fmt("%s bin %zu holds %g samples instead of %g", what.c_str(), k, got[k], want[k])); };
    auto axes = [&](const Histogram &h) { for (auto &nm : h.GetAxisNames()) { const BinAxis &x = h.GetAxes().GetAxis(nm); if (ownAxes) check(x == ax.GetAxis(nm), "axes-differ", nm); else check(x.GetMinimum() == lo[nm] && x.GetMaximum() >= hi[nm], "axes-differ", nm); } };
    if (full) { const Histogram &h = sm.GetHistogram(); Strs an = h.GetAxisNames(); check(std::set<std::string>(an.begin(), an.end()) == st.GetParameterNames() && an.size() == n, "axes-differ", "of the full histogram"); axes(h); compare(h, "full histogram"); }
    else
    {
      auto h1 = sm.Get1DProjections(); auto h2 = sm.Get2DProjections(); check(h1.size() == n && h2.size() == n * (n - 1) / 2, "projections-missing", fmt("%zu and %zu", h1.size(), h2.size())); std::set<std::set<std::string>> pairs;
      for (auto &h : h1) { check(h.second.GetAxisNames() == Strs(1, h.first) && lo.count(h.first), "axes-differ", h.first); axes(h.second); compare(h.second, h.first); } for (auto &h : h2) { Strs a = h.second.GetAxisNames(); check(a.size() == 2 && a[0] != a[1] && h.first == a[0] + "_" + a[1], "axes-differ", h.first); pairs.insert(std::set<std::string>(a.begin(), a.end())); axes(h.second); compare(h.second, h.first); } check(pairs.size() == h2.size(), "projections-missing", "pairs");
    }
    Doubles ac = const_cast<MCMCSamples &>(sm).GetAutoCorrelations(), wantAc = autocorr(keptVal, ac.size()); double spread = 0, mag = 0; for (double v : keptVal) { spread = std::max(spread, fabs(v - keptVal[0])); mag = std::max(mag, fabs(v)); } if (spread > 1e-3 * mag) for (size_t i = 0; i < std::min(ac.size(), keptVal.size()); i++) check(close(ac[i], wantAc[i], 1e-5, 1e-7), "autocorrelation-differs", fmt("lag %zu: %.10g instead of %.10g", i, ac[i], wantAc[i]));
    if (saveChain)
    {
      TTree *t = sm.GetChain(); check(t && t->GetEntries() == (long)iter, "chain-incomplete", fmt("%ld steps", t ? (long)t->GetEntries() : -1L)); auto &br = t->SimBranches(); check(br.size() == 4 + n, "chain-incomplete", "branches"); std::map<std::string, size_t> ix; for (size_t i = 0; i < br.size(); i++) ix[br[i].name] = i;
      for (size_t i = 0; i < iter; i++) { check(br[ix.at("Step")].vals[i] == i && br[ix.at("Accepted")].vals[i] == acc[i] && close(br[ix.at("LogL")].vals[i], val[i]), "chain-differs", fmt("step %zu", i)); for (size_t k = 4; k < br.size(); k++) { std::string key; for (auto &p : at[i]) { std::string a = p.first, c = br[k].name; std::replace(a.begin(), a.end(), '-', '_'); std::replace(c.begin(), c.end(), '-', '_'); if (a == c) key = p.first; } check(!key.empty() && br[k].vals[i] == at[i][key], "chain-differs", fmt("step %zu %s", i, br[k].name.c_str())); } }
      probe("chain-saved");
    }
    probe(hmc ? "hamiltonian" : kind == 1 ? "metropolis" : "scripted"); if (nacc && nacc < iter) nontrivial();
  }
}
void autocorrelations()
{
  Quiet q; size_t len = 1 + choose(8); AutoCorrelationCalc c(len); Doubles v; int steps = 0; std::unique_ptr<AutoCorrelationCalc> keep;
  while (steps < 60 && (steps < 3 || more(0.97)))
  {
    steps++; size_t op = weighted({20, 1, 1}); if (op == 1) { c.Clear(); v.clear(); } else if (op == 2) { keep.reset(new AutoCorrelationCalc(c)); c = *keep; keep->Fill(1e6); } else { double x = range(-80, 80) / 8.; v.push_back(x); c.Fill(x); }
    state(mix(len, std::min<size_t>(v.size(), 20))); Doubles a = c.Get(), w = autocorr(v, len); check(a.size() == len, "autocorrelation-differs", "length"); for (size_t i = 0; i < len; i++) check(close(a[i], w[i], 1e-6, 1e-9), "autocorrelation-differs", fmt("lag %zu: %.10g instead of %.10g", i, a[i], w[i])); if (v.size() > len) nontrivial();
    if (!v.empty()) { double m = 0; size_t first = v.size() > len ? v.size() - len : 0; for (size_t i = first; i < v.size(); i++) m += v[i]; m /= (double)(v.size() - first); check(close(c.Mean(), m, 1e-9, 1e-9), "mean-differs", fmt("%.10g instead of %.10g", c.Mean(), m)); double var = 0; for (size_t i = first; i < v.size(); i++) var += (v[i] - m) * (v[i] - m) / (double)(v.size() - first); check(close(c.Var(), var, 1e-9, 1e-9), "variance-differs", fmt("%.10g instead of %.10g", c.Var(), var)); }
  }
}

// ------------------------------------------------------------------------------------------ proposals
void metropolis()
{
  Quiet q; seedRng(); MetropolisSampler s; Strs nm = paramNames(1 + choose(4)); std::set<std::string> fixedPars; ParameterDict sig; auto newSigmas = [&] { sig.clear(); std::set<int> used; for (auto &n : nm) { int k; do k = range(1, 64); while (!used.insert(k).second); sig[n] = k / 16.; } s.SetSigmas(sig); }; newSigmas(); int steps = 0; ParameterDict cur; for (auto &n : nm) cur[n] = range(-40, 40) / 8.;
  while (steps < 20 && (steps < 3 || more(0.9)))
  {
    steps++; size_t op = weighted({6, 2, 2, 1, 1}); ev("op %zu", op); state(mix(op, mix(nm.size(), fixedPars.size())));
    if (op == 1) { std::string n = pick(nm); s.Fix(n); fixedPars.insert(n); continue; } if (op == 2) { std::string n = pick(nm); s.Release(n); fixedPars.erase(n); continue; } if (op == 3) { newSigmas(); check(s.GetSigmas() == sig, "sigmas-differ", ""); continue; }
    std::vector<RngRecord> tr; rngTrace = &tr; ParameterDict r, from = cur; std::string why;
    if (op == 4) { std::string n = pick(nm); ParameterDict x = sig; x.erase(n); s.SetSigmas(x); Out o = attempt([&] { r = s.Draw(cur); }, &why); rngTrace = 0; check((o == OK) == (fixedPars.count(n) > 0), "missing-width-accepted", n); s.SetSigmas(sig); fault("width-missing"); continue; }
    Out o = attempt([&] { r = s.Draw(cur); }, &why); rngTrace = 0; check(o == OK, "draw-failed", why); check(cur == from && r.size() == cur.size(), "proposal-incomplete", show(r)); size_t nf = 0;
    for (auto &p : cur)
    {
      check(r.count(p.first) == 1, "proposal-incomplete", p.first); if (fixedPars.count(p.first)) { check(sameBits(r[p.first], p.second), "fixed-parameter-moved", p.first); continue; }
      nf++; bool found = false; for (auto &t : tr) if (t.kind == 'G') { double z = t.b ? (t.v - t.a) / t.b : 0; if (close(r[p.first], p.second + sig[p.first] * z, 1e-9, 1e-9)) found = true; } check(found, "wrong-step", fmt("%s from %.10g to %.10g with width %g", p.first.c_str(), p.second, r[p.first], sig[p.first]));
    }
    size_t g = 0; for (auto &t : tr) if (t.kind == 'G') g++; check(g >= nf, "steps-share-a-random-number", fmt("%zu for %zu parameters", g, nf)); check(s.CorrectAccParam() == 0, "wrong-correction", ""); if (nf && !fixedPars.empty()) nontrivial(); if (chance(0.7)) cur = r;
  }
}
struct Traj { Doubles q, p; std::vector<int> bounces; bool delicate; };
// the reference trajectory: kick, drift with mirrors, kick
Traj reference(const Fn &f, Doubles q, Doubles p, const Doubles &m, double eps, int n, bool walls, const Doubles &lo, const Doubles &hi, bool fused)
{
  Traj t; t.delicate = false; t.bounces.assign(q.size(), 0); (void)fused;
  for (int s = 0; s < n; s++)
  {
    Doubles g = f.grad(q); for (size_t i = 0; i < q.size(); i++) p[i] -= eps / 2 * g[i];
    for (size_t i = 0; i < q.size(); i++)
    {
      q[i] += eps * p[i] / m[i]; if (!walls) continue; int guard = 0;
      while ((q[i] < lo[i] || q[i] > hi[i]) && guard++ < 1000) { q[i] = q[i] < lo[i] ? 2 * lo[i] - q[i] : 2 * hi[i] - q[i]; p[i] = -p[i]; t.bounces[i]++; }
      if (std::min(fabs(q[i] - lo[i]), fabs(q[i] - hi[i])) < 1e-7) t.delicate = true;
    }
    g = f.grad(q); for (size_t i = 0; i < q.size(); i++) p[i] -= eps / 2 * g[i];
  }
  t.q = q; t.p = p; return t;
}
struct GradFn { const Fn *f; ParameterDict operator()(const ParameterDict &x) { Doubles v; for (auto &n : f->names) v.push_back(x.at(n)); Doubles g = f->grad(v); ParameterDict r; for (size_t i = 0; i < v.size(); i++) r[f->names[i]] = g[i]; return r; } };
ParameterDict dict(const Strs &n, const Doubles &v) { ParameterDict d; for (size_t i = 0; i < n.size(); i++) d[n[i]] = v[i]; return d; }
void leapfrog()
{
  Quiet q; Strs nm = paramNames(1 + choose(3)); size_t n = nm.size(); Fn f = quadratic(nm, chance(0.3) ? 0 : 0.5); GradFn g = {&f}; bool walls = chance(0.7), single = !walls && chance(0.3); double eps = range(1, 32) / 64.; int ns = single ? 1 : 1 + (int)choose(12);
  Doubles lo(n), hi(n), m(n), x(n), p(n); for (size_t i = 0; i < n; i++) { lo[i] = f.centre[i] - range(1, 32) / 16.; hi[i] = f.centre[i] + range(1, 32) / 16.; m[i] = range(1, 32) / 8.; size_t k = choose(18); x[i] = k == 16 ? lo[i] : k == 17 ? hi[i] : lo[i] + (hi[i] - lo[i]) * (2 * k + 1) / 32.; p[i] = range(-64, 64) / 16. + 0.0123; }
  ParameterDict Q = dict(nm, x), P = dict(nm, p), M = dict(nm, m), L = dict(nm, lo), H = dict(nm, hi); auto go = [&] { if (walls) LeapFrog::Hamiltonian(Q, P, M, eps, g, ns, L, H); else if (single) LeapFrog::Hamiltonian(Q, P, M, eps, g); else LeapFrog::Hamiltonian(Q, P, M, eps, g, ns); };
  go(); Traj t = reference(f, x, p, m, eps, ns, walls, lo, hi, !walls); int b = 0; for (int k : t.bounces) b += k; state(mix(mix(n, ns), mix(walls, std::min(b, 6)))); ev("%d steps, %d bounces", ns, b); double mag = 1; for (size_t i = 0; i < n; i++) mag += fabs(t.q[i]) + fabs(t.p[i]);
  if (walls) for (size_t i = 0; i < n; i++) check(Q[nm[i]] >= lo[i] - 1e-9 && Q[nm[i]] <= hi[i] + 1e-9, "outside-the-walls", fmt("%s=%.10g, walls at %g and %g", nm[i].c_str(), Q[nm[i]], lo[i], hi[i])); if (t.delicate) { probe("ends-on-a-wall"); return; } if (b) probe("bounces", b);
  for (size_t i = 0; i < n; i++) check(close(Q[nm[i]], t.q[i], 1e-6, 1e-7 * mag) && close(P[nm[i]], t.p[i], 1e-6, 1e-7 * mag), "trajectory-differs", fmt("%s: position %.10g instead of %.10g, momentum %.10g instead of %.10g", nm[i].c_str(), Q[nm[i]], t.q[i], P[nm[i]], t.p[i])); if (b || !walls) nontrivial();
  ParameterDict Q1 = Q, P1 = P; for (auto &k : P) k.second = -k.second; go(); for (size_t i = 0; i < n; i++) check(close(Q[nm[i]], x[i], 1e-5, 1e-6 * mag) && (close(-P[nm[i]], p[i], 1e-5, 1e-6 * mag) || x[i] == lo[i] || x[i] == hi[i]), "not-reversible", fmt("%s: back at %.10g instead of %.10g", nm[i].c_str(), Q[nm[i]], x[i]));
}
void hamiltonian()
{
  Quiet q; seedRng(); rngMode = RNG_SEEDED; Strs nm = paramNames(1 + choose(3)); size_t n = nm.size(); Stat st; st.f = quadratic(nm, 0.25); bool viaEnergy = chance(0.5); Fn u = st.f; Stat neg; neg.f = u; for (auto &r : neg.f.a) for (double &x : r) x = -x; neg.f.offset = -neg.f.offset; // log-likelihood -U
  HMCEnergy<Stat> en(neg); double eps = range(2, 24) / 64.; int ns = 1 + (int)choose(8); HamiltonianSampler<HMCEnergy<Stat>> h1(en, eps, ns); HamiltonianSampler<Stat> h2(st, eps, ns); Stat &s = viaEnergy ? neg : st; Doubles m(n, 1.), lo, hi, x; bool walls = false, masses = false; int steps = 0; for (size_t i = 0; i < n; i++) { lo.push_back(u.centre[i] - range(4, 32) / 16.); hi.push_back(u.centre[i] + range(4, 32) / 16.); x.push_back(lo[i] + (hi[i] - lo[i]) * range(1, 15) / 16. + 0.0011); }
  auto draw = [&](const ParameterDict &c) { return viaEnergy ? h1.Draw(c) : h2.Draw(c); };
  while (steps < 12 && (steps < 3 || more(0.85)))
  {
    steps++; size_t op = weighted({6, 1, 1, 1}); state(mix(mix(op, n), mix(walls * 2 + masses, viaEnergy * 16 + ns))); ev("op %zu", op);
    if (op == 1) { std::set<int> used; for (double &k : m) { int z; do z = range(1, 32); while (!used.insert(z).second); k = z / 8.; } ParameterDict M = dict(nm, m); if (viaEnergy) h1.SetMasses(M); else h2.SetMasses(M); check((viaEnergy ? h1.GetMasses() : h2.GetMasses()) == M, "masses-differ", ""); masses = true; continue; }
    if (op == 2) { walls = chance(0.7); ParameterDict L = walls ? dict(nm, lo) : ParameterDict(), H = walls ? dict(nm, hi) : ParameterDict(); if (viaEnergy) { h1.SetMinima(L); h1.SetMaxima(H); check(h1.GetMinima() == L && h1.GetMaxima() == H, "limits-differ", ""); } else { h2.SetMinima(L); h2.SetMaxima(H); check(h2.GetMinima() == L && h2.GetMaxima() == H, "limits-differ", ""); } if (walls) for (size_t i = 0; i < n; i++) if (x[i] <= lo[i] || x[i] >= hi[i]) x[i] = lo[i] + (hi[i] - lo[i]) * range(1, 15) / 16. + 0.0011; continue; }
    ParameterDict cur = dict(nm, x), from = cur, r; std::string why;
    if (op == 3) { s.countdown = (long)choose(2 * n * (ns + 1)); Out o = attempt([&] { draw(cur); }, &why); bool fired = s.countdown < 0; s.countdown = -1; check((o == OK) == !fired, "failure-lost", why); continue; }
    std::vector<RngRecord> tr; rngTrace = &tr; Out o = attempt([&] { r = draw(cur); }, &why); rngTrace = 0; check(o == OK && cur == from && r.size() == n, "draw-failed", why); std::vector<size_t> gi; for (size_t i = 0; i < tr.size(); i++) if (tr[i].kind == 'G') gi.push_back(i); check(gi.size() == n, "momenta-not-drawn", fmt("%zu momenta for %zu parameters", gi.size(), n));
    // which number became whose momentum: any assignment with the right widths may explain the step
    std::vector<size_t> perm(n); for (size_t i = 0; i < n; i++) perm[i] = i; bool ok = false, delicate = false; double corr = viaEnergy ? h1.CorrectAccParam() : h2.CorrectAccParam(); Doubles end;
    do
    {
      Doubles p(n), p0; double k0 = 0, k1 = 0; bool fits = true; for (size_t i = 0; i < n; i++) { const RngRecord &t = tr[gi[perm[i]]]; double z = (t.v - t.a) / t.b; p[i] = sqrt(m[i]) * z; if (t.a != 0 || !(close(t.b, sqrt(m[i])) || t.b == 1)) fits = false; k0 += p[i] * p[i] / 2 / m[i]; } if (!fits) continue;
      Traj t = reference(u, x, p, m, eps, ns, walls, lo, hi, !walls); if (t.delicate) { delicate = true; continue; } for (size_t i = 0; i < n; i++) k1 += t.p[i] * t.p[i] / 2 / m[i]; bool same = close(corr, k0 - k1, 1e-4, 1e-4 * (1 + k0)); for (size_t i = 0; i < n; i++) same = same && close(r[nm[i]], t.q[i], 1e-5, 1e-5); if (same) ok = true;
    } while (std::next_permutation(perm.begin(), perm.end()));
    check(ok || delicate, "wrong-proposal", "from" + show(cur) + " to" + show(r)); if (walls) for (size_t i = 0; i < n; i++) check(r[nm[i]] >= lo[i] - 1e-9 && r[nm[i]] <= hi[i] + 1e-9, "outside-the-walls", show(r)); nontrivial(); for (size_t i = 0; i < n; i++) x[i] = r[nm[i]];
    if (!walls) for (size_t i = 0; i < n; i++) if (fabs(x[i]) > 1e4) x[i] = 0.1;
  }
}
void boundary()
{
  Quiet q; Strs nm = paramNames(1 + choose(3)); Stat st; st.f = quadratic(nm, 0.5); double mu = range(1, 40); ParameterDict L, H; for (auto &n : nm) { L[n] = range(-16, 0) / 8.; H[n] = range(1, 16) / 8.; } HMCEnergy<Stat> en(st); SigmoidBoundary<HMCEnergy<Stat>> b(en, L, H, mu); check(b.GetParameterNames() == st.GetParameterNames() && en.GetParameterNames() == st.GetParameterNames(), "names-differ", "");
  int steps = 0; while (steps < 8 && (steps < 2 || more(0.8))) { steps++; ParameterDict x; double want = 0; for (auto &n : nm) x[n] = range(-24, 24) / 8.; b.SetParameters(x); for (auto &n : nm) { want += log1p(exp(-mu * (x[n] - L[n]))) + log1p(exp(mu * (x[n] - H[n]))); } want -= st.f(x); std::string why; double v = 0; if (chance(0.3)) { st.countdown = 0; check(attempt([&] { b.Evaluate(); }, &why) == ERR, "failure-lost", ""); } v = b.Evaluate(); check(close(v, want), "energy-differs", fmt("%.12g instead of %.12g", v, want)); check(close(en.Evaluate(), -st.f(x)), "energy-differs", ""); state(mix(nm.size(), steps)); nontrivial(); }
}
}
SIM_WORKLOAD("O01", grid_search, 10, "") { gridSearch(); }
SIM_WORKLOAD("M01", chain, 10, "") { chains(); }
SIM_WORKLOAD("M01", autocorrelation, 2, "") { autocorrelations(); }
SIM_WORKLOAD("M02", metropolis_steps, 4, "") { metropolis(); }
SIM_WORKLOAD("M02", leapfrog_trajectories, 6, "") { leapfrog(); }
SIM_WORKLOAD("M02", hamiltonian_steps, 6, "") { hamiltonian(); }
SIM_WORKLOAD("M02", soft_walls, 1, "") { boundary(); }
