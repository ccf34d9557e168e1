// Fake data: event sampling (G01 without replacement, G02 rates, cuts, replacement) and binned sampling (G03).
#include "common.h"
#include <DataSetGenerator.h>
#include <BinnedEDGenerator.h>
#include <BinnedED.h>
#include <BoxCut.h>
#include <LineCut.h>
#include <Rand.h>
using namespace work;
using namespace sim;
namespace
{
struct Src : public DataSet
{
  OXSXDataSet d; mutable long left; size_t n; Strs nm;
  Src() : left(-1), n(0) {}
  Event GetEntry(size_t i) const { if (left == 0) { fault("source-error"); throw IOError("simulated: source unreadable"); } if (left > 0) left--; return d.GetEntry(i); }
  unsigned GetNEntries() const { return n; }
  std::vector<std::string> GetObservableNames() const { return nm; }
  unsigned GetNObservables() const { return 2; }
};
// event value 0 identifies source and index, value 1 is what cuts look at
void build(Src &s, size_t id, size_t n) { s.nm = Strs({"id", "x"}); s.d.SetObservableNames(s.nm); s.n = n; for (size_t i = 0; i < n; i++) { Doubles r(2); r[0] = id * 10000. + i; r[1] = range(-8, 8) / 4.; s.d.AddEntry(Event(r)); } }
void seed() { rngMode = chance(0.4) ? RNG_EXTREME : RNG_SEEDED; Rand::SetSeed(1 + choose(1000000)); }
struct Pool { std::set<size_t> left; bool whole; };
}
// Histories over one generator with several sources; every draw is checked against the pools of events that remain.
static void genHistory(bool onlyNoReplacement)
{
  Quiet q; seed(); size_t ns = 1 + choose(3); std::vector<std::unique_ptr<Src>> src; DataSetGenerator gen; std::vector<Pool> pool(ns); Doubles rates; std::vector<bool> boot, seqf, inOrder(ns, true); bool viaAdd = chance(0.4), flagsSet = true;
  for (size_t i = 0; i < ns; i++)
  {
    src.emplace_back(new Src); build(*src[i], i, chance(0.1) ? choose(2) : 1 + choose(chance(0.2) ? 60 : 8)); for (size_t k = 0; k < src[i]->n; k++) pool[i].left.insert(k);
    rates.push_back(0); boot.push_back(!onlyNoReplacement && chance(0.4)); seqf.push_back(chance(0.5));
  }
  auto newRates = [&]() { for (size_t i = 0; i < ns; i++) { double left = pool[i].left.size(); rates[i] = boot[i] ? range(0, 40) / 4. : chance(0.1) ? left + range(0, 3) : range(0, (int)(4 * left)) / 4.; if (boot[i] && !src[i]->n) rates[i] = 0; } };
  newRates();
  if (viaAdd) for (size_t i = 0; i < ns; i++) gen.AddDataSet(src[i].get(), rates[i], seqf[i]);
  else { std::vector<DataSet *> v; for (auto &s : src) v.push_back(s.get()); gen.SetDataSets(v); gen.SetExpectedRates(rates); gen.SetSequentialFlags(seqf); }
  gen.SetBootstrap(boot); bool viaAddRates = viaAdd; (void)viaAddRates; (void)flagsSet;
  std::vector<std::pair<double, double>> cuts; // lower < x < upper
  auto passes = [&](double x) { for (auto &c : cuts) if (!(x > c.first && x < c.second)) return false; return true; };
  int steps = 0; bool drew = false; size_t total = 0;
  while (steps < 30 && (steps < 3 || more(0.9)))
  {
    steps++; size_t op = weighted({6, 4, 2, 3, 1, 1, 2, 1, 1});
    if (op == 0 || op == 1)
    {
      for (auto &s : src) s->left = chance(0.06) ? (long)choose(6) : -1;
      std::vector<RngRecord> tr; rngTrace = &tr; std::vector<int> taken; bool ask = chance(0.6); taken.push_back(-5); std::unique_ptr<OXSXDataSet> drawn(new OXSXDataSet); std::string why;
      std::unique_ptr<AllocFault> af; if (chance(0.08)) af.reset(new AllocFault(1 + choose(40)));
      Out o = attempt([&] { drawn.reset(op == 0 ? new OXSXDataSet(gen.ExpectedRatesDataSet(ask ? &taken : 0)) : new OXSXDataSet(gen.PoissonFluctuatedDataSet(ask ? &taken : 0))); }, &why);
      bool nomem = af && af->fired(); af.reset(); OXSXDataSet &out = *drawn; rngTrace = 0; bool broke = false; for (auto &s : src) broke = broke || s->left == 0; for (auto &s : src) s->left = -1;
      // how many events were asked for
      std::vector<long> want; if (op == 0) for (double r : rates) want.push_back((long)round(r)); else { for (auto &t : tr) if (t.kind == 'P') { check(want.size() < ns && t.a == rates[want.size()], "wrong-rate", fmt("a Poisson number of mean %g was drawn", t.a)); want.push_back((long)t.v); } }
      bool tooMany = false; for (size_t i = 0; i < want.size() && i < ns; i++) if (!boot[i] && (size_t)want[i] > pool[i].left.size()) tooMany = true; else if (boot[i] && pool[i].left.empty()) tooMany = true; // nothing to draw from
      bool emptySrc = false; for (auto &s : src) emptySrc = emptySrc || !s->n;
      ev("%s -> %d", op ? "poisson" : "expected", o);
      if (o == OK)
      {
        check(!tooMany || emptySrc, "drew-more-than-there-is", "more events were asked for than remain, and no error was raised");
        check(want.size() == ns, "wrong-rate", fmt("%zu numbers of events for %zu sources", want.size(), ns));
        if (ask) { check(taken.size() == ns, "events-taken-wrong", fmt("%zu entries for %zu sources", taken.size(), ns)); for (size_t i = 0; i < ns; i++) check(taken[i] == want[i], "events-taken-wrong", fmt("source %zu: %d instead of %ld", i, taken[i], want[i])); }
        check(out.GetNEntries() == 0 || out.GetObservableNames() == src[0]->nm, "names-lost", "observable names");
        std::vector<std::vector<size_t>> got(ns), next(ns); size_t prev = 0;
        for (size_t i = 0; i < ns; i++) if (!boot[i] && seqf[i] && inOrder[i]) { long k = 0; for (size_t j : pool[i].left) { if (k++ >= want[i]) break; if (passes(src[i]->d.GetEntry(j).GetDatum(1))) next[i].push_back(j); } }
        for (size_t k = 0; k < out.GetNEntries(); k++)
        {
          Event e = out.GetEntry(k); double id = e.GetDatum("id"); size_t i = (size_t)(id / 10000), j = (size_t)(id - 10000. * i);
          check(i < ns && j < src[i]->n && id == 10000. * i + j && e.GetDatum("x") == src[i]->d.GetEntry(j).GetDatum(1), "event-not-from-source", fmt("value %g", id));
          check(i >= prev, "sources-mixed-up", "events of one source are not together"); prev = i; got[i].push_back(j);
          check(passes(e.GetDatum("x")), "cut-not-applied", fmt("x = %g", e.GetDatum("x")));
        }
        for (size_t i = 0; i < ns; i++)
        {
          total += want[i];
          if (boot[i])
          {
            if (cuts.empty()) check((long)got[i].size() == want[i], "wrong-number-of-events", fmt("source %zu gave %zu events instead of %ld", i, got[i].size(), want[i])); else check((long)got[i].size() <= want[i], "wrong-number-of-events", "more than asked for");
            if (cuts.size()) { bool all = true; for (size_t k = 0; k < src[i]->n; k++) all = all && passes(src[i]->d.GetEntry(k).GetDatum(1)); if (all) check((long)got[i].size() == want[i], "wrong-number-of-events", "every event passes"); }
            continue;
          }
          drew = drew || want[i];
          for (size_t j : got[i]) { check(pool[i].left.count(j), "event-drawn-twice", fmt("event %zu of source %zu", j, i)); pool[i].left.erase(j); }
          if (seqf[i] && inOrder[i]) check(got[i] == next[i], "not-in-sequence", fmt("source %zu: a sequential draw of %ld did not give the next events", i, want[i])); else if (want[i]) inOrder[i] = false;
          // what was drawn but cut away is known only from what remains
          int n = -7; OXSXDataSet *rest = 0; Out ro = attempt([&] { rest = gen.AllRemainingEvents(i, &n); }, &why); check(ro == OK, "remaining-events-failed", why); std::unique_ptr<OXSXDataSet> hold(rest);
          std::set<size_t> now; for (size_t k = 0; k < rest->GetNEntries(); k++) { size_t j = (size_t)(rest->GetEntry(k).GetDatum(0) - 10000. * i); check(!inOrder[i] || !now.size() || j > *now.rbegin(), "not-in-sequence", "remaining events"); check(pool[i].left.count(j) && now.insert(j).second, "remaining-events-wrong", fmt("event %zu of source %zu remains although it was drawn", j, i)); }
          check(n == (int)rest->GetNEntries(), "events-taken-wrong", fmt("%d reported, %u remaining events returned", n, rest->GetNEntries()));
          size_t cutAway = want[i] - got[i].size(); check(now.size() + cutAway == pool[i].left.size(), "events-lost", fmt("source %zu: %ld drawn of which %zu passed, %zu of %zu remain", i, want[i], got[i].size(), now.size(), pool[i].left.size()));
          for (size_t j : pool[i].left) if (!now.count(j)) check(!passes(src[i]->d.GetEntry(j).GetDatum(1)), "events-lost", fmt("event %zu of source %zu passes the cuts and vanished", j, i));
          pool[i].left = now;
        }
      }
      else
      {
        check(tooMany || nomem || broke || emptySrc, "draw-failed-without-fault", why);
        for (size_t i = 0; i < ns; i++) if (!boot[i] && !seqf[i]) inOrder[i] = false;
        // a draw that failed handed out nothing: everything is still there, once
        for (size_t i = 0; i < ns; i++) { int n; OXSXDataSet *rest = 0; check(attempt([&] { rest = gen.AllRemainingEvents(i, &n); }, &why) == OK, "remaining-events-failed", why); std::set<size_t> now; for (size_t k = 0; k < rest->GetNEntries(); k++) { size_t j = (size_t)(rest->GetEntry(k).GetDatum(0) - 10000. * i); check(pool[i].left.count(j) && now.insert(j).second, "remaining-events-wrong", fmt("after a failed draw event %zu of source %zu", j, i)); }
          delete rest; check(now.size() == pool[i].left.size(), "events-lost", fmt("a failed draw lost %zu events", pool[i].left.size() - now.size())); pool[i].left = now; }
      }
    }
    else if (op == 2) {
      size_t how = weighted({3, 2, 2}); inOrder.assign(ns, true); std::vector<DataSet *> v; for (auto &s : src) v.push_back(s.get());
      if (how == 0) gen.Reset(); else if (how == 1) gen.SetDataSets(v); else { gen.ClearDataSets(); check(!gen.GetSequentialFlags().size(), "flags-kept", "sequential flags after ClearDataSets"); if (chance(0.5)) { std::string why; check(attempt([&] { gen.ExpectedRatesDataSet(); }, &why) == ERR, "drew-from-nothing", "no data sets"); } for (size_t i = 0; i < ns; i++) gen.AddDataSet(v[i], rates[i], seqf[i]); }
      for (size_t i = 0; i < ns; i++) for (size_t k = 0; k < src[i]->n; k++) pool[i].left.insert(k); ev("reset %zu", how);
    }
    else if (op == 3 && !viaAdd) { newRates(); gen.SetExpectedRates(rates); ev("rates"); }
    else if (op == 3) { newRates(); gen.SetExpectedRates(rates); ev("rates"); }
    else if (op == 4) { for (size_t i = 0; i < ns; i++) seqf[i] = chance(0.5); gen.SetSequentialFlags(seqf); check(gen.GetSequentialFlags() == seqf, "flags-differ", "sequential flags"); ev("flags"); }
    else if (op == 5 && cuts.size() < 2) { double lo = range(-12, 0) / 4., hi = range(1, 12) / 4.; if (chance(0.3)) { CutCollection cc; cuts.clear(); cc.AddCut(BoxCut("only", "x", lo, hi)); gen.SetCuts(cc); } else gen.AddCut(BoxCut(id("c", cuts.size()), "x", lo, hi)); cuts.push_back(std::make_pair(lo, hi)); ev("cut"); }
    else if (op == 6)
    {
      std::vector<int> taken(1, -3); bool ask = chance(0.5); OXSXDataSet all = gen.AllValidEvents(ask ? &taken : 0); if (ask) { check(taken.size() == ns, "events-taken-wrong", "all events"); for (size_t i = 0; i < ns; i++) check(taken[i] == (int)src[i]->n, "events-taken-wrong", fmt("all %zu events of source %zu: %d", src[i]->n, i, taken[i])); } size_t k = 0, n = 0; ev("all");
      for (size_t i = 0; i < ns; i++) for (size_t j = 0; j < src[i]->n; j++) { double id = 10000. * i + j; n += passes(src[i]->d.GetEntry(j).GetDatum(1)); if (k < all.GetNEntries() && all.GetEntry(k).GetDatum(0) == id) k++; else check(!passes(src[i]->d.GetEntry(j).GetDatum(1)), "valid-event-missing", fmt("event %zu of source %zu", j, i)); }
      check(k == all.GetNEntries(), "valid-event-extra", fmt("%u events, %zu of them known", all.GetNEntries(), k));
    }
    else if (op == 7 && !onlyNoReplacement) { for (size_t i = 0; i < ns; i++) boot[i] = chance(0.4); gen.SetBootstrap(boot); check(gen.GetBootstrap() == boot, "flags-differ", "replacement flags"); newRates(); gen.SetExpectedRates(rates); ev("replacement"); }
    else if (op == 8 && ns < 5)
    { // another source: what was drawn from the others stays drawn
      src.emplace_back(new Src); Src &x = *src.back(); build(x, ns, 1 + choose(8)); pool.emplace_back(); for (size_t k = 0; k < x.n; k++) pool.back().left.insert(k); boot.push_back(!onlyNoReplacement && chance(0.4)); seqf.push_back(chance(0.5)); inOrder.push_back(true); rates.push_back(range(0, 4 * (int)x.n) / 4.); gen.AddDataSet(&x, rates.back(), seqf.back()); ns++; probe("source-added"); ev("source");
      if (chance(0.5)) { std::string why; size_t k = 0; for (size_t i = 0; i + 1 < ns; i++) k += (size_t)round(rates[i]); check(attempt([&] { gen.ExpectedRatesDataSet(); }, &why) == ERR, "unusable-setting-accepted", "no replacement flag for the added source"); if (k) for (size_t i = 0; i + 1 < ns; i++) if (!boot[i] && !seqf[i]) inOrder[i] = false; } gen.SetBootstrap(boot);
    }
    uint64_t h = op; for (size_t i = 0; i < ns; i++) h = mix(h, std::min<size_t>(pool[i].left.size(), 10)); state(h);
  }
  if ((drew || !onlyNoReplacement) && total > 1) nontrivial();
}
SIM_WORKLOAD("G01", draw_without_replacement, 10, "") { genHistory(true); }
SIM_WORKLOAD("G02", draw_mixed, 10, "") { genHistory(false); }

SIM_WORKLOAD("G02", generator_refusals, 1, "")
{
  Quiet q; seed(); size_t ns = 1 + choose(3); std::vector<std::unique_ptr<Src>> src; std::vector<DataSet *> v; DataSetGenerator gen; std::string why; size_t wrong = choose(5);
  for (size_t i = 0; i < ns; i++) { src.emplace_back(new Src); build(*src[i], i, 2 + choose(4)); v.push_back(src[i].get()); }
  if (wrong != 0) gen.SetDataSets(v);
  gen.SetExpectedRates(Doubles(wrong == 1 ? ns + (chance(0.5) ? 1 : -1) : wrong == 0 ? 0 : ns, 1)); if (wrong != 2) gen.SetBootstrap(std::vector<bool>(ns, false)); else if (chance(0.5)) gen.SetBootstrap(std::vector<bool>(ns - 1, false)); if (wrong != 3) gen.SetSequentialFlags(std::vector<bool>(ns, chance(0.5)));
  bool po = chance(0.5); OXSXDataSet d; Out o = attempt([&] { d = po ? gen.PoissonFluctuatedDataSet() : gen.ExpectedRatesDataSet(); }, &why); ev("refusal %zu -> %d", wrong, o);
  check(wrong == 4 ? (o == OK || po) : o == ERR, "unusable-setting-accepted", fmt("case %zu: %s", wrong, why.c_str())); state(mix(wrong, ns)); nontrivial();
}
// Every event is equally likely: counts over many draws stay within eight standard deviations.
static void fair(bool boot)
{
  Quiet q; rngMode = RNG_SEEDED; Rand::SetSeed(1 + choose(1000000)); size_t n = 2 + choose(6); Src s; build(s, 0, n); DataSetGenerator g; std::vector<DataSet *> v(1, &s); g.SetDataSets(v); size_t k = boot ? 2 * n : 1 + choose(n - 1); g.SetExpectedRates(Doubles(1, k));
  g.SetBootstrap(std::vector<bool>(1, boot)); g.SetSequentialFlags(std::vector<bool>(1, false)); std::vector<double> c(n, 0); size_t T = 1500;
  for (size_t t = 0; t < T; t++) { OXSXDataSet d = g.ExpectedRatesDataSet(); for (size_t i = 0; i < d.GetNEntries(); i++) c[(size_t)d.GetEntry(i).GetDatum(0)]++; if (!boot) g.Reset(); }
  double p = boot ? 1. / n : (double)k / n, N = boot ? (double)T * k : T, sd = sqrt(N * p * (1 - p));
  for (size_t i = 0; i < n; i++) { ev("event %zu: %g", i, c[i]); check(fabs(c[i] - N * p) <= 8 * sd + 1, "draw-not-uniform", fmt("event %zu of %zu was drawn %g times, expected %g +- %g", i, n, c[i], N * p, sd)); }
  nontrivial(); state(mix(n, mix(k, boot)));
}
SIM_WORKLOAD("G01", draws_uniform, -24, "") { fair(false); }
SIM_WORKLOAD("G02", bootstrap_uniform, -24, "") { fair(true); }

SIM_WORKLOAD("G03", binned_generator, 10, "")
{
  Quiet q; seed(); size_t np = 1 + choose(3), nd = 1 + choose(2); AxisCollection ax; for (size_t d = 0; d < nd; d++) ax.AddAxis(BinAxis(id("a", d), 0, 1 + choose(5), 1 + choose(5)));
  size_t nb = ax.GetNBins(); std::vector<BinnedED> pdfs; Doubles rates; Strs obs; for (size_t d = 0; d < nd; d++) obs.push_back(id("a", d));
  auto inputs = [&] {
  pdfs.clear(); rates.clear();
  for (size_t i = 0; i < np; i++)
  {
    BinnedED p(id("p", i), ax); p.SetObservables(obs); Doubles c(nb); bool any = false; for (size_t b = 0; b < nb; b++) { c[b] = chance(0.4) ? 0 : range(1, 40) / 8.; any = any || c[b] > 0; } if (!any) c[choose(nb)] = 1; p.SetBinContents(c); if (chance(0.5)) p.Normalise(); pdfs.push_back(p); rates.push_back(range(0, 400) / 4.);
  }
  };
  inputs(); BinnedEDGenerator g; g.SetPdfs(pdfs); g.SetRates(rates); int steps = 0; std::string why;
  while (steps < 8 && (steps < 2 || more(0.8)))
  {
    steps++; bool poisson = chance(0.5); std::string name = chance(0.3) ? "named" : ""; std::vector<RngRecord> tr; rngTrace = &tr; BinnedED r; std::unique_ptr<AllocFault> af; if (chance(0.1)) af.reset(new AllocFault(1 + choose(60)));
    Out o = attempt([&] { r = poisson ? g.PoissonFluctuatedED(name) : g.ExpectedRatesED(name); }, &why); bool nomem = af && af->fired(); af.reset(); rngTrace = 0;
    ev("generate %d -> %d", poisson, o); if (o != OK) { check(nomem, "generation-failed-without-fault", why); continue; }
    double want = 0; if (!poisson) for (double x : rates) want += round(x); else { size_t k = 0; for (auto &t : tr) if (t.kind == 'P') { check(k < np && t.a == rates[k], "wrong-rate", fmt("a Poisson number of mean %g was drawn", t.a)); k++; want += t.v; } check(k == np, "wrong-rate", fmt("%zu Poisson numbers for %zu pdfs", k, np)); }
    double sum = 0; check(r.GetNBins() == nb && r.GetAxes() == ax, "binning-differs", "the generated distribution has other bins"); check(r.GetObservables() == obs, "observables-differ", "observables of the generated distribution"); if (name.size()) check(r.GetName() == name, "name-differs", r.GetName());
    for (size_t b = 0; b < nb; b++)
    {
      double c = r.GetBinContent(b); sum += c; check(c >= 0 && c == floor(c), "fraction-of-an-event", fmt("bin %zu holds %g", b, c));
      double possible = 0; for (size_t i = 0; i < np; i++) possible += pdfs[i].GetBinContent(b) * (poisson || round(rates[i]) > 0); check(c == 0 || possible > 0, "impossible-bin-filled", fmt("bin %zu holds %g but no pdf has content there", b, c));
    }
    check(sum == want, "wrong-number-of-events", fmt("%g events instead of %g", sum, want));
    std::vector<BinnedED> back = g.GetPdfs(); for (size_t i = 0; i < np; i++) for (size_t b = 0; b < nb; b++) check(back[i].GetBinContent(b) == pdfs[i].GetBinContent(b), "source-pdf-changed", fmt("pdf %zu bin %zu", i, b));
    state(mix(np, mix(nb, poisson))); if (want > 1) nontrivial();
    if (chance(0.3)) { for (double &x : rates) x = range(0, 400) / 4.; g.SetRates(rates); check(g.GetRates() == rates, "rates-differ", "what was set"); }
    if (chance(0.2)) { np = 1 + choose(3); inputs(); g.SetPdfs(pdfs); g.SetRates(rates); ev("other inputs"); probe("inputs-replaced"); }
  }
  if (chance(0.3)) { // no bin of an empty pdf can be drawn
    size_t e = choose(np); pdfs[e].SetBinContents(Doubles(nb, 0)); rates[e] = pick(Doubles{0, 0.25, 1, 3}); g.SetPdfs(pdfs); g.SetRates(rates); BinnedED r; bool fine = rates[e] < 0.5; Out o = attempt([&] { r = g.ExpectedRatesED(); }, &why); check((o == ERR) == !fine, fine ? "generation-failed-without-fault" : "impossible-bin-filled", fmt("%g events of an empty pdf", rates[e])); probe("empty-pdf");
  }
  if (chance(0.3)) { g.SetRates(Doubles(np + 1, 1)); check(attempt([&] { g.ExpectedRatesED(); }, &why) == ERR && attempt([&] { g.PoissonFluctuatedED(); }, &why) == ERR, "mismatch-accepted", "one rate too many"); }
}
SIM_WORKLOAD("G03", binned_shape, -24, "")
{
  Quiet q; rngMode = RNG_SEEDED; Rand::SetSeed(1 + choose(1000000)); size_t nb = 2 + choose(8); AxisCollection ax; ax.AddAxis(BinAxis("a", 0, 1, nb)); BinnedED p("p", ax); p.SetObservables(Strs(1, "a")); double s = 0; Doubles c(nb);
  for (size_t b = 0; b < nb; b++) { c[b] = chance(0.3) ? 0 : range(1, 40) / 8.; s += c[b]; } if (s == 0) { c[nb - 1] = s = 1; } p.SetBinContents(c); double N = 20000; BinnedEDGenerator g; g.SetPdfs(std::vector<BinnedED>(1, p)); g.SetRates(Doubles(1, N)); bool po = chance(0.5); BinnedED r = po ? g.PoissonFluctuatedED() : g.ExpectedRatesED(); if (po) N = r.Integral();
  for (size_t b = 0; b < nb; b++) { double pr = c[b] / s, sd = sqrt(N * pr * (1 - pr)); ev("bin %zu: %g", b, r.GetBinContent(b)); check(fabs(r.GetBinContent(b) - N * pr) <= 8 * sd + 1, "shape-differs", fmt("bin %zu holds %g of %g events, expected %g +- %g", b, r.GetBinContent(b), N, N * pr, sd)); }
  nontrivial(); state(nb);
}
