// N01-N03: the binned likelihood equals its definition after any history, recovers from interruptions, and
// joint fits are the sum of their parts.
#include "likeworld.h"
#include <StatisticSum.h>
#include "statfn.h"
using namespace like;
namespace
{
bool setAll(World &w, const ParameterDict &d) { Out o = attempt([&] { w.lh->SetParameters(d); }, &w.why); check(o == OK, "set-parameters-failed", w.why); w.applied(d); return true; }
void newData(World &w) { if (w.canBin() && chance(0.5)) { w.newDataSet(); probe("data-set"); } else w.newDataDist(); }
// requests that change nothing or that are refused
void lhMisc(World &w)
{
  switch (choose(4))
  {
  case 0: w.lh->SetDebugMode(!w.lh->GetDebugMode()); probe("debug-mode"); break;
  case 1: { bool direct = true; for (auto &p : w.pdfs) direct = direct && p.status == DIRECT; if (!direct || w.cur.empty()) break; Doubles n; for (auto &p : w.pdfs) { double x = range(1, 80) / 4.; n.push_back(x); w.cur[p.pname] = x; } w.lh->SetNormalisations(n); check(w.lh->GetParameters() == w.cur, "parameters-differ", "after setting the normalisations"); probe("normalisations-set"); break; }
  case 2: { double e = range(0, 8) / 8.; w.lh->SetSignalCutEfficiency(e); check(w.lh->GetSignalCutEfficiency() == e, "efficiency-differs", ""); break; }
  default: { std::vector<BinnedED> e(2, w.ed(w.pdfs[0])); std::vector<Strs> g(1, Strs(1, "")); std::vector<NormFittingStatus> st(1, DIRECT); check(attempt([&] { w.lh->AddPdfs(e, &st); }, &w.why) == ERR, "wrong-number-accepted", "statuses"); check(attempt([&] { w.lh->AddPdfs(e, g); }, &w.why) == ERR, "wrong-number-accepted", "groups"); check(attempt([&] { w.lh->SetNormalisations(Doubles(w.pdfs.size() + 1, 1.)); }, &w.why) == ERR, "wrong-number-accepted", "normalisations"); if (w.bb) { check(attempt([&] { w.lh->AddPdf(e[0]); }, &w.why) == ERR, "missing-rate-accepted", "Barlow-Beeston"); check(attempt([&] { w.lh->AddPdf(e[0], Strs(1, "")); }, &w.why) == ERR, "missing-rate-accepted", "Barlow-Beeston"); }
    // what is refused leaves nothing behind: neither one that belongs to a group nobody knows, nor lists that do not fit together
    BinnedED late(e[0]); if (chance(0.5)) late.SetName("late"); Strs nowhere(1, "nosuchgroup"); if (chance(0.5)) nowhere.insert(nowhere.begin(), ""); check(attempt([&] { if (w.bb || chance(0.3)) w.lh->AddPdf(late, nowhere, 100); else w.lh->AddPdf(late, nowhere); }, &w.why) == ERR, "unknown-group-accepted", "");
    std::vector<Strs> gg(2, Strs(1, "")); std::vector<int> few(chance(0.5) ? 1 : 3, 100), rates(2, 100); check(attempt([&] { w.lh->AddPdfs(e, few); }, &w.why) == ERR, "wrong-number-accepted", "rates"); check(attempt([&] { w.lh->AddPdfs(e, gg, few); }, &w.why) == ERR, "wrong-number-accepted", "rates with groups"); if (chance(0.5)) st.resize(3, DIRECT); check(attempt([&] { w.lh->AddPdfs(e, rates, &st); }, &w.why) == ERR, "wrong-number-accepted", "statuses with rates"); check(attempt([&] { w.lh->AddPdfs(e, gg, rates, &st); }, &w.why) == ERR, "wrong-number-accepted", "statuses with groups and rates"); if (!w.cur.empty()) check(w.lh->GetParameters() == w.cur, "parameters-differ", "after refused distributions"); probe("pdfs-refused"); }
  }
}
void act(World &w, size_t op)
{
  switch (op)
  {
  case 0: newData(w); break;
  case 1: w.newBuffer(); probe("buffer"); break;
  case 2: w.over = chance(0.5); w.lh->SetBufferAsOverflow(w.over); break;
  case 3: w.constrain(w.paramNames()); break;
  case 4: if (w.pdfs.size() < 4) { ParameterDict keep = w.cur; w.addPdf(); w.reg(); if (w.pdfs.back().status != FALSE) w.cur[w.pdfs.back().pname] = 0; ParameterDict q = w.lh->GetParameters(); if (!keep.empty()) check(q == w.cur, "parameters-differ", "after adding a distribution"); probe("pdf-added"); } break;
  case 5: { std::shared_ptr<BinnedNLLH> c(new BinnedNLLH(*w.lh)); w.lh = c; w.reg(); probe("copied"); break; }
  case 7: lhMisc(w); break;
  case 6: w.addCut(); if (w.haveData && !w.events.empty() && w.canBin() && w.lh->GetDataSet()) { w.lh->BinData(); w.bin(); } break;
  default: { ParameterDict d; w.draw(d); if (chance(0.3)) d["unknown"] = 1; setAll(w, d); }
  }
}
void start(World &w) { ParameterDict d; w.draw(d); setAll(w, d); }
void history()
{
  Quiet q; World w; w.setup("likelihood", choose(4), 1 + choose(3)); int steps = 0; start(w); newData(w); int evals = 0;
  while (steps < 16 && (steps < 4 || more(0.9)))
  {
    steps++; size_t op = choose(13); ev("op %zu", op); state(mix(mix(op, w.pdfs.size() * 4 + w.sys.size()), mix(w.buf.size() * 2 + w.over, w.marginal * 4 + w.bb * 2 + w.binned)));
    act(w, op); if (op < 8 && chance(0.4)) continue; w.verify("after a change"); if (++evals > 2) nontrivial();
  }
}
void interrupted()
{
  Quiet q; World w; w.setup("likelihood", choose(4), 1 + choose(3)); int steps = 0; start(w); newData(w);
  while (steps < 14 && (steps < 4 || more(0.9)))
  {
    steps++; size_t op = choose(11); ev("op %zu", op); state(mix(op, mix(w.pdfs.size() * 4 + w.sys.size(), w.buf.size()))); act(w, op); w.renorms(); if (!w.binned) w.bin(); Expected e = w.expect();
    switch (choose(4))
    {
    case 0: { bool fired; Out r; { AllocFault af(1 + choose(60), chance(0.3)); r = attempt([&] { w.lh->Evaluate(); }, &w.why); fired = af.fired(); } check(r == OK || fired || !e.usable || e.zero, "evaluation-failed", w.why); if (r != OK && fired) { probe("evaluation-interrupted"); nontrivial(); } break; }
    case 1: { w.bomb->countdown = (int)choose(6); Out r = attempt([&] { w.lh->Evaluate(); }, &w.why); if (r == ERR && w.bomb->countdown < 0) { fault("user-function-throws"); nontrivial(); } else check(r == OK || !e.usable || e.zero, "evaluation-failed", w.why); w.bomb->countdown = -1; break; }
    case 2: { std::set<std::string> n = w.paramNames(); if (n.size() < 2) break; std::vector<std::string> v; for (auto &x : n) if (x.compare(0, 3, fmt("s%d_", CONV)) != 0 && x.compare(0, 3, fmt("t%d_", CONV)) != 0) v.push_back(x); if (v.empty()) break; /* a Gaussian keeps what it is not told */ std::string gone = v[choose(v.size())]; ParameterDict d; w.draw(d); ParameterDict m = d; m.erase(gone); Out r = attempt([&] { w.lh->SetParameters(m); }, &w.why); check(r == ERR, "missing-parameter-accepted", gone); fault("parameter-missing"); setAll(w, d); nontrivial(); break; }
    default: { bool fired; Out r; ParameterDict d; w.draw(d); { AllocFault af(1 + choose(12), chance(0.3)); r = attempt([&] { w.lh->SetParameters(d); }, &w.why); fired = af.fired(); } check(r == OK || fired, "set-parameters-failed", w.why); setAll(w, d); if (r != OK) probe("setting-interrupted"); }
    }
    w.verify("after an interruption");
  }
}
void joint()
{
  Quiet q; size_t nw = 2 + choose(2); std::vector<std::unique_ptr<World>> ws; for (size_t i = 0; i < nw; i++) { ws.emplace_back(new World); ws.back()->alone = false; ws.back()->setup(fmt("part %zu", i), choose(3), 1 + choose(2)); }
  // the sum as the user builds it: flat, nested or with operators
  std::vector<std::unique_ptr<StatisticSum>> keep; std::vector<std::map<std::string, Con>> cons; std::map<std::string, Con> inner; StatisticSum *top = 0; size_t shape = choose(4); ev("shape %zu of %zu", shape, nw);
  keep.emplace_back(new StatisticSum); if (shape == 0) { for (auto &w : ws) keep[0]->AddStat(*w->lh); top = keep[0].get(); }
  else if (shape == 1) { std::vector<TestStatistic *> v; for (auto &w : ws) v.push_back(w->lh.get()); *keep[0] = Sum(v); top = keep[0].get(); }
  else if (shape == 2) { *keep[0] = *ws[0]->lh + *ws[1]->lh; for (size_t i = 2; i < nw; i++) { bool left = chance(0.5); keep.emplace_back(left ? new StatisticSum(*ws[i]->lh + *keep.back()) : new StatisticSum(*keep.back() + *ws[i]->lh)); } top = keep.back().get(); }
  else { keep[0]->AddStat(*ws[0]->lh); keep[0]->AddStat(*ws[1]->lh); keep.emplace_back(new StatisticSum); keep[1]->AddStat(*keep[0]); for (size_t i = 2; i < nw; i++) keep[1]->AddStat(*ws[i]->lh); top = keep[1].get(); }
  std::map<std::string, Con> outer; ParameterDict all; bool ready = false; int steps = 0, evals = 0;
  auto names = [&] { std::set<std::string> s; for (auto &w : ws) { std::set<std::string> n = w->paramNames(); s.insert(n.begin(), n.end()); } return s; };
  for (auto &w : ws) newData(*w);
  while (steps < 14 && (steps < 4 || more(0.9)))
  {
    steps++; size_t op = ready ? choose(6) : 5; ev("op %zu", op); state(mix(op, mix(shape * 4 + nw, outer.size() * 4 + inner.size())));
    switch (op)
    {
    case 0: { World &w = *ws[choose(nw)]; size_t o = choose(4); act(w, o); break; }
    case 1: { auto n = names(); for (auto &x : n) if (!outer.count(x) && chance(0.5)) { Con c; c.mean = range(0, 40) / 4.; c.lo = c.hi = range(1, 12) / 4.; top->SetConstraint(x, c.mean, c.lo); outer[x] = c; break; } break; }
    case 2: if (shape == 3) { std::set<std::string> n = ws[0]->paramNames(); for (auto &x : n) if (!inner.count(x)) { Con c; c.mean = 2; c.lo = c.hi = range(1, 12) / 4.; keep[0]->SetConstraint(x, c.mean, c.lo); inner[x] = c; break; } } break;
    case 3: { std::set<std::string> n = names(); if (n.size() < 2) break; std::vector<std::string> v; for (auto &x : n) if (x.compare(0, 3, fmt("s%d_", CONV)) != 0 && x.compare(0, 3, fmt("t%d_", CONV)) != 0) v.push_back(x); if (v.empty()) break; /* a Gaussian keeps what it is not told */ std::string gone = v[choose(v.size())]; ParameterDict m; for (auto &w : ws) w->draw(m); m.erase(gone); std::string why; check(attempt([&] { top->SetParameters(m); }, &why) == ERR, "missing-parameter-accepted", gone); fault("parameter-missing"); ready = false; continue; }
    default: { all.clear(); for (auto &w : ws) w->draw(all); if (chance(0.3)) top->RegisterFitComponents(); std::string why; check(attempt([&] { top->SetParameters(all); }, &why) == OK, "set-parameters-failed", why); for (auto &w : ws) w->applied(all); ready = true; }
    }
    if (!ready) continue; std::set<std::string> n = names(); ParameterDict want; for (auto &x : n) want[x] = all.at(x);
    check(top->GetParameters() == want && top->GetParameterNames() == n && top->GetParameterCount() == n.size(), "parameters-differ", "of the sum");
    double sum = 0, tol = 1e-9; bool usable = true, zero = false, alt = false; for (auto &w : ws) { w->renorms(); if (!w->binned) w->bin(); Expected e = w->expect(); sum += e.value; tol += e.tol; usable = usable && e.usable; zero = zero || e.zero; alt = alt || e.alternative; }
    sum += World::penalty(outer, want) + World::penalty(inner, want); double v = 0; std::string why; Out o = attempt([&] { v = top->Evaluate(); }, &why); if (!usable) continue;
    if (zero) { check(o == ERR, "zero-probability-accepted", fmt("%.10g", v)); continue; } check(o == OK, "evaluation-failed", why);
    if (alt) { double s2 = World::penalty(outer, want) + World::penalty(inner, want); for (auto &w : ws) s2 += w->lh->Evaluate(); sum = s2; tol = 1e-9 * (1 + fabs(s2)); } // parts are checked on their own
    check(close(v, sum, 1e-12, tol), "sum-differs", fmt("%.12g instead of %.12g", v, sum)); if (++evals > 2) nontrivial(); if (chance(0.3)) ws[choose(nw)]->verify("as part of a sum");
  }
}
// sums of simulated statistics: any shape of the sum, the same part several times, values of any size, parts that fail
void toys()
{
  Quiet q; std::string why; Strs pool = paramNames(2 + choose(3)); std::vector<std::unique_ptr<Stat>> part; size_t np = 2 + choose(3);
  for (size_t i = 0; i < np; i++) { Strs n; for (auto &x : pool) if (chance(0.6)) n.push_back(x); if (n.empty()) n.push_back(pool[choose(pool.size())]); for (size_t k = 0; k < n.size(); k++) std::swap(n[k], n[k + choose(n.size() - k)]); part.emplace_back(new Stat); part[i]->f = quadratic(n, 1); switch (weighted({8, 1, 1, 1})) { case 1: part[i]->f.offset = 1e31; break; case 2: part[i]->f.offset = -1e31; break; case 3: part[i]->f.offset = chance(0.5) ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN(); break; default:; } }
  // nodes: parts first, then sums of earlier nodes, as the user builds them; a sum made with operators is the sum of what it was made of
  struct Node { TestStatistic *s; StatisticSum *sum; std::vector<int> of; std::map<std::string, Con> cons; }; std::vector<Node> node; std::vector<std::unique_ptr<StatisticSum>> keep;
  for (auto &p : part) { Node n; n.s = p.get(); n.sum = 0; node.push_back(n); }
  std::map<std::string, double> now[8]; ParameterDict all; bool ready = false; int steps = 0, evals = 0;
  std::function<void(int, std::set<int> &)> leaves = [&](int k, std::set<int> &s) { if (k < (int)np) s.insert(k); else for (int o : node[k].of) leaves(o, s); };
  std::function<double(int, const ParameterDict &)> value = [&](int k, const ParameterDict &p) { double v = 0; if (k < (int)np) v = part[k]->f(p); else { for (int o : node[k].of) v += value(o, p); } return v + World::penalty(node[k].cons, p); };
  std::function<double(int, const ParameterDict &)> size = [&](int k, const ParameterDict &p) { double v = 0; if (k < (int)np) v = fabs(part[k]->f(p)); else for (int o : node[k].of) v += size(o, p); return v + World::penalty(node[k].cons, p); };
  std::function<size_t(int)> depth = [&](int k) { size_t d = 1; if (k >= (int)np) for (int o : node[k].of) d += depth(o); return d; };
  auto namesOfNode = [&](int k) { std::set<int> l; leaves(k, l); std::set<std::string> n; for (int i : l) n.insert(part[i]->f.names.begin(), part[i]->f.names.end()); return n; };
  auto build = [&] {
    int a = (int)choose(node.size()), b = (int)choose(node.size()); if (depth(a) + depth(b) > 12) return; Node n; size_t how = choose(5); ev("sum %zu of %d %d", how, a, b); probe(how == 0 ? "operator" : how == 1 ? "constructor" : "sum");
    if (how == 0 && node[a].sum && chance(0.6)) // the operator for sums takes over what the first one has now
    { keep.emplace_back(new StatisticSum(*node[a].sum + *node[b].s)); n.of = node[a].of; n.cons = node[a].cons; n.of.push_back(b); }
    else if (how == 0) { keep.emplace_back(new StatisticSum(*node[a].s + *node[b].s)); n.of.push_back(a); n.of.push_back(b); }
    else if (how == 1) { keep.emplace_back(new StatisticSum(*node[a].s, *node[b].s)); n.of.push_back(a); n.of.push_back(b); }
    else if (how == 2) { std::vector<TestStatistic *> v; size_t m = choose(4); for (size_t i = 0; i < m; i++) { int c = (int)choose(node.size()); if (depth(c) > 5) c = 0; n.of.push_back(c); v.push_back(node[c].s); } if (v.empty()) { n.of.push_back(a); v.push_back(node[a].s); } keep.emplace_back(new StatisticSum(Sum(v))); }
    else if (how == 3) { keep.emplace_back(new StatisticSum); n.of.push_back(a); keep.back()->AddStat(*node[a].s); }
    else { int c = -1; for (size_t k = np; k < node.size(); k++) if (chance(0.5)) c = (int)k; if (c < 0) return; keep.emplace_back(new StatisticSum(*node[c].sum)); n.of = node[c].of; n.cons = node[c].cons; probe("sum-copied"); }
    n.sum = keep.back().get(); n.s = n.sum; node.push_back(n); };
  build(); build();
  while (steps < 24 && (steps < 6 || more(0.93)))
  {
    steps++; size_t op = ready ? choose(8) : 7; ev("op %zu", op); state(mix(op, mix(np, node.size())));
    switch (op)
    {
    case 0: if (node.size() < np + 6) build(); break;
    case 1: { size_t k = choose(node.size()); std::set<std::string> n = namesOfNode((int)k); for (auto &x : n) if (chance(0.5)) { Con c; c.mean = range(-16, 16) / 4.; c.lo = c.hi = range(1, 12) / 4.; if (k < np) { part[k]->SetConstraint(x, c.mean, c.lo); } else { node[k].sum->SetConstraint(x, c.mean, c.lo); node[k].cons[x] = c; } break; } break; }
    case 2: { size_t k = np + choose(node.size() - np); if (k >= node.size()) break; if (node[k].of.size() > 4) break; int c = (int)choose(k); if (depth(c) > 5) break; node[k].sum->AddStat(*node[c].s); node[k].of.push_back(c); probe("added-later"); break; }
    case 3: { size_t k = choose(np); part[k]->countdown = 0; for (size_t m = np; m < node.size(); m++) { std::set<int> l; leaves((int)m, l); if (!l.count((int)k)) continue; part[k]->countdown = 0; check(attempt([&] { node[m].sum->Evaluate(); }, &why) == ERR, "failing-part-ignored", fmt("part %zu", k)); } part[k]->countdown = -1; break; }
    case 4: { size_t m = np + choose(node.size() - np); if (m >= node.size()) break; std::set<std::string> n = namesOfNode((int)m); Strs v(n.begin(), n.end()); std::string gone = v[choose(v.size())]; ParameterDict d = all; for (auto &x : d) x.second += 0.5; d.erase(gone); fault("parameter-missing"); check(attempt([&] { node[m].sum->SetParameters(d); }, &why) == ERR, "missing-parameter-accepted", gone); ready = false; continue; }
    case 5: { for (size_t m = np; m < node.size(); m++) node[m].s->RegisterFitComponents(); std::set<int> l; for (size_t m = np; m < node.size(); m++) leaves((int)m, l); for (int i : l) check(part[i]->registered, "not-registered", fmt("part %d", i)); break; }
    default:
    {
      size_t how = all.empty() ? 0 : weighted({6, 3, 2, 1}); if (how == 0) for (auto &x : pool) all[x] = range(-16, 16) / 8. * (chance(0.05) ? 1e12 : 1); else if (how == 1) all[pool[choose(pool.size())]] = range(-16, 16) / 8.; else if (how == 2) for (auto &x : pool) if (chance(0.7)) all[x] *= 1 + (chance(0.5) ? 5e-9 : 1e-14);
      ParameterDict d = all; if (chance(0.3)) d["unknown"] = 3; for (size_t m = 0; m < node.size(); m++) if (!ready || m + 1 == node.size()) check(attempt([&] { node[m].s->SetParameters(d); }, &why) == OK, "set-parameters-failed", why); else if (m >= np) { std::set<int> l; leaves((int)m, l); check(attempt([&] { node[m].s->SetParameters(d); }, &why) == OK, "set-parameters-failed", why); }
      for (size_t m = 0; m < np; m++) { std::set<int> l; for (size_t k = np; k < node.size(); k++) leaves((int)k, l); if (!l.count((int)m)) node[m].s->SetParameters(d); }
      ready = true;
    } }
    for (size_t m = np; m < node.size() && ready; m++)
    {
      std::set<std::string> n = namesOfNode((int)m); ParameterDict want; for (auto &x : n) want[x] = all.at(x); check(node[m].sum->GetParameters() == want && node[m].sum->GetParameterNames() == n && node[m].sum->GetParameterCount() == n.size(), "parameters-differ", fmt("of sum %zu", m));
      double v = 0, w = value((int)m, all), big = size((int)m, all); Out o = attempt([&] { v = node[m].sum->Evaluate(); }, &why); check(o == OK, "evaluation-failed", why); check(close(v, w, 1e-11, 1e-11 * (std::isfinite(big) ? big : 0)) || (std::isnan(w) && std::isnan(v)), "sum-differs", fmt("sum %zu: %.12g instead of %.12g", m, v, w)); if (++evals > 4) nontrivial();
    }
  }
}
}
SIM_WORKLOAD("N01", likelihood_history, 10, "") { history(); }
SIM_WORKLOAD("N02", likelihood_interrupted, 10, "") { interrupted(); }
SIM_WORKLOAD("N03", joint_fit, 10, "") { joint(); }
SIM_WORKLOAD("N03", sums_of_statistics, 6, "") { toys(); }
