// S02: a systematic always does what its present settings say, alone and in groups.
#include "detector.h"
using namespace work; using namespace sim; using namespace det;
namespace
{
struct Obj { Spec s; Axes ax; Strs dist; std::shared_ptr<Systematic> sys; std::shared_ptr<Bomb> bomb; bool built; Matrix m; };
template <class T> Systematic *copyOf(const Systematic *s) { return new T(*dynamic_cast<const T *>(s)); }
template <class T> void assign(Systematic *to, const Systematic *from) { *dynamic_cast<T *>(to) = *dynamic_cast<const T *>(from); }
Systematic *copySys(int k, const Systematic *s) { switch (k) { case SCALE: return copyOf<Scale>(s); case SHIFT: return copyOf<Shift>(s); case SCALEFUNC: return copyOf<ScaleFunction>(s); case SHAPE: return copyOf<Shape>(s); case RENORM: return copyOf<Renorm>(s); default: return copyOf<Convolution>(s); } }
void assignSys(int k, Systematic *a, const Systematic *b) { switch (k) { case SCALE: assign<Scale>(a, b); break; case SHIFT: assign<Shift>(a, b); break; case SCALEFUNC: assign<ScaleFunction>(a, b); break; case SHAPE: assign<Shape>(a, b); break; case RENORM: assign<Renorm>(a, b); break; default: assign<Convolution>(a, b); } }
Axes axesFor(int kind, size_t nd) { Axes a; Strs n; for (size_t i = 0; i < 4; i++) n.push_back(obsName(i)); std::vector<int> o; for (size_t i = 0; i < 4; i++) o.push_back((int)i); for (size_t i = 0; i < nd; i++) { size_t j = choose(o.size()); a.push_back(axis(n[o[j]], kind == VARCONV, nd == 4 ? 2 : nd == 3 ? 3 : nd == 1 && chance(0.15) ? 30 : 5)); o.erase(o.begin() + j); } return a; }
std::string contents(const SparseMatrix &r, const Matrix &m, int kind)
{
  double rel = kind == CONV || kind == VARCONV ? TOL : 1e-9, abs = kind == CONV || kind == VARCONV ? TOL : 1e-11;
  for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m.size(); j++) if (!close(r.GetComponent(i, j), m[i][j], rel, abs)) return fmt("from bin %zu into %zu: %.10g instead of %.10g", j, i, r.GetComponent(i, j), m[i][j]);
  return "";
}
void history(bool faults)
{
  Quiet q; anyRenorm() = true; std::vector<Obj> v; std::string why; int steps = 0; int focus = (int)choose(NKINDS);
  auto configure = [&](Obj &o, bool newAxes, bool newTrans) {
    size_t nt = o.s.trans.size(); Strs before = namesOf(o.ax); // the same observables need not be said again
    if (newAxes && o.ax.size() > 1 && chance(0.4)) // as many bins in all, shared out differently or somewhere else
    { size_t i = choose(o.ax.size()), j = choose(o.ax.size()); std::swap(o.ax[i].lo, o.ax[j].lo); std::swap(o.ax[i].hi, o.ax[j].hi); if (i == j) { Ax b = axis(o.ax[i].name, o.s.kind == VARCONV); double w = range(1, 8) / 4., x = b.lo[0]; for (size_t k = 0; k < o.ax[i].lo.size(); k++) { o.ax[i].lo[k] = x; o.ax[i].hi[k] = x += w; } } newTrans = chance(0.3); probe("axes-of-the-same-size"); }
    else if (newAxes) { size_t most = chance(0.2) ? 4 : 3, nd = o.s.kind == CONV ? nt + choose(most + 1 - nt) : 1 + choose(most); if (nd == 4) probe("four-dimensions"); o.ax = axesFor(o.s.kind, nd); newTrans = true; }
    if (newTrans) { if (o.s.kind == CONV) { Strs n = namesOf(o.ax), t; for (size_t i = 0; i < nt; i++) { size_t j = choose(n.size()); t.push_back(n[j]); n.erase(n.begin() + j); } o.s.trans = t; } else o.s.trans = pickTrans(o.s.kind, o.ax); }
    std::vector<int> ord; if (newAxes) { ord.push_back(0); if (namesOf(o.ax) != before || chance(0.3)) ord.push_back(1); } if (newTrans) ord.push_back(2); while (!ord.empty()) { size_t k = choose(ord.size()); if (ord[k] == 0) o.sys->SetAxes(det::build(o.ax)); else if (ord[k] == 1) o.sys->SetDistributionObs(ObsSet(namesOf(o.ax))); else o.sys->SetTransformationObs(ObsSet(o.s.trans)); ord.erase(ord.begin() + k); }
    if (newAxes || newTrans) o.built = false; };
  auto add = [&] { Obj o; int kind = chance(0.7) ? focus : (int)choose(NKINDS); size_t nt = kind == CONV ? 1 + weighted({6, 6, 1}) : 1; o.bomb.reset(new Bomb); o.s = spec(kind, fmt("s%zu_%d", v.size(), steps), nt); o.s.trans.resize(nt); o.sys.reset(realise(o.s, o.bomb)); setParams(o.sys.get(), o.s); o.built = false; configure(o, true, true); v.push_back(o); };
  add();
  while (steps < 24 && (steps < 4 || more(0.92)))
  {
    steps++; size_t i = choose(v.size()), op = choose(faults ? 11 : 10); Obj &o = v[i]; ev("op %zu on %zu %s", op, i, kindName(o.s.kind)); state(mix(mix(op, o.s.kind), mix(o.ax.size() * 4 + o.s.trans.size(), o.built)));
    switch (op)
    {
    case 0: configure(o, true, true); break;
    case 1: configure(o, false, true); break;
    case 2: if (v.size() < 4) add(); break;
    case 3: if (v.size() < 4) { Obj n = o; n.bomb = o.bomb; n.sys.reset(copySys(o.s.kind, o.sys.get())); v.push_back(n); probe("copied"); } break;
    case 4: { std::vector<size_t> same; for (size_t j = 0; j < v.size(); j++) if (v[j].s.kind == o.s.kind) same.push_back(j); size_t j = same[choose(same.size())]; assignSys(o.s.kind, o.sys.get(), v[j].sys.get()); std::shared_ptr<Systematic> keep = o.sys; o = v[j]; o.sys = keep; probe("assigned"); break; }
    case 5: o.s.draw(); setParams(o.sys.get(), o.s); break;
    case 9: // another function behind the same object
      if (o.s.kind == CONV || o.s.kind == VARCONV) { Strs t = o.s.trans; if (t.size() == 1) { o.s = spec(chance(0.5) ? CONV : VARCONV, fmt("k%d", steps), 1); o.s.trans = t; } else { o.s = spec(CONV, fmt("k%d", steps), t.size()); o.s.trans = t; } setKernel(dynamic_cast<Convolution *>(o.sys.get()), o.s); setParams(o.sys.get(), o.s); if (o.s.kind == VARCONV) { o.ax.clear(); configure(o, true, true); } probe("kernel-replaced"); }
      else if (o.s.kind == SCALEFUNC || o.s.kind == SHAPE) { Strs t = o.s.trans; std::string name = chance(0.3) ? o.s.pname[0].substr(0, o.s.pname[0].size() - 2) : fmt("k%d", steps); o.s = spec(o.s.kind, name, t.size()); o.s.trans = t; setFunction(o.sys.get(), o.s, o.bomb); setParams(o.sys.get(), o.s); probe("function-replaced"); }
      else break;
      check(o.sys->GetParameterNames() == std::set<std::string>(o.s.pname.begin(), o.s.pname.end()) && o.sys->GetParameterCount() == o.s.pname.size(), "parameter-names-differ", "after the function was replaced"); o.built = false; break;
    case 10: // new axes for which there may be no memory: the systematic has the old ones or the new ones, and works with those it has
    {
      Axes n = o.ax; for (Ax &a : n) { if (chance(0.5)) a = axis(a.name, o.s.kind == VARCONV, n.size() > 2 ? 3 : 5); } Out r; bool fired; AxisCollection built = det::build(n); { AllocFault af(1 + choose(40)); r = attempt([&] { o.sys->SetAxes(built); }, &why); fired = af.fired(); }
      check(r == OK || (r == NOMEM && fired), "set-axes-failed", why); if (r == OK) { o.ax = n; o.built = false; break; } probe("no-memory-for-new-axes"); o.built = false;
      auto is = [&](const Axes &x) { const AxisCollection &a = o.sys->GetAxes(); if (a.GetNBins() != nBins(x) || a.GetNDimensions() != x.size() || a.GetAxisNames() != namesOf(x)) return false; for (size_t d = 0; d < x.size(); d++) if (a.GetAxis(d).GetBinLowEdges() != x[d].lo || a.GetAxis(d).GetBinHighEdges() != x[d].hi) return false; return true; };
      if (is(n)) o.ax = n; else check(is(o.ax), "axes-mixed", "the systematic has neither the axes it had nor those that could not be set");
      if (chance(0.3)) { o.sys->SetAxes(det::build(o.ax)); }
      break;
    }
    default:
    {
      if (chance(0.4)) { o.s.draw(); setParams(o.sys.get(), o.s); }
      if (faults && chance(0.4))
      {
        bool user = (o.s.kind == SCALEFUNC || o.s.kind == SHAPE) && chance(0.5), fired; Out r; if (user) o.bomb->countdown = (int)choose(6);
        { std::unique_ptr<AllocFault> af; if (!user) af.reset(new AllocFault(1 + choose(20))); r = attempt([&] { o.sys->Construct(); }, &why); fired = af ? af->fired() : o.bomb->countdown < 0; if (user && fired && r == ERR) fault("user-function-throws"); } o.bomb->countdown = -1;
        check(r == OK || fired, "construct-failed", why); if (r != OK) { o.built = false; probe("construct-interrupted"); }
        if (r != OK && chance(0.5)) break;
      }
      if (attempt([&] { o.sys->Construct(); }, &why) != OK) check(false, "construct-failed", std::string(kindName(o.s.kind)) + ": " + why);
      o.built = true; o.m = o.s.matrix(o.ax);
      if (o.s.kind == SHAPE && chance(0.1)) { o.bomb->negative = true; { const Ax &a = o.ax[indexOf(o.ax, o.s.trans[0])]; o.bomb->above = chance(0.5) ? -1e300 : centre(a, a.lo.size() - 1) - 1e-3; } check(attempt([&] { o.sys->Construct(); }, &why) == ERR, "negative-factor-accepted", "of a shape"); o.bomb->negative = false; o.built = false; probe("negative-shape"); }
    } }
    for (size_t k = 0; k < v.size(); k++)
    {
      Obj &p = v[k]; if (!p.built) continue; std::string d = contents(p.sys->GetResponse(), p.m, p.s.kind); check(d == "", k == i ? "response-differs" : "unrelated-systematic-changed", fmt("after operation %zu, %s: ", op, kindName(p.s.kind)) + d); if (steps > 5) nontrivial();
      if (k == i && chance(0.5)) { Doubles c(nBins(p.ax)); for (double &x : c) x = range(0, 32) / 8.; BinnedED e("e", det::build(p.ax)); e.SetObservables(namesOf(p.ax)); e.SetBinContents(c); Doubles want = times(p.m, c); double n = -1, s = det::sum(want); BinnedED r = (*p.sys)(e, &n); check(differ(r.GetBinContents(), want, det::sum(c) + 1) == "", "distribution-differs", differ(r.GetBinContents(), want, det::sum(c) + 1)); check(close(n, s, TOL, TOL * (det::sum(c) + 1)), "norm-differs", fmt("%.10g instead of %.10g", n, s)); if (s > 0.5) { BinnedED z = (*p.sys)(e); check(close(z.Integral(), 1), "not-normalised", fmt("%.10g", z.Integral())); for (double &x : want) x /= s; check(differ(z.GetBinContents(), want, 1) == "", "distribution-differs", differ(z.GetBinContents(), want, 1)); } check(e.GetBinContents() == c, "input-changed", "applying a systematic changed its input"); if (chance(0.2)) { Axes bx; bx.push_back(axis("x", true, nBins(p.ax) == 2 ? 3 : 2)); while (nBins(bx) == nBins(p.ax)) bx[0] = axis("x", true, 5); BinnedED b("b", det::build(bx)); b.SetObservables(namesOf(bx)); check(attempt([&] { (*p.sys)(b); }, &why) == ERR, "wrong-size-accepted", fmt("%zu bins for a response of %zu", nBins(bx), nBins(p.ax))); } }
      if (k == i) { check(p.sys->GetTransformationObs().GetNames() == p.s.trans && p.sys->GetDistributionObs().GetNames() == namesOf(p.ax), "observables-differ", "of the systematic"); const AxisCollection &a = p.sys->GetAxes(); check(a.GetNBins() == nBins(p.ax) && a.GetNDimensions() == p.ax.size() && a.GetAxisNames() == namesOf(p.ax), "axes-differ", "of the systematic"); }
    }
  }
}
// groups of systematics acting on several distributions
void groups(bool faults)
{
  Quiet q; anyRenorm() = true; std::string why; struct S { Spec s; std::shared_ptr<Systematic> sys; std::string group; }; std::vector<S> sys; struct D { BinnedED e; std::vector<std::string> g; Doubles c; }; std::vector<D> dist; SystematicManager man; Axes ax = axesFor(VARCONV, 1 + choose(2)); const char *gn[] = {"", "g", "h"}; int steps = 0; bool stale = true; std::vector<Matrix> built; size_t nbuilt = 0;
  auto allGroups = [&] { std::set<std::string> s; s.insert(""); for (auto &x : sys) s.insert(x.group); return s; };
  while (steps < 20 && (steps < 5 || more(0.92)))
  {
    steps++; size_t op = choose(8); ev("op %zu", op); state(mix(op, mix(sys.size(), dist.size())));
    switch (op)
    {
    case 0: case 1: if (sys.size() < 5 && !sys.empty() && chance(0.2)) // one systematic in several groups
      { size_t from = choose(sys.size()); S s = sys[from]; if (s.group == "") break; s.group = gn[1 + choose(2)]; bool there = false; for (auto &x : sys) if (x.group == s.group && x.sys == s.sys) there = true; for (auto &d : dist) { size_t n = 0; for (auto &g : d.g) { if (g == s.group) n++; for (auto &x : sys) if (x.sys == s.sys && x.group == g) n += 2; } if (n > 2) there = true; } if (there) break;
        Out o = attempt([&] { man.Add(s.sys.get(), s.group); }, &why); check(o == OK, "add-failed", why); sys.push_back(s); stale = true; probe("shared"); Out t = attempt([&] { man.Add(s.sys.get()); }, &why); check(t == ERR, "duplicate-systematic-accepted", "to the global group as well"); }
      else if (sys.size() < 4) { S s; int kind = (int)choose(NKINDS); Strs t = pickTrans(kind, ax); s.s = spec(kind, id("s", sys.size()), t.size()); s.s.trans = t; s.sys.reset(realise(s.s)); setParams(s.sys.get(), s.s); s.sys->SetAxes(det::build(ax)); s.sys->SetDistributionObs(ObsSet(namesOf(ax))); s.sys->SetTransformationObs(ObsSet(t)); s.group = gn[choose(3)]; Out o = attempt([&] { if (s.group == "" && chance(0.5)) man.Add(s.sys.get()); else man.Add(s.sys.get(), s.group); }, &why); check(o == OK, "add-failed", why); sys.push_back(s); stale = true; }
      else { Out o = attempt([&] { man.Add(sys[choose(sys.size())].sys.get()); }, &why); check(o == ERR, "duplicate-systematic-accepted", ""); } break;
    case 2: case 3: { std::vector<std::string> g; std::set<std::string> have = allGroups(); std::vector<std::string> pool(have.begin(), have.end()); size_t n = 1 + choose(pool.size()); for (size_t k = 0; k < n; k++) { size_t j = choose(pool.size()); g.push_back(pool[j]); pool.erase(pool.begin() + j); } bool bad = chance(0.15); std::vector<std::string> req = g; if (bad) req.insert(req.begin() + choose(req.size() + 1), chance(0.5) ? "nosuch" : req[choose(req.size())]);
        bool dupe = false; { std::set<std::string> seen; std::set<const Systematic *> used; for (auto &x : req) { if (!have.count(x)) dupe = true; if (seen.count(x)) for (auto &s : sys) if (s.group == x) dupe = true; seen.insert(x); } std::set<std::string> once(req.begin(), req.end()); for (auto &x : once) for (auto &s : sys) if (s.group == x && !used.insert(s.sys.get()).second) dupe = true; }
        D d; bool again = !dist.empty() && chance(0.2); size_t at = dist.empty() ? 0 : choose(dist.size()); if (dist.size() >= 4) again = true; if (again) d = dist[at]; else { d.e = BinnedED(id("d", dist.size()), det::build(ax)); d.e.SetObservables(namesOf(ax)); for (size_t k = 0; k < nBins(ax); k++) d.c.push_back(range(0, 32) / 8.); d.e.SetBinContents(d.c); }
        Out o = attempt([&] { if (req.size() == 1 && chance(0.5)) man.AddDist(d.e, req[0]); else man.AddDist(d.e, req); }, &why); if (bad || dupe) { check((o == ERR) == dupe, dupe ? "impossible-group-list-accepted" : "add-failed", why); if (dupe) { probe("refused-group-list"); break; } } else if (o == ERR && req.size() > 1 && std::find(req.begin(), req.end(), "") != req.end()) { probe("refused-explicit-global"); break; } else check(o == OK, "add-failed", why); d.g = req; if (again) dist[at] = d; else dist.push_back(d); break; }
    case 4: for (auto &s : sys) if (chance(0.6)) { s.s.draw(); setParams(s.sys.get(), s.s); stale = true; for (auto &x : sys) if (x.sys == s.sys) x.s = s.s; } break;
    default:
    {
      if (faults && chance(0.4)) { bool fired; Out r; { AllocFault af(1 + choose(40)); r = attempt([&] { man.Construct(); }, &why); fired = af.fired(); } check(r == OK || fired, "construct-failed", why); if (r != OK) probe("construct-interrupted"); stale = true; }
      if (stale || chance(0.3)) { Out r = attempt([&] { man.Construct(); }, &why); check(r == OK, "construct-failed", why); stale = false; }
      std::vector<BinnedED> orig, work; for (auto &d : dist) { orig.push_back(d.e); work.push_back(d.e); } if (chance(0.5)) for (auto &w : work) w.Scale(3); // what was there before does not matter
      Doubles norms(dist.size(), -1.); bool wantNorms = chance(0.5);
      if (faults && chance(0.3)) { AllocFault af(1 + choose(20)); Out r = attempt([&] { man.DistortEDs(orig, work, wantNorms ? &norms : 0); }, &why); check(r == OK || af.fired(), "distort-failed", why); }
      Out r = attempt([&] { man.DistortEDs(orig, work, wantNorms ? &norms : 0); }, &why); check(r == OK, "distort-failed", why);
      for (size_t k = 0; k < dist.size(); k++)
      {
        Doubles want = dist[k].c; double scale = 1; std::vector<std::string> g = dist[k].g; if (std::find(g.begin(), g.end(), "") == g.end()) g.insert(g.begin(), ""); int n = 0;
        for (auto &gr : g) for (auto &s : sys) if (s.group == gr) { want = times(s.s.matrix(ax), want); n++; scale = std::max(scale, fabs(det::sum(want))); } scale = std::max(scale, fabs(det::sum(want)) + det::sum(dist[k].c));
        std::string d = differ(work[k].GetBinContents(), want, scale * 4); check(d == "", "distribution-differs", fmt("distribution %zu after %d systematics: ", k, n) + d); if (wantNorms) check(close(norms[k], det::sum(want), TOL, TOL * scale * 4), "norm-differs", fmt("%.10g instead of %.10g", norms[k], det::sum(want))); check(orig[k].GetBinContents() == dist[k].c, "input-changed", "original distribution"); if (n > 1) nontrivial();
      }
    } }
    // the book keeping
    std::set<std::string> have = allGroups(); size_t total = sys.size(); check(man.GetNSystematics() == total, "book-keeping-differs", "number of systematics"); check(man.GetNGroups() == have.size(), "book-keeping-differs", fmt("%zu groups instead of %zu", man.GetNGroups(), have.size())); check(std::set<std::string>(man.GetGroupNames()) == have, "book-keeping-differs", "group names");
    for (auto &g : have) { Strs n; for (auto &s : sys) if (s.group == g) n.push_back(s.s.name); check(man.GetSystematicsNamesInGroup(g) == n && man.GetGroup(g) == n && man.GetNSystematicsInGroup(g) == n.size() && man.GetSystematicsInGroup(g).size() == n.size(), "book-keeping-differs", "systematics of group " + g); } check(man.GetGlobalSystematics() == man.GetSystematicsInGroup(""), "book-keeping-differs", "global systematics"); check(man.GetSystematicsGroup().size() == have.size(), "book-keeping-differs", "map of groups"); check(attempt([&] { man.GetTotalResponse("nosuch"); }, &why) == ERR && attempt([&] { man.GetSystematicsNamesInGroup("nosuch"); }, &why) == ERR && attempt([&] { man.GetGroup("nosuch"); }, &why) == ERR, "unknown-group-accepted", "");
    if (!stale) for (auto &g : have) { Matrix m; bool any = false; for (auto &s : sys) if (s.group == g) { Matrix f = s.s.matrix(ax); if (!any) m = f; else { Matrix o(f.size(), Doubles(f.size(), 0.)); for (size_t p = 0; p < f.size(); p++) for (size_t k = 0; k < f.size(); k++) for (size_t c = 0; c < f.size(); c++) o[p][c] += f[p][k] * m[k][c]; m = o; } any = true; } if (!any) continue; const SparseMatrix &r = man.GetTotalResponse(g); double big = 1; for (auto &row : m) for (double x : row) big = std::max(big, std::fabs(x)); for (size_t p = 0; p < m.size(); p++) for (size_t k = 0; k < m.size(); k++) check(close(r.GetComponent(p, k), m[p][k], TOL * 4, TOL * 4 * big), "total-response-differs", fmt("group '%s' (%zu,%zu): %.10g instead of %.10g", g.c_str(), p, k, r.GetComponent(p, k), m[p][k])); probe("total-response"); }
    check(attempt([&] { man.GetNSystematicsInGroup("nosuch"); }, &why) == ERR && attempt([&] { man.GetSystematicsInGroup("nosuch"); }, &why) == ERR, "unknown-group-accepted", "");
  }
}
}
SIM_WORKLOAD("S02", systematic_history, 10, "") { history(false); }
SIM_WORKLOAD("S02", systematic_faults, 5, "") { history(true); }
SIM_WORKLOAD("S02", group_history, 8, "") { groups(false); }
SIM_WORKLOAD("S02", group_faults, 4, "") { groups(true); }
// the matrices behind the responses: any history of products and settings against plain arrays
namespace
{
struct Mat { size_t r, c; Matrix m; SparseMatrix s; DenseMatrix d; };
void matrices(bool faults)
{
  Quiet q; std::string why; std::vector<Mat> v; int steps = 0; auto zero = [](size_t r, size_t c) { return Matrix(r, Doubles(c, 0.)); };
  auto add = [&] { Mat n; n.r = 1 + choose(chance(0.2) ? 8 : 4); n.c = chance(0.6) && !v.empty() ? v[choose(v.size())].c : 1 + choose(4); if (chance(0.5)) n.r = n.c; n.m = zero(n.r, n.c); n.s = SparseMatrix(n.r, n.c); n.d = DenseMatrix(n.r, n.c); v.push_back(n); }; add(); add();
  auto value = [] { return range(-8, 8) / 4.; };
  Mat keep; size_t cur = 0; // what an interrupted operation left is not specified: it is set again before the retry
  auto run = [&](const std::function<void()> &f, bool &interrupted, bool dense = false) { interrupted = false; Out o; if (faults && chance(0.3)) { bool fired; { AllocFault af(1 + choose(4)); o = attempt([&] { f(); }, &why); fired = af.fired(); } if (o == NOMEM && fired) { probe("interrupted"); interrupted = true; if (dense) v[cur].d = keep.d; else v[cur].s = keep.s; o = attempt([&] { f(); }, &why); } else check(o != NOMEM, "unexpected-nomem", why); } else o = attempt([&] { f(); }, &why); return o; };
  while (steps < 30 && (steps < 6 || more(0.93)))
  {
    steps++; size_t i = choose(v.size()), j = choose(v.size()), op = choose(9); Mat &a = v[i]; keep = a; cur = i; ev("op %zu on %zu %zu", op, i, j); state(mix(op, mix(a.r * 8 + a.c, i == j))); bool it;
    switch (op)
    {
    case 0: if (v.size() < 4) add(); break;
    case 1: { size_t r = choose(a.r + 1), c = choose(a.c + 1); double x = value(); bool in = r < a.r && c < a.c; check(run([&] { a.s.SetComponent(r, c, x); }, it) == (in ? OK : ERR) && run([&] { a.d.SetComponent(r, c, x); }, it, true) == (in ? OK : ERR), "component-bounds", fmt("%zu %zu of %zux%zu", r, c, a.r, a.c)); if (in) a.m[r][c] = x; break; }
    case 2: check(run([&] { a.s.SetZeros(); }, it) == OK && run([&] { a.d.SetZeros(); }, it, true) == OK, "refused", why); a.m = zero(a.r, a.c); break;
    case 3: if (a.r == a.c) { check(run([&] { a.s.SetToIdentity(); }, it) == OK && run([&] { a.d.SetToIdentity(); }, it, true) == OK, "refused", why); a.m = zero(a.r, a.c); for (size_t k = 0; k < a.r; k++) a.m[k][k] = 1; } else check(run([&] { a.s.SetToIdentity(); }, it) == ERR, "identity-not-square", ""); break;
    case 4: { Matrix n = zero(a.r, a.c); std::vector<long long unsigned int> r, c; Doubles x; for (size_t p = 0; p < a.r; p++) for (size_t k = 0; k < a.c; k++) if (chance(0.5)) { r.push_back(p); c.push_back(k); x.push_back(value()); n[p][k] = x.back(); } if (chance(0.15)) { x.push_back(1); check(run([&] { a.s.SetComponents(r, c, x); }, it) == ERR, "uneven-components-accepted", ""); break; } if (x.empty()) break; check(run([&] { a.s.SetComponents(r, c, x); }, it) == OK, "refused", why); for (size_t p = 0; p < a.r; p++) for (size_t k = 0; k < a.c; k++) a.d.SetComponent(p, k, n[p][k]); a.m = n; break; }
    case 5: { double x = value(); if (chance(0.3)) { double big = 0; for (auto &row : a.m) for (double y : row) big = std::max(big, std::fabs(y)); x = big > 0 && big < 1e-7 ? 0x1p43 : 0x1p-43; probe("far-smaller"); } check(run([&] { a.s.Scale(x); }, it) == OK, "refused", why); for (size_t p = 0; p < a.r; p++) for (size_t k = 0; k < a.c; k++) { a.m[p][k] *= x; a.d.SetComponent(p, k, a.m[p][k]); } break; }
    case 6: { const Mat &b = v[j]; Matrix n; if (a.c == b.r) { n = zero(a.r, b.c); for (size_t p = 0; p < a.r; p++) for (size_t k = 0; k < b.c; k++) for (size_t l = 0; l < a.c; l++) n[p][k] += a.m[p][l] * b.m[l][k]; double big = 0; for (auto &row : n) for (double x : row) big = std::max(big, std::fabs(x)); if (big > 1e6) break; }
        bool sparseOnly = chance(0.4); if (sparseOnly) { SparseMatrix o; Out r = run([&] { o = a.s * b.s; }, it); check((r == OK) == (a.c == b.r), "product-size", fmt("%zux%zu times %zux%zu", a.r, a.c, b.r, b.c)); if (r == OK && v.size() < 6) { Mat w; w.r = a.r; w.c = b.c; w.m = n; w.s = o; w.d = DenseMatrix(w.r, w.c); for (size_t p = 0; p < w.r; p++) for (size_t k = 0; k < w.c; k++) w.d.SetComponent(p, k, n[p][k]); v.push_back(w); } break; }
        Out r = run([&] { a.s *= b.s; }, it), rd = run([&] { a.d *= b.d; }, it, true); check((r == OK) == (a.c == b.r) && rd == r, "product-size", fmt("%zux%zu times %zux%zu", a.r, a.c, b.r, b.c)); if (r == OK) { a.c = b.c; a.m = n; } probe("multiplied"); break; }
    case 7: if (v.size() < 5) { Mat w = a; v.push_back(w); } else { const Mat &w = v[j]; a = w; } break;
    default: { if (a.r != a.c || chance(0.1)) { Doubles x(a.r * (a.r + 1) / 2 + (a.r == a.c)); check(attempt([&] { a.d.SetSymmetricMatrix(x); }, &why) == ERR, "wrong-size-accepted", "symmetric matrix"); break; } Doubles x; Matrix n = zero(a.r, a.r); for (size_t p = 0; p < a.r; p++) for (size_t k = 0; k <= p; k++) { x.push_back(value()); n[p][k] = n[k][p] = x.back(); } check(run([&] { a.d.SetSymmetricMatrix(x); }, it, true) == OK, "refused", why); for (size_t p = 0; p < a.r; p++) for (size_t k = 0; k < a.r; k++) a.s.SetComponent(p, k, n[p][k]); a.m = n; }
    }
    for (size_t k = 0; k < v.size(); k++)
    {
      Mat &b = v[k]; check(b.s.GetNRows() == b.r && b.s.GetNCols() == b.c, "matrix-differs", fmt("size %zux%zu instead of %zux%zu", b.s.GetNRows(), b.s.GetNCols(), b.r, b.c)); for (size_t p = 0; p < b.r; p++) for (size_t c = 0; c < b.c; c++) check(close(b.s.GetComponent(p, c), b.m[p][c]) && close(b.d.GetComponent(p, c), b.m[p][c]), k == i ? "matrix-differs" : "unrelated-matrix-changed", fmt("matrix %zu (%zu,%zu): %.10g, %.10g instead of %.10g", k, p, c, b.s.GetComponent(p, c), b.d.GetComponent(p, c), b.m[p][c])); if (steps > 6) nontrivial();
    }
    cur = choose(v.size()); Mat &b = v[cur]; keep = b; Doubles in(chance(0.9) ? b.c : b.c + 1), want(b.r, 0.); for (double &x : in) x = value(); Doubles o1, o2; Out r1 = run([&] { o1 = b.s(in); }, it), r2 = run([&] { o2 = b.d(in); }, it, true); bool fit = in.size() == b.c; check((r1 == OK) == fit && (r2 == OK) == fit, "vector-size", why); if (fit) { for (size_t p = 0; p < b.r; p++) for (size_t c = 0; c < b.c; c++) want[p] += b.m[p][c] * in[c]; check(o1.size() == want.size() && o2.size() == want.size(), "vector-differs", "length"); for (size_t p = 0; p < b.r; p++) check(close(o1[p], want[p]) && close(o2[p], want[p]), "vector-differs", fmt("%.10g %.10g instead of %.10g", o1[p], o2[p], want[p])); }
  }
}
}
SIM_WORKLOAD("S02", matrix_history, 3, "") { matrices(false); }
SIM_WORKLOAD("S02", matrix_faults, 2, "") { matrices(true); }
