// A binned likelihood and everything it should know, kept as plain numbers: what a user set up by any
// history of calls, and what the likelihood is defined to be for it.
#ifndef WORK_LIKEWORLD_H
#define WORK_LIKEWORLD_H
#include "detector.h"
#include <BinnedNLLH.h>
#include <BoxCut.h>

namespace like
{
using namespace work; using namespace sim; using namespace det;
struct Pdf { std::string name, pname; Axes ax; Doubles c; NormFittingStatus status; Strs groups; int gen; };
struct Sys { Spec s; std::shared_ptr<Systematic> p; std::string group; };
struct Con { double mean, lo, hi; };
struct Box { std::string obs; double lo, hi; };
inline Doubles project(const Axes &from, const Doubles &c, const Axes &to) { Doubles r(nBins(to), 0.); for (size_t b = 0; b < c.size(); b++) { std::vector<size_t> u = unpack(from, b), v; for (auto &a : to) v.push_back(u[indexOf(from, a.name)]); r[pack(to, v)] += c[b]; } return r; }
typedef std::map<std::string, std::pair<unsigned, unsigned>> Buffers;
inline Doubles shrink(const Axes &ax, const Doubles &c, const Buffers &buf, bool over)
{
  Axes n = ax; for (size_t i = 0; i < ax.size(); i++) if (buf.count(ax[i].name)) { auto b = buf.at(ax[i].name); size_t k = ax[i].lo.size() - b.first - b.second; n[i].lo.assign(ax[i].lo.begin() + b.first, ax[i].lo.begin() + b.first + k); }
  Doubles r(nBins(n), 0.);
  for (size_t b = 0; b < c.size(); b++) { std::vector<size_t> u = unpack(ax, b); bool in = true; for (size_t i = 0; i < ax.size(); i++) { long k = (long)u[i] - (buf.count(ax[i].name) ? (long)buf.at(ax[i].name).first : 0), m = (long)n[i].lo.size(); if (k < 0 || k >= m) in = false; u[i] = (size_t)std::min(std::max(k, 0l), m - 1); } if (in || over) r[pack(n, u)] += c[b]; }
  return r;
}
// a constraint on more than one parameter
struct Extra { Strs uses; std::function<double(const ParameterDict &)> f; };
struct Expected { bool usable, zero; double value, tol; Doubles norms; bool alternative; double value2; };
struct World
{
  std::string tag; Axes full, dataAx; bool marginal, normed, bb, smeared, alone, twins; std::vector<Pdf> pdfs; std::vector<Sys> sys; std::map<std::string, Con> cons; std::vector<Extra> extra; std::set<std::string> paired; ParameterDict cur;
  Buffers buf; bool over; Doubles data; bool haveData, binned, logged; std::vector<int> cutCounts; std::vector<Doubles> events; Strs evObs; std::vector<Box> cuts; std::shared_ptr<OXSXDataSet> ds; std::shared_ptr<BinnedNLLH> lh; std::shared_ptr<Bomb> bomb; std::string why;
  World() : marginal(false), normed(true), bb(false), smeared(false), alone(true), twins(false), over(false), haveData(false), binned(false), logged(false) {}

  std::set<std::string> paramNames() const { std::set<std::string> s; for (auto &p : pdfs) if (p.status != FALSE) s.insert(p.pname); for (auto &y : sys) if (y.s.kind != RENORM) s.insert(y.s.pname.begin(), y.s.pname.end()); return s; }
  Doubles contents(const Axes &ax, bool norm) { Doubles c(nBins(ax)); bool holes = chance(0.15); for (double &x : c) x = holes && chance(0.3) ? 0 : range(1, 32) / 8.; if (det::sum(c) == 0) c[0] = 1; if (norm) { double s = det::sum(c); for (double &x : c) x /= s; } return c; }
  Axes shuffled(Axes a) { Axes r; while (!a.empty()) { size_t j = choose(a.size()); r.push_back(a[j]); a.erase(a.begin() + j); } return r; }
  void setup(const std::string &t, size_t nSys, size_t nPdf)
  {
    tag = t; lh.reset(new BinnedNLLH); bomb.reset(new Bomb); normed = chance(0.75); bb = normed && chance(0.25); marginal = chance(0.2); size_t nd = 1 + choose(2); Strs n; n.push_back(obsName(0)); n.push_back(obsName(1)); for (size_t i = 0; i < nd; i++) full.push_back(axis(n[i], true, nd == 1 ? (chance(0.05) ? 30 : 6) : 4)); dataAx = full; if (marginal) full.push_back(axis(nameScheme() ? id("x", 2) : "m", true, 3)); full = shuffled(full); if (chance(0.4)) dataAx = shuffled(dataAx); if (!marginal && chance(0.5)) dataAx = full;
    for (size_t i = 0; i < nSys; i++) addSys();
    bool viaManagers = !bb && chance(0.25);
    if (viaManagers)
    { // the user makes the managers first
      BinnedEDManager man; SystematicManager sm; for (auto &s : sys) { if (s.group == "") sm.Add(s.p.get()); else sm.Add(s.p.get(), s.group); } for (size_t i = 0; i < nPdf; i++) { Pdf p = makePdf(); man.AddPdf(ed(p), p.status); sm.AddDist(ed(p), p.groups.empty() ? Strs(1, "") : p.groups); pdfs.push_back(p); }
      for (auto &p : pdfs) if (p.status != FALSE && chance(0.3)) { std::string nn = p.pname + "_r"; man.RenameParameter(p.pname, nn); p.pname = nn; }
      lh->SetSystematicManager(sm); lh->SetPdfManager(man); probe("managers-set");
    }
    else { addSystematics(); if (bb && chance(0.5)) lh->SetBarlowBeeston(true); if (chance(0.3)) addPdfsAtOnce(nPdf); else for (size_t i = 0; i < nPdf; i++) addPdf(); if (bb) lh->SetBarlowBeeston(true); }
    reg();
  }
  void addSystematics()
  {
    bool plain = true; for (auto &s : sys) plain = plain && s.group == ""; std::vector<Systematic *> p; Strs g; for (auto &s : sys) { p.push_back(s.p.get()); g.push_back(s.group); }
    if (chance(0.3)) { Strs wrong = g; wrong.push_back("x"); check(attempt([&] { lh->AddSystematics(p, wrong); }, &why) == ERR, "wrong-number-accepted", "systematics and groups"); if (plain && chance(0.5)) lh->AddSystematics(p); else lh->AddSystematics(p, g); probe("systematics-at-once"); return; }
    for (auto &s : sys) if (s.group == "" && chance(0.7)) lh->AddSystematic(s.p.get()); else lh->AddSystematic(s.p.get(), s.group);
  }
  void reg() { lh->RegisterFitComponents(); }
  void addSys() { Sys y; int kind = (int)choose(NKINDS); int same = 0; std::string other; for (auto &z : sys) if (z.s.kind == kind) { same++; other = z.group; } if (same > 1 || (same == 1 && (other == "" || chance(0.4)))) return; Strs t = pickTrans(kind, full); y.s = spec(kind, fmt(same ? "t%d" : "s%d", kind), t.size());
    if (same && chance(0.7)) { y.s.name = fmt("s%d", kind); twins = true; probe("same-name-in-two-groups"); }
    y.s.trans = t; y.p.reset(realise(y.s, bomb)); setParams(y.p.get(), y.s); y.p->SetAxes(det::build(full)); y.p->SetDistributionObs(ObsSet(namesOf(full))); y.p->SetTransformationObs(ObsSet(t)); y.group = same ? other == "g" ? "h" : "g" : chance(0.6) ? "" : chance(0.5) ? "g" : "h"; if (kind == CONV || kind == VARCONV) smeared = true; sys.push_back(y); }
  BinnedED ed(const Pdf &p) { BinnedED e(p.name, det::build(p.ax)); e.SetObservables(namesOf(p.ax)); e.SetBinContents(p.c); return e; }
  Pdf makePdf()
  {
    Pdf p; p.name = p.pname = id("n", pdfs.size()); p.ax = full; if (sys.empty() && chance(0.4)) p.ax = shuffled(chance(0.5) ? dataAx : full); p.c = contents(p.ax, normed); p.status = (NormFittingStatus)choose(3); if (!normed && p.status == DIRECT) p.status = INDIRECT; p.gen = 1 + (int)choose(chance(0.5) ? 3 : 2000);
    std::set<std::string> g; for (auto &s : sys) if (s.group != "") g.insert(s.group); for (auto &x : g) if (chance(0.6)) p.groups.push_back(x); if (p.groups.size() > 1 && chance(0.5)) std::swap(p.groups[0], p.groups[1]); if (twins && p.groups.size() > 1) p.groups.pop_back(); return p;
  }
  void addPdf() { Pdf p = makePdf(); if (!pdfs.empty() && chance(0.4)) p.status = pdfs[0].status; BinnedED e = ed(p); if (bb) { if (p.groups.empty() && chance(0.5)) lh->AddPdf(e, p.gen, p.status); else if (p.groups.empty()) lh->AddPdf(e, Strs(1, ""), p.gen, p.status); else lh->AddPdf(e, p.groups, p.gen, p.status); } else if (p.groups.empty()) { if (p.status == INDIRECT && chance(0.3)) lh->AddPdf(e); else lh->AddPdf(e, p.status); } else lh->AddPdf(e, p.groups, p.status); pdfs.push_back(p); }
  // several distributions in one call
  void addPdfsAtOnce(size_t n)
  {
    std::vector<BinnedED> e; std::vector<int> gen; std::vector<Strs> groups; std::vector<NormFittingStatus> st; bool plain = true, def = chance(0.25); std::vector<Pdf> add;
    for (size_t i = 0; i < n; i++) { Pdf p = makePdf(); if (def) p.status = INDIRECT; pdfs.push_back(p); add.push_back(p); e.push_back(ed(p)); gen.push_back(p.gen); groups.push_back(p.groups.empty() ? Strs(1, "") : p.groups); st.push_back(p.status); plain = plain && p.groups.empty(); }
    bool noGroups = plain && chance(0.5), withGen = bb || chance(0.3); const std::vector<NormFittingStatus> *s = def ? 0 : &st;
    if (noGroups) { if (withGen) lh->AddPdfs(e, gen, s); else lh->AddPdfs(e, s); } else { if (withGen) lh->AddPdfs(e, groups, gen, s); else lh->AddPdfs(e, groups, s); } probe("pdfs-at-once");
  }
  // all parameters of this likelihood, drawn afresh
  void draw(ParameterDict &d)
  {
    bool keep = !cur.empty() && chance(0.25); size_t only = choose(pdfs.size() + 1); // everything else stays as it is
    for (size_t i = 0; i < pdfs.size(); i++) { Pdf &p = pdfs[i]; if (p.status == FALSE) continue; if (keep && i != only && cur.count(p.pname)) d[p.pname] = cur.at(p.pname); else if (keep && cur.count(p.pname) && chance(0.4)) d[p.pname] = cur.at(p.pname) * (1 + (chance(0.5) ? 1e-5 : 5e-9)); else d[p.pname] = chance(0.05) ? 0 : range(1, 80) / 4. * (bb && alone && extra.empty() && chance(0.05) ? 400 : 1) * (alone && extra.empty() && pdfs.size() > 1 && chance(0.04) ? -0.2 : 1); }
    if (!keep || only == pdfs.size()) for (auto &y : sys) { y.s.draw(); ParameterDict q = y.s.params(); for (auto &k : q) d[k.first] = k.second; }
    else for (auto &y : sys) { ParameterDict q = y.s.params(); for (auto &k : q) d[k.first] = k.second; }
  }
  void applied(const ParameterDict &d) { for (auto &n : paramNames()) cur[n] = d.at(n); for (auto &y : sys) for (size_t i = 0; i < y.s.pname.size(); i++) if (y.s.kind != RENORM) y.s.pval[i] = d.at(y.s.pname[i]); }
  void renorms() { for (auto &y : sys) if (y.s.kind == RENORM) setParams(y.p.get(), y.s); } // has no fit parameter
  void newDataDist() { data.assign(nBins(dataAx), 0.); for (double &x : data) x = chance(0.3) ? 0 : (double)choose(20); if (chance(0.15)) data[choose(data.size())] *= -0.25; /* some backgrounds are subtracted */ if (chance(0.15)) for (double &x : data) x *= 0.125; BinnedED e("data", det::build(dataAx)); e.SetObservables(namesOf(dataAx)); e.SetBinContents(data); lh->SetDataDist(e); haveData = binned = true; logged = false; }
  bool canBin() const { return !marginal && namesOf(dataAx) == namesOf(pdfs[0].ax); }
  void newDataSet() { bool grow = ds && lh->GetDataSet() == ds.get() && chance(0.5); if (!grow) { evObs = namesOf(dataAx); evObs.push_back("u"); for (size_t i = 0; i < evObs.size(); i++) std::swap(evObs[i], evObs[i + choose(evObs.size() - i)]); ds.reset(new OXSXDataSet); ds->SetObservableNames(evObs); events.clear(); } else probe("data-set-grown"); size_t n = choose(20); for (size_t i = 0; i < n; i++) { Doubles v; for (auto &o : evObs) { size_t k = indexOf(dataAx, o); if (k == (size_t)-1) v.push_back((double)choose(100)); else { const Ax &a = dataAx[k]; size_t b = choose(a.lo.size()); double x = a.lo[b] + (a.hi[b] - a.lo[b]) * range(1, 15) / 16.; if (chance(0.1)) x = a.lo[0] - 1; if (chance(0.1)) x = a.hi.back() + 1; v.push_back(x); } } events.push_back(v); ds->AddEntry(Event(v)); } haveData = true; binned = logged = false; if (grow && canBin() && chance(0.5)) { lh->BinData(); bin(); } else lh->SetDataSet(ds.get()); }
  void bin() { data.assign(nBins(dataAx), 0.); cutCounts.assign(cuts.size(), 0); logged = true; for (auto &v : events) { bool pass = true; for (size_t i = 0; i < cuts.size() && pass; i++) { const Box &c = cuts[i]; double x = v[std::find(evObs.begin(), evObs.end(), c.obs) - evObs.begin()]; if (!(x > c.lo && x < c.hi)) { pass = false; cutCounts[i]++; } } if (!pass) continue; std::vector<size_t> u; for (auto &a : dataAx) u.push_back(findBin(a, v[std::find(evObs.begin(), evObs.end(), a.name) - evObs.begin()])); data[pack(dataAx, u)]++; } binned = true; }
  void addCut() { if (chance(0.3)) { cuts.clear(); CutCollection none; lh->SetCuts(none); } if (cuts.size() > 3) return; Box b; b.obs = dataAx[choose(dataAx.size())].name; const Ax &a = dataAx[indexOf(dataAx, b.obs)]; b.lo = chance(0.5) ? a.lo[0] - 5 : a.lo[0] + 0.013; b.hi = a.hi.back() + (chance(0.5) ? 5 : -0.017); BoxCut c(id("c", cuts.size()), b.obs, b.lo, b.hi); if (chance(0.3)) { CutCollection all = lh->GetCuts(); all.AddCut(c); lh->SetCuts(all); } else lh->AddCut(c); cuts.push_back(b); }
  void newBuffer() { const Ax &a = dataAx[choose(dataAx.size())]; unsigned n = (unsigned)a.lo.size(), lo = (unsigned)choose(n), hi = (unsigned)choose(n - lo); lh->SetBuffer(a.name, lo, hi); buf[a.name] = std::make_pair(lo, hi); for (auto &b : buf) check(lh->GetBuffer(b.first) == b.second, "buffer-differs", "of " + b.first); check(lh->GetBufferAsOverflow() == over, "buffer-differs", "overflow"); }
  // constraints on several parameters, on a function of them or on a grid
  bool constrainMore(const std::set<std::string> &all)
  {
    Strs n(all.begin(), all.end()); for (size_t i = 0; i < n.size(); i++) std::swap(n[i], n[i + choose(n.size() - i)]); if (n.size() < 2) return false; std::string a = n[0], b = n[1]; double m = range(1, 40) / 4., s = range(4, 24) / 4., m2 = range(1, 40) / 4., s2 = range(4, 24) / 4., r = range(-7, 7) / 8.; Extra x; x.uses.push_back(a); x.uses.push_back(b); for (auto &e : extra) if (e.uses == x.uses) return false;
    switch (choose(4))
    {
    case 0: { bool clash = cons.count(a) || cons.count(b) || paired.count(a) || paired.count(b); Out o = attempt([&] { lh->SetConstraint(a, m, s, b, m2, s2, r); }, &why); check((o == ERR) == clash, clash ? "conflict-accepted" : "constraint-refused", a + " " + b); if (clash) return false; paired.insert(a); paired.insert(b); x.f = [=](const ParameterDict &p) { double u = (p.at(a) - m) / s, v = (p.at(b) - m2) / s2; return (u * u - 2 * r * u * v + v * v) / (2 * (1 - r * r)); }; break; }
    case 1: lh->SetConstraint(a, b, m, s); x.f = [=](const ParameterDict &p) { double q = p.at(b); if (q == 0) q = 1e-8; double d = p.at(a) / q - m; return d * d / (2 * s * s); }; break;
    case 2: { ParameterDict d; d[a] = 1; d[b] = (double)extra.size(); lh->SetConstraint(d, [=](const ParameterDict &p) { return p.at(a) + 3 * p.at(b); }, m, s); x.f = [=](const ParameterDict &p) { double q = p.at(a) + 3 * p.at(b) - m; return q * q / (2 * s * s); }; break; }
    default: { for (auto &x : cur) if (x.second > 29 || x.second < -2) return false; AxisCollection ax; ax.AddAxis(BinAxis(a, -5, 30, 7)); ax.AddAxis(BinAxis(b, -5, 30, 7)); Histogram h(ax); double k = range(-8, 8) / 8., l = range(-8, 8) / 8.; for (size_t i = 0; i < 49; i++) { Doubles c(2); h.GetBinCentres(i, c); h.SetBinContent(i, 20 + k * c[0] + l * c[1]); } lh->SetConstraint(fmt("grid%zu", extra.size()), h); x.f = [=](const ParameterDict &p) { return 20 + k * p.at(a) + l * p.at(b); }; }
    }
    extra.push_back(x); probe("constraint-on-several"); return true;
  }
  void freshConstraints() { ConstraintManager m; cons.clear(); extra.clear(); paired.clear(); if (chance(0.5)) { std::set<std::string> n = paramNames(); if (!n.empty()) { Con c; c.mean = 3; c.lo = c.hi = 2; m.SetConstraint(*n.begin(), 3, 2); cons[*n.begin()] = c; } } lh->SetConstraintManager(m); probe("constraints-replaced"); }
  bool constrain(const std::set<std::string> &names) { if (chance(0.3)) return constrainMore(names); if (chance(0.05)) { freshConstraints(); return true; } for (auto &n : names) if (paired.count(n)) return false; for (auto &n : names) if (!cons.count(n) && chance(0.5)) { Con c; c.mean = range(0, 40) / 4.; c.lo = c.hi = range(1, 12) / 4.; if (chance(0.5)) { lh->SetConstraint(n, c.mean, c.lo); } else { c.lo = range(1, 12) / 4.; lh->SetConstraint(n, c.mean, c.lo, c.hi); } cons[n] = c; return true; } return false; }
  static double penalty(const std::map<std::string, Con> &cons, const ParameterDict &p) { double v = 0; for (auto &c : cons) { double d = p.at(c.first) - c.second.mean, s = d > 0 ? c.second.hi : c.second.lo; v += d * d / (2 * s * s); } return v; }

  Expected expect()
  {
    Expected e; e.usable = true; e.zero = false; e.value = e.tol = 0; e.alternative = false; e.value2 = 0; std::vector<Doubles> fin; double scale = 1; std::map<const Systematic *, Matrix> mat; for (auto &y : sys) mat[y.p.get()] = y.s.matrix(full);
    Doubles n(pdfs.size()), n2(pdfs.size());
    for (size_t i = 0; i < pdfs.size(); i++)
    {
      Pdf &p = pdfs[i]; Doubles c = p.c; double big = det::sum(c); Strs g = p.groups; g.insert(g.begin(), ""); for (auto &gr : g) for (auto &y : sys) if (y.group == gr) { c = times(mat[y.p.get()], c); big = std::max(big, det::sum(c)); }
      c = project(p.ax, c, dataAx); if (!buf.empty()) c = shrink(dataAx, c, buf, over); double in = det::sum(c), par = p.status == FALSE ? 1 : cur[p.pname];
      n[i] = n2[i] = par; if (p.status == DIRECT && !buf.empty()) { if (in < 1e-6 * big) e.usable = false; n[i] = n2[i] = par / in; } if (p.status == DIRECT && buf.empty()) { if (in < 1e-6 * big) e.usable = false; n2[i] = par / in; if (std::fabs(in - 1) > 1e-7) e.alternative = true; }
      e.norms.push_back(p.status == DIRECT ? par : p.status == INDIRECT ? par * in : in); scale = std::max(scale, big * std::max(n[i], n2[i])); fin.push_back(c);
    }
    Doubles d = buf.empty() ? data : shrink(dataAx, data, buf, over);
    for (int alt = 0; alt < 2; alt++)
    {
      const Doubles &w = alt ? n2 : n; double v = 0, mag = 1;
      for (size_t b = 0; b < d.size(); b++)
      {
        double p = 0; for (size_t i = 0; i < pdfs.size(); i++) p += w[i] * fin[i][b]; if (p == 0) e.zero = true; if (p < 1e-5 * scale && (p > 0 || smeared)) e.usable = false; if (p == 0) continue; if (p < 0) { if (bb || d[b] != 0) e.usable = false; else { v += p; mag -= p; } continue; } if (bb && d[b] < 0) e.usable = false;
        double q = p, pen = 0; if (bb) { double s2 = 0; for (size_t i = 0; i < pdfs.size(); i++) s2 += e.norms[i] / (pdfs[i].gen * p * p); if (!(s2 > 1e-9 / (p * p))) e.usable = false; double k = p * s2 - 1, root = sqrt(k * k + 4 * d[b] * s2), beta = k > 0 ? 2 * d[b] * s2 / (k + root) : (root - k) / 2; q = beta * p; pen = (beta - 1) * (beta - 1) / (2 * s2); if (q < 1e-6 && d[b] > 0) e.usable = false; }
        double l = d[b] != 0 ? -d[b] * log(q) : 0; v += l + pen + q; mag += fabs(l) + pen + q; e.tol += smeared ? TOL * 8 * scale * (1 + fabs(d[b]) / p) * (bb ? 1 + fabs(pen) * 4 : 1) : 0;
      }
      e.tol = std::max(e.tol, 0.) + 1e-9 * mag; (alt ? e.value2 : e.value) = v;
    }
    double c = penalty(cons, cur); for (auto &x : extra) c += x.f(cur); e.value += c; e.value2 += c; e.tol += 1e-9 * c; return e;
  }
  bool ready() const { if (!haveData) return false; for (auto &n : paramNames()) if (!cur.count(n)) return false; return true; }
  // evaluates (within what) and compares; false when the likelihood is not defined here
  void verify(const char *when)
  {
    renorms(); if (!binned) bin(); Expected e = expect(); double v = 0; bool again = chance(0.5); Out o = attempt([&] { v = lh->Evaluate(); }, &why);
    if (e.usable)
    {
      if (e.zero) { check(o == ERR, "zero-probability-accepted", fmt("%s %s: %.10g", tag.c_str(), when, v)); probe("zero-probability"); return; }
      check(o == OK, "evaluation-failed", tag + " " + when + ": " + why); bool ok = close(v, e.value, 0, e.tol) || (e.alternative && close(v, e.value2, 0, e.tol)); check(ok, "likelihood-differs", fmt("%s %s: %.12g instead of %.12g", tag.c_str(), when, v, e.value)); compareRest(e);
    }
    if (o == OK && again) { double w = 0; o = attempt([&] { w = lh->Evaluate(); }, &why); check(o == OK && close(v, w), "second-evaluation-differs", fmt("%s %.17g then %.17g ", tag.c_str(), v, w) + why); if (e.usable) compareRest(e); probe("evaluated-again"); }
  }
  void compareRest(const Expected &e)
  {
    if (!cutCounts.empty() || cuts.empty()) if (ds && lh->GetDataSet() == ds.get() && logged) { CutLog l = lh->GetSignalCutLog(); Strs n; for (size_t i = 0; i < cuts.size(); i++) n.push_back(id("c", i)); if (n.size() == cutCounts.size()) { check(l.GetCutNames() == n, "cut-log-differs", "names of the cuts"); check(l.GetCutCounts() == cutCounts, "cut-log-differs", "events removed"); } }
    BinnedED g = lh->GetDataDist(); Doubles want = buf.empty() ? data : shrink(dataAx, data, buf, over); check(g.GetBinContents() == want, "data-differs", tag + ": data compared with"); ParameterDict q = lh->GetParameters(); check(q == cur, "parameters-differ", tag + ": parameters after evaluation"); check(lh->GetParameterCount() == cur.size() && lh->GetParameterNames() == paramNames(), "parameters-differ", tag + ": names");
    if (normed) { Doubles n = lh->GetNormalisations(); check(n.size() == e.norms.size(), "normalisations-differ", "number"); for (size_t i = 0; i < n.size(); i++) check(close(n[i], e.norms[i], TOL * 4, TOL * 8), "normalisations-differ", fmt("%s distribution %zu (%s): %.10g instead of %.10g", tag.c_str(), i, pdfs[i].status == DIRECT ? "direct" : pdfs[i].status == FALSE ? "no norm" : "indirect", n[i], e.norms[i])); }
  }
};
}
#endif
