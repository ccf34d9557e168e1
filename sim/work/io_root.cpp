// R01: ROOT files and histograms hold exactly what was put in, or an error is raised.
#include "common.h"
#include <IO.h>
#include <DistTools.h>
#include <Gaussian.h>
#include <Histogram.h>
#include <BinnedED.h>
#include <ROOTNtuple.h>
#include <ROOTTree.h>
#include <TNtuple.h>
#include <TH1D.h>
#include <TH2D.h>
#include <TH3D.h>
using namespace work; using namespace sim;
namespace
{
struct Tab { std::string file, tree; bool ntuple; Strs names; std::vector<Doubles> rows; };
Tab table(int k)
{
  Tab t; t.file = fmt("f%d.root", k); t.tree = chance(0.5) ? "output" : fmt("t%d", k); t.ntuple = chance(0.5); size_t n = 1 + choose(5), e = choose(30); for (size_t i = 0; i < n; i++) t.names.push_back(fmt("o%zu_", i) + letters(1 + choose(6), k * 10 + i));
  for (size_t i = 0; i < e; i++) { Doubles r; for (size_t j = 0; j < n; j++) { double x = range(-4000, 4000) / 8. + (chance(0.1) ? 1e12 : 0); r.push_back(t.ntuple ? (double)(float)x : x); } t.rows.push_back(r); } return t;
}
void put(const Tab &t)
{
  std::string vars; for (auto &n : t.names) vars += (vars.empty() ? "" : ":") + n; std::shared_ptr<TObject> o;
  if (t.ntuple) { TNtuple *n = new TNtuple(t.tree.c_str(), "", vars.c_str()); o.reset(n); for (auto &r : t.rows) { std::vector<float> f(r.begin(), r.end()); n->Fill(f.data()); } }
  else { TTree *n = new TTree(t.tree.c_str(), ""); o.reset(n); for (size_t j = 0; j < t.names.size(); j++) { Doubles c; for (auto &r : t.rows) c.push_back(r[j]); n->SimAdd(t.names[j], c); } }
  simroot::disk().files[t.file].objects[t.tree] = o;
}
std::string diff(const Event &e, const Tab &t, const Doubles &r)
{
  if (e.GetObservableNames() != t.names) return "names"; if (e.GetNObservables() != t.names.size()) return "size";
  for (size_t j = 0; j < r.size(); j++) if (!sameBits(e.GetDatum(t.names[j]), r[j]) || !sameBits(e.GetData()[j], r[j])) return fmt("%s is %.10g instead of %.10g", t.names[j].c_str(), e.GetDatum(t.names[j]), r[j]); return "";
}
void readers()
{
  Quiet q; std::string why; simroot::Disk &d = simroot::disk(); d.reset(); { std::vector<Tab> tabs; int nt = 1 + (int)choose(3); for (int k = 0; k < nt; k++) { tabs.push_back(table(k)); put(tabs.back()); }
  struct Open { int tab; std::unique_ptr<DataSet> ds; }; std::vector<Open> open; int steps = 0; long held = 0;
  while (steps < 40 && (steps < 6 || more(0.95)))
  {
    steps++; size_t op = choose(7); ev("op %zu", op); state(mix(op, mix(open.size(), nt)));
    if (op == 0 || open.empty())
    {
      int k = (int)choose(nt); Tab &t = tabs[k]; std::string file = t.file, tree = t.tree; bool asNtuple = t.ntuple && chance(0.7), bad = chance(0.25); size_t how = bad ? choose(4) : 9;
      if (how == 0) file = "nosuch.root"; if (how == 1) tree = "nosuch"; if (how == 2) { d.files[file].unreadable = true; fault("unreadable-file"); } if (how == 3) { if (t.ntuple) how = 9; else asNtuple = true; } if (how == 9) bad = false;
      Open o; o.tab = k; bool fired = false; Out r; { std::unique_ptr<AllocFault> af; if (chance(0.15)) af.reset(new AllocFault(1 + choose(12))); r = attempt([&] { if (asNtuple) o.ds.reset(new ROOTNtuple(file, tree)); else o.ds.reset(new ROOTTree(file, tree)); }, &why); if (af) fired = af->fired(); } d.files[t.file].unreadable = false;
      check(fired || (r == OK) == !bad, bad ? "broken-file-accepted" : "open-failed", why); if (how == 0) d.files.erase("nosuch.root"); if (r == OK && open.size() < 5) { held++; open.push_back(std::move(o)); }
    }
    else if (op == 1) { size_t i = choose(open.size()); open.erase(open.begin() + i); held--; probe("closed"); }
    else
    {
      size_t i = choose(open.size()); Tab &t = tabs[open[i].tab]; DataSet &ds = *open[i].ds; check(ds.GetNEntries() == t.rows.size() && ds.GetNObservables() == t.names.size() && ds.GetObservableNames() == t.names, "data-set-differs", fmt("%u events of %u observables instead of %zu of %zu", ds.GetNEntries(), ds.GetNObservables(), t.rows.size(), t.names.size()));
      size_t n = choose(t.rows.size() + 2); bool in = n < t.rows.size(); bool fail = in && chance(0.2); if (fail) { d.failRead = 0; d.readError = chance(0.7) ? -1 : 0; fault("failed-read"); }
      std::unique_ptr<Event> ep; Out r = attempt([&] { ep.reset(new Event(ds.GetEntry(n))); }, &why); d.failRead = -1; check((r == OK) == (in && !fail), fail ? "failed-read-hidden" : in ? "read-failed" : "event-out-of-range", why); if (r == OK) { std::string x = diff(*ep, t, t.rows[n]); check(x == "", "event-differs", fmt("event %zu: ", n) + x); if (open.size() > 1) nontrivial(); }
      if (chance(0.2)) { if (ROOTNtuple *nt = dynamic_cast<ROOTNtuple *>(&ds)) { nt->LoadBaskets(); nt->DropBaskets(); } }
    }
    check(d.open == held, "file-left-open", fmt("%ld open instead of %ld", d.open, held));
  } } check(d.open == 0, "file-left-open", "at the end"); d.reset();
}
void saving()
{
  Quiet q; std::string why; simroot::Disk &d = simroot::disk(); d.reset(); int steps = 0;
  while (steps < 6 && (steps < 1 || more(0.8)))
  {
    steps++; Tab t = table(steps); t.tree = chance(0.5) ? "oxsx_saved" : "other"; bool bad = chance(0.1); if (bad) t.names[choose(t.names.size())] = chance(0.5) ? "a:b" : ""; OXSXDataSet ds; ds.SetObservableNames(t.names); for (auto &r : t.rows) ds.AddEntry(Event(r)); std::string file = chance(0.1) ? "x.dat" : chance(0.1) ? "noext" : t.file; bool ext = file == t.file;
    size_t how = choose(8); bool hit = true; switch (how) { case 0: d.writable = false; break; case 1: d.failFill = (long)choose(t.rows.size() + 3); hit = d.failFill < (long)t.rows.size(); break; case 2: d.failWrite = true; break; case 3: d.failClose = true; break; default: hit = false; } if (hit) fault(how == 0 ? "cannot-create" : how == 1 ? "failed-fill" : how == 2 ? "failed-write" : "failed-close"); else if (how == 7) fault("alloc-armed");
    bool fired = false; Out r; { std::unique_ptr<AllocFault> af; if (how == 7) af.reset(new AllocFault(1 + choose(60))); r = attempt([&] { if (t.tree == "oxsx_saved" && chance(0.5)) IO::SaveDataSet(ds, file); else IO::SaveDataSet(ds, file, t.tree); }, &why); if (af) fired = af->fired(); }
    d.writable = true; d.failFill = -1; d.failWrite = d.failClose = false; check(d.open == 0, "file-left-open", "after saving"); evaluation(); state(mix(how, mix(t.names.size(), t.rows.size() < 10 ? t.rows.size() : 10)));
    if (bad || !ext) { check(r != OK, bad ? "impossible-name-accepted" : "extension-accepted", file); continue; } if (hit) { check(r != OK, "failed-save-hidden", fmt("fault %zu", how)); } else check(r == OK || fired, "save-failed", why);
    if (r != OK) { Out s = attempt([&] { IO::SaveDataSet(ds, file, t.tree); }, &why); check(s == OK, "save-failed-after-fault", why); }
    Tab w = t; for (auto &row : w.rows) for (double &x : row) x = (double)(float)x;
    Out s = attempt([&] { ROOTNtuple n(file, t.tree); check(n.GetNEntries() == w.rows.size(), "saved-data-differs", fmt("%u events instead of %zu", n.GetNEntries(), w.rows.size())); for (size_t i = 0; i < w.rows.size(); i++) { std::string x = diff(n.GetEntry(i), w, w.rows[i]); check(x == "", "saved-data-differs", fmt("event %zu: ", i) + x); } }, &why); check(s == OK, "saved-data-unreadable", why); if (w.rows.size() > 2) nontrivial();
  }
  d.reset();
}
struct HAx { std::string name, latex; Doubles edges; };
void conversions()
{
  Quiet q; std::string why; simroot::Disk &d = simroot::disk(); d.reset(); size_t nd = 1 + choose(3); std::vector<HAx> ax; AxisCollection ac; size_t tot = 1;
  for (size_t k = 0; k < nd; k++) { HAx a; a.name = id("a", k); a.latex = chance(0.5) ? fmt("$A_%zu$", k) : ""; size_t n = 1 + choose(nd == 1 ? 12 : 5); bool equal = chance(0.4); double x = range(-20, 20) / 4., w = range(1, 12) / 4.; a.edges.push_back(x); for (size_t i = 0; i < n; i++) { x += equal ? w : range(1, 12) / 4.; a.edges.push_back(x); } Doubles lo(a.edges.begin(), a.edges.end() - 1), hi(a.edges.begin() + 1, a.edges.end()); ac.AddAxis(BinAxis(a.name, lo, hi, a.latex)); if (a.latex == "") a.latex = a.name; ax.push_back(a); tot *= n; }
  Histogram h(ac); Doubles c; for (size_t i = 0; i < tot; i++) c.push_back(chance(0.2) ? 0 : range(-40, 400) / 8.); h.SetBinContents(c); BinnedED e("e", h); evaluation(); state(mix(nd, tot)); bool viaEd = chance(0.5), width = chance(0.3); if (tot > 2) nontrivial();
  auto same = [&](const Histogram &b, const char *what) { check(b.GetNDims() == nd && b.GetNBins() == tot, "histogram-differs", what); for (size_t k = 0; k < nd; k++) { const BinAxis &x = b.GetAxes().GetAxis(k); check(x.GetName() == ax[k].latex && x.GetNBins() + 1 == ax[k].edges.size(), "histogram-differs", fmt("%s: axis %zu", what, k)); for (size_t i = 0; i + 1 < ax[k].edges.size(); i++) check(close(x.GetBinLowEdge(i), ax[k].edges[i]) && close(x.GetBinHighEdge(i), ax[k].edges[i + 1]), "histogram-differs", fmt("%s: axis %zu bin %zu from %.10g to %.10g instead of %.10g to %.10g", what, k, i, x.GetBinLowEdge(i), x.GetBinHighEdge(i), ax[k].edges[i], ax[k].edges[i + 1])); } for (size_t i = 0; i < tot; i++) check(close(b.GetBinContent(i), c[i]), "histogram-differs", fmt("%s: bin %zu holds %.10g instead of %.10g", what, i, b.GetBinContent(i), c[i])); };
  auto sameRoot = [&](const TH1 &t, bool w, const char *what) { size_t n[3] = {1, 1, 1}; const TAxis *a[3] = {t.GetXaxis(), t.GetYaxis(), t.GetZaxis()}; for (size_t k = 0; k < nd; k++) { n[k] = ax[k].edges.size() - 1; check(a[k]->GetNbins() == (int)n[k] && a[k]->GetTitle() == ax[k].latex, "root-histogram-differs", fmt("%s: axis %zu", what, k)); for (size_t i = 0; i < n[k]; i++) check(close(a[k]->GetBinLowEdge(i + 1), ax[k].edges[i]) && close(a[k]->GetBinUpEdge(i + 1), ax[k].edges[i + 1]), "root-histogram-differs", fmt("%s: axis %zu bin %zu edges", what, k, i)); }
    for (size_t i = 0; i < tot; i++) { std::vector<size_t> u = h.UnpackIndices(i); u.resize(3, 0); double got = t.GetBinContent(t.GetBin((int)u[0] + 1, nd > 1 ? (int)u[1] + 1 : 0, nd > 2 ? (int)u[2] + 1 : 0)), want = c[i] / (w ? ax[0].edges[i + 1] - ax[0].edges[i] : 1); check(close(got, want), "root-histogram-differs", fmt("%s: bin %zu holds %.10g instead of %.10g", what, i, got, want)); } };
  Out r;
  if (nd == 1) { TH1D t; r = attempt([&] { t = viaEd ? (width ? DistTools::ToTH1D(e, true) : DistTools::ToTH1D(e)) : (width ? DistTools::ToTH1D(h, true) : DistTools::ToTH1D(h)); }, &why); check(r == OK, "conversion-failed", why); sameRoot(t, width, "TH1D"); if (!width) same(DistTools::ToHist(t), "from TH1D"); }
  else check(attempt([&] { if (viaEd) DistTools::ToTH1D(e); else DistTools::ToTH1D(h); }, &why) == ERR, "wrong-dimension-accepted", "TH1D");
  if (nd == 2) { TH2D t; r = attempt([&] { t = viaEd ? DistTools::ToTH2D(e) : DistTools::ToTH2D(h); }, &why); check(r == OK, "conversion-failed", why); sameRoot(t, false, "TH2D"); same(DistTools::ToHist(t), "from TH2D"); }
  else check(attempt([&] { if (viaEd) DistTools::ToTH2D(e); else DistTools::ToTH2D(h); }, &why) == ERR, "wrong-dimension-accepted", "TH2D");
  if (nd == 3) { TH3D t; r = attempt([&] { t = viaEd ? DistTools::ToTH3D(e) : DistTools::ToTH3D(h); }, &why); check(r == OK, "conversion-failed", why); sameRoot(t, false, "TH3D"); same(DistTools::ToHist(t), "from TH3D"); }
  else check(attempt([&] { if (viaEd) DistTools::ToTH3D(e); else DistTools::ToTH3D(h); }, &why) == ERR, "wrong-dimension-accepted", "TH3D");
  // files with histograms
  size_t how = choose(6); switch (how) { case 0: d.writable = false; break; case 1: d.failWrite = true; break; case 2: d.failClose = true; break; } if (how < 3) fault(how == 0 ? "cannot-create" : how == 1 ? "failed-write" : "failed-close"); r = attempt([&] { IO::SaveHistogram(h, "h.root", "myhist"); }, &why); d.writable = true; d.failWrite = d.failClose = false;
  check((r == OK) == (nd < 3 && how >= 3), nd > 2 ? "wrong-dimension-accepted" : how < 3 ? "failed-save-hidden" : "save-failed", why); check(d.open == 0, "file-left-open", "after saving");
  if (r == OK) { TFile f("h.root"); TObject *o = f.Get("myhist"); check(o != 0, "saved-histogram-missing", ""); TH1 *t = dynamic_cast<TH1 *>(o); check(t != 0, "saved-histogram-missing", "not a histogram"); sameRoot(*t, false, "saved"); }
  // a function turned into a histogram
  Doubles m, s; size_t gd = chance(0.85) ? nd : nd + 1; for (size_t k = 0; k < gd; k++) { m.push_back(range(-20, 20) / 4.); s.push_back(range(2, 16) / 4.); } Gaussian g(m, s); Histogram gh; r = attempt([&] { gh = DistTools::ToHist(g, ac); }, &why); check((r == OK) == (gd == nd), gd == nd ? "conversion-failed" : "wrong-dimension-accepted", why);
  if (r == OK) for (size_t i = 0; i < tot; i++) { double want = 1; std::vector<size_t> u = h.UnpackIndices(i); for (size_t k = 0; k < nd; k++) want *= 0.5 * (erf((ax[k].edges[u[k] + 1] - m[k]) / s[k] / sqrt(2.)) - erf((ax[k].edges[u[k]] - m[k]) / s[k] / sqrt(2.))); check(close(gh.GetBinContent(i), want, 2e-6, 2e-6), "function-histogram-differs", fmt("bin %zu holds %.10g instead of %.10g", i, gh.GetBinContent(i), want)); }
  d.reset();
}
}
SIM_WORKLOAD("R01", root_readers, 6, "") { readers(); }
SIM_WORKLOAD("R01", root_saving, 5, "") { saving(); }
SIM_WORKLOAD("R01", root_conversions, 5, "") { conversions(); }
