// Text reports (D06): a report that SaveAs says it wrote is completely on disk, or SaveAs throws.
#include "io_faults.h"
#include <FitResult.h>
#include <CutLog.h>
#include <CountingResult.h>
#include <iomanip>
using namespace work;
using namespace sim;
namespace
{
std::string slurp(const std::string &f) { std::vector<char> c = disk::contents(f); return std::string(c.begin(), c.end()); }
std::vector<Strs> tokens(const std::string &s) { std::vector<Strs> r; std::istringstream is(s); std::string l; while (std::getline(is, l)) { std::istringstream w(l); Strs t; std::string x; while (w >> x) t.push_back(x); r.push_back(t); } return r; }
bool near(const std::string &txt, double v, int prec) { std::ostringstream o; o << std::setprecision(prec) << v; double a = strtod(txt.c_str(), 0), b = strtod(o.str().c_str(), 0); return txt == o.str() || a == b || (std::isnan(a) && std::isnan(b)) || fabs(a - b) <= fabs(v) * pow(10.0, -prec) * 2; }
CutLog cutLog(Strs &nm, std::vector<int> &cut, int &pass, size_t maxCuts)
{
  nm.clear(); cut.clear(); size_t n = choose(maxCuts + 1); for (size_t i = 0; i < n; i++) { nm.push_back(fmt("cut%zu", i) + letters(choose(5), i)); cut.push_back(0); }
  CutLog l(nm); int evs = 1 + (int)choose(60); pass = 0;
  for (int i = 0; i < evs; i++) { size_t k = choose(n + 1); if (k < n) { l.LogCut(k); cut[k]++; } else { l.LogPass(); pass++; } }
  return l;
}
// the lines a cut log must contain
std::string cutLines(const std::vector<Strs> &t, const Strs &nm, const std::vector<int> &cut, int pass)
{
  int n = pass; for (int c : cut) n += c; int rem = n;
  for (size_t i = 0; i < nm.size(); i++)
  {
    rem -= cut[i]; bool found = false;
    for (auto &l : t) if (l.size() == 5 && l[0] == nm[i] && atoi(l[1].c_str()) == cut[i] && near(l[2], cut[i] * 100. / n, 3) && atoi(l[3].c_str()) == rem && near(l[4], rem * 100. / n, 3)) found = true;
    if (!found) return fmt("no line for cut %s with %d cut and %d remaining of %d", nm[i].c_str(), cut[i], rem, n);
  }
  return "";
}
void run(std::function<void(const std::string &)> saveAs, std::function<std::string(const std::string &)> wrong)
{
  std::string f = "report.txt", why;
  check(attempt([&] { saveAs("gold.txt"); }, &why) == OK, "save-failed-without-fault", why);
  std::string gold = slurp("gold.txt"); std::string w = wrong(gold); check(w.empty(), "report-incomplete", w);
  Ops ops = measure([&] { attempt([&] { saveAs("dry.txt"); }, &why); });
  int tries = range(1, 3);
  for (int k = 0; k < tries; k++)
  {
    disk::Plan p = chance(0.3) ? benignPlan() : disk::Plan(); uint64_t failAlloc = 0; bool noDir = false;
    size_t kind = weighted({5, 3, 2, 1, 1});
    if (kind == 0) { std::vector<int> able; const int all[] = {disk::WRITE, disk::OPEN, disk::CLOSE, disk::STAT, disk::SYNC}; for (int o : all) if (ops.n[o] > 0) able.push_back(o); if (able.empty()) able.push_back(disk::OPEN); int o = pick(able); p.failAt[o] = (long)choose(std::max(1l, ops.n[o])); p.err[o] = ERRS[choose(o == disk::OPEN ? 4 : 2)]; p.sticky[o] = chance(0.5); }
    else if (kind == 1) p.spaceLeft = (long)choose(gold.size());
    else if (kind == 2) failAlloc = 1 + choose(ops.allocs);
    else if (kind == 3) noDir = true;
    Out o; bool fired; std::string path = noDir ? "no/such/dir.txt" : f;
    {
      disk::arm(p); std::unique_ptr<AllocFault> af; { NoAllocFault g; if (failAlloc) af.reset(new AllocFault(failAlloc)); }
      o = attempt([&] { saveAs(path); }, &why);
      fired = (af && af->fired()) || disk::hardFired() || noDir; NoAllocFault g; af.reset(); disk::disarm();
    }
    ev("report plan %zu ended %d", kind, o); if (noDir) fault("directory-missing");
    if (!fired) check(o == OK, "save-failed-without-fault", why);
    if (o == OK) check(!noDir && slurp(f) == gold, "report-lost-but-success", fmt("SaveAs returned normally, %zu of %zu bytes are in the file", noDir ? (size_t)0 : slurp(f).size(), gold.size()));
    else evaluation();
    check(attempt([&] { saveAs(f); }, &why) == OK && slurp(f) == gold, "no-recovery-after-failed-save", why);
    state(mix(kind, o * 2 + fired)); if (fired) nontrivial();
  }
}
}
SIM_WORKLOAD("D06", report_fit, 3, "")
{
  ParameterDict d; size_t n = choose(6); for (size_t i = 0; i < n; i++) d[fmt("par%zu", i) + letters(choose(30), i)] = chance(0.2) ? anyDouble() : real(-1e6, 1e6);
  FitResult r; r.SetBestFit(d); int prec = 5; if (chance(0.5)) { prec = range(1, 12); r.SetPrintPrecision(prec); }
  if (chance(0.3)) advance(real(-4e8, 4e8));
  run([&](const std::string &f) { r.SaveAs(f); }, [&](const std::string &s) {
    std::vector<Strs> t = tokens(s);
    for (auto &kv : d) { bool found = false; for (auto &l : t) if (l.size() == 2 && l[0] == kv.first && near(l[1], kv.second, prec)) found = true; if (!found) return "no line for parameter " + kv.first; }
    return std::string(); });
}
SIM_WORKLOAD("D06", report_cuts, 3, "")
{
  Strs nm; std::vector<int> cut; int pass; CutLog l = cutLog(nm, cut, pass, 6);
  run([&](const std::string &f) { l.SaveAs("the title", f); }, [&](const std::string &s) { if (s.find("the title") == std::string::npos) return std::string("no title"); return cutLines(tokens(s), nm, cut, pass); });
}
SIM_WORKLOAD("D06", report_counting, 3, "")
{
  CountingResult r; size_t n = choose(4); std::vector<Strs> nms(n + 2); std::vector<std::vector<int>> cuts(n + 2); std::vector<int> pass(n + 2); Doubles rate, err; Strs bn;
  for (size_t i = 0; i < n; i++) { rate.push_back(real(0, 100)); err.push_back(real(0, 5)); bn.push_back(fmt("bg%zu", i)); r.AddBackground(rate[i], bn[i], err[i], cutLog(nms[i], cuts[i], pass[i], 3)); }
  double eff = real(0, 1); int obs = (int)choose(1000); r.SetSignal(eff, "sig", cutLog(nms[n], cuts[n], pass[n], 3)); r.SetDataLog(cutLog(nms[n + 1], cuts[n + 1], pass[n + 1], 3)); r.SetObservedCounts(obs);
  if (chance(0.3)) advance(real(-4e8, 4e8));
  run([&](const std::string &f) { r.SaveAs(f); }, [&](const std::string &s) {
    std::vector<Strs> t = tokens(s); double tot = 0, e2 = 0;
    for (size_t i = 0; i < n + 2; i++) { std::string w = cutLines(t, nms[i], cuts[i], pass[i]); if (!w.empty()) return w; }
    for (size_t i = 0; i < n; i++) { tot += rate[i]; e2 += err[i] * err[i]; bool found = false; for (auto &l : t) if (l.size() == 4 && l[0] == bn[i] && near(l[1], rate[i], 6) && near(l[3], err[i], 6)) found = true; if (!found) return "no summary line for " + bn[i]; }
    bool a = false, b = false, c = false;
    for (auto &l : t) { if (l.size() == 5 && l[0] == "Total" && near(l[2], tot, 6) && near(l[4], sqrt(e2), 6)) a = true; if (l.size() == 3 && l[1] == "Efficiency" && near(l[2], eff, 6)) b = true; if (l.size() == 2 && l[0] == "Observed:" && atoi(l[1].c_str()) == obs) c = true; }
    return a && b && c ? std::string() : fmt("summary lines are missing %d%d%d eff %g obs %d total %g: ", a, b, c, eff, obs, tot) + s.substr(s.find("Summary")); });
}
