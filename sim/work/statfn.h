// A test statistic owned by the simulator: a pure function of its parameters that can be told to fail.
#ifndef WORK_STATFN_H
#define WORK_STATFN_H
#include "common.h"
#include <TestStatistic.h>
namespace work
{
// f(x) = offset + sum_ij A_ij (x_i-c_i)(x_j-c_j) + table, the same for the same x whenever it is asked for
struct Fn
{
  Strs names; Doubles centre; std::vector<Doubles> a; double offset; int mode; uint64_t salt; ParameterDict lattice0, lattice1; // mode 0 quadratic, 1 table over a lattice, 2 constant, 3 likelihood (positive)
  double operator()(const ParameterDict &p) const
  {
    Doubles x; for (auto &n : names) { auto i = p.find(n); if (i == p.end()) throw LogicError("simulated statistic: no value for " + n); x.push_back(i->second); }
    for (double v : x) if (std::isnan(v)) return v;
    if (mode == 2) return offset;
    if (mode == 1)
    {
      uint64_t h = salt; for (size_t i = 0; i < x.size(); i++) h = sim::mix(h, (uint64_t)(int64_t)llround((x[i] - lattice0.at(names[i])) / lattice1.at(names[i])));
      if (h % 23 == 0) return std::numeric_limits<double>::quiet_NaN(); if (h % 29 == 0) return std::numeric_limits<double>::infinity(); return (double)(h % 1000) / 8 - 60;
    }
    double s = offset; for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < x.size(); j++) s += a[i][j] * (x[i] - centre[i]) * (x[j] - centre[j]);
    return mode == 3 ? exp(-s) : s;
  }
  // first derivatives of the quadratic form
  Doubles grad(const Doubles &x) const { Doubles g(x.size(), 0.); for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < x.size(); j++) g[i] += (a[i][j] + a[j][i]) * (x[j] - centre[j]); return g; }
};
inline Fn quadratic(const Strs &names, double scale)
{
  Fn f; f.names = names; f.mode = 0; f.offset = sim::chance(0.3) ? 0 : sim::range(-40, 40) / 4.; f.salt = sim::choose(1000000); size_t n = names.size(); for (size_t i = 0; i < n; i++) f.centre.push_back(sim::range(-16, 16) / 8.);
  f.a.assign(n, Doubles(n, 0.)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) f.a[i][j] = i == j ? scale * sim::range(1, 16) / 8. : sim::chance(0.3) ? scale * sim::range(-2, 2) / 16. : 0; return f;
}
struct Stat : public TestStatistic
{
  Fn f; ParameterDict p; long countdown; size_t evals; bool registered; double tick;
  Stat() : countdown(-1), evals(0), registered(false), tick(0) {}
  double Evaluate() { evals++; sim::advance(tick); if (countdown >= 0 && countdown-- == 0) { sim::fault("statistic-fails"); throw ValueError("simulated: the statistic fails"); } return f(p); }
  void SetParameters(const ParameterDict &q) { for (auto &n : f.names) if (!q.count(n)) throw ParameterError("simulated statistic: missing " + n); p.clear(); for (auto &n : f.names) p[n] = q.at(n); }
  ParameterDict GetParameters() const { ParameterDict q = p; for (auto &n : f.names) q[n]; return q; }
  std::set<std::string> GetParameterNames() const { return std::set<std::string>(f.names.begin(), f.names.end()); }
  size_t GetParameterCount() const { return f.names.size(); }
  void RegisterFitComponents() { registered = true; }
};
inline Strs paramNames(size_t n) { Strs all({"rate", "a-b", "shift", "k-1-x", "zeta"}), v; while (v.size() < n) { size_t i = sim::choose(all.size()); v.push_back(all[i]); all.erase(all.begin() + i); } return v; }
}
#endif
