// Stand-in for ROOT's Minuit2: the interface the wrapper uses; the simulator plays the minimiser.
#ifndef STUB_MINUIT2
#define STUB_MINUIT2
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>
namespace ROOT
{
namespace Minuit2
{
class FCNBase
{
public:
  virtual ~FCNBase() {}
  virtual double operator()(const std::vector<double> &) const = 0;
  virtual double Up() const = 0;
  virtual double ErrorDef() const { return Up(); }
  virtual void SetErrorDef(double) {}
};
class MnStrategy
{
  unsigned s;
public:
  MnStrategy() : s(1) {}
  MnStrategy(unsigned int s_) : s(s_) {}
  unsigned Strategy() const { return s; }
};
class MinuitParameter
{
public:
  double value, error, lower, upper; bool fixed, hasLower, hasUpper;
  MinuitParameter() : value(0), error(0), lower(0), upper(0), fixed(false), hasLower(false), hasUpper(false) {}
};
class MnUserParameters
{
  std::vector<MinuitParameter> p;
public:
  MnUserParameters() {}
  MnUserParameters(const std::vector<double> &v, const std::vector<double> &e) { for (size_t i = 0; i < v.size(); i++) { MinuitParameter q; q.value = v[i]; q.error = e.at(i); p.push_back(q); } }
  const MinuitParameter &Parameter(unsigned int i) const { return p.at(i); }
  const std::vector<MinuitParameter> &MinuitParameters() const { return p; }
  std::vector<double> Params() const { std::vector<double> v; for (size_t i = 0; i < p.size(); i++) v.push_back(p[i].value); return v; }
  std::vector<double> Errors() const { std::vector<double> v; for (size_t i = 0; i < p.size(); i++) v.push_back(p[i].error); return v; }
  double Value(unsigned int i) const { return p.at(i).value; }
  double Error(unsigned int i) const { return p.at(i).error; }
  void SetValue(unsigned int i, double v) { p.at(i).value = v; }
  void SetError(unsigned int i, double v) { p.at(i).error = v; }
  void SetLimits(unsigned int i, double lo, double hi) { MinuitParameter &q = p.at(i); q.hasLower = q.hasUpper = true; q.lower = lo < hi ? lo : hi; q.upper = lo < hi ? hi : lo; }
  void SetUpperLimit(unsigned int i, double hi) { p.at(i).upper = hi; p.at(i).hasUpper = true; p.at(i).hasLower = false; }
  void SetLowerLimit(unsigned int i, double lo) { p.at(i).lower = lo; p.at(i).hasLower = true; p.at(i).hasUpper = false; }
  void RemoveLimits(unsigned int i) { p.at(i).hasLower = p.at(i).hasUpper = false; }
  void Fix(unsigned int i) { p.at(i).fixed = true; }
  void Release(unsigned int i) { p.at(i).fixed = false; }
  unsigned int VariableParameters() const { unsigned n = 0; for (size_t i = 0; i < p.size(); i++) n += !p[i].fixed; return n; }
};
class MnUserCovariance
{ // packed: (i, j) with j <= i is at j + i (i + 1) / 2
  std::vector<double> d; unsigned n;
public:
  MnUserCovariance() : n(0) {}
  MnUserCovariance(const std::vector<double> &d_, unsigned int n_) : d(d_), n(n_) {}
  explicit MnUserCovariance(unsigned int n_) : d(n_ * (n_ + 1) / 2, 0.), n(n_) {}
  double operator()(unsigned int i, unsigned int j) const { return i > j ? d.at(j + i * (i + 1) / 2) : d.at(i + j * (j + 1) / 2); }
  double &operator()(unsigned int i, unsigned int j) { return i > j ? d.at(j + i * (i + 1) / 2) : d.at(i + j * (j + 1) / 2); }
  const std::vector<double> &Data() const { return d; }
  unsigned int Nrow() const { return n; }
};
class MnApplication;
class FunctionMinimum
{
public:
  bool valid; double fval; MnUserParameters par; MnUserCovariance cov; double up; int nfcn;
  FunctionMinimum() : valid(false), fval(0), up(1), nfcn(0) {}
  bool IsValid() const { return valid; }
  double Fval() const { return fval; }
  double Edm() const { return 0; }
  int NFcn() const { return nfcn; }
  double Up() const { return up; }
  const MnUserParameters &UserParameters() const { return par; }
  const MnUserCovariance &UserCovariance() const { return cov; }
};
typedef std::function<FunctionMinimum(MnApplication &, unsigned, double)> StubEngine;
inline StubEngine &stubEngine() { static StubEngine e; return e; }
class MnApplication
{
  MnApplication(const MnApplication &); MnApplication &operator=(const MnApplication &);
public:
  const char *kind; const FCNBase &fcn; MnUserParameters par; MnStrategy strategy;
  MnApplication(const char *k, const FCNBase &f, const MnUserParameters &p, const MnStrategy &s) : kind(k), fcn(f), par(p), strategy(s) {}
  virtual ~MnApplication() {}
  virtual FunctionMinimum operator()(unsigned int maxfcn = 0, double tolerance = 0.1) { return stubEngine()(*this, maxfcn, tolerance); }
  std::vector<double> Params() const { return par.Params(); }
  std::vector<double> Errors() const { return par.Errors(); }
  double Value(unsigned int i) const { return par.Value(i); }
  double Error(unsigned int i) const { return par.Error(i); }
  void Fix(unsigned int i) { par.Fix(i); }
  void Release(unsigned int i) { par.Release(i); }
  void SetValue(unsigned int i, double v) { par.SetValue(i, v); }
  void SetLimits(unsigned int i, double lo, double hi) { par.SetLimits(i, lo, hi); }
};
class MnMigrad : public MnApplication { public: MnMigrad(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s = MnStrategy(1)) : MnApplication("Migrad", f, p, s) {} };
class MnMinimize : public MnApplication { public: MnMinimize(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s = MnStrategy(1)) : MnApplication("Minimize", f, p, s) {} };
class MnSimplex : public MnApplication { public: MnSimplex(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s = MnStrategy(1)) : MnApplication("Simplex", f, p, s) {} };
}
}
#endif
