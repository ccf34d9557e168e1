// Reference model of binned distributions and of what the systematics do to them.
#ifndef WORK_DETECTOR_H
#define WORK_DETECTOR_H
#include "common.h"
#include <BinnedED.h>
#include <ObsSet.h>
#include <Scale.h>
#include <Shift.h>
#include <ScaleFunction.h>
#include <Shape.h>
#include <Convolution.h>
#include <Renorm.h>
#include <Gaussian.h>
#include <VaryingCDF.h>
#include <SquareRootScale.h>
#include <SystematicManager.h>

namespace det
{
using namespace work;
struct Ax { std::string name; Doubles lo, hi; };
typedef std::vector<Ax> Axes;
inline size_t nBins(const Axes &a) { size_t n = a.empty() ? 0 : 1; for (auto &x : a) n *= x.lo.size(); return n; }
inline std::vector<size_t> unpack(const Axes &a, size_t b) { std::vector<size_t> v(a.size()); for (size_t i = a.size(); i-- > 0;) { v[i] = b % a[i].lo.size(); b /= a[i].lo.size(); } return v; }
inline size_t pack(const Axes &a, const std::vector<size_t> &v) { size_t b = 0; for (size_t i = 0; i < a.size(); i++) b = b * a[i].lo.size() + v[i]; return b; }
inline Strs namesOf(const Axes &a) { Strs s; for (auto &x : a) s.push_back(x.name); return s; }
inline size_t indexOf(const Axes &a, const std::string &n) { for (size_t i = 0; i < a.size(); i++) if (a[i].name == n) return i; return (size_t)-1; }
inline size_t findBin(const Ax &a, double x) { for (size_t i = 0; i < a.lo.size(); i++) if (x < a.hi[i]) return i; return a.lo.size() - 1; }
inline double centre(const Ax &a, size_t i) { return (a.lo[i] + a.hi[i]) / 2; }
inline Ax axis(const std::string &name, bool positive, int maxBins = 5)
{
  Ax a; a.name = name; size_t n = 1 + sim::choose(maxBins); double x = positive ? sim::range(1, 8) / 4. : sim::range(-8, 8) / 4., w = sim::range(1, 8) / 4.; bool eq = sim::chance(0.5);
  for (size_t i = 0; i < n; i++) { a.lo.push_back(x); x += eq ? w : sim::range(1, 8) / 4.; a.hi.push_back(x); } return a;
}
inline AxisCollection build(const Axes &v) { AxisCollection c; for (auto &a : v) { double w = a.hi[0] - a.lo[0]; bool eq = true; for (size_t i = 0; i < a.lo.size(); i++) eq = eq && a.hi[i] - a.lo[i] == w; if (eq) c.AddAxis(BinAxis(a.name, a.lo[0], a.hi.back(), a.lo.size())); else c.AddAxis(BinAxis(a.name, a.lo, a.hi)); } return c; }

typedef std::vector<Doubles> Matrix; // [to][from]
inline Doubles times(const Matrix &m, const Doubles &c) { Doubles r(c.size(), 0.); for (size_t i = 0; i < c.size(); i++) for (size_t j = 0; j < c.size(); j++) r[i] += m[i][j] * c[j]; return r; }
inline double sum(const Doubles &c) { double s = 0; for (double x : c) s += x; return s; }
inline double gaussCdf(double x, double m, double s) { return 0.5 * (1 + erf((x - m) / (s * sqrt(2.)))); }

enum Kind { SCALE, SHIFT, SCALEFUNC, SHAPE, CONV, VARCONV, RENORM, NKINDS };
inline const char *kindName(int k) { const char *n[] = {"Scale", "Shift", "ScaleFunction", "Shape", "Convolution", "Convolution(VaryingCDF)", "Renorm"}; return n[k]; }
struct Bomb { int countdown; bool negative; double above; Bomb() : countdown(-1), negative(false), above(-1e300) {} }; // negative: the user's shape is, where its first observable is above this
// scale factors of nothing or less, where no likelihood depends on them
inline bool &anyRenorm() { static bool w = false; return w; }
// the settings of one systematic, and what they mean
struct Spec
{
  int kind; std::string name; Strs trans; Strs pname; Doubles pval;
  ParameterDict params() const { ParameterDict d; for (size_t i = 0; i < pname.size(); i++) d[pname[i]] = pval[i]; return d; }
  // new settings: all of them, one of them, a hair's breadth away, or the same again
  void draw() { size_t how = sim::weighted({12, 4, 2, 1}); size_t only = sim::choose(pval.size()); if (how == 3) return; if (how == 2 && pval[only] != 0) { pval[only] *= 1 + (sim::chance(0.5) ? 1e-5 : 1e-9); return; } for (size_t i = 0; i < pval.size(); i++) if (how != 1 || i == only) drawOne(i); }
  void drawAll() { for (size_t i = 0; i < pval.size(); i++) drawOne(i); }
  void drawOne(size_t i) { switch (kind) { case RENORM: if (anyRenorm() && sim::chance(0.3)) { pval[i] = sim::range(-8, 4) / 4.; break; } // fall through
  case SCALE: if (kind == SCALE && anyRenorm() && sim::chance(0.1)) { pval[i] = sim::chance(0.6) ? sim::range(16, 256) / 8. : 1. / sim::range(8, 64); break; } pval[i] = sim::range(2, 16) / 8.; break; case SHIFT: pval[i] = sim::range(-16, 16) / 8.; break; case SCALEFUNC: pval[i] = i % 2 == 0 ? sim::range(2, 16) / 8. : sim::range(-8, 8) / 8.; break; case SHAPE: pval[i] = sim::range(sim::chance(0.25) ? -16 : 1, 16) / 8.; break; case CONV: pval[i] = i % 2 == 0 ? sim::range(-8, 8) / 8. : sim::range(1, 12) / 8.; break; default: pval[i] = sim::range(1, 12) / 8.; } }
  Matrix matrix(const Axes &ax) const
  {
    size_t n = nBins(ax); Matrix m(n, Doubles(n, 0.)); std::vector<size_t> t; for (auto &s : trans) t.push_back(indexOf(ax, s));
    if (kind == RENORM) { for (size_t i = 0; i < n; i++) m[i][i] = pval[0]; return m; }
    if (kind == SHAPE) { for (size_t i = 0; i < n; i++) { std::vector<size_t> u = unpack(ax, i); double f = pval[0]; for (size_t k = 0; k < t.size(); k++) { double c = centre(ax[t[k]], u[t[k]]); f += pval[1] * (k + 1) * c * c; } m[i][i] = std::max(f, 0.); } return m; }
    for (size_t from = 0; from < n; from++)
    {
      std::vector<size_t> u = unpack(ax, from);
      for (size_t to = 0; to < n; to++)
      {
        std::vector<size_t> v = unpack(ax, to); bool same = true; for (size_t d = 0; d < ax.size(); d++) if (std::find(t.begin(), t.end(), d) == t.end() && u[d] != v[d]) same = false; if (!same) continue;
        double p = 1;
        for (size_t k = 0; k < t.size(); k++)
        {
          const Ax &a = ax[t[k]]; double l = a.lo[u[t[k]]], h = a.hi[u[t[k]]], L = a.lo[v[t[k]]], H = a.hi[v[t[k]]], c = (l + h) / 2;
          switch (kind)
          {
          case CONV: p *= gaussCdf(H - c, pval[2 * k], pval[2 * k + 1]) - gaussCdf(L - c, pval[2 * k], pval[2 * k + 1]); break;
          case VARCONV: p *= gaussCdf(H - c, 0, pval[0] * sqrt(c)) - gaussCdf(L - c, 0, pval[0] * sqrt(c)); break;
          default: { double tl = kind == SCALE ? l * pval[0] : kind == SHIFT ? l + pval[0] : pval[0] * l + pval[1], th = kind == SCALE ? h * pval[0] : kind == SHIFT ? h + pval[0] : pval[0] * h + pval[1]; p *= std::max(0., std::min(th, H) - std::max(tl, L)) / (th - tl); }
          }
        }
        m[to][from] = p;
      }
    }
    return m;
  }
};
// which observables a systematic of this kind can act on
inline Strs pickTrans(int kind, const Axes &ax)
{
  Strs n = namesOf(ax), t; size_t k = kind == SHAPE || kind == CONV ? 1 + sim::choose(n.size()) : 1;
  for (size_t i = 0; i < k; i++) { size_t j = sim::choose(n.size()); t.push_back(n[j]); n.erase(n.begin() + j); } return t;
}
inline Spec spec(int kind, const std::string &name, size_t nTrans)
{
  Spec s; s.kind = kind; s.name = name;
  switch (kind)
  {
  case SCALE: s.pname.push_back(name + "_s"); break;
  case SHIFT: s.pname.push_back(name + "_h"); break;
  case SCALEFUNC: s.pname.push_back(name + "_a"); s.pname.push_back(name + "_b"); break;
  case SHAPE: s.pname.push_back(name + "_a"); s.pname.push_back(name + "_b"); break;
  case CONV: for (size_t i = 0; i < nTrans; i++) { s.pname.push_back(sim::fmt("%s_m%zu", name.c_str(), i)); s.pname.push_back(sim::fmt("%s_w%zu", name.c_str(), i)); } break;
  case VARCONV: s.pname.push_back(name + "_g"); break;
  default: s.pname.push_back(name + "_f");
  }
  s.pval.resize(s.pname.size()); s.drawAll(); return s;
}
inline void tick(const std::shared_ptr<Bomb> &b) { if (b && b->countdown >= 0 && b->countdown-- == 0) throw std::runtime_error("user function failed"); }
// the kernel of a convolution
inline void setKernel(Convolution *x, const Spec &s)
{
  if (s.kind == CONV) { Gaussian g(s.pname.size() / 2); x->SetFunction(&g); for (size_t i = 0; i < s.pname.size() / 2; i++) { x->RenameParameter(sim::fmt("means_%zu", i), s.pname[2 * i]); x->RenameParameter(sim::fmt("stddevs_%zu", i), s.pname[2 * i + 1]); } return; }
  VaryingCDF c("kernel"); Gaussian g(0, 1); c.SetKernel(&g); SquareRootScale f("f"); f.RenameParameter("grad", s.pname[0]); c.SetDependance("stddevs_0", &f); x->SetConditionalPDF(&c);
}
inline void setFunction(Systematic *y, const Spec &s, std::shared_ptr<Bomb> bomb)
{
  std::string a = s.pname[0], b = s.pname[1];
  if (s.kind == SCALEFUNC) dynamic_cast<ScaleFunction *>(y)->SetScaleFunction([a, b, bomb](const ParameterDict &p, const double &v) { tick(bomb); return p.at(a) * v + p.at(b); }, s.pname);
  else dynamic_cast<Shape *>(y)->SetShapeFunction([a, b, bomb](const ParameterDict &p, const Doubles &v) { tick(bomb); double f = p.at(a); for (size_t k = 0; k < v.size(); k++) f += p.at(b) * (k + 1) * v[k] * v[k]; return bomb && bomb->negative && v[0] > bomb->above ? -0.5 : std::max(f, 0.); }, s.pname);
}
inline Systematic *realise(const Spec &s, std::shared_ptr<Bomb> bomb = std::shared_ptr<Bomb>())
{
  switch (s.kind)
  {
  case SCALE: { Scale *x = new Scale(s.name); x->RenameParameter("scaleFactor", s.pname[0]); return x; }
  case SHIFT: { Shift *x = new Shift(s.name); x->RenameParameter("shift", s.pname[0]); return x; }
  case SCALEFUNC: { ScaleFunction *x = new ScaleFunction(s.name); setFunction(x, s, bomb); return x; }
  case SHAPE: { Shape *x = new Shape(s.name); setFunction(x, s, bomb); return x; }
  case CONV: case VARCONV: { Convolution *x = new Convolution(s.name); setKernel(x, s); return x; }
  default: return new Renorm(s.name);
  }
}
inline void setParams(Systematic *sys, const Spec &s)
{
  if (s.kind == RENORM) dynamic_cast<Renorm *>(sys)->SetScaleFactor(s.pval[0]);
  else if (s.kind == SCALE && sim::chance(0.2)) dynamic_cast<Scale *>(sys)->SetScaleFactor(s.pval[0]);
  else if (s.kind == SHIFT && sim::chance(0.2)) dynamic_cast<Shift *>(sys)->SetShift(s.pval[0]);
  else if (sim::chance(0.2)) for (size_t i = 0; i < s.pname.size(); i++) sys->SetParameter(s.pname[i], s.pval[i]);
  else sys->SetParameters(s.params());
}
inline const double TOL = 2e-6; // the library integrates Gaussians numerically
inline std::string differ(const Doubles &got, const Doubles &want, double scale)
{
  if (got.size() != want.size()) return sim::fmt("%zu bins instead of %zu", got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++) if (!close(got[i], want[i], TOL, TOL * scale)) return sim::fmt("bin %zu is %.12g instead of %.12g", i, got[i], want[i]);
  return "";
}
}
#endif
