#ifndef SIM_TH2D_H
#define SIM_TH2D_H
#include "TH1D.h"
class TH2D : public TH1 { public: TH2D() {} TH2D(const char *nm, const char *t, int n, const double *e, int m, const double *f) : TH1(nm, t) { ax[0] = TAxis(n, e); ax[1] = TAxis(m, f); } TObject *Clone(const char * = "") const { return new TH2D(*this); }
  int FindBin(double x, double y) const { return GetBin(ax[0].FindBin(x), ax[1].FindBin(y)); } int Fill(double x, double y, double w = 1) { int b = FindBin(x, y); c[b] += w; return b; } };
#endif
