#ifndef SIM_TH3D_H
#define SIM_TH3D_H
#include "TH2D.h"
class TH3D : public TH1 { public: TH3D() {} TH3D(const char *nm, const char *t, int n, const double *e, int m, const double *f, int o, const double *g) : TH1(nm, t) { ax[0] = TAxis(n, e); ax[1] = TAxis(m, f); ax[2] = TAxis(o, g); } TObject *Clone(const char * = "") const { return new TH3D(*this); }
  int FindBin(double x, double y, double z) const { return GetBin(ax[0].FindBin(x), ax[1].FindBin(y), ax[2].FindBin(z)); } int Fill(double x, double y, double z, double w = 1) { int b = FindBin(x, y, z); c[b] += w; return b; } };
#endif
