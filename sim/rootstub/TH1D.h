#ifndef SIM_TH1D_H
#define SIM_TH1D_H
#include "TypesStub.h"
class TAxis : public TNamed { public:
  TAxis() : n(0) {} TAxis(int nb, const double *e) : n(nb), edges(e, e + nb + 1) {} TAxis(int nb, double lo, double hi) : n(nb) { for (int i = 0; i <= nb; i++) edges.push_back(lo + (hi - lo) * i / nb); }
  int GetNbins() const { return n; }
  double GetBinLowEdge(int i) const { return edges.at(i - 1); } double GetBinUpEdge(int i) const { return edges.at(i); }
  double GetBinWidth(int i) const { return edges.at(i) - edges.at(i - 1); } double GetBinCenter(int i) const { return (edges.at(i) + edges.at(i - 1)) / 2; }
  double GetXmin() const { return edges.front(); } double GetXmax() const { return edges.back(); } bool IsVariableBinSize() const { return true; }
  void GetLowEdge(double *e) const { for (int i = 0; i < n; i++) e[i] = edges[i]; }
  int FindBin(double x) const { if (x != x) return n + 1; int b = 0; while (b <= n && x >= edges[b]) b++; return b; } int FindFixBin(double x) const { return FindBin(x); }
  int n; std::vector<double> edges; };
class TH1 : public TNamed { public:
  TH1(const char *nm = "", const char *t = "") : TNamed(nm, t) {} TAxis *GetXaxis() { return &ax[0]; } TAxis *GetYaxis() { return &ax[1]; } TAxis *GetZaxis() { return &ax[2]; }
  const TAxis *GetXaxis() const { return &ax[0]; } const TAxis *GetYaxis() const { return &ax[1]; } const TAxis *GetZaxis() const { return &ax[2]; }
  void SetDirectory(void *) {} static void AddDirectory(bool) {} void Sumw2(bool = true) {} int GetDimension() const { return ax[2].n ? 3 : ax[1].n ? 2 : 1; }
  int GetNbinsX() const { return ax[0].n; } int GetNbinsY() const { return ax[1].n; } int GetNbinsZ() const { return ax[2].n; }
  int GetBin(int i, int j = 0, int k = 0) const { return i + (ax[0].n + 2) * (j + (ax[1].n + 2) * k); }
  int GetNcells() const { return GetBin(0, 0, ax[1].n ? (ax[2].n ? ax[2].n + 2 : 1) : 1); }
  void SetBinContent(int i, double v) { c[i] = v; } void SetBinContent(int i, int j, double v) { c[GetBin(i, j)] = v; } void SetBinContent(int i, int j, int k, double v) { c[GetBin(i, j, k)] = v; } void AddBinContent(int i, double v = 1) { c[i] += v; }
  double GetBinContent(int i) const { return get(i); } double GetBinContent(int i, int j) const { return get(GetBin(i, j)); } double GetBinContent(int i, int j, int k) const { return get(GetBin(i, j, k)); }
  double GetBinLowEdge(int i) const { return ax[0].GetBinLowEdge(i); } double GetBinWidth(int i) const { return ax[0].GetBinWidth(i); } double GetBinCenter(int i) const { return ax[0].GetBinCenter(i); }
  double Integral() const { double s = 0; for (auto &x : c) s += x.second; return s; } double GetSumOfWeights() const { return Integral(); } void Scale(double f) { for (auto &x : c) x.second *= f; }
protected: TAxis ax[3]; std::map<int, double> c; double get(int b) const { std::map<int, double>::const_iterator it = c.find(b); return it == c.end() ? 0 : it->second; } };
class TH1D : public TH1 { public: TH1D() {} TH1D(const char *nm, const char *t, int n, const double *e) : TH1(nm, t) { ax[0] = TAxis(n, e); } TH1D(const char *nm, const char *t, int n, double lo, double hi) : TH1(nm, t) { ax[0] = TAxis(n, lo, hi); } TObject *Clone(const char * = "") const { return new TH1D(*this); }
  int FindBin(double x) const { return ax[0].FindBin(x); } int Fill(double x, double w = 1) { int b = FindBin(x); c[b] += w; return b; } };
#endif
