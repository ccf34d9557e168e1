#ifndef SIM_TNTUPLE_H
#define SIM_TNTUPLE_H
#include "TTree.h"
class TNtuple : public TTree {
public:
  TNtuple(const char *n = "", const char *t = "", const char *vars = "") : TTree(n, t) { std::string v(vars), s; for (size_t i = 0; i <= v.size(); i++) if (i == v.size() || v[i] == ':') { if (s != "" || !v.empty()) add(s); s = ""; } else s += v[i]; fArgs.assign(fBr.size(), 0.f); }
  TNtuple(const TNtuple &o) : TTree(o), fArgs(o.fArgs) {}
  TObject *Clone(const char * = "") const { return new TNtuple(*this); }
  int Fill(const float *x) { simroot::Disk &d = simroot::disk(); if (d.failFill >= 0 && d.failFill-- == 0) return -1; for (size_t i = 0; i < fBr.size(); i++) fBr[i].vals.push_back(x[i]); fEntries++; return (int)fBr.size() * 4; }
  int GetEntry(Long64_t n, int a = 0) { int r = TTree::GetEntry(n, a); if (r > 0) for (size_t i = 0; i < fBr.size(); i++) fArgs[i] = (float)fBr[i].vals[n]; return r; }
  int GetNvar() const { return (int)fBr.size(); }
  float *GetArgs() { return fArgs.data(); }
private:
  std::vector<float> fArgs;
  void add(const std::string &s) { Br b; b.name = s; b.addr = 0; b.type = 'F'; fBr.push_back(b); object(s); }
};
#endif
