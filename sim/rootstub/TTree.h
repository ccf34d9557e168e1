// Simulator stand-in for ROOT's TTree: records branch values in memory at every Fill and reads them back.
#ifndef SIM_TTREE_H
#define SIM_TTREE_H
#include "TypesStub.h"
class TLeaf : public TNamed { public: TLeaf(const char *n) : TNamed(n), value(0) {} double GetValue(int = 0) const { return value; } const char *GetTypeName() const { return "Double_t"; } double value; };
class TBranch : public TNamed { public: TBranch(const char *n) : TNamed(n) {} };
class TTree : public TNamed {
public:
  struct Br { std::string name; void *addr; char type; std::vector<double> vals; };
  TTree(const char *n = "", const char *t = "") : TNamed(n, t), fEntries(0) {}
  TTree(const TTree &o) : TNamed(o), fBr(o.fBr), fEntries(o.fEntries) { for (auto &b : fBr) { b.addr = 0; object(b.name); } }
  TObject *Clone(const char * = "") const { return new TTree(*this); }
  void *Branch(const char *name, void *addr, const char *leaf) { Br b; b.name = name; b.addr = addr; std::string l(leaf); b.type = l.back(); fBr.push_back(b); object(name); return fObjects.back().get(); }
  template <class T> void *Branch(const char *name, T *addr) { return Branch(name, (void *)addr, code((T *)0)); }
  int SetBranchAddress(const char *n, void *addr) { for (auto &b : fBr) if (b.name == n) { b.addr = addr; return 0; } return -1; }
  int Fill() {
    simroot::Disk &d = simroot::disk(); if (d.failFill >= 0 && d.failFill-- == 0) return -1;
    for (size_t i = 0; i < fBr.size(); i++) {
      Br &b = fBr[i]; double v = 0;
      if (b.type == 'D') v = *(double *)b.addr;
      else if (b.type == 'F') v = *(float *)b.addr;
      else if (b.type == 'I') v = *(int *)b.addr;
      else if (b.type == 'O') v = *(bool *)b.addr;
      b.vals.push_back(v);
    }
    fEntries++; return (int)fBr.size() * 8; }
  virtual int GetEntry(Long64_t n, int = 0)
  {
    simroot::Disk &d = simroot::disk(); d.reads++;
    if (d.failRead >= 0 && d.failRead-- == 0) return d.readError;
    if (n < 0 || n >= fEntries) return 0;
    for (size_t i = 0; i < fBr.size(); i++) { double v = fBr[i].vals[n]; fLeaves[i]->value = v; if (fBr[i].addr) { if (fBr[i].type == 'D') *(double *)fBr[i].addr = v; else if (fBr[i].type == 'F') *(float *)fBr[i].addr = (float)v; else if (fBr[i].type == 'I') *(int *)fBr[i].addr = (int)v; else if (fBr[i].type == 'O') *(bool *)fBr[i].addr = v != 0; } }
    return (int)fBr.size() * 8;
  }
  Long64_t GetEntries() const { return fEntries; }
  Long64_t GetEntriesFast() const { return fEntries; }
  int GetNbranches() const { return (int)fBr.size(); }
  TObjArray *GetListOfBranches() { return &fList; }
  TObjArray *GetListOfLeaves() { return &fLeafList; }
  TLeaf *GetLeaf(const char *n) { for (auto &l : fLeaves) if (n == std::string(l->GetName())) return l.get(); return 0; }
  int LoadBaskets(Long64_t = 2000000000) { return 1; }
  void DropBaskets() {}
  void SetDirectory(void *) {}
  void ResetBranchAddresses() { for (auto &b : fBr) b.addr = 0; }
  const std::vector<Br> &SimBranches() const { return fBr; }
  void SimAdd(const std::string &name, const std::vector<double> &vals) { Br b; b.name = name; b.addr = 0; b.type = 'D'; b.vals = vals; fBr.push_back(b); fEntries = (Long64_t)vals.size(); object(name); }
protected:
  static const char *code(double *) { return "/D"; } static const char *code(float *) { return "/F"; } static const char *code(int *) { return "/I"; } static const char *code(bool *) { return "/O"; }
  void object(const std::string &n) { fObjects.push_back(std::shared_ptr<TBranch>(new TBranch(n.c_str()))); fLeaves.push_back(std::shared_ptr<TLeaf>(new TLeaf(n.c_str()))); fList.v.push_back(fObjects.back().get()); fLeafList.v.push_back(fLeaves.back().get()); }
  std::vector<Br> fBr; Long64_t fEntries; std::vector<std::shared_ptr<TBranch>> fObjects; std::vector<std::shared_ptr<TLeaf>> fLeaves; TObjArray fList, fLeafList;
private:
  TTree &operator=(const TTree &);
};
#endif
