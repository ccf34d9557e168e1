// Simulator stand-in for the parts of ROOT the library uses. "Files" are kept in memory by the
// simulator, which can make any of them unreadable, refuse writes or fail single reads.
#ifndef SIM_TYPESSTUB_H
#define SIM_TYPESSTUB_H
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <functional>
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <algorithm>
#include <cstring>
typedef int Int_t; typedef unsigned int UInt_t; typedef double Double_t; typedef float Float_t; typedef bool Bool_t; typedef long long Long64_t; typedef unsigned long long ULong64_t; typedef long Long_t; typedef char Char_t; typedef unsigned char UChar_t; typedef short Short_t; typedef size_t Ssiz_t; typedef const char Option_t;
#define kTRUE true
#define kFALSE false
class TFile;
class TObject {
public:
  virtual ~TObject() {}
  virtual const char *GetName() const { return ""; }
  virtual TObject *Clone(const char * = "") const { return 0; }
  virtual int Write(const char *name = 0, int = 0, int = 0) const;
  virtual void SaveAs(const char *file, const char * = "") const;
  bool TestBit(unsigned b) const { return fBits & b; }
  void SetBit(unsigned b) { fBits |= b; }
  bool InheritsFrom(const char *) const { return true; }
protected:
  unsigned fBits = 0;
};
class TNamed : public TObject {
public:
  TNamed(const char *n = "", const char *t = "") : fName(n), fTitle(t) {}
  const char *GetName() const { return fName.c_str(); }
  void SetName(const char *n) { fName = n; }
  const char *GetTitle() const { return fTitle.c_str(); }
  void SetTitle(const char *t) { fTitle = t; }
protected:
  std::string fName, fTitle;
};
class TObjArray : public TObject {
public:
  std::vector<TObject *> v;
  TObject *At(int i) const { return i >= 0 && (size_t)i < v.size() ? v[i] : 0; }
  TObject *operator[](int i) const { return At(i); }
  int GetEntries() const { return (int)v.size(); }
  int GetEntriesFast() const { return (int)v.size(); }
  int GetSize() const { return (int)v.size(); }
};
namespace simroot
{
struct Stored { std::map<std::string, std::shared_ptr<TObject>> objects; bool unreadable = false; };
struct Disk
{
  std::map<std::string, Stored> files;
  bool writable = true;      // files can be created
  long failFill = -1;        // the n-th Fill from now fails
  bool failWrite = false;    // objects cannot be written
  bool failClose = false;    // what is written at closing time is lost
  long failRead = -1;        // the n-th GetEntry from now fails
  int readError = -1;        // what it returns: -1 I/O error, 0 not there
  TFile *current = 0; long open = 0, reads = 0;
  void reset() { *this = Disk(); }
};
inline Disk &disk() { static Disk d; return d; }
}
class TFile : public TNamed {
public:
  enum { kWriteError = 1u << 14, kZombie = 1u << 13 };
  TFile(const char *n, const char *opt = "") : TNamed(n), fOpen(true)
  {
    simroot::Disk &d = simroot::disk(); std::string o(opt); for (char &c : o) c = (char)toupper(c);
    fWrite = o == "RECREATE" || o == "NEW" || o == "CREATE" || o == "UPDATE"; fZombie = false;
    if (fWrite) { if (!d.writable) fZombie = true; else if (o != "UPDATE") d.files[n] = simroot::Stored(); }
    else if (!d.files.count(n) || d.files[n].unreadable) fZombie = true;
    if (fZombie) { fOpen = false; SetBit(kZombie); } else { d.open++; d.current = this; }
  }
  static TFile *Open(const char *n, const char *opt = "") { TFile *f = new TFile(n, opt); if (f->IsZombie()) { delete f; return 0; } return f; }
  ~TFile() { Close(); }
  bool cd(const char * = 0) { if (fOpen) simroot::disk().current = this; return fOpen; }
  bool IsZombie() const { return fZombie; }
  bool IsOpen() const { return fOpen; }
  bool IsWritable() const { return fOpen && fWrite; }
  void Close(const char * = "")
  {
    if (!fOpen) return;
    simroot::Disk &d = simroot::disk(); fOpen = false; d.open--; if (d.current == this) d.current = 0;
    if (fWrite && d.failClose) { SetBit(kWriteError); d.files[fName].unreadable = true; }
    fOwned.clear();
  }
  TObject *Get(const char *n)
  {
    if (!fOpen) return 0;
    for (auto &o : fOwned) if (n == std::string(o->GetName())) return o.get();
    simroot::Stored &s = simroot::disk().files[fName]; auto it = s.objects.find(n); if (it == s.objects.end()) return 0;
    fOwned.push_back(std::shared_ptr<TObject>(it->second->Clone())); return fOwned.back().get();
  }
  template <class T> T *Get(const char *n) { return dynamic_cast<T *>(Get(n)); }
  int WriteObject(const TObject *o, const char *n) { simroot::Disk &d = simroot::disk(); if (!fOpen || !fWrite || d.failWrite) return 0; d.files[fName].objects[n && *n ? n : o->GetName()] = std::shared_ptr<TObject>(o->Clone()); return 100; }
  int WriteTObject(const TObject *o, const char *n = 0) { return WriteObject(o, n); }
  int Write(const char * = 0, int = 0, int = 0) const { return fOpen ? 1 : 0; }
  void Flush() {}
private:
  bool fOpen, fWrite, fZombie; std::vector<std::shared_ptr<TObject>> fOwned;
};
typedef TFile TDirectory;
inline int TObject::Write(const char *name, int, int) const { TFile *f = simroot::disk().current; return f ? f->WriteObject(this, name) : 0; }
inline void TObject::SaveAs(const char *file, const char *) const { TFile f(file, "RECREATE"); if (!f.IsZombie()) f.WriteObject(this, 0); }
#endif
