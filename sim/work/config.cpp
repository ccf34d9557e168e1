// Configuration loader (C01): histories of open, failed open, close and load against a map.
#include "io_faults.h"
#include <ConfigLoader.hh>
#include <list>
#include <cerrno>
#include <cmath>
using namespace work;
using namespace sim;
namespace
{
typedef std::map<std::string, std::map<std::string, std::string>> Ini;
struct File { std::string name, text; bool bad; Ini m; };
std::string num() { switch (choose(4)) { case 0: return fmt("%d", range(-1000, 1000)); case 1: return fmt("%.6g", real(-1000, 1000)); case 2: return fmt("%.17g", real(-1, 1) * 1e-9); default: return fmt("%de%d", range(1, 9), range(-5, 5)); } }
std::string value()
{
  switch (choose(10))
  {
  case 5: return ""; // a field without a value
  case 6: { std::string w = letters(1 + choose(4), choose(99)), x = letters(1 + choose(4), choose(99)); switch (choose(5)) { case 0: return w + ",," + x; case 1: return "," + w; case 2: return w + ","; case 3: return w + " , " + x; default: return ","; } }
  case 7: return pick(Strs{"2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "4294967296", "1e400", "0", "-0", "007", "+5", "1e308", "-1.5", ".5", "5."});
  case 8: return letters(200 + choose(5000), choose(99)); // longer than any buffer
  case 9: return pick(Strs{"[notasection]", "a [b] c", "\"quoted # text\"", "# not a comment", "; neither", "a=b=c", "= x", "tab\tinside", "two  blanks", "caf\xc3\xa9", "back\\slash", "100%", "$HOME/~x"});
  case 0: return num();
  case 1: { std::string s; size_t n = 1 + choose(6); for (size_t i = 0; i < n; i++) s += (i ? "," : "") + letters(1 + choose(6), choose(99)); return s; }
  case 2: return "path/to/" + letters(1 + choose(40), choose(99)) + ".h5";
  case 3: return letters(1 + choose(5), choose(99)) + " = " + letters(1 + choose(5), choose(99)); // only the first '=' splits
  default: return letters(1 + choose(12), choose(99)) + (chance(0.3) ? " ; not a comment # here" : "");
  }
}
File file(int id, bool bad)
{
  File f; f.name = fmt("c%d.ini", id); f.bad = bad; size_t ns = 1 + choose(chance(0.1) ? 60 : 4); bool again = false;
  if (chance(0.2)) f.text += "k0 = before any section\n";
  for (size_t s = 0; s < ns; s++)
  {
    std::string sn = fmt("s%zu", s) + letters(choose(5), s + id); if (chance(0.15)) sn = pick(Strs{"My Section ", "a.b,", "S", "x=y ", "# ", "\xc3\xa9"}) + sn; f.text += std::string(chance(0.2) ? "  " : "") + "[" + sn + "]" + (chance(0.2) ? "  \r" : "") + "\n"; f.m[sn];
    size_t nk = choose(5); for (size_t k = 0; k < nk; k++)
    {
      std::string kn = fmt("k%zu", k), v = value(); if (chance(0.15)) kn = pick(Strs{"K", "my ", "a.b,", "x ; ", "[no", "k_"}) + kn; if (kn[0] == '[') kn = "o" + kn; f.m[sn][kn] = v; std::string pad = chance(0.5) ? " " : "";
      f.text += pad + kn + pad + "=" + pad + v + pad + (chance(0.1) ? "\r" : "") + "\n";
      if (chance(0.15)) f.text += chance(0.5) ? "# k9 = comment\n" : chance(0.5) ? "; x\n" : "\n   \n";
    }
    // sections inside the section, of any depth: their fields are not the section's
    if (chance(0.25)) { size_t depth = 1, n = 1 + choose(5); std::map<size_t, int> at; for (size_t k = 0; k < n; k++) { size_t d = 2 + choose(depth); for (auto it = at.begin(); it != at.end();) if (it->first > d) at.erase(it++); else ++it; std::string o(d, '['), c(d, ']'); f.text += o + fmt("sub%d", at[d]++) + c + "\n"; depth = d; size_t m = choose(3); for (size_t j = 0; j < m; j++) f.text += fmt("k%zu = inside\n", j); } if (bad && chance(0.3)) { f.text += "[[sub0]]\n"; again = true; } probe("nested-sections"); }
  }
  if (bad && !again) switch (choose(5))
  {
  case 0: f.text += "this line has no equals sign\n"; break;
  case 1: f.text += "[" + f.m.begin()->first + "]\nk = 1\n"; break;
  case 2: f.text += "[[[[[[[[[deep]]]]]]]]]\n"; break;
  case 3: f.text += pick(Strs{"[open\nk = 1\n", "[open", "[", "[open] k = 1\n", "[[half]\nk = 1\n", "[open] # remark\n", "[[\n", "[[]"}); break;
  default: f.text += "[last]\nk = 1\nk = 2\n"; break;
  }
  if (!bad && chance(0.2) && !f.text.empty()) f.text.erase(f.text.size() - 1); // no newline at the end
  disk::setContents(f.name, std::vector<char>(f.text.begin(), f.text.end()));
  return f;
}
bool isInt(const std::string &s) { if (s.empty()) return false; size_t i = s[0] == '-'; if (i >= s.size()) return false; for (; i < s.size(); i++) if (!isdigit(s[i])) return false; return true; }
bool isNum(const std::string &s) { char *e; strtod(s.c_str(), &e); return !s.empty() && *e == 0; }
bool notNum(const std::string &s) { return isalpha(s[0]) && s[0] != 'i' && s[0] != 'n'; }
}
SIM_WORKLOAD("C01", config_history, 10, "")
{
  std::vector<File> fs; size_t nf = 1 + choose(3); for (size_t i = 0; i < nf; i++) fs.push_back(file(i, i && chance(0.4)));
  Ini held; const Ini *cur = 0; int steps = 0; bool interesting = false;
  while (steps < 40 && (steps < 3 || more(0.9)))
  {
    steps++; std::string why;
    switch (weighted({3, 1, 6, 1, 1, 0.7}))
    {
    case 0:
    {
      File missing; missing.name = "nothere.ini"; missing.bad = true; const File &f = chance(0.1) ? missing : pick(fs);
      disk::Plan p = chance(0.3) ? benignPlan() : disk::Plan(); uint64_t fa = 0;
      if (chance(0.35)) { int o = chance(0.3) ? disk::OPEN : disk::READ; p.failAt[o] = chance(0.6) ? 0 : (long)choose(3); p.err[o] = ERRS[choose(o == disk::OPEN ? 4 : 1)]; p.sticky[o] = chance(0.5); }
      else if (chance(0.1)) fa = 1 + choose(200);
      Out o; bool fired; const Ini *before = cur;
      { disk::arm(p); std::unique_ptr<AllocFault> af; { NoAllocFault g; if (fa) af.reset(new AllocFault(fa)); }
        o = attempt([&] { ConfigLoader::Open(f.name); }, &why); fired = disk::hardFired() || (af && af->fired()); NoAllocFault g; af.reset(); disk::disarm(); }
      ev("open %s -> %d%s", f.name.c_str(), o, fired ? " under fault" : "");
      if (f.bad) check(o != OK, "broken-file-accepted", f.text);
      else if (!fired) check(o == OK, "open-failed-without-fault", why);
      if (o == OK) { held = f.m; cur = &held; } else cur = before; // an open that fails leaves what was open
      if (o != OK || before) interesting = true;
      // after a fault the next check below sees whether everything was read
      break;
    }
    case 5: { size_t i = choose(fs.size()); fs[i] = file((int)i, chance(0.2)); probe("file-rewritten"); ev("rewrite %zu", i); break; } // what is loaded stays what was read
    case 1: ConfigLoader::Close(); cur = 0; ev("close"); break;
    case 3:
    {
      std::set<std::string> s, m; s = ConfigLoader::ListSections(); if (cur) for (auto &kv : *cur) m.insert(kv.first);
      check(s == m, "sections-differ", fmt("%zu sections instead of %zu", s.size(), m.size())); break;
    }
    case 4: // everything
      if (cur)
      {
        std::set<std::string> s = ConfigLoader::ListSections(); check(s.size() == cur->size(), "sections-differ", fmt("%zu sections instead of %zu", s.size(), cur->size()));
        for (auto &a : *cur) for (auto &b : a.second) { std::string v = "?"; Out o = attempt([&] { ConfigLoader::Load(a.first, b.first, v); }, &why); check(o == OK && v == b.second, "value-differs", a.first + "." + b.first + " '" + v + "' instead of '" + b.second + "' " + (o ? why : "")); }
      }
      break;
    default:
    {
      std::string sec, key; const Ini &src = cur ? *cur : fs[0].m; auto it = src.begin(); std::advance(it, choose(src.size())); sec = it->first; key = fmt("k%zu", (size_t)choose(5)); if (!it->second.empty() && chance(0.8)) { auto kt = it->second.begin(); std::advance(kt, choose(it->second.size())); key = kt->first; } if (chance(0.1)) sec = "nosuch"; else if (chance(0.1)) { std::string &w = chance(0.5) ? sec : key; switch (choose(4)) { case 0: w += " "; break; case 1: w[0] = (char)(islower(w[0]) ? toupper(w[0]) : tolower(w[0])); break; case 2: w.erase(w.size() - 1); break; default: w = ""; } probe("nearly-the-name"); }
      const std::string *want = 0; if (cur && cur->count(sec) && cur->at(sec).count(key)) want = &cur->at(sec).at(key);
      switch (choose(7))
      {
      case 0: { std::string v = "untouched"; Out o = attempt([&] { ConfigLoader::Load(sec, key, v); }, &why); check((o == OK) == (want != 0) && v == (want ? *want : "untouched"), "value-differs", sec + "." + key + " gave '" + v + "'"); break; }
      case 1: { int v = 424242; Out o = attempt([&] { ConfigLoader::Load(sec, key, v); }, &why); if (!want || notNum(*want)) check(o != OK && v == 424242, "bad-value-accepted", sec + "." + key); else if (isInt(*want) || want->empty()) { errno = 0; long long w = strtoll(want->c_str(), 0, 10); bool fits = !want->empty() && !errno && w == (int)w; check(fits ? o == OK && v == w : o != OK && v == 424242, fits ? "value-differs" : "bad-value-accepted", *want + fmt(" gave %d", v)); } break; }
      case 2: { double v = 424242; Out o = attempt([&] { ConfigLoader::Load(sec, key, v); }, &why); if (!want || notNum(*want)) check(o != OK && v == 424242, "bad-value-accepted", sec + "." + key); else if (want->empty() || (isNum(*want) && std::isinf(strtod(want->c_str(), 0)))) check(o != OK && v == 424242, "bad-value-accepted", *want); else if (isNum(*want)) check(o == OK && sameBits(v, strtod(want->c_str(), 0)), "value-differs", *want + fmt(" gave %.17g", v)); break; }
      case 3: case 4:
      {
        std::vector<std::string> v; std::set<std::string> s; std::list<std::string> l; bool pre = chance(0.3); if (pre) { v.push_back("pre"); s.insert("pre"); l.push_back("pre"); } Out o = attempt([&] { ConfigLoader::Load(sec, key, v); ConfigLoader::Load(sec, key, s); ConfigLoader::Load(sec, key, l); }, &why);
        check((o == OK) == (want != 0), "value-differs", sec + "." + key + " list");
        if (!want) check(v.size() == (pre ? 1u : 0u) && s.size() == v.size() && l.size() == v.size(), "bad-value-accepted", sec + "." + key + " list");
        if (want) { Strs m; if (pre) m.push_back("pre"); std::stringstream ss(*want); std::string x; while (std::getline(ss, x, ',')) if (!x.empty()) m.push_back(x); check(v == m && std::set<std::string>(m.begin(), m.end()) == s && std::list<std::string>(m.begin(), m.end()) == l, "value-differs", "list '" + *want + fmt("' gave %zu elements", v.size())); }
        break;
      }
      case 5: { float v = 7; long w = 7; Out o = attempt([&] { ConfigLoader::Load(sec, key, v); }, &why), o2 = attempt([&] { ConfigLoader::Load(sec, key, w); }, &why); if (!want || notNum(*want)) check(o != OK && o2 != OK && v == 7 && w == 7, "bad-value-accepted", sec + "." + key); else { if (isInt(*want)) { errno = 0; long long x = strtoll(want->c_str(), 0, 10); bool fits = !errno; check(fits ? o2 == OK && w == x : o2 != OK && w == 7, fits ? "value-differs" : "bad-value-accepted", *want + fmt(" gave %ld", w)); } double x = strtod(want->c_str(), 0); if (isNum(*want) && std::fabs(x) > 1e39) check(o != OK && v == 7, "bad-value-accepted", *want); else if (isNum(*want) && std::fabs(x) > 1e-30) check(o == OK && v == (float)x, "value-differs", *want + fmt(" gave %.9g", v)); } break; }
      default: { unsigned v = 7; short sv = 7; attempt([&] { ConfigLoader::Load(sec, key, v); ConfigLoader::Load(sec, key, sv); }); if (!want) check(v == 7 && sv == 7, "bad-value-accepted", sec + "." + key); evaluation(); break; }
      }
      break;
    }
    }
    state(mix(steps > 10, cur ? cur->size() : 1000));
  }
  if (interesting) nontrivial();
  ConfigLoader::Close();
}
