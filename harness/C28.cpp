// C28 file specs: every small combination of fields x layouts x edge epochs generated and parsed; newSpec histories; every order of small file lists sorted; every subset of small directory trees searched over every span, chunk and filter
// MC-SAN: assert
// MC-RULE: a name is the concatenation of fixed-width fields ; the epoch of a name is the epoch truncated to its fields ; a search selects names by that epoch
// MC-ASSUME: epochs on whole seconds ; names do not contain '%' or glob characters ; the fields of a path are consistent (the same field in directory and name has the same value)
#include <array>
#include <cmath>
#include <cstdarg>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>
#include <sys/stat.h>
#include "mc.hpp"
#include "FileSpec.hpp"
#include "FileHunter.hpp"
#include "FileSpecFind.hpp"
using namespace gpstk; using namespace mc; typedef std::string S; typedef std::vector<S> VS; typedef FileSpec FS;
// independent calendar
static long dfc(long y, int m, int d) { y -= m <= 2; long era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (long)doe - 719468 + 40587; } // MJD
struct E { long mjd; long sod; bool operator<(const E& o) const { return mjd != o.mjd ? mjd < o.mjd : sod < o.sod; } bool operator==(const E& o) const { return mjd == o.mjd && sod == o.sod; } };
static E mk(int y, int doy, long sod) { return E{dfc(y, 1, 1) + doy - 1, sod}; }
static CommonTime ct(const E& e, TimeSystem ts = TimeSystem::Any) { CommonTime t; t.set(e.mjd + 2400001, e.sod, 0.0, ts); return t; }
static int yearOf(long mjd) { int y = 1858; while (dfc(y + 1, 1, 1) <= mjd) y++; return y; }
static void ymd(long mjd, int& y, int& m, int& d) { y = yearOf(mjd); m = 12; while (dfc(y, m, 1) > mjd) m--; d = mjd - dfc(y, m, 1) + 1; }
static S num(long v, int w) { char b[40]; snprintf(b, 40, "%0*ld", w, v); return b; }
static S val(char k, const E& e, int w) {
  int y, m, d; ymd(e.mjd, y, m, d); long dow = (e.mjd + 3) % 7, wk = (e.mjd - 44244) / 7, sow = dow * 86400 + e.sod; char b[60];
  switch (k) {
    case 'Y': return num(y, w); case 'y': return num(y % 100, w); case 'm': return num(m, w); case 'd': return num(d, w); case 'H': return num(e.sod / 3600, w); case 'M': return num(e.sod / 60 % 60, w); case 'S': return num(e.sod % 60, w);
    case 'F': return num(wk, w); case 'G': return num(wk % 1024, w); case 'w': return num(dow, w); case 'j': return num(e.mjd - dfc(y, 1, 1) + 1, w); case 'Z': case 'z': return num(sow * 2 / 3, w); case 'U': return num((e.mjd - 40587) * 86400 + e.sod, w); case 'u': return num(0, w); case 'C': case 'c': return num(wk * 524288 + sow * 2 / 3, w);
    case 's': if (w >= 12) { snprintf(b, 60, "%0*.6f", w, (double)e.sod); return b; } return num(e.sod, w);
    case 'g': if (w >= 13) { snprintf(b, 60, "%0*.6f", w, (double)sow); return b; } return num(sow, w);
    case 'Q': if (w >= 12) { snprintf(b, 60, "%0*.6f", w, e.mjd + e.sod / 86400.); return b; } return num(e.mjd, w);
    case 'f': if (w >= 9) { snprintf(b, 60, "%0*.6f", w, (double)(e.sod % 60)); return b; } return num(e.sod % 60, w);
  } return "?";
}
static int width(char k) { switch (k) { case 'Y': case 'F': case 'G': return 4; case 'j': return 3; case 'w': return 1; case 's': case 'Q': return 5; case 'g': case 'Z': case 'z': return 6; case 'U': case 'C': case 'c': return 10; case 'n': return 5; case 'x': return 3; case 'r': case 'v': case 't': return 1; default: return 2; } }
static FS::FileSpecType typ(char k) { return FS::convertFileSpecType(S(1, k)); }
// epoch truncated to the fields
static bool trunc(const S& ks, const E& e, E& r, long& tol) {
  tol = 0; auto has = [&](char c) { return ks.find(c) != S::npos; }; int y, m, d; ymd(e.mjd, y, m, d); r = E{dfc(y, 1, 1), 0};
  if (has('U')) { r = e; return true; } if (has('Q')) { r = E{e.mjd, 0}; return true; }
  if (has('C') || has('Z')) { r = e; long sow = (e.mjd + 3) % 7 * 86400 + e.sod, s2 = sow * 2 / 3 * 3; tol = s2 % 2; r.sod -= sow - (s2 + 1) / 2; if (s2 % 2) r.sod = e.sod; return has('C') || has('F'); }
  if (has('F')) { long wk = (e.mjd - 44244) / 7; r = E{44244 + wk * 7, 0}; if (has('g')) { r = e; return true; } if (has('w')) { r.mjd = e.mjd; } }
  else if (has('Y') || has('y')) { if (has('j')) r.mjd = e.mjd; else if (has('m')) { r.mjd = dfc(y, m, has('d') ? d : 1); } }
  else return false;
  if (has('s')) { r.sod = e.sod; return true; }
  if (has('H')) { r.sod = e.sod / 3600 * 3600; if (has('M')) { r.sod = e.sod / 60 * 60; if (has('S') || has('f')) r.sod = e.sod; } }
  return true;
}
static const std::vector<E> EP = {mk(1980, 6, 0), mk(1985, 181, 86399), mk(1999, 365, 86399), mk(2000, 1, 0), mk(2000, 60, 43200), mk(2000, 366, 3600), mk(2016, 366, 86340), mk(2017, 1, 59), mk(2018, 211, 43207), mk(2019, 96, 86398), mk(2019, 97, 1), mk(2021, 59, 3599), mk(2024, 60, 61)};
static S show(const E& e) { int y, m, d; ymd(e.mjd, y, m, d); char b[60]; snprintf(b, 60, "%d-%02d-%02d %ld s", y, m, d, e.sod); return b; }
static bool same(const CommonTime& t, const E& e) { long d, s; double f; t.get(d, s, f); return std::fabs((d - 2400001 - e.mjd) * 86400. + (s - e.sod) + f) < 1e-5; }
// ---- directory trees
static void mkdirs(const S& p) { for (size_t i = 1; i < p.size(); i++) if (p[i] == '/') mkdir(p.substr(0, i).c_str(), 0777); }
static void touch(const S& p) { mkdirs(p); std::ofstream f(p.c_str()); f << "x"; }
static S fill(const S& spec, const E& e, const std::map<char, S>& nt) { S r; for (size_t i = 0; i < spec.size(); i++) { if (spec[i] != '%') { r += spec[i]; continue; } int w = 0; size_t j = i + 1; while (isdigit(spec[j])) w = w * 10 + spec[j++] - '0'; char k = spec[j]; i = j; if (!w) w = k == 'Y' ? 4 : 1; auto q = nt.find(k); r += q != nt.end() ? q->second : val(k, e, w); } return r; }
static S letters(const S& spec) { S r; for (size_t i = 0; i < spec.size(); i++) if (spec[i] == '%') { size_t j = i + 1; while (isdigit(spec[j])) j++; r += spec[j]; } return r; }
static E floorE(const S& ks, const E& e) { E r; long tol; trunc(ks, e, r, tol); return r; }
struct F { E t; S sta, rx; S path; };
struct Tree { S spec; std::vector<E> files; std::vector<E> spans; };
int main(int argc, char** argv) {
  Harness h("C28"); bool th = h.thorough;
  static const VS COMBO = {"Y", "Ym", "Ymd", "Yj", "yj", "Yjs", "yjs", "YjH", "YjHM", "YjHMS", "YmdH", "YmdHMS", "ymdHMf", "F", "Fw", "Fg", "Fws", "FwHMS", "FZ", "C", "Q", "U", "YmdjHMS"};
  static const std::vector<VS> LAY = {{"", "", ""}, {"a", ".", "z"}, {"%5n", "-", "%02v.x"}, {"%1r%02p", "_%02k_", ""}, {"%3x", "", "%1t%02I"}};
  static std::vector<std::pair<S, int>> RT; for (auto& c : COMBO) { S p = c; std::sort(p.begin(), p.end()); int n = 0; do { if (c.size() > 5 && !th && n++ % 2) continue; for (size_t l = 0; l < LAY.size(); l++) RT.push_back({p, (int)l}); } while (std::next_permutation(p.begin(), p.end())); }
  static const std::map<char, S> NT = {{'n', "85401"}, {'r', "2"}, {'p', "07"}, {'t', "S"}, {'I', "12"}, {'v', "03"}, {'k', "04"}, {'x', "abc"}};
  h.part("generate and extract", RT.size(), [&](Ctx& c, u64 i) {
    S ks = RT[i].first; const VS& L = LAY[RT[i].second]; size_t nw = ks.find_first_of("sgfQ") != S::npos ? 2 : 1;
    for (size_t wide = 0; wide < nw; wide++) {
      S spec = L[0], all; for (size_t q = 0; q < ks.size(); q++) { int w = width(ks[q]); if (wide && ks[q] == 's') w = 12; if (wide && ks[q] == 'g') w = 13; if (wide && ks[q] == 'f') w = 9; if (wide && ks[q] == 'Q') w = 12; if (q) spec += L[1]; char b[20]; snprintf(b, 20, i % 3 == 2 && w < 10 ? "%%%d%c" : "%%0%d%c", w, ks[q]); if (ks[q] == 'Y' && i % 3 == 1) strcpy(b, "%Y"); if (w > 1 && i % 3 == 2) snprintf(b, 20, "%%0%d%c", w, ks[q]); spec += b; }
      spec += L[2]; FS fs(spec); FS::FSTStringMap m; for (auto& n : NT) m[typ(n.first)] = n.second;
      if (RT[i].second == 2) m[FS::station] = i % 2 ? "85401" : "401"; if (RT[i].second == 3) m[FS::prn] = i % 2 ? "7" : "07";
      std::map<char, S> nt(NT); if (RT[i].second == 2 && i % 2 == 0) nt['n'] = "00401";
      bool lz = wide || ks.find_first_of("sgfQ") == S::npos || true; (void)lz;
      for (size_t e = 0; e < EP.size(); e += 1) { E ep = EP[e]; S want = fill(spec, ep, nt); auto desc = [&] { return S("spec ") + spec + " at " + show(ep); };
        if (wide && ks.find('Q') != S::npos) { ep.sod = ep.sod / 21600 * 21600; want = fill(spec, ep, nt); }
        S got = fs.toString(ct(ep), m); c.traces(1); c.eval(1); c.outcome(got);
        MC_CK(c, got == want, "generate", desc() << " generates '" << got << "', want '" << want << "'"); if (got != want) continue;
        MC_CK(c, fs.createSearchString().size() == got.size(), "search-string", desc() << " search string " << fs.createSearchString());
        for (size_t q = 0, o = 0; q < spec.size(); q++) { if (spec[q] != '%') { o++; continue; } int w = 0; q++; while (isdigit(spec[q])) w = w * 10 + spec[q++] - '0'; char k = spec[q]; if (!w) w = 4; S f = fs.extractField(got, typ(k)); if (spec.find('%') != S::npos && (int)(letters(spec).find(k)) >= 0 && std::count(ks.begin(), ks.end(), k) < 2) MC_CK(c, f == want.substr(o, w), "extract", desc() << " extracts '" << f << "' for " << k << " from " << got); o += w; c.trans(1); }
        E r; long tol; bool ok = trunc(wide && ks.find('Q') != S::npos ? S("U") : ks, ep, r, tol); if (!ok) continue;
        CommonTime t; S ex = thrown([&] { t = fs.extractCommonTime(got); }); MC_CK(c, ex == "", "extract-throws", desc() << " extractCommonTime(" << got << ") throws " << ex); if (ex != "") continue;
        double dt = 0; { long d, s; double f; t.get(d, s, f); dt = (d - 2400001 - r.mjd) * 86400. + (s - r.sod) + f; }
        MC_CK(c, std::fabs(dt) < 1e-4 || (tol && std::fabs(dt + 0.5) < 1e-4) , "epoch", desc() << " extracts an epoch " << dt << " s off from " << got); c.eval(1); } }
  });
  // ---- history of specifications
  static const VS HS = {"ABC%04Y%03j.%02v", "%5n", "fixed", "%02y%1r%02m%02d", "%3x-%010C"};
  h.part("newSpec histories", 125 * HS.size(), [&](Ctx& c, u64 i) { Mix m(i); FS fs; S hist; for (int k = 0; k < 4; k++) { int a = k == 3 ? m(HS.size()) : m(5); S sp = HS[a]; if (k == 2 && i % 2) { FS g(HS[a]); fs = g; } else fs.newSpec(sp); hist += sp + " ; "; c.trans(1);
      for (FS::FileSpecType t = FS::FileSpecType(FS::unknown + 1); t < FS::end; t++) { bool w = false; for (char q : letters(sp)) if (typ(q) == t) w = true; if (t == FS::fixed) continue; c.eval(1); MC_CK(c, fs.hasField(t) == w, "has-field", hist << " hasField(" << t << ") is " << fs.hasField(t));
        S ex = thrown([&] { S f = fs.extractField(S(30, 'q'), t); }); MC_CK(c, ex == (w ? "" : "FileSpecException"), "extract-field-presence", hist << " extractField(" << t << ") throws '" << ex << "'"); }
      bool wt = letters(sp).find_first_of("YjymdC") != S::npos; MC_CK(c, fs.hasTimeField() == wt, "has-time", hist << " hasTimeField is " << fs.hasTimeField()); MC_CK(c, fs.getSpecString() == sp, "spec-string", hist << " is " << fs.getSpecString());
      S ss; for (size_t q = 0; q < sp.size(); q++) { if (sp[q] != '%') { ss += sp[q]; continue; } int w = 0; q++; while (isdigit(sp[q])) w = w * 10 + sp[q++] - '0'; ss += S(w, '?'); } MC_CK(c, fs.createSearchString() == ss, "search-string", hist << " search string " << fs.createSearchString()); c.states(1); } });
  // ---- refusals
  static const S AL = "%%%0123-. nYjvxqEa/";
  h.part("spec strings", th ? 6000 : 1000, [&](Ctx& c, u64 i) { u64 per = th ? 2476099 / 6000 + 1 : 130321 / 1000 + 1; int len = th ? 5 : 4; u64 tot = 1; for (int k = 0; k < len; k++) tot *= AL.size(); for (u64 q = i * per; q < (i + 1) * per && q < tot; q++) { Mix m(q); S s; for (int k = 0; k < len; k++) s += AL[m(AL.size())];
      if (q % 3 == 0) s += "n"; int st = 1; size_t minlen = 0; // reference: %[0*][digits]letter
      for (size_t p = 0; p < s.size() && st > 0;) { if (s[p] != '%') { p++; minlen++; continue; } p++; size_t p0 = p; if (p + 1 < s.size() && s[p] == '-' && s[p + 1] >= '1' && s[p + 1] <= '9') p0 = ++p; while (p < s.size() && isdigit(s[p])) p++; S dg = s.substr(p0, p - p0); if (p >= s.size() || S("nYjvx").find(s[p]) == S::npos) st = 0; else { int w = atoi(dg.c_str()); if (w == 0) w = 1; if (s[p] == 'Y') w = 4; minlen += w; p++; } }
      S ss; S ex = thrown([&] { FS f(s); ss = f.createSearchString(); if (ss.size() >= 1) for (char k : S("nYjvx")) if (f.hasField(typ(k))) { S x = f.extractField(S(ss.size(), '1'), typ(k)); MC_CK(c, thrown([&] { f.extractField("", typ(k)); }) == "" || thrown([&] { f.extractField("", typ(k)); }) == "FileSpecException", "short-name", "extractField of spec '" << s << "' from an empty name"); } });
      c.eval(1); c.outcome(ex + ss); MC_CK(c, ex == (st ? "" : "FileSpecException"), st ? "valid-refused" : "invalid-accepted", "spec '" << s << "' gives '" << ex << "'"); if (st && ex == "") MC_CK(c, ss.size() == minlen, "width", "spec '" << s << "' has search string '" << ss << "'"); } });
  // ---- sorting
  static const VS DIRS = {"", "/a/b/", "z/"};
  h.part("sortList", 4096 * 2, [&](Ctx& c, u64 i) { bool desc_ = i & 1; u64 q = i / 2; Mix m(q); int idx[4]; for (int k = 0; k < 4; k++) idx[k] = m(8);
    for (int variant = 0; variant < 4; variant++) { // spec: name order differs from the enum order
      S spec = variant == 0 ? "%03j%4Y-%1n" : variant == 1 ? "f%04Y-%1v-%1n" : variant == 2 ? "%1v%04Y%1n" : "D/%04Y%1v%1n"; bool ver = variant != 0; VS in; struct K { S n, y, j, v, path; int pos; }; std::vector<K> ks;
      for (int k = 0; k < 4; k++) { int b = idx[k]; S n(1, "ab"[b & 1]), y = b & 2 ? "2001" : "1999", v(1, "12"[b >> 2 & 1]), j = b & 4 ? "200" : "100"; S nm = variant == 0 ? j + y + "-" + n : variant == 1 ? "f" + y + "-" + v + "-" + n : variant == 2 ? v + y + n : "D/" + y + v + n; S d = variant == 3 ? "" : DIRS[(q + k * (q >> 3 & 1)) % 3]; in.push_back(d + nm); ks.push_back(K{n, y, j, v, d + nm, k}); }
      std::stable_sort(ks.begin(), ks.end(), [&](const K& a, const K& b) { S x = a.n + (ver ? a.v : "") + a.y + (ver ? "" : a.j), y = b.n + (ver ? b.v : "") + b.y + (ver ? "" : b.j); return desc_ ? y < x : x < y; });
      std::map<S, S> best; auto key = [&](const K& k) { size_t sl = k.path.rfind('/'); return (sl == S::npos ? S() : k.path.substr(0, sl)) + "|" + k.n + k.y; }; VS want; if (ver) { for (auto& k : ks) best[key(k)] = std::max(best[key(k)], k.v); std::set<S> done; for (auto& k : ks) if (best[key(k)] == k.v && done.insert(k.path).second) want.push_back(k.path); } else for (auto& k : ks) want.push_back(k.path);
      VS got = in; FS(spec).sortList(got, desc_ ? FS::descending : FS::ascending); c.eval(1); c.traces(1); auto j = [](const VS& v) { S s; for (auto& x : v) s += x + " "; return s; };
      MC_CK(c, got == want, variant == 0 ? "sort" : "sort-version", "spec " << spec << (desc_ ? " descending" : " ascending") << " sorts " << j(in) << "into " << j(got) << ", want " << j(want)); c.outcome(j(got)); } });
  // ---- searching
  static const std::vector<Tree> TR = {
    {"T/%04Y/%03j/f%5n-%1r-%04Y%03j%02H.dat", {mk(2018, 365, 82800), mk(2018, 365, 0), mk(2019, 1, 0), mk(2019, 1, 43200), mk(2019, 2, 3600), mk(2020, 366, 82800)}, {mk(2018, 364, 0), mk(2018, 365, 3600), mk(2018, 365, 84600), mk(2019, 1, 0), mk(2019, 1, 1), mk(2019, 2, 1800), mk(2019, 2, 3600), mk(2020, 366, 82800), mk(2021, 1, 0)}},
    {"T/n%5n_%1r_%04Y%02m%02d", {mk(1999, 365, 0), mk(2000, 1, 0), mk(2000, 59, 0), mk(2000, 60, 0), mk(2000, 61, 0), mk(2001, 1, 0)}, {mk(1999, 364, 0), mk(1999, 365, 0), mk(1999, 365, 5), mk(2000, 1, 0), mk(2000, 59, 86399), mk(2000, 60, 0), mk(2000, 61, 43200), mk(2001, 1, 0), mk(2001, 1, 1)}},
    {"%04Y%03j-%5n%1r.x", {mk(1999, 365, 0), mk(2000, 1, 0), mk(2000, 60, 0), mk(2000, 61, 0), mk(2000, 366, 0), mk(2001, 1, 0)}, {mk(1999, 364, 0), mk(1999, 365, 0), mk(2000, 1, 1), mk(2000, 60, 0), mk(2000, 61, 86399), mk(2000, 366, 43200), mk(2001, 1, 0), mk(2001, 2, 0)}},
    {"T/%04F/r%1r/%5n-%04F%1w%05s.s", {mk(2019, 96, 86399), mk(2019, 97, 0), mk(2019, 97, 7), mk(2019, 98, 43200), mk(2019, 103, 86399), mk(2019, 104, 0)}, {mk(2019, 96, 0), mk(2019, 96, 86399), mk(2019, 97, 0), mk(2019, 97, 8), mk(2019, 98, 43199), mk(2019, 103, 86399), mk(2019, 104, 0), mk(2019, 104, 1)}},
    {"T/y%02y/d/%03j/%5n%1r%02H%02M%02S", {mk(1999, 365, 86399), mk(2000, 1, 0), mk(2000, 1, 59), mk(2000, 1, 60), mk(2000, 1, 3600), mk(2000, 2, 0)}, {mk(1999, 365, 86399), mk(2000, 1, 0), mk(2000, 1, 30), mk(2000, 1, 60), mk(2000, 1, 3599), mk(2000, 2, 0), mk(2000, 2, 1)}},
  };
  static const u64 NF = 6;
  h.part("search trees", TR.size() << NF, [&](Ctx& c, u64 i) { const Tree& T = TR[i >> NF]; u64 mask = i & ((1u << NF) - 1); S rel = T.spec; S ks = letters(T.spec); { S u; for (char k : ks) if (u.find(k) == S::npos) u += k; ks = u; }
    char cw[4096]; S cwd = getcwd(cw, sizeof cw); char nm[40]; snprintf(nm, 40, "tree%llu", (unsigned long long)i); mkdir(nm, 0777); if (chdir(nm)) return; S base = cwd + "/" + nm; mkdir("T", 0777);
    std::vector<F> fl; for (u64 k = 0; k < NF; k++) if (mask >> k & 1) for (int st = 0; st < 2; st++) { if (st == 1 && (k + i) % 3) continue; F f; f.t = floorE(ks, T.files[k]); f.sta = st ? "85402" : "85401"; f.rx = (k + st) % 2 ? "1" : "2"; f.path = fill(T.spec, T.files[k], {{'n', f.sta}, {'r', f.rx}}); fl.push_back(f); touch(f.path);
      S dec = f.path; if (k % 3 == 0) touch(dec + "~"); if (k % 3 == 1 && 0) { size_t p = dec.find_last_of("0123456789"); dec[p] = 'q'; touch(dec); } if (k == 2 && dec.rfind('/') != S::npos) touch(dec.substr(0, dec.rfind('/')) + "/.hidden"); }
    // a directory where a file is expected is not generated; a file where a directory is expected:
    if (T.spec.find("%04Y/") != S::npos) touch("T/2222"); if (T.spec.find("%04F/") != S::npos) touch("T/notes");
    for (int abs = 0; abs < 2; abs++) { S spec = (abs ? base + "/" : S()) + rel; auto full = [&](const F& f) { return (abs ? base + "/" : S()) + f.path; };
      for (int fi = 0; fi < 5; fi++) { if (abs && fi != (int)(mask % 5)) continue; // 0: none, 1 station, 2 station both, 3 receiver, 4 station+receiver
        auto pass = [&](const F& f) { if (fi == 1 || fi == 4) { if (f.sta != "85401") return false; } if (fi == 3 || fi == 4) { if (f.rx != "1") return false; } return true; };
        FileSpecFind::Filter ff; if (fi == 1 || fi == 4 || fi == 2) ff.insert({FS::station, "85401"}); if (fi == 2) ff.insert({FS::station, "85402"}); if (fi >= 3) ff.insert({FS::receiver, "1"}); if (fi == 3) ff.insert({FS::text, "unused"});
        for (size_t a = 0; a < T.spans.size(); a++) for (size_t b = a; b < T.spans.size(); b++) { E A = T.spans[a], B = T.spans[b]; E fA = floorE(ks, A); auto desc = [&] { S s = "tree {"; for (auto& f : fl) s += f.path + " "; return s + "} span " + show(A) + " to " + show(B) + " filter " + std::to_string(fi); }; TimeSystem ts = (a + b) % 2 ? TimeSystem::GPS : TimeSystem::Any;
          std::set<S> want; for (auto& f : fl) if (pass(f) && !(f.t < fA) && (f.t < B || f.t == fA)) want.insert(full(f));
          std::list<S> r; S ex = thrown([&] { if (fi == 0) r = (a % 2) ? FileSpecFind::find(spec, ct(A, ts), ct(B, ts)) : FileSpecFind::find(FS(spec), ct(A, ts), ct(B, ts)); else r = (a % 2) ? FileSpecFind::find(spec, ct(A, ts), ct(B, ts), ff) : FileSpecFind::find(FS(spec), ct(A, ts), ct(B, ts), ff); }); c.eval(1); c.traces(1); c.states(1);
          MC_CK(c, ex == "", "find-throws", desc() << ": FileSpecFind throws " << ex); if (ex != "") continue; std::set<S> got(r.begin(), r.end()); auto j = [](const std::set<S>& v) { S s; for (auto& x : v) s += x + " "; return s; };
          MC_CK(c, got == want && got.size() == r.size(), "find", desc() << ": FileSpecFind gives " << j(got) << " want " << j(want)); c.outcome(hmix(got.size(), a * 16 + b));
          if (fi == (int)(mask % 5) && abs == (int)(mask % 2)) for (int ch = 0; ch < 4; ch++) { if (!th && (a + b) % 4 != (size_t)ch && mask % 4 != 3) continue;
            E x = A; if (ch == 0) { x = E{A.mjd - (A.mjd + 3) % 7, 0}; } if (ch == 1) x.sod = 0; if (ch == 2) x.sod = A.sod / 3600 * 3600; if (ch == 3) x.sod = A.sod / 60 * 60;
            bool dsc = (a + ch) % 2; FileHunter fh(spec); if (fi == 1 || fi == 4) fh.setFilter(FS::station, VS(1, "85401")); if (fi == 2) fh.setFilter(FS::station, VS{"85401", "85402"}); if (fi >= 3) fh.setFilter(FS::receiver, VS(1, "1"));
            std::vector<std::pair<S, S>> w; std::set<S> ws; for (auto& f : fl) if (pass(f) && !(f.t < x) && !(B < f.t)) { w.push_back({"", base + "/" + f.path}); ws.insert(base + "/" + f.path); }
            VS g; S e2; try { g = fh.find(ct(A, ts), ct(B, ts), dsc ? FS::descending : FS::ascending, (FileHunter::FileChunking)ch); } catch (Exception& e) { e2 = e.what(); }
            MC_CK(c, e2 == "", "hunt-throws", desc() << ": FileHunter throws " << e2); if (e2 != "") continue; std::set<S> gs(g.begin(), g.end()); c.eval(1); c.traces(1);
            MC_CK(c, gs == ws && gs.size() == g.size(), "hunt", desc() << " chunk " << ch << ": FileHunter gives " << j(gs) << " want " << j(ws));
            // order: by the fields of the file name, in the order of the enum
            S ls = rel.substr(rel.rfind('/') == S::npos ? 0 : rel.rfind('/') + 1); FS lfs(ls); auto key = [&](const S& p) { S nme = p.substr(p.rfind('/') + 1), s; for (char k : S("nrymdHMSFws")) { char kk = k; if (k == 'y' && letters(ls).find('Y') != S::npos) kk = 'Y'; if (letters(ls).find(kk) != S::npos) s += lfs.extractField(nme, typ(kk)) + "|"; if (k == 'w' && letters(ls).find('j') != S::npos) s += lfs.extractField(nme, typ('j')) + "|"; } return s; };
            for (size_t k = 1; k < g.size(); k++) MC_CK(c, dsc ? !(key(g[k - 1]) < key(g[k])) : !(key(g[k]) < key(g[k - 1])), "hunt-order", desc() << (dsc ? " descending" : " ascending") << ": FileHunter orders " << g[k - 1] << " before " << g[k]); } } } }
    if (chdir(cwd.c_str())) return; S cmd = "rm -rf " + base; if (base.find("/tree") != S::npos && system(cmd.c_str())) {} }, 200);
  // ---- text and selected fields of any width in FileSpecFind::find(fsts)
  h.part("values for open widths", 5 * 4 * 3, [&](Ctx& c, u64 i) { Mix m(i); S tx = VS{"", "A", "BC", "site1", "x-y"}[m(5)], se = VS{"", "S", "UU", "sel"}[m(4)]; int lay = m(3); mkdir("V", 0777); char nm[20]; snprintf(nm, 20, "V/%llu", (unsigned long long)i); mkdir(nm, 0777); S spec = S(nm) + (lay == 0 ? "/%x-%t-%04Y%03j" : lay == 1 ? "/%04Y/%x.%t" : "/%x/%t.%04Y"); std::set<S> want; E e = mk(2018, 200, 0);
    for (S t : VS{"A", "BC", "site1", "x-y", "Z"}) for (S s : VS{"S", "T", "UU", "UV", "sel"}) { S p = lay == 0 ? "/" + t + "-" + s + "-2018200" : lay == 1 ? "/2018/" + t + "." + s : "/" + t + "/" + s + ".2018"; touch(nm + p); bool ok = t == (tx.empty() ? "Z" : tx) && s.size() == (se.empty() ? 1 : se.size()); if (ok) want.insert(nm + p); }
    FS::FSTStringMap fm; if (!tx.empty()) fm[FS::text] = tx; if (!se.empty()) fm[FS::selected] = se; std::list<S> r; S ex = thrown([&] { r = FileSpecFind::find(spec, ct(e), ct(mk(2018, 201, 0)), fm); }); c.eval(1); c.traces(1); std::set<S> got(r.begin(), r.end()); MC_CK(c, ex == "" && got == want && r.size() == got.size(), "open-widths", "spec " << spec << " text '" << tx << "' selected '" << se << "' finds " << r.size() << " files " << (r.empty() ? "" : r.front()) << " " << ex << ", want " << want.size()); });
  // ---- hunter settings
  h.part("hunter settings", 4 * 4 * 3, [&](Ctx& c, u64 i) { Mix m(i); int a = m(4), b = m(4), f = m(3); mkdir("H", 0777); touch("H/a1_2018200"); touch("H/b1_2018200"); touch("H/a2_2018201"); touch("H/c2_2018201.t"); static const VS SP = {"H/%1x1_%4Y%3j", "H/%1x%1r_%4Y%3j", "H/%1x2_%4Y%3j.t", "H/%1x%1r_%4Y%3j.t"}; static const int cnt[4][3] = {{2, 1, 0}, {3, 2, 1}, {1, 0, 0}, {1, 0, 0}};
    FileHunter fh(SP[a]); fh.setFilter(FS::text, VS{"q"}); fh.newHunt(SP[b]); c.trans(2); if (f == 1) fh.setFilter(FS::text, VS{"a"}); bool hasr = letters(SP[b]).find('r') != S::npos; if (f == 2) { S ex = thrown([&] { fh.setFilter(FS::receiver, VS{"2"}); }); MC_CK(c, ex == (hasr ? "" : "FileHunterException"), "filter-field", "setFilter on a field of " << SP[b] << " gives '" << ex << "'"); }
    MC_CK(c, thrown([&] { fh.setFilter(FS::text, VS()); }) == "FileHunterException", "empty-filter", "empty filter accepted"); VS r = fh.find(ct(mk(2018, 200, 0)), ct(mk(2018, 201, 5))); size_t w = f == 0 ? cnt[b][0] : f == 1 ? cnt[b][1] : hasr ? (b == 1 ? 1 : 1) : cnt[b][0]; c.eval(1); c.states(1);
    MC_CK(c, r.size() == w, "new-hunt", "hunt " << SP[a] << " then " << SP[b] << " filter " << f << " finds " << r.size() << " files, want " << w);
    MC_CK(c, thrown([&] { fh.find(ct(mk(2018, 201, 0)), ct(mk(2018, 200, 0))); }) == "FileHunterException", "time-order", "reversed times accepted"); MC_CK(c, thrown([&] { FileHunter z(""); }) == "FileHunterException", "empty-spec", "empty spec accepted");
    MC_CK(c, thrown([&] { FileHunter z("H/%q"); }) == "FileHunterException", "bad-spec", "bad spec accepted"); VS d = fh.find(); MC_CK(c, d.size() == w, "default-times", "find() finds " << d.size() << " files, want " << w); });
  h.part("type letters", 29, [&](Ctx& c, u64 i) { struct T { FileSpec::FileSpecType t; const char* s; }; static const T TT[29] = {{FS::station, "n"}, {FS::receiver, "r"}, {FS::prn, "p"}, {FS::selected, "t"}, {FS::sequence, "I"}, {FS::version, "v"}, {FS::fixed, ""}, {FS::clock, "k"}, {FS::text, "x"}, {FS::year, "y"}, {FS::month, "m"}, {FS::dayofmonth, "d"}, {FS::hour, "H"}, {FS::minute, "M"}, {FS::second, "S"}, {FS::fsecond, "f"}, {FS::gpsweek, "G"}, {FS::fullgpsweek, "F"}, {FS::gpssecond, "g"}, {FS::mjd, "Q"}, {FS::dayofweek, "w"}, {FS::day, "j"}, {FS::doysecond, "s"}, {FS::zcount, "Z"}, {FS::zcountfloor, "z"}, {FS::unixsec, "U"}, {FS::unixusec, "u"}, {FS::fullzcount, "C"}, {FS::unknown, 0}}; c.eval(2); c.states(1); const T& t = TT[i];
    if (!t.s) { MC_CK(c, thrown([&] { FS::convertFileSpecType(t.t); }) == "FileSpecException", "type-letter:unknown", "unknown type converts"); for (const char* q : {"b", "%", "yy", "B"}) MC_CK(c, thrown([&] { FS::convertFileSpecType(S(q)); }) == "FileSpecException", "type-letter:unknown-letter", q); MC_CK(c, FS::convertFileSpecType(S("Y")) == FS::year && FS::convertFileSpecType(S("c")) == FS::fullzcount, "type-letter:alias", "Y or c"); return; }
    S g; S e = thrown([&] { g = FS::convertFileSpecType(t.t); }); MC_CK(c, e == "" && g == t.s, "type-letter:to-string", "type '" << t.s << "' gives '" << g << "' " << e); if (t.t == FS::fixed) return; FS::FileSpecType b = FS::unknown; e = thrown([&] { b = FS::convertFileSpecType(S(t.s)); }); MC_CK(c, e == "" && b == t.t, "type-letter:from-string", "'" << t.s << "' gives type " << (int)b << " " << e); });
  return h.run(argc, argv);
}
