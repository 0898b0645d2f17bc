// MC-SAN: assert
// MC-RULE: list model of the container operations (multiset of records, documented keep-first rule, stable order); strict-weak-order axioms and exact record difference for the RINEX comparison operators
// MC-ASSUME: the input of unique() and diff() is sorted with the same comparison, as documented ; observation records carry every common type and non-zero LLI/SSI (a zero flag is documented as ignored) ; navigation comparison covers RINEX 2 GPS records
#include <algorithm>
#include <set>
#include <list>
#include "mc.hpp"
#include "FileFilter.hpp"
#include "FileStore.hpp"
#include "RinexNavFilterOperators.hpp"
#include "RinexMetFilterOperators.hpp"
#include "RinexObsFilterOperators.hpp"
#include "Rinex3ObsFilterOperators.hpp"
#include "GPSWeekSecond.hpp"
#include "FileFilterFrameWithHeader.hpp"
#include "RinexMetStream.hpp"
using namespace gpstk; using namespace mc; typedef std::string S;
struct R { int k, t; bool operator==(const R& o) const { return k == o.k && t == o.t; } bool operator<(const R& o) const { return k != o.k ? k < o.k : t < o.t; } };
typedef std::list<R> L; typedef FileFilter<R> F;
static S str(const L& l) { S s; for (auto& r : l) s += std::to_string(r.k) + "." + std::to_string(r.t) + " "; return s; }
static bool up(const R& a, const R& b) { return a.k < b.k; } static bool dn(const R& a, const R& b) { return a.k > b.k; } static bool eqk(const R& a, const R& b) { return a.k == b.k; }
struct Is { int k; bool operator()(const R& r) const { return r.k == k; } };
struct Ge { int k; bool operator()(const R& r) const { return r.k >= k; } };
struct Touch { int seen = 0; bool operator()(R& r) { seen++; if (r.k % 2 == 0) { r.k++; return true; } return false; } };
static L bag(L l) { l.sort(); return l; }
template <class P> static L sorted(L l, P p) { l.sort(p); return l; } // std::list::sort is stable
static L diffModel(const L& a, const L& b) { L o; std::map<int, int> n; for (auto& r : b) n[r.k]++; for (auto& r : a) { if (n[r.k] > 0) n[r.k]--; else o.push_back(r); } return o; }
static L mk(u64 code, int n, int base) { L l; for (int i = 0; i < n; i++) { l.push_back({int(code % 3), base + i}); code /= 3; } return l; }
enum { SORT, SORTD, UNIQ, FIL0, FILGE, TOUCH, ADD1, ADDL, MERGE, MERGES, DIFF, FIND, CLEAR, NOP };
static const char* ON[] = {"sort", "sortDesc", "unique", "filter==0", "filter>=1", "touch", "add", "addList", "merge", "mergeSort", "diff", "findAll", "clear"};
// one operation on the real filter and on the model; where the placement of added records is not promised the model takes the order that came out, after checking it holds exactly the union and keeps each source's own order
static void unionTo(Ctx& c, const char* nm, F& f, L& m, const L& b) {
  L g = f.getData(), w = m; w.insert(w.end(), b.begin(), b.end()); if (bag(g) != bag(w)) { c.fail(S("FileFilter:") + nm, str(m) + "+ " + str(b) + "-> " + str(g)); m = g; return; }
  L ga, gb; std::set<R> inB(b.begin(), b.end()), inA(m.begin(), m.end()); bool disjoint = true; for (auto& r : m) disjoint &= !inB.count(r); if (disjoint) { for (auto& r : g) (inB.count(r) ? gb : ga).push_back(r); if (ga != m || gb != b) c.fail(S("FileFilter:") + nm + "-order", str(m) + "+ " + str(b) + "-> " + str(g)); } m = g; }
static void same(Ctx& c, int o, F& f, const L& m, const L& before) {
  const F& cf = f; L g = cf.getData(), it(cf.begin(), cf.end()), it2(f.begin(), f.end()); c.outcome(hmix(o, hstr(str(g))));
  if (g != m) c.fail(S("FileFilter:") + ON[o], str(before) + "-> " + str(g) + "want " + str(m)); 
  if (it != g || it2 != g || f.getDataCount() != g.size() || f.size() != g.size() || f.empty() != g.empty()) c.fail("FileFilter:access", str(g));
  if (!g.empty() && (!(f.front() == g.front()) || !(f.back() == g.back()) || !(cf.front() == g.front()) || !(cf.back() == g.back()))) c.fail("FileFilter:ends", str(g)); }
static void step(Ctx& c, int o, F& f, L& m, const L& b) {
  L before = m; F fb; fb.addData(b); int cnt = -1; c.trans(); F* ret = &f;
  switch (o) {
    case SORT: m = sorted(m, up); ret = &f.sort(up); break; case SORTD: m = sorted(m, dn); ret = &f.sort(dn); break;
    case UNIQ: { L w; cnt = 0; for (auto& r : m) if (w.empty() || w.back().k != r.k) w.push_back(r); else cnt++; m = w; ret = &f.unique(eqk); break; }
    case FIL0: case FILGE: { L w; cnt = 0; for (auto& r : m) if (o == FIL0 ? r.k == 0 : r.k >= 1) cnt++; else w.push_back(r); m = w; if (o == FIL0) ret = &f.filter(Is{0}); else ret = &f.filter(Ge{1}); break; }
    case TOUCH: { cnt = 0; for (auto& r : m) if (r.k % 2 == 0) { r.k++; cnt++; } Touch t; ret = &f.touch(t); if (t.seen != (int)m.size()) c.fail("FileFilter:touch-state", std::to_string(t.seen)); break; }
    case ADD1: m.push_back({1, 70 + (int)m.size()}); ret = &f.addData(m.back()); break;
    case ADDL: { L l{{2, 80 + 2 * (int)m.size()}, {0, 81 + 2 * (int)m.size()}}; ret = &f.addData(l); unionTo(c, "addList", f, m, l); break; }
    case MERGE: ret = &f.merge(fb); unionTo(c, "merge", f, m, b); break;
    case MERGES: { f.merge(fb, up); L g = f.getData(), w = m; w.insert(w.end(), b.begin(), b.end()); if (bag(g) != bag(w) || !std::is_sorted(g.begin(), g.end(), up)) c.fail("FileFilter:mergeSort", str(m) + "+ " + str(b) + "-> " + str(g)); m = g; break; }
    case DIFF: { if (!std::is_sorted(m.begin(), m.end(), up)) return; L sb = sorted(b, up); F fs; fs.addData(sb); auto d = ((const F&)f).diff(fs, up); auto keys = [](const L& l) { S s; for (auto& r : l) s += std::to_string(r.k); return s; };
      L w1 = diffModel(m, sb), w2 = diffModel(sb, m); auto sub = [](const L& x, const L& of) { for (auto& r : x) if (std::find(of.begin(), of.end(), r) == of.end()) return false; return true; };
      if (keys(d.first) != keys(w1) || keys(d.second) != keys(w2) || !sub(d.first, m) || !sub(d.second, sb)) c.fail("FileFilter:diff", str(m) + "| " + str(sb) + "-> " + str(d.first) + "| " + str(d.second)); if (fs.getData() != sb) c.fail("FileFilter:diff-const", ""); break; }
    case FIND: { L w; for (auto& r : m) if (r.k == 1) w.push_back(r); L g = ((const F&)f).findAll(Is{1}); if (g != w) c.fail("FileFilter:findAll", str(m) + "-> " + str(g)); break; }
    case CLEAR: m.clear(); f.clear(); break; }
  if (ret != &f) c.fail("FileFilter:returns", ON[o]); if (cnt >= 0 && f.getFiltered() != cnt) c.fail(S("FileFilter:count-") + ON[o], std::to_string(f.getFiltered()) + " want " + std::to_string(cnt));
  if (fb.getData() != b) c.fail("FileFilter:merge-const", str(fb.getData())); same(c, o, f, m, before); }
// exact strict weak order over a pool, consistent with the given notion of "same record"
template <class V, class LT, class EQ> static void axioms(Ctx& c, const char* nm, const std::vector<V>& v, LT lt, EQ same, std::function<S(size_t)> show) {
  size_t n = v.size(); std::vector<std::vector<char>> a(n, std::vector<char>(n)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { a[i][j] = lt(v[i], v[j]); c.eval(); c.outcome(hmix(hstr(nm), a[i][j])); }
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { bool e = same(i, j); if (a[i][j] && a[j][i]) { c.fail(S(nm) + ":asymmetry", show(i) + " | " + show(j)); return; } if (e != (!a[i][j] && !a[j][i])) { c.fail(S(nm) + ":distinguishes", show(i) + " | " + show(j) + (e ? " are the same record" : " are different records but neither sorts first")); return; }
    for (size_t k = 0; k < n; k++) if (a[i][j] && a[j][k] && !a[i][k]) { c.fail(S(nm) + ":transitivity", show(i) + " | " + show(j) + " | " + show(k)); return; } } }
static CommonTime T(double s) { return GPSWeekSecond(2000, s, TimeSystem::GPS).convertToCommonTime(); }
struct O { int time, flag, clk, sats, v[4], lli, ssi; };
int main(int argc, char** argv) {
  Harness h("C29"); const int maxA = 4, maxB = 2, depth = h.thorough ? 4 : 3;
  std::vector<std::pair<int, u64>> as, bs; for (int n = 0; n <= maxA; n++) for (u64 k = 0, e = std::pow(3, n) + .5; k < e; k++) as.push_back({n, k}); for (int n = 0; n <= maxB; n++) for (u64 k = 0, e = std::pow(3, n) + .5; k < e; k++) bs.push_back({n, k});
  h.part("sequences", as.size(), [=](Ctx& c, u64 i) { for (auto& b : bs) { L lb = mk(b.second, b.first, 50); c.states();
      std::function<void(const F&, const L&, int)> go = [&](const F& f, const L& m, int d) { if (!d) return; for (int o = 0; o < NOP; o++) { F g(f); L w(m); step(c, o, g, w, lb); go(g, w, d - 1); } };
      F f; if (f.getFiltered() != 0 || !f.empty()) c.fail("FileFilter:fresh", ""); L a = mk(as[i].second, as[i].first, 0); for (auto& r : a) f.addData(r); if (f.getData() != a) c.fail("FileFilter:add", str(a) + "-> " + str(f.getData())); go(f, a, depth); c.traces(); } }, 400);
  h.part("lists", 9, [](Ctx& c, u64 i) { // longer inputs, one operation each: all sequences of 7 over 3 keys against all of 4
    for (u64 k = 0; k < 243; k++) { L a = mk(i * 243 + k, 7, 0); for (u64 j = 0; j < 81; j++) { L b = mk(j, 4, 50); for (int o : {SORT, SORTD, UNIQ, FIL0, FILGE, MERGE, MERGES, FIND}) { if (j && o != MERGE && o != MERGES) continue; F f; f.addData(a); L m = f.getData(); if (bag(m) != bag(a)) c.fail("FileFilter:addList", str(m)); step(c, o, f, m, b); }
      F f; f.addData(a); L m = f.getData(); step(c, SORT, f, m, b); step(c, DIFF, f, m, b); step(c, UNIQ, f, m, b); step(c, DIFF, f, m, b); c.states(); } } }, 300);
  h.part("long", 60, [](Ctx& c, u64 i) { // many equal records: every length to 60 x every arithmetic pattern; large sorts must behave like small ones
    for (int m = 1; m <= 5; m++) for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) { F f; L l, o; for (int k = 0; k <= (int)i; k++) { l.push_back({(a * k * k + b * k) % m, k}); f.addData(l.back()); o.push_back({k % 4, 100 + k}); } c.states(); L w = l; for (int op : {SORT, UNIQ, MERGES, SORTD, FIL0, UNIQ}) step(c, op, f, w, o); F g; g.addData(l); L x = g.getData(); step(c, SORT, g, x, o); step(c, DIFF, g, x, o); step(c, TOUCH, g, x, o); step(c, FIND, g, x, o); } });
  h.part("half-diff", 16, [](Ctx& c, u64 i) { // one-sided difference used by the observation diff tool: all pairs of sorted multisets of <=5 records over 4 keys; result = records of the left file left unmatched
    typedef FileFilterFrameWithHeader<RinexMetStream, RinexMetData, RinexMetHeader> FF; struct P { int prec; bool ok; }; std::vector<std::vector<int>> ms; for (int a = 0; a <= 2; a++) for (int b = 0; b <= 2; b++) for (int d = 0; d <= 2; d++) for (int e = 0; e <= 2; e++) if (a + b + d + e <= 5) { std::vector<int> v; v.insert(v.end(), a, 0); v.insert(v.end(), b, 1); v.insert(v.end(), d, 2); v.insert(v.end(), e, 3); ms.push_back(v); }
    auto fill = [](FF& f, const std::vector<int>& v, const char* mark) { int n = 0; for (int k : v) { RinexMetData d; d.data[RinexMetHeader::PR] = k; d.data[RinexMetHeader::TD] = n++; f.addData(d); } RinexMetHeader h; h.markerName = mark; f.getHeaderData().push_back(h); };
    for (size_t x = i; x < ms.size(); x += 16) for (size_t y = 0; y < ms.size(); y++) { FF a, b; fill(a, ms[x], "A"); fill(b, ms[y], "B"); c.states(); bool ok = true; int prec = (x + y) % 4; auto cmp = [&](const RinexMetData& l, const RinexMetHeader& lh, const RinexMetData& r, const RinexMetHeader& rh, double eps) { c.trans(); ok &= lh.markerName != rh.markerName && std::abs(eps * std::pow(10.0, prec) - 1) < 1e-9; return l.data.find(RinexMetHeader::PR)->second < r.data.find(RinexMetHeader::PR)->second; };
      std::list<RinexMetData> g = a.halfDiff(b, cmp, prec); std::map<int, int> n; for (int k : ms[y]) n[k]++; std::vector<int> w, k; for (int q : ms[x]) if (n[q] > 0) n[q]--; else w.push_back(q); for (auto& r : g) k.push_back(r.data.find(RinexMetHeader::PR)->second); if (k != w) c.fail("halfDiff", std::to_string(x) + " " + std::to_string(y)); if (!ok) c.fail("halfDiff:arguments", std::to_string(prec)); c.outcome(hmix(x, y)); } });
  h.part("file-store", 1, [](Ctx& c, u64) { // header store: every add sequence of length <=5 over 3 names; a duplicate is refused and changes nothing
    struct H { int v; void dump(std::ostream&) const {} }; struct FS : FileStore<H> {}; for (int n = 0; n <= 5; n++) for (u64 k = 0, e = std::pow(4, n) + .5; k < e; k++) { FS s; std::map<S, int> m; u64 q = k; c.states(); for (int i = 0; i < n; i++, q /= 4) { c.trans(); int o = q % 4; if (o == 3) { s.clear(); m.clear(); } else { S nm(1, 'c' - o); H hd{i}; std::ostringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf()); bool dup = m.count(nm), thr = false; try { s.addFile(nm, hd); } catch (InvalidRequest&) { thr = true; } std::cout.rdbuf(old); if (thr != dup) c.fail("FileStore:duplicate", nm); if (!dup) m[nm] = i; }
      std::vector<S> w; for (auto& x : m) w.push_back(x.first); if (s.getFileNames() != w) c.fail("FileStore:names", ""); for (char x = 'a'; x <= 'c'; x++) { auto it = m.find(S(1, x)); try { int v = s.getHeader(S(1, x)).v; if (it == m.end() || it->second != v) c.fail("FileStore:header", S(1, x)); } catch (InvalidRequest&) { if (it != m.end()) c.fail("FileStore:header", S(1, x)); } } c.outcome(hmix(k, w.size())); } } });
  h.part("nav-operators", 1, [](Ctx& c, u64) { std::vector<RinexNavData> v; std::vector<S> id; RinexNavData z; z.time = T(7200); z.PRNID = 5; z.sf1XmitTime = 7200; z.toeWeek = 2000; z.codeflgs = 1; z.health = 0; z.L2Pdata = 0; z.accuracy = RNDouble(2.0);
    auto set = [&](RNDouble RinexNavData::*p, double x) { z.*p = RNDouble(x); }; RNDouble RinexNavData::*fl[] = {&RinexNavData::accuracy, &RinexNavData::IODC, &RinexNavData::IODE, &RinexNavData::af0, &RinexNavData::af1, &RinexNavData::af2, &RinexNavData::Tgd, &RinexNavData::Cuc, &RinexNavData::Cus, &RinexNavData::Crc, &RinexNavData::Crs, &RinexNavData::Cic, &RinexNavData::Cis, &RinexNavData::Toe, &RinexNavData::M0, &RinexNavData::dn, &RinexNavData::ecc, &RinexNavData::Ahalf, &RinexNavData::OMEGA0, &RinexNavData::i0, &RinexNavData::w, &RinexNavData::OMEGAdot, &RinexNavData::idot, &RinexNavData::fitint};
    int n = 0; for (auto p : fl) set(p, 0.5 + n++); auto add = [&](const RinexNavData& d, const S& s) { v.push_back(d); id.push_back(s); }; add(z, "base"); n = 0; for (auto p : fl) { auto d = z; d.*p = RNDouble(-3.25); add(d, "f" + std::to_string(n)); d.*p = RNDouble(77.5); add(d, "F" + std::to_string(n)); n++; }
    { auto d = z; d.PRNID = 6; add(d, "prn6"); d.PRNID = 4; add(d, "prn4"); d = z; d.sf1XmitTime = 7230; add(d, "how+30"); d = z; d.sf1XmitTime = 7170; add(d, "how-30"); d = z; d.toeWeek = 2001; d.time = T(7200) + 604800.0; add(d, "week+1"); d = z; d.codeflgs = 2; add(d, "code"); d = z; d.health = 3; add(d, "health"); d = z; d.L2Pdata = 1; add(d, "L2P"); d = z; d.time = T(7184); add(d, "toc-16"); d = z; d.time = T(7184); d.PRNID = 9; add(d, "toc-16 prn9"); d = z; d.sf1XmitTime = 7230; d.PRNID = 1; add(d, "how+30 prn1"); d.time = T(9000); add(d, "how+30 prn1 toc"); add(z, "base"); }
    auto sh = [&](size_t i) { return id[i]; }; axioms(c, "RinexNavData", v, RinexNavDataOperatorLessThanFull(), [&](size_t i, size_t j) { return id[i] == id[j]; }, sh); RinexNavDataOperatorEqualsFull e; for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) { c.eval(); if (e(v[i], v[j]) != (id[i] == id[j])) { c.fail("RinexNavData:equals", id[i] + " | " + id[j]); } }
    axioms(c, "RinexNavData-time", v, RinexNavDataOperatorLessThanSimple(), [&](size_t i, size_t j) { return v[i].getXmitTime() == v[j].getXmitTime(); }, sh);
    for (u64 m = 0; m < 8; m++) { std::list<long> l; for (int b = 0; b < 3; b++) if (m >> b & 1) l.push_back(4 + b); RinexNavDataFilterPRN p(l); for (int prn = 3; prn < 9; prn++) { auto d = z; d.PRNID = prn; bool keep = std::find(l.begin(), l.end(), prn) != l.end(); c.eval(); if (p(d) == keep) c.fail("RinexNavDataFilterPRN", std::to_string(prn)); } } });
  h.part("met-operators", 1, [](Ctx& c, u64) { typedef RinexMetHeader H; std::vector<RinexMetData> v; std::vector<S> id, tm; for (int t = 0; t < 3; t++) for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) for (int x = 0; x < 2; x++) { RinexMetData d; d.time = T(30 * t); d.data[H::PR] = 1000 + p; d.data[H::TD] = 20 - q; d.data[H::HR] = x; v.push_back(d); id.push_back(std::to_string(t) + std::to_string(p) + std::to_string(q)); tm.push_back(std::to_string(t)); } 
    std::set<H::RinexMetType> both{H::PR, H::TD}; auto sh = [&](size_t i) { return id[i]; }; axioms(c, "RinexMetData", v, RinexMetDataOperatorLessThanFull(both), [&](size_t i, size_t j) { return id[i] == id[j]; }, sh); auto st = [&](size_t i, size_t j) { return tm[i] == tm[j]; }; axioms(c, "RinexMetData-time", v, RinexMetDataOperatorLessThanSimple(), st, sh); RinexMetDataOperatorEqualsSimple e; for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) { c.eval(); if (e(v[i], v[j]) != st(i, j)) c.fail("RinexMetData:equals", id[i] + " | " + id[j]); }
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int t = -1; t < 6; t++) { RinexMetDataFilterTime f(T(1000 + 30 * a), T(1000 + 30 * b)); RinexMetData d; d.time = T(1000 + 30 * t); c.eval(); if (f(d) == (t >= a && t < b)) c.fail("RinexMetDataFilterTime", std::to_string(a) + "," + std::to_string(b) + " at " + std::to_string(t)); } });
  // observation records: epoch, flag, clock offset, satellites present, two common types each with data / LLI / SSI
  std::vector<O> ov; { O z{0, 0, 0, 0, {5, 5, 5, 5}, 1, 1}; for (int t = 0; t < 2; t++) for (int f = 0; f < 2; f++) for (int k = 0; k < 2; k++) for (int s = 0; s < 5; s++) { O o = z; o.time = t; o.flag = f; o.clk = k; o.sats = s; ov.push_back(o); } for (int s = 0; s < 5; s++) for (int m = 0; m < 81; m++) { O o = z; o.sats = s; int q = m; for (int i = 0; i < 4; i++, q /= 3) o.v[i] = 4 + q % 3; ov.push_back(o); } for (int s = 0; s < 5; s++) for (int l = 1; l < 4; l++) for (int x = 1; x < 4; x++) for (int d = 4; d < 7; d++) { O o = z; o.sats = s; o.lli = l; o.ssi = x; o.v[1] = d; ov.push_back(o); } }
  static const std::vector<std::vector<int>> SV = {{1, 2}, {1, 3}, {2, 3}, {2}, {2, 101}};
  auto key = [](const O& o) { std::ostringstream s; s << o.time << "/" << o.flag << "/" << o.clk << "/"; for (size_t i = 0; i < SV[o.sats].size(); i++) s << "G" << SV[o.sats][i] << ":" << o.v[2 * i] << "," << o.v[2 * i + 1] << ";"; s << o.lli << "/" << o.ssi; return s.str(); };
  h.part("obs-operators", 2, [=](Ctx& c, u64 i) { std::vector<S> id; for (auto& o : ov) id.push_back(key(o)); auto st = [&](size_t a, size_t b) { return ov[a].time == ov[b].time; }; auto sm = [&](size_t a, size_t b) { return id[a] == id[b]; }; auto sh = [&](size_t a) { return id[a]; };
    auto dat = [](const O& o, int k) { RinexDatum d; d.data = o.v[k]; d.lli = k == 1 ? o.lli : 1; d.ssi = k == 1 ? o.ssi : 1; return d; };
    if (i == 0) { std::vector<RinexObsData> v; auto A = RinexObsHeader::L1, B = RinexObsHeader::C1, X = RinexObsHeader::P2; for (auto& o : ov) { RinexObsData d; d.time = T(30 * o.time); d.epochFlag = o.flag; d.clockOffset = o.clk; for (size_t s = 0; s < SV[o.sats].size(); s++) { int n = SV[o.sats][s]; SatID id(n % 100, n > 100 ? SatelliteSystem::Glonass : SatelliteSystem::GPS); d.obs[id][A] = dat(o, 2 * s); d.obs[id][B] = dat(o, 2 * s + 1); d.obs[id][X].data = v.size(); } d.numSvs = d.obs.size(); v.push_back(d); }
      std::set<RinexObsType> both{A, B}; axioms(c, "RinexObsData", v, RinexObsDataOperatorLessThanFull(both), sm, sh); axioms(c, "RinexObsData-time", v, RinexObsDataOperatorLessThanSimple(), st, sh); RinexObsDataOperatorEqualsSimple e; for (size_t a = 0; a < v.size(); a++) for (size_t b = 0; b < v.size(); b++) if (e(v[a], v[b]) != st(a, b)) c.fail("RinexObsData:equals", id[a] + " | " + id[b]); }
    else { std::vector<Rinex3ObsData> v; Rinex3ObsHeader hd; hd.version = 3.02; RinexObsID A("GC1C", 3.02), B("GL1C", 3.02); hd.mapObsTypes["G"] = {A, B}; RinexObsID P("RC1C", 3.02), Q("RL1C", 3.02), W("RD1C", 3.02); hd.mapObsTypes["R"] = {W, P, Q}; Rinex3ObsHeader::RinexObsMap both = hd.mapObsTypes; both["R"] = {P, Q}; for (auto& o : ov) { Rinex3ObsData d; d.time = T(30 * o.time); d.epochFlag = o.flag; d.clockOffset = o.clk; for (size_t s = 0; s < SV[o.sats].size(); s++) { int n = SV[o.sats][s]; if (n > 100) { RinexDatum x; x.data = v.size(); d.obs[RinexSatID(n - 100, SatelliteSystem::Glonass)] = {x, dat(o, 2 * s), dat(o, 2 * s + 1)}; } else d.obs[RinexSatID(n, SatelliteSystem::GPS)] = {dat(o, 2 * s), dat(o, 2 * s + 1)}; } d.numSVs = d.obs.size(); v.push_back(d); }
      Rinex3ObsDataOperatorLessThanFull op(both); axioms(c, "Rinex3ObsData", v, [&](const Rinex3ObsData& a, const Rinex3ObsData& b) { return op(a, hd, b, hd, 0.125); }, sm, sh); axioms(c, "Rinex3ObsData-time", v, Rinex3ObsDataOperatorLessThanSimple(), st, sh); Rinex3ObsDataOperatorEqualsSimple e; for (size_t a = 0; a < v.size(); a++) for (size_t b = 0; b < v.size(); b++) if (e(v[a], v[b]) != st(a, b)) c.fail("Rinex3ObsData:equals", id[a] + " | " + id[b]); } }, 300);
  return h.run(argc, argv);
}
