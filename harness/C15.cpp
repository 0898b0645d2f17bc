// MC-SAN: asan
// MC-RULE: the store's tables, limits, counts and every query answer equal those of a list-scan model over the same history
// MC-ASSUME: transmissions of one data set (one Toe) are contiguous in time ; fit intervals of successive sets end in order
#include <memory>
#include <map>
#include <cmath>
#include "mc.hpp"
#include "OrbitEphStore.hpp"
#include "GPSEphemerisStore.hpp"
#include "OrbElemStore.hpp"
#include "OrbElemRinex.hpp"
#include "Rinex3EphemerisStore.hpp"
#include "GPSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
using namespace gpstk; using namespace mc; typedef std::string S;
static CommonTime T(double sow, TimeSystem ts = TimeSystem::GPS) { int wk = 2000; while (sow >= 604800) { sow -= 604800; wk++; } while (sow < 0) { sow += 604800; wk--; } CommonTime t = GPSWeekSecond(wk, sow).convertToCommonTime(); t.setTimeSystem(ts); return t; }
static double off(const CommonTime& t) { CommonTime u(t); u.setTimeSystem(TimeSystem::GPS); return u - T(0); }
struct TE : OrbitEph { bool ok = true; TE* clone() const { return new TE(*this); } bool isHealthy() const { return ok; } };
template <class E> static void elements(E& e, int id) { e.dataLoadedFlag = true; e.M0 = 0.1 * id; e.dn = 4e-9; e.ecc = 0.01; e.A = 26560000.0 + id; e.OMEGA0 = 0.3 * id; e.i0 = 0.95; e.w = 0.5; e.OMEGAdot = -8e-9; e.idot = 1e-10; e.dndot = 0; e.Adot = 0; e.Cuc = e.Cus = 1e-6; e.Crc = 200; e.Crs = 20; e.Cic = e.Cis = 1e-8; e.af0 = id * 1e-6; e.af1 = 1e-12; e.af2 = 0; }
struct Rec { int sat; double toe, beg, end; bool healthy; };
typedef std::vector<Rec> Pool;
static TE make(const Pool& P, int id) { TE e; elements(e, id + 1); e.satID = SatID(P[id].sat, SatelliteSystem::GPS); e.ctToe = T(P[id].toe); e.ctToc = e.ctToe; e.beginValid = T(P[id].beg); e.endValid = T(P[id].end); e.ok = P[id].healthy; return e; }
static int idOf(const OrbitEph* e) { return e ? (int)std::lround(e->af0 * 1e6) - 1 : -1; }
static bool near_(double a, double b) { return std::fabs(a - b) < 1e-6; }
// model: records held per satellite
struct Model { const Pool& P; bool strict; std::vector<int> held; double ini = 1e300, fin = -1e300; Model(const Pool& p, bool s) : P(p), strict(s) {}
  double key(int r) const { return strict ? P[r].beg : P[r].toe; }
  // 0 rejected, 1 stored, 2 error
  int add(int r) { for (int h : held) if (P[h].sat == P[r].sat && key(h) == key(r) && P[h].toe != P[r].toe) return 2; for (size_t k = 0; k < held.size(); k++) { int h = held[k]; if (P[h].sat == P[r].sat && P[h].toe == P[r].toe) { if (P[r].beg < P[h].beg) { held[k] = r; lim(r); return 1; } return 0; } } held.push_back(r); lim(r); return 1; }
  void lim(int r) { ini = std::min(ini, P[r].beg); fin = std::max(fin, P[r].end); }
  void edit(double a, double b) { std::vector<int> n; for (int h : held) if (key(h) >= a && key(h) <= b) n.push_back(h); held = n; ini = a; fin = b; }
  void clear() { held.clear(); ini = 1e300; fin = -1e300; }
  std::vector<int> of(int sat) const { std::vector<int> v; for (int h : held) if (P[h].sat == sat) v.push_back(h); std::sort(v.begin(), v.end(), [&](int a, int b) { return key(a) < key(b); }); return v; }
  bool valid(int h, double t) const { return P[h].beg <= t && t <= P[h].end; }
  int user(int sat, double t) const { int b = -1; for (int h : of(sat)) if (P[h].beg <= t && (b < 0 || P[h].beg > P[b].beg)) b = h; return b >= 0 && valid(b, t) ? b : -1; }
  std::set<int> closest(int sat, double t) const { double d = 1e300; std::set<int> r; for (int h : of(sat)) if (valid(h, t)) { double x = std::fabs(t - P[h].toe); if (x < d) { d = x; r.clear(); } if (x == d) r.insert(h); } return r; } };
static S num(double d) { char b[40]; snprintf(b, 40, "%.10g", d); return b; }

int main(int argc, char** argv) {
  Harness h("C15"); int TH = h.thorough;
  static Pool P = { {1, 7200, 0, 14400, 1}, {1, 7200, 30, 14400, 1}, {1, 7200, 60, 14400, 0}, {1, 14400, 7200, 21600, 1}, {1, 14384, 9000, 21600, 0}, {1, 21584, 14400, 28800, 1}, {1, 43200, 36000, 50400, 1}, {1, 43200, 36030, 50400, 1}, {1, 44000, 36000, 50400, 1}, {2, 7200, 90, 14400, 1}, {2, 14400, 7200, 21600, 1} };
  static const double ed[][2] = {{30, 36000}, {7200, 14400}, {60, 1e9}, {100000, 200000}};
  int nops = P.size() + 5; std::vector<double> qt; { std::set<double> s; for (auto& r : P) for (double b : {r.beg, r.end, r.toe}) for (double d : {-1.0, 0.0, 1.0}) s.insert(b + d); for (double x : {-7200., 3600., 10800., 18000., 30000., 40000., 60000.}) s.insert(x); qt.assign(s.begin(), s.end()); }
  h.part("orbit-histories", 2 * nops * nops, [=](Ctx& c, u64 i) { Mix m(i); bool strict = m(2) == 0; std::vector<int> pre = {int(m(nops)), int(m(nops))}; int np = P.size();
    bfs(c, nops, TH ? 5 : 4, pre, [&](const std::vector<int>& hist, S& canon) { OrbitEphStore st; Model M(P, strict); c.eval(); if (!strict && !st.SearchNear()) c.fail("SearchNear", "refused on an empty store"); bool good = true; S hs; auto bad = [&](const S& k, const S& x) { good = false; if (hs.empty()) for (int o : hist) hs += num(o) + " "; c.fail(k, S(strict ? "user" : "near") + " ops " + hs + ": " + x); };
      for (int o : hist) if (!strict && o == 8) return false; for (int o : hist) { if (o < np) { TE e = make(P, o); int w = M.add(o), g; OrbitEph* p = 0; try { p = st.addEphemeris(&e); g = p ? 1 : 0; } catch (InvalidParameter&) { g = 2; } if (g != w) { bad("addEphemeris", "record " + num(o) + " result " + num(g) + " want " + num(w)); return false; } if (g == 1 && (idOf(p) != o || p == &e)) bad("addEphemeris:pointer", num(o)); }
        else if (o < np + 4) { st.edit(T(ed[o - np][0]), ed[o - np][1] > 1e8 ? CommonTime::END_OF_TIME : T(ed[o - np][1])); M.edit(ed[o - np][0], ed[o - np][1] > 1e8 ? 1e300 : ed[o - np][1]); } else { st.clear(); M.clear(); } }
      for (int s = 1; s <= 3; s++) { SatID sat(s, SatelliteSystem::GPS); auto v = M.of(s); if (st.size(sat) != v.size()) bad("size:sat", num(st.size(sat)) + " want " + num(v.size())); std::vector<int> g; if (st.isPresent(sat)) for (auto& kv : st.getTimeOrbitEphMap(sat)) { g.push_back(idOf(kv.second)); if (!near_(off(kv.first), M.key(g.back()))) bad("table:key", num(g.back())); if (!st.isPresent(sat, kv.first)) bad("isPresent:time", ""); } if (g != v) { S a, b; for (int x : g) a += num(x) + ","; for (int x : v) b += num(x) + ","; bad("table", "satellite " + num(s) + " holds " + a + " want " + b); return false; }
        if (!v.empty()) { if (!near_(off(st.getInitialTime(sat)), M.key(v[0]))) bad("getInitialTime:sat", num(off(st.getInitialTime(sat)))); double f = off(st.getFinalTime(sat)); if (!near_(f, M.key(v.back())) && !near_(f, P[v.back()].end)) bad("getFinalTime:sat", num(f)); if (!st.isPresent(sat)) bad("isPresent", ""); } else { if (st.isPresent(sat) != (st.getIndexSet().count(sat) > 0)) bad("isPresent:empty", ""); } canon += "|"; for (int x : g) canon += char('a' + x); canon += st.isPresent(sat) ? 'P' : '-'; }
      if (st.size() != M.held.size()) bad("size", num(st.size())); if (st.size(SatID(-1, SatelliteSystem::GPS)) != M.held.size() || st.size(SatID(-1, SatelliteSystem::Mixed)) != M.held.size() || st.size(SatID(-1, SatelliteSystem::Glonass)) != 0) bad("size:system", ""); CommonTime a = st.getInitialTime(), b = st.getFinalTime(); bool e0 = M.ini >= 1e300, e1 = M.fin <= -1e300; if (e0 ? a != CommonTime::END_OF_TIME : !near_(off(a), M.ini)) bad("getInitialTime", e0 ? S() : num(off(a)) + " want " + num(M.ini)); if (M.fin >= 1e300 ? b != CommonTime::END_OF_TIME : e1 ? b != CommonTime::BEGINNING_OF_TIME : !near_(off(b), M.fin)) bad("getFinalTime", ""); canon += num(M.ini) + ":" + num(M.fin);
      if (!good) return false;
      for (int s = 1; s <= 3; s++) { SatID sat(s, SatelliteSystem::GPS); if (hist.size() % 2 && s == 2) continue; for (double t : qt) { c.eval(); CommonTime ct = T(t); int u = M.user(s, t); auto nr = M.closest(s, t); int g = idOf(st.findUserOrbitEph(sat, ct)), n = idOf(st.findNearOrbitEph(sat, ct)), f = idOf(st.findOrbitEph(sat, ct));
          if (strict) { if (g != u) bad("findUserOrbitEph", "sat " + num(s) + " t " + num(t) + " got " + num(g) + " want " + num(u)); if (f != g) bad("findOrbitEph", num(t)); } else { bool ok = nr.empty() ? n < 0 : nr.count(n) > 0; if (!ok && n >= 0 && P[n].sat == s && P[n].toe == t) ok = true; if (!ok) bad("findNearOrbitEph", "sat " + num(s) + " t " + num(t) + " got " + num(n) + (nr.empty() ? S(" want none") : " want " + num(*nr.begin()))); if (f != n) bad("findOrbitEph", num(t)); }
          if (!good) return false; if (int(t) % 3 == 0 || f < 0) { Xvt x; bool thr = false; if (f >= 0 || int(t) % 7200 == 0) { try { x = st.getXvt(sat, ct); } catch (InvalidRequest&) { thr = true; } if (thr != (f < 0)) bad("getXvt:refusal", num(t)); } Xvt y = st.computeXvt(sat, ct); auto hl = st.getSVHealth(sat, ct); auto wh = f < 0 ? Xvt::HealthStatus::Unavailable : P[f].healthy ? Xvt::HealthStatus::Healthy : Xvt::HealthStatus::Unhealthy; if (y.health != wh || hl != wh) bad("health", num(t)); if (f >= 0) { TE e = make(P, f); Xvt w = e.svXvt(ct); if (x.x[0] != w.x[0] || y.x[2] != w.x[2] || x.clkbias != w.clkbias || y.v[1] != w.v[1] || x.health != wh) bad("getXvt:record", num(t)); } } } }
      std::list<OrbitEph*> L; int n = st.addToList(L); std::multiset<int> A, B(M.held.begin(), M.held.end()); for (auto* p : L) { A.insert(idOf(p)); delete p; } if (A != B || n != (int)B.size()) bad("addToList", ""); L.clear(); n = st.addToList(L, SatID(2, SatelliteSystem::GPS)); if (n != (int)M.of(2).size() || (int)L.size() != n) bad("addToList:sat", ""); for (auto* p : L) delete p; if (!M.held.empty()) { if (st.SearchNear() || st.SearchUser()) bad("Search:loaded", "changed the search method of a loaded store"); st.setOnlyHealthyFlag(true); for (double t : {10000., 40000.}) { int f = idOf(st.findOrbitEph(SatID(1, SatelliteSystem::GPS), T(t))); S x = thrown([&] { st.getXvt(SatID(1, SatelliteSystem::GPS), T(t)); }); if (x.empty() != (f >= 0 && P[f].healthy)) bad("getXvt:onlyHealthy", num(t)); } }
      return good; }); }, 120);
  // upload handling: every sequence of normal sets, uploads, second sets and gaps
  static const double base[2] = {288000, 604800 - 14400}; int NS = TH ? 7 : 6; u64 nseq = 1; for (int k = 0; k < NS; k++) nseq *= 5;
  h.part("rationalize", 2 * ((nseq + 124) / 125), [=](Ctx& c, u64 i) { double b0 = base[i & 1]; for (u64 q = (i / 2) * 125; q < nseq && q < (i / 2) * 125 + 125; q++) { struct Set { double toe, beg, end; bool off; int sat; }; std::vector<Set> W; std::vector<GPSEphemeris> E; S desc; Mix m(q); for (int k = 0; k < NS; k++) { int kind = m(5); desc += "-NUSV"[kind]; if (!kind) continue; double slot = b0 + 7200 * (k + 1), o = kind == 1 ? 0 : kind == 4 ? 32 : 16, how = kind == 1 || kind == 3 ? slot - 7200 : slot - 7200 + (kind == 2 ? 1836 : 2406); GPSEphemeris e; elements(e, k + 1); e.satID = SatID(3 + (q % 2 && k == 0), SatelliteSystem::GPS); e.ctToe = e.ctToc = T(slot - o); e.HOWtime = long(how) % 604800; e.transmitTime = T(how); e.fitDuration = 4; e.fitint = 0; e.health = 0; e.IODC = k; e.adjustValidity(); double beg = kind == 1 ? slot - 7200 : std::floor(how / 30) * 30; W.push_back({slot - o, beg, slot + 7200, o > 0, e.satID.id}); E.push_back(e); if (!near_(off(e.beginValid), beg) || !near_(off(e.endValid), slot + 7200)) c.fail("GPSEphemeris:adjustValidity", "kind " + num(kind) + " begin " + num(off(e.beginValid)) + " want " + num(beg) + " end " + num(off(e.endValid)) + " want " + num(slot + 7200)); }
      for (int ord = 0; ord < 3; ord++) { bool nearMode = ord == 2; GPSEphemerisStore st; if (nearMode) st.SearchNear(); for (size_t k = 0; k < E.size(); k++) st.addEphemeris(E[ord == 1 ? E.size() - 1 - k : k]); if (ord == 1 && q % 3 == 0) { GPSEphemeris x = E.empty() ? GPSEphemeris() : E[0]; elements(x, 90); x.satID = SatID(9, SatelliteSystem::GPS); x.beginValid = T(b0 - 90000); x.endValid = T(b0 - 80000); x.ctToe = x.ctToc = T(b0 - 86400); st.addEphemeris(x); st.edit(T(b0 - 50000)); }
        c.eval(); for (int rep = 0; rep < 2; rep++) { st.rationalize(); std::map<int, std::vector<Set>> by; for (auto& s : W) by[s.sat].push_back(s); double lo = 1e300, hi = -1e300; for (auto& kv : by) { auto& v = kv.second; std::sort(v.begin(), v.end(), [](const Set& a, const Set& b) { return a.beg < b.beg; }); for (size_t j = 0; j < v.size(); j++) { long oj = long(v[j].toe) % 3600, op = j ? long(v[j - 1].toe) % 3600 : 0; if (oj && oj != op) for (size_t k = 0; k < j; k++) v[k].end = std::min(v[k].end, v[j].beg); } 
            auto& tab = st.getTimeOrbitEphMap(SatID(kv.first, SatelliteSystem::GPS)); S D = desc + " order " + num(ord); if (tab.size() != v.size()) { c.fail("rationalize:count", D); continue; } std::map<double, Set> byToe; for (auto& s : v) byToe[s.toe] = s; for (auto& te : tab) { double toe = off(te.second->ctToe); if (!byToe.count(toe)) { c.fail("rationalize:record", D); continue; } Set& s = byToe[toe]; if (!near_(off(te.second->beginValid), s.beg)) c.fail("rationalize:begin", D + " toe " + num(toe) + " begin " + num(off(te.second->beginValid)) + " want " + num(s.beg)); if (!near_(off(te.second->endValid), s.end)) c.fail(nearMode ? "rationalize:end-near" : "rationalize:end", D + " toe " + num(toe) + " end " + num(off(te.second->endValid)) + " want " + num(s.end)); if (!near_(off(te.first), nearMode ? toe : s.beg)) c.fail("rationalize:key", D); lo = std::min(lo, s.beg); hi = std::max(hi, s.end); c.outcome(u64(s.end - s.beg)); }
            if (!nearMode) for (double t = b0 - 300; t < b0 + 7200 * (NS + 2); t += 599) { int want = -1; double wb = -1e300; for (auto& s : v) if (s.beg <= t && s.beg > wb) { wb = s.beg; want = t <= s.end ? (int)s.toe : -1; } const OrbitEph* g = st.findUserOrbitEph(SatID(kv.first, SatelliteSystem::GPS), T(t)); int gt = g ? (int)off(g->ctToe) : -1; if (gt != want) { c.fail("rationalize:user", D + " t " + num(t) + " got toe " + num(gt) + " want " + num(want)); break; } } }
          if (!W.empty()) { if (!near_(off(st.getInitialTime()), lo)) c.fail("rationalize:initial", desc); if (!near_(off(st.getFinalTime()), hi)) c.fail("rationalize:final", desc); } } } } }, 120);
  // the older element store: same rules, errors instead of null answers
  static Pool Q = { {1, 7200, 0, 14400, 1}, {1, 7200, 30, 14400, 1}, {1, 7200, 60, 14400, 1}, {1, 14400, 7200, 21600, 1}, {1, 14384, 9000, 21600, 0}, {1, 43200, 36000, 50400, 1}, {1, 43200, 36030, 50400, 1}, {1, 44000, 36000, 50400, 1}, {2, 7200, 90, 14400, 1}, {2, 14400, 7200, 21600, 0} };
  int nq = Q.size() + 4;
  h.part("element-histories", nq * nq, [=](Ctx& c, u64 i) { Mix m(i); std::vector<int> pre = {int(m(nq)), int(m(nq))}; int np = Q.size(); bfs(c, nq, TH ? 4 : 3, pre, [&](const std::vector<int>& hist, S& canon) { OrbElemStore st; Model M(Q, true); c.eval(); bool good = true; S hs; auto bad = [&](const S& k, const S& x) { good = false; if (hs.empty()) for (int o : hist) hs += num(o) + " "; c.fail("OrbElemStore:" + k, "ops " + hs + ": " + x); };
      auto mk = [&](int r) { OrbElemRinex e; elements(e, r + 1); e.satID = SatID(Q[r].sat, SatelliteSystem::GPS); e.ctToe = e.ctToc = T(Q[r].toe); e.beginValid = T(Q[r].beg); e.endValid = T(Q[r].end); e.setHealthy(bool(Q[r].healthy)); e.fitDuration = 4; for (int k = 0; k < np; k++) if (Q[k].sat == Q[r].sat && Q[k].toe == Q[r].toe) { elements(e, k + 1); e.af0 = (r + 1) * 1e-6; break; } return e; }; auto id = [](const OrbElemBase* b) { return (int)std::lround(dynamic_cast<const OrbElem*>(b)->af0 * 1e6) - 1; };
      for (int o : hist) { if (o < np) { OrbElemRinex e = mk(o); int w = M.add(o), g; try { g = st.addOrbElem(&e); } catch (InvalidParameter&) { g = 2; } if (g != w) { bad("addOrbElem", "record " + num(o) + " result " + num(g) + " want " + num(w)); return false; } } else if (o < np + 3) { st.edit(T(ed[o - np][0]), ed[o - np][1] > 1e8 ? CommonTime::END_OF_TIME : T(ed[o - np][1])); M.edit(ed[o - np][0], ed[o - np][1] > 1e8 ? 1e300 : ed[o - np][1]); } else { st.clear(); M.clear(); } }
      if (st.size() != M.held.size()) bad("size", num(st.size())); CommonTime a = st.getInitialTime(), b = st.getFinalTime(); if (M.ini >= 1e300 ? a != CommonTime::END_OF_TIME : !near_(off(a), M.ini)) bad("getInitialTime", ""); if (M.fin >= 1e300 ? b != CommonTime::END_OF_TIME : M.fin <= -1e300 ? b != CommonTime::BEGINNING_OF_TIME : !near_(off(b), M.fin)) bad("getFinalTime", "");
      for (int s = 1; s <= 2; s++) { SatID sat(s, SatelliteSystem::GPS); auto v = M.of(s); std::vector<int> g; bool pres = st.isPresent(sat); if (pres) for (auto& kv : st.getOrbElemMap(sat)) g.push_back(id(kv.second)); if (g != v) { bad("table", num(s)); return false; } for (int x : g) canon += char('a' + x); canon += pres ? "P" : "-"; std::set<SatID> ix = st.getIndexSet(); if ((ix.count(sat) > 0) != pres) bad("getIndexSet", "");
        for (double t : qt) { c.eval(); int w = M.user(s, t), f = -1; try { f = id(st.findOrbElem(sat, T(t))); } catch (InvalidRequest&) {} if (f != w) { bad("findOrbElem", "t " + num(t) + " got " + num(f) + " want " + num(w)); return false; } if (int(t) % 2 == 0) continue; int n = -1; try { n = id(st.findNearOrbElem(sat, T(t))); } catch (InvalidRequest&) {} std::set<int> ok; if (w >= 0) ok.insert(w); else if (v.empty()) ok.insert(-1); else { double d = 1e300; for (int x : v) { double gap = t < Q[x].beg ? Q[x].beg - t : t - Q[x].end; if (gap < d - 1e-9) { d = gap; ok.clear(); } if (gap <= d + 1e-9) ok.insert(x); } } if (!ok.count(n)) bad("findNearOrbElem", "t " + num(t) + " got " + num(n) + " want " + num(*ok.begin()));
          auto hl = st.getSVHealth(sat, T(t)); if (hl != (w < 0 ? Xvt::HealthStatus::Unavailable : Q[w].healthy ? Xvt::HealthStatus::Healthy : Xvt::HealthStatus::Unhealthy)) bad("getSVHealth", num(t)); if (w < 0 || int(t) % 5 == 0) { S x = thrown([&] { st.getXvt(sat, T(t)); }); if (x.empty() != (w >= 0 && Q[w].healthy)) bad("getXvt", num(t) + x); } }
        std::set<double> toes; for (int x : v) toes.insert(Q[x].toe); if (pres) for (double t : {7200., 14400., 14384., 43200., 44000., 1.}) { st.setTimeSystem(TimeSystem::GPS); double g2 = -1; try { g2 = off(st.findToe(sat, T(t))->ctToe); } catch (InvalidRequest&) {} if ((g2 >= 0) != (toes.count(t) > 0) || (g2 >= 0 && !near_(g2, t))) bad("findToe", num(t)); } }
      std::list<OrbElemBase*> L; int n = st.addToList(L); if (n != (int)M.held.size() || (int)L.size() != n) bad("addToList", ""); for (auto* p : L) delete p; canon += num(M.ini) + ":" + num(M.fin); return good; }); }, 120);
  // the multi-system store
  h.part("systems", 256, [=](Ctx& c, u64 i) { struct R { SatelliteSystem sys; int id; double toe; }; static const SatelliteSystem SY[] = {SatelliteSystem::GPS, SatelliteSystem::Galileo, SatelliteSystem::BeiDou, SatelliteSystem::Glonass}; static const TimeSystem TS[] = {TimeSystem::GPS, TimeSystem::GAL, TimeSystem::BDT, TimeSystem::UTC}; std::vector<R> rs; for (int k = 0; k < 8; k++) if (i >> k & 1) rs.push_back({SY[k % 4], 1 + k / 4, 288000.0 + 7200 * (k / 4)});
    for (int rev = 0; rev < 2; rev++) { Rinex3EphemerisStore st; auto o = rs; if (rev) std::reverse(o.begin(), o.end()); c.eval(); for (auto& r : o) { int k = std::find(SY, SY + 4, r.sys) - SY; Rinex3NavData d; d.sat = RinexSatID(r.id, r.sys); d.satSys = S(1, d.sat.systemChar()); d.PRNID = r.id; d.time = T(r.toe, TS[k]); d.Toe = r.toe; d.Toc = r.toe; d.weeknum = 2000; if (k == 2) d.weeknum = 2000 - 1356; d.xmitTime = long(r.toe) - 7200; d.fitint = 4.; d.IODC = d.IODE = 1; d.accuracy = 2.; d.health = 0; d.ecc = 0.01; d.Ahalf = 5153.6; d.M0 = 0.1 * r.id; d.dn = 0.; d.OMEGA0 = 1.; d.i0 = 0.9; d.w = 0.3; d.OMEGAdot = d.idot = 0.; d.Cuc = d.Cus = d.Crc = d.Crs = d.Cic = d.Cis = 0.; d.af0 = d.af1 = d.af2 = 0.; d.px = 12000.; d.py = 20000.; d.pz = 10000 + r.id; d.vx = d.vy = d.vz = 1.; d.ax = d.ay = d.az = 0.; d.TauN = d.GammaN = 0.; d.MFtime = 0; d.freqNum = 1; d.ageOfInfo = 0.; S x = thrown([&] { st.addEphemeris(d); }); if (!x.empty()) c.fail("Rinex3EphemerisStore:add", num(k) + " " + x); }
      for (int k = 0; k < 4; k++) { int n = 0, ns[3] = {0, 0, 0}; for (auto& r : rs) if (r.sys == SY[k]) { n++; ns[r.id]++; } S nm = num(k) + " subset " + num(i); if (st.size(SY[k]) != n) c.fail("Rinex3EphemerisStore:size", nm); std::list<Rinex3NavData> L; int g = st.addToList(L, SatID(-1, SY[k])); if (g != n || (int)L.size() != n) c.fail("Rinex3EphemerisStore:addToList-system", nm + " got " + num(g)); for (auto& d : L) if (d.sat.system != SY[k]) c.fail("Rinex3EphemerisStore:addToList-other", nm);
        for (int id = 1; id <= 2; id++) { SatID sat(id, SY[k]); if (st.isPresent(sat) != (ns[id] > 0)) c.fail("Rinex3EphemerisStore:isPresent", nm); if ((st.getIndexSet().count(sat) > 0) != (ns[id] > 0)) c.fail("Rinex3EphemerisStore:getIndexSet", nm); if (k != 3 && st.size(sat) != ns[id]) c.fail("Rinex3EphemerisStore:size-sat", nm); L.clear(); g = st.addToList(L, sat); if (g != ns[id] || (int)L.size() != g) c.fail("Rinex3EphemerisStore:addToList-sat", nm + " got " + num(g) + " want " + num(ns[id])); for (auto& d : L) if (d.sat.id != id || d.sat.system != SY[k]) c.fail("Rinex3EphemerisStore:addToList-sat-other", nm);
          double lead = k == 3 ? 0 : 0; (void)lead; if (ns[id]) { CommonTime a = st.getInitialTime(sat), b = st.getFinalTime(sat); double toe = 288000.0 + 7200 * (id - 1); if (a == CommonTime::END_OF_TIME || b == CommonTime::BEGINNING_OF_TIME) { c.fail("Rinex3EphemerisStore:sat-limits", nm + " satellite has data but no limits"); continue; } if (std::fabs(off(a) - toe) > 7300 || std::fabs(off(b) - toe) > 14500) c.fail("Rinex3EphemerisStore:sat-limits", nm + " " + num(off(a)) + " " + num(off(b))); S x = thrown([&] { st.getXvt(sat, T(toe, TS[k])); }); if (!x.empty()) c.fail("Rinex3EphemerisStore:getXvt", nm + x); }
          S x = thrown([&] { st.getXvt(sat, T(288000 - 86400, TS[k])); }); if (x.empty()) c.fail("Rinex3EphemerisStore:getXvt-outside", nm); } }
      std::list<Rinex3NavData> L; if (st.addToList(L) != (int)rs.size()) c.fail("Rinex3EphemerisStore:addToList", num(i)); if (st.size() != (int)rs.size()) c.fail("Rinex3EphemerisStore:size", num(i)); st.edit(T(400000, TimeSystem::Any), T(500000, TimeSystem::Any)); L.clear(); if (st.addToList(L) != 0) c.fail("Rinex3EphemerisStore:edit", num(i)); } });
  return h.run(argc, argv);
}
