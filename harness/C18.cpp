// C18 tabulated orbit and clock stores: every table over a small epoch grid x orders x gap/interval limits x every query epoch, all short histories of a store against a map model, and all small SP3 files
// MC-SAN: assert
// MC-RULE: a table maps epochs to records; a lookup uses n records on each side of the epoch, refuses when they are missing, too far apart or across a gap, returns the stored record at its epoch and otherwise the polynomial (or straight line) through the records
// MC-ASSUME: at a tabulated epoch without stored rates the window may be either of those that contain the epoch ; tables hold at most three distinct steps when the nominal step is asked for
#include <cmath>
#include <cstdarg>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>
#include "mc.hpp"
#include "SP3EphemerisStore.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk; using namespace mc; typedef std::string S; typedef std::vector<double> VD;
static CommonTime at(double s) { static const CommonTime z = CivilTime(2015, 7, 18, 23, 30, 0, TimeSystem::GPS).convertToCommonTime(); return z + s; }
static const double STEP = 900; static const SatID G1(1, SatelliteSystem::GPS), G2(2, SatelliteSystem::GPS), R1(1, SatelliteSystem::Glonass), GX(31, SatelliteSystem::GPS);
static bool isIR(const S& s) { return s == "InvalidRequest"; }
static bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
static double rss(double a, double b) { return std::sqrt(a * a + b * b); }
// the model of a lookup: which records are used.  kind 0 refuse, 1 window [lo,hi], 2 exact record, 3 exact record and any window around it, or a refusal
struct Win { int kind, lo, hi, i; };
static Win window(const VD& T, double t, int nh, double gap, double mx, bool exactRet) {
  int n = T.size(), i = 0; while (i < n && T[i] < t) i++; if (n < 2 || i == n) return {0, 0, 0, i}; if (T[i] == t) return {exactRet ? 2 : 3, i - nh, i + nh - 1, i};
  int lo = i - nh, hi = i + nh - 1; if (lo < 0 || hi >= n) return {0, 0, 0, i}; if (gap >= 0 && T[i] - T[i - 1] > gap) return {0, 0, 0, i}; if (mx >= 0 && T[hi] - T[lo] > mx) return {0, 0, 0, i}; return {1, lo, hi, i};
}
static S tab(const VD& T) { S s; char b[30]; for (double t : T) { snprintf(b, 30, " %g", t / STEP); s += b; } return s; }
static VD table(u64 mask, int n) { VD T; for (int k = 0; k < n; k++) if (mask >> k & 1) T.push_back(k * STEP); return T; }
struct Cfg { double gap, mx; };
static std::vector<Cfg> cfgs(int nh) { return {{-1, -1}, {STEP, -1}, {2 * STEP, -1}, {STEP * 1.5, -1}, {-1, (2 * nh - 1) * STEP}, {-1, 2 * nh * STEP}, {STEP * 2, (2 * nh) * STEP}, {-1, (2 * nh - 1.5) * STEP}}; }
template <class ST> static void conf(ST& s, const Cfg& c) { if (c.gap >= 0) s.setGapInterval(c.gap); if (c.mx >= 0) s.setMaxInterval(c.mx); }
static S cname(const VD& T, int nh, const Cfg& cf, double q) { char b[150]; snprintf(b, 150, " (half order %d, gap limit %g, interval limit %g) at %g", nh, cf.gap / STEP, cf.mx / STEP, q / STEP); return "table" + tab(T) + b; }

// polynomials in u = t/STEP
struct Poly { VD a; double v(double u) const { double s = 0; for (size_t k = a.size(); k--;) s = s * u + a[k]; return s; } double d(double u) const { double s = 0; for (size_t k = a.size(); k-- > 1;) s = s * u + k * a[k]; return s; } };
static Poly poly(int which, int deg) { Poly p; for (int k = 0; k <= deg; k++) p.a.push_back(((which * 7 + k * 3 + (which + 1) * k * k) % 11 - 5) * std::pow(0.5, k) * (k == 0 ? 1000 : 10)); if (p.a.back() == 0) p.a.back() = std::pow(0.5, deg) * 10; return p; }
static double scale(const Poly& p, const VD& T) { double m = 1; for (double t : T) m = std::max(m, std::fabs(p.v(t / STEP))); return m; }
static double sg(int w, int k) { return 0.01 * (w + 1) + 0.003 * k; }

int main(int argc, char** argv) {
  Harness h("C18"); static bool th = h.thorough; static const int NG = th ? 10 : 8;
  // (A) the records used
  h.part("table interval: every table x half order x limits x query epoch", 1ull << NG, [](Ctx& c, u64 mask) {
    VD T = table(mask, NG); c.at(S("table") + tab(T));
    for (int nh = 1; nh <= 4; nh++) for (auto& cf : cfgs(nh)) {
      PositionSatStore ps; conf(ps, cf); PositionRecord r; r.Pos = r.Vel = r.Acc = r.sigPos = r.sigVel = r.sigAcc = Triple(0, 0, 0); for (double t : T) { r.Pos[0] = t; ps.addPositionRecord(G1, at(t), r); } c.states(1);
      ps.addPositionRecord(G2, at(0), r);
      for (double q = -STEP / 2; q <= NG * STEP; q += STEP / 2) for (int ex = 0; ex < 2; ex++) { if (ex && std::fmod(q, STEP) != 0) continue;
        Win w = window(T, q, nh, cf.gap, cf.mx, ex); PositionSatStore::DataTable::const_iterator a, b; bool ret = false; S e = thrown([&] { ret = ps.getTableInterval(G1, at(q), nh, a, b, ex); }); c.eval(1); c.trans(1); c.outcome(hmix(hmix(w.kind, w.lo * 16 + w.hi), nh));
        auto D = [&] { return cname(T, nh, cf, q) + (ex ? " exact return" : ""); };
        if (e != "") { MC_CK(c, isIR(e), "exception", D() << " throws " << e); MC_CK(c, w.kind == 0 || w.kind == 3, "refused", D() << " is refused"); if (w.kind == 3 && w.lo >= 0 && w.hi < (int)T.size() && cf.gap < 0 && cf.mx < 0) c.fail("refused-exact", D() + " is refused"); continue; }
        MC_CK(c, w.kind != 0, "accepted", D() << " is not refused"); if (w.kind == 0) continue;
        if (w.kind == 2) { MC_CK(c, ret && a->first == at(q), "exact", D() << " does not return the matching record"); continue; }
        MC_CK(c, ret == (w.kind == 3), "exact-flag", D() << " returns " << ret); double lo = a->second.Pos[0], hi = b->second.Pos[0]; int il = -1, ih = -1; for (size_t k = 0; k < T.size(); k++) { if (T[k] == lo) il = k; if (T[k] == hi) ih = k; }
        MC_CK(c, ih - il == 2 * nh - 1, "window-size", D() << " gives records " << lo / STEP << ".." << hi / STEP);
        if (w.kind == 1) MC_CK(c, il == w.lo && ih == w.hi, "window", D() << " gives records " << lo / STEP << ".." << hi / STEP << " want " << T[w.lo] / STEP << ".." << T[w.hi] / STEP);
        else { MC_CK(c, w.i - il >= nh - 1 && w.i - il <= nh + 1 && w.i <= ih, "window-exact", D() << " gives records " << lo / STEP << ".." << hi / STEP); if (cf.mx >= 0) MC_CK(c, hi - lo <= cf.mx, "window-limit", D() << " gives records " << lo / STEP << ".." << hi / STEP); }
      }
      PositionSatStore::DataTable::const_iterator a, b; MC_CK(c, isIR(thrown([&] { ps.getTableInterval(GX, at(STEP), nh, a, b, true); })), "unknown-satellite", "an unknown satellite is not refused"); MC_CK(c, isIR(thrown([&] { ps.getTableInterval(G2, at(0), nh, a, b, true); })), "single-record", "a single record is not refused"); } });
  // (B) positions
  static const int NB = th ? 10 : 8;
  h.part("positions: every table x order x stored rates x limits x query epoch", 1ull << NB, [](Ctx& c, u64 mask) {
    VD T = table(mask, NB); if (T.size() < 2) return; c.at(S("positions") + tab(T));
    for (int order : {3, 4, 6, 7}) { int nh = (order + 1) / 2; if ((int)T.size() < 2 * nh - 1) continue; for (int mode = 0; mode < 3; mode++) { auto cs = cfgs(nh); for (int ci : {0, 1, 2, 5}) { auto& cf = cs[ci]; if (ci && !th && (mask + mode + ci) % 3) continue;
      Poly P[3], V[3], A[3]; for (int k = 0; k < 3; k++) { P[k] = poly(k, 2 * nh - 1); V[k] = poly(k + 3, 2 * nh - 1); A[k] = poly(k + 6, 2 * nh - 1); }
      PositionSatStore ps; ps.setInterpolationOrder(order); conf(ps, cf); MC_CK(c, (int)ps.getInterpolationOrder() == 2 * nh, "order", "order " << order << " becomes " << ps.getInterpolationOrder());
      std::map<double, PositionRecord> rec; for (size_t i = 0; i < T.size(); i++) { size_t j = (i * 5 + 3) % T.size() ? T.size() - 1 - i : T.size() - 1 - i; double u = T[j] / STEP; PositionRecord r; for (int k = 0; k < 3; k++) { r.Pos[k] = P[k].v(u); r.Vel[k] = mode > 0 ? V[k].v(u) : 0; r.Acc[k] = mode > 1 ? A[k].v(u) : 0; r.sigPos[k] = sg(k, j); r.sigVel[k] = mode > 0 ? sg(k + 3, j) : 0; r.sigAcc[k] = mode > 1 ? sg(k + 6, j) : 0; } rec[T[j]] = r; ps.addPositionRecord(G1, at(T[j]), r); } c.states(1);
      for (int qi = -1; qi <= 2 * NB; qi++) { double q = (qi & 1 ? qi / 2 * STEP + ((qi & 2) ? .5 : .75) * STEP : qi / 2 * STEP); if (qi < 0) q = -STEP / 4; Win w = window(T, q, nh, cf.gap, cf.mx, mode > 0); c.eval(1); c.outcome(hmix(hmix(w.kind, w.lo * 16 + w.hi), nh * 4 + mode)); auto D = [&] { return cname(T, nh, cf, q) + (mode == 0 ? " positions" : mode == 1 ? " positions+velocities" : " positions+velocities+accelerations"); };
        PositionRecord r; S e = thrown([&] { r = ps.getValue(G1, at(q)); }); c.trans(4); Triple gp, gv, ga; S ep = thrown([&] { gp = ps.getPosition(G1, at(q)); }), ev = thrown([&] { gv = ps.getVelocity(G1, at(q)); }), ea = thrown([&] { ga = ps.getAcceleration(G1, at(q)); });
        Win wa = window(T, q, nh, cf.gap, cf.mx, mode > 1); bool exact = w.i < (int)T.size() && T[w.i] == q;
        for (const S& x : {e, ep, ev, ea}) MC_CK(c, x == "" || isIR(x), "exception", D() << " throws " << x);
        if (w.kind == 0) { MC_CK(c, e != "" && ep != "" && ev != "" && ea != "", "accepted", D() << " is not refused: getValue " << e << " getPosition " << ep << " getVelocity " << ev << " getAcceleration " << ea); continue; }
        if (w.kind != 3) MC_CK(c, e == "" && ev == "", "refused", D() << " is refused (" << e << "," << ev << ")"); MC_CK(c, ep == "", "refused", D() << " getPosition is refused"); if (mode == 0) MC_CK(c, ea != "", "acceleration-without-data", D() << " getAcceleration is not refused"); else if (wa.kind == 1 || wa.kind == 2) MC_CK(c, ea == "", "refused", D() << " getAcceleration is refused");
        double u = q / STEP; for (int k = 0; k < 3; k++) { double tp = 1e-8 * scale(P[k], T), tv = 1e-8 * scale(V[k], T), ta = 1e-8 * scale(A[k], T);
          auto one = [&](bool have, double got, bool stored, double want, double tol, const char* key) { if (!have) return; MC_CK(c, stored ? got == want : near(got, want, tol), key, D() << " " << key << "[" << k << "] is " << got << ", want " << want); };
          const PositionRecord* st = exact ? &rec[q] : 0; double wp = st ? st->Pos[k] : P[k].v(u), wv = mode == 0 ? P[k].d(u) * 1e4 / STEP : st ? st->Vel[k] : V[k].v(u), wacc = mode == 0 ? 0 : mode == 1 ? V[k].d(u) * 0.1 / STEP : st ? st->Acc[k] : A[k].v(u);
          one(e == "", r.Pos[k], exact && mode > 0, wp, tp, "value-position"); one(ep == "", gp[k], exact, wp, tp, "get-position"); one(e == "", r.Vel[k], exact && mode > 0, wv, mode ? tv : tp * 1e4, "value-velocity"); one(ev == "", gv[k], exact && mode > 0, wv, mode ? tv : tp * 1e4, "get-velocity");
          if (mode == 2 || (mode == 1 && !exact)) one(e == "", r.Acc[k], exact, wacc, mode == 2 ? ta : tv, "value-acceleration"); if (mode > 0) one(ea == "", ga[k], exact && mode == 2, wacc, mode == 2 ? ta : tv, "get-acceleration");
          if (e == "") { const PositionRecord *x = st, *y = 0; if (!st) { x = &rec[T[w.i - 1]]; y = &rec[T[w.i]]; } MC_CK(c, near(r.sigPos[k], y ? rss(x->sigPos[k], y->sigPos[k]) : x->sigPos[k], 1e-12), "sigma-position", D() << " sigPos " << r.sigPos[k]); if (mode > 0) MC_CK(c, near(r.sigVel[k], y ? rss(x->sigVel[k], y->sigVel[k]) : x->sigVel[k], 1e-12), "sigma-velocity", D() << " sigVel " << r.sigVel[k]); if (mode > 1) MC_CK(c, near(r.sigAcc[k], y ? rss(x->sigAcc[k], y->sigAcc[k]) : x->sigAcc[k], 1e-12), "sigma-acceleration", D() << " sigAcc " << r.sigAcc[k]); }
        } } } } } });
  // (C) clocks
  h.part("clocks: every table x interpolation x stored rates x limits x query epoch", 1ull << NB, [](Ctx& c, u64 mask) {
    VD T = table(mask, NB); if (T.size() < 2) return; c.at(S("clocks") + tab(T));
    for (int order : {0, 3, 4, 6}) { int nh = order ? (order + 1) / 2 : 1; if ((int)T.size() < 2 * nh - 1) continue; for (int mode = 0; mode < 3; mode++) { auto cs = cfgs(nh); for (int ci : {0, 1, 2, 5}) { auto& cf = cs[ci]; if (ci && !th && (mask + mode + ci) % 3) continue;
      // linear interpolation: arbitrary values; Lagrange: polynomials
      Poly B = poly(1, 2 * nh - 1 + (order ? 0 : 3)), Dr = poly(4, 2 * nh - 1 + (order ? 0 : 3)), Ac = poly(7, 2 * nh - 1 + (order ? 0 : 3));
      ClockSatStore cs2; if (order) { if (mode == 1) cs2.setLinearInterp(); cs2.setLagrangeInterp(); cs2.setInterpolationOrder(order); } else { cs2.setLinearInterp(); if (mode == 1) cs2.setInterpolationOrder(8); } conf(cs2, cf); MC_CK(c, (int)cs2.getInterpolationOrder() == 2 * nh, "order", "clock order " << order << " becomes " << cs2.getInterpolationOrder());
      std::map<double, ClockRecord> rec; for (size_t i = 0; i < T.size(); i++) { size_t j = T.size() - 1 - i; double u = T[j] / STEP; ClockRecord r; r.bias = B.v(u); r.drift = mode > 0 ? Dr.v(u) : 0; r.accel = mode > 1 ? Ac.v(u) : 0; r.sig_bias = sg(0, j); r.sig_drift = mode > 0 ? sg(1, j) : 0; r.sig_accel = mode > 1 ? sg(2, j) : 0; rec[T[j]] = r; cs2.addClockRecord(G1, at(T[j]), r); } c.states(1);
      for (int qi = -1; qi <= 2 * NB; qi++) { double q = (qi & 1 ? qi / 2 * STEP + ((qi & 2) ? .5 : .75) * STEP : qi / 2 * STEP); if (qi < 0) q = -STEP / 4; Win w = window(T, q, nh, cf.gap, cf.mx, mode > 0); c.eval(1); c.outcome(hmix(hmix(w.kind, w.lo * 16 + w.hi), order * 4 + mode)); c.trans(3); auto D = [&] { return cname(T, nh, cf, q) + (order ? " Lagrange" : " linear") + (mode == 0 ? " bias" : mode == 1 ? " bias+drift" : " bias+drift+acceleration"); };
        ClockRecord r; double gb = 0, gd = 0; S e = thrown([&] { r = cs2.getValue(G1, at(q)); }), eb = thrown([&] { gb = cs2.getClockBias(G1, at(q)); }), ed = thrown([&] { gd = cs2.getClockDrift(G1, at(q)); }); bool exact = w.i < (int)T.size() && T[w.i] == q;
        for (const S& x : {e, eb, ed}) MC_CK(c, x == "" || isIR(x), "exception", D() << " throws " << x);
        if (w.kind == 0) { MC_CK(c, e != "" && eb != "" && ed != "", "accepted", D() << " is not refused: getValue " << e << " getClockBias " << eb << " getClockDrift " << ed); continue; }
        if (w.kind != 3) MC_CK(c, e == "" && ed == "", "refused", D() << " is refused (" << e << "," << ed << ")"); MC_CK(c, eb == "", "refused", D() << " getClockBias is refused");
        double u = q / STEP, tb = 1e-8 * scale(B, T), td = 1e-8 * scale(Dr, T), ta = 1e-8 * scale(Ac, T); const ClockRecord* st = exact ? &rec[q] : 0; const ClockRecord *x = st ? st : &rec[T[w.i - 1]], *y = st ? 0 : &rec[T[w.i]];
        auto lin = [&](double a, double b) { return a + (b - a) * (q - T[w.i - 1]) / (T[w.i] - T[w.i - 1]); };
        double wb = st ? st->bias : order ? B.v(u) : lin(x->bias, y->bias), wd = st && mode ? st->drift : mode ? (order ? Dr.v(u) : lin(x->drift, y->drift)) : order ? B.d(u) / STEP : st ? 0 : (y->bias - x->bias) / (T[w.i] - T[w.i - 1]), wac = st && mode == 2 ? st->accel : mode == 2 ? (order ? Ac.v(u) : lin(x->accel, y->accel)) : order ? Dr.d(u) / STEP : st ? 0 : (y->drift - x->drift) / (T[w.i] - T[w.i - 1]);
        bool dj = !(exact && mode == 0 && !order); auto slopeOk = [&](double g) { bool ok = false; for (int s : {w.i, w.i + 1}) if (s > 0 && s < (int)T.size()) { double m = (rec[T[s]].bias - rec[T[s - 1]].bias) / (T[s] - T[s - 1]); if (near(g, m, tb)) ok = true; } if (w.i > 0 && w.i + 1 < (int)T.size() && near(g, (rec[T[w.i + 1]].bias - rec[T[w.i - 1]].bias) / (T[w.i + 1] - T[w.i - 1]), tb)) ok = true; return ok; };
        auto one = [&](bool have, double got, bool stored, double want, double tol, const char* key) { if (have) MC_CK(c, stored ? got == want : near(got, want, tol), key, D() << " " << key << " is " << got << ", want " << want); };
        one(e == "", r.bias, exact && mode, wb, tb, "value-bias"); one(eb == "", gb, exact, wb, tb, "get-bias");
        if (dj) { one(e == "", r.drift, exact && mode, wd, mode ? td : tb, "value-drift"); one(ed == "", gd, exact && mode, wd, mode ? td : tb, "get-drift"); } else { if (e == "") MC_CK(c, slopeOk(r.drift), "value-drift", D() << " drift " << r.drift << " is no slope next to the epoch"); if (ed == "") MC_CK(c, slopeOk(gd), "get-drift", D() << " drift " << gd << " is no slope next to the epoch"); }
        if (mode == 2 || (mode == 1 && !exact)) one(e == "", r.accel, exact, wac, mode == 2 ? ta : td, "value-acceleration"); if (mode == 0) one(e == "", r.accel, true, 0, 0, "value-acceleration");
        if (e == "") { MC_CK(c, near(r.sig_bias, y ? rss(x->sig_bias, y->sig_bias) : x->sig_bias, 1e-12), "sigma-bias", D() << " sig_bias " << r.sig_bias); if (mode) MC_CK(c, near(r.sig_drift, y ? rss(x->sig_drift, y->sig_drift) : x->sig_drift, 1e-12), "sigma-drift", D() << " sig_drift " << r.sig_drift); if (mode == 2) MC_CK(c, near(r.sig_accel, y ? rss(x->sig_accel, y->sig_accel) : x->sig_accel, 1e-12), "sigma-acceleration", D() << " sig_accel " << r.sig_accel); }
      } } } } });
  // (D) histories of a store
  struct MR { double p = 0, v = 0; }; struct MC { double b = 0, d = 0; };
  struct Model { std::map<std::pair<SatID, int>, MR> P; std::map<std::pair<SatID, int>, MC> C; };
  struct Op { int kind, sat, k, l; };
  static std::vector<Op> ops; static const SatID sats[2] = {G1, R1}; static const double TT[4] = {0, 900, 1800, 4500};
  for (int s = 0; s < 2; s++) for (int k = 0; k < 4; k++) { if (s && k > 1) continue; ops.push_back({0, s, k, 0}); ops.push_back({3, s, k, 0}); if (!s && k < 2) { ops.push_back({1, s, k, 0}); ops.push_back({2, s, k, 0}); ops.push_back({4, s, k, 0}); ops.push_back({5, s, k, 0}); } }
  for (int a : {-1, 1, 2}) for (int b : {1, 2, 9}) ops.push_back({6, 0, a, b}); ops.push_back({6, 0, 8, 9}); ops.push_back({6, 0, 10, 2}); ops.push_back({7, 0, 0, 0}); ops.push_back({8, 0, 0, 0}); ops.push_back({9, 0, 0, 0});
  static const size_t nops = ops.size();
  h.part("histories: add, edit and clear against a map of records", nops, [](Ctx& c, u64 first) {
    bfs(c, nops, th ? 4 : 3, {(int)first}, [&](const std::vector<int>& hist, S& canon) {
      SP3EphemerisStore st; st.setPositionInterpOrder(4); st.setClockInterpOrder(4); Model m; S d; char b[100]; int n = 0; bool hv = false, hd = false;
      for (int o : hist) { const Op& op = ops[o]; const SatID& s = sats[op.sat]; n++; double x = 100 * n + op.k + 0.5;
        CommonTime t = at(op.kind < 6 ? TT[op.k] : 0); std::pair<SatID, int> key(s, op.k); Triple T3(x, x + 1, x + 2), Z(0, 0, 0);
        snprintf(b, 100, " op%d(sat %d, %d, %d)", op.kind, op.sat, op.k, op.l); d += b;
        switch (op.kind) {
        case 0: { PositionRecord r; r.Pos = T3; r.Vel = Triple(-x, x, x); r.Acc = r.sigPos = r.sigVel = r.sigAcc = Z; st.addPositionRecord(s, t, r); m.P[key].p = x; m.P[key].v = -x; hv = true; break; }
        case 1: st.addPositionData(s, t, T3, Z); m.P[key].p = x; break;
        case 2: st.addVelocityData(s, t, T3, Z); m.P[key].v = x; hv = true; break;
        case 3: { ClockRecord r; r.bias = x; r.drift = -x; r.accel = r.sig_bias = r.sig_drift = r.sig_accel = 0; st.addClockRecord(s, t, r); m.C[key].b = x; m.C[key].d = -x; hd = true; break; }
        case 4: st.addClockBias(s, t, x); m.C[key].b = x; break;
        case 5: st.addClockDrift(s, t, x); m.C[key].d = x; hd = true; break;
        case 6: { // edit; the limits fall on and between the epochs
          static const double L[] = {900, 1800, 450, 0, 0, 0, 0, 0, 4501, 4500}; double lo = op.k == -1 ? -100 : op.k == 1 ? 900 : op.k == 2 ? 901 : op.k == 8 ? 4501 : 1800, hi = op.l == 1 ? 900 : op.l == 2 ? 1799 : 1e9; (void)L; if (op.l == 9) st.edit(at(lo)); else st.edit(at(lo), at(hi));
          for (auto it = m.P.begin(); it != m.P.end();) if (TT[it->first.second] < lo || TT[it->first.second] > hi) m.P.erase(it++); else ++it; for (auto it = m.C.begin(); it != m.C.end();) if (TT[it->first.second] < lo || TT[it->first.second] > hi) m.C.erase(it++); else ++it; break; }
        case 7: st.clearPosition(); m.P.clear(); break; case 8: st.clearClock(); m.C.clear(); break; case 9: st.clear(); m.P.clear(); m.C.clear(); break; } }
      c.eval(1); c.states(1); canon = ""; for (auto& p : m.P) canon += std::to_string(p.first.first.id) + (p.first.first.system == SatelliteSystem::GPS ? "G" : "R") + std::to_string(p.first.second) + ":" + std::to_string(p.second.p) + "/" + std::to_string(p.second.v) + " "; canon += "|"; for (auto& p : m.C) canon += std::to_string(p.first.first.id) + (p.first.first.system == SatelliteSystem::GPS ? "G" : "R") + std::to_string(p.first.second) + ":" + std::to_string(p.second.b) + "/" + std::to_string(p.second.d) + " "; canon += hv ? "v" : ""; canon += hd ? "d" : "";
      auto D = [&] { return d + " (model " + canon + ")"; };
      MC_CK(c, st.ndata() == (int)m.P.size() && st.size() == (int)m.P.size() && st.ndataPosition() == (int)m.P.size() && st.ndataClock() == (int)m.C.size(), "counts", D() << " has " << st.ndata() << " positions and " << st.ndataClock() << " clocks");
      std::set<SatID> ps, cs; std::set<SatID> both; for (auto& p : m.P) ps.insert(p.first.first); for (auto& p : m.C) { cs.insert(p.first.first); if (ps.count(p.first.first)) both.insert(p.first.first); }
      auto setOf = [](const std::vector<SatID>& v) { std::multiset<SatID> r(v.begin(), v.end()); return r; }; auto ms = [](const std::set<SatID>& v) { std::multiset<SatID> r(v.begin(), v.end()); return r; };
      MC_CK(c, setOf(st.getPositionSatList()) == ms(ps) && setOf(st.getClockSatList()) == ms(cs) && setOf(st.getSatList()) == ms(both) && st.getIndexSet() == both, "satellites", D() << " satellite lists: " << st.getPositionSatList().size() << "," << st.getClockSatList().size() << "," << st.getSatList().size());
      MC_CK(c, (!hv || st.hasVelocity() || m.P.empty()) && (!st.hasVelocity() || hv) && (!st.hasClockDrift() || hd), "have-flags", D() << " hasVelocity " << st.hasVelocity() << " hasClockDrift " << st.hasClockDrift());
      auto lim = [&](bool pos, const SatID* s, double& a, double& z) { a = 1e18; z = -1e18; if (pos) { for (auto& p : m.P) if (!s || p.first.first == *s) { a = std::min(a, TT[p.first.second]); z = std::max(z, TT[p.first.second]); } } else for (auto& p : m.C) if (!s || p.first.first == *s) { a = std::min(a, TT[p.first.second]); z = std::max(z, TT[p.first.second]); } return a < 1e17; };
      double a, z; if (lim(true, 0, a, z)) MC_CK(c, st.getPositionInitialTime() == at(a) && st.getPositionFinalTime() == at(z) && st.getInitialTime() == at(a) && st.getFinalTime() == at(z), "limits", D() << " position limits"); if (lim(false, 0, a, z)) MC_CK(c, st.getClockInitialTime() == at(a) && st.getClockFinalTime() == at(z), "limits", D() << " clock limits");
      for (const SatID* s : {&sats[0], &sats[1], &GX}) { int np = 0, nc = 0; std::vector<double> pt, ct; for (auto& p : m.P) if (p.first.first == *s) { np++; pt.push_back(TT[p.first.second]); } for (auto& p : m.C) if (p.first.first == *s) { nc++; ct.push_back(TT[p.first.second]); } c.trans(1);
        MC_CK(c, st.ndata(*s) == np && st.ndataPosition(*s) == np && st.ndataClock(*s) == nc, "counts", D() << " counts of " << *s); MC_CK(c, st.isPresent(*s) == (np > 0 && nc > 0), "present", D() << " isPresent(" << *s << ") is " << st.isPresent(*s));
        if (lim(true, s, a, z)) MC_CK(c, st.getPositionInitialTime(*s) == at(a) && st.getPositionFinalTime(*s) == at(z) && st.getInitialTime(*s) == at(a) && st.getFinalTime(*s) == at(z), "limits", D() << " position limits of " << *s); else { st.getPositionInitialTime(*s); st.getPositionFinalTime(*s); } if (lim(false, s, a, z)) MC_CK(c, st.getClockInitialTime(*s) == at(a) && st.getClockFinalTime(*s) == at(z), "limits", D() << " clock limits of " << *s); else { st.getClockInitialTime(*s); st.getClockFinalTime(*s); }
        auto nom = [](const std::vector<double>& t, double g) { if (t.size() < 2) return g == 0; std::map<double, int> cnt; int mx = 0; for (size_t i = 1; i < t.size(); i++) mx = std::max(mx, ++cnt[t[i] - t[i - 1]]); return cnt.count(g) && cnt[g] == mx; };
        MC_CK(c, nom(pt, st.getPositionTimeStep(*s)) && nom(ct, st.getClockTimeStep(*s)), "time-step", D() << " time step " << st.getPositionTimeStep(*s) << " " << st.getClockTimeStep(*s));
        for (int k = 0; k < 4; k++) { if (np == 0 && k != 1) continue; std::pair<SatID, int> key(*s, k); bool inP = m.P.count(key), inC = m.C.count(key); Xvt x; if (s == &GX && hist.size() > 1) continue; bool full = inP && np > 1; S e = thrown([&] { x = st.getXvt(*s, at(TT[k])); }), ep = e, ev = e; if (!full && k != 1 && e != "") continue; Triple gp, gv; ep = thrown([&] { gp = st.getPosition(*s, at(TT[k])); }); ev = thrown([&] { gv = st.getVelocity(*s, at(TT[k])); }); Xvt y = st.computeXvt(*s, at(TT[k]));
          MC_CK(c, (e == "" || isIR(e)) && (ep == "" || isIR(ep)) && (ev == "" || isIR(ev)), "exception", D() << " throws " << e << "," << ep); MC_CK(c, (y.health == Xvt::HealthStatus::Unavailable) == (e != ""), "compute-xvt", D() << " computeXvt and getXvt disagree at " << TT[k]);
          if (!inP || np < 2) { if (np < 4) MC_CK(c, ep != "" && ev != "" && e != "", "extrapolated", D() << " position at " << TT[k] << " of " << *s << " is not refused"); continue; } if (!hv) continue;
          const MR& r = m.P[key]; if (r.v != 0 || hv) { MC_CK(c, ep == "" && ev == "", "stored-refused", D() << " the stored epoch " << TT[k] << " is refused"); if (ep == "") MC_CK(c, near(gp[0], r.p * 1000, 1e-6), "stored-position", D() << " position at " << TT[k] << " is " << gp[0] << ", want " << r.p * 1000); if (ev == "") MC_CK(c, near(gv[0], r.v * 0.1, 1e-9), "stored-velocity", D() << " velocity at " << TT[k] << " is " << gv[0] << ", want " << r.v * 0.1); }
          if (inC && nc > 1 && hd) { MC_CK(c, e == "", "stored-refused", D() << " getXvt at " << TT[k] << " is refused"); const MC& q = m.C[key]; if (e == "") { MC_CK(c, near(x.x[0], r.p * 1000, 1e-6) && near(x.v[0], r.v * 0.1, 1e-9) && near(x.clkbias, q.b * 1e-6, 1e-15) && near(x.clkdrift, q.d * 1e-6, 1e-15), "stored-xvt", D() << " getXvt at " << TT[k] << " is " << x.x[0] << " " << x.v[0] << " " << x.clkbias << " " << x.clkdrift); MC_CK(c, y.x[0] == x.x[0] && y.v[0] == x.v[0] && y.clkbias == x.clkbias && y.clkdrift == x.clkdrift, "compute-xvt", D() << " computeXvt differs"); } }
          else if (!inC && nc < 4) MC_CK(c, e != "", "extrapolated", D() << " getXvt at " << TT[k] << " without a clock is not refused"); } }
      return true; }); });
  h.part("time systems of the stores", 1, [](Ctx& c, u64) { for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { static const TimeSystem ts[4] = {TimeSystem::Any, TimeSystem::GPS, TimeSystem::UTC, TimeSystem::GLO}; PositionSatStore p; ClockSatStore k; p.setTimeSystem(ts[a]); k.setTimeSystem(ts[a]); CommonTime t = at(0); t.setTimeSystem(ts[b]); PositionRecord r; r.Pos = r.Vel = r.Acc = r.sigPos = r.sigVel = r.sigAcc = Triple(1, 1, 1); ClockRecord q; q.bias = q.drift = q.accel = q.sig_bias = q.sig_drift = q.sig_accel = 1; bool bad = a && b && a != b; c.eval(8); c.states(1);
      for (int o = 0; o < 8; o++) { S e = thrown([&] { switch (o) { case 0: p.addPositionRecord(G1, t, r); break; case 1: p.addPositionData(G1, t, r.Pos); break; case 2: p.addVelocityData(G1, t, r.Pos); break; case 3: p.addAccelerationData(G1, t, r.Pos); break; case 4: k.addClockRecord(G1, t, q); break; case 5: k.addClockBias(G1, t, 1); break; case 6: k.addClockDrift(G1, t, 1); break; case 7: k.addClockAcceleration(G1, t, 1); } }); MC_CK(c, bad ? isIR(e) : e == "", "time-system", "operation " << o << " on a store in " << StringUtils::asString(ts[a]) << " with a time in " << StringUtils::asString(ts[b]) << ": " << e); }
      MC_CK(c, p.ndata() == (bad ? 0 : 1) && k.ndata() == (bad ? 0 : 1), "time-system", "a refused record was stored, or an accepted one was not"); } });
  // (E) SP3 files
  static const char* kinds[6] = {"good", "no position", "no clock", "predicted orbit", "predicted clock", "both predicted"};
  h.part("SP3 files: every sequence of record kinds x flags x record types", 6 * 6 * 6 * 4, [](Ctx& c, u64 i) {
    int kd[3]; Mix m(i); for (int& k : kd) k = m(6); int var = m(4); bool V = var & 1, E = var & 2; // version c; without V and E also version a
    const SatID ss[3] = {G1, G2, G1}; S name = "c18." + std::to_string(getpid()) + ".sp3";
    for (int ver = 0; ver < (E ? 1 : 2); ver++) for (int noeof = 0; noeof < 1; noeof++) { bool C = ver == 0; char b[200]; S f; double tt[3] = {0, 0, 900}; struct Rec { double x[3], v[3], clk, drf, sp[3], sv[3], sc; } R[3];
      snprintf(b, 200, "#%c%c2015  7 19  0  0  0.00000000       2 DD+AD WGS84 FIT  NGA\n## 1854      0.00000000   900.00000000 57222 0.0000000000000\n", C ? 'c' : 'a', V ? 'V' : 'P'); f = b; f += C ? "+    2   G01G02  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0\n" : "+    2     1  2  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0\n"; for (int k = 0; k < 4; k++) f += "+          0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0\n"; for (int k = 0; k < 5; k++) f += "++         2  2  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0\n";
      f += C ? "%c G  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n" : "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n"; f += "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n%f  1.2500000  1.025000000  0.00000000000  0.000000000000000\n%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n%i    0    0    0    0      0      0      0      0         0\n%i    0    0    0    0      0      0      0      0         0\n"; for (int k = 0; k < 4; k++) f += "/* CCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCCC\n";
      for (int k = 0; k < 3; k++) { if (k == 0) f += "*  2015  7 19  0  0  0.00000000\n"; if (k == 2) f += "*  2015  7 19  0 15  0.00000000\n"; Rec& r = R[k]; for (int j = 0; j < 3; j++) { r.x[j] = 1000 * (k + 1) + j + 0.25; r.v[j] = -1000 * (k + 1) - j - 0.5; } r.clk = 100 + k + 0.5; r.drf = 20 + k; int bad = kd[k] == 1 ? k : -1; if (bad >= 0) r.x[bad] = 0; if (kd[k] == 2) r.clk = k == 1 ? -999999.999999 : 999999.999999; bool pO = kd[k] == 3 || kd[k] == 5, pC = kd[k] >= 4; int sgm[4] = {3 + k, 4 + k, 5 + k, 10 + k};
        for (int j = 0; j < 3; j++) { r.sp[j] = C ? std::pow(1.25, sgm[j]) : 0; r.sv[j] = C ? std::pow(1.25, sgm[j] + 2) : 0; } r.sc = C ? std::pow(1.025, sgm[3]) * 1e-6 : 0;
        if (C) snprintf(b, 200, "PG%02d%14.6f%14.6f%14.6f%14.6f %2d %2d %2d %3d  %c  %c%c\n", ss[k].id, r.x[0], r.x[1], r.x[2], r.clk, sgm[0], sgm[1], sgm[2], sgm[3], pC ? 'P' : ' ', ' ', pO ? 'P' : ' '); else snprintf(b, 200, "P%3d%14.6f%14.6f%14.6f%14.6f\n", ss[k].id, r.x[0], r.x[1], r.x[2], r.clk); f += b;
        if (E && k != 1) { snprintf(b, 200, "EP  %4d %4d %4d %7d %8d %8d %8d %8d %8d %8d\n", 31 + k, 32 + k, 33 + k, 500 + k, 1, 2, 3, 4, 5, 6); f += b; for (int j = 0; j < 3; j++) r.sp[j] = 31 + j + k; r.sc = (500 + k) * 1e-6; }
        if (V) { if (C) snprintf(b, 200, "VG%02d%14.6f%14.6f%14.6f%14.6f %2d %2d %2d %3d\n", ss[k].id, r.v[0], r.v[1], r.v[2], r.drf, sgm[0] + 2, sgm[1] + 2, sgm[2] + 2, sgm[3] + 2); else snprintf(b, 200, "V%3d%14.6f%14.6f%14.6f%14.6f\n", ss[k].id, r.v[0], r.v[1], r.v[2], r.drf); f += b; if (E && k != 1) { snprintf(b, 200, "EV  %4d %4d %4d %7d %8d %8d %8d %8d %8d %8d\n", 41 + k, 42 + k, 43 + k, 600 + k, 1, 2, 3, 4, 5, 6); f += b; for (int j = 0; j < 3; j++) r.sv[j] = 41 + j + k; } }
        if (!C) { if (pO || pC) kd[k] = kd[k]; } }
      f += "EOF\n"; { std::ofstream o(name.c_str()); o << f; }
      for (int flags = 0; flags < 32; flags++) { bool rp = flags & 1, rc = flags & 2, rpp = flags & 4, rpc = flags & 8, rin = flags & 16; if (rin && (flags & 10)) continue; S d = S("SP3") + (C ? "c " : "a ") + (V ? "P+V" : "P") + (E ? "+E" : "") + " records:"; for (int k = 0; k < 3; k++) d += S(" ") + kinds[kd[k]] + ","; snprintf(b, 200, " reject badPos %d badClk %d predPos %d predClk %d%s", rp, rc, rpp, rpc, rin ? " (clocks from RINEX)" : ""); d += b; c.at(d);
        SP3EphemerisStore st; st.rejectBadPositions(rp); st.rejectBadClocks(rc); st.rejectPredPositions(rpp); st.rejectPredClocks(rpc); if (rin) st.useRinexClockData(); S e = thrown([&] { if (rin || flags % 2) st.loadFile(name); else st.loadSP3File(name); }); c.eval(1); c.states(1); c.traces(1); MC_CK(c, e == "", "load", d << " throws " << e); if (e != "") continue;
        bool P[3], K[3]; int np = 0, nk = 0; for (int k = 0; k < 3; k++) { bool badp = kd[k] == 1 && rp, badc = kd[k] == 2 && rc && !rin, po = C && (kd[k] == 3 || kd[k] == 5), pc = C && kd[k] >= 4; P[k] = !badp && !badc && !(po && rpp); K[k] = !rin && !badp && !badc && !(pc && rpc); np += P[k]; nk += K[k]; }
        MC_CK(c, st.ndataPosition() == np && st.ndataClock() == nk, "load-count", d << " stores " << st.ndataPosition() << " positions and " << st.ndataClock() << " clocks, want " << np << " and " << nk); MC_CK(c, st.nSP3files() == 1 && (!C || st.getTimeSystem() == TimeSystem::GPS), "load-file", d << " files " << st.nSP3files()); if (np) MC_CK(c, st.hasVelocity() == V, "load-velocity", d << " hasVelocity " << st.hasVelocity());
        // the sigmas, as dumped
        if (np) { std::ostringstream os; st.dumpPosition(os, 2); std::multiset<S> want, got; std::istringstream is(os.str()); S l; while (std::getline(is, l)) { size_t q = l.find("sigP"), v = l.find("sigV"); if (q != S::npos && v != S::npos) { std::istringstream a(l.substr(q + 4, 31)), z(l.substr(v + 4)); double s[6]; a >> s[0] >> s[1] >> s[2]; z >> s[3] >> s[4] >> s[5]; char t[100]; snprintf(t, 100, "%.2e %.2e %.2e %.2e %.2e %.2e", s[0], s[1], s[2], s[3], s[4], s[5]); got.insert(t); } } for (int k = 0; k < 3; k++) if (P[k]) { char t[100]; snprintf(t, 100, "%.2e %.2e %.2e %.2e %.2e %.2e", R[k].sp[0], R[k].sp[1], R[k].sp[2], V ? R[k].sv[0] : 0, V ? R[k].sv[1] : 0, V ? R[k].sv[2] : 0); want.insert(t); } if (want != got) { S s; for (auto& x : got) s += " [" + x + "]"; s += " want"; for (auto& x : want) s += " [" + x + "]"; c.fail("load-sigmas", d + " sigmas" + s); } }
        // a far record with rates makes every tabulated epoch answer with its own record
        PositionRecord pr; pr.Pos = pr.Vel = Triple(1, 1, 1); pr.Acc = pr.sigPos = pr.sigVel = pr.sigAcc = Triple(0, 0, 0); ClockRecord cr; cr.bias = cr.drift = 1; cr.accel = cr.sig_bias = cr.sig_drift = cr.sig_accel = 0; CommonTime far = CivilTime(2015, 7, 20, 0, 0, 0, C ? TimeSystem::GPS : TimeSystem::Any).convertToCommonTime(); CommonTime ep0 = CivilTime(2015, 7, 19, 0, 0, 0, C ? TimeSystem::GPS : TimeSystem::Any).convertToCommonTime();
        if (!C) { TimeSystem ts = st.getTimeSystem(); far.setTimeSystem(ts); ep0.setTimeSystem(ts); } for (const SatID* s : {&G1, &G2}) { st.addPositionRecord(*s, far, pr); st.addClockRecord(*s, far, cr); }
        for (int k = 0; k < 3; k++) { Triple x, v; CommonTime t = ep0 + tt[k]; S ex = thrown([&] { x = st.getPosition(ss[k], t); v = st.getVelocity(ss[k], t); }); MC_CK(c, (ex == "") == P[k], "load-record", d << " record " << k << (P[k] ? " is missing" : " was stored")); if (ex == "" && P[k]) for (int j = 0; j < 3; j++) MC_CK(c, near(x[j], R[k].x[j] * 1000, 1e-5) && near(v[j], V ? R[k].v[j] * 0.1 : 0, 1e-6), "load-values", d << " record " << k << " is " << x[j] << " " << v[j] << ", want " << R[k].x[j] * 1000 << " " << (V ? R[k].v[j] * 0.1 : 0));
          Xvt xv; S ey = thrown([&] { xv = st.getXvt(ss[k], t); }); MC_CK(c, (ey == "") == (P[k] && K[k]), "load-xvt", d << " record " << k << " getXvt " << ey); if (ey == "" && P[k] && K[k]) MC_CK(c, near(xv.clkbias, R[k].clk * 1e-6, 1e-14) && near(xv.clkdrift, V ? R[k].drf * 1e-10 : 0, 1e-18), "load-clock", d << " record " << k << " clock " << xv.clkbias << " " << xv.clkdrift); }
        S key = d.substr(0, 30); c.outcome(hmix(np * 7 + nk, flags)); }
      unlink(name.c_str()); } });
  return h.run(argc, argv);
}
