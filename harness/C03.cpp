// MC-SAN: assert
// MC-ASSUME: date arguments are the ones the API takes (year, month, day of the time being converted) ; TDB-TT only bounded (2 ms) and required to be the same in both directions
#include <memory>
#include <map>
#include "mc.hpp"
#include "TimeSystem.hpp"
#include "TimeSystemCorr.hpp"
#include "CivilTime.hpp"
#include "MJD.hpp"
#include "GPSWeekSecond.hpp"
#include "Rinex3EphemerisStore.hpp"
#include "PackedNavBits.hpp"
#include "OrbSysGpsL_56.hpp"
#include "OrbSysGpsC_33.hpp"
#include "EphTime.hpp"
using namespace gpstk; using namespace mc;
typedef TimeSystem TS;
static const TS ALL[] = {TS::Unknown, TS::Any, TS::GPS, TS::GLO, TS::GAL, TS::QZS, TS::BDT, TS::IRN, TS::UTC, TS::TAI, TS::TT, TS::TDB};
static const char* NM[] = {"UNK", "Any", "GPS", "GLO", "GAL", "QZS", "BDT", "IRN", "UTC", "TAI", "TT", "TDB"};
static bool usable(int i) { return i >= 2 && i != 5; }   // Unknown, Any, QZS have no defined relation in this API
// independent calendar -> MJD
static long mjdOf(int y, int m, int d) { long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3; return d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045 - 2400001; }
static void ymd(long mjd, int& y, int& m, int& d) { long z = mjd + 2400001 + 32044; long g = z / 146097, dg = z % 146097, c = (dg / 36524 + 1) * 3 / 4, dc = dg - c * 36524, b = dc / 1461, db = dc % 1461, a = (db / 365 + 1) * 3 / 4, da = db - a * 365; long yy = g * 400 + c * 100 + b * 4 + a, mm = (da * 5 + 308) / 153 - 2; d = da - (mm + 4) * 153 / 5 + 122 + 1; y = yy - 4800 + (mm + 2) / 12; m = (mm + 2) % 12 + 1; }
// published table (USNO tai-utc.dat): start MJD, offset, reference MJD, drift/day
struct L { long mjd; double off; long ref; double rate; };
static const L TAB[] = {{36934, 1.4178180, 37300, 0.001296}, {37300, 1.4228180, 37300, 0.001296}, {37512, 1.3728180, 37300, 0.001296}, {37665, 1.8458580, 37665, 0.0011232}, {38334, 1.9458580, 37665, 0.0011232}, {38395, 3.2401300, 38761, 0.001296}, {38486, 3.3401300, 38761, 0.001296}, {38639, 3.4401300, 38761, 0.001296}, {38761, 3.5401300, 38761, 0.001296}, {38820, 3.6401300, 38761, 0.001296}, {38942, 3.7401300, 38761, 0.001296}, {39004, 3.8401300, 38761, 0.001296}, {39126, 4.3131700, 39126, 0.002592}, {39887, 4.2131700, 39126, 0.002592},
  {41317, 10, 0, 0}, {41499, 11, 0, 0}, {41683, 12, 0, 0}, {42048, 13, 0, 0}, {42413, 14, 0, 0}, {42778, 15, 0, 0}, {43144, 16, 0, 0}, {43509, 17, 0, 0}, {43874, 18, 0, 0}, {44239, 19, 0, 0}, {44786, 20, 0, 0}, {45151, 21, 0, 0}, {45516, 22, 0, 0}, {46247, 23, 0, 0}, {47161, 24, 0, 0}, {47892, 25, 0, 0}, {48257, 26, 0, 0}, {48804, 27, 0, 0}, {49169, 28, 0, 0}, {49534, 29, 0, 0}, {50083, 30, 0, 0}, {50630, 31, 0, 0}, {51179, 32, 0, 0}, {53736, 33, 0, 0}, {54832, 34, 0, 0}, {56109, 35, 0, 0}, {57204, 36, 0, 0}, {57754, 37, 0, 0}};
static const int NT = sizeof(TAB) / sizeof(TAB[0]);
static const L* row(long mjd) { for (int i = NT - 1; i >= 0; i--) if (mjd >= TAB[i].mjd) return &TAB[i]; return 0; }
static double taiOf(int i, double leap) { switch (i) { case 2: case 4: case 7: return 19; case 3: case 8: return leap; case 6: return 33; case 9: return 0; case 10: case 11: return -32.184; } return 0; }

struct Ty { const char* n; TS fr, to; int sign; bool a1; };   // sign of +A in corr(fr->to)
static const Ty TY[] = {{"GPUT", TS::GPS, TS::UTC, -1, true}, {"GAUT", TS::GAL, TS::UTC, -1, true}, {"GLUT", TS::GLO, TS::UTC, -1, false}, {"GPGA", TS::GPS, TS::GAL, 1, true}, {"GAGP", TS::GPS, TS::GAL, 1, true}, {"GLGP", TS::GLO, TS::GPS, -1, false}, {"QZGP", TS::QZS, TS::GPS, -1, true}, {"QZUT", TS::QZS, TS::UTC, -1, true}, {"BDUT", TS::BDT, TS::UTC, -1, true}, {"BDGP", TS::BDT, TS::GPS, -1, true}, {"IRUT", TS::IRN, TS::UTC, -1, true}, {"IRGP", TS::IRN, TS::GPS, -1, true}, {"SBUT", TS::GPS, TS::UTC, 0, true}};
static const int NTY = 13;
static PackedNavBits bitsToPnb(const std::vector<int>& b, long wk, double sow) {
  PackedNavBits p; p.setSatID(SatID(5, SatelliteSystem::GPS)); p.setObsID(ObsID(ObservationType::NavMsg, CarrierBand::L1, TrackingCode::CA));
  CommonTime t = GPSWeekSecond(wk, sow, TS::GPS); p.setTime(t);
  for (int x : b) p.addUnsignedLong(x, 1, 1);
  p.trimsize(); return p;
}
static void setb(std::vector<int>& b, int s, int n, long v) { for (int i = 0; i < n; i++) b[s + i] = (v >> (n - 1 - i)) & 1; }

int main(int argc, char** argv) {
  Harness h("C03");
  struct NullBuf : std::streambuf { int overflow(int c) { return c; } }; static NullBuf nb; std::cout.rdbuf(&nb);
  const long M0 = mjdOf(1955, 1, 1), M1 = h.thorough ? mjdOf(2200, 1, 1) : mjdOf(2100, 1, 1);
  const long CH = 256;
  h.part("leap-table", (M1 - M0 + CH - 1) / CH, [&](Ctx& c, u64 i) {
    for (long mjd = M0 + i * CH; mjd < M0 + (long)(i + 1) * CH && mjd < M1; mjd++) {
      int y, m, d; ymd(mjd, y, m, d); const L* r = row(mjd);
      static const double fr[] = {0, 0.25, 0.5, 0.999988};
      for (double f : fr) {
        double got = getLeapSeconds(y, m, d + f); c.eval();
        double want = r ? r->off + (mjd + f - r->ref) * r->rate : 0;
        if (std::fabs(got - want) < 1e-9) { c.outcome(hdbl(got)); continue; }
        double alt = r ? r->off + (mjd + f - r->mjd) * r->rate : 0;
        std::ostringstream o; o << std::setprecision(12) << "UTC " << y << "-" << m << "-" << d + f << " got " << got << " published " << want;
        if (r && r->rate != 0 && std::fabs(got - alt) < 1e-9) { char k[40]; int yy, mm, dd; ymd(r->mjd, yy, mm, dd); snprintf(k, 40, "drift-reference:%04d-%02d", yy, mm); c.fail(k, o.str()); }
        else c.fail(r && r->rate != 0 ? "leap-pre1972" : "leap", o.str());
      }
    }
  });
  const long P0 = mjdOf(1960, 1, 1), P1 = M1;
  h.part("pairs-triples", (P1 - P0 + 63) / 64, [&](Ctx& c, u64 i) {
    for (long mjd = P0 + i * 64; mjd < P0 + (long)(i + 1) * 64 && mjd < P1; mjd++) {
      int y, m, d; ymd(mjd, y, m, d); double M[12][12];
      static const double frs[] = {0, 0.73};
      for (double f : frs) {
        double leap = getLeapSeconds(y, m, d + f);
        for (int a = 0; a < 12; a++) for (int b = 0; b < 12; b++) {
          if (!(usable(a) && usable(b))) continue;
          M[a][b] = getTimeSystemCorrection(ALL[a], ALL[b], y, m, d + f); c.eval();
          double want = taiOf(a, leap) - taiOf(b, leap), tol = (a == 11) != (b == 11) ? 2e-3 : 1e-9;
          if (!(std::fabs(M[a][b] - want) <= tol)) { std::ostringstream o; o << NM[a] << "->" << NM[b] << " on " << y << "-" << m << "-" << d << " got " << M[a][b] << " want " << want; c.fail("pair", o.str()); }
        }
        for (int a = 2; a < 12; a++) for (int b = 2; b < 12; b++) { if (!usable(a) || !usable(b)) continue;
          if (std::fabs(M[a][b] + M[b][a]) > 1e-12) { std::ostringstream o; o << NM[a] << "<->" << NM[b] << " on " << y << "-" << m << "-" << d; c.fail("there-and-back", o.str()); }
          for (int e = 2; e < 12; e++) if (usable(e)) { c.trans(); if (std::fabs(M[a][b] + M[b][e] - M[a][e]) > 1e-9) { std::ostringstream o; o << NM[a] << "->" << NM[b] << "->" << NM[e] << " on " << y << "-" << m << "-" << d; c.fail("via-third", o.str()); } } }
      }
      if (mjd % 64 == 0) for (int a = 0; a < 12; a++) for (int b = 0; b < 12; b++) if (!(usable(a) && usable(b))) {
        std::string ex; double v = 0; ex = thrown([&] { v = getTimeSystemCorrection(ALL[a], ALL[b], y, m, d); });
        if (a == b) { if (!ex.empty() || v != 0) c.fail("identity", NM[a]); }
        else if (ex.empty()) { std::ostringstream o; o << NM[a] << "->" << NM[b] << " on " << y << " returned " << v; c.fail("unsupported-accepted", o.str()); } }
    }
  });
  h.part("names", 12, [&](Ctx& c, u64 i) {
    std::string s = StringUtils::asString(ALL[i]); c.eval(); MC_CK(c, s == NM[i], "name", s);
    MC_CK(c, StringUtils::asTimeSystem(s) == ALL[i], "name-back", s);
    std::ostringstream o; o << ALL[i]; MC_CK(c, o.str() == s, "stream", o.str());
  });
  // polynomial corrections: type x A0 x A1 x reference x time offset x system of the time
  static const double A0s[] = {0, 1e-7, -3.5e-8, 9.31322574615e-10, 0.25}, A1s[] = {0, 1e-12, -5e-11, 1e-3};
  static const long wks[] = {1000, 2047, 2048, 2100}, sws[] = {0, 61440, 604799};
  static const double dts[] = {0, 0.5, -10000, 604800, -604801, 86400.25};
  h.part("polynomial", NTY * 5 * 4 * 4 * 3, [&](Ctx& c, u64 i) {
    Mix m(i); const Ty& ty = TY[m(NTY)]; double A0 = A0s[m(5)], A1 = A1s[m(4)]; long w = wks[m(4)], s = sws[m(3)];
    TimeSystemCorrection tc(ty.n); tc.A0 = A0; tc.A1 = A1; tc.refWeek = w; tc.refSOW = s;
    MC_CK(c, tc.frTS == ty.fr && tc.toTS == ty.to, "from-to", ty.n);
    for (double dt : dts) for (int a = 2; a < 12; a++) {
      CommonTime t = GPSWeekSecond(w, s, TS::GPS).convertToCommonTime() + dt; t.setTimeSystem(ALL[a]);
      double v = 0; std::string ex; bool own = ALL[a] == ty.fr || ALL[a] == ty.to;
      if (own && ty.sign) v = tc.Correction(t); else ex = thrown([&] { v = tc.Correction(t); });
      c.eval();
      if (!own || !ty.sign) { MC_CK(c, !ex.empty(), "wrong-system-accepted", ty.n << " with " << NM[a] << " gave " << v); continue; }
      double p = A0 + (ty.a1 ? A1 * dt : 0), want = (ALL[a] == ty.fr ? ty.sign : -ty.sign) * p;
      MC_CK(c, std::fabs(v - want) <= 1e-12 * std::fabs(want) + 1e-16 + std::fabs(A1) * 1e-9, std::string("polynomial:") + ty.n, ty.n << " from " << NM[a] << " A0 " << A0 << " A1 " << A1 << " dt " << dt << " got " << v << " want " << want);
      c.outcome(hdbl(v));
    }
    for (int a = 0; a < 12; a++) for (int b = 0; b < 12; b++) {
      bool r = false; std::string ex; bool bad = a == b || a == 0 || b == 0; if (bad && i % 240) continue;
      if (bad) { ex = thrown([&] { r = tc.isConverterFor(ALL[a], ALL[b]); }); MC_CK(c, !ex.empty(), "converter-for-invalid", NM[a] << NM[b]); }
      else { r = tc.isConverterFor(ALL[a], ALL[b]); MC_CK(c, r == ((ALL[a] == ty.fr && ALL[b] == ty.to) || (ALL[a] == ty.to && ALL[b] == ty.fr)), "converter-for", ty.n << " " << NM[a] << " " << NM[b]); }
    }
    std::string n4 = tc.asString4(); TimeSystemCorrection t2(n4); MC_CK(c, t2 == tc && t2.asString() == tc.asString() && !(t2 < tc) && !(tc < t2), "type-string", ty.n);
    if (std::string(ty.n) != "GAGP") MC_CK(c, n4 == ty.n, "type-string4", n4);
  });
  h.part("type-refusal", 1, [&](Ctx& c, u64) { c.eval(4); for (const char* s : {"", "XXXX", "GPU", "GPUTX"}) MC_CK(c, !thrown([&] { TimeSystemCorrection t(s); }).empty(), "unknown-type-accepted", s);
    TimeSystemCorrection t; CommonTime ct = GPSWeekSecond(2000, 0., TS::GPS); MC_CK(c, !thrown([&] { t.Correction(ct); }).empty(), "undefined-correction", ""); });
  // derived corrections and the store's complete conversion
  static const double as0[] = {1e-7, -2.5e-8, 3e-6};
  h.part("derived-network", 3 * 3 * 3 * 8 * 4, [&](Ctx& c, u64 i) {
    Mix m(i); double g = as0[m(3)], e = as0[m(3)], r = as0[m(3)]; unsigned have = m(8); double a1 = A1s[m(3)]; (void)a1; bool glu = have & 1, gau = have & 2, bdu = have & 4; bool same = m(2);
    Rinex3EphemerisStore st; auto mk = [&](const char* n, double A0, double A1) { TimeSystemCorrection t(n); t.A0 = A0; t.A1 = A1; t.refWeek = 2100; t.refSOW = 61440; return t; };
    double A1 = same ? 0 : a1;
    MC_CK(c, !st.addTimeCorr(mk("GPUT", g, A1)), "overwrite-flag", "");
    if (glu) st.addTimeCorr(mk("GLUT", e, 0)); if (gau) st.addTimeCorr(mk("GAUT", r, same ? 0 : -2 * a1)); if (bdu) st.addTimeCorr(mk("BDUT", e, 0));
    MC_CK(c, st.addTimeCorr(mk("GPUT", g, A1)), "overwrite-flag2", "");
    int n = st.expandTimeCorrMap(), want = glu + gau + bdu; MC_CK(c, n == want, "derived-count", n << " want " << want); MC_CK(c, st.expandTimeCorrMap() == 0, "derived-again", "");
    CommonTime t0 = GPSWeekSecond(2100, 61440. + 5000.25, TS::GPS);
    struct Q { TS s; bool h; bool exact; } q[] = {{TS::GLO, glu, A1 == 0}, {TS::GAL, gau, true}, {TS::BDT, bdu, A1 == 0}};
    int y, mo, d; ymd(44244 + 2100 * 7, y, mo, d);
    for (auto& x : q) for (int dir = 0; dir < 2; dir++) {
      TS from = dir ? TS::GPS : x.s, to = dir ? x.s : TS::GPS; CommonTime t(t0); t.setTimeSystem(from); c.eval(); c.traces();
      CommonTime D = st.correctTimeSystem(t, to); MC_CK(c, D.getTimeSystem() == to, "converted-label", "");
      double base = getTimeSystemCorrection(from, to, y, mo, d); CommonTime z(t); z.setTimeSystem(to);
      if (!x.h) { MC_CK(c, std::fabs((D - z) - base) < 1e-10, "leap-only", ""); continue; }
      CommonTime U = st.correctTimeSystem(t, TS::UTC), V = st.correctTimeSystem(U, to);
      double tol = 2e-11 + std::fabs(A1) * 100; if (!x.exact) continue;
      MC_CK(c, std::fabs(V - D) < tol, std::string("via-UTC:") + StringUtils::asString(x.s), StringUtils::asString(from) << "->" << StringUtils::asString(to) << " direct - via UTC = " << (D - V) << " A0: GPUT " << g << " other " << (x.s == TS::GAL ? r : e));
      CommonTime B = st.correctTimeSystem(D, from); MC_CK(c, std::fabs(B - t) < tol, "store-there-and-back", "");
      c.outcome(hdbl(D - z));
    }
  });
  // broadcast GPS-UTC offset around the announced leap second
  h.part("leap-effectivity", 2 * 7 * 3 * 3 * 4, [&](Ctx& c, u64 i) {
    Mix m(i); int kind = m(2), DN = 1 + m(7), dls = (int)m(3) - 1; static const int ls[] = {18, 17, 37}; int LS = ls[m(3)], LSF = LS + dls; static const long wk[] = {1981, 2047, 2048, 1851}; long w = wk[m(4)];
    std::unique_ptr<OrbSysGpsL_56> l; std::unique_ptr<OrbSysGpsC_33> cc; CommonTime base = GPSWeekSecond(w, (DN - 1) * 86400., TS::GPS);
    double A0 = 3e-9, A1 = 2e-15;
    std::vector<int> b(300, 0);
    if (kind == 0) { setb(b, 49, 3, 4); setb(b, 62, 6, 56); setb(b, 150, 24, 2); long a0 = 3; setb(b, 180, 24, a0 >> 8); setb(b, 210, 8, a0 & 255); A0 = 3 * std::ldexp(1, -30); A1 = 2 * std::ldexp(1, -50);
      setb(b, 218, 8, 15); setb(b, 226, 8, w & 255); setb(b, 240, 8, LS); setb(b, 248, 8, w & 255); setb(b, 256, 8, DN); setb(b, 270, 8, LSF); l.reset(new OrbSysGpsL_56(bitsToPnb(b, w, 3600))); }
    else { setb(b, 14, 6, 33); setb(b, 127, 16, 100); setb(b, 143, 13, 1); setb(b, 163, 8, LS); setb(b, 171, 16, 61440 / 16); setb(b, 187, 13, w); setb(b, 200, 13, w); setb(b, 213, 4, DN); setb(b, 217, 8, LSF); A0 = 100 * std::ldexp(1, -35); A1 = std::ldexp(1, -51); cc.reset(new OrbSysGpsC_33(bitsToPnb(b, w, 3600))); }
    CommonTime ref = GPSWeekSecond(w, 61440., TS::GPS); CommonTime eod = base + 86400.;
    std::vector<double> off = {-1e6, -90000, -86400.5, -86400, -86399.5, -50000, -43200.5, -43200, -43199.5, -21600, -1000, 1000, 21600, 43199.5, 43200, 43200.5, 80000, 86400, 90000, 1e6}; for (double x = -5; x < 60; x += 0.5) off.push_back(x);
    for (double x : off) { CommonTime t = eod + x; double got = kind ? cc->getUtcOffset(t) : l->getUtcOffset(t); c.eval(); double dU = A0 + A1 * (t - ref); double lo = std::min(LS, LSF), hi = std::max(LS, LSF);
      bool before = x < lo - 1.01, after = x > hi + 1.01; double wB = LS + dU, wA = LSF + dU; bool okB = std::fabs(got - wB) < 1e-8, okA = std::fabs(got - wA) < 1e-8;
      MC_CK(c, before ? okB : after ? okA : (okB || okA), kind ? "effectivity-C33" : "effectivity-L56", "DN " << DN << " dtLS " << LS << " dtLSF " << LSF << " week " << w << " at end of day + " << x << " got " << got);
      double md = kind ? cc->getUtcOffsetModLeapSec(t) : l->getUtcOffsetModLeapSec(t); MC_CK(c, std::fabs(md - dU) < 1e-15, "mod-leap", md << " " << dU); c.outcome(hdbl(got)); }
    TimeSystemCorrection tsc = kind ? cc->getTSC() : l->getTSC(); MC_CK(c, tsc.type == TimeSystemCorrection::GPUT && tsc.A0 == A0 && tsc.A1 == A1 && tsc.refWeek == w && tsc.refSOW == 61440, "getTSC", tsc.A0 << " " << tsc.refWeek << " " << tsc.refSOW);
  });
  // L_56: 8-bit weeks resolved to the full week nearest transmission
  h.part("leap-weeks", 8192 / 32, [&](Ctx& c, u64 i) {
    for (long w = i * 32; w < (long)i * 32 + 32; w++) { if (w < 200) continue; for (int d = -127; d <= 127; d += h.thorough ? 1 : 14) {
      std::vector<int> b(300, 0); setb(b, 49, 3, 4); setb(b, 62, 6, 56); setb(b, 218, 8, 15); setb(b, 226, 8, (w + d) & 255); setb(b, 248, 8, (w - d) & 255); setb(b, 256, 8, 7);
      OrbSysGpsL_56 l(bitsToPnb(b, w, 302400)); c.eval(2); GPSWeekSecond e(l.ctEpoch), f(l.ctLSF);
      MC_CK(c, e.week == w + d && e.sow == 61440, "tot-week", "tx week " << w << " diff " << d << " -> " << e.week);
      MC_CK(c, f.week == w - d && f.sow == 6 * 86400, "lsf-week", "tx week " << w << " diff " << -d << " -> " << f.week << " " << f.sow); } }
  });
  // EphTime: every day x source system x second of day
  const long E0 = mjdOf(1972, 1, 2), E1 = mjdOf(h.thorough ? 2100 : 2030, 1, 1);
  h.part("EphTime", (E1 - E0 + 63) / 64, [&](Ctx& c, u64 i) {
    static const double sods[] = {0, 40, 43199.75, 43200, 86399.5}; static const int sys[] = {0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11};
    for (long mjd = E0 + i * 64; mjd < E0 + (long)(i + 1) * 64 && mjd < E1; mjd++) for (double s : sods) for (int a : sys) {
      int y, m, d; ymd(mjd, y, m, d); CommonTime t = CivilTime(y, m, d, 0, 0, 0.).convertToCommonTime() + s; t.setTimeSystem(ALL[a]); c.eval();
      EphTime e(t); TS lab = (a == 10 || a == 11) ? ALL[a] : TS::UTC; double leap = getLeapSeconds(y, m, d);
      double want = mjd * 86400. + s + ((a == 0 || a == 1 || a == 8 || a >= 10) ? 0 : taiOf(a, leap) - leap), got = e.lMJD() * 86400. + e.secOfDay();
      MC_CK(c, CommonTime(e).getTimeSystem() == lab, "eph-label", NM[a] << " -> " << NM[(int)CommonTime(e).getTimeSystem()]);
      MC_CK(c, std::fabs(got - want) < 2e-5, "eph-value", NM[a] << " " << y << "-" << m << "-" << d << " " << s << " off by " << got - want);
      for (int b : {8, 10, 11}) { EphTime f(e); double w2 = got; TS ft = CommonTime(e).getTimeSystem(); int ff = (int)ft; f.convertSystemTo(ALL[b]); double g2 = f.lMJD() * 86400. + f.secOfDay(); int yy, mm, dd; ymd(e.lMJD(), yy, mm, dd); double lp = getLeapSeconds(yy, mm, dd);
        w2 += taiOf(ff, lp) - taiOf(b, lp); MC_CK(c, std::fabs(g2 - w2) < 2.1e-3 && CommonTime(f).getTimeSystem() == ALL[b] && f.secOfDay() >= 0 && f.secOfDay() < 86400, "eph-convert", NM[ff] << "->" << NM[b] << " " << yy << "-" << mm << "-" << dd << " sod " << e.secOfDay() << " off by " << g2 - w2);
        if (std::fabs(e.secOfDay() - 43200) < 43000) { f.convertSystemTo(ft); double g3 = f.lMJD() * 86400. + f.secOfDay(); MC_CK(c, std::fabs(g3 - got) < 1e-6, "eph-there-and-back", NM[ff] << NM[b] << " " << g3 - got); } }
      CommonTime back = e; CommonTime wt = CivilTime(1972, 1, 1, 0, 0, 0.).convertToCommonTime(); wt.setTimeSystem(lab); MC_CK(c, std::fabs((back - wt) - (got - 41317 * 86400.)) < 2e-6 && back.getTimeSystem() == lab, "eph-back", back - wt);
      if (mjd > 44244) { long L = e.lMJD(); int wk = (L - 44244) / 7; double sow = (L - 44244 - wk * 7) * 86400. + e.secOfDay(); std::string g = e.asGPSString(3); int gw; double gs; sscanf(g.c_str(), "%d %lf", &gw, &gs); MC_CK(c, gw == wk && std::fabs(gs - sow) < 6e-4, "eph-gps-string", g << " want " << wk << " " << sow); }
      int yw, mw, dw; ymd(e.lMJD(), yw, mw, dw); MC_CK(c, e.year() == yw, "eph-year", e.year());
      c.outcome(hdbl(got));
    }
  });
  return h.run(argc, argv);
}
