// C21 orbit and clock evaluation: every combination of an edge grid of broadcast elements, epochs and offsets through every evaluating class against an independent user algorithm
// MC-SAN: asan assert
// MC-RULE: positions follow the interface-specification user algorithm evaluated in extended precision ; velocities and drifts are its time derivatives ; GLONASS states follow the ICD differential equations in the rotating frame
// MC-ASSUME: eccentricity up to 0.3 ; records whose Toc and Toe lie in the same week and at most 16 s apart ; offsets up to half a week
#include <array>
#include <cmath>
#include <cstdarg>
#include <map>
#include <memory>
#include "mc.hpp"
#include "OrbitEph.hpp"
#include "GPSEphemeris.hpp"
#include "GalEphemeris.hpp"
#include "BDSEphemeris.hpp"
#include "QZSEphemeris.hpp"
#include "GloEphemeris.hpp"
#include "BrcKeplerOrbit.hpp"
#include "BrcClockCorrection.hpp"
#include "EngEphemeris.hpp"
#include "OrbElemRinex.hpp"
#include "AlmOrbit.hpp"
#include "Rinex3EphemerisStore.hpp"
#include "Rinex3NavData.hpp"
#include "RinexNavData.hpp"
#include "GPSWeekSecond.hpp"
#include "TimeString.hpp"
using namespace gpstk; using namespace mc; typedef std::string S; typedef long double ld; typedef std::array<ld, 3> V3;
static const ld PI_ = 3.14159265358979323846264338327950288L, FREL = -4.442807633e-10L;
struct Con { ld gm, we; };
static const Con CGPS = {3.986005e14L, 7.2921151467e-5L}, CGAL = {3.986004418e14L, 7.2921151467e-5L}, CBDS = {3.986004418e14L, 7.292115e-5L};
struct El { double e = 0, i0 = 0, M0 = 0, w = 0, O0 = 0, Od = 0, id = 0, dn = 0, dnd = 0, A = 2.656e7, Ad = 0, cuc = 0, cus = 0, crc = 0, crs = 0, cic = 0, cis = 0, sow = 0; int week = 2000; double a0 = 0, a1 = 0, a2 = 0, toc = 0; };
static ld kep(ld M, ld e) { ld E = M + e * sinl(M); for (int k = 0; k < 40; k++) { ld d = (M - E + e * sinl(E)) / (1 - e * cosl(E)); E += d; if (fabsl(d) < 1e-17L) break; } return E; }
static ld anom(const El& q, const Con& c, ld tk) { ld A = q.A, n = sqrtl(c.gm / (A * A * A)) + q.dn + 0.5L * q.dnd * tk; return kep(fmodl(q.M0 + n * tk, 2 * PI_), q.e); }
static V3 pos(const El& q, const Con& c, ld tk, bool geo) {
  ld E = anom(q, c, tk), e = q.e, Ak = q.A + (ld)q.Ad * tk, v = atan2l(sqrtl(1 - e * e) * sinl(E), cosl(E) - e), p = v + q.w, s2 = sinl(2 * p), c2 = cosl(2 * p); ld u = p + q.cus * s2 + q.cuc * c2, r = Ak * (1 - e * cosl(E)) + q.crs * s2 + q.crc * c2, i = q.i0 + q.id * tk + q.cis * s2 + q.cic * c2; ld O = q.O0 + (q.Od - (geo ? 0 : c.we)) * tk - c.we * q.sow; ld x = r * cosl(u), y = r * sinl(u); V3 g = {{x * cosl(O) - y * cosl(i) * sinl(O), x * sinl(O) + y * cosl(i) * cosl(O), y * sinl(i)}}; if (!geo) return g;
  ld f = -5 * PI_ / 180, z = c.we * tk; V3 h = {{g[0], cosl(f) * g[1] + sinl(f) * g[2], -sinl(f) * g[1] + cosl(f) * g[2]}}; return V3{{cosl(z) * h[0] + sinl(z) * h[1], -sinl(z) * h[0] + cosl(z) * h[1], h[2]}}; }
static V3 vel(const El& q, const Con& c, ld tk, bool geo) { V3 a = pos(q, c, tk - 2, geo), b = pos(q, c, tk - 1, geo), d = pos(q, c, tk + 1, geo), e = pos(q, c, tk + 2, geo), v; for (int k = 0; k < 3; k++) v[k] = (a[k] - 8 * b[k] + 8 * d[k] - e[k]) / 12; return v; }
static CommonTime tm(int w, double s, TimeSystem ts) { CommonTime t = GPSWeekSecond(w, 0.0).convertToCommonTime(); t.setTimeSystem(ts); t += s; return t; }
static void fillO(OrbitEph& o, const El& q, SatID id, TimeSystem ts) { o.dataLoadedFlag = true; o.satID = id; o.ctToe = tm(q.week, q.sow, ts); o.ctToc = tm(q.week, q.toc, ts); o.af0 = q.a0; o.af1 = q.a1; o.af2 = q.a2; o.M0 = q.M0; o.dn = q.dn; o.ecc = q.e; o.A = q.A; o.OMEGA0 = q.O0; o.i0 = q.i0; o.w = q.w; o.OMEGAdot = q.Od; o.idot = q.id; o.dndot = q.dnd; o.Adot = q.Ad; o.Cuc = q.cuc; o.Cus = q.cus; o.Crc = q.crc; o.Crs = q.crs; o.Cic = q.cic; o.Cis = q.cis; o.beginValid = o.ctToe - 7200; o.endValid = o.ctToe + 7200; }
struct OE : OrbElemRinex { void fill(const El& q, SatID id, TimeSystem ts) { dataLoadedFlag = true; satID = id; ctToe = tm(q.week, q.sow, ts); ctToc = tm(q.week, q.toc, ts); af0 = q.a0; af1 = q.a1; af2 = q.a2; M0 = q.M0; dn = q.dn; ecc = q.e; A = q.A; OMEGA0 = q.O0; i0 = q.i0; w = q.w; OMEGAdot = q.Od; idot = q.id; dndot = q.dnd; Adot = q.Ad; Cuc = q.cuc; Cus = q.cus; Crc = q.crc; Crs = q.crs; Cic = q.cic; Cis = q.cis; beginValid = ctToe - 7200; endValid = ctToe + 7200; } };
static S desc(const El& q, double t) { std::ostringstream o; o.precision(9); o << "e=" << q.e << " i0=" << q.i0 << " M0=" << q.M0 << " w=" << q.w << " O0=" << q.O0 << " Odot=" << q.Od << " idot=" << q.id << " dn=" << q.dn << " dndot=" << q.dnd << " A=" << q.A << " Adot=" << q.Ad << " C=" << q.cuc << "," << q.cus << "," << q.crc << "," << q.crs << "," << q.cic << "," << q.cis << " toe=" << q.week << "/" << q.sow << " toc=" << q.toc << " t=" << t; return o.str(); }
static void judge(Ctx& c, const char* who, const Xvt& x, const El& q, const Con& k, double dt, bool geo, bool relNoRate = false, double ptol = 1e-4, bool clock = true) {
  V3 p = pos(q, k, dt, geo), v = vel(q, k, dt, geo); double pe = 0, ve = 0; for (int j = 0; j < 3; j++) { pe = std::max(pe, (double)fabsl(x.x[j] - p[j])); ve = std::max(ve, (double)fabsl(x.v[j] - v[j])); } c.eval(4); c.states(1);
  MC_CK(c, pe < ptol, S(who) + ":position", who << " " << desc(q, dt) << " position off by " << pe << " m"); double vt = 2e-6 + ptol * 2e-3 + 0.8 * std::fabs(q.dnd * dt) * q.A * (1 + q.e) / (1 - q.e); MC_CK(c, ve < vt, S(who) + ":velocity", who << " " << desc(q, dt) << " velocity off by " << ve << " m/s");
  if (!clock) return; El r = q; if (relNoRate) r.dnd = 0; ld rel = FREL * q.e * sqrtl((ld)q.A + (relNoRate ? 0 : (ld)q.Ad * dt)) * sinl(anom(r, k, dt)); MC_CK(c, std::fabs(x.relcorr - (double)rel) < 1e-15 + 3e-7 * q.e * 2.3e-6, S(who) + ":relativity", who << " " << desc(q, dt) << " relativity " << x.relcorr << " want " << (double)rel);
  ld tc = dt + q.sow - q.toc, b = q.a0 + q.a1 * tc + q.a2 * tc * tc, d = q.a1 + 2 * q.a2 * tc; MC_CK(c, std::fabs(x.clkbias - (double)b) < 1e-17 + 1e-12 * std::fabs((double)b) + 2e-13 * std::fabs(q.a1), S(who) + ":clock-bias", who << " " << desc(q, dt) << " clock bias " << x.clkbias << " want " << (double)b); MC_CK(c, std::fabs(x.clkdrift - (double)d) < 1e-21 + 1e-12 * std::fabs((double)d), S(who) + ":clock-drift", who << " " << desc(q, dt) << " clock drift " << x.clkdrift << " want " << (double)d); }
static const double EC[6] = {0, 1e-8, 0.0049, 0.021, 0.1, 0.3}, IN[4] = {0.961, 1.13, 0.0071, 0.11}, MM[8] = {0, 1.1, -1.5, 3.1415, -3.1415, 2.4, 1e-9, -0.4}, WW[3] = {0.7, -2.9, 3.1}, OO[3] = {-3.0, 0.3, 2.2}, TOE[5] = {0, 7200, 302400, 597600, 604784}, DT[10] = {0, -7200, 7200, -3600.25, 1e-3, 30, 1800, -86400, 302400, -302400};
static void har(El& q, int h) { if (h == 1 || h == 7) q.cuc = -6.1e-6; if (h == 2 || h == 7) q.cus = 9.7e-6; if (h == 3 || h == 7) q.crc = 311.5; if (h == 4 || h == 7) q.crs = -98.25; if (h == 5 || h == 7) q.cic = 1.9e-7; if (h == 6 || h == 7) q.cis = -2.3e-7; }
static void rate(El& q, int r) { if (r == 1 || r == 6) q.Od = -8.2e-9; if (r == 2 || r == 6) q.id = 3.1e-10; if (r == 3 || r == 6) q.dn = 4.6e-9; if (r == 4 || r == 7) q.dnd = -7.1e-14; if (r == 5 || r == 7) q.Ad = 0.0121; }
static void clk(El& q, int k) { q.a0 = k % 3 ? -4.3e-4 : 0; q.a1 = k % 2 ? 3.1e-12 : 0; q.a2 = k % 5 ? 2e-17 : 0; q.toc = q.sow - (k % 4 == 1 ? 16 : 0); if (q.toc < 0) q.toc = q.sow; }
int main(int argc, char** argv) {
  Harness h("C21"); bool th = h.thorough;
  h.part("elements", 6 * 4 * 8 * 3 * 3 * 8, [&](Ctx& c, u64 i) { Mix m(i); El q; q.e = EC[m(6)]; int ii = m(4); q.i0 = IN[ii]; q.M0 = MM[m(8)]; q.w = WW[m(3)]; q.O0 = OO[m(3)]; int hh = m(8); har(q, hh); bool geoI = ii >= 2;
    for (int rr = 0; rr < 8; rr++) for (int tt = 0; tt < 5; tt++) { if (!th && (tt + rr + i) % 5) continue; El a = q; rate(a, rr); a.sow = TOE[tt]; a.week = tt == 2 ? 1024 : 2199; clk(a, i + rr + tt); int who = (i / 7 + rr + tt) % 6; if (geoI) who = who % 2 ? 3 : 4; a.A = who == 1 ? 2.96e7 : who >= 3 && who <= 4 && geoI ? 4.2164e7 : who == 2 ? 4.2163e7 : 2.656e7;
      for (int d = 0; d < 10; d++) { if (!th && d > 4 && (d + i) % 3) continue; double dt = DT[d]; const char* nm[6] = {"GPSEphemeris", "GalEphemeris", "QZSEphemeris", "BDSEphemeris", "BDSEphemeris-GEO", "OrbitEph"}; GPSEphemeris g; GalEphemeris e; QZSEphemeris z; BDSEphemeris b; OrbitEph o; OrbitEph* p = who == 0 ? &g : who == 1 ? &e : who == 2 ? (OrbitEph*)&z : who == 3 || who == 4 ? (OrbitEph*)&b : &o; SatelliteSystem sy = who == 1 ? SatelliteSystem::Galileo : who == 2 ? SatelliteSystem::QZSS : who == 3 || who == 4 ? SatelliteSystem::BeiDou : SatelliteSystem::GPS; TimeSystem ts = who == 1 ? TimeSystem::GAL : who == 2 ? TimeSystem::QZS : who == 3 || who == 4 ? TimeSystem::BDT : TimeSystem::GPS; const Con& k = who == 1 ? CGAL : who == 3 || who == 4 ? CBDS : CGPS; bool geo = geoI; El aa = a; if (geo) aa.Ad = 0, aa.dnd = 0;
        fillO(*p, aa, SatID(who == 2 ? 193 : who == 4 ? 3 : 11, sy), ts); CommonTime t = p->ctToe + dt; c.at(nm[who]); c.outcome(hmix(who, hmix(rr, d))); judge(c, nm[who], p->svXvt(t), aa, k, dt, geo); MC_CK(c, p->svClockBias(t) == p->svXvt(t).clkbias && p->svClockDrift(t) == p->svXvt(t).clkdrift && p->svRelativity(t) == p->svXvt(t).relcorr, S(nm[who]) + ":accessors", nm[who] << " " << desc(aa, dt));
        if (who == 3 || who == 4) { std::unique_ptr<OrbitEph> cl(p->clone()); Xvt x1 = cl->svXvt(t); judge(c, "BDSEphemeris-clone", x1, aa, k, dt, geo); }
        if (!geoI) { OE oe; oe.fill(a, SatID(11, sy), ts); c.at("OrbElem"); judge(c, "OrbElem", oe.svXvt(t), a, k, dt, false); MC_CK(c, std::fabs(oe.svClockBiasM(t) - 299792458.0 * oe.svClockBias(t)) < 1e-9, "OrbElem:bias-meters", desc(a, dt)); }
        if (!geoI && who == 0) { BrcKeplerOrbit br; br.loadData("G", ObsID(ObservationType::NavMsg, CarrierBand::L1, TrackingCode::CA), 11, g.ctToe - 7200, g.ctToe + 7200, g.ctToe, 1, rr % 2, a.cuc, a.cus, a.crc, a.crs, a.cic, a.cis, a.M0, a.dn, a.dnd, a.e, a.A, std::sqrt(a.A), a.Ad, a.O0, a.i0, a.w, a.Od, a.id); Xvt x = br.svXvt(t); BrcClockCorrection bc; bc.loadData("G", ObsID(ObservationType::NavMsg, CarrierBand::L1, TrackingCode::CA), 11, g.ctToc, 1, true, a.a0, a.a1, a.a2); x.clkbias = bc.svClockBias(t); x.clkdrift = bc.svClockDrift(t); judge(c, "BrcKeplerOrbit", x, a, k, dt, false, true); MC_CK(c, x.health == (rr % 2 ? Xvt::Healthy : Xvt::Unhealthy), "BrcKeplerOrbit:health", desc(a, dt)); MC_CK(c, std::fabs(bc.svClockBiasM(t) - 299792458.0 * bc.svClockBias(t)) < 1e-9, "BrcClockCorrection:bias-meters", desc(a, dt)); } } } }, 120);
  h.part("records", 5 * 4 * 8 * 5 * 4 * 3, [&](Ctx& c, u64 i) { Mix m(i); int sy = m(5); El q; q.e = EC[m(4)]; int mi = m(8); q.M0 = MM[mi]; int tt = m(5); int hh = m(4); har(q, hh == 3 ? 7 : hh * 2 + 1); int ck = m(3); bool geo = sy == 4; q.i0 = geo ? 0.09 : IN[mi % 2]; q.w = WW[mi % 3]; q.O0 = OO[hh % 3]; rate(q, 6); q.sow = TOE[tt]; q.week = 2199; q.A = sy == 1 ? 2.96e7 : sy == 2 || geo ? 4.2164e7 : 2.656e7; { double s = std::sqrt(q.A); q.A = s * s; } clk(q, ck == 0 ? 0 : ck == 1 ? 1 : 6);
    static const SatelliteSystem SY[5] = {SatelliteSystem::GPS, SatelliteSystem::Galileo, SatelliteSystem::QZSS, SatelliteSystem::BeiDou, SatelliteSystem::BeiDou}; static const TimeSystem TS[5] = {TimeSystem::GPS, TimeSystem::GAL, TimeSystem::QZS, TimeSystem::BDT, TimeSystem::BDT}; const Con& k = sy == 1 ? CGAL : sy >= 3 ? CBDS : CGPS; double ah = std::sqrt(q.A); CommonTime toe = tm(q.week, q.sow, TS[sy]), toc = tm(q.week, q.toc, TS[sy]); double xs = q.sow - 3600; int xw = q.week; if (xs < 0) xs += 604800, xw--; xs = xs - std::fmod(xs, 30.0);
    Rinex3NavData d; d.time = toc; d.Toc = q.toc; d.Toe = q.sow; d.sat = RinexSatID(sy == 2 ? 193 : sy == 4 ? 3 : 11, SY[sy]); if (sy == 2) d.sat = RinexSatID(1, SY[sy]); d.satSys = S(1, d.sat.systemChar()); d.PRNID = d.sat.id; d.weeknum = sy >= 3 ? xw - 1356 : xw; d.xmitTime = (long)xs; d.af0 = q.a0; d.af1 = q.a1; d.af2 = q.a2; d.M0 = q.M0; d.dn = q.dn; d.ecc = q.e; d.Ahalf = ah; d.OMEGA0 = q.O0; d.i0 = q.i0; d.w = q.w; d.OMEGAdot = q.Od; d.idot = q.id; d.Cuc = q.cuc; d.Cus = q.cus; d.Crc = q.crc; d.Crs = q.crs; d.Cic = q.cic; d.Cis = q.cis; d.fitint = 4.0; d.health = 0; d.IODC = 1.0; d.IODE = 1.0; d.accuracy = 2.0; d.Tgd = 0.0; d.Tgd2 = 0.0; d.codeflgs = d.L2Pdata = 0; d.IODnav = 7.0; d.datasources = 513;
    Rinex3EphemerisStore st; c.at("store"); bool ok = st.addEphemeris(d); MC_CK(c, ok, "store:add", "record refused " << desc(q, 0)); SatID id(sy == 2 ? 193 : d.PRNID, SY[sy]); static const double DD[5] = {0, -1800, 3599, 1, -3}; S ser = sy == 4 ? "store-GEO" : "store"; std::vector<double> dts(DD, DD + 5); st.SearchNear();
    for (double dt : dts) { if (sy >= 3 && dt < 0) continue; CommonTime t = toe + dt; Xvt x; S w; w = thrown([&] { x = st.getXvt(id, t); }); MC_CK(c, w == "", ser + ":lookup", "system " << sy << " " << desc(q, dt) << " " << w); if (w == "") judge(c, sy == 4 ? "store-GEO" : "store", x, q, k, dt, geo);
      if (sy == 0) { GPSEphemeris g(d); judge(c, "GPSEphemeris(Rinex3NavData)", g.svXvt(t), q, k, dt, false); OrbElemRinex r3(d); judge(c, "OrbElemRinex(Rinex3NavData)", r3.svXvt(t), q, k, dt, false); Rinex3NavData d3(g); OrbElemRinex r3g(d3); judge(c, "Rinex3NavData(GPSEphemeris)", r3g.svXvt(t), q, k, dt, false);
        RinexNavData r; r.time = toc; r.PRNID = 11; r.Toe = q.sow; r.toeWeek = q.week; r.setXmitTime(xw, (unsigned long)xs); r.af0 = q.a0; r.af1 = q.a1; r.af2 = q.a2; r.M0 = q.M0; r.dn = q.dn; r.ecc = q.e; r.Ahalf = ah; r.OMEGA0 = q.O0; r.i0 = q.i0; r.w = q.w; r.OMEGAdot = q.Od; r.idot = q.id; r.Cuc = q.cuc; r.Cus = q.cus; r.Crc = q.crc; r.Crs = q.crs; r.Cic = q.cic; r.Cis = q.cis; r.fitint = 4.0; r.health = 0; r.IODC = 1.0; r.IODE = 1.0; r.accuracy = 2.0; r.Tgd = 0.0; r.codeflgs = r.L2Pdata = 0; c.at("RinexNavData"); OrbElemRinex r2(r); judge(c, "OrbElemRinex(RinexNavData)", r2.svXvt(t), q, k, dt, false); Rinex3NavData r32(r); OrbElemRinex rr(r32); judge(c, "Rinex3NavData(RinexNavData)", rr.svXvt(t), q, k, dt, false); EngEphemeris er(r); judge(c, "EngEphemeris(RinexNavData)", er.svXvt(t), q, k, dt, false);
        unsigned short tlm[3] = {0x8b, 0x8b, 0x8b}; long how[3] = {(long)xs, (long)xs + 6, (long)xs + 12}; short as[3] = {0, 0, 0}; EngEphemeris ee; c.at("EngEphemeris"); ee.loadData("G", tlm, how, as, 1, 11, q.week, 0, 1, 0, 1, 0, 0, 0, q.toc, q.a2, q.a1, q.a0, 1, q.crs, q.dn, q.M0, q.cuc, q.e, q.cus, ah, q.sow, 0, q.cic, q.O0, q.cis, q.i0, q.crc, q.w, q.Od, q.id); judge(c, "EngEphemeris", ee.svXvt(t), q, k, dt, false); }
      if (sy == 1) { GalEphemeris g(d); judge(c, "GalEphemeris(Rinex3NavData)", g.svXvt(t), q, k, dt, false); } if (sy == 2) { QZSEphemeris g(d); judge(c, "QZSEphemeris(Rinex3NavData)", g.svXvt(t), q, k, dt, false); } if (sy >= 3) { BDSEphemeris g(d); judge(c, "BDSEphemeris(Rinex3NavData)", g.svXvt(t), q, k, dt, geo); } } }, 120);
  h.part("almanac", 6 * 4 * 8 * 3 * 3, [&](Ctx& c, u64 i) { Mix m(i); El q; q.e = EC[m(6)]; double off[4] = {0, 0.0188, -0.02, 0.3}; double of = off[m(4)]; q.i0 = 0.3 * (double)PI_ + of; q.M0 = MM[m(8)]; q.w = WW[m(3)]; q.O0 = OO[m(3)]; for (int tt = 0; tt < 5; tt++) for (int r = 0; r < 2; r++) { El a = q; a.Od = r ? -7.9e-9 : 0; double ah = 5153.5 + 0.25 * tt; a.A = ah * ah; a.sow = a.toc = (long)TOE[tt]; a.week = 2199; a.a0 = 1.2e-4 * r; a.a1 = -3.6e-12; AlmOrbit o(7, a.e, of, a.Od, ah, a.O0, a.w, a.M0, a.a0, a.a1, (long)a.sow, (long)a.sow - 3600, a.week, r ? 0 : 63); for (int d = 0; d < 10; d++) { CommonTime t = tm(a.week, a.sow, TimeSystem::GPS) + DT[d]; Xvt x = o.svXvt(t); judge(c, "AlmOrbit", x, a, CGPS, DT[d], false, false, 1e-4, false); ld b = a.a0 + (ld)a.a1 * DT[d]; MC_CK(c, std::fabs(x.clkbias - (double)b) < 1e-17 && x.clkdrift == a.a1, "AlmOrbit:clock", desc(a, DT[d]) << " bias " << x.clkbias << " drift " << x.clkdrift); MC_CK(c, x.health == (r ? Xvt::Healthy : Xvt::Unhealthy), "AlmOrbit:health", desc(a, DT[d])); } } });
  // GLONASS
  h.part("GLONASS", 6 * 5 * 4 * 3 * 4, [&](Ctx& c, u64 i) { Mix m(i); double inc = 1.13 + 0.02 * m(6), u = 1.2566 * m(5), om = 1.5708 * m(4) + 0.2; int ac = m(3), ep = m(4); ld mu = 398600.4418L, ae = 6378.136L, c20 = -1.08262575e-3L, we = 7.292115e-5L; ld r = 25508.2L, v = sqrtl(mu / r); V3 P = {{r * (cosl(u) * cosl(om) - sinl(u) * cosl(inc) * sinl(om)), r * (cosl(u) * sinl(om) + sinl(u) * cosl(inc) * cosl(om)), r * sinl(u) * sinl(inc)}}, V = {{v * (-sinl(u) * cosl(om) - cosl(u) * cosl(inc) * sinl(om)), v * (-sinl(u) * sinl(om) + cosl(u) * cosl(inc) * cosl(om)), v * cosl(u) * sinl(inc)}}; V[0] += we * P[1]; V[1] -= we * P[0];
    static const int YR[4][3] = {{2008, 1, 1}, {2015, 12, 31}, {2020, 2, 29}, {1999, 7, 4}}; CommonTime t0 = CivilTime(YR[ep][0], YR[ep][1], YR[ep][2], ep == 1 ? 23 : 0, ep == 0 ? 15 : 45, 0.0, TimeSystem::GLO).convertToCommonTime(); Triple tp((double)P[0], (double)P[1], (double)P[2]), tv((double)V[0], (double)V[1], (double)V[2]), ta(ac ? 2.8e-9 : 0, ac == 2 ? -1.9e-9 : 0, ac ? -9e-10 : 0); double tau = ac == 1 ? -7.1e-5 : 0, gam = ac == 2 ? 1.8e-12 : 0; double step = i % 3 == 0 ? 1 : i % 3 == 1 ? 60 : 7.3; GloEphemeris g; MC_CK(c, thrown([&] { g.svXvt(t0); }) == "InvalidRequest" && thrown([&] { g.svClockBias(t0); }) == "InvalidRequest" && thrown([&] { g.getEphemerisEpoch(); }) == "InvalidRequest", "GLONASS:empty", "empty record"); g.setRecord("R", 5, t0, tp, tv, ta, tau, gam, 0, 0, 3, 0, step); ld a[3] = {ta[0], ta[1], ta[2]};
    auto acc = [&](const V3& p, const V3& w) { ld rr = sqrtl(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]), k = mu / (rr * rr * rr), j = 1.5L * c20 * mu * ae * ae / powl(rr, 5), z2 = p[2] * p[2] / (rr * rr); return V3{{-k * p[0] + j * p[0] * (1 - 5 * z2) + we * we * p[0] + 2 * we * w[1] + a[0], -k * p[1] + j * p[1] * (1 - 5 * z2) + we * we * p[1] - 2 * we * w[0] + a[1], -k * p[2] + j * p[2] * (3 - 5 * z2) + a[2]}}; };
    static const double OF[9] = {0, 1e-4, 0.5, 60, 613.7, 899.999, -1, -450.25, -900}; for (int k = 0; k < 9; k++) { double dt = OF[k]; V3 p, w; for (int q = 0; q < 3; q++) p[q] = tp[q], w[q] = tv[q]; int n = std::max(1, (int)(std::fabs(dt) / 5)); ld H = (ld)dt / n; for (int s = 0; s < n; s++) { auto ax = [&](const V3& b, const V3& d, ld f) { V3 o; for (int q = 0; q < 3; q++) o[q] = b[q] + f * d[q]; return o; }; V3 k1 = acc(p, w), w2 = ax(w, k1, H / 2), k2 = acc(ax(p, w, H / 2), w2), w3 = ax(w, k2, H / 2), k3 = acc(ax(p, w2, H / 2), w3), w4 = ax(w, k3, H), k4 = acc(ax(p, w3, H), w4); for (int q = 0; q < 3; q++) { p[q] += H / 6 * (w[q] + 2 * w2[q] + 2 * w3[q] + w4[q]); w[q] += H / 6 * (k1[q] + 2 * k2[q] + 2 * k3[q] + k4[q]); } }
      CommonTime t = t0 + dt; Xvt x; S e = thrown([&] { x = g.svXvt(t); }); c.eval(3); c.states(1); c.trans(n); MC_CK(c, e == "", "GLONASS:in-fit", "offset " << dt << " " << e); if (e != "") continue; double pe = 0, ve = 0; for (int q = 0; q < 3; q++) { pe = std::max(pe, (double)fabsl(x.x[q] - p[q] * 1000)); ve = std::max(ve, (double)fabsl(x.v[q] - w[q] * 1000)); } MC_CK(c, pe < (step > 50 ? 6e-3 : 2e-3), "GLONASS:position", "case " << i << " offset " << dt << " step " << step << " off by " << pe << " m"); MC_CK(c, ve < 2e-5, "GLONASS:velocity", "case " << i << " offset " << dt << " step " << step << " off by " << ve << " m/s");
      ld rel = 0; for (int q = 0; q < 3; q++) rel -= 2 * (p[q] * 1000) * (w[q] * 1000) / 299792458.0L / 299792458.0L; MC_CK(c, std::fabs(x.relcorr - (double)rel) < 1e-13, "GLONASS:relativity", "offset " << dt << " relativity " << x.relcorr << " want " << (double)rel); MC_CK(c, std::fabs(x.clkbias + x.relcorr - tau - gam * dt) < 1e-17 && x.clkdrift == gam, "GLONASS:clock", "offset " << dt << " bias " << x.clkbias << " drift " << x.clkdrift); double b = g.svClockBias(t); MC_CK(c, std::fabs(b - x.clkbias) < 2e-9, "GLONASS:svClockBias", "offset " << dt << " svClockBias " << b << " svXvt " << x.clkbias); MC_CK(c, g.svClockDrift(t) == gam, "GLONASS:clock", "drift"); Xvt y = g.svXvtOverrideFit(t); MC_CK(c, y.x == x.x, "GLONASS:override", "offset " << dt); }
    MC_CK(c, thrown([&] { g.svXvt(t0 + 900); }) == "InvalidRequest" && thrown([&] { g.svXvt(t0 - 900.001); }) == "InvalidRequest" && thrown([&] { g.svXvtOverrideFit(t0 + 900); }) == "", "GLONASS:out-of-fit", "case " << i); }, 120);
  h.part("no data", 1, [&](Ctx& c, u64) { CommonTime t = tm(2000, 1, TimeSystem::GPS); GPSEphemeris g; GalEphemeris e; QZSEphemeris z; BDSEphemeris b; OrbitEph o; OrbitEph* P[5] = {&g, &e, &z, &b, &o}; for (auto p : P) { c.eval(4); MC_CK(c, thrown([&] { p->svXvt(t); }) == "InvalidRequest" && thrown([&] { p->svClockBias(t); }) == "InvalidRequest" && thrown([&] { p->svClockDrift(t); }) == "InvalidRequest" && thrown([&] { p->svRelativity(t); }) == "InvalidRequest", "empty:OrbitEph", p->getName()); } OE r; MC_CK(c, thrown([&] { r.svXvt(t); }) == "InvalidRequest" && thrown([&] { r.svClockBias(t); }) == "InvalidRequest" && thrown([&] { r.svRelativity(t); }) == "InvalidRequest", "empty:OrbElem", "OrbElemRinex"); });
  return h.run(argc, argv);
}
