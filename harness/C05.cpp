// MC-SAN: assert
// MC-ASSUME: a reference exactly half a week (or half a rollover) away may resolve to either side ; weeks whose intended value would be negative are outside the domain
#include <memory>
#include "mc.hpp"
#include "lnav.hpp"
#include "GPSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "QZSWeekSecond.hpp"
#include "IRNWeekSecond.hpp"
#include "GPSWeekZcount.hpp"
#include "CivilTime.hpp"
#include "EngEphemeris.hpp"
#include "BrcClockCorrection.hpp"
#include "BrcKeplerOrbit.hpp"
#include "AlmOrbit.hpp"
#include "RinexNavData.hpp"
#include "Rinex3NavData.hpp"
#include "GalEphemeris.hpp"
#include "BDSEphemeris.hpp"
#include "QZSEphemeris.hpp"
#include "GPSEphemeris.hpp"
using namespace gpstk; using namespace mc;
static const long WK = 604800, HALF = 302400;
static long jdn(long y, int m, int d) { // independent Gregorian day number (valid after 1582)
  long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3; return d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045; }
struct Sys { const char* n; int bits; long epochJdn; Week* (*mk)(); TimeSystem ts; };
template <class W> Week* mkw() { return new W(); }
static Sys sys[] = {
  {"GPS", 10, 0, mkw<GPSWeekSecond>, TimeSystem::GPS}, {"GAL", 12, 0, mkw<GALWeekSecond>, TimeSystem::GAL}, {"BDS", 13, 0, mkw<BDSWeekSecond>, TimeSystem::BDT},
  {"QZS", 16, 0, mkw<QZSWeekSecond>, TimeSystem::QZS}, {"IRN", 10, 0, mkw<IRNWeekSecond>, TimeSystem::IRN}};
static long JMAX = 3442448; // last representable day number
static double mjdsec(const CommonTime& t) { long d, s; double f; t.get(d, s, f); return (double)(d - 2444245) * 86400.0 + s + f; } // seconds from GPS epoch (day number of 1980-01-06 is 2444245)
static double abswk(long w, double s) { return w * 604800.0 + s; }

static const long EDGE[] = {0, 6, 12, 16, 24, 30, 3600, 6000, 7200, 7216, 14400, 86400, 288000, 295200, 302384, 302394, 302400, 302406, 302416, 309600, 400000, 518400, 590400, 597584, 597600, 601200, 604752, 604770, 604782, 604784, 604794};
static const int NE = sizeof(EDGE) / sizeof(*EDGE);
static long snap(long v, long k) { return v - v % k; }
// the week that puts second-of-week s within half a week of absolute time ref
static bool okWeek(double ref, double got) { return std::fabs(got - ref) <= HALF + 36; }  // within the 36 s a message spans, either side is right

template <class R> void zero(R& r) { r.af0 = 0.; r.af1 = 0.; r.af2 = 0.; r.Tgd = 0.; r.Crs = 0.; r.dn = 0.; r.M0 = 0.; r.Cuc = 0.; r.Cus = 0.; r.Cic = 0.; r.OMEGA0 = 0.; r.Cis = 0.; r.Crc = 0.; r.w = 0.; r.OMEGAdot = 0.; r.idot = 0.; }
int main(int argc, char** argv) {
  Harness h("C05");
  sys[0].epochJdn = jdn(1980, 1, 6); sys[1].epochJdn = jdn(1999, 8, 22); sys[2].epochJdn = jdn(2006, 1, 1); sys[3].epochJdn = jdn(1980, 1, 6); sys[4].epochJdn = jdn(1999, 8, 22);
  // A: every week of every system: split, recombine, truncated setters, limits
  h.part("split-recombine", 5 * 64, [&](Ctx& c, u64 i) {
    Mix m(i); Sys& s = sys[m(5)]; int blk = m(64); std::unique_ptr<Week> w(s.mk()), v(s.mk());
    int mx = (JMAX - s.epochJdn) / 7; unsigned ro = 1u << s.bits;
    c.at(std::string(s.n) + " weeks block " + std::to_string(blk));
    MC_CK(c, w->MAXWEEK() == mx, std::string("maxweek:") + s.n, s.n << " MAXWEEK " << w->MAXWEEK() << " want " << mx);
    int lo = (long)(mx + 1) * blk / 64, hi = (long)(mx + 1) * (blk + 1) / 64;
    for (int k = lo; k < hi; k++) {
      w->week = k; unsigned e, mw; w->getEpochModWeek(e, mw); c.eval(8); c.states(1);
      bool ok = e == k / ro && mw == k % ro && w->getEpoch() == e && w->getModWeek() == mw && (unsigned)w->getWeek() == (unsigned)k && w->isValid();
      MC_CK(c, ok, std::string("split:") + s.n, s.n << " week " << k << " -> epoch " << e << " mod " << mw << " valid " << w->isValid());
      v->week = (k * 7 + 13) % (mx + 1); v->setEpochModWeek(e, mw); MC_CK(c, v->week == k, std::string("recombine:") + s.n, s.n << " " << k << " got " << v->week);
      v->week = (k ^ 0x155) & 0x1ffff; v->setEpoch(e); v->setModWeek(mw); MC_CK(c, v->week == k, std::string("recombine2:") + s.n, s.n << " " << k << " got " << v->week);
      v->week = (k ^ 0x2aa) & 0x1ffff; v->setModWeek(mw); v->setEpoch(e); MC_CK(c, v->week == k, std::string("recombine3:") + s.n, s.n << " " << k << " got " << v->week);
      unsigned ow = (k * 31 + 5) % (mx + 1); v->week = ow; v->setModWeek(k); MC_CK(c, (unsigned)v->week == ow / ro * ro + k % ro, std::string("setModWeek:") + s.n, s.n << " mod of " << k << " into " << ow << " got " << v->week);
      v->week = ow; v->setEpoch(e); MC_CK(c, (unsigned)v->week == e * ro + ow % ro, std::string("setEpoch:") + s.n, s.n << " epoch " << e << " into " << ow << " got " << v->week);
      if (s.bits == 10 && s.ts == TimeSystem::GPS) {
        GPSWeekZcount z(k, 5); unsigned e2, w2; z.getEpochWeek10(e2, w2);
        MC_CK(c, e2 == (unsigned)k / 1024 && w2 == (unsigned)k % 1024 && z.getEpoch() == (unsigned)k / 1024 && z.getWeek10() == (unsigned)k % 1024, "zcount-split", "week " << k << " " << e2 << " " << w2);
        GPSWeekZcount y(ow, 7); y.setEpochWeek10(e2, w2); MC_CK(c, y.week == k, "zcount-recombine", k << " got " << y.week);
        y.week = ow; y.setWeek10(k); MC_CK(c, (unsigned)y.week == ow / 1024 * 1024 + k % 1024, "zcount-setweek10", k << " into " << ow << " got " << y.week);
        y.week = ow; y.setEpoch(e2); MC_CK(c, (unsigned)y.week == e2 * 1024 + ow % 1024, "zcount-setepoch", e2 << " into " << ow << " got " << y.week);
      }
      c.outcome(hmix(e, mw));
    }
    w->week = mx + 1; MC_CK(c, !w->isValid(), std::string("isValid-high:") + s.n, mx + 1); w->week = -1; MC_CK(c, !w->isValid(), std::string("isValid-neg:") + s.n, -1);
    // limits do not depend on which system's limit was asked first
    for (auto& q : sys) { std::unique_ptr<Week> x(q.mk()); int want = (JMAX - q.epochJdn) / 7; MC_CK(c, x->MAXWEEK() == want, std::string("maxweek:") + q.n, q.n << " MAXWEEK " << x->MAXWEEK() << " want " << want); }
  });
  // B: Z-count packing/arithmetic over week boundaries
  h.part("zcount", 8192, [&](Ctx& c, u64 i) {
    int k = i; const unsigned ZW = 403200; static const unsigned Z[] = {0, 1, 2, 57599, 57600, 201600, 403198, 403199};
    c.at("zcount week " + std::to_string(k));
    for (unsigned z : Z) {
      GPSWeekZcount a(k, z); c.eval(6); c.states(1);
      MC_CK(c, a.getZcount32() == ((unsigned)k << 19 | z), "z32", k << " " << z); MC_CK(c, a.getZcount29() == ((unsigned)(k % 1024) << 19 | z), "z29", k << " " << z);
      GPSWeekZcount b(k, 3); b.setZcount29(a.getZcount29()); MC_CK(c, b.week == k && b.zcount == (int)z, "set29", k << " " << z << " got " << b.week << " " << b.zcount);
      GPSWeekZcount d; d.setZcount32(a.getZcount32()); MC_CK(c, d.week == k && d.zcount == (int)z, "set32", k << " " << z << " got " << d.week << " " << d.zcount);
      MC_CK(c, a.getTotalZcounts() == (unsigned long)k * ZW + z, "total", k << " " << z);
      for (long dz : {0L, 1L, -1L, 57600L, -57600L, 403199L, -403199L, 403200L, -403200L, 403201L, -403201L, 806400L, -806401L}) {
        long t = (long)k * ZW + z + dz; GPSWeekZcount q(k, z); c.eval();
        if (t < 0) { MC_CK(c, thrown([&] { q.addZcounts(dz); }) == "InvalidRequest", "addz-neg", k << " " << z << " " << dz); MC_CK(c, q.week == k && q.zcount == (int)z, "addz-neg-unchanged", k << " " << z << " " << dz); }
        else { GPSWeekZcount o(k, z), p1 = o + dz, p2 = o - (-dz), p3 = o, p4 = o; p3 += dz; p4 -= -dz; if (dz == 1) { GPSWeekZcount u = o, v = o; MC_CK(c, u++ == o, "post-inc", k << " " << z); ++v; MC_CK(c, u == v && v == p1, "inc", k << " " << z); } if (dz == -1) { GPSWeekZcount u = o, v = o; MC_CK(c, u-- == o, "post-dec", k << " " << z); --v; MC_CK(c, u == v && v == p1, "dec", k << " " << z); }
          MC_CK(c, p1 == p2 && p1 == p3 && p1 == p4 && p1 - o == dz && o - p1 == -dz, "z-ops", k << " " << z << " " << dz);
          MC_CK(c, (o < p1) == (dz > 0) && (o > p1) == (dz < 0) && (o == p1) == (dz == 0) && (o != p1) == (dz != 0) && (o <= p1) == (dz >= 0) && (o >= p1) == (dz <= 0), "z-order", k << " " << z << " " << dz);
          q.addZcounts(dz); MC_CK(c, q.week == t / (long)ZW && q.zcount == t % (long)ZW, "addz", k << " " << z << " + " << dz << " got " << q.week << " " << q.zcount); }
      }
      for (int dw : {-1, 1, -5, 7}) { GPSWeekZcount q(k, z); if (k + dw >= 0) { q.addWeeks(dw); MC_CK(c, q.week == k + dw && q.zcount == (int)z, "addw", k << " " << dw); } else { MC_CK(c, thrown([&] { q.addWeeks(dw); }) == "InvalidRequest", "addw-neg", k << " " << dw); } }
      c.outcome(hmix(k, z));
    }
  });
  // C: adjustToYear: every truncated week x every year 1980..2300 on which a congruent week exists
  h.part("adjustToYear", 5 * 64, [&](Ctx& c, u64 i) {
    Mix m(i); Sys& s = sys[m(5)]; int blk = m(64); std::unique_ptr<Week> w(s.mk()); long ro = 1L << s.bits; 
    CivilTime ct; int y0 = s.epochJdn == jdn(1980, 1, 6) ? 1981 : s.epochJdn == jdn(1999, 8, 22) ? 2000 : 2007;
    for (int y = y0 + blk; y <= 2300; y += 64) {
      c.at(std::string(s.n) + " year " + std::to_string(y));
      long j1 = jdn(y, 1, 1), j2 = jdn(y, 12, 31), w1 = (j1 - s.epochJdn) / 7, w2 = (j2 - s.epochJdn) / 7;
      for (long mw = 0; mw < ro; mw++) {
        // full weeks congruent to mw that overlap the year
        long first = w1 + ((mw - w1) % ro + ro) % ro; bool in = first <= w2;
        for (long junk : {0L, 3L}) {
          w->week = junk * ro + mw; w->adjustToYear(y); c.eval(); c.states(1);
          MC_CK(c, ((w->week % ro) + ro) % ro == mw, std::string("adjust-congruent:") + s.n, s.n << " mod week " << mw << " year " << y << " -> " << w->week);
          if (in) MC_CK(c, w->week == first, std::string("adjust:") + s.n, s.n << " mod week " << mw << " year " << y << " -> " << w->week << " want " << first);
          // in any case the result is within one rollover of the year
          long dist = w->week < w1 ? w1 - w->week : w->week > w2 ? w->week - w2 : 0; MC_CK(c, dist < ro, std::string("adjust-far:") + s.n, s.n << " mod week " << mw << " year " << y << " -> " << w->week);
        }
        if (in) c.outcome(hmix(y, first));
      }
    }
  });
  // D: 8/10-bit week extension for every full reference week x every truncated week
  h.part("convertXBit", 8192, [&](Ctx& c, u64 i) {
    int full = i; c.at("reference week " + std::to_string(full));
    for (int t = 0; t < 2; t++) {
      int R = t ? 1024 : 256;
      for (int inc = 0; inc < R; inc++) {
        int got = EngNav::convertXBit(full, inc, t ? EngNav::BITS10 : EngNav::BITS8); c.eval(2); c.states(1);
        MC_CK(c, ((got - inc) % R) == 0 && std::abs(got - full) <= R / 2, t ? "xbit10" : "xbit8", "ref " << full << " trunc " << inc << " got " << got);
        double o = inc; bool ok = t ? EngNav::convert10bit(full, &o) : EngNav::convert8bit(full, &o);
        MC_CK(c, ok && (((int)o - inc) % R) == 0 && std::abs((int)o - full) <= R / 2, t ? "convert10bit" : "convert8bit", "ref " << full << " trunc " << inc << " got " << o);
      }
    }
    c.outcome(full % 1024);
  });
  // E: broadcast message: transmit time x toe x toc over week edges
  static const int WKS[] = {500, 1023, 1024, 1025, 2047, 2048, 2200};
  h.part("subframes", 7ull * NE * NE, [&](Ctx& c, u64 i) {
    Mix m(i); int wk = WKS[m(7)]; long tx = EDGE[m(NE)], toe = snap(EDGE[m(NE)], 16); tx = snap(tx, 6);
    for (int ti = 0; ti < NE; ti++) for (int dref = -2; dref <= 2; dref++) {
      long toc = snap(EDGE[ti], 16); long how1 = snap(tx, 30) + 6, how2 = how1 + 6, how3 = how1 + 12;   // TOW of following subframe; kept within the week
      if (how3 >= WK) continue;
      c.at("week " + std::to_string(wk) + " how1 " + std::to_string(how1) + " toe " + std::to_string(toe) + " toc " + std::to_string(toc) + " reference " + std::to_string(wk + dref));
      lnav::Brc b; b.week10 = wk % 1024; b.toe = toe; b.toc = toc; auto s1 = lnav::sf1(b, how1), s2 = lnav::sf2(b, how2), s3 = lnav::sf3(b, how3);
      long ref = wk + dref * 200;            // rough reference week: anything within +-511 weeks must resolve the same
      EngEphemeris e; e.addSubframe(s1.data(), ref, 5, 1); e.addSubframe(s2.data(), ref, 5, 1); bool ok = e.addSubframe(s3.data(), ref, 5, 1); c.eval(6); c.states(1);
      auto desc = [&] { std::ostringstream o; o << "week " << wk << " (ref " << ref << ") how1 " << how1 << " toe " << toe << " toc " << toc; return o.str(); };
      MC_CK(c, ok, "sf-add", desc());
      double gtoe = mjdsec(e.getEphemerisEpoch()), gtoc = mjdsec(e.getEpochTime());
      auto mod = [&](double a, double s) { return std::fabs(std::fmod(a, WK) - s) < 1e-6; };
      MC_CK(c, okWeek(abswk(wk, how2), gtoe) && mod(gtoe, toe), "eng-toe-week", desc() << " toe -> " << gtoe / WK);
      MC_CK(c, okWeek(abswk(wk, how2), gtoc) && mod(gtoc, toc), "eng-toc-week", desc() << " toc -> " << gtoc / WK);
      MC_CK(c, e.getFullWeek() == wk, "eng-fullweek", desc() << " got " << e.getFullWeek());
      double gx = mjdsec(e.getTransmitTime()); MC_CK(c, gx == abswk(wk, how1 - 6), "eng-xmit", desc() << " transmit -> " << gx);
      double bf = mjdsec(e.getOrbit().getBeginningOfFitInterval()), ef = mjdsec(e.getOrbit().getEndOfFitInterval());
      MC_CK(c, std::fabs(bf - (gtoe - 7200)) < 1e-6 && std::fabs(ef - (gtoe + 7200)) < 1e-6, "eng-fit", desc() << " toe " << gtoe << " fit " << bf << " .. " << ef);
      long l1[10], l2[10], l3[10]; for (int k = 0; k < 10; k++) l1[k] = s1[k], l2[k] = s2[k], l3[k] = s3[k];
      ObsID oid(ObservationType::NavMsg, CarrierBand::L1, TrackingCode::CA);
      BrcClockCorrection bc(oid, 5, ref, l1); double bt = mjdsec(bc.getEpochTime());
      MC_CK(c, okWeek(abswk(wk, how1), bt) && mod(bt, toc), "brc-toc-week", desc() << " toc -> " << bt / WK);
      BrcKeplerOrbit bo(oid, 5, ref, l1, l2, l3); double bot = mjdsec(bo.getOrbitEpoch());
      MC_CK(c, okWeek(abswk(wk, how2), bot) && mod(bot, toe), "brc-toe-week", desc() << " toe -> " << bot / WK);
      MC_CK(c, std::fabs(mjdsec(bo.getBeginningOfFitInterval()) - (bot - 7200)) < 1e-6 && std::fabs(mjdsec(bo.getEndOfFitInterval()) - (bot + 7200)) < 1e-6, "brc-fit", desc());
      // engineering-unit loader
      EngEphemeris g; bool threw = thrown([&] {
        g.setSF1(0, how1, 0, wk, 1, 2, 0, 0x55, 0, 0, toc, 0, 0, 0, 1, 5); g.setSF2(0, how2, 0, 0x55, 0, 0, 0, 0, .01, 0, 5153.7, toe, 0); g.setSF3(0, how3, 0, 0, 0, 0, 1, 0, 0, 0, 0); }) != "";
      MC_CK(c, !threw, "setsf-throws", desc());
      if (!threw) {
        double t2 = mjdsec(g.getEphemerisEpoch()), c2 = mjdsec(g.getEpochTime());
        MC_CK(c, okWeek(abswk(wk, how2), t2) && mod(t2, toe), "setsf-toe-week", desc() << " toe -> " << t2 / WK); MC_CK(c, okWeek(abswk(wk, how1), c2) && mod(c2, toc), "setsf-toc-week", desc() << " toc -> " << c2 / WK);
        double b2 = mjdsec(g.getOrbit().getBeginningOfFitInterval()), e2 = mjdsec(g.getOrbit().getEndOfFitInterval());
        if (std::labs(std::labs(toe - how2) - HALF) > 36) MC_CK(c, std::fabs(b2 - (t2 - 7200)) < 1e-6 && std::fabs(e2 - (t2 + 7200)) < 1e-6, "setsf-fit", desc() << " toe " << t2 << " fit " << b2 << " .. " << e2);
      }
      c.outcome(hmix(gtoe / WK, gtoc));
    }
  });
  // F: NMCT validity (subframe 2)
  h.part("nmct", 7ull * NE * NE, [&](Ctx& c, u64 i) {
    Mix m(i); int wk = WKS[m(7)]; long how = snap(EDGE[m(NE)], 6), toe = snap(EDGE[m(NE)], 16);
    for (int aodo = 0; aodo < 32; aodo++) {
      lnav::Brc b; b.toe = toe; b.aodo = aodo; auto s = lnav::sf2(b, how); uint32_t a; CommonTime tn, te, to; c.at("nmct"); c.eval(); c.states(1);
      bool v = EngNav::getNMCTValidity(s.data(), wk, a, tn, te, to);
      double want = abswk(wk, how - 6), gto = mjdsec(to), gte = mjdsec(te), gtn = mjdsec(tn); auto desc = [&] { std::ostringstream o; o << "week " << wk << " how " << how << " toe " << toe << " aodo " << aodo << " got tot " << gto << " toe " << gte << " tnmct " << gtn; return o.str(); };
      MC_CK(c, gto == want, "nmct-tot", desc()); MC_CK(c, okWeek(want, gte) && std::fmod(gte, WK) == toe, "nmct-toe-week", desc());
      double off = toe % 7200, tnw = (off == 0 ? gte : gte - off + 7200) - aodo * 900.0; MC_CK(c, gtn == tnw, "nmct-tnmct", desc()); MC_CK(c, v == (aodo != 31) && a == (uint32_t)aodo * 900, "nmct-flag", desc());
      c.outcome(hmix(gte, gtn));
    }
  });
  // G: almanac transmit week, RINEX 2/3 navigation weeks
  h.part("alm", 7ull * NE * NE, [&](Ctx& c, u64 i) {
    Mix m(i); int wk = WKS[m(7)]; long toa = EDGE[m(NE)], tx = EDGE[m(NE)]; AlmOrbit a(5, 0, 0, 0, 5153, 0, 0, 0, 0, 0, toa, tx, wk, 0); c.at("alm"); c.eval(2); c.states(1);
    double A = mjdsec(a.getToaTime()), X = mjdsec(a.getTransmitTime());
    MC_CK(c, A == abswk(wk, toa), "alm-toa", wk << " " << toa); MC_CK(c, okWeek(A, X) && std::fmod(X, WK) == tx, "alm-xmit-week", "toa " << wk << ":" << toa << " xmit sow " << tx << " -> " << X / WK);
    MC_CK(c, a.getFullWeek() == (long)(X / WK), "alm-fullweek", wk); c.outcome(hmix(A, X));
  });
  h.part("rinex2", 7ull * NE * NE, [&](Ctx& c, u64 i) {
    Mix m(i); int wk = WKS[m(7)]; long toe = EDGE[m(NE)], tx = EDGE[m(NE)]; c.at("rinex2 week " + std::to_string(wk) + " toe " + std::to_string(toe) + " xmit " + std::to_string(tx));
    RinexNavData r; r.PRNID = 7; r.Toe = toe; r.IODC = 0x55; r.IODE = 0x55; r.fitint = 4; r.Ahalf = 5153.7; r.ecc = .01; r.i0 = 1; r.accuracy = 2.4; r.health = 0; r.codeflgs = 1; r.L2Pdata = 0; zero(r);
    r.setXmitTime(wk, tx); long x30 = tx / 30 * 30; c.eval(3); c.states(1);
    auto desc = [&] { std::ostringstream o; o << "transmit " << wk << ":" << tx << " toe sow " << toe << " -> toeWeek " << r.toeWeek << " sf1XmitTime " << r.sf1XmitTime; return o.str(); };
    double T = abswk(r.toeWeek, toe); MC_CK(c, okWeek(abswk(wk, x30), T), "rnx2-toe-week", desc());
    GPSWeekSecond x = r.getXmitWS(); MC_CK(c, x.week == wk && x.sow == x30, "rnx2-xmit", desc() << " getXmitWS " << x.week << ":" << x.sow);
    CommonTime tt = r.getToeTime(); r.time = tt;
    if (x.week == wk && x.sow == x30) {
      bool tie = std::labs(std::labs(toe - x30) - HALF) <= 36; EngEphemeris e; std::string th = thrown([&] { e = (EngEphemeris)r; }); MC_CK(c, th == "", "rnx2-eng-throws", desc() << th);
      if (th == "" && !tie) { double et = mjdsec(e.getEphemerisEpoch()); MC_CK(c, et == T, "rnx2-eng-toe", desc() << " EngEphemeris toe " << et / WK << " want " << T / WK); double ec = mjdsec(e.getEpochTime()); MC_CK(c, ec == T, "rnx2-eng-toc", desc() << " toc " << ec / WK); }
      GPSEphemeris g = (GPSEphemeris)r; MC_CK(c, mjdsec(g.transmitTime) == abswk(wk, x30), "rnx2-gps-xmit", desc());
      Rinex3NavData r3(r); MC_CK(c, r3.weeknum == wk && r3.xmitTime == x30, "rnx2to3", desc() << " " << r3.weeknum << ":" << r3.xmitTime);
      // ambiguous: transmit time given only as second of week
      RinexNavData q(r); q.setXmitTime(tx); GPSWeekSecond y = q.getXmitWS(); MC_CK(c, okWeek(T, abswk(y.week, y.sow)) && y.sow == x30, "rnx2-xmit-sow-only", desc() << " -> " << y.week << ":" << y.sow);
    }
    c.outcome(hmix(T, x.sow));
  });
  static const int WK3[] = {700, 1500, 2200};
  h.part("rinex3", 3ull * NE * NE * 4, [&](Ctx& c, u64 i) {
    Mix m(i); int wk = WK3[m(3)]; long toe = EDGE[m(NE)], tx = EDGE[m(NE)]; int sy = m(4); const char* S = "GECJ"; if (tx + 18 >= WK || (sy == 1 && wk < 1100)) return;
    double x = abswk(wk, tx); long tw = wk; if (toe - tx > HALF) tw--; else if (toe - tx < -HALF) tw++; double T = abswk(tw, toe);
    if (std::labs(std::labs(toe - tx) - HALF) <= 36) return;
    c.at(std::string(1, S[sy]) + " week " + std::to_string(wk) + " toe " + std::to_string(toe) + " xmit " + std::to_string(tx));
    Rinex3NavData r; r.satSys = std::string(1, S[sy]); r.PRNID = 7; r.Toc = toe; r.Toe = toe; r.xmitTime = tx; r.weeknum = wk; r.fitint = 4; r.IODC = r.IODE = 0x55; r.Ahalf = 5153.7; r.ecc = .01; r.i0 = 1; r.accuracy = 2.4; r.health = 0; r.codeflgs = 1; r.L2Pdata = 0;
    zero(r); r.IODnav = 5; r.datasources = 513;
    auto desc = [&] { std::ostringstream o; o << S[sy] << " transmit " << wk << ":" << tx << " epoch " << tw << ":" << toe; return o.str(); }; c.eval(4); c.states(1);
    auto chk = [&](const OrbitEph& e, const CommonTime& xt, double off, double xwant) {
      double a = mjdsec(e.ctToe) - off, b = mjdsec(e.ctToc) - off, z = mjdsec(xt) - off;
      MC_CK(c, e.dataLoadedFlag, "rnx3-loaded", desc()); MC_CK(c, a == T, "rnx3-toe-week", desc() << " toe " << a / WK); MC_CK(c, b == T, "rnx3-toc-week", desc() << " toc " << b / WK); MC_CK(c, z == xwant, "rnx3-xmit-week", desc() << " transmit " << z / WK << " want " << xwant / WK); };
    if (sy == 0) { r.time = GPSWeekSecond(tw, toe, TimeSystem::GPS); GPSEphemeris e = r; double z = mjdsec(e.transmitTime);
      double want = toe % 3600 == 0 ? T - 7200 : x; chk(e, e.transmitTime, 0, want); (void)z;
      EngEphemeris g; std::string th = thrown([&] { g = (EngEphemeris)r; }); MC_CK(c, th == "", "rnx3-eng-throws", desc() << " " << th); if (th == "") { double a = mjdsec(g.getEphemerisEpoch()), b = mjdsec(g.getEpochTime()); MC_CK(c, a == T && b == T, "rnx3-eng", desc() << " toe " << a / WK << " toc " << b / WK);
        double b2 = mjdsec(g.getOrbit().getBeginningOfFitInterval()), e2 = mjdsec(g.getOrbit().getEndOfFitInterval()); MC_CK(c, std::fabs(b2 - (a - 7200)) < 1e-6 && std::fabs(e2 - (a + 7200)) < 1e-6, "rnx3-eng-fit", desc() << " fit " << (b2 - a) << " .. " << (e2 - a)); } }
    if (sy == 1) { r.time = GPSWeekSecond(tw, toe, TimeSystem::GPS); r.time.setTimeSystem(TimeSystem::GAL); GalEphemeris e = r; chk(e, e.transmitTime, 0, x); }
    if (sy == 2) { r.time = BDSWeekSecond(tw, toe, TimeSystem::BDT); BDSEphemeris e = r; chk(e, e.transmitTime, (double)(sys[2].epochJdn - sys[0].epochJdn) * 86400, x); }
    if (sy == 3) { r.time = GPSWeekSecond(tw, toe, TimeSystem::GPS); r.time.setTimeSystem(TimeSystem::QZS); QZSEphemeris e = r; chk(e, e.transmitTime, 0, x); }
    c.outcome(hmix(hmix(tw, toe), tx));
  });
  return h.run(argc, argv);
}
