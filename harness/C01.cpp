// MC-SAN: assert
// MC-RULE: every representable day x second-of-day/fraction edges through every format; a case is a block of days; distinct = distinct civil dates / field tuples seen
#include "mc.hpp"
#include "CommonTime.hpp"
#include "CivilTime.hpp"
#include "YDSTime.hpp"
#include "JulianDate.hpp"
#include "MJD.hpp"
#include "UnixTime.hpp"
#include "PosixTime.hpp"
#include "ANSITime.hpp"
#include "GPSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "QZSWeekSecond.hpp"
#include "IRNWeekSecond.hpp"
#include "GPSWeekZcount.hpp"
#include "TimeConverters.hpp"
#include "Epoch.hpp"
#include <memory>
using namespace gpstk; using namespace mc;
static const long LAST = 3442448;
struct D { int y, m, d, doy; };
static std::vector<D> cal;
static bool leap(int y, bool greg) { int a = y < 0 ? y + 1 : y; if (!greg) return ((a % 4) + 4) % 4 == 0; return a % 4 == 0 && (a % 100 != 0 || a % 400 == 0); }
static int mlen(int y, int m, bool greg) { static const int L[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y, greg) ? 29 : L[m - 1]; }
static void buildCal() {   // day-by-day walk of the calendar, independent of any formula
  D x{-4713, 1, 1, 1};     // wait for the first day: day number 0 is noon-based JD 0 = 4713-01-01 BC (Julian)
  for (long n = 0; n <= LAST + 400; n++) {
    cal.push_back(x);
    bool greg = n >= 2299161;
    if (x.y == 1582 && x.m == 10 && x.d == 4) { x.d = 15; x.doy++; continue; }
    x.d++; x.doy++;
    if (x.d > mlen(x.y, x.m, greg || x.y > 1582)) { x.d = 1; x.m++; if (x.m > 12) { x.m = 1; x.y++; x.doy = 1; if (x.y == 0) x.y = 1; } }
  }
}
static CommonTime CT(long d, long s, double f, TimeSystem ts = TimeSystem::GPS) { CommonTime t; t.set(d, s, f, ts); return t; }
struct SF { long s; double f; };
struct Lazy { long day, s; double f; const char* x;
  operator std::string() const { std::ostringstream o; o << std::setprecision(15); if (x) o << x << " "; o << "day " << day << " (" << cal[day].y << "/" << cal[day].m << "/" << cal[day].d << ") sod " << s << "+" << f; return o.str(); } };
static std::ostream& operator<<(std::ostream& o, const Lazy& l) { return o << (std::string)l; }
static std::string operator+(const Lazy& l, const std::string& b) { return (std::string)l + b; }
static std::string operator+(const Lazy& l, const char* b) { return (std::string)l + b; }
static std::vector<SF> edges;

template <class T> static bool back(Ctx& c, const T& t, const CommonTime& ct, double tol, const char* name, const Lazy& w) {
  CommonTime r = t.convertToCommonTime();
  c.eval();
  if (!(std::fabs(r - ct) <= tol)) { std::ostringstream o; o << std::setprecision(17) << w << " came back " << r << " (want " << ct << ")"; c.fail(std::string("roundtrip:") + name, o.str()); return false; }
  if (r.getTimeSystem() != ct.getTimeSystem()) c.fail(std::string("timesystem:") + name, w);
  CommonTime r2 = t; if (!(r2 == r)) c.fail(std::string("castop:") + name, w);
  if (!t.isValid()) c.fail(std::string("isValid:") + name, w);
  return true;
}
template <class W> static void week(Ctx& c, long day, long s, double f, const CommonTime& ct, long mjd0, const char* name, const Lazy& w, bool tr) {
  long d = day - 2400001 - mjd0;
  if (d < 0 && !tr) return;
  W x;
  std::string e = thrown([&] { x.convertFromCommonTime(ct); });
  if (d < 0) { if (e.empty()) c.fail(std::string("before-epoch:") + name, w); return; }
  if (!e.empty()) { c.fail(std::string("range:") + name, w + " threw " + e); return; }
  if ((long)x.week != d / 7 || std::fabs(x.sow - ((d % 7) * 86400.0 + s + f)) > 1e-9) { std::ostringstream o; o << w << " -> week " << x.week << " sow " << x.sow; c.fail(std::string("fields:") + name, o.str()); }
  if (x.getDayOfWeek() != (unsigned)(d % 7)) c.fail(std::string("dow:") + name, w);
  back(c, x, ct, 1e-9, name, w);
}

static void instant(Ctx& c, long day, long s, double f) {
  const D& r = cal[day]; CommonTime ct = CT(day, s, f);
  Lazy w{day, s, f, 0};
  // formats with an epoch refuse earlier instants; away from the epochs this is checked on every 64th day only (throwing is slow)
  bool tryRefuse = day % 64 == 0 || std::labs(day - 2444245) < 400 || std::labs(day - 2451413) < 400 || std::labs(day - 2453737) < 400 || std::labs(day - 2440588) < 400 || std::labs(day - 2465443) < 400;
  long H = s / 3600, M = s % 3600 / 60; double S = s % 60 + f;
  CivilTime cv(ct);
  if (cv.year != r.y || cv.month != r.m || cv.day != r.d || cv.hour != H || cv.minute != M || std::fabs(cv.second - S) > 1e-12) {
    std::ostringstream q; q << w << " -> " << cv.year << "/" << cv.month << "/" << cv.day << " " << cv.hour << ":" << cv.minute << ":" << cv.second; c.fail("fields:CivilTime", q.str()); }
  back(c, cv, ct, 3e-11, "CivilTime", w);
  YDSTime yd(ct);
  int wantdoy = r.doy;
  if (yd.year != r.y || yd.doy != wantdoy || std::fabs(yd.sod - (s + f)) > 3e-11) { std::ostringstream q; q << w << " -> " << yd.year << " " << yd.doy << " " << yd.sod << " want doy " << wantdoy; c.fail("fields:YDSTime", q.str()); }
  back(c, yd, ct, 3e-11, "YDSTime", w);
  JulianDate jd(ct); long double ej = (long double)day - 0.5L + ((long double)s + f) / 86400.0L;
  if (fabsl(jd.jd - ej) > 1e-12L) c.fail("fields:JulianDate", w);
  if (day > 0 || s >= 0) { CommonTime b = jd.convertToCommonTime(); c.eval(); if (std::fabs(b - ct) > 1e-7 || b.getTimeSystem() != ct.getTimeSystem()) c.fail("roundtrip:JulianDate", w); }
  MJD mj(ct); long double em = (long double)(day - 2400001) + ((long double)s + f) / 86400.0L;
  if (fabsl(mj.mjd - em) > 1e-12L) c.fail("fields:MJD", w);
  { CommonTime b = mj.convertToCommonTime(); c.eval(); if (std::fabs(b - ct) > 1e-7 || b.getTimeSystem() != ct.getTimeSystem()) c.fail("roundtrip:MJD", w); }
  if (fabsl((jd.jd - 2400000.5L) - mj.mjd) > 1e-9L) c.fail("agree:JD-MJD", w);
  // second counts since 1970
  long us = (day - 2440588) * 86400 + s;
  {
    UnixTime u; std::string e = thrown([&] { u.convertFromCommonTime(ct); });
    bool in = us >= 0 && us < 2147483647L;
    if (!e.empty()) { if (in) c.fail("range:UnixTime", w); }
    else {
      long long us6 = (long long)u.tv.tv_sec * 1000000 + u.tv.tv_usec; long double want = (long double)us * 1e6L + f * 1e6L;
      if (fabsl(us6 - want) > 0.5001L || u.tv.tv_usec < 0 || u.tv.tv_usec > 999999) c.fail("fields:UnixTime", w);
      if (in) back(c, u, ct, 0.51e-6, "UnixTime", w);
      else if (tryRefuse) { std::string e2 = thrown([&] { CommonTime b = u.convertToCommonTime(); if (std::fabs(b - ct) > 0.51e-6) c.fail("roundtrip:UnixTime", w); }); }
    }
    if (tryRefuse || in) {
    PosixTime p; e = thrown([&] { p.convertFromCommonTime(ct); });
    if (!e.empty()) { if (in) c.fail("range:PosixTime", w); if (e != "InvalidRequest") c.fail("exc:PosixTime", e); }
    else if (us < 0) c.fail("range:PosixTime-before-epoch", w);
    else {
      long double want = (long double)us + f, got = (long double)p.ts.tv_sec + p.ts.tv_nsec * 1e-9L;
      if (fabsl(got - want) > 0.6e-9L || p.ts.tv_nsec < 0 || p.ts.tv_nsec > 999999999) c.fail("fields:PosixTime", w);
      if (in) back(c, p, ct, 0.6e-9, "PosixTime", w);
    }
    ANSITime a; e = thrown([&] { a.convertFromCommonTime(ct); });
    if (!e.empty()) { if (in) c.fail("range:ANSITime", w); if (e != "InvalidRequest") c.fail("exc:ANSITime", e); }
    else if (us < 0) c.fail("range:ANSITime-before-epoch", w);
    else { if (a.time != us) c.fail("fields:ANSITime", w); if (in) back(c, a, CT(day, s, 0), 0, "ANSITime", w); }
    }
  }
  week<GPSWeekSecond>(c, day, s, f, ct, 44244, "GPSWeekSecond", w, tryRefuse);
  week<GALWeekSecond>(c, day, s, f, ct, 51412, "GALWeekSecond", w, tryRefuse);
  week<BDSWeekSecond>(c, day, s, f, ct, 53736, "BDSWeekSecond", w, tryRefuse);
  week<QZSWeekSecond>(c, day, s, f, ct, 44244, "QZSWeekSecond", w, tryRefuse);
  week<IRNWeekSecond>(c, day, s, f, ct, 51412, "IRNWeekSecond", w, tryRefuse);
  {
    GPSWeekZcount z; long d = day - 2444245; std::string e; if (d >= 0 || tryRefuse) e = thrown([&] { z.convertFromCommonTime(ct); });
    if (d < 0 && !tryRefuse) ; else if (d < 0) { if (e.empty()) c.fail("before-epoch:GPSWeekZcount", w); }
    else if (!e.empty()) c.fail("range:GPSWeekZcount", w);
    else {
      double t = (d % 7) * 86400.0 + s + f; long zc = (long)std::floor(t / 1.5);
      if (z.week != d / 7 || z.zcount != zc) { if (std::fabs(t / 1.5 - std::round(t / 1.5)) > 1e-9) { std::ostringstream q; q << w << " -> " << z.week << " " << z.zcount; c.fail("fields:GPSWeekZcount", q.str()); } }
      if (z.getTotalZcounts() != (unsigned long)(z.week * 403200L + z.zcount)) c.fail("total:GPSWeekZcount", w);
      CommonTime b = z.convertToCommonTime(); double df = ct - b; c.eval();
      if (!(df > -1e-9 && df < 1.5 + 1e-9)) c.fail("roundtrip:GPSWeekZcount", w);
      if (z.getDayOfWeek() != (unsigned)(d % 7)) c.fail("dow:GPSWeekZcount", w);
      if (!z.isValid()) c.fail("isValid:GPSWeekZcount", w);
    }
  }
  c.outcome(hmix(hmix(r.y + 10000, r.m * 40 + r.d), hmix(s, hdbl(f))));
}
// order: formats of an earlier instant compare below those of a later one
template <class T> static void ord(Ctx& c, const CommonTime& a, const CommonTime& b, const char* n, const Lazy& w, bool strict) {
  T x, y; if (!thrown([&] { x.convertFromCommonTime(a); y.convertFromCommonTime(b); }).empty()) return;
  c.eval();
  bool lt = x < y, eq = x == y;
  if (strict ? (!lt || eq || x > y || x >= y || !(x <= y) || !(x != y) || y < x || !(y > x) || !(y >= x) || y <= x) : (y < x || (!lt && !eq) || !(x <= y) || !(y >= x))) c.fail(std::string("order:") + n, w);
  if (!(x == x) || x != x || x < x || x > x || !(x <= x) || !(x >= x)) c.fail(std::string("order-self:") + n, w);
}
static void orders(Ctx& c, const CommonTime& a, const CommonTime& b, const Lazy& w, bool whole) {
  long d0 = w.day;
  ord<CivilTime>(c, a, b, "CivilTime", w, true); ord<YDSTime>(c, a, b, "YDSTime", w, true);
  ord<JulianDate>(c, a, b, "JulianDate", w, std::fabs(b - a) > 1e-6); ord<MJD>(c, a, b, "MJD", w, std::fabs(b - a) > 1e-6);
  if (d0 < 2440588) return;
  ord<UnixTime>(c, a, b, "UnixTime", w, std::fabs(b - a) > 1e-5); if (d0 < 2465443) ord<PosixTime>(c, a, b, "PosixTime", w, std::fabs(b - a) > 1e-8);
  if (d0 < 2465443) ord<ANSITime>(c, a, b, "ANSITime", w, whole); if (d0 < 2444245) return; ord<GPSWeekSecond>(c, a, b, "GPSWeekSecond", w, true);
  if (d0 >= 2451413) ord<GALWeekSecond>(c, a, b, "GALWeekSecond", w, true); if (d0 >= 2453737) ord<BDSWeekSecond>(c, a, b, "BDSWeekSecond", w, true);
  ord<QZSWeekSecond>(c, a, b, "QZSWeekSecond", w, true); if (d0 >= 2451413) ord<IRNWeekSecond>(c, a, b, "IRNWeekSecond", w, true);
  ord<GPSWeekZcount>(c, a, b, "GPSWeekZcount", w, whole && std::fabs(b - a) > 1.6);
}
static int dpy(int y) { int n = 0; if (y == 1582) return 355; for (int m = 1; m <= 12; m++) n += mlen(y, m, y > 1582); return n; }

int main(int argc, char** argv) {
  Harness h("C01"); buildCal();
  edges = {{0, 0}, {1, 0.5}, {43199, 0.999999}, {86399, 0}, {86399, 0.9999999}};
  if (h.thorough) edges = {{0, 0}, {0, 1e-9}, {1, 0.5}, {59, 0.999}, {60, 0}, {3599, 0.9995}, {43199, 0.999999}, {43200, 0}, {46800, 0.001}, {86399, 0}, {86399, 0.5}, {86399, 0.9999999}};
  const u64 BL = 1000;
  h.part("all-days", LAST / BL + 1, [&](Ctx& c, u64 i) {
    for (long d = i * BL; d < (long)((i + 1) * BL) && d <= LAST; d++) {
      // quick tier: all edges on "interesting" days, first and last edge on every day
      bool full = h.thorough || cal[d].d >= 28 || cal[d].d == 1 || d % 7 == 0;
      for (size_t k = 0; k < edges.size(); k++) if (full || k == 1 || k + 1 == edges.size()) instant(c, d, edges[k].s, edges[k].f);
      if (d < LAST) {
        Lazy lz{d, 86399, 0.5, "end of"};
        orders(c, CT(d, 86399, 0.5), CT(d + 1, 0, 0), lz, true); orders(c, CT(d, 0, 0), CT(d, 3, 0.25), lz, true);
        orders(c, CT(d, 4, 0), CT(d, 4, 0.001), lz, false);
      }
      // calendar functions directly
      int y, m, dd; convertJDtoCalendar(d, y, m, dd); long j = convertCalendarToJD(cal[d].y, cal[d].m, cal[d].d); c.eval(2);
      if (y != cal[d].y || m != cal[d].m || dd != cal[d].d) { std::ostringstream o; o << "day " << d << " -> " << y << "/" << m << "/" << dd << " want " << cal[d].y << "/" << cal[d].m << "/" << cal[d].d; c.fail("convertJDtoCalendar", o.str()); }
      if (j != d) { std::ostringstream o; o << cal[d].y << "/" << cal[d].m << "/" << cal[d].d << " -> " << j << " want " << d; c.fail("convertCalendarToJD", o.str()); }
    }
    if (i % 500 == 3) { std::ostringstream o; o << "days " << i * BL << ".. (" << cal[i * BL].y << "/" << cal[i * BL].m << "/" << cal[i * BL].d << ") all formats"; c.sample(o.str()); }
  });
  // every second of a day on days chosen at format boundaries
  std::vector<long> days = {2444244, 2444245, 2451545, 2451544, 2299160, 2299161, 2440588, 2465443, 2465442, 2453737, 2451413, 2457754, 0, LAST - 1};
  h.part("all-seconds", days.size() * 24 * 6, [&](Ctx& c, u64 i) {
    Mix m(i); long d = days[m(days.size())]; long s0 = m(144) * 600L; static const double fr[] = {0, 1e-9, 0.001, 0.4999999, 0.5, 0.75, 0.999, 0.9999995, 0.999999999};
    for (long s = s0; s < s0 + 600; s++) {
      instant(c, d, s, fr[s % 9]); if (s % 60 == 59) instant(c, d, s, 0.99999999);
      orders(c, CT(d, s, 0.25), s + 1 < 86400 ? CT(d, s + 1, 0) : CT(d < LAST ? d + 1 : d, d < LAST ? 0 : 86399, d < LAST ? 0 : 0.5), Lazy{d, s, 0.25, "step"}, s + 1 < 86400 || d < LAST);
      int hh, mm; double sec; for (double f : fr) { convertSODtoTime(s + f, hh, mm, sec); c.eval(2);
        if (hh != s / 3600 || mm != s % 3600 / 60 || std::fabs(sec - (s % 60 + f)) > 3e-11) c.fail("convertSODtoTime", std::to_string(s + f));
        if (std::fabs(convertTimeToSOD(hh, mm, sec) - (s + f)) > 3e-11) c.fail("convertTimeToSOD", std::to_string(s + f)); }
    }
  });
  // seconds of day outside one day are reduced modulo a day
  h.part("sod-wrap", 2001, [&](Ctx& c, u64 i) {
    long k = (long)i - 1000; static const double fr[] = {0, 0.25, 1, 59.75, 3599.5, 43200, 86399, 86399.75};
    for (double f : fr) for (long mul : {1L, 7L, 365L}) { double sod = k * mul * 86400.0 + f; int hh, mm; double sec; std::ostringstream o; o << std::setprecision(17) << "sod " << sod; c.at(o.str());
      convertSODtoTime(sod, hh, mm, sec); c.eval(); c.outcome(hdbl(sod)); long s = (long)f;
      if (hh != s / 3600 || mm != s % 3600 / 60 || std::fabs(sec - (s % 60 + (f - s))) > 1e-5) { o << " -> " << hh << ":" << mm << ":" << sec; c.fail("sod-wrap", o.str()); } }
  });
  // fields that name no instant are not valid / are refused
  h.part("invalid-civil", 9425, [&](Ctx& c, u64 i) {
    int y = (int)i - 4712; if (y == 0) return;
    auto bad = [&](int mo, int d, int H, int M, double S, bool valid) {
      CivilTime t(y, mo, d, H, M, S, TimeSystem::GPS); bool v = false; c.eval(); std::string e = thrown([&] { v = t.isValid(); });
      std::ostringstream o; o << y << "/" << mo << "/" << d << " " << H << ":" << M << ":" << S; c.outcome(o.str());
      if (v != valid) c.fail(valid ? "civil-valid" : "civil-invalid", o.str() + " e=" + e); };
    for (int mo = 1; mo <= 12; mo++) { int L = mlen(y, mo, y > 1582); for (int d : {0, 1, 28, 29, 30, 31, 32}) { bool v = d >= 1 && d <= L; bad(mo, d, 12, 30, 15.5, v); } }
    if (y == 1582) for (int d = 5; d < 15; d++) bad(10, d, 0, 0, 0, false);
    if (y % 37 == 0 || y == 1582 || y == 2000) {
      for (int H : {-1, 0, 23, 24, 25}) for (int M : {-1, 0, 59, 60}) for (double S : {-0.5, 0.0, 59.5, 59.999999, 60.0, 61.0}) bad(3, 7, H, M, S, H >= 0 && H < 24 && M >= 0 && M < 60 && S >= 0 && S < 60);
      for (int mo : {-1, 0, 13, 14}) bad(mo, 5, 1, 1, 1, false);
    }
    int L = dpy(y);
    for (int doy : {-1, 0, 1, 2, 59, 60, 61, 354, 355, 356, 364, 365, 366, 367}) for (double sod : {-1.0, 0.0, 86399.5, 86400.0}) {
      YDSTime t(y, doy, sod, TimeSystem::GPS); bool v = false; c.eval(); std::string e = thrown([&] { v = t.isValid(); });
      if (v != (doy >= 1 && doy <= L && sod >= 0 && sod < 86400)) { std::ostringstream o; o << y << " doy " << doy << " sod " << sod; c.fail("yds-valid", o.str()); } }
    // every doy maps to the right date
    for (int doy = 1; doy <= L; doy += (y % 10 == 0 ? 1 : 29)) { CivilTime cv; thrown([&] { cv.convertFromCommonTime(YDSTime(y, doy, 0, TimeSystem::GPS).convertToCommonTime()); }); c.eval();
      int d = doy, mo = 1; if (y == 1582 && d > 277) d += 10; while (d > mlen(y, mo, y > 1582)) d -= mlen(y, mo++, y > 1582);
      if (cv.month != mo || cv.day != d || cv.year != y) c.fail("yds-date", std::to_string(y) + " " + std::to_string(doy)); }
  });
  h.part("invalid-other", 1, [&](Ctx& c, u64) {
    auto no = [&](const char* n, const TimeTag& t) { bool v = false; std::string e = thrown([&] { v = t.isValid(); }); c.eval(); c.outcome(n); if (v) c.fail(std::string("invalid:") + n, n); };
    auto yes = [&](const char* n, const TimeTag& t) { bool v = false; std::string e = thrown([&] { v = t.isValid(); }); c.eval(); c.outcome(n); if (!v) c.fail(std::string("valid:") + n, n); };
    no("gps week -1", GPSWeekSecond(-1, 0)); no("gps sow 604800", GPSWeekSecond(1000, 604800)); yes("gps sow 604799.9", GPSWeekSecond(1000, 604799.9)); yes("gps 0 0", GPSWeekSecond(0, 0));
    no("gal sow", GALWeekSecond(1000, 604800)); no("bds sow", BDSWeekSecond(1000, 604801)); no("qzs week", QZSWeekSecond(-5, 0)); no("irn sow", IRNWeekSecond(10, 700000)); yes("irn", IRNWeekSecond(10, 7000));
    no("z 403200", GPSWeekZcount(100, 403200)); yes("z 403199", GPSWeekZcount(100, 403199)); no("z week -1", GPSWeekZcount(-1, 0));
    no("jd huge", JulianDate(1e8L)); no("jd neg", JulianDate(-5.0L)); no("mjd huge", MJD(1e8L)); yes("jd", JulianDate(2451545.0L)); yes("mjd", MJD(51544.5L));
    no("unix usec", UnixTime(100, 1000000)); no("unix neg", UnixTime(100, -1)); no("posix nsec", PosixTime(100, 1000000000)); yes("unix", UnixTime(100, 999999)); yes("posix", PosixTime(100, 999999999));
    yes("ansi", ANSITime(100)); no("ansi neg", ANSITime(-100000));
    // reset gives the documented default
    CivilTime cv(2001, 2, 3, 4, 5, 6, TimeSystem::GPS); cv.reset(); MC_CK(c, cv.year == 0 && cv.month == 1 && cv.day == 1 && cv.hour == 0 && cv.minute == 0 && cv.second == 0 && cv.getTimeSystem() == TimeSystem::Unknown, "reset:civil", "");
    YDSTime yd(2001, 2, 3, TimeSystem::GPS); yd.reset(); MC_CK(c, yd.year == 0 && yd.doy == 0 && yd.sod == 0, "reset:yds", "");
  });
  // GPS week + Z-count arithmetic is integer arithmetic on the total count
  h.part("zcount-arith", 40 * 40, [&](Ctx& c, u64 i) {
    Mix m(i); static const long Z[] = {0, 1, 2, 39, 40, 2399, 2400, 57599, 57600, 57601, 403198, 403199, 403200, 403201, 806399, 806400, 1000000, 412876799, 412876800, 412876801, 500000000, 3302400000L - 403200, 3302399999L, 100000000, 7, 8, 9, 1209600, 1209599, 1209601, 4032000, 4031999, 40320000, 40319999, 40320001, 20000000, 30000000, 123456789, 234567890, 345678901};
    long a = Z[m(40)], b = Z[m(40)];
    GPSWeekZcount x(a / 403200, a % 403200), y(b / 403200, b % 403200); std::ostringstream o; o << a << "," << b; c.at(o.str()); c.outcome(o.str()); c.eval(6);
    MC_CK(c, (x - y) == a - b, "z-diff", o.str()); MC_CK(c, (x < y) == (a < b) && (x == y) == (a == b) && (x > y) == (a > b), "z-cmp", o.str());
    auto ck = [&](const char* n, std::function<GPSWeekZcount()> f, long want) { GPSWeekZcount r; std::string e = thrown([&] { r = f(); }); c.eval();
      if (want < 0 ? e.empty() : (!e.empty() || (long)r.getTotalZcounts() != want || r.zcount < 0 || r.zcount >= 403200)) c.fail(n, o.str() + " e=" + e + " got " + std::to_string(r.getTotalZcounts())); };
    ck("z-add", [&] { return x + b; }, a + b); ck("z-sub", [&] { return x - b; }, a - b);
    ck("z-addeq", [&] { GPSWeekZcount q(x); q += b; return q; }, a + b); ck("z-subeq", [&] { GPSWeekZcount q(x); q -= b; return q; }, a - b);
    ck("z-inc", [&] { GPSWeekZcount q(x); ++q; return q; }, a + 1); ck("z-dec", [&] { GPSWeekZcount q(x); q--; return q; }, a - 1);
    GPSWeekZcount q(x); thrown([&] { q -= b; }); if (a - b < 0) MC_CK(c, q == x, "z-failed-unchanged", o.str());
    unsigned z32 = x.getZcount32(); GPSWeekZcount r32; if (x.week < 8192) { r32.setZcount32(z32); MC_CK(c, r32.week == x.week && r32.zcount == x.zcount, "z32", o.str()); }
    unsigned z29 = x.getZcount29(); GPSWeekZcount r29(x.week - x.week % 1024, 0); r29.setZcount29(z29); MC_CK(c, r29.week == x.week && r29.zcount == x.zcount, "z29", o.str());
  });
  return h.run(argc, argv);
}
