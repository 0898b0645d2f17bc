// MC-SAN: assert
// MC-ASSUME: two-digit years only for 1969..2068 ; a field width, when given, is at least the printed width ; adjacent fields without width are not claimed ; scanTime reads seconds printed with %S as whole seconds
#include <memory>
#include <cstdarg>
#include <map>
#include "mc.hpp"
#include "TimeString.hpp"
#include "TimeConstants.hpp"
#include "CivilTime.hpp"
#include "YDSTime.hpp"
#include "JulianDate.hpp"
#include "MJD.hpp"
#include "UnixTime.hpp"
#include "PosixTime.hpp"
#include "ANSITime.hpp"
#include "GPSWeekSecond.hpp"
#include "GPSWeekZcount.hpp"
#include "BDSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "QZSWeekSecond.hpp"
#include "IRNWeekSecond.hpp"
using namespace gpstk; using namespace mc;
typedef TimeSystem TS;
static CommonTime CT(long mjd, long sod, double f, TS ts) { CommonTime t; t.set(mjd + 2400001, sod, f, ts); return t; }
struct TM { long mjd; long sod; double f; };
static std::vector<TM> times;
static const long DAYS[] = {58848 /*2019-12-31*/, 44244, 51412, 53736, 51544, 51603 /*2000-02-29*/, 51969, 55469, 58579, 58580, 65442 /*2038-01-18*/, 65443, 75000, 60676, 44297 /*1980-02-28*/};
static const long OLD[] = {-1, 0, 40586, 40587, 15078, 44243, 40221, 10000};
static const long SODS[] = {0, 1, 59, 60, 3599, 3600, 43199, 43200, 45296, 86399};
static const double FR[] = {0, 0.5, 0.123456789, 0.0004, 0.9994, 0.9996, 0.999999};

struct Fmt { std::string f; double lo, hi; long mjdMin; int y2; const char* sys; long mjdMax; Fmt(std::string f_, double l_, double h_, long m_, int y_, const char* s_) : f(f_), lo(l_), hi(h_), mjdMin(m_), y2(y_), sys(s_), mjdMax(f_.find_first_of("WK") != std::string::npos ? 65441 : 10000000) {} };   // T' - T in [lo,hi]
static std::vector<Fmt> fmts;
static std::string num(const char* code, int style, int w) {   // style 0: no width, 1: 0w, 2: w, 3: -w
  std::string s = "%"; if (style == 1) s += "0" + std::to_string(w); if (style == 2) s += std::to_string(w); if (style == 3) s += "-" + std::to_string(w); return s + code; }
static std::string flt(const char* code, int style, int intw, int p) {   // precision p
  std::string s = "%"; if (style == 1) s += "0" + std::to_string(intw + 1 + p); if (style == 2) s += std::to_string(intw + 1 + p); if (style == 3) s += "-" + std::to_string(intw + 1 + p); return s + "." + std::to_string(p) + code; }
struct Tp { std::vector<std::string> parts; double lo, hi; };
static void timesOfDay(int st, std::vector<Tp>& v) {
  for (int p : {1, 3, 6, 9}) { double h = 0.5 * std::pow(10., -p) + 2e-11;
    v.push_back(Tp{{num("H", st, 2), num("M", st, 2), flt("f", st, 2, p)}, -h, h});
    v.push_back(Tp{{flt("s", st, 5, p)}, -h, h}); }
  v.push_back(Tp{{num("H", st, 2), num("M", st, 2), num("S", st, 2)}, -1 - 1e-10, 1e-10});
  v.push_back(Tp{{num("H", st, 2), num("M", st, 2), num("f", 0, 0)}, -5.1e-7, 5.1e-7});
}
static void build() {
  static const char* SEP[] = {" ", "/", ":", ", ", "T", ""};
  auto join = [](const std::vector<std::string>& p, const std::string& s) { std::string r; for (size_t i = 0; i < p.size(); i++) r += (i ? s : "") + p[i]; return r; };
  for (int st = 0; st < 4; st++) for (const char* sp : SEP) {
    std::string sep = sp; if (sep.empty() && st != 1 && st != 2) continue; 
    std::vector<Tp> tod; timesOfDay(st, tod);
    for (int P = 0; P < 3; P++) {
      auto add = [&](std::vector<std::string> d, const Tp& t, long mn, int y2, const char* sys) {
        if (P && sep == "T") return; if (sep.empty() && P == 1 && t.parts.size() && t.parts.back() == "%f") return;
        std::vector<std::string> a; if (P == 2) a.push_back(sep.empty() ? "%3P" : "%P"); a.insert(a.end(), d.begin(), d.end()); a.insert(a.end(), t.parts.begin(), t.parts.end()); if (P == 1) a.push_back(sep.empty() ? "%3P" : "%P");
        fmts.push_back(Fmt{join(a, sep), t.lo, t.hi, mn, y2, sys}); };
      for (auto& t : tod) {
        add({num("Y", st, 4), num("m", st, 2), num("d", st, 2)}, t, -1000000, 0, 0);
        add({num("y", st, 2), num("m", st, 2), num("d", st, 2)}, t, 40222, 1, 0);
        if (!sep.empty()) { add({num("d", st, 2), num("b", 0, 0), num("Y", st, 4)}, t, -1000000, 0, 0);
          add({num("B", 0, 0), num("d", st, 2), num("Y", st, 4)}, t, -1000000, 0, 0); }
        add({num("Y", st, 4), num("j", st, 3)}, t, -1000000, 0, 0);
        add({num("j", st, 3), num("y", st, 2)}, t, 40222, 1, 0);
      }
      struct W { const char *e, *f, *g; long mn; const char* sys; } ws[] = {{"E", "F", "G", 44244, "GPS"}, {"R", "D", "e", 53736, "BDT"}, {"T", "L", "l", 51412, "GAL"}, {"V", "h", "i", 44244, "QZS"}, {"X", "O", "o", 51412, "IRN"}};
      for (auto& w : ws) for (int k = 0; k < 2; k++) {
        std::vector<std::string> d; if (k) d = {num(w.e, st, 1), num(w.g, st, 4)}; else d = {num(w.f, st, 4)};
        for (int p : {0, 2, 6}) { double hh = 0.5 * std::pow(10., -p) + 2e-10; if (p == 0) { if (st == 0) add(d, Tp{{"%g"}, -5.1e-7, 5.1e-7}, w.mn, 0, w.sys); continue; } add(d, Tp{{flt("g", st, 6, p)}, -hh, hh}, w.mn, 0, w.sys); }
        for (auto& t : tod) { std::vector<std::string> dd(d); dd.push_back(num("w", st, 1)); add(dd, t, w.mn, 0, w.sys); }
        
      }
      // day of week and seconds of week both printed
      add({num("F", st, 4), num("w", st, 1)}, Tp{{flt("g", st, 6, 3)}, -5.1e-4, 5.1e-4}, 44244, 0, "GPS");
      // Z-counts (1.5 s units)
      Tp z{{}, -1.5 - 1e-9, 1e-9};
      add({num("F", st, 4), num("Z", st, 6)}, z, 44244, 0, "GPS"); add({num("F", st, 4), num("z", st, 6)}, z, 44244, 0, "GPS");
      add({num("E", st, 1), num("G", st, 4), num("Z", st, 6)}, z, 44244, 0, "GPS");
      add({num("E", st, 1), num("c", st, 9)}, z, 44244, 0, "GPS"); add({num("C", st, 10)}, z, 44244, 0, "GPS"); add({num("F", st, 4), num("c", st, 9)}, z, 44244, 0, "GPS");
      // Julian dates (long double)
      for (int p : {3, 9, 12}) { double hj = 86400. * (0.5 * std::pow(10., -p)) + 2e-8; add({flt("J", st, 7, p)}, Tp{{}, -hj - 2e-6, hj + 2e-6}, -1000000, 0, 0); add({flt("Q", st, 6, p)}, Tp{{}, -hj, hj}, 0, 0, 0); }
      add({num("U", st, 10)}, Tp{{}, -1 - 1e-9, 6e-7}, 40587, 0, 0); add({num("U", st, 10), num("u", st, 6)}, Tp{{}, -6e-7, 6e-7}, 40587, 0, 0);
      add({num("W", st, 10), num("N", st, 9)}, Tp{{}, -2e-9, 2e-9}, 40587, 0, 0); add({num("W", st, 10)}, Tp{{}, -1 - 1e-9, 1e-9}, 40587, 0, 0);
      add({num("K", st, 10)}, Tp{{}, -1 - 1e-9, 1e-9}, 40587, 0, 0);
    }
  }
  // de-duplicate
  std::map<std::string, int> seen; std::vector<Fmt> u; for (auto& f : fmts) if (seen[f.f]++ == 0) u.push_back(f); fmts.swap(u);
}
static std::string desc(const CommonTime& t) { return CivilTime(t).printf("%04Y-%02m-%02d %02H:%02M:") + [&] { char b[40]; snprintf(b, 40, "%.12g", CivilTime(t).second); return std::string(b); }() + " " + StringUtils::asString(t.getTimeSystem()); }

template <class T> static bool classTrip(Ctx& c, const CommonTime& t, const std::string& fmt, double lo, double hi, const char* nm) {
  c.at(std::string(nm) + " " + fmt + " " + desc(t));
  T a; a.convertFromCommonTime(t); std::string s = a.printf(fmt); T b; b.scanf(s, fmt); c.eval();
  CommonTime bt = b.convertToCommonTime(); bt.setTimeSystem(t.getTimeSystem()); double d = bt - t; if (!(d >= lo && d <= hi)) { std::ostringstream o; o << nm << " \"" << fmt << "\" printed \"" << s << "\" for " << desc(t) << " reads back off by " << d; c.fail(std::string("class:") + nm, o.str()); return false; }
  if (fmt.find("%P") != std::string::npos && b.getTimeSystem() != t.getTimeSystem()) { c.fail(std::string("class-system:") + nm, fmt + " " + s); return false; }
  T e; scanTime(e, s, fmt); if (!(e == b)) { c.fail(std::string("class-scanTime:") + nm, fmt + " " + s); return false; }
  return true;
}
static std::string sn(const char* f, ...) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, 200, f, a); va_end(a); return b; }

int main(int argc, char** argv) {
  Harness h("C04"); build();
  // subset of times for each format: all days x rotating sods/fractions (quick) or all (thorough)
  size_t nd = sizeof(DAYS) / sizeof(long), no = sizeof(OLD) / sizeof(long);
  for (size_t i = 0; i < nd; i++) for (size_t j = 0; j < 10; j++) for (size_t k = 0; k < 7; k++) if (h.thorough || (i < 2 && j >= 8) || (i * 31 + j * 7 + k) % 23 == 0 || (j == 9 && k == 5)) times.push_back(TM{DAYS[i], SODS[j], FR[k]});
  for (size_t i = 0; i < no; i++) for (size_t j = 0; j < 10; j += 9) for (size_t k = 0; k < 7; k += h.thorough ? 1 : 5) times.push_back(TM{OLD[i], SODS[j], FR[k]});
  h.part("print-scan", fmts.size(), [&](Ctx& c, u64 i) {
    const Fmt& f = fmts[i]; bool hasP = f.f.find('P') != std::string::npos;
    size_t n = 0;
    for (auto& tm : times) {
      if (tm.mjd < f.mjdMin || tm.mjd > f.mjdMax) continue; if (f.y2 && tm.mjd > 76700) continue;
      if (!h.thorough && (n++ + i) % 4) continue;
      TS ts = f.sys ? StringUtils::asTimeSystem(f.sys) : (n & 1) ? TS::UTC : TS::GAL;
      CommonTime t = CT(tm.mjd, tm.sod, tm.f, ts); c.at(f.f); c.eval();
      std::string s = printTime(t, f.f); if (s.find('%') != std::string::npos) { c.fail("unprinted", f.f + " -> " + s + " at " + desc(t)); break; }
      CommonTime r; std::string ex = thrown([&] { scanTime(r, s, f.f); });
      auto w = [&](const char* k) { return std::string(k) + " \"" + f.f + "\" printed \"" + s + "\" for " + desc(t); };
      bool edge = tm.sod == 86399 && tm.f + f.hi + 1e-12 >= 1;   // rounds up to 24:00 in print
      if (!ex.empty() && edge) { c.outcome(ex); continue; }
      if (!ex.empty()) { c.fail("scan-refused", w(ex.c_str())); break; }
      CommonTime rr(r); rr.setTimeSystem(ts); double d = rr - t;
      if (!(d >= f.lo && d <= f.hi)) { std::ostringstream o; o << w("scanTime") << " reads back " << desc(r) << " off by " << d; c.fail("round-trip", o.str()); break; }
      if (hasP && r.getTimeSystem() != ts) { c.fail("time-system", w("scanTime") + " reads back " + desc(r)); break; }
      c.outcome(hstr(s)); c.traces();
    }
  });
  // mixedScanTime: same formats, starting from an unset time
  h.part("mixed-scan", fmts.size(), [&](Ctx& c, u64 i) {
    const Fmt& f = fmts[i]; if (f.f.find_first_of("ETRVX") != std::string::npos && f.f.find('G') != std::string::npos) {}
    size_t n = 0;
    for (auto& tm : times) {
      if (tm.mjd < f.mjdMin || tm.mjd > f.mjdMax) continue; if (f.y2 && tm.mjd > 76700) continue;
      if (!h.thorough && (n++ + i) % 8) continue;
      TS ts = f.sys ? StringUtils::asTimeSystem(f.sys) : TS::GPS; CommonTime t = CT(tm.mjd, tm.sod, tm.f, ts); c.at(f.f); c.eval();
      std::string s = printTime(t, f.f); CommonTime r; std::string ex = thrown([&] { mixedScanTime(r, s, f.f); });
      if (!ex.empty()) { c.outcome(ex); continue; }     // refusing is allowed: the interface fills a partially known time
      CommonTime rr(r); rr.setTimeSystem(ts); double d = rr - t;
      if (!(d >= f.lo && d <= f.hi)) { std::ostringstream o; o << "mixedScanTime \"" << f.f << "\" of \"" << s << "\" for " << desc(t) << " gives " << desc(r) << " off by " << d; c.fail("mixed", o.str()); break; }
      c.outcome(hstr(s)); c.traces();
    }
  });
  // per-class printf / scanf / scanTime
  h.part("classes", times.size(), [&](Ctx& c, u64 i) {
    auto& tm = times[i]; auto T = [&](TS ts) { return CT(tm.mjd, tm.sod, tm.f, ts); }; c.at(desc(T(TS::GPS)));
    classTrip<CivilTime>(c, T(TS::UTC), "%04Y/%02m/%02d %02H:%02M:%012.9f %P", -1e-9, 1e-9, "CivilTime"); classTrip<CivilTime>(c, T(TS::UTC), "%b %d %Y, %H-%M-%S", -1 - 1e-9, 1e-9, "CivilTime");
    classTrip<CivilTime>(c, T(TS::UTC), "%B %d %Y, %H-%M-%S", -1 - 1e-9, 1e-9, "CivilTime");
    classTrip<YDSTime>(c, T(TS::UTC), "%Y %j %.6s %P", -6e-7, 6e-7, "YDSTime"); classTrip<YDSTime>(c, T(TS::UTC), "%04Y%03j%015.9s", -1e-9, 1e-9, "YDSTime");
    if (tm.mjd >= 0) classTrip<MJD>(c, T(TS::UTC), "%.11Q %P", -1e-6, 1e-6, "MJD"); classTrip<JulianDate>(c, T(TS::UTC), "%.11J %P", -3e-6, 3e-6, "JulianDate");
    if (tm.mjd >= 40587) { classTrip<UnixTime>(c, T(TS::UTC), "%U.%06u %P", -6e-7, 6e-7, "UnixTime"); if (tm.mjd < 65442) classTrip<PosixTime>(c, T(TS::UTC), "%W.%09N %P", -1.1e-9, 1.1e-9, "PosixTime"); if (tm.mjd < 65442) classTrip<ANSITime>(c, T(TS::UTC), "%K %P", -1 - 1e-9, 1e-9, "ANSITime"); }
    if (tm.mjd >= 44244) { classTrip<GPSWeekSecond>(c, T(TS::GPS), "%F %.9g %P", -1e-9, 1e-9, "GPSWeekSecond"); classTrip<GPSWeekSecond>(c, T(TS::GPS), "%E %G %.9g", -1e-9, 1e-9, "GPSWeekSecond"); classTrip<GPSWeekZcount>(c, T(TS::GPS), "%F %Z %P", -1.5 - 1e-9, 1e-9, "GPSWeekZcount"); classTrip<GPSWeekZcount>(c, T(TS::GPS), "%E %c", -1.5 - 1e-9, 1e-9, "GPSWeekZcount"); classTrip<GPSWeekZcount>(c, T(TS::GPS), "%C", -1.5 - 1e-9, 1e-9, "GPSWeekZcount");
      classTrip<QZSWeekSecond>(c, T(TS::QZS), "%h %.9g %P", -1e-9, 1e-9, "QZSWeekSecond"); classTrip<QZSWeekSecond>(c, T(TS::QZS), "%V %i %.9g", -1e-9, 1e-9, "QZSWeekSecond"); }
    if (tm.mjd >= 53736) { classTrip<BDSWeekSecond>(c, T(TS::BDT), "%D %.9g %P", -1e-9, 1e-9, "BDSWeekSecond"); classTrip<BDSWeekSecond>(c, T(TS::BDT), "%R %e %.9g", -1e-9, 1e-9, "BDSWeekSecond"); }
    if (tm.mjd >= 51412) { classTrip<GALWeekSecond>(c, T(TS::GAL), "%L %.9g %P", -1e-9, 1e-9, "GALWeekSecond"); classTrip<GALWeekSecond>(c, T(TS::GAL), "%T %l %.9g", -1e-9, 1e-9, "GALWeekSecond"); classTrip<IRNWeekSecond>(c, T(TS::IRN), "%O %.9g %P", -1e-9, 1e-9, "IRNWeekSecond"); classTrip<IRNWeekSecond>(c, T(TS::IRN), "%X %o %.9g", -1e-9, 1e-9, "IRNWeekSecond"); }
  });
  // every code x flag x width prints the field's value exactly as the same C conversion would
  h.part("fields", times.size(), [&](Ctx& c, u64 i) {
    auto& tm = times[i]; CommonTime t = CT(tm.mjd, tm.sod, tm.f, TS::GPS); CivilTime cv(t); YDSTime yd(t); MJD mj(t); JulianDate jd(t); c.at(desc(t));
    static const char* MA[] = {"", "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    static const char* ML[] = {"", "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
    struct IV { const char* code; long v; }; std::vector<IV> iv = {{"Y", cv.year}, {"y", cv.year % 100}, {"m", cv.month}, {"d", cv.day}, {"H", cv.hour}, {"M", cv.minute}, {"S", (long)cv.second}, {"j", yd.doy}};
    struct FV { const char* code; long double v; }; std::vector<FV> fv = {{"f", cv.second}, {"s", yd.sod}, {"Q", mj.mjd}, {"J", jd.jd}};
    if (tm.mjd >= 40587) { UnixTime u(t); iv.push_back({"U", (long)u.tv.tv_sec}); iv.push_back({"u", (long)u.tv.tv_usec}); if (tm.mjd < 65442) { PosixTime p(t); ANSITime a(t); iv.push_back({"K", (long)a.time}); iv.push_back({"W", (long)p.ts.tv_sec}); iv.push_back({"N", (long)p.ts.tv_nsec}); }  }
    if (tm.mjd >= 44244) { GPSWeekSecond g(t); GPSWeekZcount z(t); QZSWeekSecond q(t); iv.insert(iv.end(), {{"E", g.week / 1024}, {"F", g.week}, {"G", g.week % 1024}, {"w", (tm.mjd - 44244) % 7}, {"z", z.zcount}, {"Z", z.zcount}, {"c", (long)(g.week % 1024) * 524288 + z.zcount}, {"C", (long)g.week * 524288 + z.zcount}, {"V", (long)q.getEpoch()}, {"h", q.week}, {"i", (long)q.getModWeek()}}); fv.push_back({"g", g.sow}); }
    if (tm.mjd >= 53736) { BDSWeekSecond b(t); iv.insert(iv.end(), {{"R", b.week / 8192}, {"D", b.week}, {"e", b.week % 8192}}); }
    if (tm.mjd >= 51412) { GALWeekSecond b(t); IRNWeekSecond n(t); iv.insert(iv.end(), {{"T", b.week / 4096}, {"L", b.week}, {"l", b.week % 4096}, {"X", n.week / 1024}, {"O", n.week}, {"o", n.week % 1024}}); }
    static const char* FL[] = {"", "0", " ", "-"};
    for (auto& x : iv) for (auto fl : FL) for (int w : {0, 1, 2, 4, 7, 12}) { if (x.v < 0 && false) continue;
      std::string wd = w ? std::to_string(w) : ""; std::string f = std::string("%") + fl + wd + x.code, got, want; if (fl[0] == '0' && !w) continue; if (fl[0] == ' ' ) { if (x.v < 0) continue; bool sgn = x.code[0] == 'Y' || x.code[0] == 'y'; want = sgn ? sn(("% " + wd + "ld").c_str(), x.v) : sn(("%" + wd + "ld").c_str(), x.v); } else want = sn((std::string("%") + fl + wd + "ld").c_str(), x.v);
      got = printTime(t, "<" + f + ">"); c.eval(); if (got != "<" + want + ">") { c.fail(std::string("field:") + x.code, f + " of " + desc(t) + " printed " + got + " want " + want); break; } }
    for (auto& x : fv) for (auto fl : FL) for (int w : {0, 6, 14, 22}) for (int p : {-1, 1, 4, 8}) { if (fl[0] == '0' && !w) continue; if (fl[0] == ' ' && x.v < 0) continue;
      std::string sp = std::string(fl) + (w ? std::to_string(w) : "") + (p > 0 ? "." + std::to_string(p) : ""); std::string f = "%" + sp + x.code, want = sn(("%" + sp + "Lf").c_str(), x.v), got = printTime(t, "<" + f + ">"); c.eval();
      if (got != "<" + want + ">") { c.fail(std::string("field:") + x.code, f + " of " + desc(t) + " printed " + got + " want " + want); break; } }
    std::string g = printTime(t, "<%b|%B|%P|%5b|%-5b|%12B>"), w = sn("<%s|%s|GPS|%5s|%-5s|%12s>", MA[cv.month], ML[cv.month], MA[cv.month], MA[cv.month], ML[cv.month]); c.eval(); if (g != w) c.fail("field:name", g + " want " + w);
  });
  // names of months in any documented spelling, and refusal of non-months / incomplete specifications / formats not consumed
  h.part("names", 12, [&](Ctx& c, u64 i) {
    static const char* ML[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
    std::string L = ML[i], A = L.substr(0, 3);
    for (int k = 0; k < 3; k++) { auto cs = [&](std::string s) { if (k == 1) for (auto& ch : s) ch = toupper(ch); if (k == 2) for (auto& ch : s) ch = tolower(ch); return s; }; c.eval(2);
      CommonTime t; std::string ex = thrown([&] { scanTime(t, "17 " + cs(A) + " 2005", "%d %b %Y"); }); MC_CK(c, ex.empty() && CivilTime(t).month == (int)i + 1 && CivilTime(t).day == 17, "month-abbrev", cs(A) << " " << ex);
      ex = thrown([&] { scanTime(t, "17 " + cs(L) + " 2005", "%d %B %Y"); }); MC_CK(c, ex.empty() && CivilTime(t).month == (int)i + 1, "month-name", cs(L) << " " << ex); }
    MC_CK(c, CivilTime::monthAbbrev(A) == (int)i + 1 && CivilTime::monthLong(L) == (int)i + 1, "month-lookup", L);
  });
  // week, weekday (number or name) and time of day
  h.part("weekday", 7 * 5, [&](Ctx& c, u64 i) {
    Mix m(i); int d = m(7), k = m(5); static const char* NM[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}; static const char FW[] = "FDLhO"; static const long EP[] = {44244, 53736, 51412, 44244, 51412};
    for (int wk : {0, 1, 520, 1023, 1024, 2086}) for (int v = 0; v < 7; v++) for (long sod : {0L, 45015L, 86399L}) for (int tf = 0; tf < 3; tf++) { if (tf == 2 && sod) continue;
      std::string n = NM[d]; if (v == 1) n = n.substr(0, 3); if (v == 2) n = n.substr(0, 3), n[0] = tolower(n[0]); if (v == 3) for (auto& ch : n) ch = toupper(ch); std::string dc = v == 0 || v == 3 ? "%A" : "%a"; if (v == 4) n = std::to_string(d), dc = "%w"; if (v > 4) dc = v == 5 ? "%w" : "%A", n = v == 5 ? std::to_string(d) : n;
      std::string tod = tf == 0 ? sn("%02ld:%02ld:%02ld", sod / 3600, sod / 60 % 60, sod % 60) : tf == 1 ? sn("%ld.0", sod) : "-", tc = tf == 0 ? "%H:%M:%S" : tf == 1 ? "%s" : "-";
      std::string s = n + " " + std::to_string(wk) + " " + tod, f = dc + " %" + FW[k] + " " + tc; c.at(s + " / " + f); c.eval(); CommonTime t; scanTime(t, s, f); t.setTimeSystem(TS::GPS);
      double e = t - CT(EP[k] + wk * 7 + d, sod, 0, TS::GPS); if (std::fabs(e) > 1e-6) { std::ostringstream o; o << "\"" << s << "\" with " << f << " gives " << desc(t) << " off by " << e; c.fail("weekday", o.str()); } c.outcome(hstr(s)); }
  });
  h.part("refusals", 1, [&](Ctx& c, u64) {
    struct R { const char *s, *f; } r[] = {{"2005", "%Y %m %d"}, {"2005 3", "%Y %m %d"}, {"12:30", "%H:%M"}, {"17", "%d"}, {"100", "%G"}, {"345600", "%g"}, {"", "%Y"}, {"2005/3/", "%Y/%m/%d %H"}, {"3", "%w"}, {"GPS", "%P"}};
    for (auto& x : r) { CommonTime t; c.eval(); std::string ex = thrown([&] { scanTime(t, x.s, x.f); }); MC_CK(c, !ex.empty(), "incomplete-accepted", "\"" << x.s << "\" with " << x.f << " -> " << desc(t)); }
  });
  return h.run(argc, argv);
}
