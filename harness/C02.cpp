// MC-SAN: assert
// MC-ASSUME: precision claim: each operation may add an error of 4 ulp of its operand plus 2e-15 s ; equality/ordering is claimed only for instants further apart than that
#include "mc.hpp"
#include "CommonTime.hpp"
#include "Exception.hpp"
#include "TimeSystem.hpp"
using namespace gpstk; using namespace mc;
typedef __int128 A;                         // attoseconds since day 0
static const A ATTO = (A)1000000000000000000LL;
static A dbl(double x) {                    // exact (truncated below 1e-18)
  int e; double m = std::frexp(std::fabs(x), &e); A v = (A)std::ldexp(m, 53) * ATTO; e -= 53;
  if (e > 0) v <<= e; else if (e < 0) { if (-e > 120) v = 0; else v >>= -e; }
  return x < 0 ? -v : v;
}
static std::string as(A v) { char b[64]; A s = v / ATTO; snprintf(b, 64, "%lld.%018lld", (long long)s, (long long)(v < 0 ? -(v - s * ATTO) : v - s * ATTO)); return b; }
static double ulp(double x) { x = std::fabs(x); return std::nextafter(x, 1e300) - x; }
static const A DAY = (A)86400 * ATTO;
static const A LIM = (A)3442448 * DAY;     // END_LIMIT day number (time-of-day on the last day is representable)

static A val(const CommonTime& t, Ctx& c, const std::string& how) {
  long d, s; double f; TimeSystem ts; t.get(d, s, f, ts);
  if (!(s >= 0 && s < 86400 && f >= 0 && f < 1.0)) { std::ostringstream o; o << how << " -> day " << d << " sod " << s << " fsod " << f; c.fail("normalised", o.str()); }
  return (A)d * DAY + (A)s * ATTO + dbl(f);
}
static CommonTime CT(long d, long s, double f, TimeSystem ts) { CommonTime t; t.set(d, s, f, ts); return t; }
struct Op { int k; double d; long l; };
static std::vector<Op> ops;
static std::string nm(const Op& o) { std::ostringstream s; s << std::setprecision(17); const char* n[] = {"addSeconds(d)", "addSeconds(l)", "addDays", "addMilliseconds", "+=", "-=", "+", "-"};
  s << n[o.k] << " "; if (o.k == 0 || o.k > 3) s << o.d; else s << o.l; return s.str(); }
static A amount(const Op& o) { switch (o.k) { case 1: return (A)o.l * ATTO; case 2: return (A)o.l * DAY; case 3: return (A)o.l * (ATTO / 1000); case 5: case 7: return -dbl(o.d); default: return dbl(o.d); } }
static double tolOf(const Op& o) { return (o.k == 0 || o.k > 3) ? 4 * ulp(o.d) + 2e-15 : 2e-15; }
static void apply(CommonTime& t, const Op& o) {
  switch (o.k) { case 0: t.addSeconds(o.d); break; case 1: t.addSeconds(o.l); break; case 2: t.addDays(o.l); break; case 3: t.addMilliseconds(o.l); break;
    case 4: t += o.d; break; case 5: t -= o.d; break; case 6: t = t + o.d; break; case 7: t = t - o.d; break; }
}
static std::string desc(const CommonTime& t) { std::ostringstream o; long d, s; double f; t.get(d, s, f); o << std::setprecision(17) << "[" << d << " " << s << " " << f << "]"; return o.str(); }

// all relational facts about two times whose exact model values are a,b (tolerance tol seconds)
static void relate(Ctx& c, const CommonTime& x, A a, const CommonTime& y, A b, double tol, const std::string& how) {
  A d = a - b; double dd = (double)((long double)d / 1e18L);
  A T = dbl(tol);
  bool lt = x < y, gt = x > y, le = x <= y, ge = x >= y, eq = x == y, ne = x != y;
  c.eval(7);
  std::string w = how + " " + desc(x) + " vs " + desc(y);
  if (eq == ne) c.fail("eq-ne", w);
  if (gt == le) c.fail("gt-le", w);
  if (ge == lt) c.fail("ge-lt", w);
  if (le != (lt || eq)) c.fail("le-def", w);
  if (d > T || d < -T) {
    if (lt != (d < 0)) c.fail("less", w); if (gt != (d > 0)) c.fail("greater", w); if (eq) c.fail("equal-distinct", w);
  }
  double diff = x - y, back = y - x;
  double dtol = tol + 4 * ulp(86400 + std::fabs(dd)) + 2e-15;   // differencing works in seconds of at least a day's magnitude
  if (!(std::fabs(diff - dd) <= dtol)) c.fail("difference", w + " got " + std::to_string(diff) + " want " + as(d));
  if (std::fabs(diff + back) > dtol) c.fail("difference-antisym", w);
}
// claims on exactly represented identical instants
static void same(Ctx& c, const CommonTime& x, const CommonTime& y, const std::string& how) {
  if (!(x == y) || x != y || x < y || x > y || !(x <= y) || !(x >= y) || (x - y) != 0.0) c.fail("same-instant", how + " " + desc(x) + " vs " + desc(y));
}

struct St { long d, s; double f; };
static std::vector<St> starts;
static void dfs(Ctx& c, const CommonTime& t, A v, double tol, int depth, int maxd, std::vector<std::pair<CommonTime, std::pair<A, double>>>& path, const std::string& how) {
  for (auto& o : ops) {
    CommonTime n(t); A w = v + amount(o); double tl = tol + tolOf(o);
    std::string h = how + "; " + nm(o);
    c.at(h);
    A E = dbl(tl);
    std::string ex = thrown([&] { apply(n, o); });
    c.trans();
    if (!ex.empty()) {
      if (w > E && w < LIM - E) c.fail("throws-in-range", h + " threw " + ex + " from " + desc(t));
      continue;
    }
    if (w < -E || w > LIM + DAY + E) { c.fail("overflow-not-refused", h + " gives " + desc(n)); continue; }
    if (w <= E || w >= LIM - E) continue;      // at the edge: either is fine
    A r = val(n, c, h);
    A df = r - w; if (df < 0) df = -df;
    if (df > E) c.fail("add", h + " from " + desc(t) + " gave " + desc(n) + " model " + as(w));
    if (n.getTimeSystem() != t.getTimeSystem()) c.fail("add-timesystem", h);
    u64 hh = hmix(hmix((u64)(r / ATTO), (u64)(r % ATTO)), 7); c.outcome(hh);
    // exact inverse relation
    double tt = n - t; A am = amount(o); double want = (double)((long double)am / 1e18L);
    if (!(std::fabs(tt - want) <= tl + 4 * ulp(86400 + std::fabs(want)))) c.fail("t+x-t", h);
    for (auto& p : path) relate(c, n, w, p.first, p.second.first, tl + p.second.second, h);
    if (depth + 1 < maxd) {
      path.push_back(std::make_pair(n, std::make_pair(w, tl)));
      dfs(c, n, w, tl, depth + 1, maxd, path, h);
      path.pop_back();
    }
  }
}

int main(int argc, char** argv) {
  Harness h("C02");
  double dv[] = {1e-9, 0.0005, 0.0009999999, 0.001, 0.9995, 1, 59.9995, 86399.9995, 86400, 86400.001, 604800.25, 1e7 + 0.125};
  int kk = 0;
  for (double d : dv) { ops.push_back(Op{0, d, 0}); ops.push_back(Op{0, -d, 0}); static const int alt[] = {4, 5, 6, 7}; ops.push_back(Op{alt[kk++ % 4], d, 0}); }
  for (long l : {1L, 86399L, 86400L, 86401L, 172800L, 1000000L}) { ops.push_back(Op{1, 0, l}); ops.push_back(Op{1, 0, -l}); }
  for (long l : {1L, 36525L}) { ops.push_back(Op{2, 0, l}); ops.push_back(Op{2, 0, -l}); }
  for (long l : {1L, 999L, 86399999L, 86400000L, 86400001L, 1000000000L}) { ops.push_back(Op{3, 0, l}); ops.push_back(Op{3, 0, -l}); }
  starts = {{2451545, 43200, 0}, {2451545, 0, 0}, {2451545, 86399, 0.9995}, {2451545, 86399, 0.999999999}, {2299160, 1, 0.0005}, {1, 0, 0}, {0, 0, 0}, {3442447, 86399, 0.25}, {3442448, 0, 0.0}, {2440587, 3600, 0.001}};
  // histories: case = (start, first op); depth below
  int D = h.thorough ? 4 : 3;
  h.part("histories", starts.size() * ops.size(), [&](Ctx& c, u64 i) {
    Mix m(i); const St& s = starts[m(starts.size())]; const Op& o = ops[m(ops.size())];
    CommonTime t = CT(s.d, s.s, s.f, TimeSystem(TimeSystem::GPS)); A v = (A)s.d * DAY + (A)s.s * ATTO + dbl(s.f);
    std::ostringstream hs; hs << "start " << desc(t);
    std::vector<std::pair<CommonTime, std::pair<A, double>>> path; path.push_back(std::make_pair(t, std::make_pair(v, 2e-15)));
    val(t, c, "ctor");
    std::vector<Op> save; save.swap(ops); ops.push_back(o);
    // first op alone
    struct R { std::vector<Op>& s; ~R() { ops = s; } } r{save};
    CommonTime n(t); A w = v + amount(o); double tl = 2e-15 + tolOf(o);
    c.states();
    { auto p = path; dfs(c, t, v, 2e-15, 0, 1, p, hs.str()); }
    ops = save;
    if (!thrown([&] { apply(n, o); }).empty()) return;
    if (w <= dbl(tl) || w >= LIM) return;
    path.push_back(std::make_pair(n, std::make_pair(w, tl)));
    dfs(c, n, w, tl, 1, D, path, hs.str() + "; " + nm(o));
    c.traces();
    if (i % 97 == 0) c.sample(hs.str() + "; " + nm(o) + "; then every continuation to depth " + std::to_string(D));
  });
  // all pairs of edge times, built through every setter
  std::vector<St> edge;
  for (long d : {0L, 1L, 2299160L, 2299161L, 2451544L, 2451545L, 3442447L, 3442448L})
    for (long s : {0L, 1L, 43200L, 86398L, 86399L})
      for (double f : {0.0, 1e-12, 0.0004, 0.001, 0.0015, 0.25, 0.5, 0.998, 0.999, 0.9990001, 0.9999, 0.999999999999}) edge.push_back(St{d, s, f});
  h.part("pairs", edge.size(), [&](Ctx& c, u64 i) {
    const St& a = edge[i]; CommonTime x = CT(a.d, a.s, a.f, TimeSystem(TimeSystem::GPS)); A va = (A)a.d * DAY + (A)a.s * ATTO + dbl(a.f);
    c.at(desc(x));
    A r = val(x, c, "set"); A df = r - va; if (df < 0) df = -df; if (df > 1000) c.fail("set", desc(x));
    same(c, x, x, "self"); CommonTime y(x); same(c, x, y, "copy"); CommonTime z; z = x; same(c, z, x, "assign");
    CommonTime z2; if (a.s + a.f < 86400) z2.set(a.d, a.s + a.f, TimeSystem(TimeSystem::GPS)); MC_CK(c, a.s + a.f >= 86400 || std::fabs(z2 - x) < 3e-11, "set-day-sod", desc(x) << " vs " << desc(z2));
    CommonTime z4; z4.setInternal(a.d, a.s * 1000, 0.0, TimeSystem(TimeSystem::GPS)); MC_CK(c, std::fabs((x - z4) - a.f) < 1e-14, "set-internal", desc(x));
    // accessors agree
    long d, s; double f, sod, day; TimeSystem ts; long ims; double fms;
    x.get(d, s, f, ts); MC_CK(c, ts == TimeSystem(TimeSystem::GPS), "get-ts", "");
    x.get(d, s, f); MC_CK(c, d == a.d && s == a.s && std::fabs(f - a.f) < 1e-15, "get3", desc(x));
    x.get(d, sod, ts); MC_CK(c, d == a.d && std::fabs(sod - (a.s + a.f)) < 3e-11, "get-sod", desc(x) << " " << sod);
    x.get(d, sod); MC_CK(c, d == a.d && std::fabs(sod - (a.s + a.f)) < 3e-11, "get-sod2", desc(x));
    x.get(day); MC_CK(c, std::fabs(day - (a.d + (a.s + a.f) / 86400)) < 1e-9, "get-day", desc(x) << " " << day);
    x.get(day, ts); MC_CK(c, std::fabs(day - (a.d + (a.s + a.f) / 86400)) < 1e-9, "get-day2", desc(x));
    MC_CK(c, std::fabs(x.getDays() - (a.d + (a.s + a.f) / 86400)) < 1e-9, "getDays", desc(x));
    MC_CK(c, std::fabs(x.getSecondOfDay() - (a.s + a.f)) < 3e-11, "getSecondOfDay", desc(x));
    x.getInternal(d, ims, fms, ts); MC_CK(c, d == a.d && ims >= 0 && ims < 86400000 && fms >= 0 && fms < 0.001 && std::fabs(ims * 0.001 + fms - (a.s + a.f)) < 3e-11, "getInternal", desc(x));
    CommonTime z5; z5.setInternal(d, ims, fms, ts); same(c, x, z5, "internal-roundtrip");
    std::string st = x.asString(); long pd, pm; double pf; char sy[16];
    MC_CK(c, sscanf(st.c_str(), "%ld %ld %lf %15s", &pd, &pm, &pf, sy) == 4 && pd == d && pm == ims && std::fabs(pf - fms) < 1e-14 && std::string(sy) == "GPS", "asString", st);
    CommonTime zr(x); zr.reset();
    MC_CK(c, zr.getDays() == 0, "reset", "");
    for (auto& b : edge) {
      CommonTime w = CT(b.d, b.s, b.f, TimeSystem(TimeSystem::GPS)); A vb = (A)b.d * DAY + (A)b.s * ATTO + dbl(b.f);
      relate(c, x, va, w, vb, 2e-15, "pair"); c.states(); c.traces();
      c.outcome(hdbl(x - w));
    }
    if (i == 5) c.sample("pair " + desc(x) + " with every other edge time");
  });
  // time systems
  const int NS = 12;
  TimeSystem sys[] = {TimeSystem::Unknown, TimeSystem::Any, TimeSystem::GPS, TimeSystem::GLO, TimeSystem::GAL, TimeSystem::QZS, TimeSystem::BDT, TimeSystem::IRN, TimeSystem::UTC, TimeSystem::TAI, TimeSystem::TT, TimeSystem::TDB};
  h.part("systems", NS * NS, [&](Ctx& c, u64 i) {
    Mix m(i); TimeSystem a(sys[m(NS)]), b(sys[m(NS)]);
    bool ok = a == b || a == TimeSystem(TimeSystem::Any) || b == TimeSystem(TimeSystem::Any);
    double off[] = {0, 0.25, 1, -1, 86400, -86400};
    for (double o : off) {
      CommonTime x = CT(2451545, 43200, 0.5, a), y = CT(2451545, 43200, 0.5, b); y += o;
      std::string w = x.asString() + " / " + y.asString(); c.at(w); c.states(); c.traces();
      bool r = false; double d = 0;
      auto refuse = [&](const char* n, std::function<void()> f) { std::string e = thrown(f); c.trans(); c.outcome(std::string(n) + e);
        if (ok ? !e.empty() : e != "InvalidRequest") c.fail(std::string("system:") + n, w + " threw '" + e + "'"); };
      refuse("<", [&] { r = x < y; }); if (ok) MC_CK(c, r == (o > 0), "system-val:<", w);
      refuse("<=", [&] { r = x <= y; }); if (ok) MC_CK(c, r == (o >= 0), "system-val:<=", w);
      refuse(">", [&] { r = x > y; }); if (ok) MC_CK(c, r == (o < 0), "system-val:>", w);
      refuse(">=", [&] { r = x >= y; }); if (ok) MC_CK(c, r == (o <= 0), "system-val:>=", w);
      refuse("-", [&] { d = x - y; }); if (ok) MC_CK(c, std::fabs(d + o) < 1e-9, "system-val:-", w);
      MC_CK(c, (x == y) == (ok && o == 0), "system-val:==", w); MC_CK(c, (x != y) == !(ok && o == 0), "system-val:!=", w);
    }
  });
  // setter validation
  h.part("validation", 7 * 7 * 7, [&](Ctx& c, u64 i) {
    Mix m(i); long D[] = {-1, 0, 1, 2451545, 3442447, 3442448, 3442449}; long S[] = {-86400, -1, 0, 43200, 86399, 86400, 172800}; double Fr[] = {-1e-9, 0, 1e-15, 0.5, 0.9999999999, 1.0, 1.5};
    long d = D[m(7)], s = S[m(7)]; double f = Fr[m(7)];
    bool ok = d >= 0 && d <= 3442448 && s >= 0 && s < 86400 && f >= 0 && f < 1;
    CommonTime x = CT(2451545, 1, 0.25, TimeSystem(TimeSystem::GPS)), keep(x);
    std::ostringstream w; w << d << " " << s << " " << f; c.states(); c.trans(3); c.traces(); c.outcome(w.str());
    std::string e = thrown([&] { x.set(d, s, f, TimeSystem(TimeSystem::UTC)); });
    if (ok ? !e.empty() : e != "InvalidParameter") c.fail("validate-set", w.str() + " threw '" + e + "'");
    if (!ok && (x != keep)) c.fail("validate-set-unchanged", w.str());
    e = thrown([&] { CT(d, s, f, TimeSystem(TimeSystem::UTC)); });
    if (ok ? !e.empty() : e != "InvalidParameter") c.fail("validate-ctor", w.str() + " threw '" + e + "'");
    CommonTime y(keep);
    double fi = f * 0.001; bool oki = d >= 0 && d <= 3442448 && s >= 0 && s < 86400 && fi >= 0 && fi < 0.001;
    e = thrown([&] { y.setInternal(d, s * 1000, fi, TimeSystem(TimeSystem::UTC)); });
    if (oki ? !e.empty() : e != "InvalidParameter") c.fail("validate-setInternal", w.str() + " threw '" + e + "'");
  });
  return h.run(argc, argv);
}
