// MC-SAN: assert
// MC-RULE: interval answers equal those of the set of instants the interval denotes
// MC-ASSUME: intervals of zero length with an open end are excluded ; isSubsetOf compares end points only, as its documentation says
#include <memory>
#include <map>
#include "mc.hpp"
#include "TimeRange.hpp"
#include "CivilTime.hpp"
#include "TimeString.hpp"
using namespace gpstk; using namespace mc;
typedef TimeSystem TS;
static CommonTime CT(long mjd, long sod, double f, TS ts) { CommonTime t; t.set(mjd + 2400001, sod, f, ts); return t; }
// grid of instants; scale 0: whole days, 1: seconds across midnight, 2: fractions of a second, 3: mixed incl. extremes
static CommonTime pt(int scale, int k, TS ts = TS::GPS) {
  switch (scale) {
    case 0: return CT(55000 + k, 0, 0, ts);
    case 1: return k < 3 ? CT(58848, 86397 + k, 0, ts) : CT(58849, k - 3, 0, ts);
    case 2: return CT(51602, 86399, 0.1 * (k + 1), ts);
    default: { static const long D[] = {-2400001, 0, 44244, 58848, 58849, 1042448}; static const long S[] = {0, 86399, 0, 43200, 1, 0}; CommonTime t = k == 0 ? CommonTime::BEGINNING_OF_TIME : k == 5 ? CommonTime::END_OF_TIME : CT(D[k], S[k], 0, ts); t.setTimeSystem(ts); return t; }
  } }
struct IV { int a, b; bool ca, cb; };
static std::vector<IV> ivs(int n) { std::vector<IV> v; for (int a = 0; a < n; a++) for (int b = a; b < n; b++) for (int f = 0; f < 4; f++) { if (a == b && f != 3) continue; v.push_back(IV{a, b, bool(f & 1), bool(f & 2)}); } return v; }
// instants: 2k is point k, 2k+1 lies strictly between points k and k+1, -1 before all
static bool in(const IV& v, int x) { int lo = 2 * v.a, hi = 2 * v.b; return (x > lo || (x == lo && v.ca)) && (x < hi || (x == hi && v.cb)); }
static std::string ds(const IV& v) { return std::string(v.ca ? "[" : "(") + std::to_string(v.a) + "," + std::to_string(v.b) + (v.cb ? "]" : ")"); }
static TimeRange mk(int s, const IV& v, TS ts = TS::GPS) { return TimeRange(pt(s, v.a, ts), pt(s, v.b, ts), v.ca, v.cb); }
static const int NP = 6;
static CommonTime mid(const CommonTime& a, const CommonTime& b) { double d = b - a; return a + d / 2; }
static const std::vector<std::string> FM = {"%02m/%02d/%04Y %02H:%02M:%02S", "%Y-%m-%d %H:%M:%S", "%Y/%03j/%05s", "%04Y %b %02d %02H:%02M:%02S", "%04F %06g", "%Y %j %H:%M:%f", "%Q", "%02d-%02m-%04Y %02H:%02M:%02S", "%02H:%02M:%02S %02d %02m %04Y", "%04D %w %05s"};

int main(int argc, char** argv) {
  Harness h("C06"); auto V = ivs(NP); size_t n = V.size();
  h.part("membership", 4 * n, [&](Ctx& c, u64 i) { Mix m(i); int s = m(4); const IV& v = V[m(n)]; TimeRange r = mk(s, v); c.states(1);
    for (int x = 0; x <= 2 * NP - 2; x++) { CommonTime t = x & 1 ? mid(pt(s, x / 2), pt(s, x / 2 + 1)) : pt(s, x / 2); c.eval(); MC_CK(c, r.inRange(t) == in(v, x), "inRange", ds(v) << " scale " << s << " at " << x / 2. << " -> " << r.inRange(t)); }
    if (s != 3) { MC_CK(c, !r.inRange(pt(s, 0) - 1e-3), "inRange", ds(v) << " contains an instant before every point"); MC_CK(c, !r.inRange(pt(s, NP - 1) + 1e-3), "inRange", ds(v)); MC_CK(c, !r.inRange(CommonTime::BEGINNING_OF_TIME) && !r.inRange(CommonTime::END_OF_TIME), "inRange", "extremes"); }
    MC_CK(c, r.getStart() == pt(s, v.a) && r.getEnd() == pt(s, v.b), "ends", ds(v));
    TimeRange q, cp(r), as, pr(TimeRange::DTPair(pt(s, v.a), pt(s, v.b)), v.ca, v.cb); q.set(pt(s, v.a), pt(s, v.b), v.ca, v.cb); as = r; MC_CK(c, q == r && cp == r && as == r && pr == r, "same", "set, copy, assignment and pair constructor of " << ds(v)); });
  h.part("default", 1, [&](Ctx& c, u64) { TimeRange r; for (int k = 0; k < 6; k++) { CommonTime t = pt(3, k); c.eval(); MC_CK(c, r.inRange(t), "default-all", "default interval excludes " << k); } 
    TimeRange a(pt(0, 1), pt(0, 2)); MC_CK(c, a == TimeRange(pt(0, 1), pt(0, 2), true, true), "default-closed", ""); });
  h.part("pairs", 4 * n * n, [&](Ctx& c, u64 i) { Mix m(i); int s = m(4); const IV &a = V[m(n)], &b = V[m(n)]; TimeRange A = mk(s, a), B = mk(s, b); c.eval(5); c.trans(1);
    auto w = [&](const char* k) { return ds(a) + std::string(" ") + k + " " + ds(b) + " scale " + std::to_string(s); };
    bool ov = false, prior = true, after = true; for (int x = 0; x <= 2 * NP; x++) { if (in(a, x) && in(b, x)) ov = true; }
    for (int x = 0; x <= 2 * NP; x++) for (int y = 0; y <= 2 * NP; y++) if (in(a, x) && in(b, y)) { if (x >= y) prior = false; if (x <= y) after = false; }
    MC_CK(c, A.overlaps(B) == ov, "overlaps", w("overlaps") << " -> " << A.overlaps(B)); MC_CK(c, A.isPriorTo(B) == prior, "prior", w("isPriorTo") << " -> " << A.isPriorTo(B)); MC_CK(c, A.isAfter(B) == after, "after", w("isAfter") << " -> " << A.isAfter(B));
    bool sub = a.a >= b.a && a.b <= b.b; MC_CK(c, A.isSubsetOf(B) == sub, "subset", w("isSubsetOf") << " -> " << A.isSubsetOf(B));
    bool eq = a.a == b.a && a.b == b.b && a.ca == b.ca && a.cb == b.cb; MC_CK(c, (A == B) == eq, "equal", w("=="));
    // order by lower end: a point start precedes an open start at the same instant
    bool lt = a.a < b.a || (a.a == b.a && a.ca && !b.ca); MC_CK(c, (A < B) == lt, "less", w("<") << " -> " << (A < B)); 
    int k = (A.overlaps(B) ? 1 : 0) + (A.isPriorTo(B) ? 1 : 0) + (A.isAfter(B) ? 1 : 0); MC_CK(c, k == 1, "trichotomy", w("vs") << " " << k << " of overlaps/prior/after");
    MC_CK(c, A.overlaps(B) == B.overlaps(A) && A.isPriorTo(B) == B.isAfter(A), "symmetry", w("vs"));
    c.outcome(u64(ov) | u64(prior) << 1 | u64(after) << 2 | u64(sub) << 3 | u64(lt) << 4 | u64(eq) << 5); });
  h.part("order-triples", n * n, [&](Ctx& c, u64 i) { Mix m(i); TimeRange A = mk(0, V[m(n)]), B = mk(0, V[m(n)]); for (auto& z : V) { TimeRange C = mk(0, z); c.eval();
      if (A < B && B < C) MC_CK(c, A < C, "order-transitive", ds(z)); if (!(A < B) && !(B < A) && !(B < C) && !(C < B)) MC_CK(c, !(A < C) && !(C < A), "order-equivalence", ds(z)); } 
    if (A < B) MC_CK(c, !(B < A), "order-asymmetric", ""); });
  // invalid intervals
  h.part("refused", 4 * NP * NP, [&](Ctx& c, u64 i) { Mix m(i); int s = m(4), a = m(NP), b = m(NP); for (int f = 0; f < 4; f++) { c.eval(3);
      std::string e1 = thrown([&] { TimeRange r(pt(s, a), pt(s, b), f & 1, f & 2); }), e2 = thrown([&] { TimeRange r(TimeRange::DTPair(pt(s, a), pt(s, b)), f & 1, f & 2); });
      TimeRange r(pt(0, 1), pt(0, 2), false, true), o(r); std::string e3 = thrown([&] { r.set(pt(s, a), pt(s, b), f & 1, f & 2); });
      bool bad = b < a; MC_CK(c, !e1.empty() == bad && !e2.empty() == bad && !e3.empty() == bad, "reversed", a << ".." << b << " " << e1 << " " << e2 << " " << e3); if (bad) MC_CK(c, r == o, "set-failed-changed", "");
      if (s < 3) { e1 = thrown([&] { TimeRange r2(pt(s, a, TS::GPS), pt(s, b, TS::UTC)); }); MC_CK(c, !e1.empty(), "mixed-systems", "accepted"); } } });
  // printed and read back, into objects holding anything before
  static const long PD[] = {58848, 58849, 51603, 51602, 58939, 53736, 44244 + 7, 56992}; static const long PS[] = {0, 1, 43200, 86399};
  h.part("text", FM.size() * 4 * 8 * 8, [&](Ctx& c, u64 i) { Mix m(i); const std::string& f = FM[m(FM.size())]; int fl = m(4); long d1 = PD[m(8)], d2 = PD[m(8)];
    for (long s1 : PS) for (long s2 : PS) { if (d2 < d1 || (d2 == d1 && s2 < s1) || (f.find('D') != std::string::npos && d1 < 53736)) continue; 
      CommonTime a = CT(d1, s1, 0, TS::Any), b = CT(d2, s2, 0, TS::Any); TimeRange r(a, b, fl & 1, fl & 2); std::string s = r.printf(f); c.at(s + " " + f);
      MC_CK(c, s == std::string(fl & 1 ? "[" : "(") + printTime(a, f) + ", " + printTime(b, f) + (fl & 2 ? "]" : ")"), "printf", s);
      for (int init = 0; init < (h.thorough ? 6 : 3); init++) for (int sp = 0; sp < 3; sp++) { TimeRange q; if (init == 1) q.set(CT(58848, 86399, 0.5, TS::Any), CT(58848, 86399, 0.75, TS::Any), false, false); if (init == 2) q.set(CT(55986, 5, 0, TS::Any), CT(60675, 86399, 0.9, TS::Any)); if (init > 2) q.set(CT(54303 + 31 * init, 7, 0, TS::Any), CT(58788 + 30 * init, 10, 0, TS::Any));
        std::string in = sp == 0 ? s : sp == 1 ? " \t" + s : s; if (sp == 2) { in = in.substr(1, in.size() - 2); } c.eval();
        std::string ex = thrown([&] { q.setToString(in, f); }); double e = 0; if (ex.empty()) { e = std::fabs(q.getStart() - a) + std::fabs(q.getEnd() - b); }
        auto q2 = [&] { return "\"" + in + "\" with \"" + f + "\" into prior content " + std::to_string(init) + ": " + ex + (ex.empty() ? q.printf("%Y/%m/%d %s") : ""); };
        if (!ex.empty() || e > (f == "%Q" ? 0.1 : 2e-6)) { c.fail(ex.empty() ? "read-back" : "read-refused", q2()); return; }
        TimeRange want(q.getStart(), q.getEnd(), sp == 2 || (fl & 1), sp == 2 || (fl & 2)); MC_CK(c, q == want, "read-flags", q2()); }
      c.outcome(hstr(s)); c.traces(); } });
  h.part("text-refused", 1, [&](Ctx& c, u64) { const char* B[] = {"", "   ", "\n\t", "[2019/01/02 3, 2019/01/01 3]", "(2019/05/02 3, 2018/12/31 3)", "[2019/01/02 3]", "2019/01/02 3", "[2019/01/02 3 2019/01/03 3]", "[, ]", "[2019/01/02 3,]", "[2019/01/02 3, 2019]", "[,2019/01/02 3]"};
    for (auto s : B) { TimeRange r; c.eval(); std::string ex = thrown([&] { r.setToString(s, "%Y/%m/%d %s"); }); MC_CK(c, !ex.empty(), "text-accepted", "\"" << s << "\" read as " << r.printf("%Y/%m/%d %s")); } });
  return h.run(argc, argv);
}
