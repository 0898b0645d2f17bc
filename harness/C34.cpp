// C34 running statistics: every operation history against direct recomputation over the multiset of data
// MC-SAN: asan
// MC-RULE: after any sequence of add/subtract/merge/unmerge/batch/reset/dump+load the accumulators equal the statistics computed from the retained data
// MC-ASSUME: minimum and maximum are claimed only when nothing was subtracted since the accumulator was empty (documented) ; quantities whose denominator vanishes are not claimed
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdarg>
#include <fstream>
#include <iomanip>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include "mc.hpp"
#include "Stats.hpp"
#include "BivarStats.hpp"
#include "PowerSum.hpp"
using namespace gpstk; using namespace mc; typedef std::string S; typedef long double L; typedef std::array<double, 2> P2;
static S num(double d) { char b[40]; snprintf(b, 40, "%.10g", d); return b; }
// reference: the data, and whether min/max are still promised
struct Ref { std::vector<int> it; bool mm = true; };
struct Sum { L n = 0, W = 0, ax = 0, ay = 0, vx = 0, vy = 0, cxy = 0, mnx = 1e300L, mxx = -1e300L, mny = 1e300L, mxy = -1e300L, mag = 1, magy = 1; };
static Sum calc(const std::vector<int>& it, const std::vector<P2>& V, int mode) { // mode 0: unweighted pairs; 1: weights in [1], zero weight ignored
  Sum s; for (int k : it) { L w = mode ? std::fabs((L)V[k][1]) : 1; if (w == 0) continue; s.n++; s.W += w; s.ax += w * V[k][0]; s.ay += V[k][1]; s.mnx = std::min<L>(s.mnx, V[k][0]); s.mxx = std::max<L>(s.mxx, V[k][0]); s.mny = std::min<L>(s.mny, V[k][1]); s.mxy = std::max<L>(s.mxy, V[k][1]); }
  if (s.n > 0) { s.ax /= s.W; s.ay /= s.n; } for (int k : it) { L w = mode ? std::fabs((L)V[k][1]) : 1; L dx = V[k][0] - s.ax, dy = V[k][1] - s.ay; s.vx += w * dx * dx; s.vy += dy * dy; s.cxy += dx * dy; }
  if (s.n > 1) { s.vx = s.vx / s.W * s.n / (s.n - 1); s.vy /= s.n - 1; } else s.vx = s.vy = 0; for (auto& v : V) { s.mag = std::max<L>(s.mag, std::fabs((L)v[0])); s.magy = std::max<L>(s.magy, std::fabs((L)v[1])); } return s; }
#define Q(name, got, want, tol) do { L g_ = (got), w_ = (want); if (!(std::fabs(g_ - w_) <= (L)(tol))) { err = S(name) + " is " + num(g_) + ", want " + num(w_); return false; } } while (0)
struct SAd { typedef Stats<double> A; static const char* nm() { return "Stats"; } static const int mode = 0; static A make(int) { return A(); }
  static void add(A& a, const P2& v) { a.Add(v[0]); } static void sub(A& a, const P2& v) { a.Subtract(v[0]); } static void reset(A& a) { a.Reset(); }
  static void batch(A& a, const std::vector<P2>& v, int how, bool plus) { std::vector<double> x; for (auto& p : v) x.push_back(p[0]); Vector<double> X(x.size()); for (size_t i = 0; i < x.size(); i++) X(i) = x[i]; if (how) { if (plus) a.Add(x); else a.Subtract(x); } else { if (plus) a.Add(X); else a.Subtract(X); } }
  static bool dump(A& a) { std::vector<unsigned> u; std::vector<double> t; a.Dump(u, t); A b; b.Add(77); b.Load(u, t); a = b; return true; }
  static bool minus(A& a, A& b) { a -= b; return true; }
  static bool check(const A& a, const Sum& s, bool mm, S& err) { Q("N", a.N(), s.n, 0); L e = 1e-12L * s.mag; Q("Average", a.Average(), s.n ? s.ax : 0, e); Q("Variance", a.Variance(), s.vx, e * s.mag * 10); if (s.vx > 0.01) Q("StdDev", a.StdDev(), std::sqrt(s.vx), 1e-8); if (s.n < 2) Q("StdDev", a.StdDev(), 0, 0); if (mm || !s.n) { Q("Minimum", a.Minimum(), s.n ? s.mnx : 0, 0); Q("Maximum", a.Maximum(), s.n ? s.mxx : 0, 0); } return true; } };
struct QAd : SAd { typedef SeqStats<double> A; static const char* nm() { return "SeqStats"; } static A make(int) { return A(); }
  static void add(A& a, const P2& v) { a.Add(v[0]); } static void sub(A& a, const P2& v) { a.Subtract(v[0]); } static void reset(A& a) { a.Reset(); }
  static void batch(A& a, const std::vector<P2>& v, int how, bool plus) { std::vector<double> x; for (auto& p : v) x.push_back(p[0]); Vector<double> X(x.size()); for (size_t i = 0; i < x.size(); i++) X(i) = x[i]; if (how) { if (plus) a.Add(x); else a.Subtract(x); } else { if (plus) a.Add(X); else a.Subtract(X); } }
  static bool dump(A& a) { if (!a.N()) return false; std::vector<unsigned> u; std::vector<double> t; a.Dump(u, t); A b; b.Add(77); b.Load(u, t); a = b; return true; }
  static bool minus(A& a, A& b) { a -= b; return true; }
  static bool check(const A& a, const Sum& s, bool mm, S& err) { Q("N", a.N(), s.n, 0); L e = 1e-12L * s.mag; Q("Average", a.Average(), s.n ? s.ax : 0, e); Q("Variance", a.Variance(), s.vx, e * s.mag * 10); if (s.vx > 0.01) Q("StdDev", a.StdDev(), std::sqrt(s.vx), 1e-8); if (s.n < 2) Q("StdDev", a.StdDev(), 0, 0); if (mm || !s.n) { Q("Minimum", a.Minimum(), s.n ? s.mnx : 0, 0); Q("Maximum", a.Maximum(), s.n ? s.mxx : 0, 0); } return true; } };
struct WAd { typedef WtdStats<double> A; static const char* nm() { return "WtdStats"; } static const int mode = 1; static A make(int) { return A(); }
  static void add(A& a, const P2& v) { a.Add(v[0], v[1]); } static void sub(A& a, const P2& v) { a.Subtract(v[0], v[1]); } static void reset(A& a) { a.Reset(); }
  static void batch(A& a, const std::vector<P2>& v, int how, bool plus) { std::vector<double> x, w; for (auto& p : v) { x.push_back(p[0]); w.push_back(p[1]); } Vector<double> X(x.size()), W(x.size()); for (size_t i = 0; i < x.size(); i++) { X(i) = x[i]; W(i) = w[i]; } if (how == 1) x.push_back(5); if (how) { if (plus) a.Add(x, w); else a.Subtract(x, w); } else { if (plus) a.Add(X, W); else a.Subtract(X, W); } }
  static bool dump(A& a) { if (!a.N()) return false; std::vector<unsigned> u; std::vector<double> t; a.Dump(u, t); A b; b.Add(77, 3); b.Load(u, t); a = b; return true; }
  static bool minus(A& a, A& b) { a -= b; return true; }
  static bool check(const A& a, const Sum& s, bool mm, S& err) { Q("N", a.N(), s.n, 0); L e = 1e-11L * s.mag; Q("Average", a.Average(), s.n ? s.ax : 0, e); Q("WtsSum", a.WtsSum(), s.W, 1e-12); Q("Variance", a.Variance(), s.vx, e * s.mag * 10); if (s.vx > 0.01) Q("StdDev", a.StdDev(), std::sqrt(s.vx), 1e-6); if (mm || !s.n) { Q("Minimum", a.Minimum(), s.n ? s.mnx : 0, 0); Q("Maximum", a.Maximum(), s.n ? s.mxx : 0, 0); } return true; } };
template <class G> static bool two(const G& g, const Sum& s, bool mm, S& err) { L e = 1e-12L * s.mag, f = 1e-12L * s.magy; Q("N", g.N, s.n, 0); Q("AverageX", g.ax, s.n ? s.ax : 0, e); Q("AverageY", g.ay, s.n ? s.ay : 0, f); Q("VarianceX", g.vx, s.vx, e * s.mag * 10); Q("VarianceY", g.vy, s.vy, f * s.magy * 10); if (s.vx > 0.01) Q("StdDevX", g.sx, std::sqrt(s.vx), 1e-8); if (s.vy > 0.01) Q("StdDevY", g.sy, std::sqrt(s.vy), 1e-8);
  if (mm || !s.n) { Q("MinimumX", g.mnx, s.n ? s.mnx : 0, 0); Q("MaximumX", g.mxx, s.n ? s.mxx : 0, 0); Q("MinimumY", g.mny, s.n ? s.mny : 0, 0); Q("MaximumY", g.mxy, s.n ? s.mxy : 0, 0); }
  if (s.n > 1 && s.vx > 0.01) { L sl = s.cxy / (s.vx * (s.n - 1)); Q("Slope", g.slope, sl, 1e-8); Q("Intercept", g.icpt, s.ay - sl * s.ax, 1e-6); Q("Evaluate", g.ev3, s.ay + sl * (3 - s.ax), 1e-6); if (s.vy > 0.01) { L r = s.cxy / ((s.n - 1) * std::sqrt(s.vx * s.vy)); Q("Correlation", g.r, r, 1e-8); L v = s.vy * (s.n - 1) / (s.n - 2) * (1 - r * r); if (s.n > 2 && v > 1e-3) { Q("SigmaYX", g.syx, std::sqrt(v), 1e-6); Q("SigmaSlope", g.ss, std::sqrt(v / (s.vx * (s.n - 1))), 1e-6); } } }
  if (s.n == 2 || s.n == 0) { Q("SigmaYX", g.syx, 0, 0); Q("SigmaSlope", g.ss, 0, 0); } if (s.n == 0) { Q("Slope", g.slope, 0, 0); Q("Intercept", g.icpt, 0, 0); } return true; }
struct TAd { typedef TwoSampleStats<double> A; static const char* nm() { return "TwoSampleStats"; } static const int mode = 0; static A make(int) { return A(); }
  static void add(A& a, const P2& v) { a.Add(v[0], v[1]); } static void sub(A& a, const P2& v) { a.Subtract(v[0], v[1]); } static void reset(A& a) { a.Reset(); }
  static void batch(A& a, const std::vector<P2>& v, int how, bool plus) { std::vector<double> x, w; for (auto& p : v) { x.push_back(p[0]); w.push_back(p[1]); } Vector<double> X(x.size()), W(x.size()); for (size_t i = 0; i < x.size(); i++) { X(i) = x[i]; W(i) = w[i]; } if (how == 1) w.push_back(5); if (how) { if (plus) a.Add(x, w); else a.Subtract(x, w); } else { if (plus) a.Add(X, W); else a.Subtract(X, W); } }
  static bool dump(A& a) { std::vector<unsigned> u; std::vector<double> t; a.Dump(u, t); A b; b.Add(77, 3); b.Load(u, t); a = b; return true; }
  static bool minus(A& a, A& b) { a -= b; return true; }
  static bool check(const A& a, const Sum& s, bool mm, S& err) { struct { L N, ax, ay, vx, vy, sx, sy, mnx, mxx, mny, mxy, slope, icpt, ev3, r, syx, ss; } g = { (L)a.N(), a.AverageX(), a.AverageY(), a.VarianceX(), a.VarianceY(), a.StdDevX(), a.StdDevY(), a.MinimumX(), a.MaximumX(), a.MinimumY(), a.MaximumY(), a.Slope(), a.Intercept(), a.Evaluate(3), a.Correlation(), a.SigmaYX(), a.SigmaSlope() }; return two(g, s, mm, err); } };
template <bool SC> struct BAd { typedef BivarStats<double> A; static const char* nm() { return SC ? "BivarStats-scaled" : "BivarStats"; } static const int mode = 0; static A make(int) { return A(SC); }
  static void add(A& a, const P2& v) { a.add(v[0], v[1]); } static void sub(A& a, const P2& v) { a.subtract(v[0], v[1]); } static void reset(A& a) { a.clear(); }
  static void batch(A& a, const std::vector<P2>& v, int how, bool plus) { std::vector<double> x, w; std::vector<std::pair<double, double> > pr; for (auto& p : v) { x.push_back(p[0]); w.push_back(p[1]); pr.push_back({p[0], p[1]}); } Vector<double> X(x.size()), W(x.size()); for (size_t i = 0; i < x.size(); i++) { X(i) = x[i]; W(i) = w[i]; }
    if (how == 1) { if (plus) a.add(pr); else a.subtract(pr); } else if (how == 2) { if (plus) a.add(x, w); else a.subtract(x, w); } else { if (plus) a.add(X, W); else a.subtract(X, W); } }
  static bool dump(A&) { return false; } static bool minus(A&, A&) { return false; }
  static bool check(const A& a, const Sum& s, bool mm, S& err) { struct { L N, ax, ay, vx, vy, sx, sy, mnx, mxx, mny, mxy, slope, icpt, ev3, r, syx, ss; } g = { (L)a.n(), a.averageX(), a.averageY(), a.varianceX(), a.varianceY(), a.stdDevX(), a.stdDevY(), a.minimumX(), a.maximumX(), a.minimumY(), a.maximumY(), a.slope(), a.intercept(), a.eval(3), a.correlation(), a.sigmaYX(), a.sigmaSlope() }; if (!two(g, s, mm, err)) return false;
    if (s.n > 1 && s.vx > 0.01) { std::vector<std::pair<double, double> > d = {{0, 0}, {2, 100}, {4, -50}}; Stats<double> e = a.estimateDeviation(d); L sl = s.cxy / (s.vx * (s.n - 1)), ic = s.ay - sl * s.ax, m = 0; for (auto& p : d) m += std::fabs(p.second - (ic + sl * p.first)); Q("estimateDeviation", e.Average(), m / 3, 1e-6); Q("estimateDeviation N", e.N(), 3, 0); } return true; } };
struct PAd { typedef PowerSum A; static const char* nm() { return "PowerSum"; } static const int mode = 0; static A make(int) { return A(); }
  static void add(A& a, const P2& v) { a.add(v[0]); } static void sub(A& a, const P2& v) { a.subtract(v[0]); } static void reset(A& a) { a.clear(); }
  static void batch(A& a, const std::vector<P2>& v, int, bool plus) { std::list<double> x; for (auto& p : v) x.push_back(p[0]); if (plus) a.add(x.begin(), x.end()); else a.subtract(x.begin(), x.end()); }
  static bool dump(A&) { return false; } static bool minus(A&, A&) { return false; }
  static bool check(const A& a, const Sum& s, bool, S& err) { Q("size", a.size(), s.n, 0); Q("average", a.average(), s.n ? s.ax : 0, 1e-11 * s.mag); Q("variance", a.variance(), s.n > 1 ? s.vx * (s.n - 1) / s.n : 0, 1e-10 * s.mag * s.mag); return true; } };
// operations: add v, subtract v, A+=B, A-=B, swap, B=A, reset, dump+load, batches
template <class D> struct Run { typedef typename D::A A; Ctx& c; const std::vector<P2>& V; int depth; std::vector<int> hist; bool merge;
  static bool within(std::vector<int> a, std::vector<int> b) { for (int k : b) { auto p = std::find(a.begin(), a.end(), k); if (p == a.end()) return false; a.erase(p); } return true; } // b is part of a
  static void erase(std::vector<int>& a, int k) { a.erase(std::find(a.begin(), a.end(), k)); }
  int nv() const { return V.size(); } int nops() const { return 2 * nv() + 6 + 6; }
  bool eff(int k) const { return !(D::mode && V[k][1] == 0); }
  bool step(int o, A& a, Ref& ra, A& b, Ref& rb); void dfs(A a, Ref ra, A b, Ref rb, int d);
  bool look(const A& a, const Ref& r) { Sum s = calc(r.it, V, D::mode); S err; c.eval(); if (D::check(a, s, r.mm, err)) { c.outcome(u64(hmix(u64(s.n), hdbl((double)s.vx)))); return true; } S h; for (int o : hist) h += num(o) + " "; c.fail(S(D::nm()) + ":" + err.substr(0, err.find(' ')), S(D::nm()) + " after ops " + h + ": " + err); return false; } };
template <class A> struct Pl { static void plus(A& a, A& b) { a += b; } }; template <> struct Pl<PowerSum> { static void plus(PowerSum&, PowerSum&) {} };
template <class D> bool Run<D>::step(int o, A& a, Ref& ra, A& b, Ref& rb) { int n = nv(); bool emp = ra.it.empty();
  if (o < n) { D::add(a, V[o]); if (eff(o)) { if (emp) ra.mm = true; ra.it.push_back(o); } return true; } o -= n;
  if (o < n) { if (eff(o) && std::find(ra.it.begin(), ra.it.end(), o) == ra.it.end()) return emp && o == 0 ? (D::mode || n ? (D::nm()[0] == 'P' ? false : (D::sub(a, V[o]), true)) : false) : false; D::sub(a, V[o]); if (eff(o)) { erase(ra.it, o); ra.mm = false; } return true; } o -= n;
  if (o == 0) { if (!merge) return false; Pl<A>::plus(a, b); if (!rb.it.empty()) { if (emp) ra.mm = rb.mm; else ra.mm = ra.mm && rb.mm; ra.it.insert(ra.it.end(), rb.it.begin(), rb.it.end()); } return true; }
  if (o == 1) { if (!within(ra.it, rb.it) || !D::minus(a, b)) return false; std::vector<int> r = rb.it; for (int k : r) erase(ra.it, k); if (!r.empty()) ra.mm = false; return true; }
  if (o == 2) { std::swap(a, b); std::swap(ra, rb); return true; }
  if (o == 3) { b = a; rb = ra; return true; }
  if (o == 4) { if (emp && !ra.mm) ; D::reset(a); ra = Ref(); return true; }
  if (o == 5) return D::dump(a);
  o -= 6; int how = o % 3; bool plus = o < 3; std::vector<P2> v = {V[1], V[n - 1], V[2]}; if (plus) { if (emp) ra.mm = true; D::batch(a, v, how, true); for (int k : {1, n - 1, 2}) if (eff(k)) ra.it.push_back(k); return true; }
  std::vector<int> w; for (int k : {1, n - 1, 2}) if (eff(k)) w.push_back(k); if (!within(ra.it, w)) return false; D::batch(a, v, how, false); for (int k : w) erase(ra.it, k); ra.mm = false; return true; }
template <class D> void Run<D>::dfs(A a, Ref ra, A b, Ref rb, int d) { c.states(1); if (!look(a, ra)) return; if (d == 0) { c.traces(1); return; } for (int o = 0; o < nops(); o++) { A x(a), y(b); Ref rx(ra), ry(rb); hist.push_back(o); if (step(o, x, rx, y, ry)) { c.trans(1); dfs(x, rx, y, ry, d - 1); } hist.pop_back(); } }
template <class D> static void part(Harness& h, const std::vector<P2>& V0, int depth, bool merge) { static std::vector<P2> V; V = V0; int nops = 2 * V.size() + 12; const std::vector<P2>* pv = &V; h.part(D::nm(), nops * nops, [=](Ctx& c, u64 i) { Run<D> r{c, *pv, depth, {}, merge}; typename D::A a = D::make(0), b = D::make(0); Ref ra, rb; int o1 = i / nops, o2 = i % nops; c.at(S(D::nm()) + " history starting " + num(o1) + " " + num(o2)); if (!r.look(a, ra)) return; r.hist = {o1}; if (!r.step(o1, a, ra, b, rb) || !r.look(a, ra)) return; r.hist = {o1, o2}; if (!r.step(o2, a, ra, b, rb)) return; r.dfs(a, ra, b, rb, depth - 2); }, 120); }

int main(int argc, char** argv) {
  Harness h("C34"); int TH = h.thorough; int d = TH ? 6 : 5;
  std::vector<P2> one = {{0, 0}, {1, 0}, {-3, 0}, {2.5, 0}, {1024.5, 0}}, wtd = {{0, 1}, {1, 0.5}, {-3, 2}, {2.5, -1}, {64.5, 0.25}, {9, 0}}, pr = {{0, 1}, {1, 0}, {-3, 2.5}, {2, -64}, {32.5, 7}};
  part<SAd>(h, one, d, true); part<QAd>(h, one, d, true); part<WAd>(h, wtd, d, true); part<TAd>(h, pr, d, true); part<BAd<false>>(h, pr, d, true); part<BAd<true>>(h, pr, d, true); part<PAd>(h, {{0, 0}, {1, 0}, {-3, 0}, {2.5, 0}, {7, 0}}, d, false);
  // moments, short dumps, constructors, medians
  h.part("moments", 5 * 5 * 5 * 5, [=](Ctx& c, u64 i) { static const double A[] = {0, 1, -3, 2.5, 7}; Mix m(i); std::vector<double> x; int len = 0; for (int k = 0; k < 4; k++) x.push_back(A[m(5)]); for (len = 0; len <= 6; len++) for (int e = 0; e < (len > 4 ? 25 : 1); e++) { std::vector<double> y(x.begin(), x.begin() + std::min(len, 4)); if (len > 4) y.push_back(A[e % 5]); if (len > 5) y.push_back(A[e / 5]); else if (e >= 5) break; PowerSum p; L n = y.size(), mu = 0; for (double v : y) { p.add(v); mu += v; } if (n) mu /= n; c.eval(); L cm[6] = {0}; for (double v : y) { L t = 1; for (int k = 0; k < 6; k++) { cm[k] += t / n; t *= v - mu; } } S D; for (double v : y) D += num(v) + " ";
      for (int k = 1; k <= 6; k++) { L w = k > 5 || k > n ? 0 : k == 1 ? mu : cm[k]; if (std::fabs(p.moment(k) - w) > 1e-9L * (1 + std::pow(10.0L, k))) c.fail("PowerSum:moment", num(k) + " of " + D + " is " + num(p.moment(k)) + " want " + num(w)); } if (n >= 3 && cm[2] > 0.01) { if (std::fabs(p.skew() - cm[3] / std::pow(cm[2], 1.5L)) > 1e-7) c.fail("PowerSum:skew", D); if (n >= 4 && std::fabs(p.kurtosis() - cm[4] / (cm[2] * cm[2])) > 1e-7) c.fail("PowerSum:kurtosis", D); if (n == 3 && p.kurtosis() != 0) c.fail("PowerSum:kurtosis", D); }
      Vector<double> Y(y.size()); for (size_t k = 0; k < y.size(); k++) Y(k) = y[k]; auto med = [](std::vector<double> v) { std::sort(v.begin(), v.end()); size_t n = v.size(); return n == 0 ? 0. : n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2; }; double M = med(y); if (median(y) != M || median(Y) != M) c.fail("median", D); std::vector<double> dv; for (double v : y) dv.push_back(std::fabs(v - M)); double MD = y.size() < 2 ? 0 : med(dv); if (mad(y) != MD || mad(Y) != MD) c.fail("mad", D); for (size_t k = 0; k < y.size(); k++) if (Y(k) != y[k]) c.fail("median:modifies", D);
      if (!y.empty()) { std::vector<double> w(y.size(), 2), z(y.rbegin(), y.rend()); Vector<double> W(y.size(), 2.), Z(y.size()); for (size_t k = 0; k < y.size(); k++) Z(k) = z[k]; SeqStats<double> s(Y); WtdStats<double> ws(Y, W); TwoSampleStats<double> t(Y, Z); BivarStats<double> b1(y, z), b2(Y, Z, true), b3(y[0], z[0]); std::vector<std::pair<double, double> > pp; for (size_t k = 0; k < y.size(); k++) pp.push_back({y[k], z[k]}); BivarStats<double> b4(pp); if (s.N() != n || ws.N() != n || t.N() != n || b1.n() != n || b2.n() != n || b3.n() != 1 || b4.n() != n) c.fail("constructor:N", D); for (double a : {s.Average(), ws.Average(), t.AverageX(), t.AverageY(), b1.averageX(), b1.averageY(), b2.averageX(), b2.averageY(), b4.averageX(), b4.averageY()}) if (std::fabs(a - mu) > 1e-12) c.fail("constructor:average", D); if (b3.averageX() != y[0] || b3.averageY() != z[0]) c.fail("constructor:point", D);
        for (size_t cut = 0; cut <= 12; cut++) { std::vector<unsigned> u; std::vector<double> v; t.Dump(u, v); for (int which = 0; which < 2; which++) { auto u2 = u; auto v2 = v; if (which) u2.resize(std::min<size_t>(cut, u2.size())); else v2.resize(std::min<size_t>(cut, v2.size())); u2.shrink_to_fit(); v2.shrink_to_fit(); bool full = u2.size() == u.size() && v2.size() == v.size(); TwoSampleStats<double> r; r.Add(1, 2); r.Load(u2, v2); if (r.N() != (full ? n : 0)) c.fail("Load:short", num(cut)); r.Add(4, 5); if (!full && (r.AverageX() != 4 || r.AverageY() != 5 || r.N() != 1)) c.fail("Load:short-then-add", num(cut)); }
          Stats<double> s1; for (double a : y) s1.Add(a); s1.Dump(u, v); v.resize(std::min<size_t>(cut, v.size())); v.shrink_to_fit(); Stats<double> r; r.Add(8); r.Load(u, v); if (r.N() != (cut >= 5 ? n : 0)) c.fail("Load:short-one", num(cut)); ws.Dump(u, v); bool full = cut >= v.size(); v.resize(std::min<size_t>(cut, v.size())); v.shrink_to_fit(); WtdStats<double> rw; rw.Add(8, 1); rw.Load(u, v); if (rw.N() != (full ? n : 0)) c.fail("Load:short-weighted", num(cut)); } } c.outcome(u64(hdbl((double)(n ? cm[3] : 0)))); } }, 120);
  return h.run(argc, argv);
}
