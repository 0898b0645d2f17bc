// C35 interpolation and polynomial fitting: every node set of a grid x every basis polynomial x evaluation points, in value and derivatives
// MC-SAN: asan
// MC-RULE: interpolation through N nodes reproduces value, first and second derivative of every polynomial of degree < N ; the fit is the weighted least squares solution with its covariance
// MC-ASSUME: nodes are distinct for interpolation ; fit systems are claimed when the nodes determine the polynomial, or when fewer points than coefficients exist
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdarg>
#include <map>
#include <memory>
#include "mc.hpp"
#include "MiscMath.hpp"
#include "PolyFit.hpp"
using namespace gpstk; using namespace mc; typedef std::string S; typedef long double L;
static S num(L d) { char b[50]; snprintf(b, 50, "%.15Lg", d); return b; }
// ---- interpolation reference: monomials in u = (x-o)/s, degree k
static L mono(L u, int k) { L r = 1; while (k-- > 0) r *= u; return r; }
struct Poly { std::vector<L> a; L s, o; L d(L x, int n) const { L u = (x - o) / s, r = 0; for (size_t k = n; k < a.size(); k++) { L f = 1; for (int q = 0; q < n; q++) f *= (k - q); r += a[k] * f * mono(u, k - n); } return r / mono(s, n); } };
// magnitude of the interpolation sum, for tolerances: sum |Y_i| |n-th derivative of L_i at x| with the terms of the product rule taken in absolute value
template <class T> static L scale(const std::vector<T>& X, const std::vector<T>& Y, L x, int n) { size_t N = X.size(); L tot = 0; for (size_t i = 0; i < N; i++) { L D = 1; for (size_t j = 0; j < N; j++) if (j != i) D *= (L)X[i] - X[j]; L s = 0; for (size_t p = 0; p < (n > 0 ? N : 1); p++) { if (n > 0 && p == i) continue; for (size_t q = 0; q < (n > 1 ? N : 1); q++) { if (n > 1 && (q == i || q == p)) continue; L m = 1; for (size_t j = 0; j < N; j++) { if (j == i || (n > 0 && j == p) || (n > 1 && j == q)) continue; m *= x - X[j]; } s += std::fabs(m); } } tot += std::fabs(Y[i] * s / D); } return tot; }
template <class T> static void interp(Ctx& c, const char* ty, const std::vector<T>& X, const std::vector<L>& xs, L s, L o, L eps) {
  size_t N = X.size(); std::vector<Poly> P; for (size_t k = 0; k < N; k++) { Poly p; p.s = s; p.o = o; p.a.assign(k + 1, 0); p.a[k] = 1; P.push_back(p); } Poly q; q.s = s; q.o = o; for (size_t k = 0; k < N; k++) q.a.push_back((L)((k * 7 + 3) % 11) - 5); P.push_back(q);
  for (auto& p : P) { std::vector<T> Y; for (T x : X) Y.push_back((T)p.d(x, 0)); std::vector<T> YL(Y); YL.push_back(99); bool low = p.a.size() < N && &p != &P.back();
    for (L xx : xs) { T x = (T)xx; L sc[3]; for (int n = 0; n < 3; n++) sc[n] = scale(X, Y, x, n); L w0 = p.d(x, 0), w1 = p.d(x, 1), w2 = p.d(x, 2); c.eval(1); c.states(1);
      auto desc = [&] { S d = S(ty) + " nodes"; for (T t : X) d += " " + num(t); return d + " polynomial of degree " + std::to_string(p.a.size() - 1) + " at " + num(x); };
      T v = SimpleLagrangeInterpolation(X, YL, x); MC_CK(c, std::fabs(v - w0) <= eps * sc[0], "simple", desc() << " gives " << num(v) << ", want " << num(w0)); c.trans(1);
      if (N < 4) { for (int k = 0; k < 2; k++) { T y = 0, z = 0; S e = thrown([&] { if (k) LagrangeInterpolation(X, Y, x, y, z); else LagrangeInterpolation(X, Y, x, z); }); MC_CK(c, e.find("Exception") != S::npos, "short", desc() << " not refused"); } }
      else { T err = -7, y = 0, dy = 0; v = LagrangeInterpolation(X, YL, x, err); MC_CK(c, std::fabs(v - w0) <= eps * 8 * sc[0], "neville", desc() << " gives " << num(v) << ", want " << num(w0)); if (low) MC_CK(c, std::fabs(err) <= eps * 40 * sc[0], "error-estimate-low", desc() << ": error estimate " << num(err) << " though a lower order already reproduces it");
        // the error estimate is the change made by the last node: value minus the interpolation without the first or without the last node
        bool at = false; { size_t k = N / 2; at = x == X[k] || x == X[k - 1]; } if (at) MC_CK(c, err == 0, "error-estimate-node", desc() << ": error estimate " << num(err) << " at a central node"); else { L e[2]; for (int z = 0; z < 2; z++) { L t = 0; for (size_t i = 1 - z; i < N - z; i++) { L li = 1; for (size_t j = 1 - z; j < N - z; j++) if (j != i) li *= (x - (L)X[j]) / ((L)X[i] - X[j]); t += li * Y[i]; } e[z] = w0 - t; } L tol = eps * 40 * sc[0] + eps * 100 * (std::fabs(e[0]) + std::fabs(e[1])); MC_CK(c, std::fabs(err - e[0]) <= tol || std::fabs(err - e[1]) <= tol, "error-estimate", desc() << ": error estimate " << num(err) << ", the last node changes the value by " << num(e[0]) << " or " << num(e[1])); }
        LagrangeInterpolation(X, YL, x, y, dy); MC_CK(c, std::fabs(y - w0) <= eps * sc[0], "value+slope", desc() << " gives " << num(y) << ", want " << num(w0)); MC_CK(c, std::fabs(dy - w1) <= eps * 2 * sc[1], "slope", desc() << " slope " << num(dy) << ", want " << num(w1)); c.trans(2); }
      T a = LagrangeInterpolating2ndDerivative(X, YL, x); MC_CK(c, std::fabs(a - w2) <= eps * 2 * sc[2], "second", desc() << " second derivative " << num(a) << ", want " << num(w2)); c.trans(1); } } }
// ---- least squares reference: exact-enough long double normal equations by elimination with full pivoting
static bool solve(std::vector<std::vector<L> > A, std::vector<std::vector<L> > B, std::vector<std::vector<L> >& X) { int n = A.size(), m = B[0].size(); for (int k = 0; k < n; k++) { int p = k; for (int r = k; r < n; r++) if (std::fabs(A[r][k]) > std::fabs(A[p][k])) p = r; if (std::fabs(A[p][k]) < 1e-12L) return false; std::swap(A[p], A[k]); std::swap(B[p], B[k]); for (int r = 0; r < n; r++) if (r != k) { L f = A[r][k] / A[k][k]; for (int q = 0; q < n; q++) A[r][q] -= f * A[k][q]; for (int q = 0; q < m; q++) B[r][q] -= f * B[k][q]; } } X = B; for (int r = 0; r < n; r++) for (int q = 0; q < m; q++) X[r][q] /= A[r][r]; return true; }
struct Obs { int t; L d, w; };
static void fitcheck(Ctx& c, PolyFit<double>& f, const std::vector<Obs>& o, int n, const std::function<S()>& desc) { std::map<int, int> dist; for (auto& x : o) if (x.w) dist[x.t]++; c.states(1);
  MC_CK(c, f.N() == o.size() && f.Degree() == (unsigned)n, "fit-count", desc() << ": N " << f.N() << " Degree " << f.Degree());
  if ((int)dist.size() < n) { if ((int)o.size() < n) { MC_CK(c, f.isSingular(), "fit-underdetermined", desc() << " is not reported singular"); MC_CK(c, f.Evaluate(1.5) == 0 && f.Evaluate(Vector<double>(2, 1.0)).size() == 0, "fit-singular-value", desc() << ": a singular problem evaluates to " << f.Evaluate(1.5)); } return; }
  std::vector<std::vector<L> > A(n, std::vector<L>(n, 0)), B(n, std::vector<L>(n + 1, 0)), X; for (auto& x : o) for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) A[i][j] += x.w * mono(x.t, i + j); B[i][n] += x.w * x.d * mono(x.t, i); } for (int i = 0; i < n; i++) B[i][i] = 1; solve(A, B, X);
  MC_CK(c, !f.isSingular(), "fit-singular", desc() << " is reported singular"); Vector<double> s = f.Solution(); Matrix<double> C = f.Covariance(); MC_CK(c, (int)s.size() == n && (int)C.rows() == n && (int)C.cols() == n, "fit-dimension", desc() << ": solution of " << s.size()); L big = 1; for (int i = 0; i < n; i++) big = std::max(big, std::fabs(X[i][n]));
  for (int i = 0; i < n; i++) { MC_CK(c, std::fabs(s(i) - X[i][n]) <= 1e-8L * big, "fit-solution", desc() << ": coefficient " << i << " is " << num(s(i)) << ", want " << num(X[i][n])); for (int j = 0; j < n; j++) { L t = 1e-8L * std::sqrt(std::fabs(X[i][i] * X[j][j])); MC_CK(c, std::fabs(C(i, j) - X[i][j]) <= t, "fit-covariance", desc() << ": covariance " << i << "," << j << " is " << num(C(i, j)) << ", want " << num(X[i][j])); } }
  Vector<double> vt(4); vt(0) = -2.5; vt(1) = 0; vt(2) = 1; vt(3) = 4.25; Vector<double> r = f.Evaluate(vt); MC_CK(c, r.size() == 4, "fit-evaluate", desc() << ": vector evaluation of " << r.size()); for (int k = 0; k < 4; k++) { L w = 0; for (int i = 0; i < n; i++) w += X[i][n] * mono(vt(k), i); L e = f.Evaluate(vt(k)); MC_CK(c, std::fabs(e - w) <= 1e-6L * big && std::fabs(r(k) - w) <= 1e-6L * big, "fit-evaluate", desc() << ": at " << vt(k) << " gives " << num(e) << " / " << num(r(k)) << ", want " << num(w)); } }
static void addv(PolyFit<double>& f, const std::vector<Obs>& o, int how) { if (how == 0) { for (auto& x : o) if (x.w == 1) f.Add(x.d, x.t); else f.Add(x.d, x.t, x.w); return; } std::vector<double> d, t; for (auto& x : o) { d.push_back(x.d); t.push_back(x.t); } if (how == 3) d.push_back(55); if (how == 4) t.push_back(55); if (how == 2) { Vector<double> D(d.size()), T(t.size()); for (size_t i = 0; i < d.size(); i++) { D(i) = d[i]; T(i) = t[i]; } f.Add(D, T); } else f.Add(d, t); }
int main(int argc, char** argv) {
  Harness h("C35"); const bool deep = h.thorough;
  std::vector<std::vector<int> > sets; for (int m = 0; m < (1 << 10); m++) { std::vector<int> v; for (int b = 0; b < 10; b++) if (m >> b & 1) v.push_back(b - 4); if (v.size() >= 2) sets.push_back(v); }
  // affine placements of the grid: unit, fractional offset, 15-minute epochs in seconds, days around a Julian date
  static const double PL[4][2] = {{1, 0}, {0.25, 3}, {900, 345600}, {1.0 / 64, 1024}};
  h.part("interpolate", sets.size() * 4, [&](Ctx& c, u64 i) { Mix m(i); int pl = m(4); const std::vector<int>& g = sets[m(sets.size())]; double s = PL[pl][0], o = PL[pl][1]; std::vector<double> X; std::vector<long double> XL; std::vector<float> XF; for (int k : g) { X.push_back(o + s * k); XL.push_back(o + s * k); XF.push_back(o + s * k); } std::vector<L> xs; for (int q = deep ? -24 : -12; q <= (deep ? 28 : 14); q++) xs.push_back(o + s * q / (deep ? 4 : 2) + (q % 3 ? 0 : s / 16)); c.at("interpolation"); interp<double>(c, "double", X, xs, s, o, 2e-13L); if (pl < 2 || deep) interp<long double>(c, "long double", XL, xs, s, o, 1e-15L); if (pl == 0) interp<float>(c, "float", XF, {0, 0.5, 1, -1.25, 2.75, 5}, s, o, 2e-5L); }, 120);
  // order of the nodes: all permutations of sets of four and five
  { static std::vector<std::vector<int> > ps; for (auto& v : sets) if (v.size() == 4 || (v.size() == 5 && (deep || v[0] == -4))) ps.push_back(v); h.part("node-order", ps.size(), [&](Ctx& c, u64 i) { std::vector<int> v = ps[i]; c.at("node order"); std::vector<L> xs = {-3.5, -1, 0, 0.25, 1.5, 2, 5.5}; do { std::vector<double> X(v.begin(), v.end()); interp<double>(c, "double", X, xs, 1, 0, 2e-13L); } while (std::next_permutation(v.begin(), v.end())); }, 120); }
  h.part("lagrange-refusals", 12 * 12, [&](Ctx& c, u64 i) { size_t a = i % 12, b = i / 12; c.at("sizes"); std::vector<double> X, Y; for (size_t k = 0; k < a; k++) X.push_back(k); for (size_t k = 0; k < b; k++) Y.push_back(k * 2); double e, y, d; S t1 = thrown([&] { SimpleLagrangeInterpolation(X, Y, 0.5); }), t2 = thrown([&] { LagrangeInterpolation(X, Y, 0.5, e); }), t3 = thrown([&] { LagrangeInterpolation(X, Y, 0.5, y, d); }); c.eval(3); c.states(1); c.trans(3); MC_CK(c, (t1 == "") == (b >= a), "simple-sizes", a << " nodes, " << b << " values: " << t1); for (S t : {t2, t3}) MC_CK(c, (t == "") == (b >= a && a >= 4), "sizes", a << " nodes, " << b << " values: " << t); });
  // polynomial fits: every node multiset up to size 6 of six times, every coefficient count, several data patterns and weights
  { static std::vector<std::vector<int> > ms; std::function<void(std::vector<int>&, int)> rec = [&](std::vector<int>& v, int lo) { if (!v.empty()) ms.push_back(v); if (v.size() < (deep ? 7u : 6u)) for (int t = lo; t < 6; t++) { v.push_back(t); rec(v, t); v.pop_back(); } }; std::vector<int> v; rec(v, 0); static const int TM[6] = {-3, -1, 0, 1, 2, 5};
    h.part("fit", ms.size() * 5, [&](Ctx& c, u64 i) { Mix m(i); int how = m(5); const std::vector<int>& g = ms[m(ms.size())]; c.at("polynomial fit"); for (int n = 1; n <= 4; n++) for (int pat = 0; pat < 6; pat++) for (int wp = 0; wp < (how == 0 ? 3 : 1); wp++) { std::vector<Obs> o; for (size_t k = 0; k < g.size(); k++) { int t = TM[g[k]]; L d = pat < 4 ? mono(t, pat) : pat == 4 ? 2 - 3 * t + t * t : (L)((k * 5 + g[k] * 3) % 7) - 3; L w = wp == 0 ? 1 : wp == 1 ? 0.25 * (1 + (k * 3 + g[k]) % 5) : (k % 3 == 1 ? 0 : 2); o.push_back({t, d, w}); } PolyFit<double> f(n); addv(f, o, how); c.eval(1); c.trans(o.size());
        auto desc = [&] { S s = "fit of " + std::to_string(n) + " coefficients to"; for (auto& x : o) s += " (" + std::to_string(x.t) + "," + num(x.d) + (x.w != 1 ? " w" + num(x.w) : S("")) + ")"; return s + " added by method " + std::to_string(how); }; fitcheck(c, f, o, n, desc); if (pat < n && (int)std::set<int>(g.begin(), g.end()).size() >= n && wp < 2) { L e = f.Evaluate(3.5); MC_CK(c, std::fabs(e - mono(3.5L, pat)) < 1e-6L, "fit-reproduces", desc() << " evaluates to " << num(e) << " at 3.5"); } } }, 120); }
  // operation histories: add one, add several, query, reset, reset to another size
  { static const std::vector<Obs> OB = {{-1, 2, 1}, {0, 1, 1}, {2, -3, 0.5}, {3, 4, 1}, {1, 0, 3}}; h.part("fit-histories", 8, [&](Ctx& c, u64 p) { c.at("fit history"); bfs(c, 8, deep ? 7 : 6, {(int)p}, [&](const std::vector<int>& hist, S& canon) { int n = 2; PolyFit<double> f(2); std::vector<Obs> o; S tr; for (int op : hist) { if (op < 4) { const Obs& x = OB[op]; f.Add(x.d, x.t, x.w); o.push_back(x); tr += " add" + std::to_string(op); } else if (op == 4) { std::vector<Obs> b = {OB[4], OB[1]}; b[0].w = b[1].w = 1; addv(f, b, 1); o.insert(o.end(), b.begin(), b.end()); tr += " addv"; } else if (op == 5) { f.isSingular(); f.Evaluate(1); tr += " query"; } else if (op == 6) { f.Reset(); o.clear(); tr += " reset"; } else { n = n == 2 ? 3 : 2; f.Reset(n); o.clear(); tr += " resize"; } c.trans(1); }
        c.eval(1); c.traces(1); fitcheck(c, f, o, n, [&] { return "after" + tr; }); canon = std::to_string(n) + (hist.empty() ? '-' : hist.back() == 5 ? 'q' : '.'); std::vector<int> k; for (auto& x : o) k.push_back(x.t * 10 + (int)(x.w * 4)); std::sort(k.begin(), k.end()); for (int x : k) canon += "," + std::to_string(x); return true; }); }, 120); }
  h.part("rss-round", 4096, [&](Ctx& c, u64 i) { Mix m(i); static const double V[8] = {0, 1, -3, 4, 1e-200, -1e200, 2.5e-3, 12}; double a = V[m(8)], b = V[m(8)], d = V[m(8)], e = V[m(8)]; c.at("rss"); auto ck = [&](double got, L w, const char* k) { c.eval(1); MC_CK(c, std::fabs(got - w) <= 1e-14L * w, k, "rss of " << a << "," << b << "," << d << "," << e << " is " << num(got) << ", want " << num(w)); }; auto sq = [](L x) { return x * x; }; ck(RSS(a, b), std::sqrt(sq(a) + sq(b)), "rss2"); ck(RSS(a, b, d), std::sqrt(sq(a) + sq(b) + sq(d)), "rss3"); ck(RSS(a, b, d, e), std::sqrt(sq(a) + sq(b) + sq(d) + sq(e)), "rss4"); for (double x : {a, b + 0.5, d - 0.25, e + 0.75}) if (std::fabs(x) < 1e9) MC_CK(c, Round(x) == std::floor(x) + (x - std::floor(x) >= 0.5 ? 1 : 0), "round", "Round(" << x << ") is " << Round(x)); c.states(1); c.trans(4); });
  return h.run(argc, argv);
}
