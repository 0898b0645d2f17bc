// C32: matrix and vector algebra, exhaustively over small matrices with exact
// rational oracles.
// MC-SAN: assert asan
// MC-RULE: all shapes up to 4x4 with every slice start/length/stride; every vector of length <= 3 over 5 values in pairs; every 2x2 matrix over -2..2, every 3x3 over {-1,0,1}, every 4x4 over {0,1} (quick: every third), and row/column scalings and tiny pivots of the 3x3 ones; every shape up to 5x5 with 2000 (thorough: 40000) patterned fillings for SVD and Householder
// MC-ASSUME: the exact inverse and determinant of the small matrices are computed by cofactors in integers, independently of the library
#include "mc.hpp"
#include <memory>
#include <map>
#include <array>
#include "Matrix.hpp"
using namespace gpstk;
using namespace mc;
typedef Matrix<double> M;
typedef Vector<double> V;
typedef std::vector<std::vector<double> > R;   // reference matrix

static M mk(const R& r, size_t nr, size_t nc) { M m(nr, nc, 0.0); for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) m(i, j) = r[i][j]; return m; }
static R uniq(size_t nr, size_t nc, double base = 0) { R r(nr, std::vector<double>(nc)); for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) r[i][j] = base + 10 * (i + 1) + (j + 1); return r; }
template <class B> static bool same(const ConstMatrixBase<double, B>& m, const R& r, size_t nr, size_t nc)
{
   if (m.rows() != nr || m.cols() != nc) return false;
   for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) if (!(m(i, j) == r[i][j])) return false;
   return true;
}
template <class B> static std::string show(const ConstMatrixBase<double, B>& m)
{
   std::ostringstream o; o.precision(17); o << m.rows() << "x" << m.cols() << "[";
   for (size_t i = 0; i < m.rows(); i++) { for (size_t j = 0; j < m.cols(); j++) o << (j ? " " : "") << m(i, j); o << "; "; }
   o << "]"; return o.str();
}
template <class B> static std::string showv(const ConstVectorBase<double, B>& v)
{ std::ostringstream o; o.precision(17); o << "("; for (size_t i = 0; i < v.size(); i++) o << (i ? " " : "") << v[i]; o << ")"; return o.str(); }
template <class B> static bool samev(const ConstVectorBase<double, B>& v, const std::vector<double>& r)
{ if (v.size() != r.size()) return false; for (size_t i = 0; i < r.size(); i++) if (!(v[i] == r[i])) return false; return true; }
static bool nearM(const M& a, const M& b, double tol)
{
   if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
   for (size_t i = 0; i < a.rows(); i++) for (size_t j = 0; j < a.cols(); j++) if (!(std::fabs(a(i, j) - b(i, j)) <= tol)) return false;
   return true;
}
static M mulRef(const M& a, const M& b)
{
   M r(a.rows(), b.cols(), 0.0);
   for (size_t i = 0; i < a.rows(); i++) for (size_t j = 0; j < b.cols(); j++) { long double s = 0; for (size_t k = 0; k < a.cols(); k++) s += (long double)a(i, k) * b(k, j); r(i, j) = (double)s; }
   return r;
}
static M trRef(const M& a) { M r(a.cols(), a.rows(), 0.0); for (size_t i = 0; i < a.rows(); i++) for (size_t j = 0; j < a.cols(); j++) r(j, i) = a(i, j); return r; }
static M idRef(size_t n) { M r(n, n, 0.0); for (size_t i = 0; i < n; i++) r(i, i) = 1; return r; }
static double maxRef(const M& a) { double m = 0; for (size_t i = 0; i < a.rows(); i++) for (size_t j = 0; j < a.cols(); j++) m = std::max(m, std::fabs(a(i, j))); return m; }
// integer determinant and adjugate by cofactors
typedef std::vector<std::vector<long> > Z;
static long detZ(const Z& a)
{
   size_t n = a.size(); if (n == 1) return a[0][0];
   long d = 0;
   for (size_t c = 0; c < n; c++) { if (!a[0][c]) continue; Z s; for (size_t i = 1; i < n; i++) { std::vector<long> row; for (size_t j = 0; j < n; j++) if (j != c) row.push_back(a[i][j]); s.push_back(row); } d += ((c & 1) ? -1 : 1) * a[0][c] * detZ(s); }
   return d;
}
static long cofZ(const Z& a, size_t r, size_t c)
{
   size_t n = a.size(); if (n == 1) return 1;
   Z s; for (size_t i = 0; i < n; i++) if (i != r) { std::vector<long> row; for (size_t j = 0; j < n; j++) if (j != c) row.push_back(a[i][j]); s.push_back(row); }
   return (((r + c) & 1) ? -1 : 1) * detZ(s);
}

// SVD: shapes, orthonormality, reconstruction, ordering
static void ckSVD(Ctx& c, const M& a, double det, bool haveDet)
{
   size_t r = a.rows(), k = a.cols(), mn = std::min(r, k); double sc = maxRef(a) * std::max(r, k) + 1e-300, tol = 1e-13;
   SVD<double> d; std::string ex = thrown([&] { d(a); });
   if (ex != "") { c.fail("svd-throws", show(a) + " " + ex); return; }
   for (int ord = 0; ord < 3; ord++)
   {
      if (ord == 1) d.sort(true); if (ord == 2) d.sort(false);
      bool shape = d.U.rows() == r && d.U.cols() == r && d.V.rows() == k && d.V.cols() == k && d.S.size() == mn;
      if (!shape) { c.fail("svd-shape", show(a)); return; }
      M W(r, k, 0.0); for (size_t i = 0; i < mn; i++) W(i, i) = d.S(i);
      MC_CK(c, nearM(mulRef(mulRef(d.U, W), trRef(d.V)), a, 20 * tol * sc), "svd-reconstruct", show(a) << " order " << ord);
      {  // columns belonging to non-zero singular values (all of them for square or full-rank input) ...
         double smx = 0; for (size_t i = 0; i < mn; i++) smx = std::max(smx, d.S(i));
         bool defi = false; for (size_t i = 0; i < mn; i++) defi |= !(d.S(i) > 1e-12 * smx);
         M gv = mulRef(trRef(d.V), d.V), gu = mulRef(trRef(d.U), d.U); bool main = true, nul = true;
         auto ckg = [&](const M& g, size_t n) { for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (!(std::fabs(g(i, j) - (i == j)) <= 20 * tol)) { if (r != k && defi && (i >= mn || j >= mn || !(d.S(i) > 1e-12 * smx) || !(d.S(j) > 1e-12 * smx))) nul = false; else main = false; } };
         ckg(gv, k); ckg(gu, r);
         MC_CK(c, main, "svd-orthonormal", show(a) << " U " << show(d.U) << " V " << show(d.V));
         // ... and those completing the basis of a rank-deficient non-square matrix
         MC_CK(c, nul, "svd-null-vectors", show(a) << " U " << show(d.U) << " V " << show(d.V));
      }
      for (size_t i = 0; i < mn; i++) MC_CK(c, d.S(i) >= 0, "svd-negative", show(a) << showv(d.S));
      for (size_t i = 1; i < mn && ord; i++) MC_CK(c, ord == 1 ? d.S(i - 1) >= d.S(i) : d.S(i - 1) <= d.S(i), "svd-order", show(a) << showv(d.S) << " order " << ord);
   }
   if (haveDet) MC_CK(c, std::fabs(std::fabs(d.det()) - std::fabs(det)) <= 1e-12 * std::pow(sc, double(r)) + 1e-13, "svd-det", show(a) << " " << d.det() << " vs " << det);
   d.sort(true);
   double smin = d.S(mn - 1), smax = d.S(0), big = -1, small = -1, cn;
   cn = condNum(a, big, small);
   MC_CK(c, big == smax && small == smin, "condnum-values", show(a) << " " << big << "," << small);
   if (smin > 1e-10 * smax && smin > 1e-10) MC_CK(c, std::fabs(cn - smax / smin) <= 1e-12 * cn && condNum(a) == cn, "condnum", show(a) << " " << cn);
   // least squares / minimum norm through backSub
   if (smin > 1e-9 * smax && r >= k)
   {
      V b(r); for (size_t i = 0; i < r; i++) b(i) = 1.0 + 0.5 * i - (i == 2 ? 3 : 0);
      V x(b); std::string e2 = thrown([&] { d.backSub(x); });
      MC_CK(c, e2 == "", "svd-backsub-throws", show(a) << e2);
      if (e2 == "")
      {
         M res(r, 1, 0.0); for (size_t i = 0; i < r; i++) { long double s = -b(i); for (size_t j = 0; j < k; j++) s += (long double)a(i, j) * x(j); res(i, 0) = double(s); }
         M g = mulRef(trRef(a), res);
         MC_CK(c, maxRef(g) <= 1e-11 * sc * sc * (smax / smin), "svd-backsub", show(a) << " x " << showv(x) << " normal residual " << maxRef(g));
      }
   }
   V wrong(r + 1, 1.0); MC_CK(c, thrown([&] { d.backSub(wrong); }) == "MatrixException", "svd-backsub-size", show(a));
}
static void ckHouse(Ctx& c, const M& a)
{
   Householder<double> h; std::string ex = thrown([&] { h(a); });
   if (ex != "") { c.fail("householder-throws", show(a) + ex); return; }
   if (h.A.rows() != a.rows() || h.A.cols() != a.cols()) { c.fail("householder-shape", show(a)); return; }
   double sc = maxRef(a) * std::max(a.rows(), a.cols());
   for (size_t i = 0; i < a.rows(); i++) for (size_t j = 0; j < i && j < a.cols(); j++) MC_CK(c, h.A(i, j) == 0, "householder-triangular", show(a) << " -> " << show(h.A));
   MC_CK(c, nearM(mulRef(trRef(h.A), h.A), mulRef(trRef(a), a), 1e-13 * sc * sc * 4), "householder-orthogonal", show(a) << " -> " << show(h.A));
}
static void ckLU(Ctx& c, const M& a, double cond)
{
   size_t n = a.rows(); LUDecomp<double> lu; std::string ex = thrown([&] { lu(a); });
   if (ex != "") { c.fail("lu-throws", show(a) + ex); return; }
   M L = idRef(n), U(n, n, 0.0);
   for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (j < i) L(i, j) = lu.LU(i, j); else U(i, j) = lu.LU(i, j);
   M P(a); int par = 1; bool pv = true;
   for (size_t j = 0; j < n; j++) { size_t p = lu.Pivot(j); if (p < j || p >= n) { pv = false; break; } if (p != j) { par = -par; for (size_t k = 0; k < n; k++) std::swap(P(j, k), P(p, k)); } }
   MC_CK(c, pv && par == lu.parity, "lu-pivot", show(a) << " parity " << lu.parity);
   if (pv) MC_CK(c, nearM(mulRef(L, U), P, 1e-14 * n * (maxRef(a) + 1e-300)), "lu-product", show(a) << " LU " << show(lu.LU));
   V b(n); for (size_t i = 0; i < n; i++) b(i) = 1.0 + 0.5 * i - (i == 1 ? 3 : 0);
   for (int z = 0; z < 2; z++)
   {
      if (z) for (size_t i = 0; i + 1 < n; i++) b(i) = 0;
      V x(b); lu.backSub(x);
      for (size_t i = 0; i < n; i++) { long double s = 0, sa = std::fabs(b(i)); for (size_t j = 0; j < n; j++) { s += (long double)a(i, j) * x(j); sa += maxRef(a) * std::fabs(x(j)); } MC_CK(c, std::fabs(double(s) - b(i)) <= 1e-13 * double(sa) * cond, "lu-solve", show(a) << " b " << showv(b) << " x " << showv(x)); }
   }
   V w(n + 1, 1.0); MC_CK(c, thrown([&] { lu.backSub(w); }) == "MatrixException", "lu-solve-size", show(a));
}
// exact matrix a (integers) times row/column scalings: everything at once
static void ckExact(Ctx& c, const Z& z, const std::vector<double>& rs, const std::vector<double>& cs, bool full)
{
   size_t n = z.size(); M a(n, n, 0.0); double dd = double(detZ(z));
   bool zrow = false;
   for (size_t i = 0; i < n; i++) { bool az = true; for (size_t j = 0; j < n; j++) { a(i, j) = z[i][j] * rs[i] * cs[j]; if (z[i][j]) az = false; } zrow |= az; dd *= rs[i] * cs[i]; }
   (void)zrow;
   c.states(1);
   if (full && n > 1) { double s = slowDet(a); MC_CK(c, s == dd, "slowdet", show(a) << " " << s << " vs " << dd); }
   if (dd == 0)
   {
      c.eval();
      MC_CK(c, thrown([&] { M x = inverse(a); }) == "SingularMatrixException", "singular-inverse", show(a));
      MC_CK(c, thrown([&] { M x = inverseLUD(a); }) == "SingularMatrixException", "singular-lud", show(a));
      MC_CK(c, thrown([&] { det(a); }) == "SingularMatrixException", "singular-det", show(a));
      // the Cholesky forms only accept positive definite input
      bool sym = true; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) if (a(i, j) != a(j, i)) sym = false;
      bool nonpos = false; for (size_t i = 0; i < n; i++) nonpos |= a(i, i) <= 0;   // otherwise only rounding decides
      if (sym && nonpos) { Cholesky<double> ch; MC_CK(c, thrown([&] { ch(a); }) == "MatrixException", "singular-chol", show(a)); MC_CK(c, thrown([&] { M x = inverseChol(a); }) == "MatrixException", "singular-cholcrout", show(a)); }
      c.outcome("singular");
   }
   else
   {
      M inv(n, n, 0.0); double zd = double(detZ(z));
      for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) inv(i, j) = double(cofZ(z, j, i)) / zd / (cs[i] * rs[j]);
      auto close = [&](const M& x) { if (x.rows() != n || x.cols() != n) return false; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (!(std::fabs(x(i, j) - inv(i, j)) * (cs[i] * rs[j]) <= 1e-13)) return false; return true; };
      c.eval(3);
      M x; std::string ex;
      ex = thrown([&] { x = inverse(a); }); MC_CK(c, ex == "" && close(x), "inverse", show(a) << " " << ex << " " << show(x));
      ex = thrown([&] { x = inverseLUD(a); }); MC_CK(c, ex == "" && close(x), "inverse-lud", show(a) << " " << ex << " " << show(x));
      double d2 = 0; ex = thrown([&] { x = inverseLUD(a, d2); }); MC_CK(c, ex == "" && close(x) && std::fabs(d2 - dd) <= 1e-13 * std::fabs(dd), "inverse-lud-det", show(a) << " det " << d2);
      ex = thrown([&] { d2 = det(a); }); MC_CK(c, ex == "" && std::fabs(d2 - dd) <= 1e-13 * std::fabs(dd), "det", show(a) << " " << ex << d2 << " vs " << dd);
      if (rs == cs && rs[0] == 1 && rs[n - 1] == 1) ckLU(c, a, 100);   // badly scaled columns lose digits in any LU
      c.outcome("regular");
      // symmetric positive definite?
      bool sym = true; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) if (a(i, j) != a(j, i)) sym = false;
      if (sym)
      {
         bool pd = true; for (size_t k = 1; k <= n; k++) { Z s; for (size_t i = 0; i < k; i++) s.push_back(std::vector<long>(z[i].begin(), z[i].begin() + k)); if (detZ(s) <= 0) pd = false; }
         for (size_t i = 0; i < n; i++) if (rs[i] != cs[i]) pd = pd && (rs[i] * cs[i] > 0);
         Cholesky<double> ch; CholeskyCrout<double> cc;
         std::string e1 = thrown([&] { ch(a); }), e2 = thrown([&] { cc(a); });
         if (!pd) { MC_CK(c, e1 == "MatrixException" && e2 == "MatrixException", "chol-not-pd", show(a) << e1 << e2); c.outcome("sym-not-pd"); }
         else
         {
            MC_CK(c, e1 == "" && e2 == "", "chol-throws", show(a) << e1 << e2);
            if (e1 == "" && e2 == "")
            {
               double mx = maxRef(a);
               MC_CK(c, nearM(mulRef(ch.L, trRef(ch.L)), a, 1e-14 * mx) && ch.L.isLT(), "chol-lower", show(a) << show(ch.L));
               MC_CK(c, nearM(mulRef(ch.U, trRef(ch.U)), a, 1e-14 * mx) && ch.U.isUT(), "chol-upper", show(a) << show(ch.U));
               MC_CK(c, nearM(mulRef(cc.L, trRef(cc.L)), a, 1e-14 * mx) && cc.L.isLT() && nearM(cc.U, trRef(cc.L), 0), "cholcrout", show(a) << show(cc.L));
               for (size_t i = 0; i < n; i++) MC_CK(c, ch.L(i, i) > 0 && ch.U(i, i) > 0, "chol-diag", show(a));
               V b(n); for (size_t i = 0; i < n; i++) b(i) = 1 + 0.5 * i - (i == 1 ? 3 : 0); V xx(b), yy(b); ch.backSub(xx); cc.backSub(yy);
               for (size_t i = 0; i < n; i++) { long double s = 0, s2 = 0; for (size_t j = 0; j < n; j++) { s += (long double)inv(i, j) * b(j); } MC_CK(c, std::fabs(double(s) - xx(i)) <= 1e-12 * (1 + maxRef(inv)) && std::fabs(double(s) - yy(i)) <= 1e-12 * (1 + maxRef(inv)), "chol-solve", show(a) << showv(xx)); (void)s2; }
               ex = thrown([&] { x = inverseChol(a); }); MC_CK(c, ex == "" && close(x), "inverse-chol", show(a) << ex << show(x));
            }
            c.outcome("pd");
         }
      }
      if (full)
      {
         double big, sml; V sv;
         ex = thrown([&] { x = inverseSVD(a); }); auto near = [&](const M& y) { return nearM(y, inv, 1e-10 * (1 + maxRef(inv))); };
         MC_CK(c, ex == "" && near(x), "inverse-svd", show(a) << ex << show(x));
         ex = thrown([&] { x = inverseSVD(a, big, sml, 1e-9); }); MC_CK(c, ex == "" && near(x) && big >= sml && sml > 0 && std::fabs(condNum(a) - big / sml) <= 1e-12 * big / sml, "inverse-svd-extremes", show(a) << big << "," << sml);
         ex = thrown([&] { x = inverseSVD(a, sv, 1e-9); }); double pr = 1; for (size_t i = 0; i < sv.size(); i++) pr *= sv(i);
         MC_CK(c, ex == "" && near(x) && sv.size() == n && std::fabs(pr - std::fabs(dd)) <= 1e-12 * (1 + std::fabs(dd)), "inverse-svd-values", show(a) << showv(sv));
      }
   }
   if (full) { ckSVD(c, a, dd, true); ckHouse(c, a); }
}

int main(int argc, char** argv)
{
   Harness h("C32");
   // ---- element access, slices, concatenation, minors -----------------------
   h.part("elements", 25, [&](Ctx& c, u64 ix) {
      Mix mx(ix); size_t nr = mx(5), nc = mx(5); if (nr == 0 || nc == 0) { M m(nr, nc); MC_CK(c, m.size() == 0 && m.rows() == nr && m.cols() == nc && m.empty() && !m.isSquare(), "empty", nr << nc); c.eval(); return; }
      R r = uniq(nr, nc); std::vector<double> flat; for (auto& q : r) flat.insert(flat.end(), q.begin(), q.end());
      const std::string sh = std::to_string(nr) + "x" + std::to_string(nc);
      c.at(sh);
      M m(nr, nc, flat.data());
      MC_CK(c, same(m, r, nr, nc), "fill-array", sh << show(m));
      { V fv(nr * nc); for (size_t i = 0; i < flat.size(); i++) fv[i] = flat[i]; M m2(nr, nc, fv); MC_CK(c, same(m2, r, nr, nc), "fill-vector", sh); M m3(nr, nc); m3 = fv; MC_CK(c, same(m3, r, nr, nc), "assign-vector", sh);
        std::valarray<double> va(flat.data(), flat.size()); M m4(nr, nc); m4 = va; MC_CK(c, same(m4, r, nr, nc), "assign-valarray", sh); M m5(nr, nc); m5 = flat.data(); MC_CK(c, same(m5, r, nr, nc), "assign-array", sh); M m6(1, 1, 0.0); m6 = m; MC_CK(c, same(m6, r, nr, nc), "assign", sh); M m7(m); m7 = m7; MC_CK(c, same(m7, r, nr, nc), "self-assign", sh); m7 = 4.0; bool ok = true; for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) ok = ok && m7(i, j) == 4; MC_CK(c, ok && same(m, r, nr, nc), "copy-independent", sh); }
      MC_CK(c, m.size() == nr * nc && m.rows() == nr && m.cols() == nc && !m.empty() && m.end() - m.begin() == long(nr * nc), "sizes", sh);
      MC_CK(c, m.front() == 11 && ((const M&)m).front() == 11, "front", sh << " " << m.front());
      const M& cm = m;
      for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++)
      {
         MC_CK(c, m[i][j] == r[i][j] && cm[i][j] == r[i][j] && cm(i, j) == r[i][j], "index", sh << i << j); c.eval();
         M w(m); w[i][j] = -1; R q = r; q[i][j] = -1; MC_CK(c, same(w, q, nr, nc), "index-write", sh << i << j);
         M w2(m); w2.rowRef(i)(j) = -2; q[i][j] = -2; MC_CK(c, same(w2, q, nr, nc), "rowref-write", sh);
         M w3(m); w3.colRef(j)(i) = -3; q[i][j] = -3; MC_CK(c, same(w3, q, nr, nc), "colref-write", sh);
      }
      // rows and columns from every starting offset
      for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++)
      {
         std::vector<double> rw(r[i].begin() + j, r[i].end()), cl; for (size_t k = i; k < nr; k++) cl.push_back(r[k][j]);
         std::string ex = thrown([&] {
            MatrixRowSlice<double> a = m.rowRef(i, j); ConstMatrixRowSlice<double> b = cm.row(i, j); MatrixColSlice<double> d = m.colRef(j, i);
            bool ok = a.size() == rw.size() && b.size() == rw.size() && a.rows() == 1 && a.cols() == rw.size() && d.size() == cl.size() && d.rows() == cl.size() && d.cols() == 1;
            for (size_t k = 0; ok && k < rw.size(); k++) ok = a[k] == rw[k] && b[k] == rw[k] && a(0, k) == rw[k] && b(0, k) == rw[k];
            for (size_t k = 0; ok && k < cl.size(); k++) ok = d[k] == cl[k] && d(k, 0) == cl[k];
            MC_CK(c, ok, "row-col-ref", sh << i << j);
            MC_CK(c, samev(m.rowCopy(i, j), rw) && samev(m.colCopy(j, i), cl), "row-col-copy", sh << i << j); });
         MC_CK(c, ex == "", "row-col-throws", sh << i << j << ex);
         ex = thrown([&] { ConstMatrixColSlice<double> e = cm.col(j, i); bool ok = e.size() == cl.size() && e.rows() == cl.size() && e.cols() == 1; for (size_t k = 0; ok && k < cl.size(); k++) ok = e[k] == cl[k] && e(k, 0) == cl[k]; MC_CK(c, ok, "const-col", sh << " col(" << j << "," << i << ")"); });
         MC_CK(c, ex == "", "const-col-throws", sh << " col(" << j << "," << i << ") " << ex);
         c.eval(2);
      }
      MC_CK(c, thrown([&] { m.rowRef(nr); }) == "MatrixException" && thrown([&] { cm.row(nr); }) == "MatrixException" && thrown([&] { m.colRef(nc); }) == "MatrixException" && thrown([&] { cm.col(nc); }) == "MatrixException", "row-col-range", sh);
      { std::vector<double> dg; for (size_t i = 0; i < std::min(nr, nc); i++) dg.push_back(r[i][i]); MC_CK(c, samev(m.diagCopy(), dg), "diag-copy", sh); }
      // every strided slice in both directions
      for (size_t rs = 0; rs <= nr; rs++) for (size_t rn = 1; rn <= nr + 1; rn++) for (size_t rd = 1; rd <= 3; rd++)
         for (size_t cs = 0; cs <= nc; cs++) for (size_t cn = 1; cn <= nc + 1; cn++) for (size_t cd = 1; cd <= 3; cd++)
         {
            bool valid = rs + (rn - 1) * rd < nr && cs + (cn - 1) * cd < nc; c.eval();
            if (!valid) { if (rd > 1 && cd > 1) continue; std::string ex = thrown([&] { MatrixSlice<double> s(m, std::slice(rs, rn, rd), std::slice(cs, cn, cd)); }), e2 = thrown([&] { ConstMatrixSlice<double> s(m, std::slice(rs, rn, rd), std::slice(cs, cn, cd)); }); MC_CK(c, ex == "MatrixException" && e2 == "MatrixException", "slice-range", sh << " rows " << rs << "," << rn << "," << rd << " cols " << cs << "," << cn << "," << cd); continue; }
            R q(rn, std::vector<double>(cn)); for (size_t i = 0; i < rn; i++) for (size_t j = 0; j < cn; j++) q[i][j] = r[rs + i * rd][cs + j * cd];
            M w(m); MatrixSlice<double> s(w, std::slice(rs, rn, rd), std::slice(cs, cn, cd)); ConstMatrixSlice<double> s2(m, std::slice(rs, rn, rd), std::slice(cs, cn, cd));
            MC_CK(c, same(s, q, rn, cn) && same(s2, q, rn, cn) && s.size() == rn * cn && s2.size() == rn * cn, "slice-read", sh << " rows " << rs << "," << rn << "," << rd << " cols " << cs << "," << cn << "," << cd);
            M copy(s); MC_CK(c, same(copy, q, rn, cn), "slice-copy", sh);
            R q2 = uniq(rn, cn, 500), rr = r; s = mk(q2, rn, cn); for (size_t i = 0; i < rn; i++) for (size_t j = 0; j < cn; j++) rr[rs + i * rd][cs + j * cd] = q2[i][j];
            MC_CK(c, same(w, rr, nr, nc), "slice-assign", sh << " rows " << rs << "," << rn << "," << rd << " cols " << cs << "," << cn << "," << cd);
            s += 1.0; for (size_t i = 0; i < rn; i++) for (size_t j = 0; j < cn; j++) rr[rs + i * rd][cs + j * cd] += 1; MC_CK(c, same(w, rr, nr, nc), "slice-add", sh);
            if (rn == nr && rd == 1 && rs == 0) { std::string ex = thrown([&] { for (size_t i = 0; i < nr; i++) { MatrixRowSlice<double> t = m.rowRef(i, std::slice(cs, cn, cd)); ConstMatrixRowSlice<double> t2 = cm.row(i, std::slice(cs, cn, cd)); bool ok = t.size() == cn; for (size_t j = 0; ok && j < cn; j++) ok = t[j] == q[i][j] && t2(j) == q[i][j]; MC_CK(c, ok, "row-slice", sh); } }); MC_CK(c, ex == "", "row-slice-throws", sh << ex); }
            if (cn == nc && cd == 1 && cs == 0) { std::string ex = thrown([&] { for (size_t j = 0; j < nc; j++) { MatrixColSlice<double> t = m.colRef(j, std::slice(rs, rn, rd)); ConstMatrixColSlice<double> t2 = cm.col(j, std::slice(rs, rn, rd)); bool ok = t.size() == rn; for (size_t i = 0; ok && i < rn; i++) ok = t[i] == q[i][j] && t2(i) == q[i][j]; MC_CK(c, ok, "col-slice", sh); } }); MC_CK(c, ex == "", "col-slice-throws", sh << ex); }
         }
      // submatrices: every corner and size
      for (size_t a = 0; a <= nr + 1; a++) for (size_t b = 0; b <= nc + 1; b++) for (size_t p = 0; p <= nr + 1; p++) for (size_t q = 0; q <= nc + 1; q++)
      {
         bool valid = a + p <= nr && b + q <= nc; c.eval(); M s; std::string ex = thrown([&] { s = M(m, a, b, p, q); });
         if (!valid) { MC_CK(c, ex == "MatrixException", "submatrix-range", sh << a << b << p << q << ex); continue; }
         R e(p, std::vector<double>(q)); for (size_t i = 0; i < p; i++) for (size_t j = 0; j < q; j++) e[i][j] = r[a + i][b + j];
         MC_CK(c, ex == "" && same(s, e, p, q), "submatrix", sh << " at " << a << "," << b << " size " << p << "x" << q << " " << ex << show(s));
         if (p && q) { MatrixSlice<double> t(m, a, b, p, q); ConstMatrixSlice<double> t2(m, a, b, p, q); MC_CK(c, same(t, e, p, q) && same(t2, e, p, q), "submatrix-slice", sh); }
      }
      // minors, transposes, swaps
      for (size_t i = 0; i < nr + 1; i++) for (size_t j = 0; j < nc + 1; j++)
      {
         M s; std::string ex = thrown([&] { s = minorMatrix(m, i, j); }); c.eval();
         if (i == nr || j == nc) { MC_CK(c, ex == "MatrixException", "minor-range", sh << i << j); continue; }
         R e; for (size_t k = 0; k < nr; k++) if (k != i) { std::vector<double> row; for (size_t l = 0; l < nc; l++) if (l != j) row.push_back(r[k][l]); e.push_back(row); }
         MC_CK(c, ex == "" && same(s, e, nr - 1, nc - 1), "minor", sh << " without (" << i << "," << j << ") " << ex << show(s));
      }
      { R t(nc, std::vector<double>(nr)); for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) t[j][i] = r[i][j]; MC_CK(c, same(transpose(m), t, nc, nr), "transpose", sh); M w(m); w = transpose(w); MC_CK(c, same(w, t, nc, nr), "transpose-assign", sh); }
      for (size_t i = 0; i < nr; i++) for (size_t k = 0; k < nr; k++) { M w(m); w.swapRows(i, k); R e = r; std::swap(e[i], e[k]); MC_CK(c, same(w, e, nr, nc), "swap-rows", sh << i << k); c.eval(); }
      for (size_t i = 0; i < nc; i++) for (size_t k = 0; k < nc; k++) { M w(m); w.swapCols(i, k); R e = r; for (auto& row : e) std::swap(row[i], row[k]); MC_CK(c, same(w, e, nr, nc), "swap-cols", sh << i << k); c.eval(); }
      // concatenation with every other shape
      for (size_t pr = 1; pr <= 4; pr++) for (size_t pc = 1; pc <= 4; pc++)
      {
         R r2 = uniq(pr, pc, 500); M m2 = mk(r2, pr, pc); M s; c.eval(2);
         std::string ex = thrown([&] { s = m && m2; }); R e = r; e.insert(e.end(), r2.begin(), r2.end());
         if (pc != nc) MC_CK(c, ex == "MatrixException", "concat-below-shape", sh); else MC_CK(c, ex == "" && same(s, e, nr + pr, nc), "concat-below", sh << ex << show(s));
         ex = thrown([&] { s = m || m2; });
         if (pr != nr) MC_CK(c, ex == "MatrixException", "concat-right-shape", sh); else { e = r; for (size_t i = 0; i < nr; i++) e[i].insert(e[i].end(), r2[i].begin(), r2[i].end()); MC_CK(c, ex == "" && same(s, e, nr, nc + pc), "concat-right", sh << ex << show(s)); }
      }
      for (size_t n = 1; n <= 5; n++)
      {
         V v(n); std::vector<double> vr(n); for (size_t i = 0; i < n; i++) v(i) = vr[i] = 900 + i; M s; R e; std::string ex; c.eval(4);
         ex = thrown([&] { s = m && v; }); e = r; e.push_back(vr);
         if (n != nc) MC_CK(c, ex == "MatrixException", "mat-and-vec-shape", sh << n); else MC_CK(c, ex == "" && same(s, e, nr + 1, nc), "mat-and-vec", sh << show(s));
         ex = thrown([&] { s = v && m; }); e = r; e.insert(e.begin(), vr);
         if (n != nc) MC_CK(c, ex == "MatrixException", "vec-and-mat-shape", sh << n); else MC_CK(c, ex == "" && same(s, e, nr + 1, nc), "vec-and-mat", sh << ex << show(s));
         ex = thrown([&] { s = m || v; });
         if (n != nr) MC_CK(c, ex == "MatrixException", "mat-or-vec-shape", sh << n); else { e = r; for (size_t i = 0; i < nr; i++) e[i].push_back(vr[i]); MC_CK(c, ex == "" && same(s, e, nr, nc + 1), "mat-or-vec", sh << show(s)); }
         ex = thrown([&] { s = v || m; });
         if (n != nr) MC_CK(c, ex == "MatrixException", "vec-or-mat-shape", sh << n); else { e = r; for (size_t i = 0; i < nr; i++) e[i].insert(e[i].begin(), vr[i]); MC_CK(c, ex == "" && same(s, e, nr, nc + 1), "vec-or-mat", sh << ex << show(s)); }
      }
      // resizing
      for (size_t a = 0; a <= 4; a++) for (size_t b = 0; b <= 4; b++) { M w(m); w.resize(a, b, 7.0); bool ok = w.rows() == a && w.cols() == b && w.size() == a * b; for (size_t i = 0; i < a; i++) for (size_t j = 0; j < b; j++) ok = ok && w(i, j) == 7; MC_CK(c, ok, "resize", sh << a << b); M w2(m); w2.resize(a, b); MC_CK(c, w2.rows() == a && w2.cols() == b && w2.size() == a * b, "resize-plain", sh); c.eval(); }
      c.states(1); c.outcome(sh);
   });
   // ---- arithmetic between every pair of shapes ------------------------------
   h.part("arith", 25, [&](Ctx& c, u64 ix) {
      Mix mx(ix); size_t nr = mx(5), nc = mx(5);
      if (nr == 0 || nc == 0) { if (nr == 0 && nc == 0) { MC_CK(c, thrown([&] { ident<double>(0); }) == "MatrixException", "ident0", ""); for (size_t n = 1; n <= 5; n++) MC_CK(c, nearM(ident<double>(n), idRef(n), 0), "ident", n); for (int ax = -1; ax <= 5; ax++) for (int k = -8; k <= 8; k++) { double an = k * 0.39269908169872414; M q; std::string ex = thrown([&] { q = rotation(an, ax); }); c.eval(); if (ax < 1 || ax > 3) { MC_CK(c, ex == "MatrixException", "rotation-axis", ax); continue; }
            M e = idRef(3); size_t i = ax - 1, j = ax % 3, l = (ax + 1) % 3; e(j, j) = e(l, l) = std::cos(an); e(j, l) = std::sin(an); e(l, j) = -std::sin(an); MC_CK(c, ex == "" && nearM(q, e, 1e-16), "rotation", ax << " " << an); (void)i; } } return; }
      const std::string sh = std::to_string(nr) + "x" + std::to_string(nc);
      std::vector<R> pat; for (int p = 0; p < 6; p++) { R r(nr, std::vector<double>(nc)); u64 s = 77 * p + 5; for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; r[i][j] = double(long((s >> 33) % 17) - 8) / 4; if (p == 3 && i != j) r[i][j] = 0; if (p == 4 && i > j) r[i][j] = 0; if (p == 5 && i < j) r[i][j] = 0; } pat.push_back(r); }
      for (auto& r : pat)
      {
         M m = mk(r, nr, nc); c.states(1);
         const double D[] = {-2, 0.5, 1, 4};
         auto each = [&](const M& x, std::function<double(double)> f, const char* k) { R e = r; for (auto& row : e) for (auto& t : row) t = f(t); MC_CK(c, same(x, e, nr, nc), k, show(m) << " -> " << show(x)); c.eval(); };
         for (double d : D)
         {
            each(m * d, [&](double t) { return t * d; }, "mat*scalar"); each(d * m, [&](double t) { return t * d; }, "scalar*mat"); each(m / d, [&](double t) { return t / d; }, "mat/scalar"); each(m + d, [&](double t) { return t + d; }, "mat+scalar"); each(d + m, [&](double t) { return t + d; }, "scalar+mat"); each(m - d, [&](double t) { return t - d; }, "mat-scalar"); each(d - m, [&](double t) { return d - t; }, "scalar-mat");
            bool nz = true; for (auto& row : r) for (double t : row) nz = nz && t != 0; if (nz) each(d / m, [&](double t) { return d / t; }, "scalar/mat");
            { M w(m); w += d; each(w, [&](double t) { return t + d; }, "mat+=scalar"); } { M w(m); w -= d; each(w, [&](double t) { return t - d; }, "mat-=scalar"); } { M w(m); w *= d; each(w, [&](double t) { return t * d; }, "mat*=scalar"); } { M w(m); w /= d; each(w, [&](double t) { return t / d; }, "mat/=scalar"); }
         }
         each(-m, [&](double t) { return -t; }, "negate");
         // scalar summaries
         double mxa = 0, fro = 0, col = 0; for (size_t j = 0; j < nc; j++) { double s = 0; for (size_t i = 0; i < nr; i++) { s += std::fabs(r[i][j]); mxa = std::max(mxa, std::fabs(r[i][j])); fro += r[i][j] * r[i][j]; } col = std::max(col, s); }
         MC_CK(c, maxabs(m) == mxa && std::fabs(normF(m) - std::sqrt(fro)) <= 1e-15 * (1 + fro), "maxabs-normF", show(m)); MC_CK(c, normCol(m) == col, "norm-col", show(m) << normCol(m) << " vs " << col);
         bool sq = nr == nc, ut = sq, lt = sq, sy = sq; for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) { if (i > j && r[i][j] != 0) ut = false; if (i < j && r[i][j] != 0) lt = false; if (sq && r[i][j] != r[j][i]) sy = false; }
         MC_CK(c, m.isSquare() == sq && m.isUT() == ut && m.isLT() == lt && m.isDiagonal() == (ut && lt) && m.isSymmetric() == sy, "shape-tests", show(m));
         double tr = 0; for (size_t i = 0; i < std::min(nr, nc); i++) tr += r[i][i]; std::string ex; double tv = 0; ex = thrown([&] { tv = trace(m); }); MC_CK(c, sq ? ex == "" && tv == tr : ex == "MatrixException", "trace", show(m) << ex << tv);
         M id(m); ex = thrown([&] { ident(id); }); MC_CK(c, sq ? ex == "" && nearM(id, idRef(nr), 0) : ex == "MatrixException", "ident-inplace", show(m));
         M dg; ex = thrown([&] { dg = diag(m); }); if (sq) { M e(nr, nr, 0.0); for (size_t i = 0; i < nr; i++) e(i, i) = r[i][i]; MC_CK(c, ex == "" && nearM(dg, e, 0), "diag", show(m)); } else MC_CK(c, ex == "MatrixException", "diag-shape", sh);
         if (!sq) { MC_CK(c, thrown([&] { inverse(m); }) == "MatrixException" && thrown([&] { inverseLUD(m); }) == "MatrixException" && thrown([&] { inverseSVD(m); }) == "MatrixException" && thrown([&] { inverseChol(m); }) == "MatrixException" && thrown([&] { det(m); }) == "MatrixException" && thrown([&] { slowDet(m); }) == "MatrixException" && thrown([&] { Cholesky<double> x; x(m); }) == "MatrixException" && thrown([&] { LUDecomp<double> x; x(m); }) == "MatrixException", "not-square", sh); }
         for (size_t pr = 1; pr <= 4; pr++) for (size_t pc = 1; pc <= 4; pc++)
         {
            R r2 = uniq(pr, pc, -20); for (auto& row : r2) for (auto& t : row) t /= 8; M b = mk(r2, pr, pc), s; std::string e1; c.eval(3);
            bool eq = pr == nr && pc == nc; R e = r;
            e1 = thrown([&] { s = m + b; }); if (eq) { for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) e[i][j] = r[i][j] + r2[i][j]; } MC_CK(c, eq ? e1 == "" && same(s, e, nr, nc) : e1 == "MatrixException", "mat+mat", sh << pr << pc << e1); if (eq) { M w(m); w += b; MC_CK(c, same(w, e, nr, nc), "mat+=mat", sh); V bv(nr * nc); for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) bv[i * nc + j] = r2[i][j]; M w2(m); w2 += bv; MC_CK(c, same(w2, e, nr, nc), "mat+=vec", sh); }
            e1 = thrown([&] { s = m - b; }); if (eq) { for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) e[i][j] = r[i][j] - r2[i][j]; } MC_CK(c, eq ? e1 == "" && same(s, e, nr, nc) : e1 == "MatrixException", "mat-mat", sh << pr << pc << e1); if (eq) { M w(m); w -= b; MC_CK(c, same(w, e, nr, nc), "mat-=mat", sh); V bv(nr * nc); for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) bv[i * nc + j] = r2[i][j]; M w2(m); w2 -= bv; MC_CK(c, same(w2, e, nr, nc), "mat-=vec", sh); }
            e1 = thrown([&] { s = m * b; }); if (nc != pr) MC_CK(c, e1 == "MatrixException", "product-shape", sh << pr << pc); else { R e(nr, std::vector<double>(pc, 0.0)); for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < pc; j++) for (size_t k = 0; k < nc; k++) e[i][j] += r[i][k] * r2[k][j]; MC_CK(c, e1 == "" && same(s, e, nr, pc), "product", show(m) << show(b)); }
            if (sq && pr == pc) { M bd = blkdiag(m, b), e(nr + pr, nr + pr, 0.0); for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nr; j++) e(i, j) = r[i][j]; for (size_t i = 0; i < pr; i++) for (size_t j = 0; j < pr; j++) e(nr + i, nr + j) = r2[i][j]; MC_CK(c, nearM(bd, e, 0), "blkdiag", sh); M e3(2 * nr + pr, 2 * nr + pr, 0.0); for (size_t i = 0; i < nr + pr; i++) for (size_t j = 0; j < nr + pr; j++) e3(i, j) = e(i, j); for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nr; j++) e3(nr + pr + i, nr + pr + j) = r[i][j]; MC_CK(c, nearM(blkdiag(m, b, m), e3, 0), "blkdiag3", sh); MC_CK(c, nearM(blkdiag(m, b, m, b), blkdiag(e3, b), 0), "blkdiag4", sh); }
            else MC_CK(c, thrown([&] { blkdiag(m, b); }) == "MatrixException", "blkdiag-shape", sh << pr << pc);
         }
         for (size_t n = 1; n <= 5; n++)
         {
            V v(n); for (size_t i = 0; i < n; i++) v(i) = 0.25 * (i + 1) - (i == 2 ? 3 : 0); V s; std::string e1 = thrown([&] { s = m * v; }); c.eval(2);
            if (n != nc) MC_CK(c, e1 == "MatrixException", "matvec-shape", sh << n); else { std::vector<double> e(nr, 0.0); for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) e[i] += r[i][j] * v(j); MC_CK(c, e1 == "" && samev(s, e), "matvec", show(m) << showv(v)); }
            e1 = thrown([&] { s = v * m; });
            if (n != nr) MC_CK(c, e1 == "MatrixException", "vecmat-shape", sh << n); else { std::vector<double> e(nc, 0.0); for (size_t i = 0; i < nc; i++) for (size_t j = 0; j < nr; j++) e[i] += r[j][i] * v(j); MC_CK(c, e1 == "" && samev(s, e), "vecmat", show(m) << showv(v)); }
         }
      }
      c.outcome(sh);
   });
   // ---- vectors: every pair of short vectors ----------------------------------
   { static const double A[] = {-2, -1, 0, 0.5, 3};
   h.part("vectors", 156, [&](Ctx& c, u64 ix) {
      auto dec = [&](u64 k, std::vector<double>& o) { o.clear(); size_t n = 0; u64 p = 1; while (k >= p) { k -= p; n++; p *= 5; } for (size_t i = 0; i < n; i++) { o.push_back(A[k % 5]); k /= 5; } };
      std::vector<double> a, b; dec(ix, a); size_t n = a.size(); V va(n); for (size_t i = 0; i < n; i++) va(i) = a[i];
      c.at("v=" + showv(va));
      { std::vector<double> cp(a); V w; w = cp; MC_CK(c, samev(w, a), "assign-std", showv(va)); V w2(w); w2 = w2; MC_CK(c, samev(w2, a), "vec-self-assign", ""); if (n) { V w3(w); w3(0) = 99; MC_CK(c, w(0) == a[0], "vec-copy", ""); MC_CK(c, va.front() == a[0] && ((const V&)va).front() == a[0], "vec-front", showv(va) << va.front()); }
        MC_CK(c, va.size() == n && va.empty() == (n == 0) && va.end() - va.begin() == long(n), "vec-size", ""); std::vector<double> sv = va.toStdVector(); MC_CK(c, sv == a, "to-std", showv(va)); V m = -va; for (size_t i = 0; i < n; i++) MC_CK(c, m(i) == -a[i], "vec-neg", ""); }
      // strided slices and subvectors
      for (size_t s = 0; s <= n; s++) for (size_t l = 1; l <= n + 1; l++)
      {
         bool ok = s + l <= n; V sub; std::string ex = thrown([&] { V t(va, s, l); sub = t; }); c.eval();
         if (ok) { MC_CK(c, ex == "" && samev(sub, std::vector<double>(a.begin() + s, a.begin() + s + l)), "subvector", showv(va) << s << l); } else MC_CK(c, ex == "VectorException", "subvector-range", s << l);
         for (size_t st = 1; st <= 2; st++) if (s + (l - 1) * st < n) { V w(va); VectorSlice<double> sl = w[std::slice(s, l, st)]; ConstVectorSlice<double> cs(va, std::slice(s, l, st)); bool g = sl.size() == l && cs.size() == l; for (size_t i = 0; g && i < l; i++) g = sl[i] == a[s + i * st] && cs(i) == a[s + i * st]; MC_CK(c, g, "vec-slice", showv(va) << s << l << st); sl = 50.0; std::vector<double> e(a); for (size_t i = 0; i < l; i++) e[s + i * st] = 50; MC_CK(c, samev(w, e), "vec-slice-assign", showv(w)); }
      }
      if (n) { double sm = 0, mn = a[0], mxx = a[0], mna = a[0], mxa = a[0]; long double ss = 0; for (double t : a) { sm += t; mn = std::min(mn, t); mxx = std::max(mxx, t); if (std::fabs(t) < std::fabs(mna)) mna = t; if (std::fabs(t) > std::fabs(mxa)) mxa = t; ss += (long double)t * t; }
         double nm = double(sqrtl(ss)); MC_CK(c, sum(va) == sm && gpstk::min(va) == mn && gpstk::max(va) == mxx && std::fabs(minabs(va)) == std::fabs(mna) && std::fabs(maxabs(va)) == std::fabs(mxa), "vec-reduce", showv(va));
         MC_CK(c, std::fabs(norm(va) - nm) <= 1e-15 * nm && std::fabs(RSS(va) - nm) <= 1e-15 * nm && std::fabs(RMS(va) - nm / std::sqrt(double(n))) <= 2e-15 * nm, "vec-norm", showv(va) << norm(va)); if (nm > 0) { V u = normalize(va); for (size_t i = 0; i < n; i++) MC_CK(c, std::fabs(u(i) - a[i] / nm) <= 1e-15, "vec-normalize", showv(va)); }
         // norm without overflow
         V big(va * 1e200); if (nm > 0) MC_CK(c, std::fabs(norm(big) / 1e200 - nm) <= 1e-14 * nm, "vec-norm-scale", showv(va)); }
      else MC_CK(c, thrown([&] { gpstk::min(va); }) == "VectorException" && thrown([&] { gpstk::max(va); }) == "VectorException" && thrown([&] { minabs(va); }) == "VectorException" && thrown([&] { maxabs(va); }) == "VectorException" && sum(va) == 0 && norm(va) == 0, "vec-empty", "");
      for (double d : A)
      {
         auto ev = [&](const V& x, std::function<double(double)> f, const char* k) { std::vector<double> e; for (double t : a) e.push_back(f(t)); c.eval(); MC_CK(c, samev(x, e), k, showv(va) << " " << d << " -> " << showv(x)); };
         ev(va + d, [&](double t) { return t + d; }, "vec+s"); ev(d + va, [&](double t) { return t + d; }, "s+vec"); ev(va - d, [&](double t) { return t - d; }, "vec-s"); ev(d - va, [&](double t) { return d - t; }, "s-vec"); ev(va * d, [&](double t) { return t * d; }, "vec*s"); ev(d * va, [&](double t) { return t * d; }, "s*vec");
         if (d != 0) ev(va / d, [&](double t) { return t / d; }, "vec/s"); bool nz = true; for (double t : a) nz = nz && t != 0; if (nz) ev(d / va, [&](double t) { return d / t; }, "s/vec");
         { V w(va); w += d; ev(w, [&](double t) { return t + d; }, "vec+=s"); } { V w(va); w -= d; ev(w, [&](double t) { return t - d; }, "vec-=s"); } { V w(va); w *= d; ev(w, [&](double t) { return t * d; }, "vec*=s"); }
         { V w(va); w << d; std::vector<double> e(a); e.push_back(d); MC_CK(c, samev(w, e), "vec<<s", showv(w)); V w2(va); MC_CK(c, samev(w2 && d, e), "vec&&s", ""); }
         { Vector<bool> l = va < d, g = va > d, q = va == d, ne = va != d, le = va <= d, ge = va >= d; bool ok = true; bool al = true, ag = true, ae = true; for (size_t i = 0; i < n; i++) { ok = ok && l(i) == (a[i] < d) && g(i) == (a[i] > d) && q(i) == (a[i] == d) && ne(i) == (a[i] != d) && le(i) == (a[i] <= d) && ge(i) == (a[i] >= d); al = al && a[i] < d; ag = ag && a[i] >= d; ae = ae && a[i] == d; } MC_CK(c, ok && lt(va, d) == al && ge.size() == n && gpstk::ge(va, d) == ag && eq(va, d) == ae, "vec-compare", showv(va) << d); }
         { double s1 = 0; for (double t : a) s1 += t * d; MC_CK(c, dot(va, d) == s1 && dot(d, va) == s1, "dot-scalar", ""); }
         { V w(n); w = d; std::vector<double> e(n, d); MC_CK(c, samev(w, e) && samev(V(n, d), e), "vec-fill", ""); V rz(va); rz.resize(2, d); MC_CK(c, rz.size() == 2 && rz(0) == d && rz(1) == d, "vec-resize", ""); rz.resize(5, d); MC_CK(c, rz.size() == 5 && rz(4) == d, "vec-resize", ""); }
      }
      for (u64 k = 0; k < 156; k++)
      {
         dec(k, b); size_t m = b.size(); V vb(m); for (size_t i = 0; i < m; i++) vb(i) = b[i]; c.eval(); c.trans(1);
         V s; std::string ex; bool eqn = n == m;
         auto ck2 = [&](std::function<double(double, double)> f, const char* key) { if (!eqn) { MC_CK(c, ex == "VectorException", key, "length " << n << "," << m << ex); return; } std::vector<double> e; for (size_t i = 0; i < n; i++) e.push_back(f(a[i], b[i])); MC_CK(c, ex == "" && samev(s, e), key, showv(va) << showv(vb) << showv(s)); };
         ex = eqn || (k % 7 == 0) ? thrown([&] { s = va + vb; }) : "VectorException"; ck2([](double x, double y) { return x + y; }, "vec+vec");
         if (eqn) { ex = thrown([&] { s = va - vb; }); ck2([](double x, double y) { return x - y; }, "vec-vec"); ex = thrown([&] { s = va * vb; }); ck2([](double x, double y) { return x * y; }, "vec*vec"); { V w(va); w += vb; s = w; } ck2([](double x, double y) { return x + y; }, "vec+=vec"); { V w(va); w -= vb; s = w; } ck2([](double x, double y) { return x - y; }, "vec-=vec"); { V w(va); w *= vb; s = w; } ck2([](double x, double y) { return x * y; }, "vec*=vec");
            double dt = 0; for (size_t i = 0; i < n; i++) dt += a[i] * b[i]; MC_CK(c, dot(va, vb) == dt, "dot", showv(va) << showv(vb)); bool e = a == b, l = true; for (size_t i = 0; i < n; i++) l = l && a[i] < b[i]; MC_CK(c, eq(va, vb) == e && lt(va, vb) == l, "vec-eq", "");
            double na = norm(va), nb = norm(vb); if (na > 0 && nb > 0) MC_CK(c, std::fabs(cosVec(va, vb) - dt / (na * nb)) <= 1e-15, "cosvec", showv(va) << showv(vb)); }
         if (n && m) { M o = outer(va, vb); bool ok = o.rows() == n && o.cols() == m; for (size_t i = 0; ok && i < n; i++) for (size_t j = 0; j < m; j++) ok = ok && o(i, j) == a[i] * b[j]; MC_CK(c, ok, "outer", showv(va) << showv(vb)); } else if (k % 11 == 0) MC_CK(c, thrown([&] { outer(va, vb); }) == "MatrixException", "outer-empty", "");
         if (n == 3 && m == 3) { V x = cross(va, vb); MC_CK(c, x(0) == a[1] * b[2] - a[2] * b[1] && x(1) == a[2] * b[0] - a[0] * b[2] && x(2) == a[0] * b[1] - a[1] * b[0], "cross", showv(va) << showv(vb) << showv(x)); } else if (k % 13 == 0) MC_CK(c, thrown([&] { cross(va, vb); }) == "VectorException", "cross-shape", n << "," << m);
         if (n == m && n) { M o = va || vb; bool ok = o.rows() == n && o.cols() == 2; for (size_t i = 0; ok && i < n; i++) ok = o(i, 0) == a[i] && o(i, 1) == b[i]; MC_CK(c, ok, "vec||vec", ""); } else if (k % 7 == 0 && n && m) MC_CK(c, thrown([&] { va || vb; }) == "MatrixException", "vec||vec-shape", "");
         std::vector<double> e(a); e.insert(e.end(), b.begin(), b.end()); { V w(va); w << vb; V w2(va); MC_CK(c, samev(w, e) && samev(w2 && vb, e), "vec-concat", showv(w)); }
      }
      { V u(4), w(4); for (int i = 0; i < 4; i++) { u(i) = i + 1; w(i) = n > size_t(i) ? a[i] : 7; } MC_CK(c, Minkowski(u, w) == w(0) + 2 * w(1) + 3 * w(2) - 4 * w(3), "minkowski", ""); MC_CK(c, thrown([&] { Minkowski(va, u); }) == "VectorException", "minkowski-shape", ""); }
      c.states(1); c.outcome(u64(n));
   }); }
   // ---- exact decompositions ---------------------------------------------------
   { std::vector<double> one(4, 1.0);
   h.part("exact2", 625, [&, one](Ctx& c, u64 ix) { Mix m(ix); Z z(2, std::vector<long>(2)); for (auto& r : z) for (auto& t : r) t = long(m(5)) - 2; ckExact(c, z, one, one, true); });
   h.part("exact1", 9, [&, one](Ctx& c, u64 ix) { Z z(1, std::vector<long>(1, long(ix) - 4)); ckExact(c, z, one, one, true); });
   h.part("exact3", 19683 / 9, [&, one](Ctx& c, u64 ix) { for (u64 k = 0; k < 9; k++) { Mix m(ix * 9 + k); Z z(3, std::vector<long>(3)); for (auto& r : z) for (auto& t : r) t = long(m(3)) - 1; ckExact(c, z, one, one, true); } });
   h.part("exact4", 65536 / 32, [&, one](Ctx& c, u64 ix) { for (u64 k = 0; k < 32; k++) { u64 b = ix * 32 + k; if (!h.thorough && b % 3) continue; Z z(4, std::vector<long>(4)); for (int i = 0; i < 16; i++) z[i / 4][i % 4] = (b >> i) & 1; ckExact(c, z, one, one, h.thorough || b % 5 == 0); } });
   h.part("scaled3", 2187, [&](Ctx& c, u64 ix) {
      static const double SC[] = {1, 1048576.0, 1.0 / (1 << 30)};
      for (u64 k = 0; k < 9; k++) { u64 b = ix * 9 + k; Mix m(b); Z z(3, std::vector<long>(3)); for (auto& r : z) for (auto& t : r) t = long(m(3)) - 1; if (detZ(z) == 0) continue;
         for (int q = 0; q < (h.thorough ? 729 : 8); q++) { Mix w(h.thorough ? q : (b * 37 + q * 101) % 729); std::vector<double> rs(3), cs(3); for (auto& t : rs) t = SC[w(3)]; for (auto& t : cs) t = SC[w(3)]; ckExact(c, z, rs, cs, false); } }
   }); }
   // ---- tiny pivots: solving must not lose the solution ---------------------------
   h.part("pivot", 2187, [&](Ctx& c, u64 ix) {
      for (u64 k = 0; k < 9; k++)
      {
         Mix m(ix * 9 + k); Z z(3, std::vector<long>(3)); for (auto& r : z) for (auto& t : r) t = long(m(3)) - 1; long d = detZ(z); if (!d) continue;
         for (int pos = 0; pos < 9; pos++)
         {
            if (z[pos / 3][pos % 3] != 0) continue; M a(3, 3, 0.0); for (int i = 0; i < 9; i++) a(i / 3, i % 3) = z[i / 3][i % 3];
            for (double e : {1e-20, -1e-13}) { a(pos / 3, pos % 3) = e; c.eval(2); c.states(1);
               for (int w = 0; w < 2; w++) { M x; std::string ex = thrown([&] { x = w ? inverseLUD(a) : inverse(a); }); M ref(3, 3, 0.0); for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) ref(i, j) = double(cofZ(z, j, i)) / d;
                  MC_CK(c, ex == "" && nearM(x, ref, 1e-11), w ? "tiny-pivot-lud" : "tiny-pivot-inverse", show(a) << ex << show(x)); }
               ckLU(c, a, 100); } c.outcome(u64(pos));
         }
      }
   });
   // ---- rectangular shapes, patterned fillings ---------------------------------------
   h.part("rect", 25 * (h.thorough ? 40000 : 2000), [&](Ctx& c, u64 ix) {
      Mix m(ix); size_t r = m(5) + 1, k = m(5) + 1; u64 p = ix / 25, s = p * 2654435761ULL + r * 131 + k; M a(r, k, 0.0);
      for (size_t i = 0; i < r; i++) for (size_t j = 0; j < k; j++)
      {
         s = s * 6364136223846793005ULL + 1442695040888963407ULL; double v = double(long((s >> 33) % 2001) - 1000) / 137;
         switch (p % 6) { case 1: v = 1.0 / (i + j + 1 + p / 6); break; case 2: if ((s >> 20) % 2) v = 0; break; case 3: v = double((i + 1) * (j + 2 + p / 6)); break; case 4: v = (i == j) ? v : 0; break; case 5: v *= std::pow(10., double(int(i) - int(j))); break; default: break; }
         a(i, j) = v;
      }
      c.at(show(a)); c.eval(2); c.states(1); ckSVD(c, a, 0, false); ckHouse(c, a); c.outcome(u64(r * 10 + k));
   });
   return h.run(argc, argv);
}
