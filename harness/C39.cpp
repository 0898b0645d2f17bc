// C39 position solution: every satellite subset, fault, marking and epoch history of a small constellation against an independent least-squares model
// MC-SAN: asan assert
// MC-RULE: pseudoranges are generated by solving the light-time equation exactly for the chosen receiver, clocks and orbits ; the model fits every subset by linear least squares at the true position and applies the documented RAIM steps
// MC-ASSUME: decisions within 10 percent (and 0.3 m) of a limit are not judged ; satellites are above the horizon ; fault sizes up to 1 km
#include <array>
#include <cmath>
#include <cstdarg>
#include <map>
#include <memory>
#include <set>
#include "mc.hpp"
#include "PRSolution.hpp"
#include "Combinations.hpp"
#include "Bancroft.hpp"
#include "SimpleTropModel.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk; using namespace mc; typedef std::string S; typedef long double ld; typedef std::array<double, 3> V3;
static const double C = 299792458.0, OM = 7.2921151467e-5;
static CommonTime TR(int k = 0) { static const CommonTime z = GPSWeekSecond(2000, 345600.0).convertToCommonTime(); CommonTime t(z); t += k * 30.0; t.setTimeSystem(TimeSystem::GPS); return t; }
struct Sv { V3 p, v; double clk, rel; };
struct Eph : XvtStore<SatID> { std::map<SatID, Sv> m; mutable int calls = 0;
  virtual Xvt getXvt(const SatID& s, const CommonTime& t) const { auto i = m.find(s); if (i == m.end()) { InvalidRequest e("no ephemeris"); GPSTK_THROW(e); } calls++; Xvt x; double dt = t - TR(); for (int k = 0; k < 3; k++) { x.x[k] = i->second.p[k] + i->second.v[k] * dt; x.v[k] = i->second.v[k]; } x.clkbias = i->second.clk; x.relcorr = i->second.rel; x.clkdrift = 0; return x; }
  virtual Xvt computeXvt(const SatID& s, const CommonTime& t) const throw() { return getXvt(s, t); }
  virtual Xvt::HealthStatus getSVHealth(const SatID&, const CommonTime&) const throw() { return Xvt::HealthStatus(); }
  virtual void dump(std::ostream&, short) const {} virtual void edit(const CommonTime&, const CommonTime&) {} virtual void clear() {} virtual TimeSystem getTimeSystem() const { return TimeSystem::GPS; } virtual CommonTime getInitialTime() const { return CommonTime::BEGINNING_OF_TIME; } virtual CommonTime getFinalTime() const { return CommonTime::END_OF_TIME; }
  virtual bool hasVelocity() const { return true; } virtual bool isPresent(const SatID& s) const { return m.count(s); } virtual std::set<SatID> getIndexSet() const { return std::set<SatID>(); } };
static const int NS = 9;
static const double AZ[NS] = {10, 75, 140, 200, 265, 320, 35, 180, 290}, EL[NS] = {62, 35, 21, 48, 27, 12, 14, 80, 55};
static const double GEO[5][3] = {{0.0, 0.3, 120}, {0.7, -1.7, 35}, {1.5707, 0.4, 2800}, {-0.6, 2.9, -20}, {0.9, 1.0, 500000}}; // lat lon height
static V3 rxPos(int r) { double a = 6378137.0, f = 1 / 298.257223563, e2 = f * (2 - f), la = GEO[r][0], lo = GEO[r][1], h = GEO[r][2], n = a / sqrt(1 - e2 * sin(la) * sin(la)); return V3{{(n + h) * cos(la) * cos(lo), (n + h) * cos(la) * sin(lo), (n * (1 - e2) + h) * sin(la)}}; }
static Sv svOf(int r, int k, double dup = -1) { V3 x = rxPos(r); double la = GEO[r][0], lo = GEO[r][1], az = AZ[k] * M_PI / 180, el = EL[k] * M_PI / 180; double e = cos(el) * sin(az), n = cos(el) * cos(az), u = sin(el);
  V3 d = {{-sin(lo) * e - sin(la) * cos(lo) * n + cos(la) * cos(lo) * u, cos(lo) * e - sin(la) * sin(lo) * n + cos(la) * sin(lo) * u, cos(la) * n + sin(la) * u}}; double R = 26.6e6 + 2e5 * (k % 3), b = x[0] * d[0] + x[1] * d[1] + x[2] * d[2], xx = x[0] * x[0] + x[1] * x[1] + x[2] * x[2], s = -b + sqrt(b * b - xx + R * R);
  Sv v; for (int q = 0; q < 3; q++) v.p[q] = x[q] + s * d[q]; V3 w = {{-v.p[1], v.p[0], 0.3 * v.p[0]}}; double nw = sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]); for (int q = 0; q < 3; q++) v.v[q] = w[q] / nw * (2800 - 300 * (k % 4)) * (k % 2 ? 1 : -1); v.clk = (k - 4) * 3.7e-5; v.rel = (k % 3 - 1) * 2.1e-8; (void)dup; return v; }
static double range(const V3& r, const Sv& s, double tr, V3* u = 0) { double tau = 0.07; V3 q; for (int it = 0; it < 12; it++) { double te = tr - tau, w = OM * tau; V3 p; for (int k = 0; k < 3; k++) p[k] = s.p[k] + s.v[k] * te; q = V3{{cos(w) * p[0] + sin(w) * p[1], -sin(w) * p[0] + cos(w) * p[1], p[2]}}; double d = 0; for (int k = 0; k < 3; k++) d += (q[k] - r[k]) * (q[k] - r[k]); tau = sqrt(d) / C; } if (u) for (int k = 0; k < 3; k++) (*u)[k] = (r[k] - q[k]) / (tau * C); return tau * C; }
static double tropOf(TropModel* t, const V3& r, const V3& u) { Position R, P; R.setECEF(r[0], r[1], r[2]); P.setECEF(r[0] - u[0] * 2.2e7, r[1] - u[1] * 2.2e7, r[2] - u[2] * 2.2e7); return t->correction(R, P, TR()); }
typedef std::vector<std::vector<ld>> M;
static bool inv(M a, M& r, ld* cond = 0) { int n = a.size(); r = M(n, std::vector<ld>(n, 0)); for (int i = 0; i < n; i++) r[i][i] = 1; ld mx = 0, mn = 1e300; for (int c = 0; c < n; c++) { int p = c; for (int i = c; i < n; i++) if (fabsl(a[i][c]) > fabsl(a[p][c])) p = i; ld v = fabsl(a[p][c]); mx = std::max(mx, v); mn = std::min(mn, v); if (v < 1e-13L) return false; std::swap(a[c], a[p]); std::swap(r[c], r[p]); ld d = a[c][c]; for (int j = 0; j < n; j++) { a[c][j] /= d; r[c][j] /= d; } for (int i = 0; i < n; i++) if (i != c) { ld f = a[i][c]; for (int j = 0; j < n; j++) { a[i][j] -= f * a[c][j]; r[i][j] -= f * r[c][j]; } } } if (cond) *cond = mx / mn; return true; }
struct Sol { bool ok = false; int dim = 0, n = 0; double rms = 0, slope = 0, pdop = 0, tdop = 0, minred = 1; M Q; std::vector<double> dx; };
// least squares at the truth: rows (index of satellite), u direction cosines, sys, error e
static Sol fit(const std::vector<int>& rows, const std::vector<V3>& u, const std::vector<int>& sys, const std::vector<int>& order, const std::vector<double>& err, const M* W) {
  Sol s; std::vector<int> cur; for (int o : order) for (int r : rows) if (sys[r] == o) { cur.push_back(o); break; } s.dim = 3 + cur.size(); s.n = rows.size(); if (s.n < s.dim) return s; int n = s.n, d = s.dim; M P(n, std::vector<ld>(d, 0)); for (int i = 0; i < n; i++) { for (int k = 0; k < 3; k++) P[i][k] = u[rows[i]][k]; for (size_t k = 0; k < cur.size(); k++) if (sys[rows[i]] == cur[k]) P[i][3 + k] = 1; }
  M A(d, std::vector<ld>(d, 0)), B(d, std::vector<ld>(n, 0)), PP(d, std::vector<ld>(d, 0)); for (int i = 0; i < d; i++) for (int k = 0; k < n; k++) for (int q = 0; q < n; q++) B[i][k] += P[q][i] * (W ? (*W)[rows[q]][rows[k]] : (ld)(q == k)); for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) for (int k = 0; k < n; k++) { A[i][j] += B[i][k] * P[k][j]; PP[i][j] += P[k][i] * P[k][j]; }
  M QP; if (!inv(A, s.Q) || !inv(PP, QP)) return s; s.ok = true; s.pdop = sqrt((double)(QP[0][0] + QP[1][1] + QP[2][2])); ld td = 0; for (int k = 3; k < d; k++) td += QP[k][k]; s.tdop = sqrt((double)td);
  M G(d, std::vector<ld>(n, 0)); for (int i = 0; i < d; i++) for (int k = 0; k < n; k++) for (int j = 0; j < d; j++) G[i][k] += s.Q[i][j] * B[j][k]; s.dx.assign(d, 0); for (int i = 0; i < d; i++) for (int k = 0; k < n; k++) s.dx[i] += G[i][k] * err[rows[k]]; ld ss = 0; for (int k = 0; k < n; k++) { ld r = err[rows[k]]; for (int i = 0; i < d; i++) r -= P[k][i] * s.dx[i]; ss += r * r; } s.rms = sqrt((double)(ss / n));
  for (int k = 0; k < n; k++) { ld pg = 0, g2 = 0; for (int i = 0; i < d; i++) { pg += P[k][i] * G[i][k]; g2 += G[i][k] * G[i][k]; } if (fabsl(1 - pg) < 1e-8) continue; if (fabsl(1 - pg) < 1e-5) s.minred = 0; s.slope = std::max(s.slope, sqrt((double)(g2 * (n - d) / (1 - pg)))); } return s; }
struct Scene { int r; V3 rx; std::vector<Sv> sv; std::vector<SatID> id; std::vector<int> sys; std::vector<double> pr; std::vector<V3> u; Eph eph; };
static SatelliteSystem SYS(int k) { return k == 0 ? SatelliteSystem::GPS : k == 1 ? SatelliteSystem::Galileo : SatelliteSystem::Glonass; }
static const double CLK[3] = {1.25e-4, -3.1e-3, 9.9e-6};
static void build(Scene& s, int r, const std::vector<int>& which, int sysmap, TropModel* trop, int epoch = 0, double clkScale = 1) { s.r = r; s.rx = rxPos(r); s.eph.m.clear(); s.sv.clear(); s.id.clear(); s.sys.clear(); s.pr.clear(); s.u.clear(); for (int k : which) { Sv v = svOf(r, k); int sy = sysmap == 0 ? 0 : sysmap == 1 ? k % 2 : sysmap == 2 ? k % 3 : (k == 3 ? 1 : 0); double dtr = CLK[sy] * clkScale; V3 u; double tr = epoch * 30.0 - dtr; double rho = range(s.rx, v, tr, &u); SatID id(k + 1, SYS(sy)); s.eph.m[id] = v; s.sv.push_back(v); s.id.push_back(id); s.sys.push_back(sy); s.u.push_back(u); s.pr.push_back(rho + C * (dtr - v.clk - v.rel) + (trop ? tropOf(trop, s.rx, u) : 0)); } }
static double perr(const Vector<double>& x, const V3& r) { double d = 0; for (int k = 0; k < 3; k++) d += (x(k) - r[k]) * (x(k) - r[k]); return sqrt(d); }
static M weights(int kind, int n) { M w(n, std::vector<ld>(n, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) w[i][j] = i == j ? (kind == 1 ? 0.25 + 0.5 * (i % 4) : 2.0) : (kind == 2 ? 0.3 / (1 + abs(i - j)) : 0); return w; }
static Matrix<double> toM(const M& w) { Matrix<double> m(w.size(), w.size()); for (size_t i = 0; i < w.size(); i++) for (size_t j = 0; j < w.size(); j++) m(i, j) = w[i][j]; return m; }
static S ids(const std::vector<SatID>& v) { std::ostringstream o; for (auto& x : v) o << x.id << "/" << (int)x.system << " "; return o.str(); }
static void checkSol(Ctx& c, PRSolution& p, int iret, Scene& s, const std::vector<int>& rows, const std::vector<int>& order, const M* W, double bias, const S& d, double extraTol = 0) { // bias: clock scale
  Sol m = fit(rows, s.u, s.sys, order, std::vector<double>(s.u.size(), 0), W); double tol = 0.002 * (1 + m.pdop + m.tdop) + extraTol; c.eval(4);
  MC_CK(c, p.isValid(), "valid", d << " is not valid"); MC_CK(c, p.Nsvs == (int)rows.size(), "nsvs", d << " used " << p.Nsvs << " satellites"); MC_CK(c, p.Solution.size() == (size_t)m.dim, "dimension", d << " solution has " << p.Solution.size() << " elements"); if (p.Solution.size() != (size_t)m.dim) return;
  double e = perr(p.Solution, s.rx); MC_CK(c, e < tol, "position", d << " position off by " << e << " m (tolerance " << tol << ", pdop " << m.pdop << ") iret " << iret);
  std::vector<int> cur; for (int o : order) for (int r : rows) if (s.sys[r] == o) { cur.push_back(o); break; } MC_CK(c, p.dataGNSS.size() == cur.size(), "systems", d << " has " << p.dataGNSS.size() << " systems"); for (size_t k = 0; k < cur.size() && k < p.dataGNSS.size(); k++) { MC_CK(c, p.dataGNSS[k] == SYS(cur[k]), "systems", d << " system " << k); double ce = p.Solution(3 + k) - C * CLK[cur[k]] * bias; MC_CK(c, std::fabs(ce) < tol, "clock", d << " clock of system " << cur[k] << " off by " << ce << " m"); }
  MC_CK(c, p.Covariance.rows() == (size_t)m.dim, "covariance", d << " covariance has dimension " << p.Covariance.rows()); for (int i = 0; i < m.dim && p.Covariance.rows() == (size_t)m.dim; i++) for (int j = 0; j < m.dim; j++) MC_CK(c, std::fabs(p.Covariance(i, j) - (double)m.Q[i][j]) < 1e-4 * sqrt((double)(m.Q[i][i] * m.Q[j][j])) + 1e-9, "covariance", d << " covariance " << i << "," << j << " is " << p.Covariance(i, j) << " want " << (double)m.Q[i][j]);
  MC_CK(c, p.RMSResidual < 0.01 + extraTol, "rms", d << " rms residual " << p.RMSResidual); if (m.minred) MC_CK(c, std::fabs(p.MaxSlope - m.slope) < 1e-3 * m.slope + 1e-6, "slope", d << " slope " << p.MaxSlope << " want " << m.slope);
}
static void checkDop(Ctx& c, PRSolution& p, const Sol& m, const S& d, double q = 1e-4) { c.eval(1); MC_CK(c, std::fabs(p.PDOP - m.pdop) < q * m.pdop && std::fabs(p.TDOP - m.tdop) < q * m.tdop && std::fabs(p.GDOP - std::hypot(m.pdop, m.tdop)) < q * (m.pdop + m.tdop), "dop", d << " PDOP " << p.PDOP << " TDOP " << p.TDOP << " GDOP " << p.GDOP << " want " << m.pdop << " " << m.tdop); }
int main(int argc, char** argv) {
  Harness h("C39"); bool th = h.thorough; static const std::vector<std::vector<int>> ORD = {{0, 1, 2}, {2, 1, 0}, {1, 0, 2}};
  // ---- every subset
  h.part("satellite subsets", 5 * 512 * 4, [&](Ctx& c, u64 i) { Mix m(i); int mask = m(512), r = m(5), sm = m(4); std::vector<int> w; for (int k = 0; k < NS; k++) if (mask >> k & 1) w.push_back(k); if (w.size() < 2) return;
    for (int opt = 0; opt < (th ? 24 : 4); opt++) { int o = th ? opt : (opt * 5 + i) % 24; int wk = o % 3, mem = (o / 3) % 4; bool trop = o / 12; ZeroTropModel zt; SimpleTropModel st; TropModel* tm = trop ? (TropModel*)&st : &zt; double sc = mem == 3 ? 8 : 1; Scene s; build(s, r, w, sm, tm, mem, sc);
      PRSolution p; const std::vector<int>& order = ORD[(o + i) % 3]; for (int q : order) p.allowedGNSS.push_back(SYS(q)); p.hasMemory = mem != 0; if (mem == 2) p.fixAPSolution(s.rx[0] + 30000, s.rx[1] - 20000, s.rx[2]); p.SlopeLimit = (o + i) % 2 ? 1000 : 12;
      std::vector<SatID> sats = s.id; M W = weights(wk, w.size()); Matrix<double> im; if (wk) im = toM(W); c.at("subset"); bool bt = GEO[r][2] > 44247 && trop; int iret = wk == 0 && o % 2 ? p.RAIMComputeUnweighted(TR(mem), sats, s.pr, &s.eph, tm) : p.RAIMCompute(TR(mem), sats, s.pr, im, &s.eph, tm); c.traces(1); c.states(1);
      std::vector<int> rows; for (size_t k = 0; k < w.size(); k++) rows.push_back(k); Sol f = fit(rows, s.u, s.sys, order, std::vector<double>(w.size(), 0), wk ? &W : 0); auto d = [&] { std::ostringstream x; x << "receiver " << r << " satellites " << ids(s.id) << "option " << o << " returns " << iret; return x.str(); };
      c.outcome(hmix(iret + 10, p.NIterations)); if (f.n < f.dim) { MC_CK(c, iret == -3 && !p.isValid(), "too-few", d() << " valid " << p.isValid()); continue; } if (!f.ok || f.pdop + f.tdop > 200) continue;
      bool tf = GEO[r][2] > 44247 ; bool sf = f.slope > p.SlopeLimit || (f.slope > p.SlopeLimit / 2 && w.size() == 5); bool close = std::fabs(f.slope / p.SlopeLimit - 1) < .01 || std::fabs(f.slope / p.SlopeLimit * 2 - 1) < .01; if (iret < 0 && f.n == f.dim && mem != 1) { c.outcome("exactly determined, no convergence"); continue; } if (f.minred && !close) MC_CK(c, iret == (tf || sf ? 1 : 0), "return", d() << " want " << (tf || sf) << " slope " << f.slope); else MC_CK(c, iret >= 0, "return", d());
      if (iret < 0) continue; MC_CK(c, p.TropFlag == tf && !p.RMSFlag && (close || !f.minred || p.SlopeFlag == sf), "flags", d() << " flags " << p.TropFlag << p.RMSFlag << p.SlopeFlag); MC_CK(c, sats == s.id, "no-exclusion", d() << " marks " << ids(sats)); if (!bt) { checkSol(c, p, iret, s, rows, order, wk ? &W : 0, sc, d()); checkDop(c, p, f, d()); }
      if (p.hasMemory) { MC_CK(c, p.APSolution.size() == 6, "apriori-size", d() << " a priori size " << p.APSolution.size()); if (p.APSolution.size() == 6) for (int k = 0; k < 3; k++) MC_CK(c, p.APSolution(k) == p.Solution(k), "apriori", d() << " a priori " << p.APSolution(k)); } } }, 120);
  // ---- faults against the RAIM model
  h.part("faulty satellites", 2 * 4 * 5 * 46 * 6, [&](Ctx& c, u64 i) { Mix m(i); static const double SZ[6] = {7, -25, 60, -150, 400, -1000}; int n = 5 + m(5), pair = m(46), sz = m(6), sm = m(4), r = m(2); int a = -1, b = -1; if (pair < 9) a = pair; else { int q = 9; for (int x = 0; x < 9 && a < 0; x++) for (int y = x + 1; y < 9; y++) if (q++ == pair) { a = x; b = y; break; } if (pair == 45) { a = 0; b = 8; } } if (a >= n || b >= n || a < 0) return; static const double BS[3] = {1, -0.7, 1.9};
    for (int v = 0; v < (th ? 12 : 4); v++) { if (!th && (v & 1) != (int)(i / 2 % 2)) continue; int nrej = v % 4 - 1, wk = v / 4; if (!th) wk = i % 3; ZeroTropModel zt; std::vector<int> w; for (int k = 0; k < n; k++) w.push_back((k + pair) % NS); Scene s; build(s, r, w, sm, &zt); std::vector<double> err(n, 0.0); err[a] = SZ[sz]; if (b >= 0) err[b] = SZ[sz] * BS[(a + b) % 3]; for (int k = 0; k < n; k++) s.pr[k] += err[k]; M W = weights(wk, n); const std::vector<int>& order = ORD[i % 3];
      PRSolution p; for (int q : order) p.allowedGNSS.push_back(SYS(q)); p.NSatsReject = nrej; p.hasMemory = v % 2; p.SlopeLimit = 1e9; std::vector<SatID> sats = s.id; Matrix<double> im; if (wk) im = toM(W); int iret = p.RAIMCompute(TR(), sats, s.pr, im, &s.eph, &zt); c.traces(1);
      auto d = [&] { std::ostringstream x; x << "receiver " << r << " satellites " << ids(s.id) << "faults " << a << "," << b << " of " << SZ[sz] << " m reject limit " << nrej << " weights " << wk << " returns " << iret << " marks " << ids(sats) << " rms " << p.RMSResidual; return x.str(); };
      // model
      double best = -1, second = 1e9; u64 bm = 0; bool judge = true, success = false, few = false; int stage = 0; for (;; stage++) { if (nrej > -1 && stage > nrej) break; Combinations* dummy = 0; (void)dummy; for (u64 mk = 0; mk < (1u << n); mk++) { if (__builtin_popcountll(mk) != stage) continue; std::vector<int> rows; for (int k = 0; k < n; k++) if (!(mk >> k & 1)) rows.push_back(k); Sol f = fit(rows, s.u, s.sys, order, err, wk ? &W : 0); c.trans(1); if (f.n < f.dim) { few = true; continue; } if (!f.ok || f.pdop > 100) { judge = false; continue; } if (best < 0 || f.rms < best) { if (best >= 0) second = best; best = f.rms; bm = mk; } else second = std::min(second, f.rms); }
        if (best >= 0 && std::fabs(best - 6.5) < 0.95) judge = false; if (best >= 0 && best < 6.5) { success = true; break; } if (few) break; }
      if (few || !judge) { if (few && !success) continue; if (!judge || few) continue; } if (stage > 0 && best > 0.5 * second - 0.2 && !(best < 0.02 && second > 0.2)) continue;
      if (stage == 0 || success || nrej > -1) { c.states(1); c.outcome(hmix(bm, hmix(n, iret + 10))); std::vector<SatID> want = s.id; std::vector<int> rows; for (int k = 0; k < n; k++) if (bm >> k & 1) want[k].id = -want[k].id; else rows.push_back(k);
        MC_CK(c, sats == want, "excluded", d() << " want " << ids(want)); MC_CK(c, p.SatelliteIDs == want, "satellite-ids", d() << " member " << ids(p.SatelliteIDs)); int wr = success && !p.TropFlag ? 0 : 1; MC_CK(c, iret == wr && p.isValid() && p.RMSFlag == !success && !p.SlopeFlag, "fault-return", d() << " want " << wr); double sh = 0; Sol f = fit(rows, s.u, s.sys, order, err, wk ? &W : 0); for (double x : f.dx) sh += std::fabs(x); if (sh < 1e-6) MC_CK(c, !p.TropFlag, "fault-trop", d()); MC_CK(c, std::fabs(p.RMSResidual - best) < 0.05 + 0.02 * best, "fault-rms", d() << " want " << best); checkDop(c, p, f, d(), 1e-3); if (sh < 1e-6 && success && best < 0.02) checkSol(c, p, iret, s, rows, order, wk ? &W : 0, 1, d(), 0.01); c.eval(4); } } }, 120);
  // ---- unusable data
  h.part("unusable satellites", 4096 * (th ? 4 : 1), [&](Ctx& c, u64 i) { Mix m(i); int st[7]; for (int k = 0; k < 6; k++) st[k] = m(4); int sm = th ? m(4) % 2 : i % 2; ZeroTropModel zt; std::vector<int> w = {0, 1, 2, 3, 4, 7}; Scene s; build(s, 1, w, 0, &zt); std::vector<SatID> sats = s.id; std::vector<int> rows; for (int k = 0; k < 6; k++) { if (st[k] == 0) rows.push_back(k); if (st[k] == 1) s.eph.m.erase(s.id[k]); if (st[k] == 2) { s.eph.m.erase(s.id[k]); sats[k] = s.id[k] = SatID(k + 1, SatelliteSystem::BeiDou); s.eph.m[sats[k]] = s.sv[k]; } if (st[k] == 3) { sats[k].id = -sats[k].id; s.eph.m.erase(s.id[k]); if (i % 5 == 0) s.pr[k] = 0; } }
    PRSolution p; p.allowedGNSS = {SatelliteSystem::GPS}; if (sm) p.allowedGNSS.push_back(SatelliteSystem::Galileo); p.hasMemory = i % 3; std::vector<SatID> in = sats; Matrix<double> svp; std::vector<SatID> pre = sats; int np = p.PreparePRSolution(TR(), pre, s.pr, &s.eph, svp); int allowed = 0; for (int k = 0; k < 6; k++) if (st[k] < 2) allowed++; auto d = [&] { return S("satellites ") + ids(in) + "states " + std::to_string(i); };
    MC_CK(c, np == (allowed && rows.empty() ? -4 : (int)rows.size()), "prepare-count", d() << " prepare returns " << np); for (int k = 0; k < 6; k++) { MC_CK(c, (pre[k].id > 0) == (st[k] == 0) && std::abs(pre[k].id) == std::abs(in[k].id), "prepare-marks", d() << " marked " << ids(pre)); if (st[k] == 0 && svp.rows() == 6) { double x = 0; Xvt e = s.eph.getXvt(s.id[k], TR() - s.pr[k] / C - (s.sv[k].clk + s.sv[k].rel)); for (int q = 0; q < 3; q++) x += std::fabs(svp(k, q) - e.x[q]); MC_CK(c, x < 1e-4, "prepare-position", d() << " svp off by " << x); MC_CK(c, std::fabs(svp(k, 3) - s.pr[k] - C * (s.sv[k].clk + s.sv[k].rel)) < 1e-6, "prepare-range", d()); } }
    MC_CK(c, svp.rows() == 6 && svp.cols() == 4, "prepare-dim", d() << " SVP has " << svp.rows() << " rows"); Matrix<double> im; int iret = p.RAIMCompute(TR(), sats, s.pr, im, &s.eph, &zt); c.states(1); c.eval(6); c.outcome(iret + 9);
    if (rows.empty()) MC_CK(c, iret == -4 && !p.isValid(), "none", d() << " returns " << iret); else if (rows.size() < 4) MC_CK(c, iret == -3 && !p.isValid(), "few", d() << " returns " << iret); else { MC_CK(c, iret >= 0, "enough", d() << " returns " << iret); std::vector<SatID> want = in; for (int k = 0; k < 6; k++) if (st[k]) want[k].id = -std::abs(want[k].id); MC_CK(c, sats == want, "marks", d() << " marks " << ids(sats)); if (iret >= 0) checkSol(c, p, iret, s, rows, {0, 1}, 0, 1, d()); }
    // direct call, disallowed systems unmarked
    if (svp.rows() == 6) { std::vector<SatID> raw = in; for (int k = 0; k < 6; k++) if (st[k] == 1) raw[k].id = -raw[k].id; Matrix<double> sv2(svp); PRSolution q; q.allowedGNSS = p.allowedGNSS; q.hasMemory = false; ZeroTropModel z2; Vector<double> res, slo; int wk = i % 3; Matrix<double> mm; M W = weights(wk, 6); if (wk) mm = toM(W); int ir = q.SimplePRSolution(TR(), raw, sv2, mm, &z2, 10, 3e-7, res, slo); c.traces(1); MC_CK(c, ir == (rows.size() < 4 ? -3 : 0), "simple-return", d() << " SimplePRSolution returns " << ir); if (ir == 0) { checkSol(c, q, ir, s, rows, {0, 1}, wk ? &W : 0, 1, d() + " simple"); MC_CK(c, res.size() == rows.size() && slo.size() == rows.size(), "simple-sizes", d()); for (size_t k = 0; k < res.size(); k++) MC_CK(c, std::fabs(res(k)) < 0.01, "residual", d() << " residual " << res(k)); } else MC_CK(c, !q.isValid(), "simple-valid", d()); } });
  // ---- singular geometry, no convergence, bad arguments
  h.part("singular", 84 * 3 * 2, [&](Ctx& c, u64 i) { Mix m(i); int tri = m(84), nd = 1 + m(3), api = m(2); int q = 0, t[3] = {0, 0, 0}; for (int x = 0; x < 9; x++) for (int y = x + 1; y < 9; y++) for (int z = y + 1; z < 9; z++) if (q++ == tri) t[0] = x, t[1] = y, t[2] = z; ZeroTropModel zt; std::vector<int> w = {t[0], t[1], t[2]}; for (int k = 0; k < nd; k++) w.push_back(t[k % 3]); Scene s; build(s, 1, w, 0, &zt); PRSolution p; p.allowedGNSS = {SatelliteSystem::GPS}; p.hasMemory = i % 2; Matrix<double> im, svp; int iret; if (api) { std::vector<SatID> sats = s.id; iret = p.RAIMCompute(TR(), sats, s.pr, im, &s.eph, &zt); } else { p.PreparePRSolution(TR(), s.id, s.pr, &s.eph, svp); Vector<double> a, b; iret = p.SimplePRSolution(TR(), s.id, svp, im, &zt, 10, 3e-7, a, b); }
    c.eval(1); c.states(1); MC_CK(c, iret < 0 && !p.isValid(), "singular", (api ? "RAIMCompute" : "SimplePRSolution") << " of " << ids(s.id) << "(three distinct satellites) returns " << iret << " valid " << p.isValid()); if (!api) MC_CK(c, iret == -2, "singular-code", "SimplePRSolution of " << ids(s.id) << "returns " << iret); });
  h.part("iteration limits", 9 * 6, [&](Ctx& c, u64 i) { Mix m(i); int lim = m(9), off = m(6); ZeroTropModel zt; Scene s; build(s, 0, {0, 1, 2, 3, 4, 5}, 0, &zt); PRSolution p; p.allowedGNSS = {SatelliteSystem::GPS}; p.MaxNIterations = lim; static const double OFF[6] = {0, 1e-9, 10, 1e4, 1e6, -1}; if (off < 5) { p.fixAPSolution(s.rx[0] + OFF[off], s.rx[1], s.rx[2]); p.APSolution(3) = C * CLK[0]; } std::vector<SatID> sats = s.id; Matrix<double> im, svp; Vector<double> a, b; p.PreparePRSolution(TR(), s.id, s.pr, &s.eph, svp); int iret = p.SimplePRSolution(TR(), s.id, svp, im, &zt, lim, 3e-7, a, b); c.eval(2); c.states(1); c.outcome(hmix(iret + 9, p.NIterations)); auto d = [&] { std::ostringstream o; o << "iteration limit " << lim << " offset " << OFF[off] << " returns " << iret << " after " << p.NIterations << " iterations, change " << p.Convergence; return o.str(); };
    MC_CK(c, p.NIterations <= std::max(2, lim) && p.NIterations >= 2, "iterations", d()); MC_CK(c, iret == (p.Convergence < 3e-7 ? 0 : -1), "convergence-code", d()); MC_CK(c, p.isValid() == (iret == 0), "convergence-valid", d() << " valid " << p.isValid()); if (iret == 0) { double e = perr(p.Solution, s.rx); MC_CK(c, e < 0.01, "converged-position", d() << " off by " << e); } if (lim >= 8) MC_CK(c, iret == 0, "converges", d()); int r2 = p.RAIMCompute(TR(), sats, s.pr, im, &s.eph, &zt); MC_CK(c, (r2 >= 0) == p.isValid(), "raim-convergence", d() << " RAIM returns " << r2 << " valid " << p.isValid()); if (r2 >= 0) { double e = perr(p.Solution, s.rx); MC_CK(c, e < 0.01, "raim-position", d() << " RAIM off by " << e << " returns " << r2); } });
  h.part("arguments", 1, [&](Ctx& c, u64) { ZeroTropModel zt; Scene s; build(s, 0, {0, 1, 2, 3, 4}, 0, &zt); PRSolution p; std::vector<SatID> sats = s.id; Matrix<double> im, svp, bad(4, 4, 0.0); Vector<double> a, b; MC_CK(c, thrown([&] { p.RAIMCompute(TR(), sats, s.pr, im, &s.eph, &zt); }) != "", "no-systems", "undefined systems accepted"); MC_CK(c, p.getAPV() == 0, "apv", "APV of an empty solution is " << p.getAPV()); p.allowedGNSS = {SatelliteSystem::GPS}; p.PreparePRSolution(TR(), sats, s.pr, &s.eph, svp);
    MC_CK(c, thrown([&] { p.SimplePRSolution(TR(), sats, svp, im, 0, 10, 1e-7, a, b); }) != "", "no-trop", "no trop model accepted"); MC_CK(c, thrown([&] { p.SimplePRSolution(TR(), sats, svp, bad, &zt, 10, 1e-7, a, b); }) != "", "bad-weights", "wrong weights accepted"); MC_CK(c, thrown([&] { p.SimplePRSolution(TR(), sats, bad, im, &zt, 10, 1e-7, a, b); }) != "", "bad-svp", "wrong SVP accepted"); c.eval(5); });
  // ---- histories of epochs
  h.part("epoch histories", 8 * 8 * 8 * (th ? 64 : 8) * 2, [&](Ctx& c, u64 i) { Mix m(i); int len = th ? 5 : 4; std::vector<int> ops; for (int k = 0; k < len; k++) ops.push_back(m(8)); int ord = m(2) + 1; ZeroTropModel zt; PRSolution p; const std::vector<int>& order = ORD[ord]; for (int q : order) p.allowedGNSS.push_back(SYS(q)); if (i % 3 == 1) { V3 x = rxPos(1); p.fixAPSolution(x[0], x[1] + 100, x[2]); } S hist; int good = 0; double clk[3] = {0, 0, 0}; V3 last = {{0, 0, 0}}; Vector<double> sum(3, 0.0);
    for (int k = 0; k < len; k++) { int op = ops[k]; std::vector<int> w; int sm = 2; if (op == 0) w = {0, 1, 2, 3, 4, 5, 6}; else if (op == 1) w = {0, 3, 6, 1, 4}, sm = 0; else if (op == 2) w = {1, 4, 7, 3, 5}, sm = 1; else if (op == 3) w = {2, 5, 8, 0, 3, 6, 7}; else if (op == 4) w = {0, 1}; else if (op == 5) w = {0, 1, 2, 3, 4, 5, 7, 8}, sm = 0; else if (op == 6) w = {1, 3, 5, 7}, sm = 1; else w = {0, 2, 4, 6, 8}, sm = 1; Scene s; build(s, 1, w, sm, &zt, k, 1 + k); if (op == 5) s.pr[2] += 500; hist += std::to_string(op) + " "; std::vector<SatID> sats = s.id; Matrix<double> im; int iret = p.RAIMCompute(TR(k), sats, s.pr, im, &s.eph, &zt); c.trans(1); auto d = [&] { return "history " + hist + "order " + std::to_string(ord); };
      if (op == 4) { MC_CK(c, iret == -3 && !p.isValid(), "history-few", d() << " returns " << iret); continue; } MC_CK(c, iret >= 0, "history-return", d() << " returns " << iret); if (iret < 0) return; std::vector<int> rows; for (size_t q = 0; q < w.size(); q++) if (!(op == 5 && q == 2)) rows.push_back(q); MC_CK(c, sats[op == 5 ? 2 : 0].id == (op == 5 ? -s.id[2].id : s.id[0].id), "history-exclusion", d() << " marks " << ids(sats)); checkSol(c, p, iret, s, rows, order, 0, 1 + k, d()); if (iret == 0 || iret == 1) good++; last = s.rx; for (int r : rows) clk[s.sys[r]] = C * CLK[s.sys[r]] * (1 + k);
      MC_CK(c, p.was.getN() == good, "history-count", d() << " averaged " << p.was.getN() << " solutions"); double e = perr(p.APSolution, last); MC_CK(c, p.APSolution.size() == 6 && e < 0.1, "history-apriori", d() << " a priori off by " << e); if (p.APSolution.size() == 6) for (int q = 0; q < 3; q++) MC_CK(c, std::fabs(p.APSolution(3 + q) - clk[order[q]]) < 0.1, "history-clock", d() << " a priori clock of system " << order[q] << " is " << p.APSolution(3 + q) << " want " << clk[order[q]]); Vector<double> ws = p.was.getSol(); e = perr(ws, last); MC_CK(c, e < 0.05, "history-average", d() << " weighted average off by " << e); double apv = p.getAPV(); MC_CK(c, apv >= 0 && apv < 1e300, "history-apv", d() << " APV " << apv); c.eval(5); c.states(1); } c.traces(1); }, 120);
  // ---- combinations
  h.part("combinations", 13 * 15, [&](Ctx& c, u64 i) { Mix m(i); int n = m(13), k = (int)m(15) - 1; if (k > n || k < 0) { MC_CK(c, thrown([&] { Combinations x(n, k); }) != "", "combination-refused", "Combinations(" << n << "," << k << ") accepted"); c.eval(1); return; } double want = 1; for (int j = 0; j < k; j++) want = want * (n - j) / (j + 1); std::set<std::vector<int>> seen; Combinations x(n, k); u64 cnt = 0; std::vector<int> prev; for (;;) { cnt++; std::vector<int> v; for (int j = 0; j < k; j++) v.push_back(x.Selection(j)); for (int j = 0; j < k; j++) MC_CK(c, v[j] >= 0 && v[j] < n && (!j || v[j] > v[j - 1]), "combination-sorted", "C(" << n << "," << k << ")"); for (int j = 0; j < n; j++) MC_CK(c, x.isSelected(j) == (std::find(v.begin(), v.end(), j) != v.end()), "combination-selected", "C(" << n << "," << k << ") element " << j); MC_CK(c, x.Selection(-1) == -1 && x.Selection(k) == -1, "combination-range", "C(" << n << "," << k << ")"); seen.insert(v); c.states(1); if (cnt % 7 == 3) { Combinations y(x), z; z = x; int a = y.Next(), b = z.Next(); bool same = a == b; for (int j = 0; j < k; j++) same = same && y.Selection(j) == z.Selection(j); x = y; MC_CK(c, same, "combination-copy", "C(" << n << "," << k << ")"); if (a == -1) break; MC_CK(c, a == (int)cnt, "combination-count", "C(" << n << "," << k << ") Next gives " << a); } else { int a = x.Next(); if (a == -1) break; MC_CK(c, a == (int)cnt, "combination-count", "C(" << n << "," << k << ") Next gives " << a); } if (cnt > 100000) break; } MC_CK(c, cnt == (u64)(want + .5) && seen.size() == cnt, "combination-all", "C(" << n << "," << k << ") gives " << cnt << " of " << want); c.eval(2); });
  // ---- Bancroft
  h.part("Bancroft", 5 * 512 * 3, [&](Ctx& c, u64 i) { Mix m(i); int mask = m(512), r = m(5), mode = m(3); std::vector<int> w; for (int k = 0; k < NS; k++) if (mask >> k & 1) w.push_back(k); if (w.empty()) return; ZeroTropModel zt; Matrix<double> D(w.size(), 4); V3 rx = rxPos(r); std::vector<V3> u; std::vector<int> sys(w.size(), 0), rows; int ok = 0; for (size_t k = 0; k < w.size(); k++) { Sv s = svOf(r, w[k]); double d = 0; V3 uu; for (int q = 0; q < 3; q++) { D(k, q) = s.p[q]; d += (s.p[q] - rx[q]) * (s.p[q] - rx[q]); } for (int q = 0; q < 3; q++) uu[q] = (rx[q] - s.p[q]) / sqrt(d); u.push_back(uu); D(k, 3) = sqrt(d) + C * 1e-4; if (mode == 1 && w[k] % 4 == 1) D(k, 3) = 1e7; else if (mode == 1 && w[k] % 4 == 2) { for (int q = 0; q < 3; q++) D(k, q) *= 0.5; } else { ok++; rows.push_back(k); } }
    if (mode != 1) ok = w.size(); Bancroft b; if (mode == 2) { b.testInput = false; b.ChooseOne = false; } Vector<double> X; int iret = mode == 0 ? b.Compute((const Matrix<double>&)D, X) : b.Compute(D, X); c.eval(1); c.states(1); c.outcome(iret + 5); auto d = [&] { std::ostringstream o; o << "receiver " << r << " mask " << mask << " mode " << mode << " returns " << iret; return o.str(); };
    if (ok < 4) { MC_CK(c, iret == -1, "bancroft-few", d()); return; } Sol f = fit(rows, u, sys, {0}, std::vector<double>(w.size(), 0), 0); if (!f.ok || f.pdop > 100) return; MC_CK(c, iret == 0, "bancroft-return", d()); if (iret) return; auto err = [&](const Vector<double>& v) { return perr(v, rx) + std::fabs(v(3) - C * 1e-4); }; double e = err(X); if (mode == 2) e = std::min(e, err(b.SecondSolution)); else { Bancroft b2(b); b2.ChooseOne = false; Vector<double> Y; if (b2.Compute((const Matrix<double>&)D, Y) == 0) { const Vector<double>& o = err(Y) < err(b2.SecondSolution) ? b2.SecondSolution : Y; auto rad = [](const Vector<double>& v) { return std::fabs(std::sqrt(v(0) * v(0) + v(1) * v(1) + v(2) * v(2)) - 6378137.0); }; if (rad(o) < std::fabs(std::sqrt(rx[0] * rx[0] + rx[1] * rx[1] + rx[2] * rx[2]) - 6378137.0) + 1000) return; } } MC_CK(c, e < 0.05 * (1 + f.pdop), "bancroft-position", d() << " off by " << e); });
  return h.run(argc, argv);
}
