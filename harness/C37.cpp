// C37 Helmert transforms: every predefined transform and a grid of parameter sets x positions x entry points against the 7-parameter formula, inverses, chains, refusals; frame names
// MC-SAN: asan assert
// MC-RULE: x' = x + r x x + s x + t forward ; backward returns to within the square of the angles times the radius (sub-millimetre) ; the frame follows the position ; velocity is rotated and scaled
// MC-ASSUME: rotation angles below 0.5 arc seconds for the inverse ; positions within 30000 km
#include <array>
#include <cmath>
#include <cstdarg>
#include <map>
#include <memory>
#include <set>
#include "mc.hpp"
#include "HelmertTransform.hpp"
#include "Position.hpp"
#include "Xvt.hpp"
#include "YDSTime.hpp"
using namespace gpstk; using namespace mc; typedef std::string S; typedef ReferenceFrame RF; typedef std::array<double, 3> V3;
static const double MAS = 3.14159265358979323846 / 180 / 3600e3;
struct P7 { RF f, t; double r[3], d[3], s; };   // mas, m, scale
static V3 fwd(const P7& p, const V3& x, bool vel) { double r0 = p.r[0] * MAS, r1 = p.r[1] * MAS, r2 = p.r[2] * MAS; V3 y; y[0] = x[0] - r2 * x[1] + r1 * x[2] + p.s * x[0]; y[1] = r2 * x[0] + x[1] - r0 * x[2] + p.s * x[1]; y[2] = -r1 * x[0] + r0 * x[1] + x[2] + p.s * x[2]; if (!vel) for (int i = 0; i < 3; i++) y[i] += p.d[i]; return y; }
// exact inverse of the linear map by iteration
static V3 inv(const P7& p, const V3& y, bool vel) { V3 x = y; for (int k = 0; k < 12; k++) { V3 z = fwd(p, x, vel); for (int i = 0; i < 3; i++) x[i] -= z[i] - y[i]; } return x; }
static double dist(const V3& a, const V3& b) { double m = 0; for (int i = 0; i < 3; i++) { double d = std::fabs(a[i] - b[i]); if (!(d <= m)) m = d; } return m; }
static const P7 STD[5] = {{RF::WGS84, RF::ITRF, {0, 0, 0}, {0, 0, 0}, 0}, {RF::PZ90, RF::WGS84, {-19, -4, 353}, {0.07, 0, -0.77}, -3e-9}, {RF::PZ90, RF::WGS84, {0, 0, 0}, {-0.36, 0.08, 0.18}, 0}, {RF::PZ90, RF::ITRF, {-19, -4, 353}, {0.07, 0, -0.77}, -3e-9}, {RF::PZ90, RF::ITRF, {0, 0, 0}, {-0.36, 0.08, 0.18}, 0}};
static std::vector<V3> grid(bool T) { std::vector<V3> g; std::vector<double> c = T ? std::vector<double>{-26560e3, -6378137, -4200e3, -1, 0, 1, 150, 3300e3, 6356752, 29600e3} : std::vector<double>{-26560e3, -4200e3, 0, 1, 6378137}; for (double x : c) for (double y : c) for (double z : c) g.push_back({x, y, z}); return g; }
static S show(const V3& v) { char b[100]; snprintf(b, 100, "(%.5f %.5f %.5f)", v[0], v[1], v[2]); return b; }
static const char* NM[] = {"Unknown", "WGS84", "WGS84(G730)", "WGS84(G873)", "WGS84(G1150)", "ITRF", "PZ90", "PZ90KGS", "CGCS2000"};
// every entry point: returns the transformed position (and velocity, frame where the entry point has one)
static V3 run(HelmertTransform& h, int how, RF f, const V3& x, const V3& v, RF& fo, V3& vo) {
  fo = RF::Last; vo = v; V3 o;
  switch (how) {
  case 0: { Position p(x[0], x[1], x[2], Position::Cartesian), r; p.setReferenceFrame(f); h.transform(p, r); fo = r.getReferenceFrame(); o = {r.X(), r.Y(), r.Z()}; if (p.getReferenceFrame() != f || p.X() != x[0] || p.Y() != x[1]) o[0] = NAN; break; }
  case 1: { Vector<double> a(3), b; for (int i = 0; i < 3; i++) a(i) = x[i]; h.transform(a, f, b); if (b.size() != 3) { o[0] = NAN; break; } o = {b(0), b(1), b(2)}; break; }
  case 2: { Triple a(x[0], x[1], x[2]), b; h.transform(a, f, b); o = {b[0], b[1], b[2]}; break; }
  case 3: { Xvt a, b; a.x = Triple(x[0], x[1], x[2]); a.v = Triple(v[0], v[1], v[2]); a.clkbias = 1.5; a.clkdrift = -2.5; a.relcorr = 0.25; a.frame = f; h.transform(a, b); fo = b.frame; o = {b.x[0], b.x[1], b.x[2]}; vo = {b.v[0], b.v[1], b.v[2]}; if (b.clkbias != 1.5 || b.clkdrift != -2.5 || b.relcorr != 0.25) o[0] = NAN; break; }
  case 4: { h.transform(x[0], x[1], x[2], f, o[0], o[1], o[2]); break; }
  case 5: { Position p(x[0], x[1], x[2], Position::Cartesian); p.setReferenceFrame(f); p.transformTo(Position::Geodetic); Position r; h.transform(p, r); fo = r.getReferenceFrame(); o = {r.X(), r.Y(), r.Z()}; if (p.getCoordinateSystem() != Position::Geodetic) o[0] = NAN; break; }
  case 6: { Position p(x[0], x[1], x[2], Position::Cartesian); p.setReferenceFrame(f); p.transformTo(Position::Spherical); h.transform(p, p); fo = p.getReferenceFrame(); o = {p.X(), p.Y(), p.Z()}; break; }
  default: { Xvt a; a.x = Triple(x[0], x[1], x[2]); a.v = Triple(v[0], v[1], v[2]); a.frame = f; h.transform(a, a); fo = a.frame; o = {a.x[0], a.x[1], a.x[2]}; vo = {a.v[0], a.v[1], a.v[2]}; } }
  return o;
}
static void both(Ctx& c, HelmertTransform h, const P7& p, const V3& x, const V3& v, const S& d, int howmax = 8) {
  double rr = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); c.states(1);
  for (int how = 0; how < howmax; how++) { if ((how == 5 || how == 6) && rr < 6e6) continue; double tol = how == 5 || how == 6 ? 1e-5 : 2e-7; double ra = std::sqrt(p.r[0] * p.r[0] + p.r[1] * p.r[1] + p.r[2] * p.r[2]) * MAS + std::fabs(p.s); double tb = tol + 1e-6 + ra * ra * rr * 1.2; RF fo; V3 vo; c.eval(3); c.trans(2);
    V3 want = fwd(p, x, false), o = run(h, how, p.f, x, v, fo, vo); double tolw = tol + rr * 1e-15 + rr * 1e-16 + std::fabs(p.r[2] + p.r[0] + p.r[1]) * MAS * rr * 2e-11;
    MC_CK(c, dist(o, want) < tolw, "forward", d << " entry " << how << " of " << show(x) << " is " << show(o) << " want " << show(want)); bool fr = how == 0 || how == 3 || how >= 5; if (fr) MC_CK(c, fo == p.t, "frame", d << " entry " << how << " gives the frame " << (int)fo); if (how == 3 || how == 7) MC_CK(c, dist(vo, fwd(p, v, true)) < 1e-9, "velocity", d << " velocity " << show(v) << " becomes " << show(vo));
    if (p.f == p.t) continue; V3 vb, b = run(h, how, p.t, o, vo, fo, vb); MC_CK(c, dist(b, x) < tb, "back", d << " entry " << how << " of " << show(x) << " comes back as " << show(b)); if (fr) MC_CK(c, fo == p.f, "frame-back", d << " entry " << how << " comes back in the frame " << (int)fo); if (how == 3 || how == 7) MC_CK(c, dist(vb, v) < 1e-7, "velocity-back", d << " velocity " << show(v) << " comes back as " << show(vb));
    V3 ib = inv(p, x, false), g = run(h, how, p.t, x, v, fo, vb); MC_CK(c, dist(g, ib) < tb, "inverse", d << " entry " << how << " inverse of " << show(x) << " is " << show(g) << " want " << show(ib)); } }
int main(int argc, char** argv) {
  Harness h("C37"); static std::vector<V3> G; G = grid(h.thorough); static const std::vector<V3> VV = {{0, 0, 0}, {3874.5, -1200.25, 2.5}, {-1, 2, -3000}};
  h.part("predefined transforms", G.size() * 5, [](Ctx& c, u64 i) { int k = i % 5; const HelmertTransform& s = HelmertTransform::stdTransforms[k]; const P7& p = STD[k]; MC_CK(c, HelmertTransform::stdCount == 5 && s.getFromFrame() == p.f && s.getToFrame() == p.t, "std-frames", "transform " << k << " goes from " << (int)s.getFromFrame() << " to " << (int)s.getToFrame()); both(c, s, p, G[i / 5], VV[(i / 5) % 3], "predefined " + std::to_string(k)); });
  h.part("predefined epochs and refusals", 5 * 9, [](Ctx& c, u64 i) { int k = i % 5; RF f = (RF)(i / 5); HelmertTransform s = HelmertTransform::stdTransforms[k]; CommonTime e[5]; e[0] = YDSTime(1997, 1, 0.0, TimeSystem::UTC); e[1] = e[3] = YDSTime(-4713, 1, 0.0, TimeSystem::UTC); e[2] = e[4] = YDSTime(2007, 263, 61200.0, TimeSystem::UTC); c.eval(2); MC_CK(c, s.getEpoch() == e[k] && HelmertTransform::PZ90Epoch == e[2], "epoch", "epoch of transform " << k); bool ok = f == STD[k].f || f == STD[k].t;
    for (int how = 0; how < 8; how++) { RF fo; V3 vo; S t = thrown([&] { run(s, how, f, {6378137, 10, 20}, {1, 2, 3}, fo, vo); }); MC_CK(c, ok ? t.empty() : t == "InvalidRequest", "other-frame", "transform " << k << " entry " << how << " of frame " << NM[(int)f] << (t.empty() ? " is accepted" : " throws " + t)); }
    for (int n = 0; n < 6; n++) if (n != 3 && ok) { Vector<double> a(n, 1.0), b; MC_CK(c, thrown([&] { s.transform(a, f, b); }) == "InvalidRequest", "vector-size", "a vector of " << n << " elements is accepted"); } S txt = s.asString(); MC_CK(c, txt.find(S("from ") + NM[(int)STD[k].f] + " to " + NM[(int)STD[k].t] + ":") != S::npos, "text", txt);
    HelmertTransform u; for (int how = 0; how < 8; how++) { RF fo; V3 vo; MC_CK(c, !thrown([&] { run(u, how, f, {6378137, 10, 20}, {1, 2, 3}, fo, vo); }).empty(), "undefined", "an undefined transform acts on the frame " << NM[(int)f]); } });
  h.part("chains", G.size() * 4, [](Ctx& c, u64 i) { const V3& x = G[i / 4]; int a = (i & 1) ? 2 : 1, b = (i & 1) ? 4 : 3; bool back = i & 2; HelmertTransform h1 = HelmertTransform::stdTransforms[a], h2 = HelmertTransform::stdTransforms[0], h3 = HelmertTransform::stdTransforms[b]; RF fo; V3 vo; V3 m, e, d; if (!back) { m = run(h1, 0, RF::PZ90, x, x, fo, vo); e = run(h2, 0, RF::WGS84, m, x, fo, vo); d = run(h3, 0, RF::PZ90, x, x, fo, vo); } else { m = run(h2, 0, RF::ITRF, x, x, fo, vo); e = run(h1, 0, RF::WGS84, m, x, fo, vo); d = run(h3, 0, RF::ITRF, x, x, fo, vo); } c.eval(1); c.trans(3); MC_CK(c, dist(e, d) < 1e-7, "chain", "PZ90 and ITRF by WGS84 " << show(e) << " directly " << show(d)); });
  { static std::vector<P7> P; std::vector<double> r = {-400, 0, 137}, t = {-1.5, 0, 0.25}, s = {-3e-9, 0, 5e-8}; int n = 0; for (double r0 : r) for (double r1 : r) for (double r2 : r) for (double t0 : t) for (double t1 : t) for (double t2 : t) for (double sc : s) { n++; RF a = (RF)(1 + n % 8), b = (RF)(1 + (n / 8) % 8); P.push_back({a, b, {r0, r1, r2}, {t0, t1, t2}, sc}); }
    static size_t ng = h.thorough ? 40 : 12; h.part("any parameters", P.size(), [](Ctx& c, u64 i) { const P7& p = P[i]; HelmertTransform x(p.f, p.t, p.r[0] / 3600e3, p.r[1] / 3600e3, p.r[2] / 3600e3, p.d[0], p.d[1], p.d[2], p.s, "grid", CommonTime::BEGINNING_OF_TIME); MC_CK(c, x.getFromFrame() == p.f && x.getToFrame() == p.t && x.getEpoch() == CommonTime::BEGINNING_OF_TIME, "accessors", "accessors"); for (size_t k = 0; k < ng; k++) both(c, x, p, G[(i * 7 + k * 11) % G.size()], VV[k % 3], "parameters " + std::to_string(i)); }); }
  h.part("invalid parameters", 3 * 2 * 3 + 9 * 2, [](Ctx& c, u64 i) { c.eval(1); if (i < 18) { double r[3] = {0, 0, 0}; int ax = i % 3; double lim = 1e-3 * 180 / 3.14159265358979323846; double f = i / 6 == 0 ? 0.999 : i / 6 == 1 ? 1.001 : 500; r[ax] = ((i / 3) & 1 ? -1 : 1) * lim * f; S t = thrown([&] { HelmertTransform(RF::PZ90, RF::WGS84, r[0], r[1], r[2], 0, 0, 0, 0, "x", CommonTime::BEGINNING_OF_TIME); }); MC_CK(c, f < 1 ? t.empty() : t == "InvalidRequest", "angle", "axis " << ax << " angle " << r[ax] << " deg: " << t); } else { RF f = (RF)((i - 18) / 2); bool rv = i & 1; S t = thrown([&] { HelmertTransform(rv ? RF::Unknown : f, rv ? f : RF::Unknown, 0, 0, 0, 0, 0, 0, 0, "x", CommonTime::BEGINNING_OF_TIME); }); MC_CK(c, t == "InvalidRequest", "unknown-frame", "a transform with the Unknown frame: " << t); } });
  h.part("frame names", 9 * 9, [](Ctx& c, u64 i) { RF f = (RF)(i % 9); c.eval(3); S n = StringUtils::asString(f); MC_CK(c, n == NM[i % 9], "name", "frame " << i % 9 << " is named " << n); MC_CK(c, StringUtils::asReferenceFrame(n) == f, "from-name", n << " is read as " << (int)StringUtils::asReferenceFrame(n)); std::ostringstream o; o << f; MC_CK(c, o.str() == n, "stream-name", n << " is streamed as " << o.str()); S m = NM[i / 9]; MC_CK(c, (int)StringUtils::asReferenceFrame(m) == (int)(i / 9), "from-name", m << " is read as another frame"); for (S b : {n + "x", n.substr(1), S(), S("???"), S("wgs84"), n + " "}) MC_CK(c, StringUtils::asReferenceFrame(b) == RF::Unknown, "bad-name", b << " is read as " << (int)StringUtils::asReferenceFrame(b)); MC_CK(c, (int)RF::Last == 9, "count", "number of frames"); });
  return h.run(argc, argv);
}
