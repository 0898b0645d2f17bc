// C36 positions: every grid point (poles, axes, date line, near-centre) through every conversion path, against long double geometry
// MC-SAN: assert asan
// MC-RULE: any sequence of conversions names the same point within one millimetre; angles, ranges, pierce points and printed values agree with vector geometry
// MC-ASSUME: geodetic coordinates are claimed outside the region near the Earth's centre where they are not unique (height above -5000 km, or the centre itself) ; coordinates below the library's pole tolerance may collapse to the pole
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdarg>
#include <map>
#include <memory>
#include <sstream>
#include "mc.hpp"
#include "Position.hpp"
#include "Xvt.hpp"
#include "WGS84Ellipsoid.hpp"
#include "PZ90Ellipsoid.hpp"
#include "CGCS2000Ellipsoid.hpp"
#include "GPSEllipsoid.hpp"
using namespace gpstk; using namespace mc; typedef std::string S; typedef long double L;
struct V { L x, y, z; }; static V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; } static V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; } static V operator*(L k, V a) { return {k * a.x, k * a.y, k * a.z}; } static L dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; } static L mag(V a) { return std::sqrt(dot(a, a)); }
static const L PIL = 3.14159265358979323846264338327950288L, D2R = PIL / 180;
static S num(L d) { char b[50]; snprintf(b, 50, "%.15Lg", d); return b; }
struct Ell : public EllipsoidModel { double A, E; Ell(double a, double e2) : A(a), E(e2) {} double a() const throw() { return A; } double a_km() const throw() { return A / 1000; } double flattening() const throw() { return 1 - std::sqrt(1 - E); } double eccentricity() const throw() { return std::sqrt(E); } double eccSquared() const throw() { return E; } double angVelocity() const throw() { return 7.292115e-5; } double gm() const throw() { return 3.986e14; } double gm_km() const throw() { return 3.986e5; } double c() const throw() { return 299792458; } double c_km() const throw() { return 299792.458; } };
static Ell WGS(WGS84Ellipsoid().a(), WGS84Ellipsoid().eccSquared()), SPH(6371000, 0), FLAT(6400000, 0.009);
static EllipsoidModel* ELL[] = {new WGS84Ellipsoid, new PZ90Ellipsoid, new CGCS2000Ellipsoid, &SPH, &FLAT}; static const int NE = 5;
static const Position::CoordinateSystem CS[4] = {Position::Cartesian, Position::Geodetic, Position::Geocentric, Position::Spherical}; static const char* CN[4] = {"cartesian", "geodetic", "geocentric", "spherical"};
static V gd(L lat, L lon, L h, const EllipsoidModel* e) { L s = std::sin(lat * D2R), c = std::cos(lat * D2R), N = e->a() / std::sqrt(1 - (L)e->eccSquared() * s * s); return {(N + h) * c * std::cos(lon * D2R), (N + h) * c * std::sin(lon * D2R), (N * (1 - (L)e->eccSquared()) + h) * s}; }
static V gc(L lat, L lon, L r) { return {r * std::cos(lat * D2R) * std::cos(lon * D2R), r * std::cos(lat * D2R) * std::sin(lon * D2R), r * std::sin(lat * D2R)}; }
// geodetic coordinates of a point, by Newton iteration in long double on the meridian ellipse
static void togd(V v, const EllipsoidModel* e, L& lat, L& h) { L p = std::hypot(v.x, v.y), e2 = e->eccSquared(), A = e->a(), t = std::atan2(v.z, p * (1 - e2)); for (int i = 0; i < 60; i++) { L s = std::sin(t), N = A / std::sqrt(1 - e2 * s * s); t = std::atan2(v.z + e2 * N * s, p); } L s = std::sin(t), c = std::cos(t); lat = t / D2R; h = p * c + v.z * s - A * std::sqrt(1 - e2 * s * s); }
static V cart(const Position& p, const EllipsoidModel* e) { switch (p.getCoordinateSystem()) { case Position::Geodetic: return gd(p[0], p[1], p[2], e); case Position::Geocentric: return gc(p[0], p[1], p[2]); case Position::Spherical: return gc(90 - (L)p[0], p[1], p[2]); default: return {p[0], p[1], p[2]}; } }
struct Pt { L lat, lon, h; bool centre; };
static std::vector<Pt> points(bool deep) { std::vector<L> la = {0, 1e-9, 1e-4, 30, 45.0L, 60.123456789L, 85, 89.9L, 89.9999999L, 90}, lo = {0, 1e-9, 45, 89.9999999L, 90, 137.25L, 180 - 1e-9L, 180, 181, 270, 359.9999999L}, he = {0, -110, 8848.5L, 20200000, 4e8L}; for (L m : {0.3e-3L, 1e-3L, 0.03L, 1.0L, 20.0L, 100.0L, 3000.0L}) la.push_back(90 - m / 6.4e6L / D2R); if (deep) { for (int q = 5; q < 90; q += 5) la.push_back(q + 0.3L); for (int q = 10; q < 360; q += 23) lo.push_back(q + 0.7L); for (L q : {-1e5L, -1e6L, 500e3L, 36e6L}) he.push_back(q); } else he.push_back(-1e6L); size_t n = la.size(); for (size_t i = 0; i < n; i++) if (la[i] != 0) la.push_back(-la[i]); std::vector<Pt> r; for (L a : la) for (L o : lo) for (L h : he) r.push_back({a, o, h, false}); r.push_back({0, 0, 0, true}); return r; }
static S at(const Pt& p) { return p.centre ? S("the centre") : "geodetic (" + num(p.lat) + ", " + num(p.lon) + ", " + num(p.h) + ")"; }
static L tol(V v) { L r = mag(v); return r > 5e6L ? 2e-10L * r : 1e-3L; }
// starting position in system s, built from exact values rounded to double; returns the exact point named by the rounded values
static Position mk(const Pt& p, int s, EllipsoidModel* e, V& v, bool frame = false) { V c = p.centre ? V{0, 0, 0} : gd(p.lat, p.lon, p.h, e); L lat = p.lat, lon = p.lon, h = p.h; if (s == 0) { v = {(double)c.x, (double)c.y, (double)c.z}; Position q(v.x, v.y, v.z, CS[0], e); return q; } if (s == 1) { if (p.centre) { lat = 0; lon = 0; h = -e->a(); } Position q((double)lat, (double)lon, (double)h, CS[1], e); v = gd((double)lat, (double)lon, (double)h, e); return q; } L r = mag(c), g = r > 0 ? std::atan2(c.z, std::hypot(c.x, c.y)) / D2R : 0; if (s == 2) { v = gc((double)g, (double)lon, (double)r); return Position((double)g, (double)lon, (double)r, CS[2], e); } v = gc(90 - (L)(double)(90 - g), (double)lon, (double)r); return Position((double)(90 - g), (double)lon, (double)r, CS[3], e); }
static bool range_ok(const Position& p, S& why) { double a = p[0], b = p[1], r = p[2]; switch (p.getCoordinateSystem()) { case Position::Cartesian: if (!std::isfinite(a + b + r)) { why = "coordinate not finite"; return false; } return true; case Position::Spherical: if (!(a >= 0 && a <= 180) || !(r >= 0)) { why = "theta or radius out of range"; return false; } break; default: if (!(a >= -90 && a <= 90)) { why = "latitude out of range"; return false; } } if (!(b >= 0 && b <= 360)) { why = "longitude out of range"; return false; } if (!std::isfinite(r)) { why = "height/radius not finite"; return false; } return true; }
// same layout, every number within one unit of its last printed digit
static bool closeText(const S& a, const S& b) { if (a == b) return true; if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size();) { auto isn = [](char ch) { return isdigit(ch) || ch == '.' || ch == '-'; }; if (!isn(a[i]) || !isn(b[i])) { if (a[i] != b[i]) return false; i++; continue; } size_t j = i; while (j < a.size() && isn(a[j]) && isn(b[j])) j++; S x = a.substr(i, j - i), y = b.substr(i, j - i); if (x.find('.') != y.find('.')) return false; size_t dp = x.find('.'); L u = dp == S::npos ? 1 : std::pow(10.0L, -(L)(x.size() - dp - 1)); L f = strtold(x.c_str(), 0), g = strtold(y.c_str(), 0); if (std::fabs(f - g) > 1.1L * u + 1e-13L * std::fabs(g)) return false; i = j; } return true; }
int main(int argc, char** argv) {
  Harness h("C36"); const bool deep = h.thorough; static const std::vector<Pt> PT = points(deep);
  // every start system x every path of three conversions
  h.part("paths", PT.size() * NE, [&](Ctx& c, u64 i) { Mix m(i); EllipsoidModel* e = ELL[m(NE)]; const Pt& p = PT[m(PT.size())]; c.at("conversion path"); for (int s = 0; s < 4; s++) { V v; Position q0 = mk(p, s, e, v); L t = tol(v); for (int path = 0; path < 64; path++) { int st[3] = {path % 4, path / 4 % 4, path / 16}; if (st[0] == s || st[1] == st[0] || st[2] == st[1]) continue; Position q(q0); auto desc = [&](int k) { S d = at(p) + " a=" + num(e->a()) + " e2=" + num(e->eccSquared()) + ": " + CN[s]; for (int z = 0; z <= k; z++) d += S(" -> ") + CN[st[z]]; return d; };
      for (int k = 0; k < 3; k++) { Position& r = q.transformTo(CS[st[k]]); c.trans(1); MC_CK(c, &r == &q && q.getCoordinateSystem() == CS[st[k]], "state", desc(k) << ": system not kept"); V w = cart(q, e); L d = mag(w - v); S why; MC_CK(c, range_ok(q, why), "range", desc(k) << ": " << why << " (" << q[0] << ", " << q[1] << ", " << q[2] << ")"); MC_CK(c, d <= t, S("moved:") + CN[k ? st[k - 1] : s] + "-" + CN[st[k]], desc(k) << " moves the point by " << num(d) << " m to (" << num(q[0]) << ", " << num(q[1]) << ", " << num(q[2]) << ")"); } c.eval(1); c.traces(1); }
      // coordinates by accessor, leaving the position as it was
      L lat, hh, R = mag(v), P = std::hypot(v.x, v.y); togd(v, e, lat, hh); L lon = std::atan2(v.y, v.x) / D2R; if (lon < 0) lon += 360; L gl = std::atan2(v.z, P) / D2R; const Position k(q0); auto near = [&](L a, L b, L scale) { return std::fabs(a - b) * D2R * scale <= t; }; auto desc = [&] { return at(p) + " held as " + CN[s]; }; c.states(1);
      MC_CK(c, std::fabs(k.X() - v.x) <= t && std::fabs(k.Y() - v.y) <= t && std::fabs(k.Z() - v.z) <= t && k.getX() == k.X() && k.getY() == k.Y() && k.getZ() == k.Z(), "get-cartesian", desc() << " X/Y/Z " << num(k.X()) << " " << num(k.Y()) << " " << num(k.Z())); MC_CK(c, std::fabs(k.radius() - R) <= t && k.getRadius() == k.radius(), "get-radius", desc() << " radius " << num(k.radius())); if (!p.centre) { MC_CK(c, std::fabs(k.height() - hh) <= t && k.getHeight() == k.height() && k.getAltitude() == k.height(), "get-height", desc() << " height " << num(k.height()) << " want " << num(hh)); MC_CK(c, near(k.geodeticLatitude(), lat, R) && k.getGeodeticLatitude() == k.geodeticLatitude(), "get-geodetic-latitude", desc() << " geodetic latitude " << num(k.geodeticLatitude()) << " want " << num(lat)); MC_CK(c, near(k.geocentricLatitude(), gl, R) && k.getGeocentricLatitude() == k.geocentricLatitude(), "get-geocentric-latitude", desc() << " geocentric latitude " << num(k.geocentricLatitude()) << " want " << num(gl)); MC_CK(c, near(k.theta(), 90 - gl, R) && k.getTheta() == k.theta(), "get-theta", desc() << " theta " << num(k.theta())); for (double o : {k.longitude(), k.getLongitude(), k.phi(), k.getPhi()}) { L d = std::fabs(o - lon); d = std::min(d, std::fabs(d - 360)); MC_CK(c, d * D2R * P <= t, "get-longitude", desc() << " longitude " << num(o) << " want " << num(lon)); } }
      MC_CK(c, k.getCoordinateSystem() == CS[s] && k[0] == q0[0] && k[1] == q0[1] && k[2] == q0[2], "get-changes", desc() << " changed by reading it"); }
    // asGeodetic/asECEF and the static routines
    V v; Position q = mk(p, 0, e, v); Position g(q); g.asGeodetic(); Position z(g); z.asECEF(); MC_CK(c, g.getCoordinateSystem() == Position::Geodetic && z.getCoordinateSystem() == Position::Cartesian && mag(cart(z, e) - v) <= tol(v), "as", at(p) << " asGeodetic/asECEF"); g = q; g.asGeodetic(&WGS); MC_CK(c, mag(cart(g, &WGS) - v) <= std::max(tol(v), (L)1e-3), "as-other", at(p) << " asGeodetic(ellipsoid) names another point, off by " << num(mag(cart(g, &WGS) - v)));
    if (p.centre) { q.transformTo(Position::Geodetic); MC_CK(c, q[0] == 0 && q[1] == 0 && q[2] == -e->a(), "centre", "the centre is geodetic (" << q[0] << ", " << q[1] << ", " << num(q[2]) << "), documented (0, 0, -a)"); } }, 120);
  // acceptance and normalisation of input
  h.part("input", 3 * 4, [&](Ctx& c, u64 i) { Mix m(i); int s = 1 + m(3), how = m(4); c.at("input"); static const double LO[] = {0, 10, 180, 359.5, 360, 360.5, 719, 720, 725.25, 1e6 + 0.5, -0.5, -10, -180, -359, -360, -360.5, -500, -719.75, -720, -725, -3605, -1e6 + 0.25}, LA[] = {-91, -90.0001, -90, -45, -0.0001, 0, 45, 90, 90.0001, 135, 180, 180.0001}, RA[] = {-1e3, -1e-9, 0, 1, 6.4e6}; for (double la : LA) for (double lo : LO) for (double ra : RA) { bool ok = s == 3 ? la >= 0 && la <= 180 : la >= -90 && la <= 90; if (s != 1 && ra < 0) ok = false; Position p(1, 2, 3); auto body = [&] { if (how == 0) p = Position(la, lo, ra, CS[s]); else if (how == 1) { double a[3] = {la, lo, ra}; p = Position(a, CS[s]); } else if (how == 2) p = Position(Triple(la, lo, ra), CS[s]); else if (s == 1) p.setGeodetic(la, lo, ra); else if (s == 2) p.setGeocentric(la, lo, ra); else p.setSpherical(la, lo, ra); };
        c.eval(1); c.states(1); c.trans(1); if (!ok) { if (lo != 10) continue; S t = thrown(body); MC_CK(c, t.find("GeometryException") != S::npos, "refuse", CN[s] << " (" << la << ", " << lo << ", " << ra << ") by method " << how << ": '" << t << "'"); continue; } body(); double want = lo - 360 * std::floor(lo / 360); L d = std::fabs(p[1] - want); MC_CK(c, std::min(d, std::fabs(360 - d)) < 1e-8L && p[1] >= 0 && p[1] <= 360, "longitude", CN[s] << " longitude " << lo << " by method " << how << " becomes " << num(p[1])); MC_CK(c, p[0] == la && p[2] == ra && p.getCoordinateSystem() == CS[s], "stored", CN[s] << " (" << la << ", " << lo << ", " << ra << ") stored as (" << p[0] << ", " << p[1] << ", " << p[2] << ")"); } });
  // printing and reading back
  struct Fm { const char* pr; const char* rd; int sys; }; static const Fm FM[] = {{"%.5x %.5y %.5z", "%x %y %z", 0}, {"%.8X,%.8Y,%.8Z", "%X,%Y,%Z", 0}, {"%.10A %.10L %.5h", "%A %L %h", 1}, {"%.5H %.10l %.10A", "%H %l %A", 1}, {"%.10A/%.10w/%.5h", "%A/%w/%h", 1}, {"h=%.5h lat=%.10A w=%.10W", "h=%h lat=%A w=%W", 1}, {"%.10a %.10l %.5r", "%a %l %r", 2}, {"%.8R:%.10a:%.10L", "%R:%a:%L", 2}, {"%.10a %.10w %.5r", "%a %w %r", 2}, {"%.10t %.10p %.5r", "%t %p %r", 3}, {"%.12T %.12P %.8R", "%T %P %R", 3}, {"%.12P %.10t %.5r", "%P %t %r", 3}, {"%.12T %.10p %.5r", "%T %p %r", 3}, {"[%15.5r] [%016.10t] [%-15.10p]", "", 3}};
  static std::vector<Pt> PP; { int k = 0; for (auto& p : PT) if (!p.centre && p.h > -6000 && (deep || k++ % 3 == 0)) PP.push_back(p); } PP.push_back({0, 0, 0, true});
  h.part("print-read", PP.size(), [&](Ctx& c, u64 i) { const Pt& p = PP[i]; EllipsoidModel* e = ELL[0]; for (int s = 0; s < 4; s++) for (auto& f : FM) { V v; Position q = mk(p, s, e, v); c.at("print/read"); S txt = q.printf(f.pr); c.eval(1); c.states(1); c.trans(2); Position t(q); t.transformTo(CS[f.sys]);
      { // each printed number is the value of its letter
        S fm = f.pr; S want; for (size_t k = 0; k < fm.size(); k++) { if (fm[k] != '%') { want += fm[k]; continue; } size_t z = k; while (!isalpha(fm[k])) k++; double val = 0; switch (fm[k]) { case 'x': val = q.X(); break; case 'y': val = q.Y(); break; case 'z': val = q.Z(); break; case 'X': val = q.X() / 1000; break; case 'Y': val = q.Y() / 1000; break; case 'Z': val = q.Z() / 1000; break; case 'A': val = q.geodeticLatitude(); break; case 'a': val = q.geocentricLatitude(); break; case 'L': case 'l': val = q.longitude(); break; case 'w': case 'W': val = 360 - q.longitude(); break; case 't': val = q.theta(); break; case 'T': val = q.theta() * (double)D2R; break; case 'p': val = q.phi(); break; case 'P': val = q.phi() * (double)D2R; break; case 'r': val = q.radius(); break; case 'R': val = q.radius() / 1000; break; case 'h': val = q.height(); break; case 'H': val = q.height() / 1000; } char b[60]; snprintf(b, 60, (fm.substr(z, k - z) + "f").c_str(), val); want += b; } bool same = closeText(txt, want); MC_CK(c, same, "printed", at(p) << " held as " << CN[s] << " with " << f.pr << " prints '" << txt << "', want '" << want << "'"); }
      if (!*f.rd) continue; if (S(f.pr).find('T') != S::npos && t[0] > 180 - 1e-9) continue; Position r(7, 8, 9); S ex = thrown([&] { r.setToString(txt, f.rd); }); MC_CK(c, ex == "", "read-refused", "'" << txt << "' as '" << f.rd << "' refused: " << ex); if (ex != "") continue; L d = mag(cart(r, e) - v); L tt = (f.sys == 0 ? 2e-5L : 2e-5L + mag(v) * 2e-12L) + tol(v); MC_CK(c, d <= tt && r.getCoordinateSystem() == CS[f.sys], "read", "'" << txt << "' read as '" << f.rd << "' is " << num(d) << " m from " << at(p)); }
    // default text form names the coordinates held
    for (int s = 0; s < 4; s++) { V v; Position q = mk(p, s, e, v); std::ostringstream o; o << q; char b[200]; if (s == 0) snprintf(b, 200, "%.4f m %.4f m %.4f m", q[0], q[1], q[2]); else if (s == 1) snprintf(b, 200, "%.8f degN %.8f degE %.4f m", q[0], q[1], q[2]); else if (s == 2) snprintf(b, 200, "%.8f degN %.8f degE %.4f m", q[0], q[1], q[2]); else snprintf(b, 200, "%.8f deg %.8f deg %.4f m", q[0], q[1], q[2]); MC_CK(c, o.str() == b && q.asString() == b, "text", at(p) << " as " << CN[s] << " prints '" << o.str() << "' want '" << b << "'"); } });
  // which specifications define a position, out-of-range text
  { static const char* IT[] = {"%x", "%y", "%z", "%A", "%a", "%L", "%h", "%r", "%t", "%p"}; h.part("specification", 120 + 8, [&](Ctx& c, u64 i) { c.at("specification"); if (i < 120) { int a = 0, b = 0, d = 0; u64 k = 0; for (a = 0; a < 10; a++) for (b = a + 1; b < 10; b++) for (d = b + 1; d < 10; d++) if (k++ == i) goto found; found: std::set<int> q = {a, b, d}; bool ok = q == std::set<int>{0, 1, 2} || q == std::set<int>{3, 5, 6} || q == std::set<int>{4, 5, 7} || q == std::set<int>{7, 8, 9}; int pm[6][3] = {{a, b, d}, {a, d, b}, {b, a, d}, {b, d, a}, {d, a, b}, {d, b, a}}; for (auto& z : pm) for (int n = 2; n <= 3; n++) { S f, s; for (int k = 0; k < n; k++) { f += S(k ? "," : "") + IT[z[k]]; s += S(k ? "," : "") + std::to_string(10 + z[k]); } Position p(1, 2, 3); S t = thrown([&] { p.setToString(s, f); }); c.eval(1); c.states(1); c.trans(1); MC_CK(c, (t == "") == (ok && n == 3), "specification", "'" << s << "' with '" << f << "' gives '" << t << "'"); if (t != "") MC_CK(c, t.find("GeometryException") != S::npos && p[0] == 1 && p[1] == 2 && p[2] == 3 && p.getCoordinateSystem() == Position::Cartesian, "specification-effect", "refused '" << f << "' with " << t << " changed the position"); } return; }
      static const char* BAD[][2] = {{"90.5,10,0", "%A,%L,%h"}, {"-91,10,0", "%A,%L,%h"}, {"91,10,5", "%a,%L,%r"}, {"45,10,-5", "%a,%L,%r"}, {"-1,10,5", "%t,%p,%r"}, {"181,10,5", "%t,%p,%r"}, {"3.2,1,5", "%T,%P,%R"}, {"-0.1,1,5", "%T,%P,%R"}}; Position p(1, 2, 3); S t = thrown([&] { p.setToString(BAD[i - 120][0], BAD[i - 120][1]); }); c.eval(1); c.states(1); MC_CK(c, t.find("GeometryException") != S::npos && p[0] == 1, "read-range", "'" << BAD[i - 120][0] << "' with '" << BAD[i - 120][1] << "' gives '" << t << "'"); static const double LN[] = {-725.25, -360, -190, -0.5, 0, 180, 360, 365.5, 1000}; for (double lo : LN) for (S f : {"%A,%L,%h", "%A,%w,%h", "%a,%l,%r", "%a,%W,%r", "%t,%p,%r"}) { Position q; char b[60]; snprintf(b, 60, "40,%.2f,7e6", lo); q.setToString(b, f); bool west = f.find('w') != S::npos || f.find('W') != S::npos; double w = west ? -lo : lo; w -= 360 * std::floor(w / 360); L d = std::fabs(q[1] - w); MC_CK(c, std::min(d, std::fabs(360 - d)) < 1e-9L && q[1] >= 0 && q[1] <= 360, "read-longitude", "'" << b << "' with '" << f << "' has longitude " << num(q[1])); } }); }
  // elevation, azimuth, range, arithmetic, comparison over pairs
  static std::vector<Pt> RX, TG; for (L la : {-90.0L, -89.99999L, -45.0L, 0.0L, 1e-6L, 52.5L, 89.9L, 90.0L}) for (L lo : {0.0L, 100.0L, 180.0L, 359.9L}) for (L hh : {0.0L, 2000.0L}) RX.push_back({la, lo, hh, false}); for (L la : {-80.0L, -44.0L, 0.0L, 40.0L, 89.0L}) for (L lo : {0.0L, 77.0L, 180.0L, 280.0L}) for (L hh : {0.0L, 20200000.0L}) TG.push_back({la, lo, hh, false});
  h.part("angles", RX.size() * 3, [&](Ctx& c, u64 i) { Mix m(i); EllipsoidModel* e = ELL[m(3) * 2 % NE]; const Pt& p = RX[m(RX.size())]; c.at("elevation/azimuth"); std::vector<V> tg; V r0 = gd(p.lat, p.lon, p.h, e); for (auto& t : TG) tg.push_back(gd(t.lat, t.lon, t.h, e)); L cl = std::cos(p.lat * D2R), sl = std::sin(p.lat * D2R), co = std::cos(p.lon * D2R), so = std::sin(p.lon * D2R); V up = {cl * co, cl * so, sl}, no = {-sl * co, -sl * so, cl}, ea = {-so, co, 0}; for (L d : {1.0L, 1e3L, 2e7L}) { tg.push_back(r0 + d * up); tg.push_back(r0 + -d * up); for (int az = 0; az < 360; az += 30) for (int el : {-60, 0, 5, 45, 89}) tg.push_back(r0 + d * (std::sin(el * D2R) * up + std::cos(el * D2R) * std::cos(az * D2R) * no + std::cos(el * D2R) * std::sin(az * D2R) * ea)); V u = (1 / mag(r0)) * r0; tg.push_back(r0 + d * u); tg.push_back(r0 + -d * u); }
    for (int s = 0; s < 4; s++) { V r; Position R = mk(p, s, e, r); for (size_t k = 0; k < tg.size(); k++) { V g = {(double)tg[k].x, (double)tg[k].y, (double)tg[k].z}; Position T(g.x, g.y, g.z, Position::Cartesian, e); if (k % 3) T.transformTo(CS[k % 4]); V gg = cart(T, e); V d = gg - r; L D = mag(d); if (D < 0.5L) continue; L at_ = tol(gg) / 3; auto desc = [&](const char* w) { return S(w) + " from " + at(p) + " held as " + CN[s] + " to cartesian (" + num(gg.x) + ", " + num(gg.y) + ", " + num(gg.z) + ")"; }; c.eval(1); c.states(1); c.trans(5); MC_CK(c, std::fabs(range(R, T) - D) <= 2 * at_, "range-value", desc("range") << " is " << num(range(R, T)));
          for (int geo = 0; geo < 2; geo++) { V U, N, E2; if (geo) { U = up; N = no; E2 = ea; } else { L P = std::hypot(r.x, r.y), M = mag(r); L c2 = P / M, s2 = r.z / M, cc = P > 0 ? r.x / P : 1, ss = P > 0 ? r.y / P : 0; U = {c2 * cc, c2 * ss, s2}; N = {-s2 * cc, -s2 * ss, c2}; E2 = {-ss, cc, 0}; } L uu = dot(d, U), nn = dot(d, N), ee = dot(d, E2), H = std::hypot(nn, ee), el = std::atan2(uu, H) / D2R, az = std::atan2(ee, nn) / D2R; if (az < 0) az += 360; double ge = geo ? R.elevationGeodetic(T) : R.elevation(T); L et = 3e-6L + 2 * at_ / D / D2R; MC_CK(c, std::fabs(ge - el) <= et, geo ? "elevation-geodetic" : "elevation", desc(geo ? "geodetic elevation" : "elevation") << " is " << num(ge) << ", want " << num(el)); if (std::hypot(r.x, r.y) > 0.01L && H > 1e-6L * D) { L lonerr = 2e-4L / std::hypot(r.x, r.y) / D2R; double ga = geo ? R.azimuthGeodetic(T) : R.azimuth(T); L q = std::fabs(ga - az); q = std::min(q, std::fabs(360 - q)); MC_CK(c, q <= 1e-9L + lonerr + 2 * at_ / H / D2R && ga >= 0 && ga <= 360, geo ? "azimuth-geodetic" : "azimuth", desc(geo ? "geodetic azimuth" : "azimuth") << " is " << num(ga) << ", want " << num(az)); } }
          if (k < 24) { Position a(R), b(R); a += T; b -= T; Position a2 = R + T, b2 = R - T; V sm = r + gg, df = r - gg; bool gdok = s != 1 || (mag(df) > 2e6L); MC_CK(c, mag(cart(a2, e) - sm) <= 2 * tol(sm) && mag(cart(b2, e) - df) <= 2 * std::max(tol(df), at_), "sum", desc("sum/difference") << " wrong"); MC_CK(c, mag(sm) < 2e6L || (mag(cart(a, e) - sm) <= 3 * tol(sm) && a.getCoordinateSystem() == CS[s]), "plus-assign", desc("+=") << " wrong"); if (gdok) MC_CK(c, mag(cart(b, e) - df) <= 3 * std::max(tol(df), at_) && b.getCoordinateSystem() == CS[s], "minus-assign", desc("-=") << " wrong"); } }
      MC_CK(c, thrown([&] { R.elevationGeodetic(R); }).find("GeometryException") != S::npos && thrown([&] { R.azimuthGeodetic(R); }).find("GeometryException") != S::npos && thrown([&] { R.elevation(R); }).find("GeometryException") != S::npos, "angle-same", "angle from a position to itself is not refused");
      // equality
      for (L d : {0.0L, 0.0004L, 0.9L, 20.0L}) for (double tl : {0.001, 1.0, 0.0001}) for (int fr = 0; fr < 2; fr++) for (int el = 0; el < 2; el++) { V w = r + d * up; Position q((double)w.x, (double)w.y, (double)w.z, Position::Cartesian, el ? static_cast<EllipsoidModel*>(&SPH) : e); Position A(R); A.setTolerance(tl); if (fr) q.setReferenceFrame(ReferenceFrame::WGS84); bool eq = d < tl && !fr && !el; if (std::fabs(d - tl) < 0.0005L && d < 0.001L && d > 0) continue; if (d == 0 && tl < 0.001) continue; c.eval(1); MC_CK(c, (A == q) == eq && (A != q) == !eq, "equality", at(p) << " against a point " << num(d) << " m away, tolerance " << tl << " frame " << fr << " ellipsoid " << el << " compares " << (A == q)); if (el) MC_CK(c, thrown([&] { range(A, q); }).find("GeometryException") != S::npos, "range-ellipsoid", "range between ellipsoids not refused"); }
      // curvature and Earth radius
      L e2 = e->eccSquared(), W = 1 - e2 * sl * sl; MC_CK(c, std::fabs(R.getCurvPrimeVertical() - e->a() / std::sqrt(W)) < 1e-3L && std::fabs(R.getCurvMeridian() - e->a() * (1 - e2) / (W * std::sqrt(W))) < 1e-3L, "curvature", at(p) << " curvature radii " << num(R.getCurvMeridian()) << ", " << num(R.getCurvPrimeVertical())); MC_CK(c, std::fabs(Position::radiusEarth((double)p.lat, e->a(), e2) - mag(gd(p.lat, 0, 0, e))) < 1e-3L, "radius-earth", "radius at latitude " << num(p.lat) << " is " << num(Position::radiusEarth((double)p.lat, e->a(), e2))); } }, 120);
  // ionospheric pierce points
  h.part("pierce", 40 * 8, [&](Ctx& c, u64 i) { Mix m(i); static const L LA[] = {-90, -89.999L, -89, -80, -60, -30, -1, 0, 1e-6L, 20, 45, 66, 75, 83, 85, 88, 89.5L, 89.9999L, 90, 40}; L la = LA[m(20)]; L lo = (L[]){0, 300}[m(2)]; EllipsoidModel* e = ELL[m(2) * 3]; int s = m(4); c.at("pierce point"); V v0 = gc(la, lo, e->a()); Position R((double)v0.x, (double)v0.y, (double)v0.z, Position::Cartesian, e); if (s == 2) R = Position((double)la, (double)lo, e->a(), Position::Geocentric, e); else R.transformTo(CS[s]); V r = cart(R, e); if (std::hypot(r.x, r.y) < 0.001L) { r = v0; } L lat = std::atan2(r.z, std::hypot(r.x, r.y)), lon = std::hypot(r.x, r.y) < 0.001L ? 0 : std::atan2(r.y, r.x); if (la == 90 || la == -90) lon = R.longitude() * D2R; V u = {std::cos(lat) * std::cos(lon), std::cos(lat) * std::sin(lon), std::sin(lat)}, n = {-std::sin(lat) * std::cos(lon), -std::sin(lat) * std::sin(lon), std::cos(lat)}, ea = {-std::sin(lon), std::cos(lon), 0};
    for (double el : {0.0, 5.0, 20.0, 45.0, 80.0, 90.0}) for (double az = 0; az < 360; az += 15) for (double ht : {350000.0, 450000.0, 50000.0}) { Position P = R.getIonosphericPiercePoint(el, az, ht); L A = e->a(), p = PIL / 2 - el * D2R - std::asin(A * std::cos(el * D2R) / (A + ht)); V w = (A + ht) * (std::cos(p) * u + std::sin(p) * (std::cos(az * D2R) * n + std::sin(az * D2R) * ea)); V g = cart(P, e); c.eval(1); c.states(1); c.trans(1); L d = mag(g - w); auto desc = [&] { return "pierce point from geocentric (" + num(la) + ", " + num(lo) + ") held as " + CN[s] + " elevation " + num(el) + " azimuth " + num(az) + " height " + num(ht); }; S why; MC_CK(c, P.getCoordinateSystem() == R.getCoordinateSystem() && range_ok(P, why), "pierce-range", desc() << ": " << why << " (" << P[0] << ", " << P[1] << ", " << P[2] << ")"); L tt = (std::hypot(r.x, r.y) < 0.01L ? 3e-3L : 3e-3L) + 1e-3L; if (std::hypot(r.x, r.y) < 50 && std::hypot(r.x, r.y) > 0) tt += (A + ht) * 4e-4L / std::hypot(r.x, r.y); MC_CK(c, d <= tt, "pierce", desc() << " is " << num(d) << " m from the crossing of the shell"); } }, 120);
  // rotation-corrected range of a satellite, relativity correction
  h.part("satellite-range", RX.size(), [&](Ctx& c, u64 i) { const Pt& p = RX[i]; WGS84Ellipsoid e; V r = gd(p.lat, p.lon, p.h, &e); c.at("precise range"); for (auto& t : TG) for (L hh : {20200000.0L, 36000000.0L}) { V s = gd(t.lat, t.lon, hh, &e); Xvt x; x.x = Triple(s.x, s.y, s.z); x.v = Triple(1000 + (double)t.lon, -2500, 300 * (double)t.lat / 90); x.clkbias = 1e-5 * (double)t.lat; x.clkdrift = 1e-9; double rel = x.computeRelativityCorrection(); L rw = -2 * (s.x * x.v[0] + s.y * x.v[1] + s.z * x.v[2]) / (299792458.0L * 299792458.0L); c.eval(1); c.states(1); c.trans(2); MC_CK(c, std::fabs(rel - rw) < 1e-18L && x.relcorr == rel, "relativity", "relativity correction " << num(rel) << " want " << num(rw)); for (double cor : {0.0, 12.5}) { double g = x.preciseRho(Triple(r.x, r.y, r.z), e, cor); L tau = 0.07L; V q; for (int k = 0; k < 8; k++) { L a = -(L)e.angVelocity() * tau; q = {s.x * std::cos(a) - s.y * std::sin(a), s.y * std::cos(a) + s.x * std::sin(a), s.z}; tau = mag(q - r) / e.c(); } L w = mag(q - r) - (x.clkbias + rw) * e.c() - cor; MC_CK(c, std::fabs(g - w) < 5e-3L, "precise-range", "satellite range from " << at(p) << " to (" << num(t.lat) << ", " << num(t.lon) << ", " << num(hh) << ") is " << num(g) << ", want " << num(w)); } } });
  // vectors: exhaustive small components
  h.part("triple", 343, [&](Ctx& c, u64 i) { Mix m(i); static const double U[7] = {0, 1, -1, 2.5, -3, 1e6, 7e-3}; Triple a(U[m(7)], U[m(7)], U[m(7)]); c.at("triple"); auto vv = [](const Triple& t) { return V{t[0], t[1], t[2]}; }; for (int k = 0; k < 343; k++) { Mix q(k); Triple b(U[q(7)], U[q(7)], U[q(7)]); V A = vv(a), B = vv(b); L sc = (mag(A) + 1) * (mag(B) + 1) * 1e-14L; V cr = {A.y * B.z - A.z * B.y, A.z * B.x - A.x * B.z, A.x * B.y - A.y * B.x}; c.eval(1); c.states(1); c.trans(6); MC_CK(c, std::fabs(a.dot(b) - dot(A, B)) <= sc && mag(vv(a.cross(b)) - cr) <= sc && std::fabs(a.mag() - mag(A)) <= sc && std::fabs(a.slantRange(b) - mag(A - B)) <= sc && mag(vv(a + b) - (A + B)) <= sc && mag(vv(a - b) - (A - B)) <= sc && (a == b) == (A.x == B.x && A.y == B.y && A.z == B.z), "triple", "vector operation on (" << a[0] << "," << a[1] << "," << a[2] << ") and (" << b[0] << "," << b[1] << "," << b[2] << ")"); S t = thrown([&] { double cv = a.cosVector(b); MC_CK(c, std::fabs(cv - dot(A, B) / (mag(A) * mag(B))) < 1e-14L && std::fabs(cv) <= 1, "cos", "cosine of (" << a[0] << "," << a[1] << "," << a[2] << ") and (" << b[0] << "," << b[1] << "," << b[2] << ") is " << num(cv)); }); MC_CK(c, (t == "") == (mag(A) > 0 && mag(B) > 0), "cos-zero", "cosine with a zero vector: '" << t << "'"); }
    V A = vv(a); S t = thrown([&] { V w = vv(a.unitVector()); MC_CK(c, mag(w - (1 / mag(A)) * A) < 1e-15L, "unit", "unit vector"); }); MC_CK(c, (t == "") == (mag(A) > 0), "unit-zero", "unit vector of zero: '" << t << "'"); std::vector<double> sv = a.toStdVector(); Vector<double> gv = a.toVector(); MC_CK(c, sv.size() == 3 && gv.size() == 3, "to-vector", "toStdVector gives " << sv.size() << " elements"); if (sv.size() == 3) MC_CK(c, sv[0] == a[0] && sv[1] == a[1] && sv[2] == a[2] && gv(0) == a[0] && gv(1) == a[1] && gv(2) == a[2], "to-vector", "vector conversion"); for (double an : {0.0, 30.0, 90.0, -45.0, 180.0, 400.0}) { L C = std::cos(an * D2R), N = std::sin(an * D2R); V r1 = {A.x, C * A.y + N * A.z, -N * A.y + C * A.z}, r2 = {C * A.x - N * A.z, A.y, N * A.x + C * A.z}, r3 = {C * A.x + N * A.y, -N * A.x + C * A.y, A.z}; L sc = (mag(A) + 1) * 2e-13L; MC_CK(c, mag(vv(a.R1(an)) - r1) <= sc && mag(vv(a.R2(an)) - r2) <= sc && mag(vv(a.R3(an)) - r3) <= sc, "rotate", "rotation by " << an); } });
  return h.run(argc, argv);
}
