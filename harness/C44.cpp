// C44 clock models: every combination of satellite states against the acceptance rules, histories of epochs against a least-squares reference
// MC-SAN: asan assert
// MC-RULE: a deviation counts iff mode/health, elevation, wonky and sigma rules admit it ; offset = mean (epoch model) or line through the last 1800 s (linear model) of what counts
// MC-ASSUME: no deviation lies exactly on the sigma limit ; linear model offsets are judged inside its 1800 s window
#include <array>
#include <cmath>
#include <cstdarg>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include "mc.hpp"
#include "EpochClockModel.hpp"
#include "LinearClockModel.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk; using namespace mc; typedef std::string S; typedef ObsClockModel O;
struct Sv { SatID id; double ord, el; int health; unsigned wonky; };   // health -1: not known
static CommonTime at(double s) { CommonTime t = GPSWeekSecond(1999, 604000.0).convertToCommonTime(); t += s; return t; }
static ORDEpoch mk(const std::vector<Sv>& v, double t, bool rev = false) { ORDEpoch e; e.time = at(t); for (size_t k = 0; k < v.size(); k++) { const Sv& s = v[rev ? v.size() - 1 - k : k]; ObsRngDev o; o.obstime = e.time; o.svid = s.id; o.ord = s.ord; o.elevation = (float)s.el; if (s.health >= 0) o.health = (short)s.health; o.wonky = s.wonky; e.ords[s.id] = o; } return e; }
struct Cfg { double sigma, mask; bool useWonky; std::map<SatID, O::SvMode> modes; };
struct Exp { std::map<SatID, O::SvStatus> st; double mean; int n; bool tie; };
static Exp model(const std::vector<Sv>& v, const Cfg& c) {
  Exp e; e.tie = false; std::vector<double> u;
  for (auto& s : v) { auto m = c.modes.find(s.id); O::SvMode mode = m == c.modes.end() ? O::IGNORE : m->second; O::SvStatus st = O::USED; if (mode == O::IGNORE) st = O::MANUAL; else if (mode == O::HEALTHY && s.health >= 0 && (s.health & 0x20)) st = O::SVHEALTH; if (s.el < c.mask) st = O::ELEVATION; if (s.wonky && !c.useWonky) st = O::WONKY; e.st[s.id] = st; if (st == O::USED) u.push_back(s.ord); }
  auto mean = [](const std::vector<double>& x) { double a = 0; for (double y : x) a += y; return x.empty() ? 0 : a / x.size(); };
  if (u.size() > 2) { double a = mean(u), q = 0; for (double y : u) q += (y - a) * (y - a); double sd = std::sqrt(q / (u.size() - 1)); std::vector<double> w; for (auto& s : v) if (e.st[s.id] == O::USED) { double d = std::fabs(s.ord - a); if (sd > 0 && std::fabs(d - c.sigma * sd) < 1e-6 * (std::fabs(a) + sd)) e.tie = true; if (d > c.sigma * sd && sd > 0) e.st[s.id] = O::SIGMA; else w.push_back(s.ord); } u = w; }
  e.mean = mean(u); e.n = u.size(); return e;
}
static S show(const std::vector<Sv>& v) { S s; char b[80]; for (auto& x : v) { snprintf(b, 80, " %d:(%g el%g h%d w%u)", x.id.id, x.ord, x.el, x.health, x.wonky); s += b; } return s; }
static void ckStatus(Ctx& c, const O& m, const Exp& e, const std::vector<Sv>& v, const S& d) { MC_CK(c, m.getSvStatusMap().size() == v.size(), "status-count", d << " has " << m.getSvStatusMap().size() << " states"); for (auto& s : v) { int g = -1; try { g = m.getSvStatus(s.id); } catch (ObjectNotFound&) {} MC_CK(c, g == e.st.at(s.id), "status", d << " satellite " << s.id.id << " has the status " << g << " want " << e.st.at(s.id)); } }
static void ckEpoch(Ctx& c, EpochClockModel& m, const Cfg& cf, const std::vector<Sv>& v, double t, const S& d, bool rev = false) {
  Exp e = model(v, cf); m.addEpoch(mk(v, t, rev)); if (e.tie) return; c.states(1); c.eval(3); ckStatus(c, m, e, v, d);
  double tol = 1e-9 * (1 + std::fabs(e.mean)); MC_CK(c, std::fabs(m.getOffset() - e.mean) <= tol && m.getOffset() == m.getOffset(at(t)), "offset", d << " offset " << m.getOffset() << " want " << e.mean); MC_CK(c, m.isOffsetValid() == (e.n >= 3) && m.isOffsetValid(at(t)) == (e.n >= 3), "valid", d << " valid " << m.isOffsetValid() << " with " << e.n << " deviations");
  Stats<double> s = m.simpleOrdClock(mk(v, t)); MC_CK(c, (int)s.N() == e.n && std::fabs(s.Average() - e.mean) <= tol, "stats", d << " statistics of " << s.N() << " deviations, average " << s.Average());
}
static SatID sv(int k) { static const SatID A[] = {SatID(1, SatelliteSystem::GPS), SatID(32, SatelliteSystem::GPS), SatID(7, SatelliteSystem::Glonass), SatID(15, SatelliteSystem::GPS), SatID(9, SatelliteSystem::GPS), SatID(2, SatelliteSystem::GPS), SatID(28, SatelliteSystem::GPS), SatID(11, SatelliteSystem::GPS), SatID(20, SatelliteSystem::GPS)}; return A[k]; }
// linear model reference
struct Lin { std::vector<std::pair<double, double> > d; double base = 0, first = 0, last = 0; bool any = false; int toss = 0;
  bool line(double& a, double& b) const { double n = d.size(), mx = 0, my = 0, xx = 0, xy = 0; if (d.empty()) { a = b = 0; return false; } for (auto& p : d) { mx += p.first; my += p.second; } mx /= n; my /= n; for (auto& p : d) { xx += (p.first - mx) * (p.first - mx); xy += (p.first - mx) * (p.second - my); } b = xx > 0 ? xy / xx : 0; a = my - b * mx; return xx > 0; }
  // returns false if the decision is too close to judge
  bool add(const Exp& e, const std::vector<Sv>& v, double t) { if (d.empty()) { base = first = last = t; toss = 0; any = true; } double dt = t - base; first = std::min(first, t); last = std::max(last, t); double m = e.mean, a, b; if (d.size() > 24) { line(a, b); m = a + b * dt; } double q = std::fabs(e.mean - m); if (std::fabs(q - 20) < 1e-3) return false; if (q > 20) { if (++toss > 5) { d.clear(); toss = 0; any = false; } } else { toss = 0; for (auto& s : v) if (e.st.at(s.id) == O::USED) d.push_back({dt, s.ord}); } std::vector<std::pair<double, double> > k; for (auto& p : d) if (!(dt - p.first > 1800)) k.push_back(p); d = k; return true; } };
static void ckLin(Ctx& c, const LinearClockModel& m, const Lin& l, const S& d) {
  c.eval(2); c.states(1); if (!l.any) { for (double t : {0.0, 60.0, 5000.0}) MC_CK(c, !m.isOffsetValid(at(t)) && m.getOffset(at(t)) == 0, "empty", d << " an empty model is valid"); std::ostringstream o; m.dump(o, 1); o << m; return; }
  bool ok = l.d.size() > 1; MC_CK(c, m.isOffsetValid(at(l.last)) == ok, "lin-valid", d << " valid at the last epoch: " << m.isOffsetValid(at(l.last)) << " with " << l.d.size() << " deviations"); MC_CK(c, !m.isOffsetValid(at(l.last + 1)) && !m.isOffsetValid(at(l.first - 1)) && m.getOffset(at(l.last + 1)) == 0, "lin-outside", d << " valid outside of its epochs"); if (!ok) { MC_CK(c, m.getOffset(at(l.last)) == 0, "lin-few", d << " gives an offset from " << l.d.size() << " deviations"); return; }
  double a, b, lo = 1e9, hi = -1e9; bool sl = l.line(a, b); for (auto& p : l.d) { lo = std::min(lo, p.first); hi = std::max(hi, p.first); } if (l.last - l.base > hi) hi = l.last - l.base; if (!sl) hi = lo; // one epoch only: judged there
  for (double x : {lo, (lo + hi) / 2, hi}) { if (l.base + x < l.first || l.base + x > l.last) continue; double w = a + b * x, g = m.getOffset(at(l.base + x)); MC_CK(c, m.isOffsetValid(at(l.base + x)) && std::fabs(g - w) < 1e-5 * (1 + std::fabs(w)), "lin-offset", d << " offset at " << x << " s is " << g << " want " << w); } std::ostringstream o; m.dump(o, 1);
}
int main(int argc, char** argv) {
  Harness h("C44"); const bool T = h.thorough; static std::vector<Sv> A; { SatID z; for (double o : {0.1, 0.35, 12.0}) A.push_back({z, o, 30, 0, 0}); A.push_back({z, 0.2, 30, -1, 0}); A.push_back({z, -3.0, 30, 0x20, 0}); A.push_back({z, 0.5, 30, 0x1f, 0}); A.push_back({z, 0.6, 4.5, 0, 0}); A.push_back({z, 0.7, 30, 0, 2}); A.push_back({z, 900, 4.5, 0x3f, 1}); A.push_back({z, -0.4, 10, 0x21, 0}); A.push_back({z, 0, 30, 0, 0}); }
  static const u64 nA = 11; static int NS = T ? 5 : 4; u64 tot = 1; for (int k = 0; k < NS; k++) tot *= nA;
  h.part("one epoch: every satellite state", tot * 12, [](Ctx& c, u64 i) { Mix m(i); int sg = m(3), wk = m(2), md = m(2); std::vector<Sv> v; for (int k = 0; k < NS; k++) { v.push_back(A[m(nA)]); v.back().id = sv(k); } static const double SG[] = {2, 1, 0.8}; Cfg cf{SG[sg], 10, wk == 1, {}}; EpochClockModel e(SG[sg], md ? 10 : 0, md ? O::HEALTHY : O::ALWAYS); for (int p = 1; p <= MAX_PRN; p++) cf.modes[SatID(p, SatelliteSystem::GPS)] = md ? O::HEALTHY : O::ALWAYS; cf.mask = md ? 10 : 0; e.setUseWonkyData(wk == 1); if (i & 1) { e.setSvMode(sv(2), O::ALWAYS); cf.modes[sv(2)] = O::ALWAYS; } if ((i / 12) % 3 == 1) { e.setSvMode(sv(0), O::IGNORE); cf.modes[sv(0)] = O::IGNORE; }
    ckEpoch(c, e, cf, v, 0, "sigma " + std::to_string(SG[sg]) + " mask " + std::to_string((int)cf.mask) + " wonky " + std::to_string(wk) + (md ? " HEALTHY" : " ALWAYS") + show(v), i & 2); });
  h.part("deviation patterns", T ? 40353607 / 7 : 823543 / 7, [T](Ctx& c, u64 i) { Mix m(i); static const double V[] = {0, 1, 1.5, -2, 30, 1e4, 1}; int n = T ? 8 : 6; std::vector<Sv> v; for (int k = 0; k < n; k++) v.push_back({sv(k), V[m(7)], 30, 0, 0}); Cfg cf{1.3, 0, false, {}}; EpochClockModel e(1.3, 0, O::ALWAYS); for (int p = 1; p <= MAX_PRN; p++) cf.modes[SatID(p, SatelliteSystem::GPS)] = O::ALWAYS; ckEpoch(c, e, cf, v, 0, show(v)); }, 120);
  h.part("histories of settings and epochs", T ? 14 * 14 * 14 * 14 * 14 : 14 * 14 * 14 * 14, [T](Ctx& c, u64 i) { Mix m(i); EpochClockModel e; Cfg cf{2, 0, false, {}}; for (int p = 1; p <= MAX_PRN; p++) cf.modes[SatID(p, SatelliteSystem::GPS)] = O::ALWAYS; S d; double t = 0; bool added = false; MC_CK(c, e.getSigmaMultiplier() == 2 && e.getElevationMask() == 0 && !e.getUseWonkyData(), "defaults", "defaults");
    for (int k = 0; k < (T ? 5 : 4); k++) { int op = m(14); c.trans(1); d += " " + std::to_string(op); switch (op) { case 0: e.setSvMode(O::HEALTHY); for (int p = 1; p <= MAX_PRN; p++) cf.modes[SatID(p, SatelliteSystem::GPS)] = O::HEALTHY; break; case 1: e.setSvMode(sv(0), O::IGNORE); cf.modes[sv(0)] = O::IGNORE; break; case 2: e.setSvMode(sv(2), O::HEALTHY); cf.modes[sv(2)] = O::HEALTHY; break;
      case 3: { O::SvModeMap mm; mm[sv(0)] = O::ALWAYS; mm[sv(1)] = O::HEALTHY; mm[sv(3)] = O::ALWAYS; mm[sv(4)] = O::ALWAYS; e.setSvModeMap(mm); for (int p = 1; p <= MAX_PRN; p++) cf.modes[SatID(p, SatelliteSystem::GPS)] = O::IGNORE; for (auto& x : mm) cf.modes[x.first] = x.second; break; }
      case 4: e.setSigmaMultiplier(1); cf.sigma = 1; break; case 5: e.setSigmaMultiplier(100); cf.sigma = 100; break; case 6: e.setElevationMask(10); cf.mask = 10; break; case 7: e.setElevationMask(0); cf.mask = 0; break; case 8: e.setUseWonkyData(true); cf.useWonky = true; break; case 9: e.setUseWonkyData(false); cf.useWonky = false; break;
      default: { std::vector<Sv> v; int n = op == 10 ? 5 : op == 11 ? 3 : op == 12 ? 2 : 0; for (int q = 0; q < n; q++) { v.push_back(A[(q * 2 + op + k) % nA]); v.back().id = sv((q + op) % 6); } t += 30; cf.modes.insert({sv(2), O::IGNORE}); ckEpoch(c, e, cf, v, t, "ops" + d + ":" + show(v)); added = true; } }
      MC_CK(c, e.getSigmaMultiplier() == cf.sigma && e.getElevationMask() == cf.mask && e.getUseWonkyData() == cf.useWonky, "settings", "ops" + d); for (int q : {0, 1, 3}) MC_CK(c, e.getSvMode(sv(q)) == cf.modes[sv(q)], "mode", "ops" << d << " mode of satellite " << q); if (!added && !cf.modes.count(sv(2))) MC_CK(c, thrown([&] { e.getSvMode(sv(2)); }) == "ObjectNotFound", "no-mode", "ops" << d << " mode of an unknown satellite"); MC_CK(c, thrown([&] { e.getSvStatus(SatID(3, SatelliteSystem::GPS)); }) == "ObjectNotFound", "no-status", "ops" << d << " status of a satellite without deviation"); }
    if (added) MC_CK(c, thrown([&] { e.getOffset(at(t + 1)); }) == "InvalidArgumentException" && thrown([&] { e.isOffsetValid(at(t - 30)); }) == "InvalidArgumentException", "other-time", "ops" << d << " answers for another epoch"); });
  // ORDEpoch
  h.part("applying a model to an epoch", 11 * 11 * 11 * 3, [](Ctx& c, u64 i) { Mix m(i); int w = m(3); std::vector<Sv> v; for (int k = 0; k < 3; k++) { v.push_back(A[m(nA)]); v.back().id = sv(k == 2 ? 3 : k); } Cfg cf{5, 10, false, {}}; for (int p = 1; p <= MAX_PRN; p++) cf.modes[SatID(p, SatelliteSystem::GPS)] = O::HEALTHY; Exp x = model(v, cf); if (x.tie) return; EpochClockModel e(5, 10, O::HEALTHY); LinearClockModel l(5, 10, O::HEALTHY); ORDEpoch oe = mk(v, 60); e.addEpoch(oe); l.addEpoch(oe); c.eval(2); c.states(1); const ClockModel& cm = w == 1 ? (const ClockModel&)l : e; bool val = w == 1 ? x.n > 1 : x.n >= 3;
    if (w == 2) { ORDEpoch o2 = mk(v, 90); S t = thrown([&] { o2.applyClockModel(e); }); MC_CK(c, t == "InvalidArgumentException", "apply-other", "applying a model of another epoch: " << t); o2.removeORD(sv(1)); MC_CK(c, o2.ords.size() == 2 && !o2.ords.count(sv(1)), "remove", "removal"); o2.removeORD(sv(1)); MC_CK(c, o2.ords.size() == 2, "remove", "repeated removal"); return; }
    oe.applyClockModel(cm); MC_CK(c, oe.clockOffset.is_valid() == val, "apply-valid", show(v) << " clock offset valid " << oe.clockOffset.is_valid()); double off = val ? x.mean : 0; for (auto& s : v) MC_CK(c, std::fabs(oe.ords[s.id].getORD() - (s.ord - off)) < 1e-9 * (1 + std::fabs(s.ord)), "apply", show(v) << " deviation of " << s.id.id << " becomes " << oe.ords[s.id].getORD()); if (val) MC_CK(c, std::fabs((double)oe.clockOffset - off) < 1e-9 * (1 + std::fabs(off)), "apply-offset", show(v) << " offset " << (double)oe.clockOffset); });
  // linear model
  static const double STEP[] = {30, 600, 1900, -30}; static auto shape = [](int sh, double t) { std::vector<Sv> v; int n = sh == 3 ? 0 : sh == 4 ? 1 : 9; for (int k = 0; k < n; k++) if (k != 2) { double o = 5 + 0.002 * t + 0.01 * ((k * 37) % 5 - 2); if (sh == 1) o += 300; if (sh == 2 && k == 1) o += 50; v.push_back({sv(k), o, k == 4 && sh == 2 ? 5. : 30., k == 5 ? 0x20 : 0, 0}); } return v; };
  h.part("linear model: histories of epochs", T ? 20ull * 20 * 20 * 20 * 20 : 20 * 20 * 20 * 20, [T](Ctx& c, u64 i) { static std::ostringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf()); Mix m(i); LinearClockModel l(2, 10, O::HEALTHY); Cfg cf{2, 10, false, {}}; for (int p = 1; p <= MAX_PRN; p++) cf.modes[SatID(p, SatelliteSystem::GPS)] = O::HEALTHY; Lin r; S d; double t = 0; ckLin(c, l, r, "new"); for (int k = 0; k < (T ? 5 : 4); k++) { int sh = m(5), st = m(4); t += STEP[st]; std::vector<Sv> v = shape(sh, t); d += " " + std::to_string((int)t) + "/" + std::to_string(sh); Exp e = model(v, cf); if (e.tie || !r.add(e, v, t)) break; l.addEpoch(mk(v, t)); c.trans(1); ckStatus(c, l, e, v, d); ckLin(c, l, r, d); } if (i % 5 == 0) { l.reset(); ckLin(c, l, Lin(), d + " reset"); } std::cout.rdbuf(old); sink.str(""); }, 120);
  h.part("linear model: outliers and reset", (T ? 59049 : 6561) * 3, [T](Ctx& c, u64 i) { static std::ostringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf()); Mix m(i); double step = STEP[m(3)] / 2; LinearClockModel l(2, 10, O::HEALTHY); Cfg cf{2, 10, false, {}}; for (int p = 1; p <= MAX_PRN; p++) cf.modes[SatID(p, SatelliteSystem::GPS)] = O::HEALTHY; Lin r; S d = "step " + std::to_string((int)step); double t = 0; bool ok = true; for (int k = 0; k < (T ? 14 : 12) && ok; k++) { int sh = k < 4 ? 0 : m(3); if (sh == 2) sh = 4; t += k < 4 ? 15 : step; std::vector<Sv> v = shape(sh, t); d += " " + std::to_string(sh); Exp e = model(v, cf); if (e.tie || !r.add(e, v, t)) { ok = false; break; } l.addEpoch(mk(v, t)); c.trans(1); ckLin(c, l, r, d); } std::cout.rdbuf(old); sink.str(""); }, 120);
  return h.run(argc, argv);
}
