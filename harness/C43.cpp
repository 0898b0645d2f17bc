// C43 satellite passes: every gap/jitter/flag pattern of short passes x operation histories against a list model, and joint iteration of every small set of passes
// MC-SAN: asan assert
// MC-RULE: the observations of a pass are a list of (time, flag, data) in time order; operations filter, cut or extend that list ; an iteration over passes visits the union of their epochs once, in order
// MC-ASSUME: observation types match those of the pass ; data of a pass are nominally dt apart (jitter below dt/2) ; gaps within one step of the maximum gap are not judged
#include <array>
#include <cmath>
#include <cstdarg>
#include <map>
#include <memory>
#include <set>
#include "mc.hpp"
#include "SatPass.hpp"
#include "SatPassIterator.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk; using namespace mc; typedef std::string S; typedef std::vector<S> VS;
static Epoch T0() { Epoch t; t = GPSWeekSecond(1999, 604700.0).convertToCommonTime(); return t; }
static Epoch at(double s) { static const Epoch z = T0(); Epoch e(z); e += s; return e; }
static double rel(const Epoch& e) { static const Epoch z = T0(); return e - z; }
static const VS OT = {"L1", "L2", "P1", "P2"};
static double val(int id, int k) { return 1e7 + id * 100 + k + 0.25; }
struct D { double t; int flag, id, user; };
struct Model { double dt = 30, org = 0; std::vector<D> d; int cnt(const D& x) const { return (int)std::floor((x.t - org) / dt + 0.5); } };
static S show(const Model& m) { S s; char b[60]; for (auto& x : m.d) { snprintf(b, 60, " %.4f/%d", x.t, x.flag); s += b; } return s; }
static int addTo(SatPass& sp, const D& x, int how = 0) {
  std::vector<double> v; std::vector<unsigned short> l, s; VS ot; for (int k = 0; k < 4; k++) { int q = how == 1 ? 3 - k : k; ot.push_back(OT[q]); v.push_back(val(x.id, q)); l.push_back((x.id + q) % 8); s.push_back((x.id * 3 + q) % 9); }
  return sp.addData(at(x.t), ot, v, l, s, x.flag);
}
static void verify(Ctx& c, const SatPass& csp, const Model& m, const S& hist, bool times = true, bool range = false) {
  SatPass& sp = const_cast<SatPass&>(csp); c.states(1); c.eval(1); auto desc = [&] { return hist + " (model:" + show(m) + ")"; };
  MC_CK(c, sp.size() == m.d.size(), "size", desc() << " has " << sp.size() << " data"); if (sp.size() != m.d.size()) return;
  int good = 0, fg = -1, lg = -1; for (size_t i = 0; i < m.d.size(); i++) if (m.d[i].flag != 0) { good++; if (fg < 0) fg = i; lg = i; }
  MC_CK(c, sp.getNgood() == good, "ngood", desc() << " has " << sp.getNgood() << " good"); MC_CK(c, sp.getDT() == m.dt, "dt", desc() << " dt " << sp.getDT());
  for (size_t i = 0; i < m.d.size(); i++) { const D& x = m.d[i]; c.trans(1);
    MC_CK(c, std::fabs(rel(sp.time(i)) - x.t) < 1e-6, "time", desc() << " time(" << i << ") is " << rel(sp.time(i)));
    MC_CK(c, (int)sp.getCount(i) == m.cnt(x), "count", desc() << " getCount(" << i << ") is " << sp.getCount(i) << ", want " << m.cnt(x));
    MC_CK(c, sp.getFlag(i) == x.flag && (int)sp.getUserFlag(i) == x.user, "flag", desc() << " flag(" << i << ") is " << sp.getFlag(i) << " userflag " << sp.getUserFlag(i));
    for (int k = 0; k < 4; k++) MC_CK(c, sp.data(i, OT[k]) == val(x.id, k) && sp.LLI(i, OT[k]) == (x.id + k) % 8 && sp.SSI(i, OT[k]) == (x.id * 3 + k) % 9, "datum", desc() << " " << OT[k] << "(" << i << ") is " << sp.data(i, OT[k]));
    if (times) { int w = i; while (w > 0 && m.cnt(m.d[w - 1]) == m.cnt(x)) w--; MC_CK(c, sp.index(sp.time(i)) == w, "index", desc() << " index(time(" << i << ")) is " << sp.index(sp.time(i))); } }
  if (!m.d.empty()) { MC_CK(c, std::fabs(rel(sp.getFirstTime()) - m.d[0].t) < 1e-6 && std::fabs(rel(sp.getLastTime()) - m.d.back().t) < 1e-6, "first-last", desc() << " first " << rel(sp.getFirstTime()) << " last " << rel(sp.getLastTime())); }
  else { sp.getFirstTime(); sp.getLastTime(); }
  if (fg >= 0) MC_CK(c, std::fabs(rel(sp.getFirstGoodTime()) - m.d[fg].t) < 1e-6 && std::fabs(rel(sp.getLastGoodTime()) - m.d[lg].t) < 1e-6, "first-last-good", desc() << " first good " << rel(sp.getFirstGoodTime()) << " last good " << rel(sp.getLastGoodTime()));
  else MC_CK(c, sp.getFirstGoodTime() == CommonTime::END_OF_TIME && sp.getLastGoodTime() == CommonTime::BEGINNING_OF_TIME, "first-last-good", desc() << " without good data reports good times");
  if (times && !m.d.empty()) { int last = m.cnt(m.d.back()); for (int k = -2; k <= last + 2; k++) { bool have = false; for (auto& x : m.d) if (m.cnt(x) == k) have = true; if (!have) MC_CK(c, sp.index(at(m.org + k * m.dt)) == -1, "index-missing", desc() << " index of the missing count " << k << " is " << sp.index(at(m.org + k * m.dt))); }
    double g = sp.getMaxGap(); for (double q : {-g - 1, -g + 1, -1.0}) MC_CK(c, sp.includesTime(at(m.org + q)) == (q >= -g), "includes", desc() << " includesTime(first" << q << ")"); for (double q : {g + 1, g - 1, 1.0}) MC_CK(c, sp.includesTime(at(m.d.back().t + q)) == (q <= g), "includes", desc() << " includesTime(last+" << q << ")"); MC_CK(c, sp.includesTime(at((m.org + m.d.back().t) / 2)), "includes", desc() << " does not include its middle"); }
  if (range) for (int k : {0, 1}) { unsigned bad = m.d.size() + k * 1000; MC_CK(c, thrown([&] { sp.time(bad); }).find("Exception") != S::npos && thrown([&] { sp.data(bad, "L1"); }).find("Exception") != S::npos && thrown([&] { sp.getFlag(bad); }).find("Exception") != S::npos && thrown([&] { sp.setFlag(bad, 1); }).find("Exception") != S::npos && thrown([&] { sp.getCount(bad); }).find("Exception") != S::npos && thrown([&] { sp.LLI(bad, "L1"); }).find("Exception") != S::npos && thrown([&] { sp.SSI(bad, "L1"); }).find("Exception") != S::npos, "range", desc() << " accepts index " << bad); if (m.d.size() > 3) break; }
}
// the model of adding one datum: 0 ok, -1, -2, or 9 = not judged
static int addModel(Model& m, const D& x, double maxGap) {
  if (m.d.empty()) { m.org = x.t; m.d.push_back(x); return 0; } double last = m.d.back().t; if (x.t <= last) return -2; double gap = x.t - last; if (std::fabs(gap - maxGap) < m.dt) return 9; if (gap > maxGap) return -1; m.d.push_back(x); return 0;
}
struct OpSet { std::vector<std::array<double, 3> > ops; };
// operations: {0,t} trimAfter absolute offset in steps; {1,N,keep} split; {2,N,ref} decimate; {3,i,flag}; {4,k,jit} add k steps after the last; {5} clear ; {6} copy
static std::vector<std::array<double, 3> > opsAll(bool thorough) {
  std::vector<std::array<double, 3> > o; for (double t = -0.5; t <= 7.5; t += 0.5) o.push_back({0, t, 0}); for (int n = -1; n <= 8; n++) for (int k = 0; k < 2; k++) o.push_back({1, (double)n, (double)k});
  for (int n = 0; n <= (thorough ? 5 : 4); n++) for (int r : {-1000, -5, -1, 0, 1, 2, 7, 99999}) o.push_back({2, (double)n, (double)r}); for (int i = 0; i < 3; i++) for (int f : {0, 1, 2, 6}) o.push_back({3, (double)i, (double)f}); for (int k : {-1, 0, 1, 2, 50}) for (int j = 0; j < 2; j++) o.push_back({4, (double)k, (double)j}); o.push_back({5, 0, 0}); o.push_back({6, 0, 0}); return o;
}
static bool apply(Ctx& c, SatPass& sp, Model& m, const std::array<double, 3>& op, S& hist, int& nid) {
  char b[80]; auto ck = [&](bool ok, const char* k, long got) { if (!ok) c.fail(k, hist + " returned " + std::to_string(got) + " (model after:" + show(m) + ")"); };
  switch ((int)op[0]) {
  case 0: { double t = m.org + op[1] * m.dt; Epoch e = at(t); snprintf(b, 80, " trimAfter(%g)", t); if (op[1] == std::floor(op[1])) { bool f = false; for (size_t i = 0; i + 1 < m.d.size(); i++) if (m.cnt(m.d[i]) == op[1]) { e = sp.time(i); t = m.d[i].t; f = true; break; } if (!f) return false; snprintf(b, 80, " trimAfter(epoch %g)", t); } hist += b;
    if (m.d.empty()) return false; int r = sp.trimAfter(e), w; if (t <= m.org) w = -1; else if (t >= m.d.back().t) w = 1; else { w = 0; size_t i = 0; while (i < m.d.size() && m.d[i].t < t) i++; m.d.resize(i); } ck(r == w, "trim-return", r); return true; }
  case 1: { int N = (int)op[1]; snprintf(b, 80, " split(%d) keep %s", N, op[2] ? "new" : "old"); hist += b; SatPass nw(sp.getSat(), 1); Model l = m, r = m; l.d.clear(); r.d.clear(); for (auto& x : m.d) (m.cnt(x) < N ? l : r).d.push_back(x); if (!r.d.empty()) r.org = r.d[0].t;
    sp.status() = 7; bool ok = sp.split(N, nw); sp.status() = 7; ck(ok, "split-return", ok); ck(nw.getStatus() == 7, "split-status", nw.getStatus()); ck(nw.getSat() == sp.getSat(), "split-sat", 0); verify(c, sp, l, hist + " [old part]"); verify(c, nw, r, hist + " [new part]"); if (op[2]) { sp = nw; m = r; } else m = l; return true; }
  case 2: { int N = (int)op[1]; double ref = m.org + op[2] * m.dt + 0.001; bool def = op[2] == 99999; snprintf(b, 80, def ? " decimate(%d)" : " decimate(%d, step %g)", N, op[2]); hist += b; if (def) sp.decimate(N); else sp.decimate(N, at(ref));
    if (N <= 1) return true; long k0 = def ? 0 : -(long)op[2]; std::vector<D> k; for (auto& x : m.d) { long q = (k0 + m.cnt(x)) % N; if (q == 0) k.push_back(x); } m.d = k; m.dt *= N; if (!k.empty()) m.org = k[0].t; return true; }
  case 3: { size_t i = (size_t)op[1]; if (i >= m.d.size()) return false; snprintf(b, 80, " setFlag(%zu,%g)", i, op[2]); hist += b; sp.setFlag(i, (unsigned short)op[2]); sp.setUserFlag(i, 40 + i); m.d[i].flag = (int)op[2]; m.d[i].user = 40 + i; return true; }
  case 4: { D x = {(m.d.empty() ? 500.0 : m.d.back().t) + op[1] * m.dt + op[2] * 0.002, (nid % 3) ? 1 : 0, nid, 0}; nid++; snprintf(b, 80, " add(%.4f)", x.t); hist += b; if (op[1] == 0 && op[2] && m.dt > 1) { /* two data 2 ms apart */ } Model q = m; int w = addModel(q, x, sp.getMaxGap()); if (w == 9) return false; int r = addTo(sp, x, nid % 2); m = q; ck(w == 0 ? r == (int)m.d.size() - 1 : r == w, "add-return", r); return true; }
  case 5: hist += " clear"; sp.clear(); m.d.clear(); return true;
  case 6: { hist += " copy"; SatPass cp(sp); SatPass as(RinexSatID("R03"), 1.0); as = sp; verify(c, cp, m, hist + " [copy]", false); sp.clear(); sp = as; return true; }
  }
  return false;
}
int main(int argc, char** argv) {
  Harness h("C43"); static const bool TH = h.thorough; SatPass::setMaxGap(1e6);
  // 1. every sequence of additions
  { static const int K = 9, DEP = TH ? 6 : 5; u64 n = 1; for (int i = 0; i < DEP; i++) n *= K; static u64 nn; nn = n;
    h.part("add", nn / K, [](Ctx& c, u64 i0) { for (int lastop = 0; lastop < K; lastop++) { Mix mx(i0); SatPass::setMaxGap(75.0); SatPass sp(RinexSatID("G07"), 30.0); Model m; S hist = "add sequence, maximum gap 75:"; bool chk = false;
      for (int s = 0; s < DEP; s++) { int o = s == DEP - 1 ? lastop : (int)mx(K); if (s == DEP - 1) chk = true; static const double off[K] = {0, 30, 60, 150, 30.002, 29.998, -30, -0.002, 5000}; double t = (m.d.empty() ? 0 : m.d.back().t) + off[o]; D x = {t, (o + s) % 3 ? ((o + s) % 4 == 1 ? 3 : 1) : 0, s * 10 + o, 0}; Model q = m; int w = addModel(q, x, 75.0); if (w == 9) continue; int r = addTo(sp, x, s % 2); m = q; char b[40]; snprintf(b, 40, " %.4f", t); hist += b; c.trans(1); MC_CK(c, w == 0 ? r == (int)m.d.size() - 1 : r == w, "add-return", hist << " returned " << r << ", model " << w << show(m)); }
      if (chk) verify(c, sp, m, hist); } SatPass::setMaxGap(1e6); }); }
  // 2. every subset of a window x operation pairs / triples
  { static std::vector<std::array<double, 3> > OPS = opsAll(TH); static const int W = TH ? 7 : 6; static const u64 NP = 1u << (W - 1); // the first epoch is always there
    h.part("histories", NP * 2 * OPS.size(), [](Ctx& c, u64 i) { Mix mx(i); u64 pat = mx(NP), fl = mx(2), o1 = mx(OPS.size()); c.at("pattern " + std::to_string(pat) + " flags " + std::to_string(fl) + " first op " + std::to_string(o1));
      SatPass base(RinexSatID("G07"), 30.0); Model m0; S h0 = "pass"; int nid = 0; for (int k = 0; k < W; k++) if (k == 0 || pat >> (k - 1) & 1) { D x = {k * 30 + (k % 3 - 1) * 0.002 * (fl ? 1 : 0), fl ? ((k * 5 + (int)pat) % 3 ? 1 : 0) : (k % 4 == 3 ? 2 : 1), nid, 0}; nid++; if (m0.d.empty()) m0.org = x.t; m0.d.push_back(x); addTo(base, x); } h0 += show(m0) + ":";
      if (o1 == 0) verify(c, base, m0, h0, true, true); SatPass s1(base); Model m1 = m0; S h1 = h0; int n1 = 20; if (!apply(c, s1, m1, OPS[o1], h1, n1)) return; verify(c, s1, m1, h1, true, o1 % 5 == 0);
      for (size_t o2 = 0; o2 < OPS.size(); o2++) { SatPass s2(s1); Model m2 = m1; S h2 = h1; int n2 = 30; if (!apply(c, s2, m2, OPS[o2], h2, n2)) continue; c.traces(1); verify(c, s2, m2, h2);
        if (TH ? (o2 + pat) % 3 == 0 : (o2 + o1 + pat) % 37 == 0) for (size_t o3 = 0; o3 < OPS.size(); o3++) { SatPass s3(s2); Model m3 = m2; S h3 = h2; int n3 = 40; if (!apply(c, s3, m3, OPS[o3], h3, n3)) continue; verify(c, s3, m3, h3, false); } } }, 300); }
  // 3. overlap of two passes
  h.part("overlap", 7 * 7 * 7 * 7, [](Ctx& c, u64 i) { Mix mx(i); int a = mx(7), la = mx(7), b = mx(7), lb = mx(7); for (int same = 0; same < 2; same++) { SatPass p(RinexSatID("G07"), 30), q(RinexSatID(same ? "G07" : "R07"), 30); for (int k = 0; k <= la; k++) addTo(p, {(a + k) * 30.0, 1, k, 0}); for (int k = 0; k <= lb; k++) addTo(q, {(b + k) * 30.0, 1, k, 0});
      double lo = std::max(a, b) * 30.0, hi = std::min(a + la, b + lb) * 30.0; for (int cv = 0; cv < 2; cv++) { double d = -9; Epoch x = at(-9), y = at(-9); bool r = cv ? p.hasCommonView(q, &d, &x, &y) : p.hasOverlap(q, &d, &x, &y), r0 = cv ? p.hasCommonView(q) : p.hasOverlap(q); if (hi == lo) continue; bool w = hi > lo && (!cv || same); c.eval(1); c.states(1); c.trans(2);
        MC_CK(c, r == w && r0 == w && (!w || (std::fabs(d - (hi - lo)) < 1e-6 && std::fabs(rel(x) - lo) < 1e-6 && std::fabs(rel(y) - hi) < 1e-6)), cv ? "common-view" : "overlap", "passes from " << a << " to " << a + la << " and from " << b << " to " << b + lb << " steps: " << r << " " << d << " " << rel(x) << " " << rel(y)); }
      bool less = p < q, wl = a != b ? a < b : p.getSat() < q.getSat(); MC_CK(c, less == wl, "order", "passes starting at " << a << " and " << b << ": operator< is " << less); } });
  // 4. joint iteration
  { static const int ST = TH ? 7 : 5, PT = 4, NP = 3; static const u64 ONE = ST * PT * 2; static const int pats[PT] = {1, 3, 5, 13};
    h.part("iterate", ONE * ONE * ONE, [](Ctx& c, u64 i) { Mix mx(i); int st[NP], pt[NP], sv[NP]; for (int p = 0; p < NP; p++) { st[p] = mx(ST); pt[p] = mx(PT); sv[p] = mx(2); }
      auto len = [&](int p) { int l = 0; while (pats[pt[p]] >> l) l++; return l; }; bool over = false; for (int a = 0; a < NP; a++) for (int b = 0; b < a; b++) if (sv[a] == sv[b] && !(st[a] + len(a) <= st[b] || st[b] + len(b) <= st[a])) over = true; if (over && (i % 7)) return;
      std::vector<SatPass> base; for (int p = 0; p < NP; p++) { SatPass s(RinexSatID(sv[p] ? "G20" : "G05"), 30.0); for (int k = 0; k < 4; k++) if (pats[pt[p]] >> k & 1) addTo(s, {(st[p] + k) * 30.0 + (k && p == 1 ? 0.002 : 0), (k + p) % 2, p * 10 + k, 0}); s.status() = p; base.push_back(s); }
      auto desc = [&](const S& x) { S d = "passes"; for (int p = 0; p < NP; p++) d += S(" [") + (sv[p] ? "G20" : "G05") + " from step " + std::to_string(st[p]) + " pattern " + std::to_string(pats[pt[p]]) + "]"; return d + " " + x; };
      for (int rej = 0; rej < 8; rej++) for (int rev = 0; rev < 2; rev++) { std::vector<SatPass> L = base; for (auto& s : L) if (rej >> s.status() & 1) s.status() = -1 - s.status(); c.eval(1); c.states(1);
        if (over) { S e = thrown([&] { SatPassIterator it(L, rev); std::map<unsigned, unsigned> im; int n = 0; while (it.next(im)) { c.trans(1); if (++n > 100) { c.fail("endless", desc("overlapping: iteration does not end")); break; } } }); MC_CK(c, e.empty() || e.find("Exception") != S::npos, "overlapping", desc("overlapping: ") << e); continue; }
        SatPassIterator it(L, rev); std::map<int, std::map<unsigned, unsigned> > want; int f = 1 << 30, l = -1; for (unsigned p = 0; p < L.size(); p++) for (unsigned j = 0; j < L[p].size(); j++) { int k = (int)std::floor(rel(L[p].time(j)) / 30 + 0.5); f = std::min(f, k); l = std::max(l, k); if (L[p].getStatus() >= 0) want[rev ? -k : k][p] = j; }
        MC_CK(c, std::fabs(rel(it.getFirstTime()) - f * 30) < 0.01 && std::fabs(rel(it.getLastTime()) - l * 30) < 0.01 && it.getDT() == 30, "limits", desc("") << "first " << rel(it.getFirstTime()) << " last " << rel(it.getLastTime()));
        for (int pass = 0; pass < 3; pass++) { // straight; again after a reset from half way, in Rinex form; the first active pass is rejected after one step
          if (pass == 1) it.reset(rev); if (pass == 2) { it.reset(rev); } auto w = want.begin(); int n = 0, steps = 0; bool cut = false; std::map<unsigned, unsigned> im; int bad = -1;
          for (;;) { int r; if (pass == 1) { RinexObsData ro; ro.numSvs = 99; r = it.next(ro); im = it.getIndexes(); if (r) { bool ok = ro.numSvs == (int)im.size() && ro.obs.size() == im.size(); for (auto& q : im) { auto& m = ro.obs[L[q.first].getSat()]; for (auto& t : OT) { auto o = m[RinexObsHeader::convertObsType(t)]; if (o.data != L[q.first].data(q.second, t) || o.lli != L[q.first].LLI(q.second, t) || o.ssi != L[q.first].SSI(q.second, t)) ok = false; } if (std::fabs(ro.time - L[q.first].time(q.second)) > 0.01) ok = false; } MC_CK(c, ok, "rinex", desc("") << " step " << n << " record differs from the passes"); } } else r = it.next(im); c.trans(1);
            if (pass == 2 && n == 1 && r) { } 
            while (w != want.end() && w->second.empty()) ++w; bool more = w != want.end(); MC_CK(c, (r != 0) == more, "end", desc("") << " rejected " << rej << (rev ? " reverse" : " forward") << " step " << n << " kind " << pass << " returned " << r << " with " << std::distance(w, want.end()) << " epochs left"); if (!r || !more) { if (r && !more) cut = true; break; }
            MC_CK(c, im == w->second, "epoch", desc("") << " rejected " << rej << (rev ? " reverse" : " forward") << " step " << n << " kind " << pass << " gives " << im.size() << " passes, want " << w->second.size()); ++w; n++;
            if (pass == 2 && n == 1) { bad = im.begin()->first; L[bad].status() = -1 - L[bad].getStatus() - 100; for (auto q = w; q != want.end(); ++q) q->second.erase(bad); }
            if (++steps > 100) break; }
          if (cut) break;
          if (pass == 0) { it.reset(!rev); it.next(im); it.reset(rev); it.next(im); } } } }, 300); }
  h.part("iterate-odd", 4, [](Ctx& c, u64 i) { c.eval(1); c.states(1); c.trans(1); std::vector<SatPass> L; if (i == 0) { MC_CK(c, thrown([&] { SatPassIterator it(L); }).find("Exception") != S::npos, "empty-list", "an empty list is accepted"); return; }
    SatPass a(RinexSatID("G05"), 30), b(RinexSatID("G06"), i == 1 ? 15 : 30), e(RinexSatID("G07"), 30); addTo(a, {0, 1, 1, 0}); addTo(b, {30, 1, 2, 0}); addTo(e, {15, 1, 3, 0}); e.clear(); if (i == 1) { L = {a, b}; MC_CK(c, thrown([&] { SatPassIterator it(L); }).find("Exception") != S::npos, "mixed-dt", "passes of different intervals are accepted"); return; }
    if (i == 2) L = {a, e, b}; else L = {e}; for (int rev = 0; rev < 2; rev++) { SatPassIterator it(L, rev); std::map<unsigned, unsigned> im; int n = 0; while (it.next(im)) n++; MC_CK(c, n == (i == 2 ? 2 : 0), "empty-pass", "a list with an empty pass visits " << n << " epochs"); } });
  // 5. labels
  h.part("labels", 3 * 3 * 3 * 3 * 3, [](Ctx& c, u64 i) { Mix mx(i); SatPass sp(RinexSatID("G07"), 30); addTo(sp, {0, 1, 1, 0}); addTo(sp, {30, 1, 2, 0}); std::map<S, S> sub; VS now = OT; S d = "rename"; for (int k = 0; k < 5; k++) { int v = mx(3); S from = k < 4 ? OT[k] : "D1"; if (!v) continue; S to = v == 1 ? "C" + std::to_string(k) : "S" + std::to_string(9 - k); sub[from] = to; d += " " + from + "->" + to; if (k < 4) now[k] = to; }
    sp.renameObstypes(sub); c.eval(1); c.states(1); c.trans(2); MC_CK(c, sp.getObsTypes() == now && sp.getObstypes() == now, "rename-list", d << " gives a different list of types"); for (int k = 0; k < 4; k++) { MC_CK(c, sp.hasType(now[k]) && (now[k] == OT[k] || !sp.hasType(OT[k])), "rename-has", d << " type " << now[k]); S e = thrown([&] { MC_CK(c, sp.data(1, now[k]) == val(2, k), "rename-data", d << " type " << now[k]); }); MC_CK(c, e.empty(), "rename-data", d << " " << e);
      for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { S x = a ? now[k] : "ZZ", y = b ? now[(k + 1) % 4] : "YY"; int q = a ? k : (k + 1) % 4; double v = -1; int l = -1, s = -1; S e1 = thrown([&] { v = sp.data(1, x, y); }), e2 = thrown([&] { l = sp.LLI(1, x, y); }), e3 = thrown([&] { s = sp.SSI(1, x, y); }); bool ok = (a || b) ? e1.empty() && e2.empty() && e3.empty() && v == val(2, q) && l == (2 + q) % 8 && s == (6 + q) % 9 : e1.find("Exception") != S::npos && e2.find("Exception") != S::npos && e3.find("Exception") != S::npos; MC_CK(c, ok, "either-type", "either of " << x << " and " << y << " gives " << v << " " << l << " " << s << e1 << e2 << e3); }
      MC_CK(c, thrown([&] { sp.data(0, "ZZ"); }).find("Exception") != S::npos && thrown([&] { sp.LLI(0, "ZZ"); }).find("Exception") != S::npos && thrown([&] { sp.SSI(0, "ZZ"); }).find("Exception") != S::npos && thrown([&] { sp.data(5, "L1", "L2"); }).find("Exception") != S::npos, "absent-type", "an absent type is accepted"); } });
  // 6. data out of Rinex records
  h.part("rinex-add", 7 * 3 * 16 * 16, [](Ctx& c, u64 i) { Mix mx(i); int ef = mx(7), who = mx(3), have = mx(16), zero = mx(16); SatPass sp(RinexSatID("G07"), 30.0); addTo(sp, {0, 1, 1, 0}); RinexObsData r; r.time = at(30); r.epochFlag = ef; r.numSvs = 2; auto fill = [&](const char* s, int id) { auto& m = r.obs[RinexSatID(s)]; for (int k = 0; k < 4; k++) if (have >> k & 1) { RinexDatum& d = m[RinexObsHeader::convertObsType(OT[k])]; d.data = (zero >> k & 1) ? 0 : val(id, k); d.lli = k + 1; d.ssi = k + 3; } r.obs[RinexSatID(s)][RinexObsHeader::convertObsType("D1")].data = 5; };
    fill("G08", 70); if (who == 1) fill("G07", 80); if (who == 2) fill("R07", 90); int w = ef > 1 ? -4 : who == 1 ? 1 : -3; int got = sp.addData(r); c.eval(1); c.states(1); c.trans(1); auto desc = [&] { return "record flag " + std::to_string(ef) + " satellite " + std::to_string(who) + " types " + std::to_string(have) + " zeros " + std::to_string(zero); };
    MC_CK(c, got == w && sp.size() == (w == 1 ? 2u : 1u), "rinex-add-return", desc() << " returned " << got); if (w != 1 || sp.size() != 2) return; bool bad = (have & zero) != 0; MC_CK(c, sp.getFlag(1) == (bad ? SatPass::BAD : SatPass::OK) && sp.getNgood() == (bad ? 1 : 2), "rinex-add-flag", desc() << " flag " << sp.getFlag(1));
    for (int k = 0; k < 4; k++) { bool hv = have >> k & 1; MC_CK(c, sp.data(1, OT[k]) == (hv && !(zero >> k & 1) ? val(80, k) : 0) && sp.LLI(1, OT[k]) == (hv ? k + 1 : 0) && sp.SSI(1, OT[k]) == (hv ? k + 3 : 0), "rinex-add-data", desc() << " " << OT[k] << " is " << sp.data(1, OT[k])); } });
  // 7. smoothing and debiasing of noise-free data
  static const int NA = TH ? 5 : 3; h.part("smooth", NA * NA * 4 * 3 * 2 * 8, [](Ctx& c, u64 i) { Mix mx(i); static const double NN[5] = {0, 1234567, -7654321, 99999999, -3}; double n1 = NN[mx(NA)], n2 = NN[mx(NA)]; int kind = mx(4), nd = 1 + mx(3), band = mx(2), badm = mx(8); double f1 = 1575.42e6, f2 = band ? 1176.45e6 : 1227.60e6, w1 = C_MPS / f1, w2 = C_MPS / f2, a = (w2 / w1) * (w2 / w1); bool cc = kind & 1; VS ot = {"L1", "L2", cc ? "C1" : "P1", cc ? "C2" : "P2"};
    for (int mode = 0; mode < 4; mode++) for (int sf = 0; sf < 3; sf++) { if (sf && kind < 2) { } SatPass sp(RinexSatID("G07"), 30, ot); std::vector<std::array<double, 4> > v; int good = 0; for (int k = 0; k < nd + 2; k++) { double rho = 2.1e7 + 3.3e5 * k + (kind > 1 ? 4e6 : 0), I = sf ? 0 : 2.5 + 0.75 * k; std::array<double, 4> x = {(rho - I) / w1 + n1, (rho - a * I) / w2 + n2, rho + I, rho + a * I}; bool bd = k < 3 && (badm >> k & 1); if (bd) for (auto& y : x) y += 5e5; else good++; v.push_back(x); std::vector<double> dv(x.begin(), x.end()); std::vector<unsigned short> z(4, 0); sp.addData(at(k * 30), ot, dv, z, z, bd ? 0 : 1); }
      if (!good) continue; S msg; c.eval(1); c.states(1); c.trans(1); S e = thrown([&] { if (sf) sp.smoothSF(mode & 1, mode & 2, msg, sf, sf == 1 ? w1 : w2); else sp.smooth(mode & 1, mode & 2, msg, w1, w2); }); MC_CK(c, e.empty() && msg.compare(0, 7, "SMT G07") == 0, "smooth-runs", "smoothing: " << e << " " << msg); int g = 0;
      for (size_t k = 0; k < v.size(); k++) { bool bd = sp.getFlag(k) == 0; for (int q = 0; q < 4; q++) { double w = v[k][q]; bool mine = !sf || (q % 2) == sf - 1; if (!bd && mine && q < 2 && (mode & 2)) w -= q ? n2 : n1; double got = sp.data(k, ot[q]); double tol = q < 2 ? 1e-5 : 2e-4; MC_CK(c, std::fabs(got - w) < tol, sf ? "smooth-single" : "smooth-dual", "phase ambiguities " << n1 << " " << n2 << " mode " << mode << " frequency " << sf << " datum " << k << " " << ot[q] << " becomes " << got << ", want " << w << (bd ? " (bad)" : "")); if (g++ > 40) break; } } } });
  return h.run(argc, argv);
}
