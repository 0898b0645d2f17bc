// C13: navigation message filters and their manager, against reference models of every filter.
// MC-SAN: assert
// MC-RULE: explore every message sequence up to a length over an alphabet (time, satellite, content) through every chain of filters; each message leaves exactly once, by the filter and at the call the model of the documented rule says
// MC-ASSUME: messages are distinct objects (the order filters keep a set of pointers) ; a chain holds each filter object once ; equal votes for two contents may go either way
#include "mc.hpp"
#include "lnav.hpp"
#include <memory>
#include <set>
#include <map>
#include <algorithm>
#include "NavFilterMgr.hpp"
#include "LNavFilterData.hpp"
#include "LNavParityFilter.hpp"
#include "LNavEmptyFilter.hpp"
#include "LNavTLMHOWFilter.hpp"
#include "LNavCookFilter.hpp"
#include "LNavCrossSourceFilter.hpp"
#include "LNavOrderFilter.hpp"
#include "LNavAlmValFilter.hpp"
#include "LNavEphMaker.hpp"
#include "NavOrderFilter.hpp"
#include "CNavFilterData.hpp"
#include "CNavParityFilter.hpp"
#include "CNavEmptyFilter.hpp"
#include "CNavTOWFilter.hpp"
#include "CNavCookFilter.hpp"
#include "CNavCrossSourceFilter.hpp"
#include "CNav2SanityFilter.hpp"
#include "NavMsgDataBits.hpp"
#include "NavMsgDataPNB.hpp"
#include "NavMsgDataWords.hpp"
#include "GPSWeekSecond.hpp"
using namespace mc; using namespace gpstk; using lnav::SF;
typedef NavFilter::NavMsgList L;
typedef std::vector<int> VI;

static CommonTime T0(int wk, double sow) { return GPSWeekSecond(wk, sow, TimeSystem::GPS); }

// ------------------------------------------------------------------ models; a message is an index into the sequence
struct Msg { double t; int prn; int content; bool good; bool blank; bool how; };
struct Model { virtual ~Model() {} bool tie = false; virtual void in(const std::vector<Msg>& m, const VI& a, VI& out, VI& rej) = 0; virtual void fin(const std::vector<Msg>&, VI&, VI&) {} virtual bool ordered() { return false; } };
struct Each : Model { int kind; Each(int k) : kind(k) {} void in(const std::vector<Msg>& m, const VI& a, VI& out, VI& rej) { for (int i : a) { bool ok = kind == 0 ? m[i].good : kind == 1 ? !m[i].blank : kind == 2 ? m[i].how : true; (ok ? out : rej).push_back(i); } } };
struct Vote : Model { unsigned same, total; bool has = false; double t = 0; VI held; Vote(unsigned s, unsigned n) : same(s), total(n) {}
  void flush(const std::vector<Msg>& m, VI& out, VI& rej) { std::map<int, std::map<int, VI>> g; for (int i : held) g[m[i].prn][m[i].content].push_back(i); for (auto& p : g) { size_t best = 0, n = 0, eq = 0; for (auto& q : p.second) { n += q.second.size(); if (q.second.size() > best) best = q.second.size(), eq = 1; else if (q.second.size() == best) eq++; } bool any = best >= same && n >= total; if (any && eq > 1) tie = true; for (auto& q : p.second) { bool w = any && q.second.size() == best; VI& to = w ? out : rej; to.insert(to.end(), q.second.begin(), q.second.end()); } } held.clear(); }
  void in(const std::vector<Msg>& m, const VI& a, VI& out, VI& rej) { for (int i : a) { if (!has || m[i].t != t) { flush(m, out, rej); has = true; t = m[i].t; } held.push_back(i); } }
  void fin(const std::vector<Msg>& m, VI& out, VI& rej) { flush(m, out, rej); has = false; } };
struct Sorter : Model { double span; VI held; Sorter(double s) : span(s) {} bool ordered() { return true; }
  static void srt(const std::vector<Msg>& m, VI& v) { std::stable_sort(v.begin(), v.end(), [&](int a, int b) { return m[a].t < m[b].t; }); }
  void in(const std::vector<Msg>& m, const VI& a, VI& out, VI& rej) { double lo = -1e18; for (int i : held) lo = std::max(lo, m[i].t - span); for (int i : a) (m[i].t < lo ? rej : held).push_back(i); srt(m, held); if (held.empty()) return; double lim = m[held.back()].t - span; size_t k = 0; while (k < held.size() && m[held[k]].t <= lim) out.push_back(held[k++]); held.erase(held.begin(), held.begin() + k); }
  void fin(const std::vector<Msg>&, VI& out, VI&) { out = held; held.clear(); } };

struct Chain { std::vector<std::unique_ptr<NavFilter>> f; std::vector<std::unique_ptr<Model>> m; std::string name; };
// filter kinds: 0 parity 1 empty 2 TLM/HOW 3 cross source 4 order(3) 5 order(1) 6 generic order(2) 7 almanac values
static void addKind(Chain& c, int k) {
  switch (k) {
    case 0: c.f.emplace_back(new LNavParityFilter); c.m.emplace_back(new Each(0)); c.name += "Parity "; break;
    case 1: c.f.emplace_back(new LNavEmptyFilter); c.m.emplace_back(new Each(1)); c.name += "Empty "; break;
    case 2: c.f.emplace_back(new LNavTLMHOWFilter); c.m.emplace_back(new Each(2)); c.name += "TLMHOW "; break;
    case 3: c.f.emplace_back(new LNavCrossSourceFilter); c.m.emplace_back(new Vote(2, 3)); c.name += "CrossSource "; break;
    case 4: c.f.emplace_back(new LNavOrderFilter); c.m.emplace_back(new Sorter(18)); c.name += "Order(3,6) "; break;
    case 5: c.f.emplace_back(new LNavOrderFilter(1, 6)); c.m.emplace_back(new Sorter(6)); c.name += "Order(1,6) "; break;
    case 6: c.f.emplace_back(new NavOrderFilter(2, 12)); c.m.emplace_back(new Sorter(24)); c.name += "NavOrder(2,12) "; break;
    case 7: c.f.emplace_back(new LNavAlmValFilter); c.m.emplace_back(new Each(9)); c.name += "AlmVal "; break;
    case 8: c.f.emplace_back(new CNavCrossSourceFilter); c.m.emplace_back(new Vote(2, 2)); c.name += "CNavCrossSource "; break;
    case 9: { auto* p = new CNavCrossSourceFilter; p->setMinIdentical(3); c.f.emplace_back(p); c.m.emplace_back(new Vote(3, 3)); c.name += "CNavCrossSource(3) "; break; }
    case 10: { auto* p = new CNavCrossSourceFilter; p->minIdentical = 1; c.f.emplace_back(p); c.m.emplace_back(new Vote(1, 1)); c.name += "CNavCrossSource(1) "; break; }
    case 11: c.f.emplace_back(new NavOrderFilter(3, 12)); c.m.emplace_back(new Sorter(36)); c.name += "NavOrder(3,12) "; break;
    case 12: c.f.emplace_back(new CNavParityFilter); c.m.emplace_back(new Each(0)); c.name += "CNavParity "; break;
    case 13: c.f.emplace_back(new CNavEmptyFilter); c.m.emplace_back(new Each(1)); c.name += "CNavEmpty "; break;
    case 14: c.f.emplace_back(new CNavTOWFilter); c.m.emplace_back(new Each(2)); c.name += "CNavTOW "; break;
  }
}
typedef std::map<const NavFilterKey*, int> Idx;
static std::string show(const VI& v) { std::string s; for (int i : v) s += std::to_string(i) + " "; return s; }
static bool ids(const L& l, const Idx& x, VI& out) { for (auto p : l) { auto it = x.find(p); if (it == x.end()) return false; out.push_back(it->second); } return true; }

// run one sequence through one chain; the models run the same cascade
static void runSeq(Ctx& c, Chain& ch, const std::vector<Msg>& m, const std::vector<NavFilterKey*>& p, const std::function<std::string()>& desc, bool again) {
  NavFilterMgr mgr; for (auto& f : ch.f) mgr.addFilter(f.get());
  Idx x; for (size_t i = 0; i < p.size(); i++) x[p[i]] = i;
  size_t nf = ch.f.size(); bool tie = false; std::vector<int> seen(m.size(), 0); double lastOut = -1e18; u64 sig = 0;
  bool sorted = nf && ch.m.back()->ordered(); for (int pass = 0; pass < (again ? 2 : 1); pass++) {
    for (auto& q : ch.m) q->tie = false; std::fill(seen.begin(), seen.end(), 0); lastOut = -1e18;
    for (size_t k = 0; k <= m.size(); k++) {
      bool fin = k == m.size(); std::vector<VI> rej(nf); VI want;
      if (!fin) { want = VI{(int)k}; for (size_t f = 0; f < nf && !want.empty(); f++) { VI o; ch.m[f]->in(m, want, o, rej[f]); want = o; } }
      else for (size_t f = 0; f < nf; f++) { VI cur; ch.m[f]->fin(m, cur, rej[f]); for (size_t g = f + 1; g < nf && !cur.empty(); g++) { VI o; ch.m[g]->in(m, cur, o, rej[g]); cur = o; } want.insert(want.end(), cur.begin(), cur.end()); }
      for (auto& q : ch.m) tie = tie || q->tie;
      L got = fin ? mgr.finalize() : mgr.validate(p[k]); VI g; c.trans(1);
      if (!ids(got, x, g)) { c.fail("unknown-message", desc() + ": a message that was never added comes out"); return; }
      for (int i : g) { seen[i]++; if (sorted) { if (m[i].t < lastOut) { c.fail("order", desc() + ": message " + std::to_string(i) + " comes out after a later one"); return; } lastOut = m[i].t; } }
      std::vector<VI> gr(nf); for (size_t f = 0; f < nf; f++) { if (!ids(ch.f[f]->rejected, x, gr[f])) { c.fail("unknown-message", desc() + ": unknown rejected message"); return; } for (int i : gr[f]) seen[i]++; 
        bool in = mgr.rejected.count(ch.f[f].get()); if (in != !gr[f].empty()) { c.fail("rejected-set", desc() + ": after " + (fin ? "finalize" : "message " + std::to_string(k)) + " filter " + std::to_string(f) + (in ? " is in the rejected set without rejected messages" : " has rejected messages but is not in the rejected set")); return; } }
      if (!tie) { VI a = g, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) { c.fail("accepted", desc() + ": at " + (fin ? "finalize" : "message " + std::to_string(k)) + " accepted [" + show(a) + "] expected [" + show(b) + "]"); return; }
        for (size_t f = 0; f < nf; f++) { VI q = gr[f], w = rej[f]; std::sort(q.begin(), q.end()); std::sort(w.begin(), w.end()); if (q != w) { c.fail("rejected", desc() + ": at " + (fin ? "finalize" : "message " + std::to_string(k)) + " filter " + std::to_string(f) + " rejected [" + show(q) + "] expected [" + show(w) + "]"); return; } } }
      for (int i : g) sig = hmix(sig, i + 1); sig = hmix(sig, 77);
    }
    for (size_t i = 0; i < m.size(); i++) if (seen[i] != 1) { c.fail(seen[i] ? "duplicated" : "lost", desc() + ": message " + std::to_string(i) + " came out " + std::to_string(seen[i]) + " times"); return; }
    c.states(1); if (tie) return; }
  c.outcome(sig);
}

// CRC-24Q, table form
static uint32_t crcTab[256];
static uint32_t crc24(const std::vector<int>& b, size_t n) { uint32_t r = 0; for (size_t i = 0; i < n; i++) { uint32_t t = (r >> 23 & 1) ^ b[i]; r = (r << 1) & 0xffffff; if (t) r ^= 0x864cfb; } return r; }
static void setb(std::vector<int>& b, int s, int n, u64 v) { for (int i = 0; i < n; i++) b[s + i] = (v >> (n - 1 - i)) & 1; }
static void fillPnb(PackedNavBits& p, const std::vector<int>& b) { size_t i = 0; for (; i + 30 <= b.size(); i += 30) { u64 v = 0; for (int k = 0; k < 30; k++) v = v << 1 | b[i + k]; p.addUnsignedLong(v, 30, 1); } for (; i < b.size(); i++) p.addUnsignedLong(b[i], 1, 1); p.trimsize(); }
static PackedNavBits* pnb(const std::vector<int>& b, int prn, CommonTime t) { auto* p = new PackedNavBits(SatID(prn, SatelliteSystem::GPS), ObsID(ObservationType::NavMsg, CarrierBand::L2, TrackingCode::L2CM), "rx", t); fillPnb(*p, b); return p; }
static std::vector<int> cnav(int prn, int type, int tow, u64 salt, bool sealIt = true) { std::vector<int> b(300, 0); setb(b, 0, 8, 0x8b); setb(b, 8, 6, prn); setb(b, 14, 6, type); setb(b, 20, 17, tow); u64 s = salt * 0x9E3779B97F4A7C15ull + 1; for (int i = 38; i < 276; i++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; b[i] = s & 1; } if (sealIt) setb(b, 276, 24, crc24(b, 276)); return b; }
template <class F> static int verdict(F& f, NavFilterKey* k) { L in(1, k), out; f.rejected.clear(); f.validate(in, out); int a = out.size(), r = f.rejected.size(); if (a + r != 1 || (a && out.front() != k) || (r && f.rejected.front() != k)) return -1; return a; }

int main(int argc, char** argv) {
  Harness h("C13"); bool th = h.thorough;
  static const int NC = 24; static const int CH[NC][3] = {{-1,-1,-1},{3,-1,-1},{4,-1,-1},{5,-1,-1},{6,-1,-1},{3,4,-1},{4,3,-1},{3,3,-1},{5,4,-1},{4,5,-1},{3,5,3},{4,3,5},{6,3,-1},{3,6,-1},{5,3,3},{3,3,4},{7,3,-1},{6,4,-1},{4,6,3},{5,6,4},{3,4,6},{5,5,3},{4,4,3},{6,6,-1}};
  // histories over time x satellite x content through holding filters
  static const double TM[5] = {0, 6, 12, 30, 48};
  auto histories = [&](const char* name, int len, bool cn, VI al = VI()) {
    const int NS = 5 * 2 * 2; if (al.empty()) for (int k = 0; k < NS; k++) al.push_back(k); u64 N = 1; for (int i = 0; i < len - 2; i++) N *= al.size();
    h.part(name, N, [=](Ctx& c, u64 i0) {
      static std::map<int, std::vector<std::unique_ptr<NavFilterKey>>> pool; static std::vector<SF> words; static std::vector<std::unique_ptr<PackedNavBits>> bits;
      auto& P = pool[cn]; if (P.empty()) { if (!cn) for (int w = 0; w < 2; w++) { SF s = lnav::blank(2, 600); lnav::put(s, 290, 1, w); lnav::seal(s); words.push_back(s); } else for (int w = 0; w < 2; w++) { auto b = cnav(1, 10, 100, 5, false); b[w ? 299 : 298] ^= 1; bits.emplace_back(pnb(b, 1, T0(1800, 0))); }
        for (int s = 0; s < NS * 8; s++) { int k = s / 8; if (!cn) { auto* d = new LNavFilterData; d->sf = words[k % 2].data(); d->prn = 1 + k / 2 % 2; d->timeStamp = T0(1800, 604784) + TM[k / 4]; P.emplace_back(d); } else { auto* d = new CNavFilterData; d->pnb = bits[k % 2].get(); d->prn = 1 + k / 2 % 2; d->timeStamp = T0(1800, 604784) + TM[k / 4] ; P.emplace_back(d); } } }
      std::vector<int> sym(len); u64 r = i0; for (int k = 0; k < len - 2; k++) { sym[k] = al[r % al.size()]; r /= al.size(); }
      static const int CN[11][3] = {{8,-1,-1},{9,-1,-1},{10,-1,-1},{6,8,-1},{8,6,-1},{11,8,-1},{8,11,-1},{10,11,-1},{8,9,-1},{11,6,8},{11,-1,-1}};
      std::vector<Chain> ch(cn ? 11 : NC); for (size_t q = 0; q < ch.size(); q++) for (int f = 0; f < 3; f++) { int k = cn ? CN[q][f] : CH[q][f]; if (k >= 0) addKind(ch[q], k); }
      for (int a : al) for (int b : al) { sym[len - 2] = a; sym[len - 1] = b; std::vector<Msg> m; std::vector<NavFilterKey*> p; for (int k = 0; k < len; k++) { int s = sym[k]; m.push_back({TM[s / 4], 1 + s / 2 % 2, s % 2, true, false, true}); p.push_back(P[s * 8 + k].get()); }
        for (auto& q : ch) { c.eval(); runSeq(c, q, m, p, [&] { std::string d = "chain " + q.name + "messages"; for (auto& x : m) { char w[60]; snprintf(w, 60, " (t%+g prn %d %c)", x.t, x.prn, 'A' + x.content); d += w; } return d; }, len < 4); for (auto& f : q.m) { VI o, rj; f->fin(m, o, rj); } for (auto& f : q.f) { L o; f->finalize(o); } } } }, 300); };
  histories("histories of 3", 3, false); histories("histories of 4", 4, false); histories("histories of 6 on one satellite", th ? 7 : 6, false, VI{0, 1, 4, 5, 8, 12}); histories("civil histories of 6 on one satellite", th ? 7 : 6, true, VI{0, 1, 4, 5, 8, 12}); if (th) histories("histories of 5", 5, false);
  histories("civil histories of 3", 3, true); histories("civil histories of 4", 4, true);
  // one satellite, one or two times, many sources: votes
  h.part("votes", 4 * 4 * 4, [&](Ctx& c, u64 i) { Mix mx(i); int c0 = mx(4), c1 = mx(4), c2 = mx(4); static std::vector<SF> w; if (w.empty()) for (int q = 0; q < 4; q++) { SF s = lnav::blank(3, 600); lnav::put(s, q == 1 ? 70 : q == 2 ? 140 : 280, 1, q > 0); lnav::seal(s); w.push_back(s); }
    for (u64 r = 0; r < 4 * 4 * 4 * 4 * 16; r++) { u64 z = r; VI con = {c0, c1, c2}; for (int k = 0; k < 4; k++) { con.push_back(z % 4); z /= 4; } int len = 3 + z % 5; int cut = z / 4 ; std::vector<Msg> m; std::vector<std::unique_ptr<LNavFilterData>> d; std::vector<NavFilterKey*> p; for (int k = 0; k < len; k++) { double t = k >= cut + 3 ? 6 : 0; m.push_back({t, 7, con[k], true, false, true}); d.emplace_back(new LNavFilterData); d[k]->sf = w[con[k]].data(); d[k]->prn = 7; d[k]->timeStamp = T0(1800, 0) + t; d[k]->carrier = k % 2 ? CarrierBand::L1 : CarrierBand::L2; d[k]->stationID = k % 3 ? "A" : "B"; p.push_back(d[k].get()); }
      Chain ch; addKind(ch, 3); c.eval(); runSeq(c, ch, m, p, [&] { return "votes " + show(con) + " number " + std::to_string(len) + " new epoch after " + std::to_string(cut + 3); }, true); } });
  // rule filters in chains: contents good / bad parity / blank / bad HOW
  h.part("rule chains", 5 * 5 * 5 * 5, [&](Ctx& c, u64 i) { Mix mx(i); int k[4] = {(int)mx(5), (int)mx(5), (int)mx(5), (int)mx(5)}; static std::vector<SF> w; static const bool G[5] = {true, false, true, true, false}, B[5] = {false, false, true, false, false}, H[5] = {true, true, true, false, false};
    if (w.empty()) { SF s = lnav::blank(1, 600); lnav::put(s, 200, 7, 99); lnav::seal(s); w.push_back(s); s[5] ^= 0x80; w.push_back(s); s = lnav::blank(4, 600); lnav::put(s, 61, 8, 0x40); lnav::put(s, 69, 16, 0xaaaa); for (int q = 3; q < 10; q++) lnav::put(s, q * 30 + 1, 24, 0xaaaaaa); lnav::seal(s); { uint32_t pv = 0; for (int q = 0; q < 10; q++) { if (q == 9) s[9] = 0xaaaaaau << 6; uint32_t dd = s[q] >> 6 & 0xffffff; s[q] = dd << 6 | lnav::parity(dd, pv >> 1 & 1, pv & 1); pv = s[q]; } } w.push_back(s); s = lnav::blank(6, 600); lnav::seal(s); w.push_back(s); s = lnav::blank(0, 604800 + 6); lnav::seal(s); s[7] ^= 0x4000; w.push_back(s); }
    static const int order[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    for (int o = 0; o < 6; o++) for (int hold = 0; hold < 4; hold++) for (int nk = 1; nk <= 4; nk++) { Chain ch; if (hold == 1) addKind(ch, 5); for (int q = 0; q < 3; q++) { addKind(ch, order[o][q]); if (hold == 2 && q == 0) addKind(ch, 4); if (hold == 2 && q == 1) addKind(ch, 6); } if (hold == 3) addKind(ch, 6); std::vector<Msg> m; std::vector<std::unique_ptr<LNavFilterData>> d; std::vector<NavFilterKey*> p; for (int q = 0; q < nk; q++) { m.push_back({q * 12.0 - (k[q] == 4 ? 40 : 0), 3, k[q], G[k[q]], B[k[q]], H[k[q]]}); d.emplace_back(new LNavFilterData); d[q]->sf = w[k[q]].data(); d[q]->prn = 3; d[q]->timeStamp = T0(1900, 302400) + m[q].t; p.push_back(d[q].get()); } c.eval(); runSeq(c, ch, m, p, [&] { return "chain " + ch.name + "contents " + show(VI(k, k + nk)); }, true);
      NavFilterMgr g; unsigned dep = 1; for (auto& f : ch.f) { g.addFilter(f.get()); dep += f->processingDepth(); } MC_CK(c, g.processingDepth() == dep, "processing-depth", ch.name << g.processingDepth() << " expected " << dep); } });
  // ---- rules, exhaustively
  h.part("parity rule", 64, [&](Ctx& c, u64 i) { SF s = lnav::blank(1 + i % 5, 600 * (i + 1)); u64 z = i * 0x9E3779B97F4A7C15ull + 77; for (int k = 61; k < 290; k++) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; lnav::put(s, k, 1, z & 1); } lnav::seal(s); LNavFilterData d; LNavParityFilter f; SF a = s; d.sf = a.data(); c.eval(); MC_CK(c, verdict(f, &d) == 1, "parity:good-refused", "message " << i); for (int x = 0; x < 300; x++) { a = s; a[x / 30] ^= 1u << (29 - x % 30); d.sf = a.data(); c.eval(); MC_CK(c, verdict(f, &d) == 0, "parity:single-error", "message " << i << " bit " << x + 1); for (int y = x + 1; y < (x / 30 + 1) * 30; y++) { SF b = a; b[y / 30] ^= 1u << (29 - y % 30); d.sf = b.data(); c.eval(); MC_CK(c, verdict(f, &d) == 0, "parity:double-error", "message " << i << " bits " << x + 1 << " " << y + 1); } } c.outcome(i); });
  h.part("TLM/HOW rule", 256, [&](Ctx& c, u64 pre) { LNavTLMHOWFilter f; SF s(10, 0); LNavFilterData d; d.sf = s.data(); for (int hi = 0; hi < 2; hi++) for (int id = 0; id < 8; id++) for (int pb = 0; pb < 64; pb++) for (long tow : {0L, 1L, 50000L, 100798L, 100799L, 100800L, 100801L, 131071L, 65536L}) { s[0] = (uint32_t)pre << 22 | (hi ? 0x3fffff : 0); s[1] = (uint32_t)tow << 13 | (hi ? 0x1800 : 0) | id << 8 | (hi ? 0xc0 : 0) | pb; for (int q = 2; q < 10; q++) s[q] = hi ? 0x3fffffff : 0; bool want = pre == 0x8b && (pb & 3) == 0 && tow < 100800 && id >= 1 && id <= 5; c.eval(); MC_CK(c, verdict(f, &d) == want, "TLMHOW", "preamble " << pre << " TOW count " << tow << " subframe " << id << " parity bits " << pb); c.outcome(want); } });
  h.part("empty rule", 6 * 301, [&](Ctx& c, u64 i) { int kind = i / 301, bit = i % 301; LNavEmptyFilter f; SF s(10, 0); bool base; auto pat = [&](int id, int sv) { s[0] = 0x8bu << 22 | 0x123 << 6; s[1] = 12345u << 13 | id << 8 | 0x14; s[2] = (uint32_t)sv << 22 | 0xaaaau << 6 | 0x2b; for (int q = 3; q < 10; q++) s[q] = 0xaaaaaau << 6 | (q * 7 & 63); };
    if (kind == 0) base = true; else if (kind == 5) { pat(3, 0); base = false; } else { pat(kind % 2 ? 4 : 5, kind * 31); base = true; } bool want = base; if (bit < 300) { int w = bit / 30, o = 29 - bit % 30; s[w] ^= 1u << o; if (kind == 0) want = false; else if (kind != 5) { if (w == 1 && o >= 8 && o <= 10) { int id = s[1] >> 8 & 7; want = id == 4 || id == 5; } else if (w == 2 && o >= 6 && o < 22) want = false; else if (w >= 3 && o >= 6) want = false; } else if (w == 1 && o >= 8 && o <= 10) { int id = s[1] >> 8 & 7; want = id == 4 || id == 5; } }
    LNavFilterData d; d.sf = s.data(); c.eval(); MC_CK(c, verdict(f, &d) == !want, "empty", "pattern " << kind << " with bit " << bit + 1 << " changed: rejected " << !want); c.outcome(i); });
  h.part("cook rule", 512, [&](Ctx& c, u64 i) { SF s = lnav::blank(1 + i % 5, 600); u64 z = i * 0x9E3779B97F4A7C15ull + 5; for (int k = 61; k < 290; k++) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; lnav::put(s, k, 1, z & 1); } for (int k = 9; k < 23; k++) lnav::put(s, k, 1, (z >> k) & 1); lnav::seal(s); SF up = s, tx = s; for (int w = 1; w < 10; w++) if (up[w - 1] & 1) tx[w] ^= 0x3fffffc0; for (int inv = 0; inv < 2; inv++) { SF a = tx; if (inv) for (auto& q : a) q ^= 0x3fffffff; LNavFilterData d; d.sf = a.data(); LNavCookFilter f; c.eval(); MC_CK(c, verdict(f, &d) == 1 && a == up, "cook", "message " << i << (inv ? " inverted" : "")); LNavParityFilter pf; MC_CK(c, verdict(pf, &d) == 1, "cook:parity", "message " << i); SF b = tx; if (inv) for (auto& q : b) q ^= 0x3fffffff; d.sf = b.data(); LNavCookFilter::cookSubframe(&d); MC_CK(c, b == up, "cook:static", "message " << i); }
    SF g = s; g[0] ^= 1u << (22 + i % 8); if ((g[0] & 0x3fc00000) != 0x1d000000) { SF b = g; LNavFilterData d; d.sf = b.data(); LNavCookFilter f; c.eval(); MC_CK(c, verdict(f, &d) == 1 && b == g, "cook:unknown-preamble", "message " << i); } c.outcome(i); });
  h.part("civil parity rule", 64, [&](Ctx& c, u64 i) { auto b = cnav(1 + i % 32, i % 64, 1000 + i, i + 1); CNavParityFilter f; auto run = [&](const std::vector<int>& x) { std::unique_ptr<PackedNavBits> p(pnb(x, 1, T0(1800, 0))); CNavFilterData d(p.get()); c.eval(); return verdict(f, &d); }; MC_CK(c, run(b) == 1, "civil-parity:good-refused", "message " << i); for (int x = 0; x < 300; x++) { auto a = b; a[x] ^= 1; MC_CK(c, run(a) == 0, "civil-parity:single-error", "message " << i << " bit " << x + 1); for (int y = x + 1 + i % 4; y < 300; y += (th ? 4 : 16)) { auto q = a; q[y] ^= 1; MC_CK(c, run(q) == 0, "civil-parity:double-error", "message " << i << " bits " << x + 1 << " " << y + 1); } for (int n = 3; n <= 24 && x + n <= 300; n += 7) { auto q = b; for (int y = 0; y < n; y++) if (y == 0 || y == n - 1 || (i >> (y % 6)) & 1) q[x + y] ^= 1; MC_CK(c, run(q) == 0, "civil-parity:burst", "message " << i << " burst of " << n << " at " << x + 1); } } c.outcome(i); });
  h.part("civil TOW rule", 256, [&](Ctx& c, u64 pre) { CNavTOWFilter f; for (int ty = 0; ty < 64; ty++) for (long tow : {0L, 100799L, 100800L, 131071L, 77777L}) { auto b = cnav(5, ty, tow, ty, false); setb(b, 0, 8, pre); std::unique_ptr<PackedNavBits> p(pnb(b, 5, T0(1800, 0))); CNavFilterData d(p.get()); bool want = pre == 0x8b && tow < 100800 && (ty == 0 || (ty >= 10 && ty <= 15) || (ty >= 30 && ty <= 39)); c.eval(); MC_CK(c, verdict(f, &d) == want, "civil-TOW", "preamble " << pre << " type " << ty << " TOW count " << tow); c.outcome(want); } });
  h.part("civil empty rule", 3 * 301, [&](Ctx& c, u64 i) { int kind = i / 301, bit = i % 301; auto b = cnav(5, 0, 100, 1, false); for (int k = 38; k < 276; k++) b[k] = kind == 0 ? 0 : kind == 1 ? (k - 38) % 2 : (k - 37) % 2; bool want = kind < 2; if (bit < 300) { b[bit] ^= 1; if (bit >= 38 && bit < 276) want = false; } std::unique_ptr<PackedNavBits> p(pnb(b, 5, T0(1800, 0))); CNavFilterData d(p.get()); CNavEmptyFilter f; c.eval(); MC_CK(c, verdict(f, &d) == !want, "civil-empty", "pattern " << kind << " bit " << bit + 1); c.outcome(i); });
  h.part("civil cook rule", 256, [&](Ctx& c, u64 i) { auto b = cnav(5, 10, 100, i); for (int inv = 0; inv < 2; inv++) { auto a = b; if (inv) for (auto& q : a) q ^= 1; std::unique_ptr<PackedNavBits> p(pnb(a, 5, T0(1800, 0))); CNavFilterData d(p.get()); CNavCookFilter f; c.eval(); int v = verdict(f, &d); bool same = true; for (int q = 0; q < 300; q++) if (p->asBool(q) != (bool)b[q]) same = false; MC_CK(c, v == 1 && same && p->getNumBits() == 300, "civil-cook", "message " << i << " inverted " << inv); MC_CK(c, d.prn == 5 && d.timeStamp == T0(1800, 0) && d.carrier == CarrierBand::L2 && d.code == TrackingCode::L2CM && d.rxID == "rx", "civil-load", "message " << i); c.outcome(i * 2 + inv); } });
  h.part("CNAV-2 rule", 84, [&](Ctx& c, u64 itow) { for (int toi = 0; toi < 400; toi++) for (int v = 0; v < 12; v++) { int wk = 2000 + toi % 7; long sow = (long)itow * 7200 + toi * 18 - 18; if (sow < 0) sow += 604800; int prn = 1 + toi % 63, page = 1 + toi % 6; std::vector<int> b(883, 0); int e = v == 1 ? 18 : v == 2 ? -18 : 0; setb(b, 0, 9, v == 9 ? (toi ^ 1) : toi); setb(b, 9, 13, v == 3 ? wk + 1 : v == 4 ? wk - 1 : wk); setb(b, 22, 8, v == 10 ? itow + 1 : itow); setb(b, 609, 8, v == 5 ? prn ^ 64 : v == 6 ? prn ^ 1 : prn); setb(b, 617, 6, v == 7 ? 0 : v == 8 ? 7 : v == 11 ? page + 32 : page); double at = sow + e; int wx = wk; if (at < 0) continue; if (at >= 604800) continue; std::unique_ptr<PackedNavBits> p(new PackedNavBits(SatID(prn, SatelliteSystem::GPS), ObsID(ObservationType::NavMsg, CarrierBand::L1, TrackingCode::L1CD), "rx", T0(wx, at))); fillPnb(*p, b); CNavFilterData d(p.get()); CNav2SanityFilter f; c.eval(); MC_CK(c, verdict(f, &d) == (v == 0), "CNAV-2", "ITOW " << itow << " TOI " << toi << " change " << v); c.outcome(v); } });
  // ephemeris assembly: sequences of subframes
  h.part("ephemeris assembly", 24 * 24, [&](Ctx& c, u64 i0) { struct S { int id, fr, io, who; }; auto sy = [](int k) { S s; s.who = k % 2; s.io = k / 2 % 2; s.fr = k / 4 % 2; s.id = 1 + k / 8; return s; }; static std::map<int, SF> w; int K = 24;
    for (int r = 0; r < K * K * (th ? K : 8); r++) { int q[5] = {(int)(i0 % 24), (int)(i0 / 24), r % K, r / K % K, th ? r / K / K : (r / K / K * 7 + r) % K}; LNavEphMaker f; NavFilterMgr mgr; mgr.addFilter(&f); std::vector<std::unique_ptr<LNavFilterData>> d; int last[2][3]; memset(last, -1, sizeof last); for (int k = 0; k < 5; k++) { S s = sy(q[k]); int key = q[k]; if (!w.count(key)) { SF x = lnav::blank(s.id, (s.id + 5 * s.fr) * 6); int io = s.io ? 0x5a : 0xa5; lnav::put(x, s.id == 1 ? 211 : s.id == 2 ? 61 : 271, 8, io); lnav::seal(x); w[key] = x; } d.emplace_back(new LNavFilterData); d[k]->sf = w[key].data(); d[k]->prn = 4; d[k]->stationID = "s"; d[k]->rxID = (i0 + r) % 3 == 0 && s.who ? "r2" : "r1"; d[k]->carrier = (i0 + r) % 3 == 1 && s.who ? CarrierBand::L2 : CarrierBand::L1; d[k]->code = TrackingCode::CA; if ((i0 + r) % 3 == 2 && s.who) d[k]->prn = 5; d[k]->timeStamp = T0(1800, (s.id + 5 * s.fr) * 6); L out = mgr.validate(d[k].get()); c.trans(1); last[s.who][s.id - 1] = k; int* g = last[s.who]; bool want = g[0] >= 0 && g[1] >= 0 && g[2] >= 0; if (want) { S a = sy(q[g[0]]), b = sy(q[g[1]]), e = sy(q[g[2]]); want = a.fr == b.fr && b.fr == e.fr && a.io == b.io && b.io == e.io; } bool got = f.completeEphs.size() == 1; bool ok = got == want && f.completeEphs.size() <= 1; if (ok && got) { auto& e = *f.completeEphs.front(); for (int z = 0; z < 3; z++) if (e.size() != 3 || e[z] != d[g[z]].get()) ok = false; } c.eval(); MC_CK(c, ok && f.rejected.empty(), "ephemeris", "subframes (id frame issue source)" << [&] { std::string t; for (int z = 0; z <= k; z++) { S a = sy(q[z]); char u[40]; snprintf(u, 40, " %d%d%d%d", a.id, a.fr, a.io, a.who); t += u; } return t; }() << " complete " << f.completeEphs.size()); } c.states(1); L out = mgr.finalize(); MC_CK(c, f.completeEphs.empty() && f.ephemerides.empty(), "ephemeris:finalize", "data kept"); } });
  // bit access of the message classes
  h.part("bit access", 300, [&](Ctx& c, u64 s0) { unsigned start = s0 + 1; std::vector<int> b(300); u64 z = 12345; for (auto& x : b) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; x = z >> 20 & 1; } std::vector<int8_t> a(b.begin(), b.end()); std::vector<uint32_t> w30(10, 0), w32(10, 0); for (int k = 0; k < 300; k++) { w30[k / 30] |= (uint32_t)b[k] << (29 - k % 30); w32[k / 32] |= (uint32_t)b[k] << (31 - k % 32); } std::unique_ptr<PackedNavBits> p(pnb(b, 1, T0(1800, 0))); NavMsgDataBits nb; nb.sf = a.data(); NavMsgDataPNB np; np.sf = p.get(); NavMsgDataWords<30> n30; n30.sf = w30.data(); NavMsgDataWords<32> n32; n32.sf = w32.data(); for (unsigned n = 1; n <= 32 && start + n <= 301; n++) { uint32_t v = 0; for (unsigned k = 0; k < n; k++) v = v << 1 | b[start - 1 + k]; c.eval(4); MC_CK(c, nb.getBits(start, n) == v, "bits", start << " " << n); MC_CK(c, np.getBits(start, n) == v, "bits:packed", start << " " << n << " " << np.getBits(start, n) << " " << v); MC_CK(c, n30.getBits(start, n) == v, "bits:words30", start << " " << n); MC_CK(c, n32.getBits(start, n) == v, "bits:words32", start << " " << n); c.outcome(v); } });
  return h.run(argc, argv);
}
