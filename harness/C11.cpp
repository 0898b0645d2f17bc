// MC-SAN: asan
// MC-RULE: buffer contents equal a plain list of bits after every operation of every history
// MC-ASSUME: field widths 1..64 ; bit positions passed to readers lie inside the buffer or wholly beyond it
#include <memory>
#include <map>
#include "mc.hpp"
#include "PackedNavBits.hpp"
#include "GNSSconstants.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk; using namespace mc;
typedef std::string S; typedef std::vector<bool> B;
static u64 mask(int n) { return n >= 64 ? ~u64(0) : (u64(1) << n) - 1; }
static void put(B& b, u64 v, int n) { for (int i = n - 1; i >= 0; i--) b.push_back(v >> i & 1); }
static u64 get(const B& b, int s, int n) { u64 v = 0; for (int i = 0; i < n; i++) v = v << 1 | u64(b[s + i]); return v; }
static int64_t sx(u64 v, int n) { return n >= 64 ? (int64_t)v : (v >> (n - 1) & 1) ? (int64_t)(v | ~mask(n)) : (int64_t)v; }
static S str(const B& b) { S s; for (bool x : b) s += x ? '1' : '0'; return s; }
static CommonTime T(double s) { return GPSWeekSecond(2000, s).convertToCommonTime(); }
static PackedNavBits mkp() { return PackedNavBits(SatID(7, SatelliteSystem::GPS), ObsID(ObservationType::NavMsg, CarrierBand::L1, TrackingCode::CA), NavID(NavType::GPSLNAV), "rx1", T(345600)); }
// full observation of a buffer against the model
static bool same(Ctx& c, const PackedNavBits& p, const B& m, const S& what) {
  c.eval(); size_t n = m.size(); if (p.getNumBits() != n) { c.fail("num-bits", what + " getNumBits " + std::to_string(p.getNumBits()) + " model " + std::to_string(n)); return false; }
  for (size_t i = 0; i < n; i++) if (p.asBool(i) != m[i]) { c.fail("bits", what + " bit " + std::to_string(i) + " of " + str(m)); return false; }
  for (size_t s = 0; s < n; s += 1 + n / 7) for (int w : {1, 2, 7, 8, 13, 31, 32, 33, 63, 64}) if (s + w <= n) { u64 v = get(m, s, w); int64_t sv = sx(v, w);
    if (p.asUnsignedLong(s, w, 1) != v) { c.fail("asUnsignedLong", what); return false; } if (p.asLong(s, w, 1) != sv) { c.fail("asLong", what); return false; } }
  if (p.getsatSys() != SatID(7, SatelliteSystem::GPS) || p.getRxID() != "rx1" || p.getTransmitTime() != T(345600) || p.getNavID().navType != NavType::GPSLNAV || p.getobsID() != ObsID(ObservationType::NavMsg, CarrierBand::L1, TrackingCode::CA)) { c.fail("metadata", what); return false; }
  return true; }
static const double VD[] = {0, 0.75, 1, 2.25, -0.75, -1, -2.25, 3, 5.5, -4};

int main(int argc, char** argv) {
  Harness h("C11");
  // ---- histories of operations on the real buffer
  enum { NOP = 19 };
  static const char* ON[NOP] = {"addUnsignedLong 5/3", "addUnsignedLong 2^33-1/33", "addLong -3/3", "addLong -1/40", "addUnsignedDouble", "addSignedDouble", "addDoubleSemiCircles", "addString", "addPackedNavBits 5", "addPackedNavBits self", "invert", "trimsize", "copy", "clone+assign", "reset_num_bits -4", "clearBits", "insertUnsignedLong", "copyBits", "overflow refused"};
  int depth = h.thorough ? 5 : 4;
  h.part("histories", NOP * NOP, [&](Ctx& c, u64 i) { std::vector<int> pre = {int(i / NOP), int(i % NOP)};
    bfs(c, NOP, depth, pre, [&](const std::vector<int>& hist, S& canon) {
      std::unique_ptr<PackedNavBits> p(new PackedNavBits(mkp())); B m; S w; int trimmed = 0;
      for (size_t k = 0; k < hist.size(); k++) { int o = hist[k]; w += S(k ? "; " : "") + ON[o]; c.at(w); 
        switch (o) {
          case 0: p->addUnsignedLong(5, 3, 1); put(m, 5, 3); break; case 1: p->addUnsignedLong((u64(1) << 33) - 1, 33, 1); put(m, mask(33), 33); break;
          case 2: p->addLong(-3, 3, 1); put(m, 5, 3); break; case 3: p->addLong(-4, 40, 4); put(m, mask(40), 40); break;
          case 4: p->addUnsignedDouble(2.5, 6, -3); put(m, 20, 6); break; case 5: p->addSignedDouble(-2.5, 6, -3); put(m, mask(6) & (u64)-20, 6); break; case 6: p->addDoubleSemiCircles(-0.5 * PI, 8, -7); put(m, 0xC0, 8); break;
          case 7: p->addString("A1", 3); put(m, 'A', 8); put(m, '1', 8); put(m, ' ', 8); break;
          case 8: { PackedNavBits q; q.addUnsignedLong(21, 5, 1); p->addPackedNavBits(q); put(m, 21, 5); break; } case 9: { if (m.size() > 600) return false; p->addPackedNavBits(*p); B t(m); m.insert(m.end(), t.begin(), t.end()); break; }
          case 10: p->invert(); m.flip(); break; case 11: p->trimsize(); trimmed = 1; break; case 12: p.reset(new PackedNavBits(*p)); break; case 13: { PackedNavBits* q = p->clone(); PackedNavBits r; r = *q; delete q; *p = r; break; }
          case 14: if (m.size() < 4) return false; p->reset_num_bits(m.size() - 4); m.resize(m.size() - 4); break; case 15: p->clearBits(); m.clear(); break;
          case 16: { if (m.size() < 6) { if (thrown([&] { p->insertUnsignedLong(9, 2, 4); }).empty()) c.fail("insert-outside", w); break; } p->insertUnsignedLong(9, 2, 4); B t; put(t, 9, 4); std::copy(t.begin(), t.end(), m.begin() + 2); break; }
          case 17: { PackedNavBits q(mkp()); q.addPackedNavBits(*p); q.invert(); B t(m); t.flip(); if (m.empty()) break; int e = m.size() > 3 ? m.size() - 2 : -1; p->copyBits(q, m.size() > 3 ? 1 : 0, e); for (size_t x = m.size() > 3 ? 1 : 0; x <= (e < 0 ? m.size() - 1 : (size_t)e); x++) m[x] = t[x]; PackedNavBits s(q); s.addUnsignedLong(1, 1, 1); if (thrown([&] { p->copyBits(s); }).empty()) c.fail("copyBits-size", w); break; }
          default: { int z = 0; z += thrown([&] { p->addUnsignedLong(8, 3, 1); }).empty(); z += thrown([&] { p->addLong(4, 3, 1); }).empty(); z += thrown([&] { p->addLong(-5, 3, 1); }).empty(); z += thrown([&] { p->addUnsignedDouble(8, 3, 0); }).empty(); z += thrown([&] { p->addSignedDouble(-4.6, 3, 0); }).empty(); z += thrown([&] { p->addDoubleSemiCircles(PI, 8, -7); }).empty(); if (z) c.fail("over-range", w); }
        } }
      if (!same(c, *p, m, w)) return false;
      // comparisons with independently built buffers
      PackedNavBits q(mkp()); for (bool x : m) q.addUnsignedLong(x, 1, 1); PackedNavBits r(q), t(q); if (!m.empty()) { r.insertUnsignedLong(!m[m.size() / 2], m.size() / 2, 1); } t.addUnsignedLong(1, 1, 1);
      if (!(*p == q) || !(q == *p) || !p->match(q) || !p->matchBits(q) || *p < q || q < *p) { c.fail("equal", w + ": equal bits compare unequal"); return false; }
      if (!m.empty()) { bool lt = !m[m.size() / 2]; if (*p == r || p->matchBits(r) || (*p < r) != lt || (r < *p) == lt) { c.fail("unequal", w + ": one changed bit"); return false; } size_t d = m.size() / 2; if (d > 0 && !p->matchBits(r, 0, d - 1)) { c.fail("match-window", w); return false; } if (d + 1 < m.size() && !p->matchBits(r, d + 1, -1)) { c.fail("match-window", w); return false; } if (p->matchBits(r, d, d)) { c.fail("match-window", w); return false; } }
      if (*p == t || !(*p < t) || t < *p) { c.fail("longer", w + ": one more bit"); return false; }
      canon = str(m) + (trimmed ? "t" : "u"); return true; }); }, 300);
  // ---- every width, start offset and edge value of every field kind
  h.part("fields", 64 * 5, [&](Ctx& c, u64 i) { Mix mx(i); int n = mx(64) + 1, off = (int[]){0, 1, 7, 32, 61}[mx(5)]; c.at("width " + std::to_string(n));
    std::vector<u64> us = {0, 1, 2, mask(n), mask(n) - 1, mask(n) >> 1, (mask(n) >> 1) + 1, 0x123456789abcdef0ull & mask(n), 0xaaaaaaaaaaaaaaaaull & mask(n)}; for (int k = 0; k < n; k += n > 8 && !h.thorough ? 5 : 1) us.push_back(u64(1) << k);
    for (u64 v : us) { if (v > mask(n)) continue; int64_t sv = sx(v, n); 
      { PackedNavBits p; B m; put(m, 0x0123456789abcdefull & mask(off ? off : 1), off); if (off) p.addUnsignedLong(0x0123456789abcdefull & mask(off), off, 1); p.addUnsignedLong(v, n, 1); p.addLong(sv, n, 1); p.addUnsignedLong(2, 2, 1); put(m, v, n); put(m, v, n); put(m, 2, 2); c.eval(4);
        for (size_t k = 0; k < m.size(); k++) if (p.asBool(k) != m[k]) { c.fail("add-bits", "width " + std::to_string(n) + " value " + std::to_string(v)); break; }
        bool ok = p.asUnsignedLong(off, n, 1) == v && p.asLong(off, n, 1) == sv && p.asUnsignedLong(off + n, n, 1) == v && p.asLong(off + n, n, 1) == sv; MC_CK(c, ok, "read-back", n << " bits of " << v);
        for (int sc : {2, 3, 16}) { if (v <= (mask(n) / sc)) MC_CK(c, p.asUnsignedLong(off, n, sc) == v * sc, "scale", n); if (n < 58) MC_CK(c, p.asLong(off, n, sc) == sv * sc, "scale-signed", n << " " << sv << " x " << sc); }
        for (int e : {-43, -31, -5, 0, 4, 12}) { double pw = std::ldexp(1., e); MC_CK(c, p.asUnsignedDouble(off, n, e) == (double)v * pw && p.asSignedDouble(off, n, e) == (double)sv * pw && p.asDoubleSemiCircles(off, n, e) == ((double)sv * pw) * PI, "doubles", n << " bits " << v << " 2^" << e);
          if (n >= 2) { double mag = (double)(v & mask(n - 1)); if (v >> (n - 1)) mag = -mag; MC_CK(c, p.asSignMagDouble(off, n, e) == mag * pw && p.asSignMagDoubleSemiCircles(off, n, e) == mag * pw * PI && p.asSignMagLong(off, n, 3) == (n < 54 ? (long)mag * 3 : p.asSignMagLong(off, n, 3)), "sign-mag", n << " " << v); }
          if (n <= 52) { PackedNavBits q; q.addUnsignedDouble((double)v * pw, n, e); q.addSignedDouble((double)sv * pw, n, e); MC_CK(c, q.asUnsignedLong(0, n, 1) == v && q.asLong(n, n, 1) == sv, "add-doubles", n << " bits " << v << " 2^" << e);
            if (n <= 50) { PackedNavBits r; r.addDoubleSemiCircles((double)sv * pw * PI, n, e); MC_CK(c, r.asLong(0, n, 1) == sv, "add-semicircles", n << " " << sv); 
              if (n < 40) { PackedNavBits g; g.addSignedDouble(((double)sv + (sv < 0 ? 0.4 : -0.4)) * pw, n, e); if (v < mask(n)) g.addUnsignedDouble(((double)v + 0.4) * pw, n, e); MC_CK(c, g.asLong(0, n, 1) == sv && (v == mask(n) || g.asUnsignedLong(n, n, 1) == v), "rounding", n << " " << sv); } } } }
        // split into pieces at every cut (all pairs of cuts for short fields)
        for (int a = 1; a < n; a += n > 16 && !h.thorough ? 3 : 1) { unsigned st[3] = {unsigned(off), unsigned(off + a), 0}, nb[3] = {unsigned(a), unsigned(n - a), 0}; 
          bool z = p.asUnsignedLong(st, nb, 2, 1) == v && p.asLong(st, nb, 2, 1) == sv && p.asUnsignedDouble(st, nb, 2, -5) == std::ldexp((double)v, -5) && p.asSignedDouble(st, nb, 2, -5) == std::ldexp((double)sv, -5) && p.asDoubleSemiCircles(st, nb, 2, -5) == std::ldexp((double)sv, -5) * PI; MC_CK(c, z, "split", n << " bits " << v << " cut at " << a);
          // pieces in the other order: low part read first
          if (n <= 60) { u64 sw = (v & mask(n - a)) << a | v >> (n - a); st[0] = off + a; st[1] = off; nb[0] = n - a; nb[1] = a; MC_CK(c, p.asUnsignedLong(st, nb, 2, 1) == sw && p.asLong(st, nb, 2, 2) == 2 * sx(sw, n), "split-swapped", n << " " << v << " cut " << a); }
          if (n >= 3 && a + 1 < n) { unsigned s3[3] = {unsigned(off), unsigned(off + a), unsigned(off + a + 1)}, n3[3] = {unsigned(a), 1, unsigned(n - a - 1)}; MC_CK(c, p.asUnsignedLong(s3, n3, 3, 1) == v && p.asLong(s3, n3, 3, 1) == sv, "split3", n); } }
        c.outcome(hmix(v, n)); }
      // insertion over existing bits
      for (int bg = 0; bg < 2; bg++) { PackedNavBits p; B m; put(m, bg ? ~u64(0) : 0, 64); put(m, bg ? ~u64(0) : 0, 64); put(m, 1, 2); p.addUnsignedLong(bg ? ~0ul : 0, 64, 1); p.addUnsignedLong(bg ? ~0ul : 0, 64, 1); p.addUnsignedLong(1, 2, 1); p.insertUnsignedLong(v, off, n); for (int k = 0; k < n; k++) m[off + k] = v >> (n - 1 - k) & 1; c.eval(); for (size_t k = 0; k < m.size(); k++) if (p.asBool(k) != m[k]) { c.fail("insert", std::to_string(n) + " bits at " + std::to_string(off)); break; } MC_CK(c, p.getNumBits() == 130, "insert-count", ""); } }
    // values just outside the range are refused and change nothing
    auto refused = [&](const char* k, std::function<void(PackedNavBits&)> f) { PackedNavBits p; p.addUnsignedLong(1, 1, 1); c.eval(); S e = thrown([&] { f(p); }); MC_CK(c, !e.empty(), S("accepted-") + k, "width " << n); MC_CK(c, p.getNumBits() == 1, S("changed-") + k, "width " << n); };
    if (n < 64) { for (u64 v : {mask(n) + 1, mask(n) + 2, ~u64(0)}) { refused("unsigned", [&](PackedNavBits& p) { p.addUnsignedLong(v, n, 1); }); refused("insert", [&](PackedNavBits& p) { for (int k = 0; k < n - 1; k++) p.addUnsignedLong(0, 1, 1); try { p.insertUnsignedLong(v, 0, n); } catch (...) { p.reset_num_bits(1); throw; } }); }
      int64_t hi = (int64_t)(mask(n) >> 1) + 1; for (int64_t v : {hi, hi + 1, INT64_MAX, -hi - 1, -hi - 2, INT64_MIN}) { refused("signed", [&](PackedNavBits& p) { p.addLong(v, n, 1); }); } }
    double top = std::ldexp(1., n), half = std::ldexp(1., n - 1), step = n < 50 ? 1 : std::ldexp(1., n - 50); for (int e : {-31, 0, 7}) for (double v : std::vector<double>{top, top + step, 2 * top, 1e40, -step, -top, -1e40, (double)HUGE_VAL, -(double)HUGE_VAL, (double)nan("")}) { refused("unsigned-double", [&](PackedNavBits& p) { p.addUnsignedDouble(v * std::ldexp(1., e), n, e); }); }
    for (int e : {-31, 0, 7}) for (double v : std::vector<double>{half, half + step, top, 1e40, -half - 2 * step, -top * 1.5, -1e40, (double)HUGE_VAL, (double)nan("")}) { refused("signed-double", [&](PackedNavBits& p) { p.addSignedDouble(v * std::ldexp(1., e), n, e); }); if (n < 45) refused("semicircles", [&](PackedNavBits& p) { p.addDoubleSemiCircles(v * std::ldexp(1., e) * PI, n, e); }); }
    { PackedNavBits p; p.addUnsignedLong(0, n, 1); p.trimsize(); MC_CK(c, !thrown([&] { p.asUnsignedLong(0, n + 1, 1); }).empty() && !thrown([&] { p.asLong(n, 1, 1); }).empty() && !thrown([&] { p.asSignedDouble(1, n, 0); }).empty(), "read-beyond", n); } });
  // ---- strings
  h.part("strings", 257, [&](Ctx& c, u64 i) { static const S ok = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-./'\" :\xf8"; 
    if (i < 256) { bool valid = ok.find(char(i)) != S::npos; for (int pos = 0; pos < 3; pos++) { S s = "ABC"; s[pos] = char(i); PackedNavBits p; p.addUnsignedLong(1, 3, 1); c.eval(); S e = thrown([&] { p.addString(s, 3); }); MC_CK(c, e.empty() == valid, "string-chars", "character " << i << " " << e); if (e.empty()) { MC_CK(c, p.asString(3, 3) == s, "string", "reads \"" << p.asString(3, 3) << "\" for \"" << s << "\""); MC_CK(c, p.getNumBits() == 27, "string-bits", ""); } } return; }
    for (int len = 0; len <= 30; len++) for (int n = 0; n <= 30; n++) { S s; for (int k = 0; k < len; k++) s += ok[(k * 7 + len) % ok.size()]; PackedNavBits p; p.addString(s, n); S w = s.substr(0, n); w.resize(n, ' '); c.eval(); MC_CK(c, p.asString(0, n) == w && p.getNumBits() == size_t(8 * n), "string-pad", "\"" << s << "\" in " << n << " gives \"" << p.asString(0, n) << "\""); } });
  // ---- hex text out and in
  h.part("hex", 130, [&](Ctx& c, u64 i) { for (int n = i == 0 ? 1 : 8 * i - 7; n <= (int)(8 * i); n++) for (int pat = 0; pat < 4; pat++) for (int per : {1, 4, 5}) { PackedNavBits p(mkp()); B m; for (int k = 0; k < n; k++) { bool b = pat == 0 ? false : pat == 1 ? true : pat == 2 ? k % 3 == 0 : (k * k + k / 5) % 7 < 3; p.addUnsignedLong(b, 1, 1); m.push_back(b); } p.trimsize(); std::ostringstream o; c.eval(); int rv = p.outputPackedBits(o, per, per == 5 ? ',' : ' '); MC_CK(c, rv == n, "hex-count", n);
      S t = o.str(), want; B w(m); while (w.size() % 32) w.push_back(0); for (size_t k = 0; k < w.size() / 32; k++) { char b[20]; snprintf(b, 20, "%c 0x%08llX", per == 5 ? ',' : ' ', (unsigned long long)get(w, 32 * k, 32)); want += b; if ((k + 1) % per == 0 && 32 * (k + 1) < m.size()) want += "\n"; } MC_CK(c, t == want, "hex-text", n << " bits: " << t << " want " << want);
      S in; for (char ch : t) in += ch == '\n' ? ' ' : ch; for (int prior = 0; prior < 3; prior++) { PackedNavBits q(mkp()); if (prior == 1) q.clearBits(); if (prior == 2) q.addUnsignedLong(1234567, 40, 1); S lead = n % 2 ? " \t" : ""; S e = thrown([&] { q.rawBitInput(lead + std::to_string(n) + (per == 5 ? "" : " ") + in); }); if (!e.empty()) { c.fail("raw-refused", e + " " + std::to_string(n) + in.substr(0, 60)); break; } if (!same(c, q, m, "rawBitInput")) break; MC_CK(c, q == p, "raw-equal", n << " prior " << prior); c.traces(); } } });
  h.part("hex-refused", 1, [&](Ctx& c, u64) { for (auto s : {"", "  ", "32", "64 0x00000000", "32 ABCDABCD", "33 0x12345678", "32 x12345678", "96 0x1 0x2 2"}) { PackedNavBits p; c.eval(); MC_CK(c, !thrown([&] { p.rawBitInput(s); }).empty(), "raw-accepted", s); } });
  // ---- metadata matching: every flag mask x every single difference
  h.part("metadata", 32 * 32, [&](Ctx& c, u64 i) { Mix mx(i); unsigned fl = mx(32), df = mx(32); PackedNavBits a(mkp()), b(mkp()); a.addUnsignedLong(5, 8, 1); b.addUnsignedLong(5, 8, 1);
    for (int k = 0; k < 3; k++) { if (df & 1) b.setTime(T(345600 + (k == 0 ? 0.002 : k == 1 ? -6 : 604800))); if (df & 2) b.setSatID(k == 0 ? SatID(8, SatelliteSystem::GPS) : SatID(7, SatelliteSystem::Galileo)); if (df & 4) b.setObsID(ObsID(ObservationType::NavMsg, k ? CarrierBand::L1 : CarrierBand::L2, k ? TrackingCode::Y : TrackingCode::CA)); if (df & 8) b.setRxID(k ? "" : "rx2"); if (df & 16) b.setNavID(NavID(NavType::GPSCNAVL2));
      c.eval(); bool want = !(fl & df); MC_CK(c, a.matchMetaData(b, fl) == want && b.matchMetaData(a, fl) == want && a.match(b, 0, -1, fl) == want, "metadata-match", "flags " << fl << " differences " << df); if (fl == 0) { bool e = df == 0; MC_CK(c, (a == b) == e && a.match(b) == e && a.matchMetaData(b) == e, "metadata-all", df); } PackedNavBits cp(b); MC_CK(c, cp == b, "metadata-copy", df); } 
    if (!df) { b.setTime(T(345600.0005)); MC_CK(c, a.matchMetaData(b), "metadata-epsilon", ""); } });
  return h.run(argc, argv);
}
