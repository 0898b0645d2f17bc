// MC-SAN: assert
// MC-RULE: parity equations, field values and page identification of IS-GPS-200 hold for every word and page
// MC-ASSUME: words are 30 bits right-aligned ; Z-counts handed to zcount2page are those of a HOW (multiples of 4)
#include <memory>
#include <map>
#include "mc.hpp"
#include "lnav.hpp"
#include "EngNav.hpp"
#include "EngEphemeris.hpp"
#include "EngAlmanac.hpp"
#include "GPSWeekSecond.hpp"
#include "GNSSconstants.hpp"
using namespace gpstk; using namespace mc; typedef std::string S;
static uint32_t PT[3][256];
static void initPT() { for (int b = 0; b < 3; b++) for (int v = 0; v < 256; v++) PT[b][v] = lnav::parity(uint32_t(v) << (8 * b), 0, 0); }
static inline uint32_t par(uint32_t d24, int D29, int D30) { return PT[0][d24 & 255] ^ PT[1][d24 >> 8 & 255] ^ PT[2][d24 >> 16 & 255] ^ (D29 ? 0x29 : 0) ^ (D30 ? 0x16 : 0); }
// IS-GPS-200 field tables: output index, start, bits, start2, bits2, signed, power of 2, power of pi, multiplier
struct Fd { int ix, s, n, s2, n2, sg, p2, pp, mul; };
static const Fd HD[] = {{0,1,8,0,0,0,0,0,1},{1,9,14,0,0,0,0,0,1},{2,31,17,0,0,0,0,0,6},{3,48,2,0,0,0,0,0,1},{4,50,3,0,0,0,0,0,1}};
static std::vector<Fd> table(int pat) { std::vector<Fd> t(HD, HD + 5); auto a = [&](int ix, int s, int n, int sg = 0, int p2 = 0, int pp = 0, int s2 = 0, int n2 = 0, int mul = 1) { t.push_back(Fd{ix, s, n, s2, n2, sg, p2, pp, mul}); };
  if (pat >= 4) { a(5, 61, 2); a(6, 63, 6); }
  switch (pat) {
    case 1: a(6, 71, 2); a(7, 73, 4); a(8, 77, 6); a(9, 83, 2, 0, 11, 0, 211, 8); a(10, 91, 1); a(11, 197, 8, 1, -31); a(12, 219, 16, 0, 4); a(13, 241, 8, 1, -55); a(14, 249, 16, 1, -43); a(15, 271, 22, 1, -31); break;
    case 2: a(5, 61, 8, 0, 11); a(6, 69, 16, 1, -5); a(7, 91, 16, 1, -43, 1); a(8, 107, 8, 1, -31, 1, 121, 24); a(9, 151, 16, 1, -29); a(10, 167, 8, 0, -33, 0, 181, 24); a(11, 211, 16, 1, -29); a(12, 227, 8, 0, -19, 0, 241, 24); a(13, 271, 16, 0, 4); a(14, 287, 1); a(15, 288, 5, 0, 0, 0, 0, 0, 900); break;
    case 3: a(5, 61, 16, 1, -29); a(6, 77, 8, 1, -31, 1, 91, 24); a(7, 121, 16, 1, -29); a(8, 137, 8, 1, -31, 1, 151, 24); a(9, 181, 16, 1, -5); a(10, 197, 8, 1, -31, 1, 211, 24); a(11, 241, 24, 1, -43, 1); a(12, 271, 8, 0, 11); a(13, 279, 14, 1, -43, 1); break;
    case 4: a(7, 69, 16, 0, -21); a(8, 91, 8, 0, 12); a(9, 99, 16, 1, -19, 1); a(10, 121, 16, 1, -38, 1); a(11, 137, 8); a(12, 151, 24, 0, -11); a(13, 181, 24, 1, -23, 1); a(14, 211, 24, 1, -23, 1); a(15, 241, 24, 1, -23, 1); a(16, 271, 8, 1, -20, 0, 290, 3); a(17, 279, 11, 1, -38); a(19, 63, 6); break;
    case 5: a(7, 77, 8); for (int k = 0; k < 24; k++) a(8 + k, 91 + 30 * (k / 4) + 6 * (k % 4), 6); break;
    case 8: { int al[8] = {69, 77, 91, 99, 107, 121, 129, 137}, p2[8] = {-30, -27, -24, -24, 11, 14, 16, 16}, pp[8] = {0, -1, -2, -3, 0, -1, -2, -3}; for (int k = 0; k < 8; k++) a(7 + k, al[k], 8, 1, p2[k], pp[k]);
      a(15, 181, 24, 1, -30, 0, 211, 8); a(16, 151, 24, 1, -50); a(17, 219, 8, 0, 12); a(19, 241, 8, 1); a(21, 257, 8); a(22, 271, 8, 1); break; }
    case 9: { int st[32]; for (int k = 0; k < 32; k++) st[k] = k < 4 ? 69 + 4 * k : 91 + 30 * ((k - 4) / 6) + 4 * ((k - 4) % 6); for (int k = 0; k < 32; k++) a(7 + k, st[k], 4); int hh[8] = {229, 241, 247, 253, 259, 271, 277, 283}; for (int k = 0; k < 8; k++) a(39 + k, hh[k], 6); break; }
    case 10: { a(7, 69, 8); a(8, 77, 8); for (int k = 0; k < 20; k++) a(9 + k, 91 + 30 * (k / 3) + 8 * (k % 3), 8); break; }
    default: { int st[8] = {69, 91, 121, 151, 181, 211, 241, 249}, nb[8] = {16, 24, 24, 24, 24, 24, 8, 16}; for (int k = 0; k < 8; k++) a(7 + k, st[k], nb[k]); }
  } return t; }
static double val(const lnav::SF& s, const Fd& f) { u64 v = lnav::get(s, f.s, f.n); int n = f.n; if (f.s2) { v = v << f.n2 | lnav::get(s, f.s2, f.n2); n += f.n2; } double d = f.sg && (v >> (n - 1)) ? (double)v - std::ldexp(1., n) : (double)v; return std::ldexp(d * f.mul, f.p2) * std::pow(PI, f.pp); }
static bool eq(double a, double b) { return a == b || std::fabs(a - b) <= 2e-15 * std::max(std::fabs(a), std::fabs(b)); }
static int wk(int full, int inc, int R) { int best = 0, bd = 1 << 20; for (int k = full - R; k <= full + R; k++) if (k >= 0 && k % R == inc % R) { int d = std::abs(k - full); if (d < bd) { bd = d; best = k; } } return best; }
static int wantPat(int sf, int id) { if (sf < 1 || sf > 5) return 0; if (sf < 4) return sf; if (id <= 32) return 4; switch (id) { case 51: return 5; case 55: return 10; case 56: return 8; case 63: return 9; case 52: case 53: case 54: case 57: return 6; case 58: case 59: case 60: case 61: case 62: return 7; } return 0; }
// check the conversion of one subframe against the table
static bool conv(Ctx& c, const lnav::SF& s, int pat, const std::vector<Fd>& t, int week, const std::function<S()>& what) {
  double o[60]; for (double& x : o) x = 7777; c.eval(); if (!EngNav::subframeConvert(s.data(), (short)week, o)) { c.fail("convert-false", what()); return false; }
  for (auto& f : t) { double w = val(s, f); if (!eq(o[f.ix], w)) { c.fail("field", "pattern " + std::to_string(pat) + " output " + std::to_string(f.ix) + " = " + std::to_string(o[f.ix]) + " want " + std::to_string(w) + " " + what()); return false; } }
  if (pat == 1) { int w = wk(week, lnav::get(s, 61, 10), 1024); int d = std::abs(int(o[5]) - week); if (int(o[5]) % 1024 != w % 1024 || d > 512) { c.fail("week10", what()); return false; } }
  if (pat == 4 && o[18] != week) { c.fail("almanac-week", what()); return false; }
  if (pat == 8) for (int k : {18, 20}) { int inc = lnav::get(s, k == 18 ? 227 : 249, 8); if (int(o[k]) % 256 != inc || std::abs(int(o[k]) - week) > 128) { c.fail("week8", what()); return false; } }
  return true; }
struct Pg { int sf, id; }; static const Pg PGS[] = {{1, 0}, {2, 0}, {3, 0}, {4, 57}, {5, 1}, {5, 24}, {4, 25}, {4, 32}, {5, 0}, {5, 51}, {4, 52}, {4, 53}, {4, 54}, {4, 55}, {4, 56}, {4, 58}, {4, 62}, {4, 63}};
static const int NPG = sizeof(PGS) / sizeof(PGS[0]);
static lnav::SF page(int sf, int id, long how = 345606) { lnav::SF s = lnav::blank(sf, how); if (sf > 3) { lnav::put(s, 61, 2, 1); lnav::put(s, 63, 6, id); } return s; }

int main(int argc, char** argv) {
  Harness h("C12"); initPT();
  // ---- before any EngNav object exists the static conversion must already work (fresh process)
  h.part("no-instance", 1, [&](Ctx& c, u64) { lnav::Brc b; lnav::SF s = lnav::sf1(b, 345606); double o[60]; c.eval(); bool ok = EngNav::subframeConvert(s.data(), (short)2048, o); MC_CK(c, ok && o[0] == 0x8b && o[2] == 345606, "no-instance", "conversion without a prior EngNav object: " << ok << " preamble " << o[0]); });
  // ---- parity of every word
  h.part("parity", 256, [&](Ctx& c, u64 i) { for (uint32_t lo = 0; lo < 65536; lo++) { uint32_t d = uint32_t(i) << 16 | lo; for (int cc = 0; cc < 4; cc++) { uint32_t prev = 0x12345674u | cc; uint32_t want = par(d, cc >> 1, cc & 1); uint32_t w = d << 6 | (lo * 7 & 63);
      if (EngNav::computeParity(w, prev) != want) { c.fail("parity", "upright word " + std::to_string(w) + " previous " + std::to_string(cc)); return; }
      uint32_t tx = cc & 1 ? (~d & 0xffffff) : d; if (EngNav::computeParity(tx << 6 | (lo * 5 & 63), prev, false) != want) { c.fail("parity-inverted", "word " + std::to_string(tx) + " previous " + std::to_string(cc)); return; } } } c.eval(65536 * 8); c.states(65536 * 4); c.outcome(i); });
  // ---- fixParity
  h.part("fixParity", 4096, [&](Ctx& c, u64 i) { int st = h.thorough ? 1 : 61; for (uint32_t lo = i % st; lo < 4096; lo += st) for (int cc = 0; cc < 4; cc++) for (int up = 0; up < 2; up++) for (int nib = 0; nib < 2; nib++) for (int dirty = 0; dirty < 64; dirty += 21) {
      uint32_t d = uint32_t(i) << 12 | lo; uint32_t src = d; if (!up && (cc & 1)) src = ~d & 0xffffff; c.eval();
      uint32_t r = EngNav::fixParity(d << 6 | dirty, cc, nib, up); uint32_t rd = r >> 6 & 0xffffff, rs = !up && (cc & 1) ? ~rd & 0xffffff : rd;
      bool ok = (r & 63) == par(rs, cc >> 1, cc & 1) && (nib ? (rd >> 2 == d >> 2 && (r & 3) == 0) : rd == d) && EngNav::computeParity(r, cc, up) == (r & 63) && r >> 30 == 0;
      if (!ok) { c.fail(nib ? "fixParity-nib" : "fixParity", "data " + std::to_string(d) + " low bits " + std::to_string(dirty) + " previous " + std::to_string(cc) + " upright " + std::to_string(up) + " gives " + std::to_string(r)); return; } } });
  // ---- every one-, two- and three-bit error of a subframe is detected
  h.part("errors", 12 * 300, [&](Ctx& c, u64 i) { Mix m(i); int b1 = m(300), k = m(12); lnav::SF s(10); u64 r = hmix(k, 77); for (int w = 0; w < 10; w++) { r = hmix(r, w); s[w] = k == 0 ? 0 : k == 1 ? 0x3fffffc0 : uint32_t(r) & 0x3fffffc0; } s[0] = 0x8B << 22 | (s[0] & 0x3fffff); lnav::seal(s); int up = k & 1;
    if (!up) { lnav::SF t(s); for (int w = 1; w < 10; w++) if (s[w - 1] & 1) t[w] ^= 0x3fffffc0; s = t; }
    auto fl = [&](lnav::SF& t, int b) { t[b / 30] ^= 1u << (29 - b % 30); };
    auto chk = [&](const lnav::SF& t) { c.eval(); return EngNav::checkParity(t, up); };
    if (!chk(s) || !EngNav::checkParity(s.data(), up)) { c.fail("valid-refused", "sample " + std::to_string(k)); return; }
    if (up) { long l[10]; for (int w = 0; w < 10; w++) l[w] = s[w]; MC_CK(c, EngNav::subframeParity(l), "subframeParity", k); }
    lnav::SF t(s); fl(t, b1); if (chk(t)) { c.fail("undetected-1", "bit " + std::to_string(b1)); return; }
    for (int b2 = b1 + 1; b2 < 300; b2++) { lnav::SF u(t); fl(u, b2); if (chk(u)) { c.fail("undetected-2", "bits " + std::to_string(b1) + " " + std::to_string(b2) + " sample " + std::to_string(k)); return; }
      if (b2 / 30 == b1 / 30) for (int b3 = b2 + 1; b3 / 30 == b1 / 30; b3++) { lnav::SF v(u); fl(v, b3); if (chk(v)) { c.fail("undetected-3", "bits " + std::to_string(b1) + " " + std::to_string(b2) + " " + std::to_string(b3)); return; } } } });
  // ---- hand-over word
  h.part("how", 64, [&](Ctx& c, u64 i) { for (uint32_t t = i * 2048; t < (i + 1) * 2048; t++) for (int sf = 0; sf < 8; sf++) for (int rest : {0, 0x3f, 0x2a}) { uint32_t w = t << 13 | (rest & 3) << 11 | sf << 8 | rest; c.eval(); if (EngNav::getHOWTime(w) != t * 6ul || EngNav::getTOW(w) != t || EngNav::getSFID(w) != sf) { c.fail("how", std::to_string(w)); return; } } });
  // ---- page identification
  h.part("patterns", 8 * 64, [&](Ctx& c, u64 i) { Mix m(i); int sf = m(8), id = m(64); auto s = page(sf, id); lnav::put(s, 61, 2, 1); lnav::put(s, 63, 6, id); for (int bg = 0; bg < 2; bg++) { if (bg) { for (int w = 3; w < 10; w++) s[w] = 0x3fffffff; s[0] = 0x3fffffff; s[2] |= 0x33ffff; } long l[10]; for (int w = 0; w < 10; w++) l[w] = s[w]; c.eval(3); int want = wantPat(sf, id); MC_CK(c, EngNav::getSubframePattern(s.data()) == want && EngNav::getSubframePattern(l) == want, "pattern", "subframe " << sf << " page id " << id << " gives " << EngNav::getSubframePattern(s.data()) << " want " << want);
    double o[60]; EngNav e; bool ok = EngNav::subframeConvert(s.data(), (short)2048, o); MC_CK(c, ok == (want != 0), "convert-pattern", sf << " " << id); } });
  h.part("pages", 1, [&](Ctx& c, u64) { static const int s4[26] = {0, 57, 25, 26, 27, 28, 57, 29, 30, 31, 32, 57, 62, 52, 53, 54, 57, 55, 56, 58, 59, 57, 60, 61, 62, 63};
    for (int sf = -2; sf <= 8; sf++) for (int pg = -3; pg <= 40; pg++) { short id = -9; c.eval(); bool ok = EngNav::sfpage2svid(sf, pg, id); bool want = (sf == 4 || sf == 5) && pg >= 1 && pg <= 25; int wid = sf == 4 ? s4[want ? pg : 0] : pg == 25 ? 51 : pg; MC_CK(c, ok == want && (!want || id == wid), "sfpage2svid", sf << "/" << pg << " gives " << id); }
    for (int id = -5; id <= 400; id++) { short sf = -9, pg = -9, back = 0; c.eval(); bool ok = EngNav::sv2page(id, sf, pg); bool want = (id >= 1 && id <= 32) || (id >= 51 && id <= 63); MC_CK(c, ok == want, "sv2page-valid", id); if (ok) { bool r = EngNav::sfpage2svid(sf, pg, back); MC_CK(c, r && back == id, "sv2page", id << " -> " << sf << "/" << pg << " -> " << back); } }
    for (unsigned long tow = 0; tow <= 100800; tow++) { unsigned long end = tow == 0 ? 100800 : tow; int n = end - 1; int sf = n % 5 + 1, pg = sf < 4 ? 0 : (n / 5) % 25 + 1; short gs = -1, gp = -1; c.eval(); bool ok = EngNav::zcount2page(tow * 4, gs, gp); if (!ok || gs != sf || gp != pg) { c.fail("zcount2page", "TOW count " + std::to_string(tow) + " -> subframe " + std::to_string(gs) + " page " + std::to_string(gp) + " want " + std::to_string(sf) + "/" + std::to_string(pg)); if (tow > 1) break; } } });
  // ---- field decoding: all single bits, all pairs, on both backgrounds, plus field edge values
  h.part("decode", NPG * 2 * 241, [&](Ctx& c, u64 i) { Mix m(i); const Pg& g = PGS[m(NPG)]; int bg = m(2), b1 = m(241); EngNav init; int pat = wantPat(g.sf, g.id); auto t = table(pat); int weeks[] = {2048, 1023, 2100}; 
    auto data = [&](int b) { int k = b - 1; if (k < 0) return 0; return k / 24 * 30 + k % 24 + 1; };
    auto fixid = [&](lnav::SF& s) { lnav::put(s, 50, 3, g.sf); if (g.sf > 3) lnav::put(s, 63, 6, g.id); };
    lnav::SF z(10, bg ? 0x3fffffff : 0); int p1 = data(b1); if (p1) lnav::put(z, p1, 1, !bg);
    for (int b2 = b1; b2 <= 240; b2++) { lnav::SF s(z); int p2 = data(b2); if (b2 != b1) lnav::put(s, p2, 1, !bg); fixid(s); c.states(); if (!conv(c, s, pat, t, weeks[(b1 + b2) % 3], [&] { return "subframe " + std::to_string(g.sf) + " id " + std::to_string(g.id) + " background " + std::to_string(bg) + " bits " + std::to_string(p1) + "," + std::to_string(p2); })) return; } });
  // ---- decoded ephemerides
  h.part("ephemeris", 25 * 9, [&](Ctx& c, u64 i) { Mix m(i); int fld = m(25), vi = m(9); lnav::Brc b; auto sv = [&](int n) -> long { long hi = (1L << (n - 1)) - 1; long a[] = {0, 1, -1, hi, -hi - 1, hi / 3, -hi / 3, 2, -2}; return a[vi]; }; auto uv = [&](int n) -> long { long hi = (1L << n) - 1; long a[] = {0, 1, 2 & hi, hi, (hi - 1) & hi, hi / 2, (hi / 2 + 1) & hi, hi / 3, 5 & hi}; return a[vi]; };
    switch (fld) { case 0: b.codes = uv(2); break; case 1: b.ura = uv(4); break; case 2: b.health = uv(6); break; case 3: b.iodc = uv(10); b.iode = b.iodc & 255; break; case 4: b.l2p = uv(1); break; case 5: b.tgd = sv(8); break; case 6: b.af2 = sv(8); break; case 7: b.af1 = sv(16); break; case 8: b.af0 = sv(22); break; case 9: b.crs = sv(16); break; case 10: b.dn = sv(16); break; case 11: b.m0 = sv(32); break; case 12: b.cuc = sv(16); break; case 13: b.ecc = uv(32); break; case 14: b.cus = sv(16); break; case 15: b.sqrta = uv(32); break; case 16: b.fit = uv(1); break; case 17: b.aodo = uv(5); break; case 18: b.cic = sv(16); break; case 19: b.om0 = sv(32); break; case 20: b.cis = sv(16); break; case 21: b.i0 = sv(32); break; case 22: b.crc = sv(16); break; case 23: b.w = sv(32); b.idot = sv(14); break; case 24: b.omd = sv(24); break; }
    for (long sow : {0L, 3600L, 300000L, 302400L, 410400L, 597600L, 604770L}) for (long dt : {-7200L, 0L, 7184L}) { int week = 2050; long toe = ((sow + dt) % 604800 + 604800) % 604800 / 16 * 16; b.toe = toe; b.toc = toe; b.week10 = week % 1024; long fr = sow / 30 * 30; lnav::SF s[3] = {lnav::sf1(b, fr + 6), lnav::sf2(b, fr + 12), lnav::sf3(b, fr + 18)}; c.at("field " + std::to_string(fld) + " value " + std::to_string(vi) + " sow " + std::to_string(sow));
      for (int path = 0; path < 8; path++) { EngEphemeris e; bool ok = true; static const int O[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; c.eval();
        if (path < 6) { for (int k = 0; k < 3; k++) { MC_CK(c, !e.isDataSet() && !e.isData(O[path][k] + 1), "early", path); lnav::SF& q = s[O[path][k]]; ok = ok && e.addSubframe(q.data(), week, 7, 3); MC_CK(c, e.isData(O[path][k] + 1), "isData", path); } }
        else if (path == 6) for (int k = 0; k < 3; k++) { uint32_t q[10]; for (int w = 0; w < 10; w++) q[w] = (s[k][w] >> 6) & 0xffffff; ok = ok && e.addSubframeNoParity(q, week, 7, 3); }
        else ok = e.addIncompleteSF1Thru3(s[0].data() + 2, s[1].data() + 2, s[2].data() + 2, fr, week, 7, 3);
        auto D = [&] { std::ostringstream o; o << "path " << path << " field " << fld << " value #" << vi << " sow " << sow << " toe " << toe; return o.str(); };
        MC_CK(c, ok, "add", D()); MC_CK(c, e.isDataSet() == ((b.iodc & 255) == b.iode), "isDataSet", D());
        auto ck = [&](const char* k, double got, double want) { if (!eq(got, want)) c.fail(S("eph-") + k, D() + " got " + std::to_string(got) + " want " + std::to_string(want)); };
        auto q = [&](long v, int p, int pp = 0) { return std::ldexp((double)v, p) * (pp ? PI : 1); };
        ck("codes", e.getCodeFlags(), b.codes); ck("ura", e.getAccFlag(), b.ura); ck("health", e.getHealth(), b.health); ck("iodc", e.getIODC(), b.iodc); ck("iode", e.getIODE(), b.iode); ck("l2p", e.getL2Pdata(), b.l2p); ck("tgd", e.getTgd(), q(b.tgd, -31)); ck("af2", e.getAf2(), q(b.af2, -55)); ck("af1", e.getAf1(), q(b.af1, -43)); ck("af0", e.getAf0(), q(b.af0, -31));
        ck("crs", e.getCrs(), q(b.crs, -5)); ck("dn", e.getDn(), q(b.dn, -43, 1)); ck("m0", e.getM0(), q(b.m0, -31, 1)); ck("cuc", e.getCuc(), q(b.cuc, -29)); ck("ecc", e.getEcc(), q(b.ecc, -33)); ck("cus", e.getCus(), q(b.cus, -29)); ck("sqrta", e.getAhalf(), q(b.sqrta, -19)); ck("a", e.getA(), q(b.sqrta, -19) * q(b.sqrta, -19)); ck("fit", e.getFitInt(), b.fit); ck("aodo", e.getAODO(), b.aodo * 900);
        ck("cic", e.getCic(), q(b.cic, -29)); ck("om0", e.getOmega0(), q(b.om0, -31, 1)); ck("cis", e.getCis(), q(b.cis, -29)); ck("i0", e.getI0(), q(b.i0, -31, 1)); ck("crc", e.getCrc(), q(b.crc, -5)); ck("w", e.getW(), q(b.w, -31, 1)); ck("omd", e.getOmegaDot(), q(b.omd, -43, 1)); ck("idot", e.getIDot(), q(b.idot, -43, 1));
        ck("toe", e.getToe(), toe); ck("toc", e.getToc(), toe); ck("prn", e.getPRNID(), 7); ck("track", e.getTracker(), 3); ck("week", e.getFullWeek(), week); MC_CK(c, e.getSatSys() == "G", "eph-sys", D()); MC_CK(c, e.getOrbit().isHealthy() == (b.health == 0), "eph-healthy", D());
        for (int k = 1; k <= 3; k++) { ck("how", e.getHOWTime(k), fr + 6 * k); if (path < 7) { ck("alert", e.getASAlert(k), 1); ck("tlm", e.getTLMMessage(k), 0x1234); } }
        double best = 1e99; int bw = 0; for (int w = week - 1; w <= week + 1; w++) { double d = std::fabs((w - week) * 604800. + toe - (fr + 12)); if (d < best) { best = d; bw = w; } }
        CommonTime wt = GPSWeekSecond(bw, toe).convertToCommonTime(); MC_CK(c, std::fabs(e.getEphemerisEpoch() - wt) < 1e-6 && std::fabs(e.getEpochTime() - wt) < 1e-6, "eph-epoch", D() << " week off by " << (e.getEphemerisEpoch() - wt) / 604800); c.outcome(hdbl(e.getM0() + e.getW() + e.getAf0())); } } });
  // replaced subframes: histories of 5 subframes of two issues; the stored set is always the latest of each
  h.part("ephemeris-histories", 6 * 6, [&](Ctx& c, u64 i) { Mix m(i); std::vector<int> pre = {int(m(6)), int(m(6))}; lnav::SF S2[6]; for (int k = 0; k < 6; k++) { lnav::Brc b; b.iodc = b.iode = 10 + 20 * (k / 3); b.toe = b.toc = 345600 + 7200 * (k / 3); b.week10 = 2050 % 1024; b.m0 += k / 3; b.om0 += k / 3; b.af0 += k / 3; long fr = 345600 + 7200 * (k / 3); S2[k] = k % 3 == 0 ? lnav::sf1(b, fr + 6) : k % 3 == 1 ? lnav::sf2(b, fr + 12) : lnav::sf3(b, fr + 18); }
    bfs(c, 6, h.thorough ? 7 : 6, pre, [&](const std::vector<int>& hist, S& canon) { EngEphemeris e; int last[3] = {-1, -1, -1}; for (int o : hist) { e.addSubframe(S2[o].data(), 2050, 7, 3); last[o % 3] = o / 3; } c.eval(); bool all = last[0] >= 0 && last[1] >= 0 && last[2] >= 0; for (int k = 0; k < 3; k++) MC_CK(c, e.isData(k + 1) == (last[k] >= 0), "hist-isData", k);
      MC_CK(c, e.isDataSet() == (all && last[0] == last[1]), "hist-dataset", last[0] << last[1] << last[2]); if (all) { MC_CK(c, e.getIODC() == 10 + 20 * last[0] && e.getIODE() == 10 + 20 * last[1] && eq(e.getAf0(), std::ldexp(1000. + last[0], -31)) && eq(e.getM0(), std::ldexp(123456789. + last[1], -31) * PI) && eq(e.getOmega0(), std::ldexp(-987654321. + last[2], -31) * PI) && e.getHOWTime(3) == 345618 + 7200 * last[2], "hist-values", last[0] << last[1] << last[2]); }
      else { int z = 0; if (last[0] < 0) z += thrown([&] { e.getAf0(); }).empty() + thrown([&] { e.getFullWeek(); }).empty() + thrown([&] { e.getHOWTime(1); }).empty() + thrown([&] { e.getIODC(); }).empty(); if (last[1] < 0) z += thrown([&] { e.getM0(); }).empty() + thrown([&] { e.getIODE(); }).empty(); if (last[2] < 0) z += thrown([&] { e.getOmega0(); }).empty() + thrown([&] { e.getIDot(); }).empty(); MC_CK(c, z == 0, "hist-missing", "values of a subframe that was never stored are returned"); }
      canon = std::to_string(last[0]) + std::to_string(last[1]) + std::to_string(last[2]); return true; }); });
  h.part("fit-interval", 1, [&](Ctx& c, u64) { for (int iodc = -2; iodc < 1030; iodc++) for (int f = -1; f <= 2; f++) { int lo = iodc & 255, w = 4; if (iodc >= 0 && iodc < 1024 && f == 1) { if (lo < 240) w = 6; else if (iodc >= 240 && iodc <= 247) w = 8; else if ((iodc >= 248 && iodc <= 255) || iodc == 496) w = 14; else if ((iodc >= 497 && iodc <= 503) || iodc >= 1021) w = 26; else if (iodc >= 504 && iodc <= 510) w = 50; else if (iodc == 511 || (iodc >= 752 && iodc <= 756)) w = 74; else if (iodc >= 757 && iodc <= 763) w = 98; else if ((iodc >= 764 && iodc <= 767) || (iodc >= 1008 && iodc <= 1010)) w = 122; else if (iodc >= 1011 && iodc <= 1020) w = 146; }
      c.eval(); MC_CK(c, EngEphemeris::getFitInterval(iodc, f) == w, "fit-interval", "IODC " << iodc << " flag " << f << " gives " << EngEphemeris::getFitInterval(iodc, f) << " want " << w); } });
  // ---- almanac pages: histories
  { struct P { lnav::SF s; int kind, id; int week; }; static std::vector<P> A; auto add = [&](int kind, int sf, int id, u64 seed, int week) { lnav::SF s = page(sf, id, 345606 + 30 * (seed % 9)); u64 r = hmix(seed, 5); for (int w = 2; w < 10; w++) { r = hmix(r, w); uint32_t v = uint32_t(r) & 0x3fffffc0; if (w == 2) v = (s[2] & 0x3fc00000) | (v & 0x3fffff); s[w] = v; } if (id == 51) lnav::put(s, 77, 8, week % 256); lnav::seal(s); A.push_back(P{s, kind, id, week}); };
    add(4, 5, 3, 1, 2050); add(4, 5, 3, 2, 2051); add(4, 4, 32, 3, 2050); add(4, 5, 0, 4, 2050); add(5, 5, 51, 5, 2050); add(5, 5, 51, 6, 2047); add(8, 4, 56, 7, 2050); add(8, 4, 56, 8, 2050); add(9, 4, 63, 9, 2050); add(10, 4, 55, 10, 2050); add(6, 4, 57, 11, 2050); add(4, 4, 25, 12, 1023);
    int NA = A.size(); h.part("almanac", NA * NA, [&, NA](Ctx& c, u64 i) { Mix m(i); std::vector<int> pre = {int(m(NA)), int(m(NA))}; bfs(c, NA, h.thorough ? 5 : 4, pre, [&](const std::vector<int>& hist, S& canon) { EngAlmanac a; std::map<int, int> orb; int l5 = -1, l8 = -1, l9 = -1; for (int o : hist) { a.addSubframe(A[o].s.data(), (short)A[o].week); switch (A[o].kind) { case 4: if (A[o].id) orb[A[o].id] = o; break; case 5: l5 = o; break; case 8: l8 = o; break; case 9: l9 = o; break; } } c.eval();
      auto F = [&](int o, int ix) { for (auto& f : table(A[o].kind)) if (f.ix == ix) return val(A[o].s, f); return 1e99; }; auto ck = [&](const char* k, double g, double w) { if (!eq(g, w)) { S d; for (int o : hist) d += std::to_string(o) + " "; c.fail(S("alm-") + k, d + "got " + std::to_string(g) + " want " + std::to_string(w)); } };
      for (int prn : {3, 25, 32, 7}) { SatID s(prn, SatelliteSystem::GPS); bool have = orb.count(prn); MC_CK(c, a.isData(s) == have, "alm-isData", prn); if (!have) { MC_CK(c, !thrown([&] { a.getEcc(s); }).empty() && !thrown([&] { a.getToa(s); }).empty(), "alm-absent", prn); continue; } int o = orb[prn]; ck("ecc", a.getEcc(s), F(o, 7)); ck("toa", a.getToa(s), F(o, 8)); ck("ioff", a.getIOffset(s), F(o, 9)); ck("omd", a.getOmegadot(s), F(o, 10)); ck("svh", a.getSVHealth(s), F(o, 11)); ck("ahalf", a.getAhalf(s), F(o, 12)); ck("a", a.getA(s), F(o, 12) * F(o, 12)); ck("om0", a.getOmega0(s), F(o, 13)); ck("w", a.getW(s), F(o, 14)); ck("m0", a.getM0(s), F(o, 15)); ck("af0", a.getAf0(s), F(o, 16)); ck("af1", a.getAf1(s), F(o, 17)); ck("xmit", a.getXmitTime(s), F(o, 2));
        double d = F(o, 8) - F(o, 2); int xw = A[o].week - (d < -302400) + (d > 302400); MC_CK(c, a.getFullWeek(s) == xw || std::fabs(std::fabs(d) - 302400) < 1, "alm-week", a.getFullWeek(s)); CommonTime te = GPSWeekSecond(A[o].week, F(o, 8)).convertToCommonTime(); MC_CK(c, std::fabs(a.getAlmOrbElem(s).getToaTime() - te) < 1e-6, "alm-toa-time", prn); }
      for (int prn = 1; prn <= 32; prn++) { SatID s(prn, SatelliteSystem::GPS); int o = prn <= 24 ? l5 : l9; if (o < 0) { MC_CK(c, !thrown([&] { a.get6bitHealth(s); }).empty(), "alm-health-absent", prn); } else ck("health", a.get6bitHealth(s), F(o, prn <= 24 ? 7 + prn : 14 + prn)); if (l9 < 0) { MC_CK(c, !thrown([&] { a.getSVConfig(s); }).empty(), "alm-config-absent", prn); } else ck("config", a.getSVConfig(s), F(l9, 6 + prn)); if (o < 0 && l9 < 0) break; }
      if (l5 >= 0) { ck("page51-toa", a.getToa(), lnav::get(A[l5].s, 69, 8) * 4096.); ck("page51-week", a.getAlmWeek(), A[l5].week); }
      double al[4], be[4]; S t = thrown([&] { a.getIon(al, be); }); MC_CK(c, t.empty() == (l8 >= 0), "alm-ion", t); if (l8 >= 0) { for (int k = 0; k < 4; k++) { ck("alpha", al[k], F(l8, 7 + k)); ck("beta", be[k], F(l8, 11 + k)); } double a0, a1, ls, lsf; long tot; int wn, wl, dn; a.getUTC(a0, a1, ls, tot, wn, wl, dn, lsf); ck("a0", a0, F(l8, 15)); ck("a1", a1, F(l8, 16)); ck("ls", ls, F(l8, 19)); ck("lsf", lsf, F(l8, 22)); ck("tot", tot, F(l8, 17)); ck("dn", dn & 255, F(l8, 21)); ck("wnt", wn & 255, lnav::get(A[l8].s, 227, 8)); ck("wlsf", wl & 255, lnav::get(A[l8].s, 249, 8)); MC_CK(c, std::abs(wn - 2050) <= 128 && std::abs(wl - 2050) <= 128, "alm-utc-week", wn << " " << wl); }
      canon = std::to_string(l5) + "," + std::to_string(l8) + "," + std::to_string(l9); for (auto& o : orb) canon += ":" + std::to_string(o.second); return true; }); }, 300);
    h.part("almanac-refused", 1, [&](Ctx& c, u64) { auto no = [&](lnav::SF s, const char* w) { EngAlmanac a; c.eval(); bool r = true; S t = thrown([&] { r = a.addSubframe(s.data(), (short)2050); }); MC_CK(c, !t.empty() || !r, "alm-accepted", w); MC_CK(c, !a.isData(SatID(3, SatelliteSystem::GPS)), "alm-stored", w); }; for (int sf : {0, 1, 2, 3, 6, 7}) no(page(sf, 3), "subframe id"); for (int id = 33; id <= 50; id++) no(page(5, id), "page id"); for (int b = 1; b <= 8; b++) { auto s = A[0].s; s[0] ^= 1u << (30 - b); no(s, "preamble"); } }); }
  return h.run(argc, argv);
}
