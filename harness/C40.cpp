// C40 P-code generation: every chip of the generator tables and six-second blocks against a bit-serial reading of IS-GPS-200
// MC-SAN: assert
// MC-RULE: P_i(t) = X1(t) xor X2(t-i); X1A/X1B/X2A/X2B are the 12-stage registers of IS-GPS-200 with the stated hold states; P_i(t) = P_(i-37x)(t+x*24h) for i > 37
// MC-ASSUME: tables are allocated once per process as documented ; times are in GPS weeks
#include <array>
#include <cstdarg>
#include <map>
#include <memory>
#include "mc.hpp"
#include "SVPCodeGen.hpp"
#include "GenXSequence.hpp"
#include "GPSWeekZcount.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk; using namespace mc; typedef std::string S; typedef int64_t I;
// ---- the reference: stages[0] is stage 1, stage 12 is the output; feedback terms are the exponents of the polynomial
struct Reg { std::array<int, 12> st; std::vector<int> fb; Reg(const char* init, std::vector<int> f) : fb(f) { for (int i = 0; i < 12; i++) st[11 - i] = init[i] - '0'; }
  int next() { int o = st[11], n = 0; for (int k : fb) n ^= st[k - 1]; for (int i = 11; i > 0; i--) st[i] = st[i - 1]; st[0] = n; return o; } };
static std::vector<uint8_t> run(Reg r, int n) { std::vector<uint8_t> v; for (int i = 0; i < n; i++) v.push_back(r.next()); return v; }
// initial states are given with stage 12 (first output) leftmost
static const char* INIT[4] = {"001001001000", "010101010100", "100100100101", "010101010100"};
static const std::vector<int> FB[4] = {{6, 8, 11, 12}, {1, 2, 5, 8, 9, 10, 11, 12}, {1, 3, 4, 5, 7, 8, 9, 10, 11, 12}, {2, 3, 4, 8, 9, 12}};
static std::vector<uint8_t> R[4];
static const I X1E = 15345000, X2E = 15345037, WEEK = 403200 * X1E; static const int NW = 1918125;
static int x1chip(I t) { I c = t % X1E; return R[0][c % 4092] ^ R[1][c < 4093 * 3749 ? c % 4093 : 4092]; }
static int x2chip(I s) { if (s < 0) s = 0; I e = s / X2E, c = s % X2E; int a, b; if (e == 403199) { a = c < 104 * 4092 ? c % 4092 : 4091; b = c < 104 * 4093 ? c % 4093 : 4092; } else { a = c < X1E ? c % 4092 : 4091; b = c < 4093 * 3749 ? c % 4093 : 4092; } return R[2][a] ^ R[3][b]; }
// packed copies for speed: one X1 six-second block, one X2 epoch (ordinary, and the last of the week)
static std::vector<uint32_t> PX1; static std::vector<uint8_t> EX2, EOW;
static int pchip(int prn, I t) { int x = (prn - 1) / 37, i = prn - 37 * x; t = (t + x * (I)(57600 * X1E)) % WEEK; return x1chip(t) ^ x2chip(t - i); }
static std::vector<uint32_t> PK[2]; // packed epochs
struct Win { I e, c; uint32_t word() { if (c + 64 < X2E) { const std::vector<uint32_t>& p = PK[e == 403199]; int k = c >> 5, o = c & 31; c += 32; return o ? p[k] << o | p[k + 1] >> (32 - o) : p[k]; } uint32_t v = 0; for (int b = 0; b < 32; b++) v = v << 1 | next(); return v; } Win(I s) : e(s / X2E), c(s % X2E) {} int next() { int v = e == 403199 ? EOW[c] : EX2[c]; if (++c == X2E) { c = 0; e++; } return v; } };
// fills 1918125 words starting at Z-count z (multiple of four)
static void block(int prn, I z, std::vector<uint32_t>& out) { int x = (prn - 1) / 37, i = prn - 37 * x; z = (z + x * 57600) % 403200; I t = z * X1E - i; int hold = 0; if (t < 0) { hold = -t; t = 0; } Win w(t); out.resize(NW); for (int k = 0; k < NW; k++) { uint32_t v = 0; if (!hold) v = w.word(); else for (int b = 0; b < 32; b++) { int q; if (hold) { q = EX2[0]; hold--; } else q = w.next(); v = v << 1 | q; } out[k] = v ^ PX1[k]; } }
static const int WK = 2000;
static CommonTime at(int week, int z) { return GPSWeekZcount(week, z); }
static S hx(uint32_t v) { char b[20]; snprintf(b, 20, "%08x", v); return b; }
static bool cmp(Ctx& c, const CodeBuffer& b, int prn, int z, const char* key) { std::vector<uint32_t> w; block(prn, z, w); for (int k = 0; k < NW; k++) if ((uint32_t)b[k] != w[k] || b[k] >> 32) { int bit = 0; while (bit < 31 && !((b[k] ^ w[k]) >> (31 - bit) & 1)) bit++; MC_CK(c, false, key, "PRN " << prn << " Z-count " << z << " word " << k << " is " << hx(b[k]) << ", IS-GPS-200 gives " << hx(w[k]) << " (first at chip " << (I)k * 32 + bit << " of the block)"); return false; } return true; }
int main(int argc, char** argv) {
  for (int i = 0; i < 4; i++) R[i] = run(Reg(INIT[i], FB[i]), i % 2 ? 4093 : 4092);
  X1Sequence::allocateMemory(); X2Sequence::allocateMemory();
  PX1.resize(NW); for (int k = 0; k < NW; k++) { uint32_t v = 0; for (int b = 0; b < 32; b++) v = v << 1 | x1chip((I)k * 32 + b); PX1[k] = v; }
  EX2.resize(X2E); EOW.resize(X2E); for (I s = 0; s < X2E; s++) { EX2[s] = x2chip(s); EOW[s] = x2chip(403199 * X2E + s); }
  for (int q = 0; q < 2; q++) { const std::vector<uint8_t>& src = q ? EOW : EX2; PK[q].assign(X2E / 32 + 2, 0); for (I s = 0; s < X2E; s++) if (src[s]) PK[q][s >> 5] |= 1u << (31 - (s & 31)); }
  Harness h("C40"); const bool deep = h.thorough;
  // the reference against the published first 12 chips
  h.part("anchor", 37, [&](Ctx& c, u64 n) { int prn = n + 1; static const int oct[] = {04444, 04000, 04222, 04333, 04377, 04355, 04344, 04340, 04342, 04343}; int v = 0; for (int t = 0; t < 12; t++) v = v << 1 | pchip(prn, t); c.at("published first chips"); c.eval(1); c.states(1); MC_CK(c, v == oct[std::min(prn, 10) - 1], "anchor", "reference PRN " << prn << " starts with octal " << std::oct << v);
    SVPCodeGen g(prn, at(WK, 0)); CodeBuffer b(prn); g.getCurrentSixSeconds(b); MC_CK(c, (b[0] >> 20) == (unsigned long)oct[std::min(prn, 10) - 1], "first-chips", "PRN " << prn << " starts with octal " << std::oct << (b[0] >> 20) << ", published " << oct[std::min(prn, 10) - 1]); c.trans(12); });
  // registers: the four sequences from every position, for the lengths in use, and every initial state
  h.part("registers", 8, [&](Ctx& c, u64 n) { int q = n % 4, hold = n / 4; static const unsigned in[4] = {X1A_INIT, X1B_INIT, X2A_INIT, X2B_INIT}, tp[4] = {X1A_TAPS, X1B_TAPS, X2A_TAPS, X2B_TAPS}; int L = R[q].size(), H = q == 0 ? 0 : q == 2 ? 37 : q == 1 ? 343 : 380; GenXSequence g(in[q], tp[q], L, H); int len = L + (hold ? H : 0); if (hold) g.setLengthOfSequence(len); c.at("register sequence"); for (int p = 0; p < 2 * len; p++) { uint32_t w = 0; for (int b = 0; b < 32; b++) { int k = (p + b) % len; w = w << 1 | R[q][std::min(k, L - 1)]; } uint32_t v = g[p]; c.eval(1); MC_CK(c, v == w, "register", "sequence " << q << " length " << len << " position " << p << " gives " << hx(v) << ", want " << hx(w)); } c.states(len); c.trans(2 * len); });
  h.part("register-states", 4096, [&](Ctx& c, u64 n) { c.at("register from any state"); for (int q = 0; q < 4; q++) { unsigned tp = 0; S init; for (int k : FB[q]) tp |= 1u << (k - 1); for (int b = 11; b >= 0; b--) init += '0' + (n >> b & 1); std::vector<uint8_t> ref = run(Reg(init.c_str(), FB[q]), 4093);
    for (int L : {33, 64, 95, 4092, 4093}) { if (L > 100 && !deep && n % 16) continue; for (int H : {0, 5, 37}) { if (L > 100 && H == 5) continue; GenXSequence g(n, tp, L, H); g.setLengthOfSequence(L + H); int st = L > 100 ? 61 : 1; for (int p = 0; p < L + H; p += st) { uint32_t w = 0; for (int b = 0; b < 32; b++) { int k = (p + b) % (L + H); w = w << 1 | ref[std::min(k, L - 1)]; } uint32_t v = g[p]; c.eval(1); MC_CK(c, v == w, "register-states", "initial state " << init << " polynomial " << q << " length " << L << "+" << H << " position " << p << " gives " << hx(v) << ", want " << hx(w)); } } } } c.states(4); c.trans(4 * 300); }, 120);
  h.part("x1-table", 64, [&](Ctx& c, u64 n) { c.at("X1 table"); const X1Sequence x; int per = (NW + 63) / 64; for (int k = n * per; k < std::min<int>(NW, (n + 1) * per); k++) { c.eval(1); MC_CK(c, x[k] == PX1[k], "x1", "X1 word " << k << " is " << hx(x[k]) << ", want " << hx(PX1[k])); } c.states(per); c.trans(per * 32); });
  // X2 from every chip position of the four-epoch table, both variants
  h.part("x2-table", 128, [&](Ctx& c, u64 n) { bool eow = n % 2; c.at("X2 table"); X2Sequence x; x.setEOWX2Epoch(eow); I per = (MAX_X2_TEST + 63) / 64, lo = (I)(n / 2) * per - (n / 2 == 0 ? 37 : 0), hi = std::min<I>(MAX_X2_TEST, (I)(n / 2 + 1) * per); if (eow) hi = std::min<I>(hi, 3 * X2E + 426637 - 31);
    I base = eow ? 403196 * X2E : 0; uint32_t w = 0; auto chip = [&](I p) { if (p < 0) return (int)EX2[0]; I t = base + p; I e = t / X2E; return (int)(e == 403199 ? EOW[t % X2E] : EX2[t % X2E]); }; for (I p = lo; p < lo + 31; p++) w = w << 1 | chip(p); for (I p = lo; p < hi; p++) { w = w << 1 | chip(p + 31); uint32_t v = x[p]; if (v != w) { MC_CK(c, false, eow ? "x2-eow" : "x2", "X2 at chip " << p << (eow ? " (end of week)" : "") << " is " << hx(v) << ", want " << hx(w)); break; } } c.eval(hi > lo ? hi - lo : 0); c.states(hi > lo ? hi - lo : 0); c.trans(hi > lo ? hi - lo : 0); }, 120);
  // six-second blocks
  static const int ZQ[] = {0, 4, 8, 201600, 403188, 403192, 403196};
  h.part("blocks", 210, [&](Ctx& c, u64 n) { int prn = n + 1, x = (prn - 1) / 37; std::vector<int> zs(ZQ, ZQ + 7); if (x) for (int d : {-8, -4, 0, 4}) zs.push_back((403200 + (7 - x) * 57600 + d) % 403200); zs.push_back((prn * 1916 + 4 * 37) % 403200 / 4 * 4); if (deep) for (int k = 0; k < 60; k++) zs.push_back(((prn * 97 + k * 6719) * 4) % 403200); CodeBuffer b(prn); for (int z : zs) { c.at("PRN " + std::to_string(prn)); SVPCodeGen g(prn, at(z % 8 ? WK : 1500, z)); g.getCurrentSixSeconds(b); c.eval(1); c.states(1); c.trans(NW); c.traces(1); MC_CK(c, b.getPRNID() == prn && b.getPYFlag() == P_CODE && b.getCurrentTime() == at(z % 8 ? WK : 1500, z), "buffer-status", "PRN " << prn << " Z-count " << z << ": buffer time/flag/PRN wrong"); cmp(c, b, prn, z, "block"); } }, 200);
  // a whole week for one satellite, a window of every block
  h.part("week", 1260, [&](Ctx& c, u64 n) { int prn = deep ? 1 + n % 37 : 1 + (n / 8) % 37; c.at("week scan"); CodeBuffer b(prn); SVPCodeGen g(prn, at(WK, (int)n * 320)); int step = deep ? 4 : 40; for (int k = 0; k < 80; k++) { int z = (n * 80 + k) * 4; if (k % step == 0) { g.getCurrentSixSeconds(b); c.eval(1); c.states(1); c.trans(1); cmp(c, b, prn, z, "week"); } g.increment4ZCounts(); } }, 600);
  // construction at any Z-count, refusals
  h.part("start", 212, [&](Ctx& c, u64 n) { int prn = (int)n; c.at("construction"); if (prn == 211) { for (int bad : {-1, 211, 1000}) { S t = thrown([&] { SVPCodeGen g(bad, at(WK, 0)); }); c.eval(1); MC_CK(c, t == "gpstk::Exception" || t == "Exception", "prn-range", "PRN " << bad << " gives '" << t << "'"); } return; } if (!prn) return; for (int z = (int)n * 1900 % 403200, k = 0; k < 9; k++, z = (z + 1) % 403200) for (double f : {0.0, 0.7, 1.4999}) { CommonTime t = at(WK, z) + f; SVPCodeGen g(prn, t); c.eval(1); c.states(1); MC_CK(c, g.getCurrentZCount() == at(WK, z / 4 * 4), "round-back", "PRN " << prn << " started at Z-count " << z << "+" << f << " s is at Z-count " << GPSWeekZcount(g.getCurrentZCount()).zcount); MC_CK(c, g.getCurrentZCount().getTimeSystem() == TimeSystem::GPS, "round-back-system", "time system lost"); GPSZcount q(WK, z); g.increment4ZCounts(); g.setCurrentZCount(q); MC_CK(c, g.getCurrentZCount() == at(WK, z / 4 * 4), "set-round-back", "setCurrentZCount(" << z << ") is at " << GPSWeekZcount(g.getCurrentZCount()).zcount); } c.trans(27); });
  // navigation histories: increment, set to one of five counts, get; both buffers
  { static const int NZ[] = {0, 402, 201603, 403196, 57600 * 5 + 57599}; h.part("navigate", deep ? 7 * 7 * 7 * 7 : 7 * 7 * 7, [&](Ctx& c, u64 n) { Mix m(n); int L = deep ? 4 : 3; std::vector<int> ops; for (int k = 0; k < L; k++) ops.push_back(m(7)); int prn = n % 3 == 0 ? 7 : n % 3 == 1 ? 60 : 37; c.at("navigation"); SVPCodeGen g(prn, at(WK, 403192)); CodeBuffer b(prn); I z = (I)WK * 403200 + 403192; bool last = false; S tr; for (int o : ops) { if (o == 0) { g.increment4ZCounts(); z += 4; tr += " +4"; last = false; } else if (o == 1) { g.getCurrentSixSeconds(b); tr += " get"; last = true; } else { g.setCurrentZCount(GPSZcount(WK, NZ[o - 2])); z = (I)WK * 403200 + NZ[o - 2] / 4 * 4; tr += " set"; last = false; } c.trans(1); MC_CK(c, g.getCurrentZCount() == at(z / 403200, z % 403200), "navigate-time", "after" << tr << " time is not Z-count " << z % 403200); } if (!last) g.getCurrentSixSeconds(b); c.eval(1); c.states(1); c.traces(1); cmp(c, b, prn, z % 403200, "navigate"); }, 120); }
  h.part("buffer", 32, [&](Ctx& c, u64 n) { c.at("code buffer"); CodeBuffer a(3), b(9), d(1); for (int k = 0; k < NW; k++) { a[k] = (uint32_t)(k * 2654435761u + n * 40503u); b[k] = (uint32_t)((k ^ 0x5bd1e995u) * 2246822519u); } a.updateBufferStatus(at(WK, 8), Y_CODE); d = a; a ^= b; const CodeBuffer& A = a; MC_CK(c, d.getPRNID() == 3 && d.getPYFlag() == Y_CODE && d.getCurrentTime() == at(WK, 8), "assign-status", "assigned buffer lost its status"); d.updateBufferStatus(BOTH); MC_CK(c, d.getPYFlag() == BOTH && d.getCurrentTime() == at(WK, 8) && a.getPYFlag() == Y_CODE, "flag", "flag update");
    for (int k = 0; k < NW; k++) { uint32_t va = (uint32_t)(k * 2654435761u + n * 40503u), w = va ^ (uint32_t)((k ^ 0x5bd1e995u) * 2246822519u); c.eval(1); MC_CK(c, A[k] == w, "xor", "word " << k << " of the combination is " << hx(A[k])); MC_CK(c, d[k] == va, "assign", "word " << k << " of the copy"); MC_CK(c, d.getBit((long)k * 32 + n) == (va >> (31 - n) & 1), "getBit", "bit " << n << " of word " << k << " = " << hx(va) << " is " << d.getBit((long)k * 32 + n)); } CodeBuffer& r = (d = d); MC_CK(c, &r == &d && d[5] == (uint32_t)(5 * 2654435761u + n * 40503u), "self-assign", "self assignment"); c.states(NW); c.trans(NW); }, 120);
  return h.run(argc, argv);
}
