// Independent GPS LNAV word builder (IS-GPS-200, 20.3.3 and 20.3.5.2); shared by several harnesses.
#pragma once
#include <cstdint>
#include <vector>
#include <cstring>
namespace lnav {
typedef std::vector<uint32_t> SF;   // ten 30-bit words, bit 1 of a word = bit 29
// parity of one word; d[1..24] source bits, D29*,D30* of the previous word (IS-GPS-200 Table 20-XIV, written as equations)
inline uint32_t parity(uint32_t data24, int D29, int D30) {
  auto b = [&](int i) { return (int)((data24 >> (24 - i)) & 1); };
  auto x = [&](std::initializer_list<int> l) { int s = 0; for (int i : l) s ^= b(i); return s; };
  int p25 = D29 ^ x({1,2,3,5,6,10,11,12,13,14,17,18,20,23});
  int p26 = D30 ^ x({2,3,4,6,7,11,12,13,14,15,18,19,21,24});
  int p27 = D29 ^ x({1,3,4,5,7,8,12,13,14,15,16,19,20,22});
  int p28 = D30 ^ x({2,4,5,6,8,9,13,14,15,16,17,20,21,23});
  int p29 = D30 ^ x({1,3,5,6,7,9,10,14,15,16,17,18,21,22,24});
  int p30 = D29 ^ x({3,5,6,8,9,10,11,13,15,19,22,23,24});
  return p25 << 5 | p26 << 4 | p27 << 3 | p28 << 2 | p29 << 1 | p30;
}
inline void put(SF& s, int start, int n, int64_t v) {          // bits numbered 1..300
  for (int k = 0; k < n; k++) { int bit = start + k - 1; int w = bit / 30, o = 29 - bit % 30; uint32_t m = 1u << o;
    if ((v >> (n - 1 - k)) & 1) s[w] |= m; else s[w] &= ~m; } }
inline uint64_t get(const SF& s, int start, int n) { uint64_t v = 0; for (int k = 0; k < n; k++) { int bit = start + k - 1; v = v << 1 | ((s[bit / 30] >> (29 - bit % 30)) & 1); } return v; }
// upright parity: data bits as transmitted source bits (no D30* complement in the stored word)
inline void seal(SF& s) {
  uint32_t prev = 0;
  for (int w = 0; w < 10; w++) {
    uint32_t d = (s[w] >> 6) & 0xFFFFFF; int D29 = prev >> 1 & 1, D30 = prev & 1;
    if (w == 1 || w == 9) for (int t = 0; t < 4; t++) { uint32_t dd = (d & ~3u) | t; if ((parity(dd, D29, D30) & 3) == 0) { d = dd; break; } }
    s[w] = d << 6 | parity(d, D29, D30); prev = s[w];
  }
}
inline SF blank(int id, long how) { SF s(10, 0); put(s, 1, 8, 0x8B); put(s, 9, 14, 0x1234); put(s, 31, 17, how / 6); put(s, 48, 2, 1); put(s, 50, 3, id); return s; }
struct Brc { int week10 = 0, codes = 1, ura = 2, health = 0, iodc = 0x55, l2p = 0, tgd = -5; long toc = 0, af2 = 0, af1 = -20, af0 = 1000;
  int iode = 0x55; long crs = 100, dn = 12000, m0 = 123456789, cuc = -300, ecc = 50000000L, cus = 5000, sqrta = 2702000000L, toe = 0; int fit = 0, aodo = 3;
  long cic = 20, om0 = -987654321L, cis = -30, i0 = 650000000L, crc = 8000, w = 555555555L, omd = -22000, idot = 100; };
inline SF sf1(const Brc& b, long how) { SF s = blank(1, how); put(s, 61, 10, b.week10); put(s, 71, 2, b.codes); put(s, 73, 4, b.ura); put(s, 77, 6, b.health); put(s, 83, 2, b.iodc >> 8);
  put(s, 91, 1, b.l2p); put(s, 197, 8, b.tgd); put(s, 211, 8, b.iodc); put(s, 219, 16, b.toc / 16); put(s, 241, 8, b.af2); put(s, 249, 16, b.af1); put(s, 271, 22, b.af0); seal(s); return s; }
inline SF sf2(const Brc& b, long how) { SF s = blank(2, how); put(s, 61, 8, b.iode); put(s, 69, 16, b.crs); put(s, 91, 16, b.dn); put(s, 107, 8, b.m0 >> 24); put(s, 121, 24, b.m0);
  put(s, 151, 16, b.cuc); put(s, 167, 8, b.ecc >> 24); put(s, 181, 24, b.ecc); put(s, 211, 16, b.cus); put(s, 227, 8, b.sqrta >> 24); put(s, 241, 24, b.sqrta); put(s, 271, 16, b.toe / 16);
  put(s, 287, 1, b.fit); put(s, 288, 5, b.aodo); seal(s); return s; }
inline SF sf3(const Brc& b, long how) { SF s = blank(3, how); put(s, 61, 16, b.cic); put(s, 77, 8, b.om0 >> 24); put(s, 91, 24, b.om0); put(s, 121, 16, b.cis); put(s, 137, 8, b.i0 >> 24);
  put(s, 151, 24, b.i0); put(s, 181, 16, b.crc); put(s, 197, 8, b.w >> 24); put(s, 211, 24, b.w); put(s, 241, 24, b.omd); put(s, 271, 8, b.iode); put(s, 279, 14, b.idot); seal(s); return s; }
}
