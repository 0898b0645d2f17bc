// MC-SAN: assert
// MC-RULE: byte layouts equal the defined byte order; CRC equals the remainder of polynomial long division
// MC-ASSUME: strings passed to decodeVar are long enough, as documented ; xorChecksum word size is at least 1
#include <memory>
#include <map>
#include <unistd.h>
#include "mc.hpp"
#include "BinUtils.hpp"
#include "FFBinaryStream.hpp"
using namespace gpstk; using namespace gpstk::BinUtils; using namespace mc;
typedef std::string S;
template <class T> static S ref(T v, bool le) { unsigned char b[sizeof(T)]; memcpy(b, &v, sizeof(T)); S s((char*)b, sizeof(T)); 
  // host order is established from arithmetic, not assumed
  uint16_t one = 1; bool hostLE = *(unsigned char*)&one == 1; if (hostLE != le) std::reverse(s.begin(), s.end()); return s; }
template <class T> static bool same(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0; }
static S hex(const S& s) { S r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; } return r; }
template <class T> static void check(Ctx& c, T v, const char* nm, void (*ito)(const void*, T&, unsigned), void (*nto)(const void*, T&, unsigned), void (*hto)(void*, T, unsigned), void (*htn)(void*, T, unsigned)) {
  S L = ref(v, true), B = ref(v, false); size_t n = sizeof(T); c.eval(); auto key = [&](const char* k) { return S(k) + ":" + nm; };
  S e = encodeVar(v), el = encodeVarLE(v);
  if (e != B) c.fail(key("encodeVar"), hex(B) + " -> " + hex(e)); if (el != L) c.fail(key("encodeVarLE"), hex(L) + " -> " + hex(el));
  for (size_t pos : {size_t(0), size_t(1), size_t(3)}) {
    S pad = S(pos, '\xa5'), tail = "\x5a\xc3"; S sb = pad + B + tail, sl = pad + L + tail;
    if (!same(decodeVar<T>(sb, pos), v)) c.fail(key("decodeVar"), hex(sb)); if (!same(decodeVarLE<T>(sl, pos), v)) c.fail(key("decodeVarLE"), hex(sl));
    S w = pad + S(n, '\x11') + tail, w2 = w; encodeVar(v, w, pos); encodeVarLE(v, w2, pos); if (w != sb) c.fail(key("encodeVar-at"), hex(w) + " want " + hex(sb)); if (w2 != sl) c.fail(key("encodeVarLE-at"), hex(w2) + " want " + hex(sl));
    S g = pad, g2 = pad; encodeVar(v, g, pos); encodeVarLE(v, g2, pos); if (g != pad + B || g2 != pad + L) c.fail(key("encodeVar-append"), hex(g) + " " + hex(g2));
    if (ito) { T r; memset(&r, 0x77, n); ito(sl.data(), r, pos); if (!same(r, v)) c.fail(key("buito"), hex(sl) + " pos " + std::to_string(pos)); memset(&r, 0x77, n); nto(sb.data(), r, pos); if (!same(r, v)) c.fail(key("bunto"), hex(sb));
      S o = pad + S(n, '\x11') + tail, o2 = o; hto(&o[0], v, pos); htn(&o2[0], v, pos); if (o != sl) c.fail(key("buhtoi"), hex(o) + " want " + hex(sl)); if (o2 != sb) c.fail(key("buhton"), hex(o2) + " want " + hex(sb)); }
  }
  S d = B + "xy", dl = L + "z"; if (!same(decodeVar<T>(d), v) || d != "xy") c.fail(key("decodeVar-head"), hex(d)); if (!same(decodeVarLE<T>(dl), v) || dl != "z") c.fail(key("decodeVarLE-head"), hex(dl));
}
template <class T> static T from(u64 b) { T v; memcpy(&v, &b, sizeof(T)); return v; }
static void all16(Ctx& c, u64 b) { check<uint16_t>(c, from<uint16_t>(b), "uint16", buitohs, buntohs, buhtois, buhtons); check<int16_t>(c, from<int16_t>(b), "int16", buitohss, buntohss, buhtoiss, buhtonss); }
static void all32(Ctx& c, u64 b) { check<uint32_t>(c, from<uint32_t>(b), "uint32", buitohl, buntohl, buhtoil, buhtonl); check<int32_t>(c, from<int32_t>(b), "int32", buitohsl, buntohsl, buhtoisl, buhtonsl); check<float>(c, from<float>(b), "float", buitohf, buntohf, buhtoif, buhtonf); }
static void all64(Ctx& c, u64 b) { check<uint64_t>(c, b, "uint64", buitohll, buntohll, buhtoill, buhtonll); check<int64_t>(c, from<int64_t>(b), "int64", buitohsll, buntohsll, buhtoisll, buhtonsll); check<double>(c, from<double>(b), "double", buitohd, buntohd, buhtoid, buhtond); }
// CRC by long division over GF(2): (init*x^n (+order when not direct) + M*x^order) mod P
static uint32_t crcRef(const S& m, const CRCParam& p) {
  int n = 8 * m.size(), o = p.order; std::vector<char> a(n + o + (p.direct ? 0 : o), 0);   // highest power first
  size_t off = p.direct ? 0 : o; a.resize(n + o + off);
  for (int i = 0; i < n; i++) { int k = p.refin ? i % 8 : 7 - i % 8; a[off + i] ^= ((unsigned char)m[i / 8] >> k) & 1; }
  for (int i = 0; i < o; i++) { bool bit = (p.initial >> (o - 1 - i)) & 1; if (bit) a[i] ^= 1; }      // direct: top of message ; not direct: o further ahead
  for (size_t i = 0; i + o < a.size(); i++) if (a[i]) { a[i] = 0; for (int k = 0; k < o; k++) a[i + 1 + k] ^= (p.polynom >> (o - 1 - k)) & 1; }
  uint32_t r = 0; for (int i = 0; i < o; i++) r = (r << 1) | (a[a.size() - o + i] & 1);
  if (p.refout) { uint32_t q = 0; for (int i = 0; i < o; i++) if (r >> i & 1) q |= uint32_t(1) << (o - 1 - i); r = q; }
  uint64_t mask = (uint64_t(1) << o) - 1; return (r ^ p.final) & mask; }
static std::vector<std::pair<S, CRCParam>> params() { std::vector<std::pair<S, CRCParam>> v = {{"CCITT", CRCCCITT}, {"CRC16", CRC16}, {"CRC32", CRC32}, {"CRC24Q", CRC24Q}};
  for (int o = 1; o <= 32; o++) for (int f = 0; f < 8; f++) { u64 mk = (u64(1) << o) - 1; for (u64 p : {u64(1), u64(0x04c11db7), u64(0x8005), mk}) for (u64 in : {u64(0), mk, u64(0x5a5a5a5a)}) v.push_back({"order" + std::to_string(o), CRCParam(o, p & mk, in & mk, f & 1 ? mk : (0x12345678 & mk), f & 1, f & 2, f & 4)}); }
  return v; }
struct BS : FFBinaryStream { bool le; BS(const char* f, std::ios::openmode m, bool l) : FFBinaryStream(f, m), le(l) {} bool isStreamLittleEndian() const throw() { return le; } };

int main(int argc, char** argv) {
  Harness h("C09");
  h.part("bytes16", 256, [&](Ctx& c, u64 i) { for (u64 k = 0; k < 256; k++) all16(c, i << 8 | k); });
  h.part("bytes32", 256, [&](Ctx& c, u64 i) { for (u64 k = 0; k < 256; k++) { all32(c, (i << 8 | k) << 16 | 0x0180); all32(c, 0xff7f0000u | (i << 8 | k)); all32(c, (i << 8 | k) * 0x10001u ^ 0xffff); } });
  h.part("bytes64", 4096, [&](Ctx& c, u64 i) { static const u64 A[] = {0x00, 0x01, 0x7f, 0x80, 0xff, 0x5a, 0x12, 0xf0}; // 8^4 heads x 8 tails
    u64 hi = 0; for (int k = 0, t = i; k < 4; k++, t /= 8) hi = hi << 8 | A[t % 8]; for (u64 k = 0; k < 8; k++) { u64 lo = A[k] << 24 | A[(k + 3) % 8] << 16 | A[(k * 3 + 1) % 8] << 8 | A[(i + k) % 8]; all64(c, hi << 32 | lo); all64(c, lo << 32 | hi); all32(c, hi); } });
  h.part("bytes8", 256, [&](Ctx& c, u64 i) { c.eval(); check<uint8_t>(c, i, "uint8", 0, 0, 0, 0); check<int8_t>(c, (int8_t)i, "int8", 0, 0, 0, 0); });
  h.part("countBits", 4096, [&](Ctx& c, u64 i) { uint32_t base = i << 20; for (uint32_t k = 0; k < (1u << 20); k++) { if (countBits(base | k) != __builtin_popcount(base | k)) { c.fail("countBits", std::to_string(base | k)); break; } } c.eval(1 << 20); }, 120);
  h.part("reflect", 32, [&](Ctx& c, u64 i) { int n = i + 1; u64 mk = (u64(1) << n) - 1; auto ck = [&](u64 v) { u64 w = 0; for (int k = 0; k < n; k++) if (v >> k & 1) w |= u64(1) << (n - 1 - k); c.eval(); u64 g = reflect(v, n); if (g != w) c.fail("reflect", std::to_string(v) + " over " + std::to_string(n)); if (reflect(g, n) != (v & mk)) c.fail("reflect-twice", std::to_string(v)); };
    for (u64 v = 0; v < (u64(1) << std::min(n + 1, 16)); v++) { ck(v); ck(v << (n > 16 ? n - 16 : 0)); ck(~v); } });
  auto P = params();
  h.part("crc", P.size(), [&](Ctx& c, u64 i) { const CRCParam& p = P[i].second; c.at(P[i].first); auto ck = [&](const S& m) { c.eval(); uint32_t g = computeCRC((const unsigned char*)m.data(), m.size(), p), w = crcRef(m, p); if (g != w) { std::ostringstream o; o << P[i].first << " order " << p.order << " of " << hex(m) << " gives " << std::hex << g << " want " << w; c.fail("crc", o.str()); } c.outcome(hstr(P[i].first) ^ g); };
    ck(""); for (int a = 0; a < 256; a++) ck(S(1, a)); if (i < 4) { for (int a = 0; a < 65536; a++) ck(S(1, a >> 8) + S(1, a & 255)); static const unsigned char A[] = {0, 1, 0x80, 0xff, 0x55};
      int L = h.thorough ? 7 : 5; u64 N = 1; for (int l = 0; l < L; l++) N *= 5; for (u64 q = 0; q < N; q++) { S m; for (u64 t = q, l = 0; l < (u64)L; l++, t /= 5) m += char(A[t % 5]); ck(m); } }
    else for (int a = 0; a < 64; a++) ck(S(1, a * 37) + S(1, a * 11 + 5) + S(1, 255 - a)); });
  // every single-bit, double-bit and burst error up to the order changes the CRC of the three standard sets
  h.part("crc-detect", 3, [&](Ctx& c, u64 i) { const CRCParam& p = P[i].second; for (int len : {1, 2, 8, 20}) { S m; for (int k = 0; k < len; k++) m += char(k * 77 + 3); uint32_t g = computeCRC((const unsigned char*)m.data(), len, p); auto fl = [&](S s, int b) { s[b / 8] ^= 1 << (b % 8); return s; }; auto crc = [&](const S& s) { c.eval(); return computeCRC((const unsigned char*)s.data(), s.size(), p); };
      for (int a = 0; a < 8 * len; a++) { MC_CK(c, crc(fl(m, a)) != g, "crc-single", hex(m) << " bit " << a); for (int b = a + 1; b < 8 * len; b++) MC_CK(c, crc(fl(fl(m, a), b)) != g, "crc-double", hex(m) << " bits " << a << "," << b); } } });
  h.part("crc-standard", 4, [&](Ctx& c, u64 i) { static const uint32_t W[] = {0x29B1, 0xBB3D, 0xCBF43926, 0xCDE703}; static const char* N[] = {"CRCCCITT", "CRC16", "CRC32", "CRC24Q"}; c.eval(); const char* m = "123456789"; uint32_t g = computeCRC((const unsigned char*)m, 9, P[i].second); MC_CK(c, g == W[i], S("standard-") + N[i], N[i] << " of \"123456789\" gives " << std::hex << g << ", published check value " << W[i]); });
  h.part("xor", 5, [&](Ctx& c, u64 i) { unsigned w = i + 1; static const unsigned char A[] = {0, 1, 0x80, 0xff}; for (int len = 0; len <= (h.thorough ? 9 : 7); len++) { u64 N = u64(1) << (2 * len); for (u64 q = 0; q < N; q++) { S m; for (int k = 0; k < len; k++) m += char(A[q >> (2 * k) & 3] + (k == 2)); c.eval(); S g; S ex = len % w || q % 16 == 0 ? thrown([&] { g = xorChecksum(m, w); }) : (g = xorChecksum(m, w), S());
          if (len % w) { if (ex.empty()) c.fail("xor-partial", hex(m)); if (q > 40) break; continue; } S r(w, 0); for (int k = 0; k < len; k++) r[k % w] ^= m[k]; if (!ex.empty() || g != r) c.fail("xor", hex(m) + " words of " + std::to_string(w) + " -> " + hex(g) + " want " + hex(r)); } } });
  // binary streams: every order of typed writes to the depth bound, read back and byte layout
  h.part("streams", 2 * 10 * 10, [&](Ctx& c, u64 i) { Mix m(i); bool le = m(2); int a = m(10), b = m(10); char fn[64]; snprintf(fn, 64, "/tmp/mcC09_%d_%d", (int)getpid(), (int)i);
    static const u64 V[] = {0, 0x0102030405060708ull, 0xfffefdfcfbfaf9f8ull, 0x8000000000000000ull, 0x7fffffffffffffffull};
    for (int cc = 0; cc < 10; cc++) for (int vi = 0; vi < (h.thorough ? 5 : 2); vi++) { int seq[3] = {a, b, cc}; S want; c.eval(); c.trans(3);
      { BS s(fn, std::ios::out | std::ios::binary | std::ios::trunc, le); for (int k = 0; k < 3; k++) { u64 v = V[(vi + k + 1) % 5];
#define W(N, T) case N: s.writeData(from<T>(v)); want += ref(from<T>(v), le); break;
        switch (seq[k]) { W(0, uint8_t) W(1, uint16_t) W(2, uint32_t) W(3, uint64_t) W(4, int8_t) W(5, int16_t) W(6, int32_t) W(7, int64_t) W(8, float) W(9, double) } } s.close(); }
      S got; { FILE* f = fopen(fn, "rb"); char bf[64]; size_t n = f ? fread(bf, 1, 64, f) : 0; got.assign(bf, n); if (f) fclose(f); } if (got != want) { c.fail("stream-bytes", hex(got) + " want " + hex(want)); unlink(fn); return; }
      BS s(fn, std::ios::in | std::ios::binary, le); for (int k = 0; k < 3; k++) { u64 v = V[(vi + k + 1) % 5]; bool ok = false;
#define R(N, T) case N: { T x; s.getData(x); ok = same(x, from<T>(v)); break; }
        switch (seq[k]) { R(0, uint8_t) R(1, uint16_t) R(2, uint32_t) R(3, uint64_t) R(4, int8_t) R(5, int16_t) R(6, int32_t) R(7, int64_t) R(8, float) R(9, double) } if (!ok) { c.fail("stream-read", "type " + std::to_string(seq[k]) + " from " + hex(want)); unlink(fn); return; } }
      uint32_t x; S ex = thrown([&] { s.getData(x); }); if (ex.empty() && s.good()) c.fail("stream-end", "reading past the end succeeded"); }
    unlink(fn); });
  return h.run(argc, argv);
}
