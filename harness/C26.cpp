// C26 BINEX: variable-length integers, message fields, records and streams against a byte-level model, and every single-byte fault of a set of records
// MC-SAN: asan assert
// MC-RULE: integer = stated bytes ; message = concatenation of its fields ; record = sync, id, length, message, checksum (tail: reversed total length, tail sync) ; a fault in message, checksum, id bits or tail is refused
// MC-ASSUME: messages below 2^20 bytes (beyond that the 128-bit checksum is a known finding) ; fields shorter than their type hold non-negative values ; the polynomial of the 16/32 bit checksums is not judged, only what they detect
#include <algorithm>
#include <array>
#include <cstdarg>
#include <map>
#include <memory>
#include <sstream>
#include "mc.hpp"
#include "BinexData.hpp"
#include "BinexStream.hpp"
using namespace gpstk; using namespace mc; typedef std::string S; typedef BinexData B; typedef B::UBNXI U; typedef B::MGFZI M;
static S hex(const S& s, size_t n = 24) { S o; char b[4]; for (size_t i = 0; i < s.size() && i < n; i++) { snprintf(b, 4, "%02x", (unsigned char)s[i]); o += b; } if (s.size() > n) o += "..(" + std::to_string(s.size()) + ")"; return o; }
static S rev(S s) { std::reverse(s.begin(), s.end()); return s; }
static bool threw(const S& t) { return !t.empty(); }
// ---- byte model
static int un(u64 v) { return v < 128 ? 1 : v < 16384 ? 2 : v < 2097152 ? 3 : 4; }
static S ub(u64 v, bool le) { int n = un(v); S s(n, 0); if (le) { for (int i = 0; i < n; i++) s[i] = i == 3 ? (v >> 21) & 0xff : (v >> 7 * i & 0x7f) | (i + 1 < n ? 0x80 : 0); }
  else { int last = n == 4 ? 8 : 7; s[n - 1] = v & ((1 << last) - 1); v >>= last; for (int i = n - 2; i >= 0; i--) { s[i] = (v & 0x7f) | 0x80; v >>= 7; } } return s; }
// what a byte string means as an unsigned integer: size 0 when it is truncated
static int udec(const S& s, size_t o, bool le, u64& v) { v = 0; for (int i = 0; i < 4; i++) { if (o + i >= s.size()) return 0; u64 b = (unsigned char)s[o + i]; u64 m = i == 3 ? b : b & 0x7f; if (le) v |= m << 7 * i; else v = v << (i == 3 ? 8 : 7) | m; if (i == 3 || !(b & 0x80)) return i + 1; } return 0; }
static const i64 OFF[9] = {0, 0, 14, 4109, 1052684, 269488139, 68988964874LL, 17661175009289LL, 4521260802379784LL};
static const i64 MMAX = 1157442765409226759LL;
static int mn(i64 v) { u64 a = v < 0 ? 0 - (u64)v : v; int n = 1; while (n < 8 && a > (u64)(n == 1 ? 15 : OFF[n + 1])) n++; return n; }
static S mb(i64 v, bool le) { int n = mn(v); u64 a = (v < 0 ? -v : v) - OFF[n]; S s(n, 0); u64 sg = v < 0; if (le) { u64 x = a << 4 | sg << 3 | (n - 1); for (int i = 0; i < n; i++) s[i] = x >> 8 * i; } else { u64 x = sg << (8 * n - 1) | (u64)(n - 1) << (8 * n - 4) | a; for (int i = 0; i < n; i++) s[n - 1 - i] = x >> 8 * i; } return s; }
static void ckU(Ctx& c, u64 v, bool le, bool full) {
  c.states(1); S want = ub(v, le); auto d = [&] { return "UBNXI " + std::to_string(v) + (le ? " LE" : " BE"); };
  U u(v); S e = "ab"; size_t n = u.encode(e, full ? 1 : 2, le); if (full) want = "a" + want; else want = "ab" + want; bool ok = n == (size_t)un(v) && e == want && u.getSize() == n && (unsigned long)u == v; c.eval(2);
  MC_CK(c, ok, "ubnxi-encode", d() << " is " << hex(e) << " want " << hex(want)); if (!ok) return; size_t o = full ? 1 : 2;
  U r; size_t m = r.decode(e, o, le); MC_CK(c, m == n && r == u && (unsigned long)r == v && r.getSize() == n, "ubnxi-decode", d() << " decodes to " << (unsigned long)r << " from " << hex(e));
  if (!full) return; S bytes = e.substr(1);
  for (size_t k = 0; k < n; k++) { S t = e.substr(0, 1 + k); U q; MC_CK(c, thrown([&] { q.decode(t, 1, le); }) == "FFStreamError", "ubnxi-truncated", d() << " cut to " << k << " bytes is accepted as " << (unsigned long)q); std::stringstream ss(bytes.substr(0, k)); MC_CK(c, thrown([&] { q.read(ss, 0, 0, false, le); }) == "FFStreamError", "ubnxi-read-truncated", d() << " cut to " << k << " bytes is read"); c.trans(2); }
  MC_CK(c, threw(thrown([&] { U q; q.decode(e, e.size() + 1, le); })) && threw(thrown([&] { S z = "x"; u.encode(z, 2, le); })), "ubnxi-offset", d() << " accepts an offset outside of the buffer");
  std::stringstream ss; S copy = "qq"; MC_CK(c, u.write(ss, &copy, 2, false, le) == n && ss.str() == bytes && copy == "qq" + bytes, "ubnxi-write", d() << " writes " << hex(ss.str())); ss << "tail"; S in = "z"; U q; MC_CK(c, q.read(ss, &in, 1, false, le) == n && q == u && q.getSize() == n && in == "z" + bytes && ss.tellg() == (std::streamoff)n, "ubnxi-read", d() << " reads back " << (unsigned long)q);
  std::stringstream sr; MC_CK(c, u.write(sr, 0, 0, true, le) == n && sr.str() == rev(bytes), "ubnxi-write-reverse", d() << " reversed writes " << hex(sr.str()));
  U cp(u); U as; as = u; U o1(v ? v - 1 : v + 1); MC_CK(c, cp == u && as == u && cp.getSize() == n && as.getSize() == n && cp != o1 && !(cp == o1) && (cp < o1) == (v == 0) && (cp > o1) == (v != 0) && cp <= as && cp >= as, "ubnxi-copy", d() << " copy or comparison");
}
static void ckM(Ctx& c, i64 v, bool le, bool full) {
  c.states(1); S b = mb(v, le), want = "ab" + b; auto d = [&] { return "MGFZI " + std::to_string(v) + (le ? " LE" : " BE"); };
  M u(v); S e = "ab"; size_t n = u.encode(e, 2, le); c.eval(2); bool ok = n == (size_t)mn(v) && e == want && u.getSize() == n && (long long)u == v;
  MC_CK(c, ok, "mgfzi-encode", d() << " is " << hex(e) << " want " << hex(want)); if (!ok) return;
  M r; size_t m = r.decode(e, 2, le); MC_CK(c, m == n && (long long)r == v && r == u && r.getSize() == n, "mgfzi-decode", d() << " decodes to " << (long long)r);
  if (!full) return;
  for (size_t k = 0; k < n; k++) { S t = e.substr(0, 2 + k); if (k) MC_CK(c, thrown([&] { M q; q.decode(t, 2, le); }) == "FFStreamError", "mgfzi-truncated", d() << " cut to " << k << " bytes is accepted"); std::stringstream ss(b.substr(0, k)); MC_CK(c, thrown([&] { M q; q.read(ss, 0, 0, false, le); }) == "FFStreamError", "mgfzi-read-truncated", d() << " cut to " << k << " bytes is read"); c.trans(2); }
  MC_CK(c, threw(thrown([&] { M q; q.decode(e, e.size() + 1, le); })) && threw(thrown([&] { S z = "x"; u.encode(z, 2, le); })), "mgfzi-offset", d() << " accepts an offset outside of the buffer");
  std::stringstream ss; S copy = "qq"; MC_CK(c, u.write(ss, &copy, 2, false, le) == n && ss.str() == b && copy == "qq" + b, "mgfzi-write", d() << " writes " << hex(ss.str())); ss << "tail-of-more"; S in = "z"; M q; size_t got = 0; S t = thrown([&] { got = q.read(ss, &in, 1, false, le); }); MC_CK(c, t.empty() && got == n && q == u && q.getSize() == n && in == "z" + b && ss.tellg() == (std::streamoff)n, "mgfzi-read", d() << " reads back " << (long long)q << " " << t);
  std::stringstream sr; MC_CK(c, u.write(sr, 0, 0, true, le) == n && sr.str() == rev(b), "mgfzi-write-reverse", d() << " reversed writes " << hex(sr.str()));
  M cp(u); M as; as = u; M o1(v > 0 ? v - 1 : v + 1); MC_CK(c, cp == u && as == u && cp.getSize() == n && as.getSize() == n && cp != o1 && !(cp == o1) && (cp < o1) == (v <= 0) && (cp > o1) == (v > 0) && cp <= as && cp >= as, "mgfzi-copy", d() << " copy or comparison");
}
// ---- message fields: kind k with value index j
struct Fld { int kind; u64 v; int size; };
template <class T> static S raw(T v, int size, bool le) { S s((const char*)&v, size); return le ? s : rev(s); }
static const u64 UV[] = {0, 127, 128, 16383, 16384, 2097151, 2097152, 536870911}; static const i64 MV[] = {0, -15, 15, 16, -4109, 4110, -1052684, 269488140, -68988964875LL, 17661175009290LL, MMAX, -MMAX, 1};
static std::vector<Fld> fields(bool thorough) { std::vector<Fld> f; for (int i = 0; i < 8; i += thorough ? 1 : 2) f.push_back({0, UV[i], 0}); for (int i = 0; i < 13; i += thorough ? 1 : 3) f.push_back({1, (u64)MV[i], 0});
  f.push_back({2, 0xfe, 1}); for (u64 s = 1; s <= 2; s++) f.push_back({3, s == 1 ? 0x85u : 0x8512u, (int)s}); for (u64 s = 1; s <= 4; s++) f.push_back({4, 0xf1a2b3c4u & (0xffffffffu >> (32 - 8 * s)), (int)s}); for (u64 s : {3, 5, 7, 8}) f.push_back({5, 0x91a2b3c4d5e6f708ULL & (~0ULL >> (64 - 8 * s)), (int)s}); f.push_back({6, (u64)-123456789, 4}); f.push_back({7, 0, 8}); f.push_back({8, 0, 4}); f.push_back({9, 7, 7}); f.push_back({9, 0, 0}); f.push_back({10, 5, 3}); return f; }
static const double DV = -1234.5678e-20; static const float FV = 3.25e20f; static const S TXT = "BINEX\0x", RAWT = S("q\0\xff\x80z", 5);
static S fb(const Fld& f, bool le) { switch (f.kind) { case 0: return ub(f.v, le); case 1: return mb(f.v, le); case 2: return raw((unsigned char)f.v, 1, le); case 3: return raw((uint16_t)f.v, f.size, le); case 4: return raw((uint32_t)f.v, f.size, le); case 5: return raw((uint64_t)f.v, f.size, le); case 6: return raw((int32_t)f.v, 4, le); case 7: return raw(DV, 8, le); case 8: return raw(FV, 4, le); case 9: return S("BINEX\0x", 7).substr(0, f.size); default: return RAWT.substr(0, f.size); } }
static void put(B& r, size_t& o, const Fld& f) { switch (f.kind) { case 0: r.updateMessageData(o, U(f.v)); break; case 1: r.updateMessageData(o, M((i64)f.v)); break; case 2: r.updateMessageData(o, (unsigned char)f.v, 1); break; case 3: r.updateMessageData(o, (uint16_t)f.v, f.size); break; case 4: r.updateMessageData(o, (uint32_t)f.v, f.size); break; case 5: r.updateMessageData(o, (uint64_t)f.v, f.size); break; case 6: r.updateMessageData(o, (int32_t)f.v, 4); break; case 7: r.updateMessageData(o, DV, 8); break; case 8: r.updateMessageData(o, FV, 4); break; case 9: r.updateMessageData(o, S("BINEX\0x", 7), f.size); break; default: r.updateMessageData(o, RAWT.data(), f.size); } }
template <class T> static bool eq(B& r, size_t& o, T v, int size) { T x; std::memset(&x, 0x5a, sizeof x); r.extractMessageData(o, x, size); return std::memcmp(&x, &v, sizeof x) == 0; }
static bool get(B& r, size_t& o, const Fld& f) { switch (f.kind) { case 0: { U u; r.extractMessageData(o, u); return (unsigned long)u == f.v; } case 1: { M u; r.extractMessageData(o, u); return (long long)u == (i64)f.v; } case 2: return eq(r, o, (unsigned char)f.v, 1); case 3: return eq(r, o, (uint16_t)f.v, f.size); case 4: return eq(r, o, (uint32_t)f.v, f.size); case 5: return eq(r, o, (uint64_t)f.v, f.size); case 6: return eq(r, o, (int32_t)f.v, 4); case 7: return eq(r, o, DV, 8); case 8: return eq(r, o, FV, 4); default: { S s = "old"; r.extractMessageData(o, s, (size_t)f.size); return s == fb(f, true); } } }
// ---- records
static const int FL[8] = {0, 0x10, 0x20, 0x30, 0x08, 0x18, 0x28, 0x38};
static S msgOf(size_t n, int seed) { S m(n, 0); u64 x = seed * 7919 + 1; for (auto& ch : m) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; ch = x >> 56; } return m; }
static B recOf(int flags, u64 id, const S& m) { B r((B::RecordID)id, (B::SyncByte)flags); size_t o = 0; r.updateMessageData(o, m, m.size()); return r; }
static int crcLen(int flags, size_t n) { return n >= 1048576 ? 16 : flags & 8 ? (n < 128 ? 2 : 4) : n < 128 ? 1 : n < 4096 ? 2 : 4; }
static int headSync(int flags) { return 0xC0 | (flags & 0x38) | (flags & 8 ? 0 : 2); }
static int tailSync(int flags) { int h = headSync(flags), t = 0; for (int i = 0; i < 8; i++) if (~h >> i & 1) t |= 0x80 >> i; switch (h) { case 0xD2: return 0xB4; case 0xF2: return 0xB0; case 0xD8: return 0xE4; case 0xF8: return 0xE0; } return t; }
// checks the written bytes; returns false if unusable
static bool layout(Ctx& c, const S& d, const S& b, int flags, u64 id, const S& m) {
  bool le = !(flags & 0x20); S head(1, (char)headSync(flags)); head += ub(id, le) + ub(m.size(), le); int cl = crcLen(flags, head.size() - 1 + m.size()); S tail; if (flags & 0x10) { tail = rev(ub(head.size() + m.size() + cl, le)); tail += (char)tailSync(flags); }
  size_t n = head.size() + m.size() + cl + tail.size(); c.eval(1); bool ok = b.size() == n && b.substr(0, head.size()) == head && b.substr(head.size(), m.size()) == m && b.substr(n - tail.size()) == tail;
  MC_CK(c, ok, "layout", d << " is written as " << hex(b) << ", want " << n << " bytes, head " << hex(head) << " tail " << hex(tail)); if (ok && cl == 1) { int x = 0; for (size_t i = 1; i < head.size() + m.size(); i++) x ^= (unsigned char)b[i]; MC_CK(c, (unsigned char)b[head.size() + m.size()] == x, "checksum", d << " has the checksum " << (int)(unsigned char)b[head.size() + m.size()] << ", want " << x); } return ok;
}
static S same(const B& r, int flags, u64 id, const S& m) { if (r.getRecordID() != id) return "id " + std::to_string(r.getRecordID()); if (r.getRecordFlags() != flags) return "flags " + std::to_string(r.getRecordFlags()); if (r.getMessageLength() != m.size()) return "length " + std::to_string(r.getMessageLength()); S x; size_t o = 0; r.extractMessageData(o, x, m.size()); return x == m ? "" : "message " + hex(x); }
static S rd(B& r, std::istream& s, size_t* n = 0) { size_t k = 0; S t = thrown([&] { k = r.getRecord(s); }); if (n) *n = k; return t; }
int main(int argc, char** argv) {
  Harness h("C26"); const bool T = h.thorough;
  // (a) integers
  { const u64 span = T ? 2048 : 256; static std::vector<u64> base; for (u64 b : {0ULL, 128ULL, 16384ULL, 2097152ULL, 536870911ULL}) base.push_back(b);
    for (int i = 3; i < 29; i++) base.push_back(1ULL << i); h.part("unsigned integer around every boundary", base.size(), [span](Ctx& c, u64 i) { for (u64 k = 0; k < 2 * span; k++) { i64 v = (i64)base[i] - (i64)span + (i64)k; if (v < 0) continue; if (v > 536870911) { MC_CK(c, thrown([&] { U u((unsigned long)v); }) == "FFStreamError", "ubnxi-overflow", v << " is accepted"); continue; } ckU(c, v, false, k % 8 == 0 || k > 2 * span - 300); ckU(c, v, true, k % 8 == 0); } });
    h.part("unsigned integer values", 4096, [T](Ctx& c, u64 i) { u64 lo = i << 17; u64 step = T ? 1 : 509; for (u64 v = lo; v < lo + (1 << 17); v += step) { ckU(c, v, false, false); ckU(c, v, true, false); } }, 600);
    h.part("unsigned integer overflow", 36, [](Ctx& c, u64 i) { u64 v = i < 35 ? (1ULL << (29 + i)) : ~0ULL; for (u64 w : {v, v - (i ? 1 : 0), v + (i < 35)}) { c.eval(1); MC_CK(c, thrown([&] { U u((unsigned long)w); }) == "FFStreamError", "ubnxi-overflow", w << " is accepted"); } });
    h.part("unsigned integer from any bytes", 65536 / 16, [](Ctx& c, u64 i) { static const unsigned char tailb[5] = {0, 0x7f, 0x80, 0xff, 0x35}; for (int a = 0; a < 16; a++) for (int l = 1; l <= 5; l++) for (int t = 0; t < 25; t++) { S s; s += (char)((i * 16 + a) >> 8); s += (char)((i * 16 + a) & 255); s += (char)tailb[t % 5]; s += (char)tailb[t / 5]; s += 'E'; s.resize(l); for (int le = 0; le < 2; le++) { u64 v; int n = udec(s, 0, le, v); c.eval(1); U u; size_t k = 0; if (n == 0 && (t || (i & 63))) continue; S e = thrown([&] { k = u.decode(s, 0, le); }); MC_CK(c, n ? e.empty() && k == (size_t)n && (unsigned long)u == v : e == "FFStreamError", "ubnxi-any", hex(s) << (le ? " LE" : " BE") << " decodes to " << (unsigned long)u << " " << e << " want " << v << " of " << n << " bytes"); } } });
    static std::vector<i64> mbase; for (int n = 2; n <= 8; n++) { mbase.push_back(OFF[n]); mbase.push_back(n < 8 ? (1LL << (8 * n - 4)) : (1LL << 59)); } mbase.push_back(0); mbase.push_back(MMAX); for (int i = 4; i < 61; i++) mbase.push_back(1LL << i);
    h.part("signed integer around every boundary", mbase.size() * 2, [span](Ctx& c, u64 i) { i64 b = mbase[i / 2]; for (u64 k = 0; k < 2 * span; k++) { i64 v = b - (i64)span + (i64)k; if (v < 0) continue; if (v > MMAX) { i64 w = i & 1 ? -v : v; c.eval(1); if (k % 16 == 0 || v == MMAX + 1) MC_CK(c, thrown([&] { M m((long long)w); }) == "FFStreamError", "mgfzi-overflow", w << " is accepted"); continue; } if (i & 1) v = -v; ckM(c, v, false, k % 8 == 0); ckM(c, v, true, k % 8 == 0); } });
    h.part("signed integer values", 1024, [T](Ctx& c, u64 i) { u64 n = T ? 65536 : 1024; u64 x = i * 0x9e3779b97f4a7c15ULL + 12345; for (u64 k = 0; k < n; k++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; int bits = (i * n + k) % 60; i64 v = (i64)((x >> 4) & ((2ULL << bits) - 1)); if (v > MMAX) v = MMAX - (v & 0xffff); if (x >> 63) v = -v; ckM(c, v, k & 1, false); } }, 600);
    h.part("signed integer extremes and no-value", 8, [](Ctx& c, u64 i) { bool le = i & 1; c.eval(4); for (i64 v : {(i64)(1ULL << 63), (i64)(1ULL << 63) + 1, (i64)~(1ULL << 63), MMAX + 1, -MMAX - 1}) MC_CK(c, thrown([&] { M m((long long)v); }) == "FFStreamError", "mgfzi-overflow", v << " is accepted");
      S nv(1, le ? (char)0x08 : (char)0x80); M m(5); MC_CK(c, m.decode(nv + "x", 0, le) == 1 && m.getSize() == 0, "mgfzi-none", "the no-value byte decodes to size " << m.getSize()); S o = "pq"; MC_CK(c, m.encode(o, 1, le) == 1 && o == "p" + nv, "mgfzi-none-encode", "no-value encodes as " << hex(o)); std::stringstream ss; MC_CK(c, m.write(ss, 0, 0, false, le) == 1 && ss.str() == nv, "mgfzi-none-write", "no-value writes " << hex(ss.str())); std::stringstream si(nv + "y"); M q; MC_CK(c, q.read(si, 0, 0, false, le) == 1 && q.getSize() == 0, "mgfzi-none-read", "no-value reads with size " << q.getSize());
      B r(7, le ? 0 : 0x20); size_t at = 0; r.updateMessageData(at, m); r.updateMessageData(at, M(99)); size_t g = 0; M a, b; r.extractMessageData(g, a); r.extractMessageData(g, b); MC_CK(c, a.getSize() == 0 && (long long)b == 99 && g == at, "mgfzi-none-field", "a field after a no-value field reads " << (long long)b); });
  }
  // (b) histories of message updates
  { static std::vector<Fld> F; F = fields(T); const u64 n = F.size(); u64 tot = n * n * n * 2; h.part("messages of three fields", tot, [n](Ctx& c, u64 i) { Mix m(i); bool le = m(2); int k[3] = {(int)m(n), (int)m(n), (int)m(n)}; B r(5, le ? 0 : 0x20); size_t o = 0; S want; std::vector<size_t> at; for (int j = 0; j < 3; j++) { at.push_back(o); put(r, o, F[k[j]]); want += fb(F[k[j]], le); c.trans(1); }
      c.states(1); c.eval(4); auto d = [&] { S s = le ? "LE" : "BE"; for (int j = 0; j < 3; j++) s += " kind " + std::to_string(F[k[j]].kind) + "(" + std::to_string(F[k[j]].v) + "," + std::to_string(F[k[j]].size) + ")"; return s; };
      S got; size_t z = 0; MC_CK(c, o == want.size() && r.getMessageLength() == want.size(), "message-length", d() << " gives " << r.getMessageLength() << " bytes, want " << want.size()); if (r.getMessageLength() != want.size()) return; r.extractMessageData(z, got, want.size()); MC_CK(c, got == want, "message-bytes", d() << " gives " << hex(got) << " want " << hex(want));
      o = 0; for (int j = 0; j < 3; j++) { bool ok = false; S t = thrown([&] { ok = get(r, o, F[k[j]]); }); MC_CK(c, t.empty() && ok && o == (j < 2 ? at[j + 1] : want.size()), "field", d() << " field " << j << " is not read back " << t); }
      // one more byte than there is
      if (i % 7 == 0) { size_t e = want.size(); S s; uint16_t u; MC_CK(c, threw(thrown([&] { r.extractMessageData(e, s, (size_t)1); })) && threw(thrown([&] { r.extractMessageData(e, u, (size_t)2); })) && threw(thrown([&] { U q; r.extractMessageData(e, q); })) && threw(thrown([&] { size_t f = e + 1; M q; r.extractMessageData(f, q); })) && e == want.size(), "field-beyond", d() << " reads beyond the message"); MC_CK(c, threw(thrown([&] { size_t f = 0; r.updateMessageData(f, u, (size_t)3); })) && threw(thrown([&] { size_t f = 0; r.extractMessageData(f, u, (size_t)3); })) && threw(thrown([&] { size_t f = 0; r.updateMessageData(f, S("ab"), (size_t)3); })), "field-size", d() << " accepts a size above that of the type"); }
      // overwrite the middle field with one of its own size
      for (u64 q = 0; q < n; q++) if (fb(F[q], le).size() == fb(F[k[1]], le).size()) { B r2(r); size_t p = at[1]; put(r2, p, F[q]); S w2 = fb(F[k[0]], le) + fb(F[q], le) + fb(F[k[2]], le), g2; size_t zz = 0; r2.extractMessageData(zz, g2, w2.size()); c.trans(1); MC_CK(c, p == (at[2]) && g2 == w2 && r2.getMessageLength() == w2.size(), "overwrite", d() << " overwritten by kind " << F[q].kind << " gives " << hex(g2) << " want " << hex(w2)); MC_CK(c, (r2 == r) == (w2 == want), "compare", d() << " comparison"); }
      if (i % 64 == 0) { r.clearMessage(); MC_CK(c, r.getMessageLength() == 0, "clear", d() << " is not cleared"); } });
  }
  // (c) records
  static std::vector<size_t> L; for (size_t b : {(size_t)0, (size_t)128, (size_t)4096, (size_t)16384}) for (int k = -8; k <= 8; k++) if ((i64)b + k >= 0) L.push_back(b + k); for (size_t l : {40, 300, 2000, 9000, 60000, 1048500}) L.push_back(l); if (T) for (size_t l = 20; l < 700; l++) L.push_back(l);
  static const u64 IDS[] = {0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 536870911}; static const size_t NID = 9;
  h.part("records: layout and round trip", L.size() * NID * 8, [](Ctx& c, u64 i) { Mix m(i); int f = FL[m(8)]; u64 id = IDS[m(NID)]; size_t l = L[m(L.size())]; S ms = msgOf(l, i); c.states(1); c.eval(6);
    S d = "flags " + std::to_string(f) + " id " + std::to_string(id) + " message of " + std::to_string(l); B r = recOf(f, id, ms); std::stringstream ss; S t = thrown([&] { r.putRecord(ss); }); MC_CK(c, t.empty(), "put", d << " " << t); S b = ss.str(); if (!layout(c, d, b, f, id, ms)) return;
    MC_CK(c, r.getRecordSize() == b.size() && r.getHeadLength() == 1u + un(id) + un(l), "size", d << " claims " << r.getRecordSize() << " bytes, head " << r.getHeadLength() << ", writes " << b.size());
    B q(3, 0); size_t n = 0; t = rd(q, ss, &n); S e = t.empty() ? same(q, f, id, ms) : t; MC_CK(c, e.empty() && n == b.size() && q == r, "read", d << " reads back " << e << ", " << n << " bytes"); t = rd(q, ss); MC_CK(c, t == "EndOfFile", "eof", d << " after the only record: " << t);
    if (f & 0x10) { std::stringstream rs(rev(b)); B w; t = rd(w, rs, &n); e = t.empty() ? same(w, f, id, ms) : t; MC_CK(c, e.empty() && w == r && n == b.size(), "read-reverse", d << " reversed reads back " << e); }
    B cp(r), as; as = r; MC_CK(c, cp == r && as == r && same(cp, f, id, ms).empty(), "copy", d << " copy"); if (l) { size_t o = 0; B ch(r); ch.updateMessageData(o, S(1, ms[0] ^ 1), (size_t)1); MC_CK(c, !(ch == r), "compare", d << " equals a changed copy"); } B oid(r); oid.setRecordID(id ^ 1); B ofl(r); ofl.setRecordFlags(f ^ 8); MC_CK(c, !(oid == r) && !(ofl == r), "compare", d << " equals another id or flags"); });
  h.part("record of 2^20 bytes and more", 8 * 3, [](Ctx& c, u64 i) { int f = FL[i % 8]; size_t l = 1048576 + (i / 8) * 5 - 4; S ms = msgOf(l, i); B r = recOf(f, 1, ms); std::stringstream ss; r.putRecord(ss); S b = ss.str(); S d = "flags " + std::to_string(f) + " message of " + std::to_string(l); c.eval(3); c.states(1);
    bool big = l + 4 >= 1048576; S k = big ? "16-byte-checksum" : "size"; if (r.getRecordSize() != b.size()) c.fail(k, d + " claims " + std::to_string(r.getRecordSize()) + " bytes, writes " + std::to_string(b.size())); B q; S t = rd(q, ss); S e = t.empty() ? same(q, f, 1, ms) : t; MC_CK(c, e.empty(), "read-big", d << " " << e);
    S x = b; x[700] ^= 4; std::stringstream sx(x); t = rd(q, sx); if (t.empty()) c.fail(big ? "16-byte-checksum" : "corrupted", d + " with a corrupted byte is read"); }, 120);
  h.part("ids and flags", 256 + 40, [](Ctx& c, u64 i) { c.eval(2); if (i < 256) { B r; r.setRecordFlags((B::SyncByte)i); MC_CK(c, r.getRecordFlags() == (i & 0x38), "flags", "flags " << i << " become " << (int)r.getRecordFlags()); r.setRecordID(1); std::stringstream ss; r.putRecord(ss); MC_CK(c, (unsigned char)ss.str()[0] == headSync(i & 0x38), "sync", "flags " << i << " write sync " << hex(ss.str())); B d; MC_CK(c, d.getRecordFlags() == 0x20 && d.getMessageLength() == 0, "default", "default flags"); std::stringstream s2; MC_CK(c, threw(thrown([&] { d.putRecord(s2); })), "put-without-id", "a record without an id is written");
      // a stream that starts with this byte
      bool head = (i & 0xc5) == 0xc0 && (i & 8 ? !(i & 2) : (i & 2)) , tail = i == 0xb4 || i == 0xb0 || i == 0xe4 || i == 0xe0; if (!head && !tail) { std::stringstream s3(S(1, (char)i) + S("\0\0\0\0\0\0", 6)); B q; MC_CK(c, rd(q, s3) == "FFStreamError", "bad-sync", "a record starting with " << i << " is read"); } std::stringstream o1(S(1, (char)i)); B q; if (head || tail) MC_CK(c, rd(q, o1) == "FFStreamError", "sync-only", "a stream of one sync byte " << i << " is read"); }
    else { u64 k = i - 256; u64 id = k < 3 ? (1ULL << 29) + k - 1 : (1ULL << 32) - (k - 2); bool ok = id < (1ULL << 29); S t = thrown([&] { B r((B::RecordID)id, 0x20); }); S t2 = thrown([&] { B r; r.setRecordID((B::RecordID)id); }); MC_CK(c, t.empty() == ok && t2.empty() == ok, "id-overflow", "record id " << id << (ok ? " is refused" : " is accepted")); if (k == 5) MC_CK(c, threw(thrown([&] { B r; r.ensureMessageCapacity(536870912); })), "capacity", "an impossible capacity is accepted"); } });
  // (d) sequences
  { static std::vector<std::array<int, 3> > R; for (int f = 0; f < 8; f++) for (int l : T ? std::vector<int>{0, 1, 120, 127, 135, 4100} : std::vector<int>{0, 122, 135}) R.push_back({FL[f], (int)(f * 500), l}); const u64 n = R.size();
    h.part("sequences of three records", n * n * n * 2, [n](Ctx& c, u64 i) { Mix m(i); bool file = m(2); int k[3]; for (int j = 0; j < 3; j++) k[j] = m(n); if (file && (k[0] + k[1] * 3 + k[2] * 7) % 16) return; S d, all; std::vector<S> ms; std::vector<B> rs; bool allrev = true; std::stringstream ss; for (int j = 0; j < 3; j++) { auto& q = R[k[j]]; ms.push_back(msgOf(q[2], j + k[j])); rs.push_back(recOf(q[0], q[1], ms[j])); rs[j].putRecord(ss); d += " (" + std::to_string(q[0]) + "," + std::to_string(q[1]) + "," + std::to_string(q[2]) + ")"; if (!(q[0] & 16)) allrev = false; } c.states(1); c.eval(3); c.trans(3); all = ss.str();
      if (file) { { BinexStream o("t.bnx", std::ios::out | std::ios::binary | std::ios::trunc); for (auto& r : rs) o << r; } std::ifstream f("t.bnx", std::ios::binary); std::stringstream fs; fs << f.rdbuf(); MC_CK(c, fs.str() == all, "file", d << " in a file differs from a stream"); BinexStream in("t.bnx"); for (int j = 0; j < 3; j++) { B q; in >> q; MC_CK(c, bool(in) && q == rs[j], "file-read", d << " record " << j << " read from a file " << same(q, R[k[j]][0], R[k[j]][1], ms[j])); } B q; in >> q; MC_CK(c, !in && in.eof(), "file-eof", d << " no end of file"); return; }
      size_t pos = 0; for (int j = 0; j < 3; j++) { B q; size_t nb; S t = rd(q, ss, &nb); S e = t.empty() ? same(q, R[k[j]][0], R[k[j]][1], ms[j]) : t; MC_CK(c, e.empty() && nb == rs[j].getRecordSize(), "sequence", d << " record " << j << ": " << e << " at " << pos); if (!e.empty()) return; pos += nb; }
      B q; MC_CK(c, pos == all.size() && rd(q, ss) == "EndOfFile", "sequence-eof", d << " no end");
      if (allrev) { std::stringstream r(rev(all)); for (int j = 2; j >= 0; j--) { S t = rd(q, r); S e = t.empty() ? same(q, R[k[j]][0], R[k[j]][1], ms[j]) : t; MC_CK(c, e.empty(), "sequence-reverse", d << " record " << j << " of the reversed stream: " << e); if (!e.empty()) return; } } }); }
  // (e) faults
  { static std::vector<std::array<int, 3> > R; for (int f = 0; f < 8; f++) for (int l : T ? std::vector<int>{0, 1, 4, 60, 124, 130, 300, 4100} : std::vector<int>{0, 3, 130}) for (int id : {5, 300}) R.push_back({FL[f], id, l}); if (!T) for (int f = 0; f < 8; f++) R.push_back({FL[f], 5, 4100});
    h.part("every corrupted byte and truncation", R.size(), [T](Ctx& c, u64 i) { auto& q = R[i]; bool le = !(q[0] & 0x20); S ms = msgOf(q[2], i); B r = recOf(q[0], q[1], ms); std::stringstream ss; r.putRecord(ss); const S b = ss.str(); S d = "flags " + std::to_string(q[0]) + " id " + std::to_string(q[1]) + " message of " + std::to_string(q[2]); c.states(1); bool big = q[2] > 1000; size_t idn = un(q[1]), ln = un(q[2]), h0 = 1 + idn + ln; int cl = crcLen(q[0], h0 - 1 + ms.size()); (void)le;
      S more = b + b; // a record follows: the fault must not be hidden by the end of the stream
      auto bad = [&](const S& x, const char* key, size_t p) { std::stringstream s(x); B w; S t = rd(w, s); c.eval(1); c.trans(1); MC_CK(c, t == "FFStreamError", key, d << " with byte " << p << " changed to " << hex(x.substr(p, 2)) << " is read: " << t); };
      for (size_t p = 1; p < b.size(); p++) { bool len = p > idn && p < h0; if (big && !T && p > 40 && p + 40 < b.size() && p % 97) continue; for (int v = 1; v < 256; v++) { if (!T && b.size() > 60 && (v & (v - 1)) && v != 255 && v != 0x81) continue; S x = more; x[p] ^= v; if (len) { u64 nl; if (udec(x, 1 + idn, le, nl) && nl > 100000 && (p % 3 || v % 16)) continue; std::stringstream s(x); B w; S t = rd(w, s); c.eval(1); MC_CK(c, t.empty() || t == "FFStreamError", "length-fault", d << " with a changed length: " << t); continue; } if (p <= idn && ((v & 0x80))) continue; bad(x, p <= idn ? "id-fault" : p < h0 + ms.size() ? "message-fault" : p < h0 + ms.size() + cl ? "checksum-fault" : "tail-fault", p); } }
      // bursts of two bytes, where the checksum has 16 bits or more
      if (cl > 1) for (size_t p = h0; p + 1 < h0 + ms.size(); p++) { if (big && p % 101) continue; for (int v : {0x0101, 0x8001, 0xffff, 0x0180, 0x5aa5, 0x1000 | 1}) { S x = more; x[p] ^= v >> 8; x[p + 1] ^= v & 255; bad(x, "burst-fault", p); } }
      if (q[0] & 0x10) { S rb = rev(b), rm = rb + rb; for (size_t p = 0; p < rb.size(); p++) { size_t fp = b.size() - 1 - p; if (fp == 0 || (fp > idn && fp < h0) || p == 0) continue; if (fp >= h0 + ms.size() + cl) continue; if (big && p > 40 && p % 97) continue; for (int v : {1, 2, 4, 8, 16, 32, 64, 128, 255}) { if (fp <= idn && (v & 0x80)) continue; S x = rm; x[p] ^= v; bad(x, "reverse-fault", p); } }
        { S x = rm; x[b.size() - 1] ^= 0x40; bad(x, "reverse-head-fault", b.size() - 1); }
        for (size_t k = 0; k < rb.size(); k++) { if (big && k > 40 && k + 40 < rb.size() && k % 97) continue; std::stringstream s(rb.substr(0, k)); B w; S t = rd(w, s); c.eval(1); MC_CK(c, k ? t == "FFStreamError" : t == "EndOfFile", "reverse-truncated", d << " reversed, cut to " << k << " bytes: " << t); } }
      for (size_t k = 0; k < b.size(); k++) { if (big && k > 40 && k + 40 < b.size() && k % 97) continue; std::stringstream s(b.substr(0, k)); B w; S t = rd(w, s); c.eval(1); MC_CK(c, k ? t == "FFStreamError" : t == "EndOfFile", "truncated", d << " cut to " << k << " bytes: " << t);
        if (k % 5 == 1) { { std::ofstream o("f.bnx", std::ios::binary | std::ios::trunc); o << b << b.substr(0, k); } BinexStream in("f.bnx"); B a1, a2; in >> a1; MC_CK(c, bool(in) && a1 == r, "file-first", d << " first of a truncated file"); in >> a2; MC_CK(c, !in, "file-truncated", d << " cut to " << k << " bytes is read from a file"); } } }, 300); }
  return h.run(argc, argv);
}
