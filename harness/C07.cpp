// MC-SAN: asan
// MC-RULE: every result equals that of an independent reference function written from the header text; results are exact strings
// MC-ASSUME: C locale ; sign-only numbers, empty line delimiters and quote characters inside quoted fields are outside the documented use
#include <memory>
#include <map>
#include <cmath>
#include <functional>
#include <array>
#include "mc.hpp"
#include "StringUtils.hpp"
using namespace gpstk; using namespace mc; namespace U = gpstk::StringUtils; typedef std::string S; typedef std::vector<S> V; static const size_t NP = S::npos;
static V all(const S& al, size_t L) { V r(1, ""); size_t a = 0; for (size_t n = 1; n <= L; n++) { size_t b = r.size(); for (; a < b; a++) for (char ch : al) { S t = r[a]; t += ch; r.push_back(t); } } return r; }
static S q(const S& s) { S r = "\""; for (unsigned char ch : s) { if (ch < 32 || ch > 126 || ch == '"') { char b[8]; snprintf(b, 8, "\\x%02x", ch); r += b; } else r += char(ch); } return r + "\""; }
static S num(size_t n) { return n == NP ? "all" : std::to_string(n); }
static S show(const V& v) { S r = "["; for (auto& s : v) r += q(s) + " "; return r + "]"; }
// ---- references
static S rLead(S s, const S& p, size_t n) { if (p.empty()) return s; while (n && s.size() >= p.size() && s.compare(0, p.size(), p) == 0) { s = s.substr(p.size()); n--; } return s; }
static S rTrail(S s, const S& p, size_t n) { if (p.empty()) return s; while (n && s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0) { s = s.substr(0, s.size() - p.size()); n--; } return s; }
static S rChange(const S& s, const S& a, const S& b, size_t from, unsigned n) { if (a.empty() || from > s.size()) return s; S r = s.substr(0, from); size_t i = from; while (i < s.size()) { if (n && s.compare(i, a.size(), a) == 0) { r += b; i += a.size(); n--; } else r += s[i++]; } return r; }
struct Wd { size_t b, e; };
static std::vector<Wd> rWords(const S& s, char d) { std::vector<Wd> r; size_t i = 0; while (i < s.size()) { if (s[i] == d) { i++; continue; } size_t b = i; while (i < s.size() && s[i] != d) i++; r.push_back({b, i}); } return r; }
static V rSplit(const S& s, const S& ds) { V r; S cur; bool in = false; for (char ch : s) { if (ds.find(ch) != NP) { if (in) r.push_back(cur); in = false; cur.clear(); } else { in = true; cur += ch; } } if (in) r.push_back(cur); return r; }
static S rRemove(const S& s, size_t f, size_t n, char d) { auto w = rWords(s, d); if (f >= w.size() || n == 0) return s; size_t last = n == NP || f + n >= w.size() ? w.size() : f + n; if (last == w.size()) { S t = s.substr(0, w[f].b); while (!t.empty() && t.back() == d) t.pop_back(); return t; } return s.substr(0, w[f].b) + s.substr(w[last].b); }
// wildcard matcher: tokens (char|any) x (once|0+|1+); returns the leftmost longest match
struct Tok { char c; bool any; char rep; };
static void reach(const std::vector<Tok>& p, const S& s, size_t pi, size_t i, long& best) { if (pi == p.size()) { best = std::max(best, (long)i); return; } auto ok = [&](size_t k) { return k < s.size() && (p[pi].any || s[k] == p[pi].c); };
  if (p[pi].rep == 0) { if (ok(i)) reach(p, s, pi + 1, i + 1, best); return; } size_t k = i; if (p[pi].rep == '*') reach(p, s, pi + 1, k, best); while (ok(k)) { k++; reach(p, s, pi + 1, k, best); } }
static S rMatch(const std::vector<Tok>& p, const S& s) { for (size_t i = 0; i <= s.size(); i++) { long b = -1; reach(p, s, 0, i, b); if (b >= 0) return s.substr(i, b - i); } return ""; }
static bool rDigit(const S& s, bool dot, bool& signOnly) { size_t i = 0, nd = 0, np = 0; if (s.empty()) return false; if (s[0] == '+' || s[0] == '-') i++; for (; i < s.size(); i++) { if (s[i] >= '0' && s[i] <= '9') nd++; else if (dot && s[i] == '.') np++; else return false; } if (np > 1) return false; (void)signOnly; return nd > 0; }
#define EQ(key, got, want, args) do { c.eval(); const auto& g_ = (got); const auto& w_ = (want); if (g_ != w_) c.fail(key, S() + args + " -> " + show(V{S(g_)}) + " want " + show(V{S(w_)})); } while (0)
__attribute__((noinline)) static void dirty(int pat) { volatile unsigned char b[4096]; for (int i = 0; i < 4096; i++) b[i] = pat; }
template <class T> __attribute__((noinline)) static T conv(const S& s) { return U::asData<T>(s); }
__attribute__((noinline)) static float cf(const S& s) { return U::asFloat(s); }
__attribute__((noinline)) static long double cl(const S& s) { return U::asLongDouble(s); }
__attribute__((noinline)) static unsigned cx(const S& s) { return U::x2uint(s); }
struct HX { bool idx, hexi, up; unsigned dig, g1, g2, bpl; bool text, bd, bi; int sep; unsigned indent; };

int main(int argc, char** argv) {
  Harness h("C07"); int T = h.thorough;
  { auto ss = all("ab ", T ? 10 : 8); V pat = {" ", "a", "b", "aa", "ab", "aba", "", " a", "  "}; size_t B = (ss.size() + 999) / 1000;
  h.part("strip", B, [=](Ctx& c, u64 i) { for (size_t k = i * 1000; k < ss.size() && k < i * 1000 + 1000; k++) for (auto& p : pat) for (size_t n : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, NP}) { const S& s = ss[k]; S a = rLead(s, p, n), b = rTrail(s, p, n), d = rTrail(a, p, n); S args = q(s) + "," + q(p) + "," + num(n);
      S t = s; S& r = U::stripLeading(t, p, n); if (&r != &t) c.fail("stripLeading:ref", args); EQ("stripLeading", t, a, args); t = s; U::stripTrailing(t, p, n); EQ("stripTrailing", t, b, args); t = s; U::strip(t, p, n); EQ("strip", t, d, args); const S cs = s;
      EQ("stripLeading:const", U::stripLeading(cs, p, n), a, args); EQ("stripTrailing:const", U::stripTrailing(cs, p, n), b, args); EQ("strip:const", U::strip(cs, p, n), d, args); EQ("strip:cstr", U::strip(cs, p.c_str(), n), d, args); EQ("stripLeading:cstr", U::stripLeading(cs, p.c_str(), n), a, args); EQ("stripTrailing:cstr", U::stripTrailing(cs, p.c_str(), n), b, args);
      if (p.size() == 1) { t = s; U::strip(t, p[0], n); EQ("strip:char", t, d, args); EQ("strip:char", U::strip(cs, p[0], n), d, args); EQ("stripLeading:char", U::stripLeading(cs, p[0], n), a, args); EQ("stripTrailing:char", U::stripTrailing(cs, p[0], n), b, args); } if (p == " ") { EQ("strip:blank", U::strip(cs, n), d, args); EQ("stripLeading:blank", U::stripLeading(cs, n), a, args); EQ("stripTrailing:blank", U::stripTrailing(cs, n), b, args); if (n == NP) { EQ("strip:default", U::strip(cs), d, args); t = s; U::stripLeading(t); EQ("stripLeading:default", t, a, args); t = s; U::stripTrailing(t); EQ("stripTrailing:default", t, b, args); } } c.outcome(hstr(d)); } }); }
  { auto ss = all("abc", T ? 8 : 6), in = all("abc", 3), out = all("axb", 2); size_t B = ss.size();
  h.part("change", (B + 19) / 20, [=](Ctx& c, u64 i) { for (size_t k = i * 20; k < B && k < i * 20 + 20; k++) { const S& s = ss[k]; for (auto& a : in) for (auto& b : out) { for (size_t from : {(size_t)0, (size_t)1, (size_t)3}) for (unsigned n : {0u, 1u, 2u, ~0u}) { if (a.size() > 2 && from > 1) continue; S w = rChange(s, a, b, from, n); S t = s; U::change(t, a, b, from, n); S args = q(s) + "," + q(a) + "," + q(b) + "," + num(from) + "," + num(n); EQ("change", t, w, args); if (n == 1) EQ("change:const", U::change((const S&)s, a, b, from, n), w, args); }
        S t = s; S w = rChange(s, a, b, 0, ~0u); U::replaceAll(t, a, b); EQ(a.empty() ? "replaceAll:empty" : "replaceAll", t, w, q(s) + "," + q(a) + "," + q(b)); t = s; EQ("change:default", U::change((const S&)s, a, b), w, q(s) + "," + q(a) + "," + q(b));
        S tr = s; for (char& ch : tr) { size_t p = a.find(ch); if (p != NP) ch = p < b.size() ? b[p] : '#'; } EQ("translate", U::translate(s, a, b, '#'), tr, q(s) + "," + q(a) + "," + q(b)); c.outcome(hstr(tr)); } } }, 60); }
  { auto ss = all("abx", 6);
  h.part("justify", 16, [=](Ctx& c, u64 i) { size_t n = i; for (auto& s : ss) for (char pad : {' ', '0', 'a'}) { size_t L = s.size(); S args = q(s) + "," + num(n) + "," + S(1, pad); S l = L > n ? s.substr(0, n) : s + S(n - L, pad), r = L > n ? s.substr(L - n) : S(n - L, pad) + s; const S cs = s; EQ("leftJustify", U::leftJustify(cs, n, pad), l, args); EQ("rightJustify", U::rightJustify(cs, n, pad), r, args); S t = s; U::leftJustify(t, n, pad); EQ("leftJustify", t, l, args); t = s; U::rightJustify(t, n, pad); EQ("rightJustify", t, r, args);
      S e = U::center(cs, n, pad); t = s; U::center(t, n, pad); EQ("center:const", e, t, args); S w1 = L > n ? l : S((n - L) / 2, pad) + s + S(n - L - (n - L) / 2, pad), w2 = L > n ? l : S(n - L - (n - L) / 2, pad) + s + S((n - L) / 2, pad); c.eval(); if (e != w1 && e != w2) c.fail("center", args + " -> " + q(e)); c.outcome(hstr(e));
      for (size_t from = 0; from < 9; from++) { S w = from >= L ? S(n, pad) : s.substr(from, n); w.resize(n, pad); EQ("subString", U::subString(s, from, n, pad), w, args + " from " + num(from)); } }
    if (i == 0) for (auto& s : ss) for (size_t from = 0; from < s.size(); from++) { S g, x = thrown([&] { g = U::subString(s, from); }); if (!x.empty()) { c.fail("subString:default", q(s) + " refused: " + x); break; } EQ("subString:default", g, s.substr(from), q(s) + num(from)); }
    if (i == 0) for (auto& s : ss) { EQ("leftJustify:blank", U::leftJustify((const S&)s, 5), U::leftJustify((const S&)s, 5, ' '), q(s)); EQ("rightJustify:blank", U::rightJustify((const S&)s, 5), U::rightJustify((const S&)s, 5, ' '), q(s)); EQ("center:blank", U::center((const S&)s, 5), U::center((const S&)s, 5, ' '), q(s)); } }); }
  { auto ss = all("ab ", T ? 10 : 8); size_t B = (ss.size() + 499) / 500;
  h.part("words", B, [=](Ctx& c, u64 i) { for (size_t k = i * 500; k < ss.size() && k < i * 500 + 500; k++) for (char d : {' ', 'b'}) { const S& s = ss[k]; auto w = rWords(s, d); V ws; for (auto& x : w) ws.push_back(s.substr(x.b, x.e - x.b)); S D = "," + q(S(1, d));
      EQ("numWords", std::to_string(U::numWords(s, d)), std::to_string(w.size()), q(s) + D); EQ(w.empty() ? "firstWord:none" : "firstWord", U::firstWord(s, d), (w.empty() ? S() : ws[0]), q(s) + D);
      { c.eval(); V g = U::split(s, d); if (g != ws) c.fail("split", q(s) + D + " -> " + show(g)); g = U::split(s, S(1, d)); if (g != ws) c.fail("split:string", q(s) + D + " -> " + show(g)); }
      { S t = s; S g = U::stripFirstWord(t, d); S rest = w.size() > 1 ? s.substr(w[1].b) : S(); EQ("stripFirstWord", g, (w.empty() ? S() : ws[0]), q(s) + D); EQ("stripFirstWord:rest", t, rest, q(s) + D); }
      for (size_t f = 0; f < 6; f++) { EQ("word", U::word(s, f, d), (f < w.size() ? ws[f] : S()), q(s) + "," + num(f) + D);
        for (size_t n : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)5, NP}) { S args = q(s) + "," + num(f) + "," + num(n) + D; if (f == 0 && n == NP) EQ("words:default", (d == ' ' ? U::words(s) : U::words(s, 0, NP, d)), (w.empty() ? S() : s.substr(w[0].b)), args); S x; if (n && f < w.size()) { if (n != NP && f + n <= w.size()) x = s.substr(w[f].b, w[f + n - 1].e - w[f].b); else x = s.substr(w[f].b); }
          S g = U::words(s, f, n, d); if (n == NP || f + n > w.size()) { // more words asked than present: the rest, whether or not the delimiters after the last word are kept
            S g2 = g, x2 = x; while (!g2.empty() && g2.back() == d) g2.pop_back(); while (!x2.empty() && x2.back() == d) x2.pop_back(); EQ(f < w.size() ? "words:rest" : "words:none", g2, x2, args); } else EQ("words", g, x, args); 
          S t = s; U::removeWords(t, f, n, d); EQ(n == 0 ? "removeWords:zero" : "removeWords", t, rRemove(s, f, n, d), args); c.outcome(hstr(t)); } } } }, 60); }
  { auto ss = all("a, ;", T ? 8 : 7); size_t B = (ss.size() + 499) / 500;
  h.part("split-set", B, [=](Ctx& c, u64 i) { for (size_t k = i * 500; k < ss.size() && k < i * 500 + 500; k++) for (S ds : {S(","), S(",;"), S(" ,;")}) for (int trim = 0; trim < 2; trim++) for (int ign = 0; ign < 2; ign++) { const S& s = ss[k]; V w; for (S t : rSplit(s, ds)) { if (trim) t = rTrail(rLead(t, " ", NP), " ", NP); if (!t.empty() || !ign) w.push_back(t); } V g = U::split(s, ds, trim, ign); c.eval(); if (g != w) c.fail("split:set", q(s) + "," + q(ds) + " trim " + num(trim) + " ignoreEmpty " + num(ign) + " -> " + show(g) + " want " + show(w)); } }); }
  { struct Fd { S text, val; bool dq; }; std::vector<Fd> fs = {{"", "", 1}, {"a", "a", 1}, {"ab", "ab", 1}, {" a", " a", 1}, {"a b ", "a b ", 1}, {" ", " ", 1}, {"\"\"", "", 1}, {"\"a,b\"", "a,b", 1}, {"\" a\"", " a", 1}, {"\",\"", ",", 1}, {"\"a'b\"", "a'b", 1}, {"'a,b'", "a,b", 0}, {"','", ",", 0}, {"'say \"x\" '", "say \"x\" ", 0}, {"a'b", "a'b", 1}, {"5\"", "5\"", 1}, {" \"x\"", " \"x\"", 1}}; size_t n = fs.size();
  h.part("quotes", 2 * n * (T ? n : 1), [=](Ctx& c, u64 i0) { bool dbl = i0 & 1; u64 i = i0 / 2; auto trimq = [](S t, bool trim) { return trim ? rTrail(rLead(t, " ", NP), " ", NP) : t; };
    size_t deep = T ? 4 : 3; std::vector<int> pick(1, int(i % n)); std::function<void()> go = [&] { if (pick.size() >= 1) { S line; V vals; bool bad = false; for (size_t k = 0; k < pick.size(); k++) { const Fd& f = fs[pick[k]]; if (dbl && !f.dq) bad = true; line += (k ? "," : "") + f.text; vals.push_back(f.val); } if (!bad) for (int trim = 0; trim < 2; trim++) for (int ign = 0; ign < 2; ign++) { V w; for (auto& v : vals) { S t = trimq(v, trim); if (!t.empty() || !ign) w.push_back(t); } c.eval(); V g = dbl ? U::splitWithDoubleQuotes(line, ',', trim, ign) : U::splitWithQuotes(line, ',', trim, ign);
            // an empty last field may be dropped or kept; everything else is exact
            if (g != w) { V w2 = w; if (!w2.empty() && w2.back().empty()) w2.pop_back(); if (g != w2) c.fail(dbl ? "splitWithDoubleQuotes" : "splitWithQuotes", q(line) + " trim " + num(trim) + " ignoreEmpty " + num(ign) + " -> " + show(g) + " want " + show(w)); } } } if (pick.size() < deep) for (size_t k = 0; k < n; k++) { if (T && pick.size() == 1 && k != i / n) continue; pick.push_back(k); go(); pick.pop_back(); } }; go();
    if (i0 == 0) for (char d : {'"', '\''}) { S x = thrown([&] { U::splitWithQuotes("a", d); }); if (x.empty()) c.fail("splitWithQuotes:delimiter", S(1, d)); } }); }
  { auto ss = all("09+-.eDa ", T ? 6 : 5); size_t B = (ss.size() + 1999) / 2000;
  h.part("predicates", B, [=](Ctx& c, u64 i) { for (size_t k = i * 2000; k < ss.size() && k < i * 2000 + 2000; k++) { const S& s = ss[k]; bool so = false; bool w = rDigit(s, false, so); c.eval(3); if (!so && U::isDigitString(s) != w) c.fail("isDigitString", q(s)); so = false; w = rDigit(s, true, so); if (!so && U::isDecimalString(s) != w) c.fail("isDecimalString", q(s)); 
      so = false; size_t p = s.find_first_of("EeDd"); if (p == NP) w = rDigit(s, true, so); else { bool e = p + 1 < s.size() ? rDigit(s.substr(p + 1), false, so) : true; w = rDigit(s.substr(0, p), true, so) && e; } if (!so && U::isScientificString(s) != w) c.fail("isScientificString", q(s)); 
      bool al = !s.empty(); for (char ch : s) al = al && ((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z')); if (U::isAlphaString(s) != al) c.fail("isAlphaString", q(s)); c.outcome(w); } }); }
  h.part("hex", 70, [=](Ctx& c, u64 i) { auto one = [&](unsigned long v) { char hx[20], HXs[20]; snprintf(hx, 20, "%lx", v); snprintf(HXs, 20, "%lX", v); S dec = std::to_string(v);
      if (v <= 0xffffffffu) { EQ("int2x", U::int2x(v), S(hx), dec); for (S t : {S(hx), S(HXs), "0x" + S(hx), "  " + S(HXs), "00" + S(hx), S(hx) + " z", S(hx) + "g"}) EQ("x2uint", std::to_string(U::x2uint(t)), dec, q(t)); }
      for (S lead : {S(""), S(" "), S("0"), S("  000")}) for (S tail : {S(""), S(" "), S(" foo"), S("z9"), S(" 0x1")}) { S w = HXs + tail; S in = lead + dec + tail; EQ(v ? "d2x" : "d2x:zero", U::d2x((const S&)in), w, q(in)); S t = in; U::d2x(t); EQ(v ? "d2x" : "d2x:zero", t, w, q(in)); }
      if (v <= 0x7fffffffu) for (const S& lead : {S(""), S(" "), S("0"), S("0x"), S(" 0x"), S("0x00")}) for (S tail : {S(""), S(" "), S(" foo"), S("z9"), S(" 12")}) for (S b : {S(hx), S(HXs)}) { S in = lead + b + tail; EQ(v ? "x2d" : "x2d:zero", U::x2d((const S&)in), dec + tail, q(in)); } c.outcome(v); };
    if (i < 64) for (unsigned long v = i * (T ? 16384 : 256); v < (i + 1) * (T ? 16384 : 256); v++) one(v); else if (i == 64) for (int b = 16; b < 32; b++) for (long d = -2; d <= 2; d++) one((1ul << b) + d); else if (i == 65) for (int n = 1; n <= 8; n++) for (int dg = 1; dg < 16; dg++) { unsigned long v = 0; for (int k = 0; k < n; k++) v = v * 16 + dg; one(v); one(v & ~0xffful); one(v ^ 9); } else if (i == 66) one(0xffffffffu);
    else if (i == 67) for (int a = 0; a < 256; a++) for (int b = -1; b < 256; b++) { S s(1, char(a)); if (b >= 0) s += char(b); char w[8]; snprintf(w, 8, "%02X", a); S x = w; if (b >= 0) { snprintf(w, 8, "%02X", b); x += w; } EQ("c2x", U::c2x((const S&)s), x, q(s)); S t = s; U::c2x(t); EQ("c2x", t, x, q(s)); }
    else if (i == 68) for (int pat : {0x5a, 0xff, 0x41}) for (S s : {S(""), S(" "), S("x"), S("    ")}) { if (s == "x") continue; dirty(pat); float f = cf(s); dirty(pat); long double l = cl(s); dirty(pat); int n = conv<int>(s); dirty(pat); double d = conv<double>(s); dirty(pat); unsigned x = cx(s); c.eval(5); if (f != 0) c.fail("asFloat:blank", q(s)); if (l != 0) c.fail("asLongDouble:blank", q(s)); if (n != 0 || d != 0) c.fail("asData:blank", q(s)); if (x != 0) c.fail("x2uint:blank", q(s)); if (U::asInt(s) != 0 || U::asDouble(s) != 0 || U::asUnsigned(s) != 0) c.fail("asNumber:blank", q(s)); }
    else for (long v : {0l, 1l, -1l, 9l, -10l, 123456789l, -123456789l, 2147483647l, -2147483648l, 9007199254740993l}) for (S lead : {S(""), S("  ")}) for (S tail : {S(""), S(" "), S(" 7"), S("x")}) { S s = lead + std::to_string(v) + tail; c.eval(); if (U::asInt(s) != v) c.fail("asInt", q(s)); if (U::asDouble(s) != (double)v) c.fail("asDouble", q(s)); if (U::asFloat(s) != (float)v) c.fail("asFloat", q(s)); if (U::asLongDouble(s) != (long double)v) c.fail("asLongDouble", q(s)); if (U::asData<long>(s) != v) c.fail("asData", q(s)); if (v >= 0 && U::asUnsigned(s) != (unsigned long)v) c.fail("asUnsigned", q(s)); if (U::asString(v) != std::to_string(v)) c.fail("asString", q(s)); char b[64]; for (int pr = 0; pr < 9; pr++) { snprintf(b, 64, "%.*f", pr, v + 0.3125); if (U::asString(v + 0.3125, pr) != b) c.fail("asString:precision", b); if (U::asString((long double)v, pr) != (snprintf(b, 64, "%.*f", pr, (double)v), b) && std::labs(v) < (1l << 52)) c.fail("asString:long-double", b); } } });
  h.part("bytes", 256, [=](Ctx& c, u64 i) { for (int b = -1; b < 256; b++) { S s(1, char(i)); if (b >= 0) s += char(b); S lo, up, pr; for (unsigned char ch : s) { lo += char(ch >= 'A' && ch <= 'Z' ? ch + 32 : ch); up += char(ch >= 'a' && ch <= 'z' ? ch - 32 : ch); char t[8]; if (ch >= 128) { snprintf(t, 8, "<%02X>", ch); pr += t; } else if (ch == 127) pr += "^?"; else if (ch < 32) { pr += '^'; pr += char(ch + 64); } else pr += char(ch); } EQ("lowerCase", U::lowerCase((const S&)s), lo, q(s)); EQ("upperCase", U::upperCase((const S&)s), up, q(s)); S t = s; U::lowerCase(t); EQ("lowerCase", t, lo, q(s)); t = s; U::upperCase(t); EQ("upperCase", t, up, q(s)); EQ("printable", U::printable(s), pr, q(s)); EQ("memToString", U::memToString(s.data(), s.size()), s, q(s)); } });
  { struct RM { char z, o, a; }; std::vector<RM> rms = {{'*', '+', '.'}, {'@', '+', '.'}, {'*', '#', '.'}, {'*', '+', '?'}, {'@', '#', '?'}, {'%', '&', '_'}}; auto ss = all("ab.*", T ? 6 : 5); auto sh = all("ABZOY", T ? 5 : 4); // A,B literals, Y any, Z 0+, O 1+
  h.part("matches", sh.size(), [=](Ctx& c, u64 i) { for (size_t m = 0; m < rms.size(); m++) { S pat; std::vector<Tok> tk; bool ok = true; for (char ch : sh[i]) { if (ch == 'A') { pat += 'a'; tk.push_back({'a', 0, 0}); } else if (ch == 'B') { char lit = rms[m].z != '*' ? '*' : rms[m].a != '.' ? '.' : 'b'; pat += lit; tk.push_back({lit, 0, 0}); } else if (ch == 'Y') { pat += rms[m].a; tk.push_back({0, 1, 0}); } else { if (tk.empty() || tk.back().rep) { ok = false; break; } tk.back().rep = ch == 'Z' ? '*' : '+'; pat += ch == 'Z' ? rms[m].z : rms[m].o; } }
      if (!ok || tk.empty()) continue; size_t step = m ? 3 : 1; for (size_t k = m % 3; k < ss.size(); k += step) { S w = rMatch(tk, ss[k]); EQ("matches", U::matches(ss[k], pat, rms[m].z, rms[m].o, rms[m].a), w, q(ss[k]) + " pattern " + q(pat)); bool lk = U::isLike(ss[k], pat, rms[m].z, rms[m].o, rms[m].a); if (lk != !w.empty()) c.fail("isLike", q(ss[k]) + " pattern " + q(pat)); if (U::isLike(ss[k], pat.c_str(), rms[m].z, rms[m].o, rms[m].a) != lk) c.fail("isLike:cstr", pat); c.outcome(hstr(w)); } }
    if (i == 0) for (const char* bad : {"(", "[a", "a{", "a\\"}) { S x = thrown([&] { U::matches("aaa", bad); }); if (x.empty() && S(bad) != "a{") c.fail("matches:accepts-bad", bad); } }, 120); }
  { auto ss = all("ab \n", T ? 9 : 8); size_t B = (ss.size() + 999) / 1000;
  h.part("wrap", B, [=](Ctx& c, u64 i) { for (size_t k = i * 1000; k < ss.size() && k < i * 1000 + 1000; k++) for (size_t len : {(size_t)3, (size_t)5, (size_t)8, (size_t)80}) for (int cf = 0; cf < 3; cf++) { S ind = cf == 1 ? "> " : "", fi = cf == 2 ? "" : cf == 1 ? "*" : "     ", ld = cf == 2 ? "|\n" : "\n"; S src = ss[k]; if (cf == 2) src = rChange(src, "\n", "|\n", 0, ~0u); S g = U::prettyPrint((const S&)src, ld, ind, fi, len, ' '); c.eval(); S args = q(src) + " len " + num(len) + " cfg " + num(cf) + " -> " + q(g);
      // the text comes out as lines: the words of the source in order, nothing else
      if (g.size() < ld.size() || g.substr(g.size() - ld.size()) != ld) { c.fail("prettyPrint:end", args); continue; } V lines; size_t p = 0; while (p < g.size()) { size_t e = g.find(ld, p); lines.push_back(g.substr(p, e - p)); p = e + ld.size(); } V got; bool ok = true; for (size_t n = 0; n < lines.size(); n++) { S pre = n ? ind : fi; if (lines[n].compare(0, pre.size(), pre)) { c.fail("prettyPrint:indent", args); ok = false; break; } V w = rSplit(lines[n].substr(pre.size()), " "); if (lines[n].size() > len && w.size() > 1) { c.fail("prettyPrint:length", args); ok = false; } got.insert(got.end(), w.begin(), w.end()); } if (!ok) continue; V want = rSplit(src, " \n|"); if (got != want) c.fail("prettyPrint:words", args); 
      size_t nb = 0; for (char ch : ss[k]) nb += ch == '\n'; if (lines.size() < nb + 1) c.fail("prettyPrint:breaks", args); S t = src; U::prettyPrint(t, ld, ind, fi, len, ' '); if (t != g) c.fail("prettyPrint:forms", args); c.outcome(hstr(g)); } }); }
  { std::vector<HX> cs; for (int idx = 0; idx < 2; idx++) for (int fl = 0; fl < 8; fl++) for (auto gb : std::vector<std::array<unsigned, 3>>{{{2, 8, 16}}, {{1, 4, 8}}, {{0, 0, 5}}, {{4, 4, 8}}, {{2, 0, 4}}, {{0, 3, 6}}, {{3, 6, 12}}}) for (int text = 0; text < 2; text++) for (int base = 0; base < 4; base++) for (int sep = 0; sep < 2; sep++) for (unsigned indent : {0u, 3u}) { if (gb[0] == 2 && gb[1] == 0) continue; if (indent && sep) continue; cs.push_back({idx > 0, (fl & 1) > 0, (fl & 2) > 0, unsigned(fl & 4 ? 2 : 4), gb[0], gb[1], gb[2], text > 0, (base & 1) > 0, (base & 2) > 0, sep, indent}); }
  h.part("hexdump", cs.size(), [=](Ctx& c, u64 i) { const HX& x = cs[i]; for (size_t n = 0; n <= (T ? 40 : 33); n++) { S data; for (size_t k = 0; k < n; k++) data += char((k * 37 + i * 11 + n) & 255); U::HexDumpDataConfig f(x.idx, x.hexi, x.up, x.dig, x.sep ? S("::") : S(": "), x.g1, x.sep ? S("_") : S(" "), x.g2, x.sep ? S("==") : S("  "), x.bpl, x.text, x.sep ? S(" <") : S("   |"), x.sep ? S(">") : S("|"), x.bd, x.bi, x.sep ? S(";") : S(), x.sep ? S("end") : S(), x.sep ? S("// ") : S()); std::ostringstream os; os << std::setw(0); if (x.indent) U::hexDumpData(os, data, x.indent, f); else U::hexDumpData(data, os, f);
      auto render = [&](size_t a, size_t b) { S l = x.indent ? S(x.indent, ' ') : f.prefix; char t[32]; if (x.idx) { if (x.bi) l += x.hexi ? (x.up ? "0X" : "0x") : ""; snprintf(t, 32, x.hexi ? (x.up ? "%0*lX" : "%0*lx") : "%0*lu", (int)x.dig, (unsigned long)a); l += t; l += f.indexSep; } for (size_t k = a; k < b; k++) { if (x.g1 && k % x.g1 == 0 && x.bd) l += x.up ? "0X" : "0x"; snprintf(t, 32, x.up ? "%02X" : "%02x", (unsigned char)data[k]); l += t; if (k + 1 < b) { if (x.g2 && k % x.g2 == x.g2 - 1) l += f.group2Sep; else if (x.g1 && k % x.g1 == x.g1 - 1) l += f.groupSep; } } l += b == n ? f.dataFinal : f.dataEndSep; return l; };
      V rows; V txt; for (size_t a = 0; a < n; a += x.bpl) { size_t b = std::min(n, a + x.bpl); rows.push_back(render(a, b)); S t; for (size_t k = a; k < b; k++) { unsigned char u = data[k]; t += u >= 32 && u < 127 ? char(u) : '.'; } txt.push_back(t); } size_t wide = 0; for (auto& r : rows) wide = std::max(wide, r.size()); 
      V got = rSplit(os.str(), "\n"); c.eval(); S cfg = "config " + num(i) + " bytes " + num(n); if (got.size() != rows.size()) { c.fail("hexDumpData:lines", cfg); continue; } size_t col = NP; for (size_t r = 0; r < rows.size(); r++) { S g = got[r]; if (!x.text) { if (g != rows[r]) { c.fail("hexDumpData:line", cfg + " " + q(g) + " want " + q(rows[r])); break; } continue; } S end = f.preText + txt[r] + f.postText; if (g.compare(0, rows[r].size(), rows[r]) || g.size() < rows[r].size() + end.size() || g.substr(g.size() - end.size()) != end) { c.fail("hexDumpData:line", cfg + " " + q(g) + " want " + q(rows[r] + " ... " + end)); break; } S mid = g.substr(rows[r].size(), g.size() - end.size() - rows[r].size()); if (mid.find_first_not_of(' ') != NP) c.fail("hexDumpData:gap", cfg + q(g)); size_t at = g.size() - end.size(); if (col == NP) col = at; if (at != col) { c.fail(x.bi || x.bd ? "hexDumpData:text-column-base" : "hexDumpData:text-column", cfg + " " + q(os.str())); break; } } c.outcome(hstr(os.str())); } }); }
  return h.run(argc, argv);
}
