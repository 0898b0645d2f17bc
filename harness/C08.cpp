// MC-SAN: asan
// MC-RULE: the text is the correctly rounded decimal of the requested digit count in the requested layout; reading it gives the double nearest to that text
// MC-ASSUME: glibc printf %e and strtod are correctly rounded ; mantissa length at least 1 digit after the point
#include <memory>
#include <map>
#include <cmath>
#include <limits>
#include "mc.hpp"
#include "StringUtils.hpp"
#include "FormattedDouble.hpp"
#include "RNDouble.hpp"
using namespace gpstk; using namespace mc; using namespace gpstk::StringUtils; typedef std::string S;
static S sci(double a, int prec) { char b[64]; snprintf(b, 64, "%.*e", prec, a); return b; }
static void split(double d, int digits, S& dg, int& ex) { S s = sci(std::fabs(d), digits - 1); size_t e = s.find('e'); ex = atoi(s.c_str() + e + 1); dg.clear(); for (char c : s.substr(0, e)) if (isdigit((unsigned char)c)) dg += c; }
static S expText(int ex, unsigned width) { S s = std::to_string(std::abs(ex)); while (s.size() < width) s = "0" + s; return (ex < 0 ? "-" : "+") + s; }
// the layout as documented for floatFormat
static S want(double d, FFLead lead, unsigned m, unsigned e, unsigned w, char ch, FFSign sg, FFAlign al) {
  int digits = lead == FFLead::Zero ? m - 1 : m, ex; S dg; split(d, digits, dg, ex); if (lead != FFLead::NonZero && d != 0) ex++;
  S body = lead == FFLead::Zero ? "0." + dg : lead == FFLead::Decimal ? "." + dg : dg.substr(0, 1) + (dg.size() > 1 ? "." + dg.substr(1) : S());
  S s = std::signbit(d) ? "-" : sg == FFSign::NegPos ? "+" : sg == FFSign::NegSpace ? " " : ""; s += body + ch + expText(ex, std::max(2u, e));
  if (s.size() < w) { if (al == FFAlign::Left) s.append(w - s.size(), ' '); else s.insert(0, w - s.size(), ' '); } return s; }
static std::vector<S> mantissas(bool rich) { std::vector<S> v; for (int a = 1; a <= 9; a++) v.push_back(S(1, '0' + a)); for (int k = 1; k <= 17; k++) { S n = "9." + S(k, '9'); v.push_back(n); for (char t : {'4', '5', '6'}) { v.push_back("9." + S(k - 1, '9') + t); v.push_back("1." + S(k - 1, '0') + t); if (rich) { v.push_back("4." + S(k - 1, '4') + t); v.push_back("1." + S("2345678901234567").substr(0, k - 1) + t + "0000000001"); v.push_back("7." + S(k - 1, '2') + t + "5"); } } } 
  for (const char* s : {"1.2345678901234567", "1.7976931348623157", "2.2250738585072014", "3.1415926535897932", "6.02214076", "5.0000000000000001", "0.5", "1.25", "2.5", "3.75", "1.5", "8.5", "1.0009765625", "1.00048828125"}) v.push_back(s);
  if (rich) for (int a = 100; a < 1000; a++) v.push_back(S(1, '0' + a / 100) + "." + S(1, '0' + a / 10 % 10) + S(1, '0' + a % 10)); return v; }
static S show(double d) { return sci(d, 17); }
static bool eq(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (a == 0 && b == 0); }
static double ref(S t) { for (char& c : t) if (c == 'D' || c == 'd' || c == 'x') c = 'e'; return strtod(t.c_str(), 0); }

int main(int argc, char** argv) {
  Harness h("C08");
  auto ML = mantissas(true), MS = mantissas(false);
  // the 19-character D notation of RINEX navigation, clock and met files: every exponent
  h.part("rinex-double", 617, [&](Ctx& c, u64 i) { int ex = int(i) - 308; for (auto& m : ML) for (int sg = 0; sg < 2; sg++) { double d = strtod(((sg ? "-" : "") + m + "e" + std::to_string(ex)).c_str(), 0); if (!std::isfinite(d)) continue; c.eval();
      S w = want(d, FFLead::Decimal, 12, 2, 19, 'D', FFSign::NegOnly, FFAlign::Right); RNDouble r(d); std::ostringstream os; os << r; S s = (S)r; if (os.str() != w || s != w) { c.fail("RNDouble:text", show(d) + " -> '" + os.str() + "' want '" + w + "'"); return; } 
      c.outcome(hstr(w)); double back = ref(w); if (!std::isfinite(back)) continue; RNDouble q(w); if (!eq((double)q, back)) c.fail("RNDouble:read", "'" + w + "' -> " + show((double)q)); RNDouble z; z = w; if (!eq(z.val, back)) c.fail("RNDouble:assign", w); double f = for2doub(w); if (!eq(f, back)) c.fail("for2doub", "'" + w + "' -> " + show(f)); f = for2doub("xy" + w + "99", 2, w.size()); if (!eq(f, back)) c.fail("for2doub:substr", w); } }, 120);
  static const FFLead LD[] = {FFLead::Zero, FFLead::Decimal, FFLead::NonZero}; static const FFSign SG[] = {FFSign::NegOnly, FFSign::NegSpace, FFSign::NegPos};
  std::vector<double> vals; { std::vector<int> X = {0, 1, -1, -2, 7, -9, 9, 10, 98, 99, 100, -99, -100, -101, 307}; for (size_t k = 0; k < MS.size(); k++) for (int x : X) { if ((k + x) % 3 && !h.thorough) continue; double d = strtod((MS[k] + "e" + std::to_string(x)).c_str(), 0); if (std::isfinite(d)) vals.push_back(k % 2 ? d : -d); } for (double d : {0.0, -0.0, 1e308, -1.7e308, 1.7976931348623157e308, 2.2250738585072014e-308, 4.9e-324, -4.9e-324, 1.0, -1.0, 0.5, 1024.0, 1e22, 1e23}) vals.push_back(d); }
  h.part("layouts", 3 * 18 * 5, [&](Ctx& c, u64 i) { FFLead ld = LD[i % 3]; unsigned m = i / 3 % 18 + 1, e = i / 54; if (ld == FFLead::Zero && m < 2) return; 
    for (double d : vals) for (int s = 0; s < 3; s++) { S nat = want(d, ld, m, e, 0, 'e', SG[s], FFAlign::Left); unsigned L = nat.size(); bool bad = false;
      for (unsigned w : {0u, L - 1, L, L + 1, L + 9}) for (FFAlign al : {FFAlign::Left, FFAlign::Right}) { char ch = "eEDdx"[(w + s) % 5]; c.eval(); S g = floatFormat(d, ld, m, e, w, ch, SG[s], al), x = want(d, ld, m, e, w, ch, SG[s], al); if (g != x) { c.fail("floatFormat:" + S(i % 3 == 0 ? "Zero" : i % 3 == 1 ? "Decimal" : "NonZero"), show(d) + " digits " + std::to_string(m) + " exponent " + std::to_string(e) + " width " + std::to_string(w) + " sign " + std::to_string(s) + " -> '" + g + "' want '" + x + "'"); bad = true; break; }
        if (w < L || (L + w + s + e) % 4 == 0) { FormattedDouble f(d, ld, m, e, w, ch, SG[s], al); std::ostringstream os; os << f; if (os.str() != x || (S)f != x) c.fail("FormattedDouble:text", "'" + os.str() + "' want '" + x + "'"); double back = ref(x); if (std::isfinite(back) && (back == 0 || std::fabs(back) >= 2.3e-308)) { f = x; if (!eq(f.val, back)) c.fail("FormattedDouble:assign", "'" + x + "' -> " + show(f.val)); FormattedDouble q(x, w, ch); if (!eq(q.val, back)) c.fail("FormattedDouble:construct", "'" + x + "'"); FormattedDouble t(w < L ? 0 : w, ch); std::istringstream is(x + " tail"); is >> t; if (!eq(t.val, back)) c.fail("FormattedDouble:stream", "'" + x + "' -> " + show(t.val)); S rest; is >> rest; if (rest != "tail") c.fail("FormattedDouble:stream-rest", rest); } } }
      if (bad) return; } }, 200);
  h.part("non-finite", 3, [&](Ctx& c, u64 i) { for (double d : {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}) for (unsigned m = 2; m < 18; m++) for (unsigned w : {0u, 19u}) { c.eval(); S s = floatFormat(d, LD[i], m, 2, w, 'D'); if (s.size() < w || s.size() > std::max(w, 4u)) c.fail("floatFormat:non-finite", s); } });
  h.part("exponent-letters", ML.size(), [&](Ctx& c, u64 i) { // each accepted exponent letter in either case, with the value set by text only
    for (int ex : {-99, -10, -1, 0, 1, 5, 12, 99}) for (char ch : {'D', 'd', 'E', 'e'}) for (const char* lead : {"", " ", "-", "   ", "+"}) for (const char* trail : {"", " ", "   "}) { S t = S(lead) + ML[i] + ch + expText(ex, 2) + trail; double w = ref(t); c.eval(); 
      RNDouble r(t); if (!eq(r.val, w)) c.fail(S("RNDouble:letter-") + ch, "'" + t + "' -> " + show(r.val)); RNDouble z(7.0); z = t; if (!eq(z.val, w)) c.fail(S("RNDouble:letter-") + ch, t); FormattedDouble f(0u, 'D'); std::istringstream is(t); is >> f; if (!eq(f.val, w)) c.fail(S("FormattedDouble:letter-") + ch, t); FormattedDouble e(t, 0, 'E'); if (toupper(ch) == 'E' && !eq(e.val, w)) c.fail(S("FormattedDouble:E-letter-") + ch, t);
      if (!*lead || *lead != '+') { double g = for2doub(t); if (!eq(g, w)) c.fail(S("for2doub:letter-") + ch, "'" + t + "' -> " + show(g)); } }
    for (S t : {S(), S(" "), S("                   ")}) { RNDouble r(t); if (r.val != 0) c.fail("RNDouble:blank", show(r.val)); if (for2doub(t) != 0) c.fail("for2doub:blank", t); } 
    S plain = ML[i]; RNDouble r(plain); if (!eq(r.val, strtod(plain.c_str(), 0))) c.fail("RNDouble:plain", plain); if (!eq(for2doub(plain), strtod(plain.c_str(), 0))) c.fail("for2doub:plain", plain); });
  h.part("arithmetic", vals.size(), [&](Ctx& c, u64 i) { double d = vals[i]; FormattedDouble f(d, FFLead::Decimal, 12, 2, 19, 'D', FFSign::NegSpace, FFAlign::Right); auto fmt = [](const FormattedDouble& a) { return a.leadChar == FFLead::Decimal && a.mantissaLen == 12 && a.exponentLen == 2 && a.totalLen == 19 && a.exponentChar == 'D' && a.leadSign == FFSign::NegSpace && a.alignment == FFAlign::Right; }; c.eval();
    for (double k : {2.0, 3.0, -0.1}) { FormattedDouble a = f * k, b = f / k; if (!eq(a.val, d * k) || !eq(b.val, d / k) || !fmt(a) || !fmt(b)) c.fail("FormattedDouble:scale", show(d)); } FormattedDouble a(f); ++a; if (!eq(a.val, d + 1)) c.fail("FormattedDouble:++", show(d)); FormattedDouble b = a++; if (!eq(b.val, d + 1) || !eq(a.val, d + 1 + 1)) c.fail("FormattedDouble:++", show(d)); b = a--; --b; if (!eq(a.val, d + 1 + 1 - 1) || !eq(b.val, d + 1 + 1 - 1)) c.fail("FormattedDouble:--", show(d)); a = 3.5; if (a.val != 3.5 || !fmt(a)) c.fail("FormattedDouble:=", ""); double& rf = a; rf = 9; if ((double)a != 9) c.fail("FormattedDouble:&", ""); });
  // Fortran text: ' .ddddD+ee' or '-.dddd'; exactly the requested length whenever the exponent fits its field, never a wrong exponent
  h.part("doub2for", 617, [&](Ctx& c, u64 i) { int ex = int(i) - 308; for (auto& m : MS) for (int sg = 0; sg < 2; sg++) for (unsigned el = 1; el <= 3; el++) for (unsigned len : {el + 6, el + 8, 14u, 19u, 22u}) { double d = strtod(((sg ? "-" : "") + m + "e" + std::to_string(ex)).c_str(), 0); if (!std::isfinite(d) || d == 0) continue; c.eval();
      int digits = int(len) - 4 - int(el), e10; S dg; split(d, digits, dg, e10); e10++; S w = S(sg ? "-" : " ") + "." + dg + "D" + expText(e10, el); S g; try { g = doub2for(d, len, el); } catch (Exception& e) { c.fail("doub2for:refuses", show(d) + " length " + std::to_string(len) + " exponent " + std::to_string(el)); return; }
      if (g != w) { c.fail("doub2for", show(d) + " length " + std::to_string(len) + " exponent " + std::to_string(el) + " -> '" + g + "' want '" + w + "'"); return; } bool fits = (int)std::to_string(std::abs(e10)).size() <= (int)el; if (fits && g.size() != len) c.fail("doub2for:length", g); double back = for2doub(g); if (!eq(back, ref(w)) && std::isfinite(ref(w)) && std::fabs(ref(w)) > 2.3e-308) c.fail("doub2for:read-back", g + " -> " + show(back)); } 
    if (i == 0) for (unsigned el = 1; el <= 3; el++) for (unsigned len = el + 6; len < 24; len++) { S g = doub2for(0.0, len, el), w = " ." + S(len - 4 - el, '0') + "D+" + S(el, '0'); if (g != w) c.fail("doub2for:zero", "'" + g + "'"); } }, 120);
  h.part("doubleToScientific", 617, [&](Ctx& c, u64 i) { int ex = int(i) - 308; for (auto& m : MS) for (int sg = 0; sg < 2; sg++) for (unsigned el = 1; el <= 3; el++) for (unsigned pr : {1u, 2u, 5u, 11u, 16u}) for (unsigned len : {1u, 5u, 8u, 14u, 19u, 30u}) for (int plus = 0; plus < 2; plus++) { double d = strtod(((sg ? "-" : "") + m + "e" + std::to_string(ex)).c_str(), 0); if (!std::isfinite(d) || d == 0 || ((el + pr + len + plus) % 3 && ex % 11)) continue; c.eval();
      S dg; int e10; split(d, pr + 1, dg, e10); S w = S(sg ? "-" : plus ? "+" : "") + dg.substr(0, 1) + "." + dg.substr(1) + "e" + expText(e10, el); if (w.size() < len) w.insert(0, len - w.size(), ' '); S g; try { g = doubleToScientific(d, len, pr, el, plus); } catch (std::exception& e) { c.fail("doubleToScientific:refuses", show(d) + " length " + std::to_string(len) + " precision " + std::to_string(pr) + " exponent " + std::to_string(el)); return; } catch (Exception& e) { c.fail("doubleToScientific:refuses", show(d) + " length " + std::to_string(len) + " precision " + std::to_string(pr) + " exponent " + std::to_string(el)); return; }
      if (g != w) { c.fail("doubleToScientific", show(d) + " length " + std::to_string(len) + " precision " + std::to_string(pr) + " exponent " + std::to_string(el) + " -> '" + g + "' want '" + w + "'"); return; } } }, 120);
  h.part("sci2for", MS.size(), [&](Ctx& c, u64 i) { for (int ex = -99; ex <= 98; ex++) for (const char* sg : {"", "-"}) for (char ch : {'e', 'E'}) { S m = MS[i]; if (m.find('.') == S::npos) m += ".0"; if (m[0] == '0') continue; S in = S(sg) + m + ch + expText(ex, 2); c.eval(); S t = in; sci2for(t, 0, t.size(), 2); S dg = m.substr(0, 1) + m.substr(2); S w = S(*sg ? "-" : " ") + "." + dg + "D" + expText(ex + 1, 2); if (t != w) c.fail("sci2for", in + " -> '" + t + "' want '" + w + "'"); } for (S bad : {S("12345"), S("1.25"), S(" ")}) { if (i) break; S t = bad, x = thrown([&] { sci2for(t, 0, t.size(), 2); }); if (x.empty()) c.fail("sci2for:accepts", bad); } });
  return h.run(argc, argv);
}
