// MC-SAN: assert
// MC-RULE: RINEX/SP3 identifier texts and RINEX 3.03/3.04 observation-code tables; strict total order axioms; wildcard equality
// MC-ASSUME: numbers are those the two-digit RINEX/SP3 field can carry (QZSS 183-192 and 193 up in RINEX, 193 up in SP3; SBAS 101-199) ; LEXS and L6D share RINEX text J6S by specification, so only one of them can be parsed back
#include <memory>
#include <map>
#include <set>
#include <algorithm>
#include "mc.hpp"
#include "SatID.hpp"
#include "RinexSatID.hpp"
#include "SP3SatID.hpp"
#include "GSatID.hpp"
#include "ObsID.hpp"
#include "RinexObsID.hpp"
#include "NavID.hpp"
#include "NavType.hpp"
using namespace gpstk; using namespace mc; typedef std::string S;
typedef SatelliteSystem Y; typedef ObservationType OT; typedef CarrierBand CB; typedef TrackingCode TC;
static const std::vector<Y> SYS = {Y::Unknown, Y::GPS, Y::Galileo, Y::Glonass, Y::Geosync, Y::LEO, Y::Transit, Y::BeiDou, Y::QZSS, Y::IRNSS, Y::Mixed, Y::UserDefined};
static S sysn(Y s) { return std::to_string((int)s); }
static S two(int n) { S t = std::to_string(n); return t.size() < 2 ? "0" + t : t; }
// what each text flavour can express: system letter, id range, and the number written
struct Fl { char ch; Y y; int off; };
static const std::vector<Fl> RX = {{'G', Y::GPS, 0}, {'E', Y::Galileo, 0}, {'R', Y::Glonass, 0}, {'S', Y::Geosync, 100}, {'T', Y::Transit, 0}, {'J', Y::QZSS, 192}, {'C', Y::BeiDou, 0}, {'I', Y::IRNSS, 0}, {'M', Y::Mixed, 0}};
static const std::vector<Fl> SP = {{'G', Y::GPS, 0}, {'E', Y::Galileo, 0}, {'R', Y::Glonass, 0}, {'L', Y::LEO, 0}, {'C', Y::BeiDou, 0}, {'J', Y::QZSS, 192}, {'M', Y::Mixed, 0}};
static const std::vector<Fl> GS = {{'G', Y::GPS, 0}, {'E', Y::Galileo, 0}, {'R', Y::Glonass, 0}, {'S', Y::Geosync, 0}, {'T', Y::Transit, 0}, {'L', Y::LEO, 0}, {'J', Y::QZSS, 0}, {'C', Y::BeiDou, 0}, {'I', Y::IRNSS, 0}};
static int idOf(const std::vector<Fl>& T, const Fl& f, int n) { if (n <= 0) return -1; if (&T == &RX && f.y == Y::QZSS) return n >= 83 ? n + 100 : n + 192; return n + f.off; }
struct GS_ : GSatID { GS_() {} GS_(int i, Y s) : GSatID(i, s) {} GS_(const S& s) { fromString(s); } };
template <class T> static void roundTrip(Ctx& c, const std::vector<Fl>& tab, const char* nm) {
  std::map<S, std::pair<int, int>> seen; auto key = [&](const char* k) { return S(nm) + ":" + k; };
  for (auto& f : tab) for (int n = -1; n <= 99; n++) { if (n == 0 || (&tab == &RX && f.y == Y::QZSS && n > 92)) continue; int id = idOf(tab, f, n); T s(id, f.y); c.eval(); S t = s.toString(); std::ostringstream os; os << s; 
    if (os.str() != t) c.fail(key("stream"), os.str() + " vs " + t);
    if (n > 0 && t != S(1, f.ch) + two(n)) { c.fail(key("print"), "system " + sysn(f.y) + " id " + std::to_string(id) + " prints '" + t + "' not " + f.ch + two(n)); }
    if (s.systemChar() != f.ch) c.fail(key("systemChar"), S("system ") + sysn(f.y) + " is '" + s.systemChar() + "'");
    try { T r(t); c.outcome(hmix(hstr(nm), hstr(t))); if (r.id != id || r.system != f.y || !(r == s) || r != s) c.fail(key("round-trip"), "system " + sysn(f.y) + " id " + std::to_string(id) + " -> '" + t + "' -> system " + sysn(r.system) + " id " + std::to_string(r.id)); } catch (Exception& e) { c.fail(key("round-trip"), "'" + t + "' refused"); }
    auto it = seen.insert({t, {(int)f.y, id}}); if (!it.second && it.first->second != std::make_pair((int)f.y, id)) c.fail(key("collision"), "'" + t + "' for two identifiers"); }
  for (Y y : SYS) { bool in = false; for (auto& f : tab) in |= f.y == y; if (in) { T s(SatID(7, y).id, y); if (s.system != y || s.id != 7) c.fail(key("keep"), sysn(y)); } else { T s(7, y); if (s.id != -1 || s.system == y && y != Y::Unknown && y != Y::GPS) c.fail(key("unsupported"), "system " + sysn(y) + " kept as id " + std::to_string(s.id)); } } }
// what a text means: leading blanks skipped, letter (either case) or none = GPS, then a positive decimal number, anything else = "no satellite"
template <class T> static void scan(Ctx& c, const std::vector<Fl>& tab, const char* nm, const S& txt) {
  static const S WS = " \t\n"; size_t p = txt.find_first_not_of(WS); Y want = Y::GPS; int num = -1; bool refuse = false; const Fl* fl = &tab[0]; c.eval();
  if (p != S::npos) { char ch = txt[p]; if (!isdigit((unsigned char)ch)) { refuse = true; for (auto& f : tab) if (f.ch == toupper(ch)) { refuse = false; fl = &f; want = f.y; } p++; }
    if (!refuse) { while (p < txt.size() && WS.find(txt[p]) != S::npos) p++; size_t q = p; while (q < txt.size() && isdigit((unsigned char)txt[q])) q++; if (q < txt.size() && WS.find(txt[q]) == S::npos) { if (q > p) return; /* trailing junk: not specified */ if (strchr("+-", txt[q])) return; }
      num = q > p ? std::stoi(txt.substr(p, q - p)) : -1; } }
  int id = p == S::npos ? -1 : idOf(tab, *fl, num); S key = S(nm) + ":scan";
  try { T s(txt); if (refuse) c.fail(S(nm) + ":accepts", "'" + txt + "' accepted as system " + sysn(s.system) + " id " + std::to_string(s.id)); else if (s.system != want || s.id != id) c.fail(key, "'" + txt + "' -> system " + sysn(s.system) + " id " + std::to_string(s.id) + ", want " + sysn(want) + " " + std::to_string(id)); }
  catch (Exception& e) { if (!refuse) c.fail(S(nm) + ":refuses", "'" + txt + "'"); } }
static const S AL = " \t0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz-+.?*_";
template <class V> static void order(Ctx& c, const std::vector<V>& v, const char* nm, std::function<S(const V&)> show, bool gt = true) {
  // an order is strict and total iff comparing by rank in one sorted sequence reproduces every pairwise answer
  std::vector<V> s = v; std::stable_sort(s.begin(), s.end()); 
  for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < s.size(); j++) { bool lt = s[i] < s[j], eq = s[i] == s[j]; 
    if (lt != (i < j) || eq != (i == j)) { c.fail(S(nm) + ":order", show(s[i]) + " vs " + show(s[j]) + " ranks " + std::to_string(i) + "," + std::to_string(j) + " lt " + std::to_string(lt) + " eq " + std::to_string(eq)); return; }
    if (gt && ((s[i] > s[j]) != (i > j) || (s[i] <= s[j]) != (i <= j) || (s[i] >= s[j]) != (i >= j) || (s[i] != s[j]) != (i != j))) { c.fail(S(nm) + ":derived", show(s[i]) + " vs " + show(s[j])); return; } }
  c.eval(u64(s.size()) * s.size()); std::set<V> st(v.begin(), v.end()); if (st.size() != v.size()) c.fail(S(nm) + ":set", std::to_string(st.size()) + " of " + std::to_string(v.size())); }
template <class V> static std::vector<V> sats(bool all) { std::vector<V> v; std::set<std::pair<int, int>> seen; for (Y y : SYS) for (int id : {-1, 0, 1, 2, 9, 10, 32, 33, 63, 99, 100, 120, 192, 193, 999, 2147483647, -2147483647 - 1}) { V s(id, y); if (seen.insert({(int)s.system, s.id}).second) v.push_back(s); } return v; }
template <class E, class It> static void enumText(Ctx& c, const char* nm, S (*pr)(E), E (*ps)(const S&), int n, int unk) {
  std::map<S, int> seen; int k = 0; std::set<int> visited; for (E e : It()) { visited.insert((int)e); if (++k > 1000) break; } 
  if ((int)visited.size() != n || k != n) c.fail(S(nm) + ":iterator", "visits " + std::to_string(k) + " of " + std::to_string(n) + " values");
  for (int i = 0; i < n; i++) { S t = pr((E)i); c.eval(); c.outcome(hmix(hstr(nm), hstr(t))); auto it = seen.insert({t, i}); if (!it.second) c.fail(S(nm) + ":collision", "'" + t + "' names values " + std::to_string(i) + " and " + std::to_string(it.first->second));
    if (t.empty() || t.find_first_of(" \t\n,") != S::npos) c.fail(S(nm) + ":blank", "'" + t + "'"); if (t == "???") c.fail(S(nm) + ":unnamed", std::to_string(i)); E b = ps(t); if ((int)b != i) c.fail(S(nm) + ":round-trip", "'" + t + "' -> " + std::to_string((int)b) + " want " + std::to_string(i)); 
    for (S w : {t + "x", t.substr(0, t.size() - 1), " " + t, S()}) if (!seen.count(w)) { int g = (int)ps(w); bool known = false; for (int j = 0; j < n; j++) known |= pr((E)j) == w; if (!known && g != unk) c.fail(S(nm) + ":accepts", "'" + w + "' -> " + std::to_string(g)); } } }
// RINEX 3.03/3.04 observation codes: system, band digit, attributes
struct Obs { char s, b; const char* at; };
static const std::vector<Obs> OB = {{'G', '1', "PYWLMCSXN"}, {'G', '2', "PYWLMCSXDN"}, {'G', '5', "IQX"}, {'R', '1', "PC"}, {'R', '2', "PC"}, {'R', '3', "IQX"}, {'R', '4', "ABX"}, {'R', '6', "ABX"},
  {'E', '1', "ABCXZ"}, {'E', '5', "IQX"}, {'E', '6', "ABCXZ"}, {'E', '7', "IQX"}, {'E', '8', "IQX"}, {'S', '1', "C"}, {'S', '5', "IQX"}, {'J', '1', "CSLXZ"}, {'J', '2', "SLX"}, {'J', '5', "IQXDPZ"}, {'J', '6', "SLXEZ"},
  {'C', '1', "PAXDN"}, {'C', '2', "IQX"}, {'C', '5', "PXD"}, {'C', '6', "AIQX"}, {'C', '7', "IQXDPZ"}, {'C', '8', "PXD"}, {'I', '5', "ABCX"}, {'I', '9', "ABCX"}};
static bool inTab(char s, char b, char a) { for (auto& o : OB) if (o.s == s && o.b == b && strchr(o.at, a)) return true; return s == 'C' && b == '1' && (a == 'I' || a == 'Q'); }
static bool bandTab(char s, char b) { for (auto& o : OB) if (o.s == s && o.b == b) return true; return false; }
// the carrier and signal each RINEX code stands for (RINEX 3.04 tables 9-15), written by name
static std::map<S, std::pair<CB, TC>> means() { std::map<S, std::pair<CB, TC>> m; auto P = [&](const char* sb, CB b, std::vector<std::pair<char, TC>> v) { for (auto& x : v) m[S(sb) + x.first] = {b, x.second}; };
  P("G1", CB::L1, {{'C', TC::CA}, {'S', TC::L1CD}, {'L', TC::L1CP}, {'X', TC::L1CDP}, {'P', TC::P}, {'W', TC::Ztracking}, {'Y', TC::Y}, {'M', TC::MDP}, {'N', TC::YCodeless}});
  P("G2", CB::L2, {{'C', TC::CA}, {'D', TC::Semicodeless}, {'S', TC::L2CM}, {'L', TC::L2CL}, {'X', TC::L2CML}, {'P', TC::P}, {'W', TC::Ztracking}, {'Y', TC::Y}, {'M', TC::MDP}, {'N', TC::YCodeless}});
  for (const char* g : {"G5", "S5", "J5"}) P(g, CB::L5, {{'I', TC::L5I}, {'Q', TC::L5Q}, {'X', TC::L5IQ}}); P("S1", CB::L1, {{'C', TC::CA}});
  P("R1", CB::G1, {{'C', TC::Standard}, {'P', TC::Precise}}); P("R2", CB::G2, {{'C', TC::Standard}, {'P', TC::Precise}}); P("R3", CB::G3, {{'I', TC::L3OCD}, {'Q', TC::L3OCP}, {'X', TC::L3OCDP}}); P("R4", CB::G1a, {{'A', TC::L1OCD}, {'B', TC::L1OCP}, {'X', TC::L1OCDP}}); P("R6", CB::G2a, {{'A', TC::L2CSI}, {'B', TC::L2OCP}, {'X', TC::L2CSIL2OCp}});
  P("E1", CB::L1, {{'A', TC::E1A}, {'B', TC::E1B}, {'C', TC::E1C}, {'X', TC::E1BC}, {'Z', TC::E1ABC}}); P("E6", CB::E6, {{'A', TC::E6A}, {'B', TC::E6B}, {'C', TC::E6C}, {'X', TC::E6BC}, {'Z', TC::E6ABC}}); P("E5", CB::L5, {{'I', TC::E5aI}, {'Q', TC::E5aQ}, {'X', TC::E5aIQ}}); P("E7", CB::E5b, {{'I', TC::E5bI}, {'Q', TC::E5bQ}, {'X', TC::E5bIQ}}); P("E8", CB::E5ab, {{'I', TC::E5abI}, {'Q', TC::E5abQ}, {'X', TC::E5abIQ}});
  P("J1", CB::L1, {{'C', TC::CA}, {'S', TC::L1CD}, {'L', TC::L1CP}, {'X', TC::L1CDP}, {'Z', TC::L1S}}); P("J2", CB::L2, {{'S', TC::L2CM}, {'L', TC::L2CL}, {'X', TC::L2CML}}); P("J5", CB::L5, {{'D', TC::L5SI}, {'P', TC::L5SQ}, {'Z', TC::L5SIQ}}); P("J6", CB::E6, {{'S', TC::LEXS}, {'L', TC::LEXL}, {'X', TC::LEXSL}, {'E', TC::L6E}, {'Z', TC::L6DE}});
  P("C2", CB::B1, {{'I', TC::B1I}, {'Q', TC::B1Q}, {'X', TC::B1IQ}}); P("C1", CB::L1, {{'D', TC::B1CD}, {'P', TC::B1CP}, {'X', TC::B1CDP}, {'A', TC::B1A}, {'N', TC::BCodeless}}); P("C5", CB::L5, {{'D', TC::B2aI}, {'P', TC::B2aQ}, {'X', TC::B2aIQ}}); P("C7", CB::B2, {{'I', TC::B2I}, {'Q', TC::B2Q}, {'X', TC::B2IQ}, {'D', TC::B2bI}, {'P', TC::B2bQ}, {'Z', TC::B2bIQ}}); P("C8", CB::E5ab, {{'D', TC::B2abI}, {'P', TC::B2abQ}, {'X', TC::B2abIQ}}); P("C6", CB::B3, {{'I', TC::B3I}, {'Q', TC::B3Q}, {'X', TC::B3IQ}, {'A', TC::B3AIQ}});
  P("I5", CB::L5, {{'A', TC::SPSL5}, {'B', TC::RSL5D}, {'C', TC::RSL5P}, {'X', TC::RSL5DP}}); P("I9", CB::I9, {{'A', TC::SPSS}, {'B', TC::RSSD}, {'C', TC::RSSP}, {'X', TC::RSSDP}}); return m; }
static S idn(const ObsID& o) { return std::to_string((int)o.type) + "/" + std::to_string((int)o.band) + "/" + std::to_string((int)o.code); }
static bool same(const ObsID& a, const ObsID& b) { return a.type == b.type && a.band == b.band && a.code == b.code; }

int main(int argc, char** argv) {
  Harness h("C10");
  const int nOT = (int)OT::Last, nCB = (int)CB::Last, nTC = (int)TC::Last;
  h.part("satellite-text", 3, [&](Ctx& c, u64 i) { if (i == 0) roundTrip<RinexSatID>(c, RX, "RinexSatID"); if (i == 1) roundTrip<SP3SatID>(c, SP, "SP3SatID"); if (i == 2) roundTrip<GS_>(c, GS, "GSatID"); });
  h.part("satellite-fill", 3, [&](Ctx& c, u64 i) { // the fill character only changes padding and the padded text still parses back
    for (char f : {'0', ' '}) for (auto& e : RX) for (int n = 1; n <= (e.y == Y::QZSS ? 92 : 99); n++) { c.eval(); if (i == 0) { RinexSatID s(idOf(RX, e, n), e.y); char old = s.setfill(f); if (s.getfill() != f) c.fail("RinexSatID:fill", "getfill"); S t = s.toString(), w = two(n); if (n < 10) w[0] = f; if (t != S(1, e.ch) + w) c.fail("RinexSatID:fill", t); RinexSatID r(t); if (!(r == s)) c.fail("RinexSatID:fill-round-trip", t); s.setfill(old); }
      if (i == 1) { SP3SatID s(n, Y::GPS); char old = s.setfill(f); S t = s.toString(); SP3SatID r(t); if (!(r == s) || t.size() != 3 || t[1] != (n < 10 ? f : char('0' + n / 10))) c.fail("SP3SatID:fill", t); s.setfill(old); }
      if (i == 2) { GS_ s(n, Y::GPS); char old = s.setfill(f); S t = s.toString(); GS_ r(t); if (!(r == s) || t.size() != 3 || t[1] != (n < 10 ? f : char('0' + n / 10))) c.fail("GSatID:fill", t); s.setfill(old); } } });
  h.part("satellite-scan", AL.size(), [&](Ctx& c, u64 i) { S a(1, AL[i]); auto one = [&](const S& t) { scan<RinexSatID>(c, RX, "RinexSatID", t); scan<SP3SatID>(c, SP, "SP3SatID", t); scan<GS_>(c, GS, "GSatID", t); };
    if (!i) one(""); one(a); for (char x : AL) { one(a + x); for (char y : AL) one(a + x + y); } for (int n = 0; n < 1000; n++) { S d = std::to_string(n); one(a + d); one(" " + a + " " + d + " "); one(a + "00" + d); } }, 300);
  h.part("satellite-order", 4, [&](Ctx& c, u64 i) { auto sh = [](const SatID& s) { return sysn(s.system) + ":" + std::to_string(s.id); };
    if (i == 0) order<SatID>(c, sats<SatID>(true), "SatID", sh); if (i == 1) order<RinexSatID>(c, sats<RinexSatID>(true), "RinexSatID", sh); if (i == 2) order<SP3SatID>(c, sats<SP3SatID>(true), "SP3SatID", sh);
    if (i == 3) order<GS_>(c, sats<GS_>(true), "GSatID", sh); });
  h.part("satellite-dump", SYS.size(), [&](Ctx& c, u64 i) { std::set<S> seen; for (int id = -1; id < 1000; id++) { SatID s(id, SYS[i]); std::ostringstream o; o << s; c.eval(); S w = StringUtils::asString(SYS[i]) + " " + std::to_string(id); if (o.str() != w || StringUtils::asString(s) != w) c.fail("SatID:dump", o.str()); bool v = SYS[i] == Y::GPS ? id > 0 && id <= 32 : id > 0 && id < 100; if (s.isValid() != v) c.fail("SatID:isValid", w); } });
  h.part("enum-text", 5, [&](Ctx& c, u64 i) { using namespace StringUtils;
    if (i == 0) enumText<Y, SatelliteSystemIterator>(c, "SatelliteSystem", asString, asSatelliteSystem, (int)Y::Last, (int)Y::Unknown); if (i == 1) enumText<OT, ObservationTypeIterator>(c, "ObservationType", asString, asObservationType, nOT, (int)OT::Unknown);
    if (i == 2) enumText<CB, CarrierBandIterator>(c, "CarrierBand", asString, asCarrierBand, nCB, (int)CB::Unknown); if (i == 3) enumText<TC, TrackingCodeIterator>(c, "TrackingCode", asString, asTrackingCode, nTC, (int)TC::Unknown);
    if (i == 4) { enumText<NavType, NavTypeIterator>(c, "NavType", asString, asNavType, (int)NavType::Last, (int)NavType::Unknown); for (int k = 0; k < (int)NavType::Last; k++) { NavID n(StringUtils::asString((NavType)k)); if (n.navType != (NavType)k) c.fail("NavID:text", std::to_string(k)); std::ostringstream o; o << n; if (o.str() != StringUtils::asString((NavType)k)) c.fail("NavID:print", o.str()); } } });
  // ObsID: the order is total over every combination of type, band and code (wildcards aside), equality means equality of all fields
  std::vector<ObsID> all; for (int t = 0; t < nOT; t++) for (int b = 0; b < nCB; b++) for (int k = 0; k < nTC; k++) if ((OT)t != OT::Any && (CB)b != CB::Any && (TC)k != TC::Any) all.push_back(ObsID((OT)t, (CB)b, (TC)k));
  std::vector<ObsID> sorted = all; std::stable_sort(sorted.begin(), sorted.end());
  const u64 CH = 64; h.part("obs-order", CH, [&](Ctx& c, u64 i) { size_t n = sorted.size(), lo = n * i / CH, hi = n * (i + 1) / CH; 
    for (size_t a = lo; a < hi; a++) { const ObsID& x = sorted[a]; for (size_t b = 0; b < n; b++) { const ObsID& y = sorted[b]; bool lt = x < y, eq = x == y, se = same(x, y); if (lt != (a < b) || eq != (a == b) || se != (a == b)) { c.fail("ObsID:order", idn(x) + " vs " + idn(y) + " lt " + std::to_string(lt) + " eq " + std::to_string(eq)); return; } if (((a * 31 + b) & 63) == 0 && ((x > y) != (a > b) || (x <= y) != (a <= b) || (x >= y) != (a >= b) || (x != y) == eq)) { c.fail("ObsID:derived", idn(x) + " vs " + idn(y)); return; } } } c.eval(u64(hi - lo) * n); c.states(hi - lo); }, 300);
  h.part("obs-wildcard", nTC, [&](Ctx& c, u64 i) { TC any = TC::Any; // a wildcard field matches everything in that field and nothing in another
    for (int b = 0; b < nCB; b++) for (int t = 0; t < nOT; t++) { ObsID x((OT)t, (CB)b, (TC)i); for (int m = 0; m < 8; m++) { ObsID p(m & 1 ? OT::Any : x.type, m & 2 ? CB::Any : x.band, m & 4 ? any : x.code); c.eval(); if (!(p == x) || !(x == p) || p != x) c.fail("ObsID:wildcard", idn(p) + " must match " + idn(x));
        for (int f = 0; f < 3; f++) { ObsID q = x; int d = 2 + (b + t + i) % 5; if (f == 0) q.type = (OT)((t + d) % nOT); if (f == 1) q.band = (CB)((b + d) % nCB); if (f == 2) q.code = (TC)((i + d) % nTC); bool anyq = f == 0 ? q.type == OT::Any || p.type == OT::Any : f == 1 ? q.band == CB::Any || p.band == CB::Any : q.code == TC::Any || p.code == TC::Any; if ((p == q) != anyq) c.fail("ObsID:wildcard", idn(p) + " vs " + idn(q) + " gives " + std::to_string(p == q)); } } } });
  auto M = means();
  h.part("rinex-obs-codes", 7 * 4, [&](Ctx& c, u64 i) { char s = "GRESCJI"[i % 7], ty = "CLDS"[i / 7]; std::map<S, S> seen; 
    for (auto& o : OB) if (o.s == s) for (const char* a = o.at; *a; a++) for (double v : {3.0, 3.01, 3.02, 3.03, 3.04}) { S t = S(1, ty) + o.b + *a; c.eval(); if (s == 'C' && o.b == '1' && *a == 'X' && v == 3.02) continue; 
      RinexObsID r(S(1, s) + t, v); auto w = M[S(1, s) + o.b + *a]; OT wt = ty == 'C' ? OT::Range : ty == 'L' ? OT::Phase : ty == 'D' ? OT::Doppler : OT::SNR; c.outcome(hstr(S(1, s) + t + idn(r)));
      if (r.type != wt || r.band != w.first || r.code != w.second) c.fail("RinexObsID:meaning", S(1, s) + t + " read as " + StringUtils::asString(r.type) + "/" + StringUtils::asString(r.band) + "/" + StringUtils::asString(r.code));
      if (s == 'C' && o.b == '2' && v == 3.02) { if (r.asString() != S(1, ty) + '1' + *a) c.fail("RinexObsID:bds302", t + " -> " + r.asString()); if (!same(RinexObsID("C" + r.asString(), v), r)) c.fail("RinexObsID:bds302-back", t); }
      else if (r.asString() != t) c.fail("RinexObsID:round-trip", S(1, s) + t + " prints " + r.asString() + " in version " + std::to_string(v)); 
      if (r.asString(3.03) != t) c.fail("RinexObsID:round-trip", t); if (isValidRinexObsID(t)) { RinexObsID cp{ObsID(r)}; if (!same(cp, r)) c.fail("RinexObsID:convert", t); }
      if (s == 'G') { RinexObsID g(t, v); if (!same(g, r)) c.fail("RinexObsID:default-gps", t); RinexObsID g2(t.c_str(), v); if (!same(g2, r)) c.fail("RinexObsID:c-string", t); }
      auto it = seen.insert({idn(r), t}); if (!it.second && it.first->second != t) c.fail("RinexObsID:collision", S(1, s) + t + " and " + it.first->second + " are the same identifier"); }
    if (s == 'C') for (char a : S("IQX")) { RinexObsID r(S("C") + ty + "1" + a, 3.02), q(S("C") + ty + "2" + a, 3.03); c.eval(); if (!same(r, q)) c.fail("RinexObsID:bds302", S("1") + a); if (r.asString() != S(1, ty) + "1" + a) c.fail("RinexObsID:bds302", r.asString()); } });
  h.part("rinex-obs-valid", 8, [&](Ctx& c, u64 i) { char s = "GRESCJI#"[i]; S al; for (char k = 32; k < 127; k++) al += k; 
    for (char ty : al) for (char b : al) for (char a : al) { S t = S(1, ty) + b + a; c.eval(); bool w; 
      if (i < 7) { bool chan = ty == 'X' && b == '1' && a == ' ', iono = ty == 'I' && a == ' ' && bandTab(s, b); bool code = strchr("CLDS", ty) && inTab(s, b, a) && !(s == 'G' && ty == 'C' && a == 'N'); w = chan || iono || code; 
        // wildcards and blanks are only for searching, not for data; leave their acceptance out of the claim
        if (!w && (ty == '*' || ((a == '*' || a == ' ') && strchr("CLDS", ty) && (bandTab(s, b) || (b == '1' && s == 'I'))))) continue; if (ty == '*' ) continue; }
      else { if (ty == '*' || a == '*' || (a == ' ' && ty != 'X' && ty != 'I')) continue; w = false; for (char q : S("GRESCJI")) w |= isValidRinexObsID(t, q); }
      bool g = i < 7 ? isValidRinexObsID(t, s) : isValidRinexObsID(t); if (g != w) c.fail(S("isValidRinexObsID:") + (g ? "accepts" : "refuses"), (i < 7 ? S(1, s) + " " : S()) + "'" + t + "'"); if (i < 7 && isValidRinexObsID(S(1, s) + t) != g) c.fail("isValidRinexObsID:four", S(1, s) + t); }
    for (S t : {S(), S("C"), S("C1"), S("GC1CC")}) { if (isValidRinexObsID(t) || isValidRinexObsID(t, s)) c.fail("isValidRinexObsID:length", t); } for (char q : al) if (!strchr("GRESCJI", q)) if (isValidRinexObsID(S(1, q) + "C1C") || isValidRinexObsID("C1C", q)) c.fail("isValidRinexObsID:system", S(1, q)); }, 120);
  h.part("rinex-obs-any-text", 95, [&](Ctx& c, u64 i) { char ty = 32 + i; // whatever text is read, printing and reading again gives the same identifier; wrong lengths and malformed pseudo-observables are refused
    for (char s : S("GRESCJI")) for (int b = 32; b < 127; b++) for (int a = 32; a < 127; a++) { S t = S(1, s) + ty + (char)b + (char)a; c.eval(); bool mustRefuse = (ty == 'X' && (b != '1' || a != ' ')) || (ty == 'I' && (b < '1' || b > '9' || a != ' ')); 
      if (mustRefuse && (a % 7)) continue; try { RinexObsID r(t, 3.03); if (mustRefuse) c.fail("RinexObsID:accepts", t); S u = r.asString(); if (u.size() != 3) c.fail("RinexObsID:length", t + " prints '" + u + "'"); else { RinexObsID q(S(1, s) + u, 3.03); bool ps = ty == 'X' || ty == 'I'; if (!same(q, r) && !(ps && q.equalIndex(r) && q.asString() == u)) c.fail("RinexObsID:stable", "'" + t + "' -> '" + u + "' -> " + idn(q) + " not " + idn(r)); if (!q.equalIndex(r)) c.fail("RinexObsID:equalIndex", t); } } catch (InvalidParameter& e) { if (!mustRefuse) c.fail("RinexObsID:refuses", t); } }
    if (i == 0) for (S t : {S(), S("C"), S("C1"), S("GC1CC"), S("GC1C ")}) { S x = thrown([&] { RinexObsID r(t, 3.03); }); if (x != "InvalidParameter") c.fail("RinexObsID:length-refused", "'" + t + "' " + x); } });
  h.part("rinex-obs-pseudo", 7, [&](Ctx& c, u64 i) { char s = "GRESCJI"[i]; RinexObsID ch(S(1, s) + "X1 ", 3.03); c.eval(); if (ch.type != OT::Channel || ch.asString() != "X1 ") c.fail("RinexObsID:channel", ch.asString()); std::map<S, int> seen; for (char b = '1'; b <= '9'; b++) { RinexObsID r(S(1, s) + "I" + b + " ", 3.03); c.eval(); if (r.type != OT::Iono || r.asString() != S("I") + b + " ") c.fail("RinexObsID:iono", r.asString()); seen[idn(r)]++; if (r.equalIndex(ch) || ch.equalIndex(r)) c.fail("RinexObsID:equalIndex", "iono vs channel"); for (char d = '1'; d <= '9'; d++) { RinexObsID q(S(1, s) + "I" + d + " ", 3.03); if (q.equalIndex(r) != (d == b)) c.fail("RinexObsID:equalIndex", S("I") + d + " vs I" + b); } RinexObsID range(S(1, s) + "C" + b + "X", 3.03); if (r.equalIndex(range) || range.equalIndex(r)) c.fail("RinexObsID:equalIndex", "iono vs range"); } if (seen.size() != 9) c.fail("RinexObsID:iono-collision", ""); });
  h.part("rinex-obs-equalindex", 28, [&](Ctx& c, u64 i) { char s = "GRESCJI"[i % 7]; char ty = "CLDS"[i / 7]; std::vector<RinexObsID> v; for (auto& o : OB) if (o.s == s) for (const char* a = o.at; *a; a++) for (char y : S("CLDS")) v.push_back(RinexObsID(S(1, s) + y + o.b + *a, 3.03)); for (auto& x : v) for (auto& y : v) { c.eval(); if (x.equalIndex(y) != same(x, y)) c.fail("RinexObsID:equalIndex", idn(x) + " vs " + idn(y)); } });
  h.part("rinex-obs-newid", 95, [&](Ctx& c, u64 i) { // registering codes: refused when all three characters are known (nothing changes), otherwise new values distinct from all existing ones
    const S known0 = " *CLDSXI-", known1 = " *123456789-", known2 = " *CPYWNDMSLXIQABZE-"; char ty = 32 + i; 
    for (char b : S("1*0F")) for (char a : S("C*Ux")) { S id = S(1, ty) + b + a; bool k0 = known0.find(ty) != S::npos, k1 = known1.find(b) != S::npos, k2 = known2.find(a) != S::npos; c.eval();
      static std::map<char, ObservationType> n0; static std::map<char, CarrierBand> n1; static std::map<char, TrackingCode> n2; k0 |= n0.count(ty); k1 |= n1.count(b); k2 |= n2.count(a); bool dup = k0 && k1 && k2; 
      try { RinexObsID r = RinexObsID::newID(id, "test"); if (dup) { c.fail("newID:duplicate", id); continue; } if (r.asString() != id) c.fail("newID:text", "'" + id + "' prints '" + r.asString() + "'");
        if (!k0) { if ((int)r.type < nOT) c.fail("newID:type-collides", "'" + id + "' gets existing type " + StringUtils::asString(r.type)); n0[ty] = r.type; } if (!k1) { if ((int)r.band < nCB) c.fail("newID:band-collides", "'" + id + "' gets existing band " + StringUtils::asString(r.band)); n1[b] = r.band; } if (!k2) { if ((int)r.code < nTC) c.fail("newID:code-collides", "'" + id + "' gets existing code " + StringUtils::asString(r.code)); n2[a] = r.code; } }
      catch (InvalidParameter& e) { if (!dup) c.fail("newID:refuses", id); } } });
  // navigation message carried by each signal
  h.part("nav-of-signal", SYS.size(), [&](Ctx& c, u64 i) { Y y = SYS[i]; std::map<std::pair<int, int>, NavType> w; auto add = [&](const char* pre, const S& at, NavType n) { for (char a : at) { auto m = M[S(pre) + a]; w[{(int)m.first, (int)m.second}] = n; } };
    for (int id : {1, 5, 6, 35}) { w.clear(); if (y == Y::GPS) { add("G1", "CPYWN", NavType::GPSLNAV); add("G2", "CPYWND", NavType::GPSLNAV); w[{(int)CB::L1, (int)TC::Semicodeless}] = NavType::GPSLNAV; add("G2", "SLX", NavType::GPSCNAVL2); add("G5", "IQX", NavType::GPSCNAVL5); add("G1", "SLX", NavType::GPSCNAV2); add("G1", "M", NavType::GPSMNAV); add("G2", "M", NavType::GPSMNAV); }
      if (y == Y::QZSS) { add("J1", "C", NavType::GPSLNAV); add("J2", "SLX", NavType::GPSCNAVL2); add("J5", "IQX", NavType::GPSCNAVL5); add("J1", "SLX", NavType::GPSCNAV2); }
      if (y == Y::BeiDou) { NavType n = id > 5 ? NavType::BeiDou_D1 : NavType::BeiDou_D2; add("C2", "IQX", n); add("C7", "IQX", n); add("C6", "IQX", n); }
      if (y == Y::Glonass) { add("R1", "C", NavType::GloCivilF); add("R2", "C", NavType::GloCivilF); add("R3", "IQX", NavType::GloCivilC); } if (y == Y::Galileo) { add("E1", "B", NavType::GalINAV); add("E7", "IX", NavType::GalINAV); add("E5", "IX", NavType::GalFNAV); } if (y == Y::IRNSS) add("I5", "ABCX", NavType::IRNSS_SPS);
      std::set<int> legit; for (auto& m : M) legit.insert((int)m.second.first * 1000 + (int)m.second.second);
      for (int b = 0; b < nCB; b++) for (int k = 0; k < nTC; k++) for (OT t : {OT::Range, OT::Phase, OT::NavMsg}) { auto it = w.find({b, k}); if (it == w.end() && !legit.count(b * 1000 + k)) continue; c.eval(); NavID n(SatID(id, y), ObsID(t, (CB)b, (TC)k)); NavType e = it == w.end() ? NavType::Unknown : it->second; if (n.navType != e) c.fail("NavID:signal", StringUtils::asString(y) + " " + std::to_string(id) + " " + StringUtils::asString((CB)b) + " " + StringUtils::asString((TC)k) + " -> " + StringUtils::asString(n.navType)); } }
    if (i == 0) { std::vector<NavID> v; for (int k = 0; k < (int)NavType::Last; k++) { NavID n(S("Unknown")); n.navType = (NavType)k; v.push_back(n); } order<NavID>(c, v, "NavID", [](const NavID& n) { return StringUtils::asString(n.navType); }, false); } });
  return h.run(argc, argv);
}
