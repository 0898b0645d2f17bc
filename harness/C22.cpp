// C22: RINEX observation files read back what was written
// MC-SAN: asan assert
// MC-RULE: every record count through the continuation boundaries, optional header fields in all pairs, event sequences; write / read / rewrite
// MC-ASSUME: values fit the printed field widths
#include "mc.hpp"
#include <memory>
#include <map>
#include <array>
#include <fstream>
#include <sstream>
#include <functional>
#include "Rinex3ObsStream.hpp"
#include "Rinex3ObsHeader.hpp"
#include "Rinex3ObsData.hpp"
#include "RinexObsStream.hpp"
#include "RinexObsHeader.hpp"
#include "RinexObsData.hpp"
#include "RinexObsID.hpp"
#include "CivilTime.hpp"
#include "TimeString.hpp"
using namespace gpstk; using namespace mc; typedef std::string S; typedef Rinex3ObsHeader H3; typedef Rinex3ObsData D3; typedef RinexObsHeader H2; typedef RinexObsData D2; typedef std::vector<S> VS;
static S slurp(const S& f) { std::ifstream i(f.c_str(), std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static S num(double v, int p) { char b[64]; snprintf(b, 64, "%.*f", p, v); if (S(b).find_first_not_of("-0.") == S::npos && b[0] == '-') return b + 1; return b; }
static S trip(const Triple& t) { return num(t[0], 4) + "," + num(t[1], 4) + "," + num(t[2], 4); }
static S civ(const CivilTime& c) { return num(c.year, 0) + "/" + num(c.month, 0) + "/" + num(c.day, 0) + " " + num(c.hour, 0) + ":" + num(c.minute, 0) + ":" + num(c.second, 7) + " " + num((int)c.getTimeSystem(), 0); }
// every observation identifier of a system, in a fixed order
static VS allObs(char sys, double ver) { struct B { char s, b; const char* c; }; static const B bb[] = {{'G', '1', "CSLXPWYM"}, {'G', '2', "CDSLXPWYM"}, {'G', '5', "IQX"}, {'R', '1', "CP"}, {'R', '2', "CP"}, {'E', '1', "ABCXZ"}, {'E', '5', "IQX"}, {'E', '7', "IQX"}, {'E', '8', "IQX"}, {'E', '6', "ABCXZ"}, {'S', '1', "C"}, {'S', '5', "IQX"}, {'C', '7', "IQX"}, {'C', '6', "IQX"}, {'J', '1', "CSLXZ"}, {'J', '2', "SLX"}, {'J', '5', "IQX"}}; VS r; for (auto& b : bb) if (b.s == sys) for (const char* c = b.c; *c; c++) for (const char* t = "CLDS"; *t; t++) r.push_back(S(1, *t) + b.b + *c); (void)ver; return r; }
static H3 base3(double ver, const S& systems, const std::map<char, int>& nobs) {
  H3 h; h.version = ver; h.fileType = "O"; h.fileSysSat = SatID(-1, systems.size() > 1 ? SatelliteSystem::Mixed : systems == "G" ? SatelliteSystem::GPS : systems == "R" ? SatelliteSystem::Glonass : systems == "E" ? SatelliteSystem::Galileo : systems == "S" ? SatelliteSystem::Geosync : systems == "C" ? SatelliteSystem::BeiDou : SatelliteSystem::QZSS); h.fileProgram = "prog"; h.fileAgency = "agency"; h.date = "20200101 000000 UTC"; h.preserveDate = true; h.markerName = "MARK 1"; h.observer = "obs er"; h.agency = S("an agency of forty characters in total ..").substr(0, 40); h.recNo = "12345"; h.recType = "TYPE X"; h.recVers = "v1.0 b"; h.antNo = "A1"; h.antType = "ANT     NONE"; h.antennaPosition = Triple(-740290.0123, -5457071.7, 3207245.6); h.antennaDeltaHEN = Triple(0.0456, 0, -1.5); h.firstObs = CivilTime(2019, 12, 31, 23, 59, 30.1234567, TimeSystem::GPS);
  for (char s : systems) { VS a = allObs(s, ver); int n = nobs.count(s) ? nobs.at(s) : 4; for (int i = 0; i < n; i++) h.mapObsTypes[S(1, s)].push_back(RinexObsID(S(1, s) + a[i], ver)); }
  h.valid |= H3::validVersion; h.valid |= H3::validRunBy; h.valid |= H3::validMarkerName; h.valid |= H3::validObserver; h.valid |= H3::validReceiver; h.valid |= H3::validAntennaType; h.valid |= H3::validAntennaPosition; h.valid |= H3::validAntennaDeltaHEN; h.valid |= H3::validFirstTime; h.valid |= H3::validSystemNumObs; if (ver >= 3.01) { h.valid |= H3::validSystemPhaseShift; for (char s : systems) h.sysPhaseShift[S(1, s)]; } if (systems.find('R') != S::npos && ver >= 3.01) { h.valid |= H3::validGlonassSlotFreqNo; h.glonassFreqNo[RinexSatID(1, SatelliteSystem::Glonass)] = -7; if (ver >= 3.02) h.valid |= H3::validGlonassCodPhsBias; } h.validEoH = true; return h; }
// canonical description of everything the format carries
static S text3(const H3& h, bool aux = false) {
  std::ostringstream o; double v = h.version; o << std::fixed; if (!aux) o << "version " << num(v, 2) << " sys " << (int)h.fileSysSat.system << "\n"; auto is = [&](H3::Field f) { return h.valid.isSet(f); };
  if (is(H3::validRunBy)) o << "run " << h.fileProgram << "|" << h.fileAgency << "|" << h.date << "\n"; if (is(H3::validComment)) for (auto& c : h.commentList) o << "comment " << c << "\n"; if (is(H3::validMarkerName)) o << "marker " << h.markerName << "\n"; if (is(H3::validMarkerNumber)) o << "marker# " << h.markerNumber << "\n"; if (v >= 3 && is(H3::validMarkerType)) o << "markertype " << h.markerType << "\n"; if (is(H3::validObserver)) o << "observer " << h.observer << "|" << h.agency << "\n"; if (is(H3::validReceiver)) o << "rec " << h.recNo << "|" << h.recType << "|" << h.recVers << "\n"; if (is(H3::validAntennaType)) o << "ant " << h.antNo << "|" << h.antType << "\n"; if (is(H3::validAntennaPosition)) o << "pos " << trip(h.antennaPosition) << "\n"; if (is(H3::validAntennaDeltaHEN)) o << "hen " << trip(h.antennaDeltaHEN) << "\n";
  if (v >= 3) { if (is(H3::validAntennaDeltaXYZ)) o << "dxyz " << trip(h.antennaDeltaXYZ) << "\n"; if (is(H3::validAntennaPhaseCtr)) o << "pc " << h.antennaSatSys << h.antennaObsCode << trip(h.antennaPhaseCtr) << "\n"; if (is(H3::validAntennaBsightXYZ)) o << "bs " << trip(h.antennaBsightXYZ) << "\n"; if (is(H3::validAntennaZeroDirAzi)) o << "zda " << num(h.antennaZeroDirAzi, 4) << "\n"; if (is(H3::validAntennaZeroDirXYZ)) o << "zdx " << trip(h.antennaZeroDirXYZ) << "\n"; if (is(H3::validCenterOfMass)) o << "com " << trip(h.centerOfMass) << "\n"; if (is(H3::validSystemNumObs)) for (auto& m : h.mapObsTypes) { o << "obs " << m.first; for (auto& x : m.second) o << " " << x.asString(v); o << "\n"; } if (is(H3::validSigStrengthUnit)) o << "ssu " << h.sigStrengthUnit << "\n"; if (is(H3::validSystemDCBSapplied)) for (auto& x : h.infoDCBS) o << "dcb " << x.satSys << "|" << x.name << "|" << x.source << "\n"; if (is(H3::validSystemPCVSapplied)) for (auto& x : h.infoPCVS) o << "pcv " << x.satSys << "|" << x.name << "|" << x.source << "\n"; if (is(H3::validSystemScaleFac)) for (auto& m : h.sysSfacMap) for (auto& x : m.second) o << "sf " << m.first << " " << x.first.asString(v) << " " << x.second << "\n";
    if (v >= 3.01 && is(H3::validSystemPhaseShift)) for (auto& m : h.sysPhaseShift) { o << "ps " << m.first << "\n"; for (auto& x : m.second) for (auto& y : x.second) o << "ps " << m.first << x.first.asString(v) << " " << (y.first.id == -1 ? S("all") : y.first.toString()) << " " << num(y.second, 5) << "\n"; } if (v >= 3.01 && is(H3::validGlonassSlotFreqNo)) for (auto& m : h.glonassFreqNo) o << "slot " << m.first.toString() << " " << m.second << "\n"; if (v >= 3.02 && is(H3::validGlonassCodPhsBias)) for (const char* l : {"C1C", "C1P", "C2C", "C2P"}) { auto it = h.glonassCodPhsBias.find(RinexObsID(S("R") + l, v)); o << "cpb " << l << " " << num(it == h.glonassCodPhsBias.end() ? 0 : it->second, 3) << "\n"; } }
  else { if (is(H3::validNumObs)) { o << "obs2"; for (auto& x : h.R2ObsTypes) o << " " << x; o << "\n"; } if (is(H3::validWaveFact)) { o << "wf " << h.wavelengthFactor[0] << h.wavelengthFactor[1] << "\n"; for (auto& e : h.extraWaveFactList) { o << "wfx " << e.wavelengthFactor[0] << e.wavelengthFactor[1]; for (auto& s : e.satList) o << " " << RinexSatID(s).toString(); o << "\n"; } } }
  if (is(H3::validInterval)) o << "int " << num(h.interval, 3) << "\n"; if (is(H3::validFirstTime)) o << "first " << civ(h.firstObs) << "\n"; if (is(H3::validLastTime)) o << "last " << civ(h.lastObs) << "\n"; if (is(H3::validReceiverOffset)) o << "rco " << h.receiverOffset << "\n"; if (is(H3::validLeapSeconds)) o << "leap " << h.leapSeconds << "\n"; if (is(H3::validNumSats)) o << "nsv " << h.numSVs << "\n"; if (is(H3::validPrnObs)) for (auto& m : h.numObsForSat) { o << "prn " << m.first.toString(); for (int n : m.second) o << " " << n; o << "\n"; } return o.str(); }
static S diff(const S& a, const S& b) { std::istringstream x(a), y(b); S l, m; for (;;) { bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, m); if (!p && !q) return "same"; if (!p) l = "<end>"; if (!q) m = "<end>"; if (l != m) return "wrote '" + l + "' read '" + m + "'"; if (!p || !q) return "length"; } }
static S shape(const S& f, int* hdrLines = 0) { std::istringstream i(f); S l; bool in = true; int n = 0, k = 0; while (std::getline(i, l)) { k++; if (in) { n++; if (l.size() < 61 || l.size() > 80) return "header line " + num(k, 0) + " has " + num(l.size(), 0) + " columns: " + l; if (l.compare(60, 13, "END OF HEADER") == 0) in = false; } } if (hdrLines) *hdrLines = n; return in ? "no end of header" : ""; }
static S textD(const D3& d, int cp) { std::ostringstream o; o << "flag " << d.epochFlag << " n " << d.numSVs << " t " << (d.time == CommonTime::BEGINNING_OF_TIME ? S("none") : civ(CivilTime(d.time))) << " clk " << num(d.clockOffset, cp) << "\n"; if (d.epochFlag >= 2 && d.epochFlag <= 5) { o << text3(d.auxHeader, true); return o.str(); } for (auto& s : d.obs) { o << s.first.toString(); for (auto& x : s.second) { o << " "; if (x.dataBlank) o << "_"; else o << num(x.data, 3); o << "/"; if (x.lliBlank && !x.lli) o << "_"; else o << (int)x.lli; o << "/"; if (x.ssiBlank && !x.ssi) o << "_"; else o << (int)x.ssi; } o << "\n"; } return o.str(); }
// write header and records, read back, compare, rewrite, compare bytes
static void trip3(Ctx& c, const char* key, const H3& h, const std::vector<D3>& ds, const S& wantHdr, const std::function<S(const D3&, const H3&)>& want, const std::function<S()>& desc, int cp = 12) {
  S e = thrown([&] { Rinex3ObsStream o("w.obs", std::ios::out); o.exceptions(std::ios::failbit); o << h; for (auto& d : ds) o << d; o.close(); }); c.eval(3); c.states(1); c.trans(ds.size() + 1); MC_CK(c, e == "", S(key) + ":write", desc() << " write throws " << e); if (e != "") return; S f = slurp("w.obs"); int hl = 0; S sh = shape(f, &hl); MC_CK(c, sh == "", S(key) + ":line-shape", desc() << " " << sh); MC_CK(c, h.numberHeaderRecordsToBeWritten() == hl, S(key) + ":record-count", desc() << " numberHeaderRecordsToBeWritten " << h.numberHeaderRecordsToBeWritten() << " written " << hl);
  H3 g; std::vector<D3> rs; S er; { Rinex3ObsStream i("w.obs", std::ios::in); er = thrown([&] { i.exceptions(std::ios::failbit); i >> g; }); MC_CK(c, er == "", S(key) + ":read-header", desc() << " header read throws " << er); if (er != "") return; MC_CK(c, text3(g) == wantHdr, S(key) + ":header", desc() << " " << diff(wantHdr, text3(g))); i.exceptions(std::ios::goodbit); D3 d; while (i >> d) { rs.push_back(d); if (rs.size() > ds.size() + 3) break; } MC_CK(c, i.eof(), S(key) + ":read-stop", desc() << " reading stops before the end after " << rs.size() << " records"); }
  MC_CK(c, rs.size() == ds.size(), S(key) + ":record-number", desc() << " wrote " << ds.size() << " records, read " << rs.size()); for (size_t k = 0; k < rs.size() && k < ds.size(); k++) { S w = want(ds[k], h), r = textD(rs[k], cp); MC_CK(c, w == r, S(key) + ":record", desc() << " record " << k << ": " << diff(w, r)); }
  e = thrown([&] { Rinex3ObsStream o("w2.obs", std::ios::out); o.exceptions(std::ios::failbit); H3 g2 = g; g2.preserveDate = true; o << g2; for (auto& d : rs) o << d; o.close(); }); MC_CK(c, e == "", S(key) + ":rewrite", desc() << " rewrite throws " << e); if (e != "") return; S f2 = slurp("w2.obs"); MC_CK(c, f == f2, S(key) + ":rewrite-bytes", desc() << " " << diff(f, f2)); c.traces(1); c.outcome(f); }
static void put(H3& h, H3::Field f) { h.valid |= f; }
static const int NOPT = 19; // optional V3 header fields
static void opt3(H3& h, int k, int var) { double x = var ? -1234.5678 : 0.25; switch (k) {
  case 0: put(h, H3::validComment); for (int i = 0; i <= var * 2; i++) h.commentList.push_back(i == 1 ? S(60, 'x') : "comment " + num(i, 0)); break; case 1: put(h, H3::validMarkerNumber); h.markerNumber = "40451M123"; break; case 2: put(h, H3::validMarkerType); h.markerType = var ? "WATER_CRAFT" : "GEODETIC"; break; case 3: put(h, H3::validAntennaDeltaXYZ); h.antennaDeltaXYZ = Triple(x, 2 * x, 3); break; case 4: put(h, H3::validAntennaPhaseCtr); h.antennaSatSys = "G"; h.antennaObsCode = var ? "L1C" : "L2W"; h.antennaPhaseCtr = Triple(0.1, x, -x); break; case 5: put(h, H3::validAntennaBsightXYZ); h.antennaBsightXYZ = Triple(x, 0, 1); break; case 6: put(h, H3::validAntennaZeroDirAzi); h.antennaZeroDirAzi = x; break; case 7: put(h, H3::validAntennaZeroDirXYZ); h.antennaZeroDirXYZ = Triple(0, x, 1); break; case 8: put(h, H3::validCenterOfMass); h.centerOfMass = Triple(7, 8, x); break; case 9: put(h, H3::validSigStrengthUnit); h.sigStrengthUnit = "DBHZ"; break; case 10: put(h, H3::validInterval); h.interval = var ? 0.05 : 30; break; case 11: put(h, H3::validLastTime); h.lastObs = CivilTime(2020, 1, 1, 0, 0, var ? 59.9999999 : 0, TimeSystem::GPS); break; case 12: put(h, H3::validReceiverOffset); h.receiverOffset = var; break;
  case 13: case 14: { put(h, k == 13 ? H3::validSystemDCBSapplied : H3::validSystemPCVSapplied); for (int i = 0; i <= var; i++) { H3::Rinex3CorrInfo n; n.satSys = i ? "R" : "G"; n.name = "prog " + num(i, 0); n.source = S("http://a.b/") + (var ? "a source of corrections text" : "s"); (k == 13 ? h.infoDCBS : h.infoPCVS).push_back(n); } break; } case 15: put(h, H3::validLeapSeconds); h.leapSeconds = var ? -18 : 18; break; case 16: put(h, H3::validNumSats); h.numSVs = var ? 104 : 1; break;
  case 17: { put(h, H3::validPrnObs); int n = 0; for (auto& m : h.mapObsTypes) for (int s = 1; s <= 1 + var; s++) { std::vector<int> v; for (size_t q = 0; q < m.second.size(); q++) v.push_back(q % 4 == 1 ? 0 : 100000 + 7 * n++); h.numObsForSat[RinexSatID(m.first + (s < 10 ? "0" : "") + num(s, 0))] = v; } break; }
  case 18: { put(h, H3::validSystemScaleFac); for (auto& m : h.mapObsTypes) for (size_t q = 0; q < m.second.size(); q++) if (!var || q % 2) h.sysSfacMap[m.first][m.second[q]] = q % 3 ? 100 : 1; break; } } }
static RinexDatum datum(u64 k) { static const double V[12] = {23629347.915, 0, -353.0, 0.001, -0.001, 999999999.999, -99999999.999, 123456.7894, 1.0005 + 1e-7, 45.25, 20000000, -0.5}; RinexDatum d; d.data = V[k % 12]; d.dataBlank = k % 7 == 3; if (d.dataBlank) d.data = 0; int l = (k / 3) % 5; d.lliBlank = l == 0; d.lli = l == 0 ? 0 : l == 1 ? 0 : l == 2 ? 1 : l == 3 ? 4 : 7; int s = (k / 5) % 4; d.ssiBlank = s == 0; d.ssi = s == 0 ? 0 : s == 1 ? 0 : s == 2 ? 9 : 5; return d; }
static RinexSatID sv(char s, int n) { return RinexSatID(S(1, s) + (n < 10 ? "0" : "") + num(n, 0)); }
static CommonTime ep(int k, TimeSystem ts) { static const double SS[6] = {0, 59.9999999, 30, 0.0000001, 15.5, 7.25}; CommonTime t = CivilTime(k % 6 == 3 ? 2020 : 2019, k % 6 == 3 ? 2 : 12, k % 6 == 3 ? 29 : 31, k % 24, (k * 7) % 60, SS[k % 6], ts).convertToCommonTime(); return t; }
static S nots(CommonTime t) { t.setTimeSystem(TimeSystem::Any); return civ(CivilTime(t)); }
static const double VER[5] = {3.0, 3.01, 3.02, 3.03, 3.04};
int main(int argc, char** argv) {
  Harness h("C22"); bool th = h.thorough;
  h.part("header fields", 5 * 2 * (1 + NOPT * (NOPT + 1) / 2 + 1), [&](Ctx& c, u64 i) { Mix m(i); double v = VER[m(5)]; int var = m(2); u64 k = m(1 + NOPT * (NOPT + 1) / 2 + 1); S sys = var ? "GR" : "G"; H3 x = base3(v, sys, {{'G', var ? 13 : 4}}); S d; if (k == 1 + NOPT * (NOPT + 1) / 2) { for (int q = 0; q < NOPT; q++) opt3(x, q, var); d = "all"; } else if (k) { k--; int a = 0; while (k >= (u64)(NOPT - a)) k -= NOPT - a, a++; int b = a + k; opt3(x, a, var); if (b != a) opt3(x, b, 1 - var); d = num(a, 0) + "+" + num(b, 0); } trip3(c, "header", x, {}, text3(x), [](const D3&, const H3&) { return S(); }, [&] { return "version " + num(v, 2) + " options " + d; }); });
  h.part("observation types", 5 * 61 * 4, [&](Ctx& c, u64 i) { Mix m(i); double v = VER[m(5)]; int n = m(61) + 1, mode = m(4); S sys = mode == 0 ? "G" : mode == 1 ? "E" : mode == 2 ? "GES" : "GRJ"; int lim = mode == 0 ? 80 : 72; if (n > lim) n = lim; H3 x = base3(v, sys, {{'G', n}, {'E', n}, {'R', n % 16 + 1}, {'S', n % 13 + 1}, {'J', n % 40 + 1}}); put(x, H3::validPrnObs); int q = 0; for (auto& o : x.mapObsTypes) for (int s = 1; s <= 2; s++) { std::vector<int> z; for (size_t k = 0; k < o.second.size(); k++) z.push_back(q++ % 100000); x.numObsForSat[sv(o.first[0], s)] = z; } trip3(c, "obs-types", x, {}, text3(x), [](const D3&, const H3&) { return S(); }, [&] { return "version " + num(v, 2) + " systems " + sys + " types " + num(n, 0); }); });
  h.part("scale factors", 27 * 5 * 3, [&](Ctx& c, u64 i) { Mix m(i); int a = m(27); static const int B[5] = {0, 1, 12, 13, 25}; int b = B[m(5)], s = m(3); H3 x = base3(3.04, s ? "GE" : "G", {{'G', 60}, {'E', 40}}); put(x, H3::validSystemScaleFac); auto& g = x.mapObsTypes["G"]; for (int q = 0; q < a; q++) x.sysSfacMap["G"][g[q]] = 10; for (int q = 0; q < b; q++) x.sysSfacMap["G"][g[30 + q]] = 1000; if (s) for (int q = 0; q < (s == 1 ? 1 : 13); q++) x.sysSfacMap["E"][x.mapObsTypes["E"][q]] = 100; if (x.sysSfacMap.empty()) return; trip3(c, "scale-factor", x, {}, text3(x), [](const D3&, const H3&) { return S(); }, [&] { return "factor 10 on " + num(a, 0) + ", 1000 on " + num(b, 0) + " types, second system " + num(s, 0); }); });
  h.part("phase shifts and slots", 32 * 4 * 4, [&](Ctx& c, u64 i) { Mix m(i); int n = m(32), mode = m(4); double v = VER[1 + m(4)]; H3 x = base3(v, "GR", {{'G', 36}, {'R', 12}}); auto& g = x.mapObsTypes["G"]; std::vector<RinexObsID> ph; for (auto& o : g) if (o.type == ObservationType::Phase) ph.push_back(o); double cor[4] = {0.25, -0.5, 0, -0.12345}; for (int q = 0; q <= mode; q++) { if (n == 0 && q < 2) continue; if (n == 0 || (q == 2 && n % 2)) x.sysPhaseShift["G"][ph[q]][RinexSatID(-1, SatelliteSystem::GPS)] = cor[q]; else for (int s = 1; s <= (q == 1 ? 32 - n : n); s++) x.sysPhaseShift["G"][ph[q]][sv('G', s)] = cor[q]; } if (mode == 3) { RinexObsID l("RL2C", v); for (int s = 1; s <= n % 25; s++) x.sysPhaseShift["R"][l][sv('R', s)] = 0.25; } x.glonassFreqNo.clear(); for (int s = 1; s <= n % 27 + 1; s++) x.glonassFreqNo[sv('R', s)] = (s * 5) % 14 - 7; if (mode % 2) for (int q = 0; q < 4; q++) if (n >> q & 1) x.glonassCodPhsBias[RinexObsID(S("R") + (q & 1 ? "C1" : "C2") + (q & 2 ? "C" : "P"), v)] = q ? -71.94 : 0.125; trip3(c, "phase-shift", x, {}, text3(x), [](const D3&, const H3&) { return S(); }, [&] { return "version " + num(v, 2) + " satellites " + num(n, 0) + " mode " + num(mode, 0); }); });
  h.part("time systems", 7 * 5, [&](Ctx& c, u64 i) { Mix m(i); static const TimeSystem T[7] = {TimeSystem::GPS, TimeSystem::GLO, TimeSystem::GAL, TimeSystem::BDT, TimeSystem::QZS, TimeSystem::UTC, TimeSystem::IRN}; TimeSystem ts = T[m(7)]; double v = VER[m(5)]; H3 x = base3(v, "GE", {}); x.firstObs = CivilTime(2020, 2, 29, 23, 59, 59.9999999, ts); std::vector<D3> ds; for (int k = 0; k < 7; k++) { D3 d; d.time = ep(k, ts); d.epochFlag = 0; d.numSVs = 1; for (int q = 0; q < 4; q++) d.obs[sv('G', 3)].push_back(datum(k * 4 + q)); ds.push_back(d); } trip3(c, "time-system", x, ds, text3(x), [](const D3& d, const H3&) { return textD(d, 12); }, [&] { return "time system " + num((int)ts, 0) + " version " + num(v, 2); }); });
  h.part("records", (th ? 66 : 41) * 20 * 3 * 4, [&](Ctx& c, u64 i) { Mix m(i); int n = m(th ? 66 : 41); static const int NT[20] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 26, 27, 39, 40}; int t = NT[m(20)]; static const int FL[3] = {0, 1, 6}; int fl = FL[m(3)]; static const double CK[4] = {0, 0.123456789012, -0.000000000001, -9.5}; double ck = CK[m(4)]; if (n == 0) n = 65; S sys = n % 3 == 0 ? "G" : n % 3 == 1 ? "GRE" : "GSJ"; H3 x = base3(VER[i % 5], sys, {{'G', t}, {'R', t % 16 + 1}, {'E', t % 13 + 1}, {'S', t % 8 + 1}, {'J', t % 30 + 1}}); std::vector<D3> ds; for (int r = 0; r < 2; r++) { D3 d; d.time = ep(i + r, TimeSystem::GPS); d.epochFlag = r ? 0 : fl; d.clockOffset = r ? 0 : ck; int nn = r ? 1 : n; for (int s = 0; s < nn; s++) { char y = sys[s % sys.size()]; int id = s / (int)sys.size() + 1; if (sys == "G" && id > 99) break; RinexSatID a = sv(y, id); int nt = x.mapObsTypes[S(1, y)].size(); for (int q = 0; q < nt; q++) d.obs[a].push_back(datum(i * 3 + s * 5 + q + r)); } d.numSVs = d.obs.size(); ds.push_back(d); } trip3(c, "records", x, ds, text3(x), [](const D3& d, const H3&) { return textD(d, 12); }, [&] { return num(n, 0) + " satellites " + num(t, 0) + " types flag " + num(fl, 0) + " clock " + num(ck, 12) + " systems " + sys; }); });
  h.part("datum", 10 * 12 * 5, [&](Ctx& c, u64 i) { Mix m(i); int l = m(11) - 1; (void)l; u64 k = i; for (int lli = -1; lli < 10; lli++) for (int ssi = -1; ssi < 10; ssi++) for (int bl = 0; bl < 2; bl++) { RinexDatum d = datum(k); d.dataBlank = bl; if (bl) d.data = 0; d.lliBlank = lli < 0; d.lli = lli < 0 ? 0 : lli; d.ssiBlank = ssi < 0; d.ssi = ssi < 0 ? 0 : ssi; c.eval(2); S s = d.asString(); char w[40]; if (bl) snprintf(w, 40, "%14s", ""); else snprintf(w, 40, "%14.3f", d.data); S ws = w; ws += lli < 0 ? ' ' : char('0' + lli); ws += ssi < 0 ? ' ' : char('0' + ssi); MC_CK(c, s == ws, "datum:text", "'" << s << "' want '" << ws << "'"); RinexDatum e(s); MC_CK(c, e.asString() == s && e.dataBlank == d.dataBlank && e.lliBlank == d.lliBlank && e.ssiBlank == d.ssiBlank && e.lli == d.lli && e.ssi == d.ssi && std::fabs(e.data - d.data) <= 5.1e-4, "datum:read", "'" << s << "'"); } });
  // event sequences: 3 records of 9 kinds, version 3 and version 2
  h.part("event sequences", 5 * 9 * 9 * 9, [&](Ctx& c, u64 i) { Mix m(i); static const double V5[5] = {2.10, 2.11, 3.0, 3.02, 3.04}; double v = V5[m(5)]; H3 x = base3(v, "G", {{'G', 6}}); if (v < 3) { x = base3(3.04, "G", {}); x.version = v; x.mapObsTypes["G"].clear(); for (const char* o : {"GC1C", "GL1C", "GC1W", "GC2W", "GL2W", "GS1C"}) x.mapObsTypes["G"].push_back(RinexObsID(o, 3.04)); x.prepareVer2Write(); } std::vector<D3> ds; S hist; CommonTime last = CommonTime::BEGINNING_OF_TIME; for (int k = 0; k < 4; k++) { int kind = k == 0 ? 0 : m(9); hist += num(kind, 0); D3 d; d.time = ep(k * 7 + kind, TimeSystem::GPS); d.epochFlag = kind == 7 ? 4 : kind == 8 ? 2 : kind; if (d.epochFlag == 0 || d.epochFlag == 1 || d.epochFlag == 6) { for (int s = 1; s <= 2 + kind; s++) for (int q = 0; q < 6; q++) d.obs[sv('G', s)].push_back(datum(i + k + s + q)); d.numSVs = d.obs.size(); } else { H3& a = d.auxHeader; a.version = v; int n = 0; if (kind == 2 || kind == 8) put(a, H3::validAntennaDeltaHEN), a.antennaDeltaHEN = Triple(1.5, 0, -0.25), n++; if (kind == 3) put(a, H3::validMarkerName), a.markerName = "NEW SITE", put(a, H3::validAntennaPosition), a.antennaPosition = Triple(1e6, -2e6, 3e6), n += 2; if (kind == 4 || kind == 7 || kind == 8) { put(a, H3::validComment); for (int q = 0; q < 1 + kind % 4; q++) a.commentList.push_back("event " + num(q, 0)), n++; } if (kind == 7) { put(a, H3::validInterval); a.interval = 15; n++; if (v < 3) put(a, H3::validWaveFact), a.wavelengthFactor[0] = 1, a.wavelengthFactor[1] = 2, put(a, H3::validNumObs), a.R2ObsTypes = {"C1", "L1"}, n += 2; else put(a, H3::validSystemNumObs), a.mapObsTypes["G"] = {RinexObsID("GC1C", v), RinexObsID("GL1C", v)}, n++; } if (kind == 5) put(a, H3::validComment), a.commentList.push_back("external"), n++; d.numSVs = n; if (kind == 8 || (kind == 4 && k == 2)) d.time = CommonTime::BEGINNING_OF_TIME; } ds.push_back(d); }
    CommonTime prev = CommonTime::BEGINNING_OF_TIME; std::vector<CommonTime> wt; for (auto& d : ds) { if (d.time == CommonTime::BEGINNING_OF_TIME && v < 3) wt.push_back(prev); else wt.push_back(prev = d.time); } size_t at = 0; (void)last; bool rewr = true; for (size_t k = 0; k < ds.size(); k++) if (wt[k] != ds[k].time) rewr = false; if (rewr) trip3(c, "events", x, ds, text3(x), [](const D3& d, const H3&) { return textD(d, 12); }, [&] { return "version " + num(v, 2) + " kinds " + hist; });
    else { S e = thrown([&] { Rinex3ObsStream o("e.obs", std::ios::out); o.exceptions(std::ios::failbit); o << x; for (auto& d : ds) o << d; }); MC_CK(c, e == "", "events:write", hist << " " << e); c.eval(1); c.states(1); Rinex3ObsStream in("e.obs", std::ios::in); H3 g; in >> g; D3 d; while (in >> d) { if (at < ds.size()) { D3 w = ds[at]; w.time = wt[at]; MC_CK(c, textD(w, 12) == textD(d, 12), "events:untimed", "version " << v << " kinds " << hist << " record " << at << ": " << diff(textD(w, 12), textD(d, 12))); } at++; } MC_CK(c, at == ds.size(), "events:untimed-number", "version " << v << " kinds " << hist << " wrote " << ds.size() << " read " << at); } });
  // version 2 through the version 3 classes
  static const char* R2[4][14] = {{"GC1C", "GL1C", "GD1C", "GS1C", "GC1W", "GC2W", "GL2W", "GD2W", "GS2W", "GC2X", "GC5X", "GL5X", "GD5X", "GS5X"}, {"RC1C", "RL1C", "RD1C", "RS1C", "RC1P", "RC2C", "RC2P", "RL2C", "RD2C", "RS2C", 0}, {"EC1B", "EL1B", "ED1B", "ES1B", "EC5I", "EL5I", "ED5I", "ES5I", "EC7X", "EL7X", "ED7X", "ES7X", "EC8X", "EL8X"}, {"SC1C", "SL1C", "SD1C", "SS1C", "SC5X", "SL5X", "SD5X", "SS5X", 0}};
  static const char* R2N[4][14] = {{"C1", "L1", "D1", "S1", "P1", "P2", "L2", "D2", "S2", "C2", "C5", "L5", "D5", "S5"}, {"C1", "L1", "D1", "S1", "P1", "C2", "P2", "L2", "D2", "S2", 0}, {"C1", "L1", "D1", "S1", "C5", "L5", "D5", "S5", "C7", "L7", "D7", "S7", "C8", "L8"}, {"C1", "L1", "D1", "S1", "C5", "L5", "D5", "S5", 0}};
  h.part("version 2", 41 * 14 * 6 * 2, [&](Ctx& c, u64 i) { Mix m(i); int n = m(41) + 1, t = m(14) + 1, mode = m(6), fl = m(2) ? 6 : 0; static const char* MD[6] = {"G", "R", "E", "GR", "GRES", "S"}; S sys = MD[mode]; H3 x = base3(3.04, sys, {}); x.version = 2.11; x.mapObsTypes.clear(); std::map<char, VS> nm; std::map<char, std::map<S, int>> ix; for (char y : sys) { int a = S("GRES").find(y); int lim = t; if (a == 0 && t == 6) lim = 6; for (int q = 0; q < lim && q < 14 && R2[a][q]; q++) { x.mapObsTypes[S(1, y)].push_back(RinexObsID(R2[a][q], 3.04)); nm[y].push_back(R2N[a][q]); ix[y][R2N[a][q]] = q; } } 
    bool p2 = t >= 6 && sys.find('G') != S::npos; (void)p2; x.prepareVer2Write(); if (i % 2) { put(x, H3::validWaveFact); H3::ExtraWaveFact e; e.wavelengthFactor[0] = 1; e.wavelengthFactor[1] = 2; for (int s = 1; s <= (int)(i / 2 % 7) + 1; s++) e.satList.push_back(SatID(s, SatelliteSystem::GPS)); x.extraWaveFactList.push_back(e); if (i % 3) x.extraWaveFactList.push_back(e); } VS types = x.R2ObsTypes; VS wantT; for (auto& kv : x.mapObsTypes) for (auto& q : nm[kv.first[0]]) if (std::find(wantT.begin(), wantT.end(), q) == wantT.end()) wantT.push_back(q); bool g7 = t >= 9 && sys.find('E') != S::npos; MC_CK(c, types == wantT, g7 ? "version2-galileo-C7:types" : "version2:types", "systems " << sys << " types " << t);
    std::vector<D3> ds; for (int r = 0; r < 2; r++) { D3 d; d.time = ep(i + r, TimeSystem::GPS); d.epochFlag = r ? 0 : fl; d.clockOffset = r || i % 3 == 0 ? 0 : i % 3 == 1 ? -0.123456789 : 0.000000001; int nn = r ? 1 : n; for (int s = 0; s < nn; s++) { char y = sys[s % sys.size()]; RinexSatID a = sv(y, s / (int)sys.size() + 1); for (size_t q = 0; q < nm[y].size(); q++) d.obs[a].push_back(datum(i * 3 + s * 5 + q + r)); } d.numSVs = d.obs.size(); ds.push_back(d); }
    auto want = [&](const D3& d, const H3&) { D3 w = d; w.obs.clear(); for (auto& s : d.obs) { char y = s.first.systemChar(); static const std::map<char, S> OK = {{'G', "C1 P1 L1 D1 S1 C2 P2 L2 D2 S2 C5 L5 D5 S5"}, {'R', "C1 P1 L1 D1 S1 C2 P2 L2 D2 S2"}, {'E', "C1 L1 D1 S1 C5 L5 D5 S5 C6 L6 D6 S6 C7 L7 D7 S7 C8 L8 D8 S8"}, {'S', "C1 L1 D1 S1 C5 L5 D5 S5"}}; for (auto& q : types) { if (OK.at(y).find(q) == S::npos) continue; RinexDatum b; b.data = 0; b.lli = b.ssi = 0; b.lliBlank = b.ssiBlank = false; if (ix[y].count(q)) b = s.second[ix[y][q]]; w.obs[s.first].push_back(b); } } return textD(w, 9); };
    trip3(c, g7 ? "version2-galileo-C7" : "version2", x, ds, text3(x), want, [&] { return "systems " + sys + " satellites " + num(n, 0) + " types " + num(t, 0) + " flag " + num(fl, 0); }, 9); });
  // RINEX 2 classes
  h.part("RINEX 2 classes", 41 * 28 * 4, [&](Ctx& c, u64 i) { Mix m(i); int n = m(41) + 1, t = m(28) + 1, fl = m(4); H2 x; x.version = fl % 2 ? 2.1 : 2.11; x.fileType = "O"; x.system = SatID(-1, fl == 3 ? SatelliteSystem::Mixed : SatelliteSystem::GPS); x.fileProgram = "p"; x.fileAgency = "a"; x.markerName = "M"; x.observer = "o"; x.agency = "ag"; x.recNo = "1"; x.recType = "rt"; x.recVers = "rv"; x.antNo = "an"; x.antType = "at"; x.antennaPosition = Triple(-1.5, 2e6, 3.25); x.antennaOffset = Triple(0.5, 0, -1); x.wavelengthFactor[0] = 1; x.wavelengthFactor[1] = 2; for (int q = 0; q < t; q++) x.obsTypeList.push_back(H2::StandardRinexObsTypes[q + 1]); x.firstObs = ep(n, TimeSystem::GPS); x.firstSystem = RinexSatID(-1, SatelliteSystem::GPS); x.valid = fl % 2 ? H2::allValid21 : H2::allValid211; x.valid |= H2::waveFactValid;
    if (i % 2) { x.valid |= H2::commentValid | H2::markerNumberValid | H2::intervalValid; x.commentList = {"one", "two"}; x.markerNumber = "MN"; x.interval = 0.5; } if (i % 3) { x.valid |= H2::lastTimeValid | H2::receiverOffsetValid | H2::leapSecondsValid | H2::numSatsValid; x.lastObs = ep(n + 1, TimeSystem::GPS); x.lastSystem = RinexSatID(-1, SatelliteSystem::GPS); x.receiverOffset = 1; x.leapSeconds = 18; x.numSVs = 31; } if (i % 5 < 3) { x.valid |= H2::prnObsValid; for (int s = 1; s <= 3; s++) for (int q = 0; q < t; q++) x.numObsForSat[SatID(s, SatelliteSystem::GPS)].push_back(q * 31 + s); } if (i % 7 < 3) { for (int k = 0; k < 2; k++) { ExtraWaveFact e; e.wavelengthFactor[0] = 2; e.wavelengthFactor[1] = k; for (u64 s = 1; s <= i / 7 % 7 + 1; s++) e.satList.push_back(SatID(s, SatelliteSystem::GPS)); x.extraWaveFactList.push_back(e); } }
    auto hs = [&](const H2& q) { std::ostringstream o; o << num(q.version, 2) << " " << (int)q.system.system << " " << q.fileProgram << q.fileAgency << q.markerName << q.observer << "|" << q.agency << q.recNo << q.recType << q.recVers << q.antNo << q.antType << trip(q.antennaPosition) << trip(q.antennaOffset) << q.wavelengthFactor[0] << q.wavelengthFactor[1] << "\n" << std::hex << q.valid << std::dec << "\n"; for (auto& z : q.obsTypeList) o << z.type << " "; o << "\n"; o << nots(q.firstObs) << (int)q.firstSystem.system << "\n"; if (q.valid & H2::commentValid) for (auto& z : q.commentList) o << z << "\n"; if (q.valid & H2::markerNumberValid) o << q.markerNumber << num(q.interval, 3) << "\n"; if (q.valid & H2::lastTimeValid) o << nots(q.lastObs) << q.receiverOffset << " " << q.leapSeconds << " " << q.numSVs << "\n"; if (q.valid & H2::prnObsValid) for (auto& z : q.numObsForSat) { o << z.first.id; for (int k : z.second) o << " " << k; o << "\n"; } for (auto& e : q.extraWaveFactList) { o << "wf " << e.wavelengthFactor[0] << e.wavelengthFactor[1]; for (auto& s : e.satList) o << " " << s.id; o << "\n"; } return o.str(); };
    auto dt = [&](const D2& d) { std::ostringstream o; o << d.epochFlag << " " << d.numSvs << " " << civ(CivilTime(d.time)) << " " << num(d.clockOffset, 9) << "\n"; if (d.epochFlag >= 2 && d.epochFlag <= 5) { for (auto& z : d.auxHeader.commentList) o << z << "\n"; if (d.auxHeader.valid & H2::markerNameValid) o << d.auxHeader.markerName << "\n"; if (d.auxHeader.valid & H2::antennaOffsetValid) o << trip(d.auxHeader.antennaOffset) << "\n"; return o.str(); } for (auto& s : d.obs) { o << RinexSatID(s.first).toString(); for (auto& z : s.second) o << " " << z.first.type << " " << num(z.second.data, 3) << "/" << (int)z.second.lli << "/" << (int)z.second.ssi; o << "\n"; } return o.str(); };
    std::vector<D2> ds; static const int FS[4] = {0, 1, 6, 0}; for (int r = 0; r < 4; r++) { D2 d; d.time = ep(i + r, TimeSystem::GPS); d.epochFlag = r == 0 ? FS[fl] : r == 1 ? 2 + (int)(i % 4) : 0; d.clockOffset = r == 0 ? (fl == 1 ? -0.123456789 : fl == 2 ? 0.5 : 0) : 0; if (r == 1) { int k = 0; d.auxHeader.valid = H2::commentValid; for (u64 q = 0; q <= i % 3; q++) d.auxHeader.commentList.push_back("ev " + num(q, 0)), k++; if (i % 2) d.auxHeader.valid |= H2::markerNameValid, d.auxHeader.markerName = "NEW", k++; if (i % 5 == 0) d.auxHeader.valid |= H2::antennaOffsetValid, d.auxHeader.antennaOffset = Triple(1, 2, 3), k++; d.numSvs = k; MC_CK(c, d.auxHeader.NumberHeaderRecordsToBeWritten() == k, "rinex2:record-count", "event with " << k << " records"); } else { int nn = r == 0 ? n : r; for (int s = 0; s < nn; s++) for (int q = 0; q < t; q++) { RinexDatum z = datum(i + s * 3 + q + r); RinexDatum w; w.data = z.data; w.lli = z.lli; w.ssi = z.ssi; d.obs[SatID(s + 1, fl == 3 && s % 2 ? SatelliteSystem::Glonass : SatelliteSystem::GPS)][x.obsTypeList[q]] = w; } d.numSvs = d.obs.size(); } ds.push_back(d); }
    S e = thrown([&] { RinexObsStream o("r2.obs", std::ios::out); o.exceptions(std::ios::failbit); o << x; for (auto& d : ds) o << d; }); c.eval(3); c.states(1); c.trans(5); c.traces(1); auto de = [&] { return num(n, 0) + " satellites " + num(t, 0) + " types case " + num(i, 0); }; MC_CK(c, e == "", "rinex2:write", de() << " " << e); if (e != "") return; S f = slurp("r2.obs"); int hl = 0; S sh = shape(f, &hl); MC_CK(c, sh == "", "rinex2:line-shape", de() << " " << sh); MC_CK(c, x.NumberHeaderRecordsToBeWritten() == hl, x.extraWaveFactList.empty() ? "rinex2:record-count" : "rinex2:record-count-wave-factors", de() << " NumberHeaderRecordsToBeWritten " << x.NumberHeaderRecordsToBeWritten() << " written " << hl);
    H2 g; std::vector<D2> rs; { RinexObsStream in("r2.obs", std::ios::in); e = thrown([&] { in.exceptions(std::ios::failbit); in >> g; }); MC_CK(c, e == "", "rinex2:read-header", de() << " " << e); if (e != "") return; MC_CK(c, hs(x) == hs(g), "rinex2:header", de() << " " << diff(hs(x), hs(g))); in.exceptions(std::ios::goodbit); D2 d; while (in >> d) { rs.push_back(d); if (rs.size() > 8) break; } } MC_CK(c, rs.size() == ds.size(), "rinex2:record-number", de() << " wrote " << ds.size() << " read " << rs.size()); for (size_t k = 0; k < ds.size() && k < rs.size(); k++) MC_CK(c, dt(ds[k]) == dt(rs[k]), "rinex2:record", de() << " record " << k << ": " << diff(dt(ds[k]), dt(rs[k])));
    e = thrown([&] { RinexObsStream o("r3.obs", std::ios::out); o.exceptions(std::ios::failbit); o << g; for (auto& d : rs) o << d; }); MC_CK(c, e == "", "rinex2:rewrite", de() << " " << e); S f2 = slurp("r3.obs"); auto nodate = [](S s) { std::istringstream z(s); S o, l; while (std::getline(z, l)) { if (l.size() > 60 && l.compare(60, 5, "PGM /") == 0) continue; o += l + "\n"; } return o; }; MC_CK(c, nodate(f) == nodate(f2), "rinex2:rewrite-bytes", de() << " " << diff(nodate(f), nodate(f2))); });
  return h.run(argc, argv);
}
