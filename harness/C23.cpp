// MC-SAN: assert
// MC-ASSUME: the record types and systems each class documents: GPS, GLONASS, Galileo, BeiDou, QZSS and SBAS in RINEX 3 navigation, GPS, GLONASS and SBAS in version 2 ; strings fit their columns and numbers their fields ; the run date of a header is the clock's, so that line is left out of file comparisons
#include "mc.hpp"
#include "Rinex3NavBase.hpp"
#include "Rinex3NavHeader.hpp"
#include "Rinex3NavData.hpp"
#include "Rinex3NavStream.hpp"
#include "RinexNavHeader.hpp"
#include "RinexNavData.hpp"
#include "RinexNavStream.hpp"
#include "RinexMetHeader.hpp"
#include "RinexMetData.hpp"
#include "RinexMetStream.hpp"
#include "RinexClockHeader.hpp"
#include "RinexClockData.hpp"
#include "RinexClockStream.hpp"
#include "Rinex3ClockHeader.hpp"
#include "Rinex3ClockData.hpp"
#include "Rinex3ClockStream.hpp"
#include "SP3Header.hpp"
#include "SP3Data.hpp"
#include "SP3Stream.hpp"
#include "SEMHeader.hpp"
#include "SEMData.hpp"
#include "SEMStream.hpp"
#include "YumaData.hpp"
#include "YumaStream.hpp"
#include "GPSWeekSecond.hpp"
#include "CivilTime.hpp"
#include <fstream>
#include <sstream>
#include <map>
#include <memory>
#include <array>
#include <cmath>
#include <functional>
using namespace mc;
using namespace gpstk;
using std::string;
using std::vector;
typedef std::ostringstream OS;

static string slurp(const string& f)
{
   std::ifstream i(f.c_str()); OS o; o << i.rdbuf(); return o.str();
}
// the file without the line that carries the clock's date
static string body(const string& f)
{
   std::istringstream i(slurp(f)); string l, o;
   while (std::getline(i, l))
      if (l.find("PGM / RUN BY / DATE") == string::npos) o += l + "\n";
      else o += l.substr(0, 40) + "\n";
   return o;
}
static string firstDiff(const string& a, const string& b)
{
   std::istringstream x(a), y(b); string p, q; int n = 0;
   while (true)
   {
      bool f = !!std::getline(x, p), g = !!std::getline(y, q); ++n;
      if (!f && !g) return "same";
      if (!f) p = "(end)";
      if (!g) q = "(end)";
      if (p != q) { OS o; o << "line " << n << " <" << p << "> against <" << q << ">"; return o.str(); }
   }
}
static string trimb(const string& s)
{
   size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' ');
   return a == string::npos ? "" : s.substr(a, b - a + 1);
}
static bool near_(double a, double b, double rel) { return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)); }

template <class S, class H, class D>
static void put(const string& f, const H& h, const vector<D>& v)
{
   S s(f.c_str(), std::ios::out | std::ios::trunc);
   s.exceptions(std::ios::failbit);
   s << h;
   for (auto& d : v) s << d;
   s.close();
}
template <class S, class H, class D>
static void get(const string& f, H& h, vector<D>& v, bool reuse = false)
{
   S s(f.c_str(), std::ios::in);
   s >> h;
   if (!s) { GPSTK_THROW(FFStreamError("header refused")); }
   D keep;
   for (int n = 0; n < 5000; ++n)
   {
      D d;
      if (reuse) { if (!(s >> keep)) break; v.push_back(keep); }
      else { if (!(s >> d)) break; v.push_back(d); }
   }
   if (!s.eof()) GPSTK_THROW(FFStreamError("record refused"));
}
// one write, read, write cycle; the callback judges the content
template <class S, class H, class D>
static bool cycle(Ctx& c, const string& key, const H& h, const vector<D>& v, const string& what,
                  std::function<void(const H&, const vector<D>&)> judge, bool reuse = false)
{
   c.eval();
   string e = thrown([&]{ put<S>("a.dat", h, v); });
   if (!e.empty()) { c.fail(key + ":write-refused", what + ": " + e); return false; }
   H h2; vector<D> v2;
   e = thrown([&]{ get<S>("a.dat", h2, v2, reuse); });
   if (!e.empty()) { c.fail(key + ":read-refused", what + ": " + e + " after " + std::to_string(v2.size()) + " records"); return false; }
   if (v2.size() != v.size()) { OS o; o << what << ": " << v.size() << " records written, " << v2.size() << " read"; c.fail(key + ":records", o.str()); return false; }
   judge(h2, v2);
   e = thrown([&]{ put<S>("b.dat", h2, v2); });
   if (!e.empty()) { c.fail(key + ":rewrite-refused", what + ": " + e); return false; }
   string A = body("a.dat"), B = body("b.dat");
   if (A != B) c.fail(key + ":rewrite", what + ": " + firstDiff(A, B));
   c.outcome(A); c.trans(1 + v.size());
   return A == B;
}

// ------------------------------------------------------------------ navigation 3
struct NF { const char *n; std::function<void(Rinex3NavData&, double)> set; std::function<double(const Rinex3NavData&)> get; const char *sys; bool whole; };
#define F(x, s) NF{#x, [](Rinex3NavData& d, double v){ d.x = RNDouble(v); }, [](const Rinex3NavData& d){ return double(d.x); }, s, false}
#define W(x, s) NF{#x, [](Rinex3NavData& d, double v){ d.x = v; }, [](const Rinex3NavData& d){ return double(d.x); }, s, true}
static const vector<NF>& navFields()
{
   static const vector<NF> f = {
      F(af0,"GECJ"),F(af1,"GECJ"),F(af2,"GECJ"),F(IODE,"GCJ"),F(IODnav,"E"),F(Crs,"GECJ"),F(dn,"GECJ"),F(M0,"GECJ"),
      F(Cuc,"GECJ"),F(ecc,"GECJ"),F(Cus,"GECJ"),F(Ahalf,"GECJ"),F(Cic,"GECJ"),F(OMEGA0,"GECJ"),F(Cis,"GECJ"),
      F(i0,"GECJ"),F(Crc,"GECJ"),F(w,"GECJ"),F(OMEGAdot,"GECJ"),F(idot,"GECJ"),F(accuracy,"GECJ"),F(Tgd,"GECJ"),
      F(Tgd2,"EC"),F(IODC,"GCJ"),F(fitint,"GJ"),
      F(TauN,"RS"),F(GammaN,"RS"),F(px,"RS"),F(py,"RS"),F(pz,"RS"),F(vx,"RS"),F(vy,"RS"),F(vz,"RS"),F(ax,"RS"),F(ay,"RS"),F(az,"RS"),
      F(ageOfInfo,"R"),F(accCode,"S"),F(IODN,"S"),
      W(codeflgs,"GJ"),W(L2Pdata,"GJ"),W(datasources,"E"),W(health,"GECJRS"),W(freqNum,"R") };
   return f;
}
static const string SYS = "GECJRS";
static TimeSystem navTS(char s)
{
   return s=='G'?TimeSystem::GPS:s=='E'?TimeSystem::GAL:s=='C'?TimeSystem::BDT:s=='J'?TimeSystem::QZS:s=='R'?TimeSystem::GLO:TimeSystem::GPS;
}
// a record of a system; variant k gives every field a different value
static Rinex3NavData navRec(char s, int prn, int k, const CommonTime& toc)
{
   Rinex3NavData d;
   d.satSys = string(1, s); d.PRNID = prn;
   char b[8]; snprintf(b, sizeof b, "%c%02d", s, prn); d.sat.fromString(b);
   d.time = toc; d.time.setTimeSystem(navTS(s));
   int n = 0;
   for (auto& f : navFields())
   {
      ++n;
      if (f.whole) f.set(d, (n + k) % 7);
      else f.set(d, (((n * 7 + k * 3) % 13) - 6 + (n + 17 * k) * 1.25e-3) * std::pow(10., ((n + k) % 9) - 6));
   }
   GPSWeekSecond g(toc);
   d.Toc = g.sow; d.Toe = RNDouble(g.sow); d.weeknum = g.week; d.xmitTime = (long)g.sow;
   if (s == 'R' || s == 'S') d.MFtime = (long)g.sow;
   return d;
}
static string navName(const Rinex3NavData& d) { OS o; o << d.satSys << d.PRNID << " toc " << CivilTime(d.time); return o.str(); }
static void judgeNav(Ctx& c, const string& key, const Rinex3NavData& a, const Rinex3NavData& b, const string& what)
{
   char s = a.satSys[0];
   if (b.satSys != a.satSys || b.PRNID != a.PRNID || b.sat != a.sat) { OS o; o << what << ": satellite " << navName(a) << " read as " << b.satSys << b.PRNID << " " << b.sat; c.fail(key + ":satellite", o.str()); }
   if (b.time != a.time) { OS o; o << what << ": " << navName(a) << " read at " << CivilTime(b.time); c.fail(key + ":epoch", o.str()); }
   if (std::fabs(b.Toc - GPSWeekSecond(a.time).sow) > 1e-6) { OS o; o << what << ": " << navName(a) << " toc read as " << b.Toc; c.fail(key + ":toc", o.str()); }
   for (auto& f : navFields())
      if (strchr(f.sys, s) && !near_(f.get(a), f.get(b), 1e-11))
      { OS o; o.precision(15); o << what << ": " << navName(a) << " " << f.n << " " << f.get(a) << " read as " << f.get(b); c.fail(key + ":" + f.n, o.str()); return; }
   if (s == 'R' || s == 'S')
   {
      if (a.MFtime != b.MFtime) { OS o; o << what << ": " << navName(a) << " message frame time " << a.MFtime << " read as " << b.MFtime; c.fail(key + ":MFtime", o.str()); }
   }
   else
   {
      if (!near_(a.Toe, b.Toe, 1e-11)) { OS o; o << what << ": " << navName(a) << " Toe " << double(a.Toe) << " read as " << double(b.Toe); c.fail(key + ":Toe", o.str()); }
      if (a.weeknum != b.weeknum || a.xmitTime != b.xmitTime) { OS o; o << what << ": " << navName(a) << " Toe " << double(a.Toe) << " transmitted in week " << a.weeknum << " second " << a.xmitTime << ", read as week " << b.weeknum << " second " << b.xmitTime; c.fail(key + ":transmission", o.str()); }
   }
}
static Rinex3NavHeader navHead(double ver, const string& sys)
{
   Rinex3NavHeader h;
   h.version = ver; h.setFileSystem(sys); h.fileProgram = "mc"; h.fileAgency = "verif";
   h.valid = Rinex3NavHeader::validVersion | Rinex3NavHeader::validRunBy | Rinex3NavHeader::validEoH;
   return h;
}
static void judgeHead(Ctx& c, const string& key, const Rinex3NavHeader& a, const Rinex3NavHeader& b, const string& what)
{
   auto bad = [&](const string& k, const string& m){ c.fail(key + ":" + k, what + ": " + m); };
   if (!near_(a.version, b.version, 1e-9)) bad("version", "version");
   if (a.fileSys != b.fileSys || a.fileSysSat.system != b.fileSysSat.system) bad("system", "file system <" + a.fileSys + "> read as <" + b.fileSys + ">");
   if (a.fileType[0] != b.fileType[0]) bad("type", "file type <" + a.fileType + "> read as <" + b.fileType + ">");
   if (a.fileProgram != b.fileProgram || a.fileAgency != b.fileAgency) bad("program", "program or agency");
   if (a.commentList != b.commentList) bad("comments", "comments");
   bool ions = a.mapIonoCorr.size() == b.mapIonoCorr.size();
   if (ions) for (auto& p : a.mapIonoCorr) ions = ions && b.mapIonoCorr.count(p.first);
   if (!ions)
   { OS o; o << a.mapIonoCorr.size() << " ionosphere records read as " << b.mapIonoCorr.size(); bad("ionosphere", o.str()); }
   else for (auto& p : a.mapIonoCorr) for (int j = 0; j < (p.first == "GAL" ? 3 : 4); ++j)
      if (!near_(p.second.param[j], b.mapIonoCorr.find(p.first)->second.param[j], 1e-3)) bad("ionosphere", "ionosphere parameter of " + p.first);
   if (a.mapTimeCorr.size() != b.mapTimeCorr.size()) { OS o; o << a.mapTimeCorr.size() << " time corrections read as " << b.mapTimeCorr.size(); bad("time-corrections", o.str()); }
   else for (auto& p : a.mapTimeCorr)
   {
      auto it = b.mapTimeCorr.find(p.first);
      if (it == b.mapTimeCorr.end()) { bad("time-corrections", p.first + " lost"); continue; }
      const TimeSystemCorrection &x = p.second, &y = it->second;
      if (x.type != y.type || !near_(x.A0, y.A0, 1e-8) || !near_(x.A1, y.A1, 1e-7) || x.refWeek != y.refWeek || x.refSOW != y.refSOW || trimb(x.geoProvider) != trimb(y.geoProvider) || x.geoUTCid != y.geoUTCid)
      { OS o; o << p.first << " A0 " << x.A0 << " A1 " << x.A1 << " week " << x.refWeek << " sow " << x.refSOW << " <" << x.geoProvider << "> " << x.geoUTCid << " read as A0 " << y.A0 << " A1 " << y.A1 << " week " << y.refWeek << " sow " << y.refSOW << " <" << y.geoProvider << "> " << y.geoUTCid; bad("time-correction:" + p.first, o.str()); }
   }
   if (a.valid & Rinex3NavHeader::validLeapSeconds)
      if (a.leapSeconds != b.leapSeconds || (a.version >= 3 && (a.leapDelta != b.leapDelta || a.leapWeek != b.leapWeek || a.leapDay != b.leapDay))) bad("leap", "leap seconds");
   if (a.valid != b.valid) { OS o; o << "records present " << std::hex << a.valid << " read as " << b.valid; bad("valid", o.str()); }
}
typedef vector<Rinex3NavData> NV;
static void navCycle(Ctx& c, const string& key, const Rinex3NavHeader& h, const NV& v, const string& what, bool reuse = false)
{
   cycle<Rinex3NavStream, Rinex3NavHeader, Rinex3NavData>(c, key, h, v, what, [&](const Rinex3NavHeader& h2, const NV& v2)
   {
      judgeHead(c, key + "-header", h, h2, what);
      for (size_t i = 0; i < v.size(); ++i) judgeNav(c, key, v[i], v2[i], what);
   }, reuse);
}
static CommonTime civ(int y, int mo, int d, int h, int mi, double s, TimeSystem ts = TimeSystem::GPS) { return CivilTime(y, mo, d, h, mi, s, ts).convertToCommonTime(); }

int main(int argc, char** argv)
{
   Harness h("C23");
   const bool th = h.thorough;

   // ---- every field of every system over a set of values
   static vector<double> vals = { 0., 1., -1., 0.5, 9.99999999999e5, -9.99999999999e5, 1.23456789012e-9, -3.14159265359, 999999999999., 1e12, -1e-30, 2.5e30, 1e-99, 4095., 123456789.012 };
   h.part("navigation fields", SYS.size() * 3, [&](Ctx& c, u64 i)
   {
      Mix m(i); char s = SYS[m(SYS.size())]; int ver = m(3);
      double V = ver == 0 ? 3.02 : ver == 1 ? 3.04 : 2.11;
      if (ver == 2 && !strchr("GRS", s)) return;
      if (ver == 2 && s == 'R') V = 2.10;
      CommonTime toc = civ(2015, 7, 19, 12, 0, 0, navTS(s));
      for (auto& f : navFields())
      {
         if (!strchr(f.sys, s)) continue;
         NV v;
         if (f.whole) for (int x : { 0, 1, 2, 5, 7, 63, 255, 511, -7, 32767 }) { auto d = navRec(s, 7, 1, toc); f.set(d, x); v.push_back(d); }
         else for (double x : vals) { auto d = navRec(s, 7, 1, toc); f.set(d, x); v.push_back(d); }
         OS w; w << "version " << V << " " << s << " " << f.n;
         navCycle(c, "nav", navHead(V, ver == 2 ? string(1, s) : "M"), v, w.str());
      }
   });

   // ---- transmission time either side of the week of Toe
   h.part("navigation weeks", 4 * 3, [&](Ctx& c, u64 i)
   {
      Mix m(i); char s = "GECJ"[m(4)]; int ver = m(3);
      if (ver == 2 && s != 'G') return;
      double V = ver == 0 ? 3.02 : ver == 1 ? 3.04 : 2.11;
      static const long toes[] = { 0, 16, 600, 3600, 7200, 14400, 302400, 302416, 302384, 597600, 604784, 604799, 86400 };
      static const long offs[] = { 0, -6, -7200, -14400, -3600, -86400, 600, 3600, 7200, 30, -30, -302000, 302000 };
      for (int wk : { 0, 1, 1023, 1024, 1849, 2047, 2048, 4095 }) for (long toe : toes)
      {
         NV v;
         for (long off : offs)
         {
            if (wk == 0 && toe + off < 0) continue;
            auto t = GPSWeekSecond(wk, toe, TimeSystem::GPS).convertToCommonTime();
            int yr = CivilTime(t).year;
            if (ver == 2 && yr > 2079) continue;
            auto d = navRec(s, 11, 2, t);
            long x = toe + off; int w = wk;
            while (x < 0) { x += 604800; --w; }
            while (x >= 604800) { x -= 604800; ++w; }
            d.xmitTime = x; d.weeknum = w;
            v.push_back(d);
         }
         if (v.empty()) continue;
         OS w; w << "version " << V << " " << s << " Toe week " << wk << " second " << toe;
         navCycle(c, "nav-week", navHead(V, ver == 2 ? "G" : string(1, s)), v, w.str());
         c.states(v.size());
      }
   });

   // ---- epochs, satellite numbers
   h.part("navigation epochs", SYS.size() * 2, [&](Ctx& c, u64 i)
   {
      Mix m(i); char s = SYS[m(SYS.size())]; int v2 = m(2);
      if (v2 && !strchr("GRS", s)) return;
      NV v;
      static const int dates[][6] = { {1980,1,6,0,0,0},{1999,12,31,23,59,59},{2000,1,1,0,0,0},{2000,2,29,12,30,30},{2012,6,30,23,59,44},{2079,12,31,0,0,1},{2009,9,9,9,9,9},{2010,10,10,10,10,10},{2026,8,31,2,0,16},{1999,8,22,0,0,0},{2019,4,7,0,0,0} };
      for (auto& d : dates) for (int prn : { 1, 2, 9, 10, 32 })
      {
         auto t = civ(d[0], d[1], d[2], d[3], d[4], d[5], navTS(s));
         v.push_back(navRec(s, s == 'R' ? std::min(prn, 24) : s == 'S' ? prn + 19 : s == 'J' ? (prn % 7) + 1 : prn, prn, t));
      }
      if (v2) { auto t = civ(2004, 3, 1, 1, 2, 3.5, navTS(s)); v.push_back(navRec(s, 3, 3, t)); }
      navCycle(c, "nav-epoch", navHead(v2 ? (s == 'R' ? 2.10 : 2.11) : 3.03, v2 ? string(1, s) : "M"), v, string("system ") + s + (v2 ? " version 2" : " version 3"));
   });

   // ---- every order of the systems, read into one object
   h.part("navigation sequences", 6 * 6 * 6, [&](Ctx& c, u64 i)
   {
      Mix m(i); NV v; string what;
      for (int k = 0; k < 3; ++k)
      {
         char s = SYS[m(6)]; what += s;
         v.push_back(navRec(s, 3 + k, 5 * k + 1, civ(2021, 2, 3 + k, 2 * k, 0, 0, navTS(s))));
      }
      navCycle(c, "nav-sequence", navHead(3.04, "M"), v, "sequence " + what);
      navCycle(c, "nav-sequence-reuse", navHead(3.04, "M"), v, "sequence " + what + " into one object", true);
   });

   // ---- headers
   h.part("navigation headers", 4 * 8 * 2 * 4, [&](Ctx& c, u64 i)
   {
      Mix m(i); int ver = m(4), iono = m(8), leap = m(2), ncom = m(4);
      double V[] = { 3.00, 3.04, 2.11, 2.10 };
      static const char *types[] = { "GPUT", "GAUT", "SBUT", "GLUT", "GPGA", "GLGP", "QZGP", "QZUT", "BDUT" };
      for (string sys : { "M", "G", "R", "E", "C", "S", "J" })
      {
         if (ver >= 2 && !strchr("GRS", sys[0])) continue;
         if (ver >= 2 && iono > 1 && sys != "G") continue;
         if (ver >= 2 && (iono & ~1)) continue;
         Rinex3NavHeader H;
         for (int tm = 0; tm < (ver < 2 ? 512 : 2); tm = tm < 16 ? tm + 1 : tm * 2 + 1)
         {
            H = navHead(V[ver], sys);
            if (iono & 1)
               for (const char *t : { "GPSA", "GPSB" }) { IonoCorr ic(t); for (int j = 0; j < 4; ++j) ic.param[j] = (j - 1.5) * (t[3] == 'A' ? 1.118e-8 : 1.4336e5) * std::pow(10., j); H.mapIonoCorr[t] = ic; H.valid |= Rinex3NavHeader::validIonoCorrGPS; }
            if (iono & 2) { IonoCorr ic("GAL"); for (int j = 0; j < 3; ++j) ic.param[j] = 3.15 * (j + 1) * (j == 1 ? -1 : 1); H.mapIonoCorr["GAL"] = ic; H.valid |= Rinex3NavHeader::validIonoCorrGal; }
            if ((iono & 4) && ver >= 2) continue;
            if (tm)
            {
               for (int k = 0; k < 9; ++k)
               {
                  bool on = ver < 2 ? (tm >> k) & 1 : (sys == "G" ? k == 0 : sys == "R" ? k == 3 : k == 2);
                  if (!on) continue;
                  TimeSystemCorrection tc(types[k]);
                  tc.A0 = (iono & 4 ? -1 : 1) * 1.234567e-9 * (k + 1); tc.A1 = k == 3 && ver >= 2 ? 0 : -3.5527e-15 * (k + 2);
                  tc.refWeek = 1849 + k; tc.refSOW = 61440 * (k + 1);
                  tc.geoProvider = k == 2 ? (leap ? "EGNOS" : "WAAS") : ""; tc.geoUTCid = k == 2 ? 5 : k == 3 ? 3 : 0;
                  if (k == 3 && ver >= 2)
                  { tc.refYr = 2015; tc.refMon = 6; tc.refDay = 17; GPSWeekSecond g(civ(2015, 6, 17, 0, 0, 0)); tc.refWeek = g.week; tc.refSOW = (long)g.sow; }
                  H.mapTimeCorr[types[k]] = tc;
               }
               H.valid |= Rinex3NavHeader::validTimeSysCorr;
            }
            if (leap) { H.leapSeconds = 17; H.leapDelta = 18; H.leapWeek = 1929; H.leapDay = 7; H.valid |= Rinex3NavHeader::validLeapSeconds; }
            for (int k = 0; k < ncom; ++k) { H.commentList.push_back(k == 1 ? string(60, 'x') : "comment " + std::to_string(k)); H.valid |= Rinex3NavHeader::validComment; }
            NV v; char s = sys == "M" ? 'G' : sys[0];
            v.push_back(navRec(s, s == 'S' ? 20 : 5, 1, civ(2015, 7, 19, 0, 0, 0, navTS(s))));
            OS w; w << "version " << V[ver] << " system " << sys << " ionosphere " << iono << " time corrections " << std::hex << tm << " leap " << leap << " comments " << ncom;
            navCycle(c, ver < 2 ? "nav3" : "nav2", H, v, w.str());
            c.states(1);
         }
      }
   });

   // ---- the RINEX 2 navigation class
   h.part("rinex 2 navigation", 3 * 16, [&](Ctx& c, u64 i)
   {
      Mix m(i); int ver = m(3), opt = m(16);
      RinexNavHeader H; H.version = ver == 0 ? 2.0 : ver == 1 ? 2.1 : 2.11;
      H.fileType = "NAVIGATION"; H.fileProgram = "mc"; H.fileAgency = "verif";
      H.valid = RinexNavHeader::versionValid | RinexNavHeader::runByValid | RinexNavHeader::endValid;
      if (opt & 1) { H.commentList.push_back("one"); H.commentList.push_back(string(60, 'y')); H.valid |= RinexNavHeader::commentValid; }
      if (opt & 2) { for (int j = 0; j < 4; ++j) { H.ionAlpha[j] = (j - 1.5) * 1.118e-8; H.ionBeta[j] = (1.5 - j) * 1.4336e5; } H.valid |= RinexNavHeader::ionAlphaValid | RinexNavHeader::ionBetaValid; }
      if (opt & 4) { H.A0 = RNDouble(-9.31322574615e-10); H.A1 = RNDouble(-7.99360577730e-15); H.UTCRefTime = 405504; H.UTCRefWeek = 1849; H.valid |= RinexNavHeader::deltaUTCValid; }
      if (opt & 8) { H.leapSeconds = 17; H.valid |= RinexNavHeader::leapSecondsValid; }
      vector<RinexNavData> v;
      struct N2 { const char *n; RNDouble RinexNavData::*p; };
      static const N2 f[] = { {"accuracy",&RinexNavData::accuracy},{"IODC",&RinexNavData::IODC},{"IODE",&RinexNavData::IODE},{"af0",&RinexNavData::af0},{"af1",&RinexNavData::af1},{"af2",&RinexNavData::af2},{"Tgd",&RinexNavData::Tgd},{"Cuc",&RinexNavData::Cuc},{"Cus",&RinexNavData::Cus},{"Crc",&RinexNavData::Crc},{"Crs",&RinexNavData::Crs},{"Cic",&RinexNavData::Cic},{"Cis",&RinexNavData::Cis},{"Toe",&RinexNavData::Toe},{"M0",&RinexNavData::M0},{"dn",&RinexNavData::dn},{"ecc",&RinexNavData::ecc},{"Ahalf",&RinexNavData::Ahalf},{"OMEGA0",&RinexNavData::OMEGA0},{"i0",&RinexNavData::i0},{"w",&RinexNavData::w},{"OMEGAdot",&RinexNavData::OMEGAdot},{"idot",&RinexNavData::idot},{"fitint",&RinexNavData::fitint} };
      int n = 0;
      static const double times[][6] = { {1980,1,6,0,0,0},{1999,12,31,23,59,59.9},{2000,1,1,0,0,0},{2000,2,29,12,30,30},{2079,12,31,0,0,1},{2009,9,9,9,9,9.5},{2026,8,31,2,0,16} };
      for (size_t k = 0; k < sizeof f / sizeof *f; ++k) for (double x : vals)
      {
         RinexNavData d; ++n;
         const double *q = times[n % 7];
         d.time = civ(q[0], q[1], q[2], q[3], q[4], q[5]); d.PRNID = 1 + n % 32;
         for (size_t j = 0; j < sizeof f / sizeof *f; ++j) d.*(f[j].p) = RNDouble((j + 1) * 1.0625e-3 * std::pow(10., double(j % 7)));
         d.*(f[k].p) = RNDouble(x);
         d.sf1XmitTime = (n * 4321) % 604800 - (n % 5 == 0 ? 604800 : 0); d.toeWeek = 1000 + n; d.codeflgs = n % 4; d.health = n % 64; d.L2Pdata = n % 2;
         v.push_back(d);
      }
      OS w; w << "version " << H.version << " options " << opt;
      cycle<RinexNavStream, RinexNavHeader, RinexNavData>(c, "rinex2nav", H, v, w.str(), [&](const RinexNavHeader& g, const vector<RinexNavData>& r)
      {
         string key = "rinex2nav-header";
         if (g.valid != H.valid || g.commentList != H.commentList || g.fileProgram != H.fileProgram || g.fileAgency != H.fileAgency || !near_(g.version, H.version, 1e-9)) c.fail(key, w.str() + ": header read differently");
         if (opt & 2) for (int j = 0; j < 4; ++j) if (!near_(g.ionAlpha[j], H.ionAlpha[j], 1e-3) || !near_(g.ionBeta[j], H.ionBeta[j], 1e-3)) c.fail(key + ":ionosphere", w.str());
         if ((opt & 4) && (!near_(g.A0, H.A0, 1e-11) || !near_(g.A1, H.A1, 1e-11) || g.UTCRefTime != H.UTCRefTime || g.UTCRefWeek != H.UTCRefWeek)) c.fail(key + ":utc", w.str());
         if ((opt & 8) && g.leapSeconds != H.leapSeconds) c.fail(key + ":leap", w.str());
         for (size_t k = 0; k < v.size(); ++k)
         {
            const RinexNavData &a = v[k], &b = r[k];
            if (std::fabs(a.time - b.time) > 1e-7 || a.PRNID != b.PRNID) { OS o; o << w.str() << ": record of satellite " << a.PRNID << " at " << CivilTime(a.time) << " read as " << b.PRNID << " at " << CivilTime(b.time); c.fail("rinex2nav:epoch", o.str()); }
            if (a.sf1XmitTime != b.sf1XmitTime || a.toeWeek != b.toeWeek || a.codeflgs != b.codeflgs || a.health != b.health || a.L2Pdata != b.L2Pdata) { OS o; o << w.str() << ": whole-number fields of record " << k; c.fail("rinex2nav:numbers", o.str()); }
            for (auto& q : f) { if (ver == 0 && string(q.n) == "fitint") continue; double x = a.*(q.p), y = b.*(q.p); if (!near_(x, y, 1e-11)) { OS o; o.precision(15); o << w.str() << ": " << q.n << " " << x << " read as " << y; c.fail(string("rinex2nav:") + q.n, o.str()); } }
         }
      });
   });

   // ---- meteorological files
   h.part("meteorological", 8 * 10 * 3, [&](Ctx& c, u64 i)
   {
      Mix m(i); int ver = m(8), n = 1 + m(10), opt = m(3);
      static const double V[] = { 2.0, 2.1, 2.11, 3.0, 3.01, 3.02, 3.03, 3.04 };
      static const RinexMetHeader::RinexMetType T[] = { RinexMetHeader::PR, RinexMetHeader::TD, RinexMetHeader::HR, RinexMetHeader::ZW, RinexMetHeader::ZD, RinexMetHeader::ZT, RinexMetHeader::WD, RinexMetHeader::WS, RinexMetHeader::RI, RinexMetHeader::HI };
      for (int rot = 0; rot < 10; ++rot)
      {
         RinexMetHeader H; H.version = V[ver]; H.fileType = "METEOROLOGICAL DATA"; H.fileProgram = "mc"; H.fileAgency = "verif"; H.markerName = "Marker name"; H.markerNumber = opt ? "M12345" : "";
         bool pr = false;
         for (int k = 0; k < n; ++k) { auto t = T[(rot + k * 3) % 10]; H.obsTypeList.push_back(t); pr = pr || t == RinexMetHeader::PR; }
         if (!pr) H.obsTypeList[rot % n] = RinexMetHeader::PR;
         for (size_t k = 0; k < H.obsTypeList.size(); ++k)
         {
            RinexMetHeader::sensorType s; s.model = "model" + std::to_string(k); s.type = opt == 2 ? string(20, 'z') : "type"; s.accuracy = 0.1 * (k + 1); s.obsType = H.obsTypeList[k]; H.sensorTypeList.push_back(s);
            if (k == 0 || opt) { RinexMetHeader::sensorPosType p; p.position = Triple(-2701234.5678 + k, 4123456.0001, -1e6 / 3); p.position[2] = -333333.3333; p.height = 9999.0625; p.obsType = k == 0 ? RinexMetHeader::PR : H.obsTypeList[k]; H.sensorPosList.push_back(p); }
         }
         H.valid = RinexMetHeader::validVersion | RinexMetHeader::validRunBy | RinexMetHeader::validMarkerName | RinexMetHeader::validObsType | RinexMetHeader::validSensorType | RinexMetHeader::validSensorPos | RinexMetHeader::validEoH;
         if (opt) H.valid |= RinexMetHeader::validMarkerNumber;
         if (opt == 2) { H.commentList.push_back("c1"); H.commentList.push_back(string(60, 'q')); H.valid |= RinexMetHeader::validComment; }
         vector<RinexMetData> v;
         static const int times[][6] = { {1980,1,6,0,0,0},{1999,12,31,23,59,59},{2000,1,1,0,0,0},{2009,9,9,9,9,9},{2026,11,20,3,17,43},{2079,12,31,23,0,1} };
         for (auto& q : times)
         {
            RinexMetData d; d.time = civ(q[0], q[1], q[2], q[3], q[4], q[5], TimeSystem::Any);
            int k = 0; for (auto t : H.obsTypeList) { static const double x[] = { 1013.3, -12.5, 0., 99999.9, -9999.9, 0.1, -0.1, 55., 100., 7.7, 360. }; d.data[t] = x[(k++ + rot + v.size()) % 11]; }
            v.push_back(d);
         }
         OS w; w << "version " << V[ver] << " with " << n << " observations, rotation " << rot << ", options " << opt;
         cycle<RinexMetStream, RinexMetHeader, RinexMetData>(c, "met", H, v, w.str(), [&](const RinexMetHeader& g, const vector<RinexMetData>& r)
         {
            if (g.valid != H.valid || g.obsTypeList != H.obsTypeList || g.commentList != H.commentList || g.markerName != H.markerName || (opt && g.markerNumber != H.markerNumber) || g.fileType != H.fileType || g.fileProgram != H.fileProgram || !near_(g.version, H.version, 1e-9)) c.fail("met:header", w.str() + ": header read differently");
            bool same = g.sensorTypeList.size() == H.sensorTypeList.size() && g.sensorPosList.size() == H.sensorPosList.size();
            if (same) for (size_t k = 0; k < H.sensorTypeList.size(); ++k) { const auto &x = H.sensorTypeList[k], &y = g.sensorTypeList[k]; same = same && x.model == y.model && x.type == y.type && std::fabs(x.accuracy - y.accuracy) < 1e-9 && x.obsType == y.obsType; }
            if (same) for (size_t k = 0; k < H.sensorPosList.size(); ++k) { const auto &x = H.sensorPosList[k], &y = g.sensorPosList[k]; for (int j = 0; j < 3; ++j) same = same && std::fabs(x.position[j] - y.position[j]) < 6e-5; same = same && std::fabs(x.height - y.height) < 6e-5 && x.obsType == y.obsType; }
            if (!same) c.fail("met:sensors", w.str() + ": sensors read differently");
            for (size_t k = 0; k < v.size(); ++k)
            {
               if (v[k].time != r[k].time) { OS o; o << w.str() << ": " << CivilTime(v[k].time) << " read as " << CivilTime(r[k].time); c.fail("met:time", o.str()); }
               if (v[k].data.size() != r[k].data.size()) { c.fail("met:data", w.str() + ": number of values"); continue; }
               for (auto& p : v[k].data) if (std::fabs(p.second - r[k].data.find(p.first)->second) > 1e-6) { OS o; o << w.str() << ": " << RinexMetHeader::convertObsType(p.first) << " " << p.second << " read as " << r[k].data.find(p.first)->second; c.fail("met:data", o.str()); }
            }
         });
      }
   });

   // ---- clock files, version 2 class
   h.part("clock", 4 * 32, [&](Ctx& c, u64 i)
   {
      Mix m(i); int kind = m(4), opt = m(32);
      typedef RinexClockHeader RH;
      for (int nprn : { 1, 14, 15, 16, 30, 31 }) for (int nref : { 0, 1, 2 })
      {
         RH H; H.version = 2.0; H.fileType = "CLOCK"; H.fileProgram = "mc"; H.fileAgency = "verif"; H.date = "20-NOV-26 03:17";
         H.valid = RH::versionValid | RH::runByValid | RH::dataTypesValid | RH::endValid;
         if (kind == 0) H.dataTypeList = { RH::AS }; else if (kind == 1) H.dataTypeList = { RH::AR, RH::AS }; else if (kind == 2) H.dataTypeList = { RH::AR, RH::AS, RH::CR, RH::DR, RH::MS }; else H.dataTypeList = { RH::CR, RH::DR };
         H.numType = H.dataTypeList.size();
         if (opt & 1) { H.commentList.push_back(string("a comment") + string(51, ' ')); H.valid |= RH::commentValid; }
         if (opt & 2) { H.leapSeconds = 13; H.valid |= RH::leapSecondsValid; }
         if (opt & 4) { H.stationName = "USNO"; H.stationNumber = "40451S003"; H.stationClkRef = "UTC(USNO)"; H.valid |= RH::stationNameValid | RH::calibrationClkValid; }
         H.ac = "USN"; H.acName = "US Naval Observatory"; H.valid |= RH::acNameValid;
         if (opt & 8)
         {
            for (int k = 0; k < nref; ++k)
            {
               RH::RefClkRecord r; r.numClkRef = k + 1;
               if (k) { r.startEpoch = CivilTime(2004, 7, 18, 0, 0, 0.); r.stopEpoch = CivilTime(2004, 7, 18, 23, 59, 30.5); }
               else { r.startEpoch = CommonTime::BEGINNING_OF_TIME; r.stopEpoch = CommonTime::BEGINNING_OF_TIME; }
               for (int j = 0; j <= k; ++j) { RH::RefClk q; q.name = j ? "G05 " : "USNO"; q.number = j ? "" : "40451S003"; q.clkConstraint = j ? -1.23456789012e-9 : 0.; r.clocks.push_back(q); }
               H.refClkList.push_back(r);
            }
            if (nref) H.valid |= RH::numRefClkValid;
         }
         if (opt & 16)
         {
            H.numSta = 2; H.trf = "IGS00"; H.valid |= RH::numStationsValid | RH::solnStaNameValid;
            for (int k = 0; k < 2; ++k) { RH::SolnSta s; s.name = k ? "ALGO" : "USNO"; s.number = "40451S003"; s.posX = k ? 1112189660LL : -9999999999LL; s.posY = -4842955000LL; s.posZ = 3985352000LL; H.solnStaList.push_back(s); }
         }
         H.numSats = nprn; H.valid |= RH::numSatsValid | RH::prnListValid;
         for (int k = 0; k < nprn; ++k) H.prnList.push_back(k % 3 == 2 ? SatID(k % 24 + 1, SatelliteSystem::Glonass) : SatID(k % 32 + 1, SatelliteSystem::GPS));
         vector<RinexClockData> v;
         for (int n = 1; n <= 6; ++n) for (auto& t : H.dataTypeList)
         {
            RinexClockData d; d.type = t; d.name = t == RH::AS ? (n % 2 ? "G05 " : "R24 ") : "USNO"; d.epochTime = CivilTime(2004, 7, 18, n, 59 - n, n % 2 ? 0. : 30.123456); d.dvCount = n;
            for (int k = 0; k < n; ++k) d.clockData[k] = ((k % 2) ? -1 : 1) * 1.23456789012e-9 * std::pow(10., k + n) ;
            v.push_back(d);
         }
         OS w; w << "data types " << kind << " options " << opt << " satellites " << nprn << " references " << nref;
         cycle<RinexClockStream, RH, RinexClockData>(c, "clock", H, v, w.str(), [&](const RH& g, const vector<RinexClockData>& r)
         {
            auto bad = [&](const string& k){ c.fail("clock-header:" + k, w.str() + ": " + k + " read differently"); };
            if (g.valid != H.valid) bad("records present");
            if (!near_(g.version, H.version, 1e-9) || g.fileType != H.fileType || g.fileProgram != H.fileProgram || g.fileAgency != H.fileAgency || g.date != H.date) bad("version or program");
            if (g.commentList != H.commentList) bad("comments");
            if ((opt & 2) && g.leapSeconds != H.leapSeconds) bad("leap seconds");
            if (g.numType != H.numType || !(g.dataTypeList == H.dataTypeList)) bad("data types");
            if ((opt & 4) && (g.stationName != H.stationName || g.stationNumber != H.stationNumber || g.stationClkRef != H.stationClkRef)) bad("station");
            if (g.ac != H.ac || g.acName != H.acName) bad("analysis center");
            if (g.numSats != H.numSats || g.prnList != H.prnList) bad("satellites");
            if ((opt & 16) && (g.numSta != H.numSta || g.trf != H.trf)) bad("stations");
            bool same = g.solnStaList.size() == H.solnStaList.size();
            if (same) { auto y = g.solnStaList.begin(); for (auto& x : H.solnStaList) { same = same && x.name == y->name && x.number == y->number && x.posX == y->posX && x.posY == y->posY && x.posZ == y->posZ; ++y; } }
            if (!same) bad("solution stations");
            same = g.refClkList.size() == H.refClkList.size();
            if (same)
            {
               auto y = g.refClkList.begin();
               for (auto& x : H.refClkList)
               {
                  same = same && x.numClkRef == y->numClkRef && x.clocks.size() == y->clocks.size() && std::fabs(x.startEpoch.convertToCommonTime() - y->startEpoch.convertToCommonTime()) < 1e-6 && std::fabs(x.stopEpoch.convertToCommonTime() - y->stopEpoch.convertToCommonTime()) < 1e-6;
                  if (same) { auto q = y->clocks.begin(); for (auto& p : x.clocks) { same = same && p.name == q->name && p.number == q->number && near_(p.clkConstraint, q->clkConstraint, 1e-11); ++q; } }
                  ++y;
               }
            }
            if (!same) bad("reference clocks");
            for (size_t k = 0; k < v.size(); ++k)
            {
               const RinexClockData &a = v[k], &b = r[k];
               if (!(a.type == b.type) || a.name != b.name || a.dvCount != b.dvCount || std::fabs(a.epochTime.convertToCommonTime() - b.epochTime.convertToCommonTime()) > 1e-6) { OS o; o << w.str() << ": record " << k << " <" << a.name << "> " << a.epochTime << " " << a.dvCount << " read as <" << b.name << "> " << b.epochTime << " " << b.dvCount; c.fail("clock:record", o.str()); }
               else for (int j = 0; j < a.dvCount; ++j) if (!near_(a.clockData[j], b.clockData[j], 1e-11)) { OS o; o.precision(15); o << w.str() << ": value " << j << " of " << a.dvCount << ": " << double(a.clockData[j]) << " read as " << double(b.clockData[j]); c.fail("clock:value", o.str()); }
            }
         });
      }
   });

   // ---- clock files, version 3 class
   h.part("clock 3", 2 * 32, [&](Ctx& c, u64 i)
   {
      Mix m(i); int ver = m(2), opt = m(32);
      typedef Rinex3ClockHeader RH;
      for (int nsat : { 1, 14, 15, 16, 31, 45 }) for (int nsys : { 1, 2, 3 })
      {
         RH H;
         H.version = ver ? 3.00 : 2.00; H.program = "mc"; H.runby = "verif"; H.fileSys = ver ? "G" : "";
         H.dataTypes = { "AR", "AS" }; H.analCenterDesignator = opt & 16 ? "USN" : "IG"; H.analysisCenter = "US Naval Observatory"; H.numSolnStations = 2; H.terrRefFrame = "IGS00";
         H.stationID["USNO"] = "40451S003"; H.stationX["USNO"] = "1112189660"; H.stationY["USNO"] = "-4842955000"; H.stationZ["USNO"] = "3985352000";
         string st = opt & 16 ? "ALGO" : "ALG";
         H.stationID[st] = "40104M002"; H.stationX[st] = "918129400"; H.stationY[st] = "-4346071200"; H.stationZ[st] = "4561977800";
         H.numSolnSatellites = nsat;
         for (int k = 0; k < nsat; ++k) H.satList.push_back(RinexSatID(k % 24 + 1, k % 3 == 0 ? SatelliteSystem::GPS : k % 3 == 1 ? SatelliteSystem::Glonass : SatelliteSystem::Galileo));
         H.valid = RH::allRequiredValid | RH::solnStateValid | RH::numSolnSatsValid | RH::prnListValid | RH::numReceiversValid | RH::numDataValid | RH::analysisCenterValid;
         if (opt & 1) { H.commentList.push_back("a comment"); H.commentList.push_back(string(60, 'c')); H.valid |= RH::commentValid; }
         if (opt & 2) { H.leapSeconds = 13; H.valid |= RH::leapSecondsValid; }
         if (ver)
         {
            H.timeSystem = opt & 2 ? TimeSystem::UTC : TimeSystem::GPS; H.valid |= RH::timeSystemValid;
            if (opt & 4)
            {
               for (int k = 0; k < nsys; ++k)
               {
                  string s(1, "GRE"[k]);
                  int n = k == 0 ? 4 : k == 1 ? 13 : 15;
                  static const char *g[] = { "C1C", "L1C", "D1C", "S1C" };
                  static const char *e[] = { "C1C", "L1C", "D1C", "S1C", "C5X", "L5X", "D5X", "S5X", "C7X", "L7X", "D7X", "S7X", "C8X", "L8X", "D8X" };
                  static const char *r[] = { "C1C", "L1C", "D1C", "S1C", "C1P", "L1P", "D1P", "S1P", "C2C", "L2C", "D2C", "S2C", "C2P" };
                  for (int j = 0; j < n; ++j) H.sysObsTypes[s].push_back(RinexObsID(s + (k == 0 ? g[j] : k == 1 ? r[j] : e[j]), H.version));
               }
               H.valid |= RH::sysValid;
            }
            if (opt & 8) { H.dcbsMap["G"] = std::make_pair(string("CC2NONCC"), string("p1c1bias.hist @ goby.nrl.navy.mil")); H.dcbsMap["R"] = std::make_pair(string(17, 'p'), string(40, 's')); H.pcvsMap["G"] = std::make_pair(string("PAGES"), string("igs05_1402.atx @ igscb.jpl.nasa.gov")); H.valid |= RH::sysDCBValid | RH::sysPCVValid; }
         }
         vector<Rinex3ClockData> v;
         for (int mask = 0; mask < 16; ++mask) for (int as = 0; as < 2; ++as)
         {
            Rinex3ClockData d; d.datatype = as ? "AS" : "AR";
            if (as) d.sat = RinexSatID(mask + 1, mask % 2 ? SatelliteSystem::Glonass : SatelliteSystem::GPS); else d.site = "USNO";
            d.time = civ(2004, 7, 18, mask, 59 - mask, mask % 2 ? 0. : 30.123456, TimeSystem::Any);
            d.bias = RNDouble(-1.23456789012e-5 * (mask + 1)); d.sig_bias = RNDouble(9.87654321098e-12);
            if (mask & 1) d.drift = RNDouble(1.5e-13);
            if (mask & 2) d.sig_drift = RNDouble(-2.5e-14);
            if (mask & 4) d.accel = RNDouble(3.5e-20);
            if (mask & 8) d.sig_accel = RNDouble(4.5e-21);
            v.push_back(d);
         }
         OS w; w << "version " << H.version << " options " << opt << " satellites " << nsat << " systems " << nsys;
         cycle<Rinex3ClockStream, RH, Rinex3ClockData>(c, "clock3", H, v, w.str(), [&](const RH& g, const vector<Rinex3ClockData>& r)
         {
            auto bad = [&](const string& k){ c.fail("clock3-header:" + k, w.str() + ": " + k + " read differently"); };
            if (g.valid != (H.valid & ~0UL)) { OS o; o << w.str() << ": records present " << std::hex << H.valid << " read as " << g.valid; c.fail("clock3-header:valid", o.str()); }
            if (!near_(g.version, H.version, 1e-9) || g.program != H.program || g.runby != H.runby || g.fileSys != H.fileSys) bad("version or program");
            if (g.commentList != H.commentList) bad("comments");
            if (ver && g.timeSystem != H.timeSystem) bad("time system");
            if ((opt & 2) && g.leapSeconds != H.leapSeconds) bad("leap seconds");
            if (!(g.sysObsTypes == H.sysObsTypes)) bad("observation types");
            if (g.dcbsMap != H.dcbsMap || g.pcvsMap != H.pcvsMap) bad("bias corrections");
            if (g.dataTypes != H.dataTypes || trimb(g.analCenterDesignator) != H.analCenterDesignator || g.analysisCenter != H.analysisCenter) bad("analysis center");
            if (g.numSolnStations != H.numSolnStations || g.terrRefFrame != H.terrRefFrame || g.stationID != H.stationID || g.stationX != H.stationX || g.stationY != H.stationY || g.stationZ != H.stationZ) bad("stations");
            if (g.numSolnSatellites != H.numSolnSatellites || g.satList != H.satList) bad("satellites");
            for (size_t k = 0; k < v.size(); ++k)
            {
               const Rinex3ClockData &a = v[k], &b = r[k];
               bool same = a.datatype == b.datatype && trimb(a.site) == trimb(b.site) && (a.datatype != "AS" || a.sat == b.sat) && std::fabs(a.time - b.time) < 1e-6;
               same = same && near_(a.bias, b.bias, 1e-11) && near_(a.sig_bias, b.sig_bias, 1e-11) && near_(a.drift, b.drift, 1e-11) && near_(a.sig_drift, b.sig_drift, 1e-11) && near_(a.accel, b.accel, 1e-11) && near_(a.sig_accel, b.sig_accel, 1e-11);
               if (!same) { OS o; a.dump(o); o << "read as "; b.dump(o); c.fail("clock3:record", w.str() + ": " + o.str()); }
            }
         });
         if (ver && (opt & 4))
         {
            string A = body("a.dat"); size_t n = 0, p = 0;
            while ((p = A.find("SYS / # / OBS TYPES", p)) != string::npos) { ++n; ++p; }
            size_t need = nsys == 3 ? 4 : nsys;
            if (n != need) { OS o; o << w.str() << ": " << need << " lines of observation types needed, " << n << " written"; c.fail("clock3-header:repeated", o.str()); }
         }
      }
   });

   // ---- SP3
   static vector<int> svn = { 1, 2, 16, 17, 18, 34, 35, 51, 52, 84, 85, 86, 102, 103, 150 };
   h.part("sp3", 4 * svn.size(), [&](Ctx& c, u64 i)
   {
      Mix m(i); int ver = m(4), n = svn[m(svn.size())];
      if (ver < 3 && n > 85) return;
      if (ver == 0 && n > 32) return;
      for (int opt = 0; opt < 16; ++opt) for (int ncom : { 0, 1, 4, 6 })
      {
         if (ncom > 4 && ver < 3) continue;
         bool corr = opt & 1, vel = opt & 2, frac = opt & 4;
         if (corr && ver < 2) continue;
         SP3Header H; H.version = ver == 0 ? SP3Header::SP3a : ver == 1 ? SP3Header::SP3b : ver == 2 ? SP3Header::SP3c : SP3Header::SP3d;
         H.containsVelocity = vel; H.time = civ(2011, 10, 9, 3, 7, frac ? 8.0625 : 0, TimeSystem::GPS);
         H.numberOfEpochs = 2; H.epochInterval = frac ? 0.5 : 900; H.dataUsed = opt & 8 ? "ORBIT" : "u+U"; H.coordSystem = "IGS08"; H.orbitType = "HLM"; H.agency = opt & 8 ? "IGS" : "NGA1";
         H.system = SP3SatID(-1, ver == 0 ? SatelliteSystem::GPS : SatelliteSystem::Mixed);
         H.timeSystem = ver == 0 || !(opt & 8) ? TimeSystem::GPS : TimeSystem::UTC;
         if (ver >= 2) { H.basePV = 1.25; H.baseClk = 1.025; }
         H.allowSP3aEvents = ver == 0;
         vector<SatID> sats;
         for (int k = 0; k < n; ++k)
         {
            static const SatelliteSystem ss[] = { SatelliteSystem::GPS, SatelliteSystem::Glonass, SatelliteSystem::Galileo, SatelliteSystem::BeiDou, SatelliteSystem::QZSS };
            SatID s(ver == 0 ? k + 1 : k / 5 + 1 + (k % 5 == 4 ? 192 : 0), ver == 0 ? SatelliteSystem::GPS : ss[k % 5]);
            sats.push_back(s); H.satList[SP3SatID(s)] = k % 16;
         }
         for (int k = 0; k < ncom; ++k) H.comments.push_back("comment " + std::to_string(k));
         vector<SP3Data> v, want;
         for (int e = 0; e < 2; ++e)
         {
            SP3Data d; d.time = H.time; d.time += e * H.epochInterval; d.time.setTimeSystem(H.timeSystem);
            d.RecType = '*'; v.push_back(d); want.push_back(d);
            for (int k = 0; k < n; ++k) for (int q = 0; q < (vel ? 2 : 1); ++q)
            {
               SP3Data p; p.time = d.time; p.RecType = q ? 'V' : 'P'; p.sat = sats[k];
               p.x[0] = (k % 2 ? -1 : 1) * 999999.999999 / (k + 1); p.x[1] = -12345.678901 * (k + 1) / 7; p.x[2] = k * 1e-6; p.clk = k % 3 == 0 ? 999999.999999 : -123.456789 * k;
               if (ver >= 2) { for (int j = 0; j < 4; ++j) p.sig[j] = (k * 7 + j * 13) % (j == 3 ? 1000 : 100); }
               if (!q)
               {
                  p.clockEventFlag = p.clockPredFlag = p.orbitManeuverFlag = p.orbitPredFlag = false;
                  if (ver >= 2) { p.clockEventFlag = k & 1; p.clockPredFlag = k & 2; p.orbitManeuverFlag = k & 4; p.orbitPredFlag = k & 8; }
                  if (ver == 0) p.eventFlag = k & 1;
               }
               p.correlationFlag = corr && k % 3 != 1;
               if (p.correlationFlag) { for (int j = 0; j < 3; ++j) p.sdev[j] = (k * 71 + j * 1307) % 10000; p.sdev[3] = k * 12345 % 10000000; for (int j = 0; j < 6; ++j) p.correlation[j] = (j % 2 ? -1 : 1) * ((k * 1234567 + j * 7654321) % 10000000); }
               v.push_back(p); want.push_back(p);
            }
         }
         OS w; w << "version " << "abcd"[ver] << " satellites " << n << (corr ? " correlations" : "") << (vel ? " velocities" : "") << (frac ? " fractional epoch" : "") << " comments " << ncom << " option " << opt;
         c.eval();
         string e = thrown([&]{ put<SP3Stream>("a.dat", H, v); });
         if (!e.empty()) { c.fail("sp3:write-refused", w.str() + ": " + e); continue; }
         SP3Header g; vector<SP3Data> r;
         e = thrown([&]{ get<SP3Stream>("a.dat", g, r); });
         if (!e.empty()) { c.fail("sp3:read-refused", w.str() + ": " + e); continue; }
         auto bad = [&](const string& k, const string& d = ""){ c.fail("sp3-header:" + k, w.str() + ": " + k + " read differently " + d); };
         if (g.version != H.version || g.containsVelocity != H.containsVelocity) bad("version");
         if (std::fabs((g.time - civ(2011, 10, 9, 3, 7, frac ? 8.0625 : 0, g.time.getTimeSystem()))) > 1e-8) { OS o; o << CivilTime(g.time); bad("time", o.str()); }
         if (g.numberOfEpochs != H.numberOfEpochs || std::fabs(g.epochInterval - H.epochInterval) > 1e-8) bad("epochs");
         if (trimb(g.dataUsed) != H.dataUsed || trimb(g.coordSystem) != H.coordSystem || trimb(g.orbitType) != H.orbitType || trimb(g.agency) != H.agency) bad("strings");
         if (ver && g.timeSystem != H.timeSystem) bad("time system");
         if (ver && g.system.systemChar() != H.system.systemChar()) bad("file system");
         if (ver >= 2 && (std::fabs(g.basePV - H.basePV) > 1e-7 || std::fabs(g.baseClk - H.baseClk) > 1e-9)) bad("bases");
         if (g.satList != H.satList) bad("satellites");
         for (int k = 0; k < ncom; ++k) if ((int)g.comments.size() <= k || trimb(g.comments[k]) != H.comments[k]) { bad("comments"); break; }
         if (r.size() != want.size()) { OS o; o << w.str() << ": " << want.size() << " records written, " << r.size() << " read"; c.fail("sp3:records", o.str()); continue; }
         for (size_t k = 0; k < want.size(); ++k)
         {
            const SP3Data &a = want[k], &b = r[k];
            string miss;
            if (a.RecType != b.RecType || (a.RecType != '*' && a.sat != b.sat)) miss = "satellite";
            else if (std::fabs(a.time - b.time) > 1e-8) { OS o; o << CivilTime(a.time) << " read as " << CivilTime(b.time); c.fail("sp3:epoch", w.str() + ": " + o.str()); break; }
            else if (a.RecType == '*') continue;
            else if (std::fabs(a.x[0] - b.x[0]) > 6e-7 || std::fabs(a.x[1] - b.x[1]) > 6e-7 || std::fabs(a.x[2] - b.x[2]) > 6e-7 || std::fabs(a.clk - b.clk) > 6e-7) miss = "values";
            else if (ver >= 2 && (a.sig[0] != b.sig[0] || a.sig[1] != b.sig[1] || a.sig[2] != b.sig[2] || a.sig[3] != b.sig[3])) miss = "sigmas";
            else if (ver >= 2 && a.RecType == 'P' && (a.clockEventFlag != b.clockEventFlag || a.clockPredFlag != b.clockPredFlag || a.orbitManeuverFlag != b.orbitManeuverFlag || a.orbitPredFlag != b.orbitPredFlag)) miss = "flags";
            else if (ver == 0 && a.RecType == 'P' && a.eventFlag != b.eventFlag) miss = "event flag";
            else if (a.correlationFlag != b.correlationFlag) miss = "correlation flag";
            else if (a.correlationFlag)
            {
               for (int j = 0; j < 4; ++j) if (a.sdev[j] != b.sdev[j]) miss = "standard deviations";
               for (int j = 0; j < 6; ++j) if (a.correlation[j] != b.correlation[j]) miss = "correlations";
            }
            if (!miss.empty()) { OS o; o << w.str() << ": record " << k << " " << miss; c.fail("sp3:" + miss, o.str()); break; }
         }
         
         g.allowSP3aEvents = H.allowSP3aEvents;
         e = thrown([&]{ put<SP3Stream>("b.dat", g, r); });
         if (!e.empty()) { c.fail("sp3:rewrite-refused", w.str() + ": " + e); continue; }
         string A = slurp("a.dat"), B = slurp("b.dat");
         if (A != B) c.fail("sp3:rewrite", w.str() + ": " + firstDiff(A, B));
         c.outcome(A); c.trans(want.size());
      }
   });
   // the same header and data objects used for two files in turn
   h.part("sp3 reuse", 16, [&](Ctx& c, u64 i)
   {
      Mix m(i); int v1 = m(4), v2 = m(4);
      auto make = [&](const string& f, int ver, int first)
      {
         SP3Header H; H.version = ver == 0 ? SP3Header::SP3a : ver == 1 ? SP3Header::SP3b : ver == 2 ? SP3Header::SP3c : SP3Header::SP3d;
         H.containsVelocity = false; H.time = civ(2011, 10, 9, 0, 0, 0, TimeSystem::GPS); H.numberOfEpochs = 1; H.epochInterval = 900; H.dataUsed = "ORBIT"; H.coordSystem = "IGS08"; H.orbitType = "HLM"; H.agency = "IGS";
         H.system = SP3SatID(-1, SatelliteSystem::GPS); H.timeSystem = TimeSystem::GPS;
         vector<SP3Data> v; SP3Data d; d.RecType = '*'; d.time = H.time; v.push_back(d);
         for (int k = 0; k < 3; ++k) { SatID s(first + k, SatelliteSystem::GPS); H.satList[SP3SatID(s)] = k + 1; SP3Data p; p.RecType = 'P'; p.time = H.time; p.sat = s; p.x[0] = p.x[1] = p.x[2] = first + k; p.clk = 1; v.push_back(p); }
         put<SP3Stream>(f, H, v);
         return H;
      };
      SP3Header h1 = make("one.dat", v1, 1), h2 = make("two.dat", v2, 11);
      SP3Header g; vector<SP3Data> r;
      c.eval();
      string e = thrown([&]{ get<SP3Stream>("one.dat", g, r); r.clear(); get<SP3Stream>("two.dat", g, r); });
      OS w; w << "version " << "abcd"[v1] << " then " << "abcd"[v2] << " into one header";
      if (!e.empty()) { c.fail("sp3-reuse:refused", w.str() + ": " + e); return; }
      if (g.satList != h2.satList) { OS o; o << w.str() << ": " << g.satList.size() << " satellites listed, " << h2.satList.size() << " in the file"; c.fail("sp3-reuse:satellites", o.str()); }
      c.outcome(g.satList.size());
   });

   // ---- almanac text files
   h.part("yuma", 12, [&](Ctx& c, u64 i)
   {
      vector<YumaData> v;
      static const double x[] = { 0., 1., -1., 0.5, 3.14159265359, -2.7182818284, 1.23456789e-9, -9.99999999e-12, 1e-3, 0.99 };
      for (int k = 0; k < 30; ++k)
      {
         YumaData d; d.PRN = 1 + (k + i) % 32; d.week = (i * 97 + k) % 1024; d.SV_health = k % 64; d.Toa = (k * 4096 + i * 147456) % 602112;
         auto q = [&](int j){ return x[(k + i + j * 3) % 10]; };
         d.ecc = std::fabs(q(0)) * 0.3; d.i_total = q(1); d.i_offset = d.i_total - 54. * (gpstk::PI / 180.); d.OMEGAdot = q(2); d.Ahalf = 5153.5 + std::fabs(q(3)); d.OMEGA0 = q(4); d.w = q(5); d.M0 = q(6); d.AF0 = q(7); d.AF1 = q(8); d.xmit_time = 0;
         v.push_back(d);
      }
      c.eval();
      string e = thrown([&]{ YumaStream s("a.dat", std::ios::out | std::ios::trunc); s.exceptions(std::ios::failbit); for (auto& d : v) s << d; s.close(); });
      if (!e.empty()) { c.fail("yuma:write-refused", e); return; }
      vector<YumaData> r;
      { YumaStream s("a.dat"); YumaData d; while (s >> d) r.push_back(d); }
      if (r.size() != v.size()) { OS o; o << v.size() << " almanacs written, " << r.size() << " read"; c.fail("yuma:records", o.str()); return; }
      auto nr = [](double a, double b, double abs_, double rel){ return std::fabs(a - b) <= abs_ + rel * std::fabs(a); };
      for (size_t k = 0; k < v.size(); ++k)
      {
         const YumaData &a = v[k], &b = r[k]; string miss;
         if (a.PRN != b.PRN) miss = "PRN"; else if (a.week != b.week) miss = "week"; else if (a.SV_health != b.SV_health) miss = "health"; else if (a.Toa != b.Toa) miss = "Toa";
         else if (!nr(a.ecc, b.ecc, 0, 1e-9)) miss = "ecc"; else if (!nr(a.i_total, b.i_total, 0, 1e-9)) miss = "inclination"; else if (!nr(a.i_offset, b.i_offset, 1e-9, 1e-9)) miss = "inclination offset"; else if (!nr(a.OMEGAdot, b.OMEGAdot, 0, 1e-9)) miss = "OMEGAdot"; else if (!nr(a.Ahalf, b.Ahalf, 6e-7, 0)) miss = "Ahalf"; else if (!nr(a.OMEGA0, b.OMEGA0, 0, 1e-9)) miss = "OMEGA0"; else if (!nr(a.w, b.w, 6e-10, 0)) miss = "w"; else if (!nr(a.M0, b.M0, 0, 1e-9)) miss = "M0"; else if (!nr(a.AF0, b.AF0, 0, 1e-9)) miss = "AF0"; else if (!nr(a.AF1, b.AF1, 0, 1e-9)) miss = "AF1";
         if (!miss.empty()) { OS o; o << "almanac " << k << " of PRN " << a.PRN << ": " << miss; c.fail("yuma:" + miss, o.str()); }
      }
      { YumaStream s("b.dat", std::ios::out | std::ios::trunc); for (auto& d : r) s << d; s.close(); }
      if (slurp("a.dat") != slurp("b.dat")) c.fail("yuma:rewrite", firstDiff(slurp("a.dat"), slurp("b.dat")));
      c.outcome(slurp("a.dat")); c.trans(v.size());
   });
   h.part("sem", 12, [&](Ctx& c, u64 i)
   {
      SEMHeader H; H.numRecords = 20; H.Title = "CURRENT.ALM"; H.week = (i * 97) % 1024; H.Toa = 147456 * (i % 4) + 4096;
      vector<SEMData> v;
      static const double x[] = { 0., 0.75, -0.75, 0.5, 0.314159265358, -0.27182818284, 1.23456789e-9, -9.99999999e-12, 1e-3, 0.99 };
      for (int k = 0; k < 20; ++k)
      {
         SEMData d; d.PRN = 1 + k; d.SVNnum = 40 + k; d.URAnum = k % 16; d.SV_health = k % 64; d.satConfig = k % 12; d.week = H.week; d.Toa = H.Toa; d.xmit_time = 0;
         auto q = [&](int j){ return x[(k + i + j * 3) % 10]; };
         d.ecc = std::fabs(q(0)) * 0.3; d.i_offset = q(1) * 0.05 * gpstk::PI; d.i_total = double(d.i_offset) + 54. * (gpstk::PI / 180.); d.OMEGAdot = q(2) * 1e-9 * gpstk::PI; d.Ahalf = 5153.5 + std::fabs(q(3)); d.OMEGA0 = q(4) * gpstk::PI; d.w = q(5) * gpstk::PI; d.M0 = q(6) * gpstk::PI; d.AF0 = q(7) * 1e-3; d.AF1 = q(8) * 1e-10;
         v.push_back(d);
      }
      cycle<SEMStream, SEMHeader, SEMData>(c, "sem", H, v, "SEM almanac", [&](const SEMHeader& g, const vector<SEMData>& r)
      {
         if (g.numRecords != H.numRecords || g.Title != H.Title || g.week != H.week || g.Toa != H.Toa) c.fail("sem:header", "header read differently");
         auto nr = [](double a, double b, double rel){ return std::fabs(a - b) <= rel * std::fabs(a) + 1e-24; };
         for (size_t k = 0; k < v.size(); ++k)
         {
            const SEMData &a = v[k], &b = r[k]; string miss; const double R = 1e-12;
            if (a.PRN != b.PRN || a.SVNnum != b.SVNnum || a.URAnum != b.URAnum || a.SV_health != b.SV_health || a.satConfig != b.satConfig || a.week != b.week || a.Toa != b.Toa) miss = "numbers";
            else if (!nr(a.ecc, b.ecc, R)) miss = "ecc"; else if (!nr(a.i_offset, b.i_offset, R)) miss = "inclination offset"; else if (std::fabs(a.i_total - b.i_total) > 1e-12) miss = "inclination"; else if (!nr(a.OMEGAdot, b.OMEGAdot, R)) miss = "OMEGAdot"; else if (!nr(a.Ahalf, b.Ahalf, R)) miss = "Ahalf"; else if (!nr(a.OMEGA0, b.OMEGA0, R)) miss = "OMEGA0"; else if (!nr(a.w, b.w, R)) miss = "w"; else if (!nr(a.M0, b.M0, R)) miss = "M0"; else if (!nr(a.AF0, b.AF0, R)) miss = "AF0"; else if (!nr(a.AF1, b.AF1, R)) miss = "AF1";
            if (!miss.empty()) { OS o; o.precision(17); o << "PRN " << a.PRN << ": " << miss << " e.g. i_offset " << double(a.i_offset) << " / " << double(b.i_offset) << ", i " << a.i_total << " / " << b.i_total << ", M0 " << double(a.M0) << " / " << double(b.M0); c.fail("sem:" + miss, o.str()); }
         }
      });
   });
   // the full week nearest the reference week, for every pair around the rollovers
   h.part("almanac weeks", 64, [&](Ctx& c, u64 i)
   {
      for (int ref = 1 + i; ref < 4096; ref += 64) for (int wk : { 0, 1, 2, 100, 511, 512, 513, 700, 1022, 1023, 1500, 2047 })
      {
         if ((ref * 7 + wk) % 5 && !th) continue;
         int want = -1;
         for (int k = -1; k < 6; ++k) { int w = wk % 1024 + 1024 * k; if (w >= 0 && std::abs(w - ref) < 512) want = w; }
         if (want < 0) continue;                       // exactly half way, or before the first week
         SEMHeader H; H.numRecords = 1; H.Title = "A.B"; H.week = wk; H.Toa = 4096;
         SEMHeader g; string e = thrown([&]{
            { SEMStream s("a.dat", std::ios::out | std::ios::trunc); s << H; s.close(); }
            SEMHeader::nearFullWeek = ref; SEMStream s("a.dat"); s >> g; });
         SEMHeader::nearFullWeek = 0;
         c.eval();
         if (!e.empty() || g.week != want) { OS o; o << "week " << wk << " near full week " << ref << " read as " << g.week << ", not " << want << " " << e; c.fail("sem:full-week", o.str()); }
         YumaData d; d.PRN = 1; d.week = wk; d.SV_health = 0; d.Toa = 4096; d.ecc = d.i_total = d.i_offset = d.OMEGAdot = d.OMEGA0 = d.w = d.M0 = d.AF0 = d.AF1 = 0; d.Ahalf = 5153.5; d.xmit_time = 0;
         YumaData r; e = thrown([&]{
            { YumaStream s("b.dat", std::ios::out | std::ios::trunc); s << d; s.close(); }
            YumaData::nearFullWeek = ref; YumaStream s("b.dat"); s >> r; });
         YumaData::nearFullWeek = 0;
         if (!e.empty() || r.week != want) { OS o; o << "week " << wk << " near full week " << ref << " read as " << r.week << ", not " << want << " " << e; c.fail("yuma:full-week", o.str()); }
         c.outcome(u64(g.week)); c.states(1);
      }
   });
   return h.run(argc, argv);
}
