// C30 command line parsing: every argument vector against an independent reference parser
// MC-SAN: asan
// MC-EXTRA: -Wno-unused
// MC-RULE: options, values, occurrence order, operands and the set of errors equal those of a reference parser written from the getopt_long conventions and the option classes' documentation
// MC-ASSUME: POSIX-correct ordering (options end at the first operand), as the parser documents ; CommandLine's reserved words (-h -v -d -f and long forms) are never values
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>
#include "mc.hpp"
#include "CommandOptionParser.hpp"
#include "CommandOptionWithTimeArg.hpp"
#include "CommandOptionWithCommonTimeArg.hpp"
#include "CommandOptionWithPositionArg.hpp"
#include "CommandLine.hpp"
#include "logstream.hpp"
#include "TimeString.hpp"
#include "CivilTime.hpp"
#include "YDSTime.hpp"
using namespace gpstk; using namespace mc; typedef std::string S; typedef std::vector<S> VS;
static S num(double d) { char b[40]; snprintf(b, 40, "%.10g", d); return b; }
static S show(const VS& v) { S r; for (auto& s : v) r += "[" + s + "]"; return r; }
// ---- reference: getopt_long with POSIX ordering
struct RO { char s; S l; bool arg; bool req; unsigned long max; int kind; }; // kind 0 plain/any, 1 number, 2 decimal, 3 alpha
struct RRes { std::vector<VS> val; std::vector<std::vector<unsigned long> > ord; std::vector<int> cnt; VS rest; std::vector<unsigned long> restOrd; int errors = 0; };
static RRes refParse(const std::vector<RO>& os, const VS& a, bool trailing) { RRes r; int n = os.size(); r.val.resize(n); r.ord.resize(n); r.cnt.assign(n, 0); size_t i = 0; unsigned long order = 0;
  auto hit = [&](int k, const S* v) { r.cnt[k]++; r.ord[k].push_back(order); if (v) r.val[k].push_back(*v); };
  while (i < a.size()) { const S& x = a[i]; if (x == "--") { i++; break; } if (x.size() < 2 || x[0] != '-') break;
    if (x[1] == '-') { i++; order++; size_t eq = x.find('='); S nm = x.substr(2, eq == S::npos ? S::npos : eq - 2); int k = -1, m = 0; for (int j = 0; j < n; j++) if (!os[j].l.empty()) { if (os[j].l == nm) { k = j; m = 1; break; } if (os[j].l.compare(0, nm.size(), nm) == 0) { k = j; m++; } } if (m != 1) { r.errors++; continue; } S v; if (eq != S::npos) v = x.substr(eq + 1); if (!os[k].arg) { if (eq != S::npos) r.errors++; else hit(k, 0); continue; } if (eq == S::npos) { if (i >= a.size()) { r.errors++; continue; } v = a[i++]; } hit(k, &v); continue; }
    i++; for (size_t p = 1; p < x.size(); p++) { order++; int k = -1; for (int j = 0; j < n; j++) if (os[j].s == x[p]) k = j; if (k < 0 || x[p] == ':' ) { r.errors++; continue; } if (!os[k].arg) { hit(k, 0); continue; } S v = x.substr(p + 1); if (v.empty()) { if (i >= a.size()) { r.errors++; break; } v = a[i++]; } hit(k, &v); break; } }
  if (i < a.size()) { if (trailing) for (; i < a.size(); i++) { r.rest.push_back(a[i]); r.restOrd.push_back(++order); } else r.errors++; }
  return r; }
static bool isInt(const S& s) { size_t i = s.size() && (s[0] == '-' || s[0] == '+'); if (i >= s.size()) return false; for (; i < s.size(); i++) if (s[i] < '0' || s[i] > '9') return false; return true; }
static bool isDec(const S& s) { size_t i = s.size() && (s[0] == '-' || s[0] == '+'); int d = 0, p = 0; for (; i < s.size(); i++) if (s[i] >= '0' && s[i] <= '9') d++; else if (s[i] == '.') p++; else return false; return d && p <= 1; }
static bool isSci(const S& s) { size_t p = s.find_first_of("EeDd"); if (p == S::npos) return isDec(s); S e = s.substr(p + 1); return isDec(s.substr(0, p)) && (e.empty() || isInt(e)); }
static bool isAl(const S& s) { if (s.empty()) return false; for (char c : s) if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))) return false; return true; }
static bool kindOk(int k, const VS& v) { for (auto& s : v) if (k == 1 ? !isInt(s) : k == 2 ? !isDec(s) : k == 3 ? !isAl(s) : false) return false; return true; }
struct Argv { std::vector<S> st; std::vector<char*> p; Argv(const VS& a, const S& prog = "dir/prog") { st.push_back(prog); for (auto& x : a) st.push_back(x); for (auto& x : st) p.push_back(&x[0]); p.push_back(0); } int n() { return st.size(); } };
static std::unique_ptr<CommandOption> mk(const RO& o) { std::unique_ptr<CommandOption> p; switch (o.kind) { case 1: p.reset(new CommandOptionWithNumberArg(o.s, o.l, "d", o.req)); break; case 2: p.reset(new CommandOptionWithDecimalArg(o.s, o.l, "d", o.req)); break; case 3: p.reset(new CommandOptionWithStringArg(o.s, o.l, "d", o.req)); break; default: if (o.arg) p.reset(new CommandOptionWithAnyArg(o.s, o.l, "d", o.req)); else p.reset(new CommandOptionNoArg(o.s, o.l, "d", o.req)); } if (o.max) p->setMaxCount(o.max); return p; }
static S optStr(const RO& o) { S r; if (o.s) { r = S("-") + o.s; if (!o.l.empty()) r += " | --" + o.l; } else r = "--" + o.l; return r; }
static VS lines(const S& s) { VS v; std::istringstream i(s); S l; while (std::getline(i, l)) v.push_back(l); return v; }

int main(int argc, char** argv) {
  Harness h("C30"); int TH = h.thorough;
  // 1. argument vectors
  static const std::vector<VS> TOK = { {"-a", "-b", "-bX", "-ab", "-aab", "--alpha", "--al", "--alpi", "--beta=1", "--beta", "--be", "-n", "-n7", "5", "-3", "x1", "--", "-", "--alpha=2", "-z", "--zz", "--num=12", "--dec", "--dec=", "", "--b", "-s", "Q"} };
  struct Cfg { std::vector<RO> o; int trail; }; // trail 0 none, 1 optional, 2 required
  static std::vector<Cfg> cfgs; { for (int v = 0; v < 6; v++) { Cfg c; c.o = { {'a', "alpha", false, false, (unsigned long)(v % 3), 0}, {'b', "beta", true, v == 2, (unsigned long)(v == 1 ? 1 : 0), 0}, {'n', "num", true, false, 0, 1}, {0, "dec", true, false, (unsigned long)(v == 3), 2}, {0, "alpine", false, v == 4, 0, 0}, {'s', v < 3 ? "b" : "", true, false, 0, 3} }; if (v == 5) { std::reverse(c.o.begin(), c.o.end()); c.o[0].l = "a"; } c.trail = v % 3; cfgs.push_back(c); } }
  int L = TH ? 5 : 4; int nt = TOK[0].size();
  h.part("vectors", cfgs.size() * nt * nt, [=](Ctx& c, u64 i) { const Cfg& cf = cfgs[i % cfgs.size()]; int t0 = i / cfgs.size() % nt, t1 = i / cfgs.size() / nt; const VS& T = TOK[0];
    auto one = [&](const VS& a) { c.eval(); RRes r = refParse(cf.o, a, cf.trail > 0); defaultCommandOptionList.clear(); std::vector<std::unique_ptr<CommandOption> > os; for (auto& o : cf.o) os.push_back(mk(o)); std::unique_ptr<CommandOptionRest> rest; if (cf.trail) rest.reset(new CommandOptionRest("files", cf.trail == 2)); CommandOptionParser p("text"); Argv av(a); p.parseOptions(av.n(), av.p.data()); std::ostringstream es; p.dumpErrors(es); VS err = lines(es.str()); auto bad = [&](const S& k, const S& x) { c.fail(k, "config " + num(i % cfgs.size()) + " argv " + show(a) + ": " + x + " errors: " + show(err)); };
      int want = r.errors; for (size_t k = 0; k < cf.o.size(); k++) { auto& o = cf.o[k]; if ((int)os[k]->getCount() != r.cnt[k]) bad("count", optStr(o) + " " + num(os[k]->getCount()) + " want " + num(r.cnt[k])); if (os[k]->getValue() != r.val[k]) bad("value", optStr(o) + show(os[k]->getValue()) + " want " + show(r.val[k])); for (size_t q = 0; q < r.ord[k].size(); q++) if (os[k]->getOrder(q) != r.ord[k][q]) bad("order", optStr(o) + num(q)); if (os[k]->getOrder(r.ord[k].size()) != 0 || os[k]->getOrder() != (r.ord[k].empty() ? 0 : r.ord[k].back())) bad("order-last", optStr(o)); bool e1 = o.req && !r.cnt[k], e2 = !e1 && !kindOk(o.kind, r.val[k]), e3 = o.max && (unsigned long)r.cnt[k] > o.max; want += e1 + e2 + e3; int seen = 0; for (auto& e : err) if (e.compare(0, 12, "Option error") && e.find(optStr(o)) != S::npos && (e.size() < e.find(optStr(o)) + optStr(o).size() + 1 || e[e.find(optStr(o)) + optStr(o).size()] == ' ')) seen++; if (seen != e1 + e2 + e3) bad("option-error", optStr(o) + " " + num(seen) + " want " + num(e1 + e2 + e3)); }
      if (rest) { if (rest->getValue() != r.rest || rest->getCount() != r.rest.size()) bad("operands", show(rest->getValue()) + " want " + show(r.rest)); for (size_t q = 0; q < r.restOrd.size(); q++) if (rest->getOrder(q) != r.restOrd[q]) bad("operand-order", num(q)); if (cf.trail == 2 && r.rest.empty()) want++; }
      if ((int)err.size() != want || p.hasErrors() != (want > 0)) bad("errors", num(err.size()) + " want " + num(want)); c.outcome(u64(hmix(want, hstr(es.str())))); };
    if (t0 == 0 && t1 == 0) one({}); if (t1 == 0) one({T[t0]}); VS a = {T[t0], T[t1]}; one(a); std::function<void(int)> rec = [&](int d) { if (!d) return; for (auto& t : T) { a.push_back(t); one(a); rec(d - 1); a.pop_back(); } }; rec(L - 2); }, 120);
  // 2. groups
  static const std::vector<std::vector<int> > subs = [] { std::vector<std::vector<int> > v; for (int m = 1; m < 16; m++) { std::vector<int> s; for (int k = 0; k < 4; k++) if (m >> k & 1) s.push_back(k); v.push_back(s); } return v; }();
  h.part("groups", 81, [=](Ctx& c, u64 i) { Mix m(i); int cnt[4]; for (int& k : cnt) k = m(3); static const char SH[] = "abcd"; for (int grp = 0; grp < 3; grp++) for (auto& sub : subs) for (int kind = 0; kind < 9; kind++) for (int par = 0; par < (kind == 3 ? 5 * 6 : kind == 4 ? 4 * 4 : 1); par++) {
      defaultCommandOptionList.clear(); std::vector<std::unique_ptr<CommandOption> > o; for (int k = 0; k < 4; k++) o.emplace_back(k % 2 ? (CommandOption*)new CommandOptionWithAnyArg(SH[k], "", "d") : (CommandOption*)new CommandOptionNoArg(SH[k], "", "d")); std::unique_ptr<CommandOptionOneOf> g; std::vector<CommandOption*> mem; std::vector<int> mc; std::vector<S> nm; for (int k : sub) { mem.push_back(o[k].get()); mc.push_back(cnt[k]); nm.push_back(S("-") + SH[k]); }
      if (grp) { CommandOptionOneOf* gg; if (grp == 1) gg = new CommandOptionGroupOr; else gg = new CommandOptionGroupAnd; g.reset(gg); gg->addOption(o[0].get()); gg->addOption(o[1].get()); int gc = grp == 2 && (!cnt[0] || !cnt[1]) ? 0 : cnt[0] + cnt[1]; if ((int)mem.size() > 3) continue; mem.insert(mem.begin(), gg); mc.insert(mc.begin(), gc); nm.insert(nm.begin(), "(-a,-b)"); if (std::max(kind, 0) == 4) continue; }
      std::unique_ptr<CommandOption> meta; CommandOptionOneOf* oo = 0; CommandOptionNOf* nn = 0; bool want; int set = 0, tot = 0; for (int x : mc) { set += x > 0; tot += x; } int N = 0, M = 0;
      switch (kind) { case 0: oo = new CommandOptionOneOf; want = set == 0; break; case 1: oo = new CommandOptionAllOf; want = set > 0 && set < (int)mc.size(); break; case 2: oo = new CommandOptionMutex(false); want = set > 1; break; case 5: oo = new CommandOptionMutex(true); want = set != 1; break; case 6: oo = new CommandOptionGroupOr; want = false; break; case 7: oo = new CommandOptionGroupAnd; want = false; break; case 8: oo = new CommandOptionMutex; want = set > 1; break;
        case 3: { N = par % 5; M = par / 5; nn = new CommandOptionNOf(N); if (M) nn->setMaxCount(M); int mx = M ? M : N; want = tot < N || tot > mx; break; } default: { int a = par % 4, b = par / 4; meta.reset(new CommandOptionDependent(o[a].get(), o[b].get())); want = cnt[b] && !cnt[a]; } }
      if (oo) { meta.reset(oo); for (auto* x : mem) oo->addOption(x); } if (nn) { meta.reset(nn); for (auto* x : mem) nn->addOption(x); }
      VS a; for (int rep = 0; rep < 2; rep++) for (int k = 0; k < 4; k++) if (cnt[k] > rep) { a.push_back(S("-") + SH[k]); if (k % 2) a.push_back("v"); } CommandOptionParser p("t"); Argv av(a); c.eval(); p.parseOptions(av.n(), av.p.data()); std::ostringstream es; p.dumpErrors(es); VS err = lines(es.str()); S id = "kind " + num(kind) + " par " + num(par) + " group " + num(grp) + " argv " + show(a) + " members " + show(nm); if (p.hasErrors() != want || (int)err.size() != (want ? 1 : 0)) c.fail("group-rule", id + " errors " + show(err)); if (want && kind != 4) for (auto& x : nm) if (err.size() && err[0].find(x) == S::npos) c.fail("group-message", id + err[0]);
      if (kind == 0 || kind == 2) { CommandOption* w = oo->whichOne(); CommandOption* ww = 0; for (size_t k = 0; k < mem.size(); k++) if (mc[k]) { ww = mem[k]; break; } if (w != ww) c.fail("whichOne", id); } if (nn) { std::vector<CommandOption*> ww; for (size_t k = 0; k < mem.size(); k++) if (mc[k]) ww.push_back(mem[k]); if (nn->which() != ww) c.fail("which", id); } if (kind == 1 || kind == 7) { if ((int)meta->getCount() != (set == (int)mc.size() ? tot : 0)) c.fail("group-count", id); } if (kind == 6 && (int)meta->getCount() != tot) c.fail("group-count", id); c.outcome(u64(hmix(want, kind))); }
    if (i == 0) { CommandOptionOneOf x; CommandOptionNOf y(1); CommandOptionNoArg z('q', "", ""); if (thrown([&] { x.addOption(0); }).empty() || thrown([&] { y.addOption(0); }).empty() || thrown([&] { CommandOptionDependent d(0, &z); }).empty() || thrown([&] { CommandOptionDependent d(&z, 0); }).empty()) c.fail("null-member", "accepted"); for (int ch = 0; ch < 256; ch++) { CommandOptionVec v; S x1 = thrown([&] { CommandOption q(CommandOption::noArgument, CommandOption::stdType, (char)ch, ch ? "" : "ok", "d", false, v); }), x2 = thrown([&] { CommandOption q(CommandOption::noArgument, CommandOption::stdType, 0, S("a") + (char)ch + "b", "d", false, v); }); bool g = ch > 32 && ch < 127; if (x1.empty() != (g || ch == 0)) c.fail("short-character", num(ch)); if (x2.empty() != g) c.fail("long-character", num(ch)); } CommandOptionVec v; if (thrown([&] { CommandOption q(CommandOption::noArgument, CommandOption::stdType, 0, "", "d", false, v); }).empty()) c.fail("nameless", "accepted"); if (!v.empty()) c.fail("refused-registered", ""); } }, 60);
  // 3. typed values
  static const VS words = [] { VS v; const char* A = "05+-.aZ "; v.push_back(""); size_t b = 0; for (int l = 0; l < 4; l++) { size_t e = v.size(); for (size_t k = b; k < e; k++) for (const char* p = A; *p; p++) v.push_back(v[k] + *p); b = e; } return v; }();
  h.part("values", 64, [=](Ctx& c, u64 i) { for (size_t k = i; k < words.size(); k += 64) for (int kind = 0; kind < 4; kind++) for (int form = 0; form < 3; form++) { const S& w = words[k]; RO o{'q', "quant", true, false, 0, kind}; defaultCommandOptionList.clear(); auto p = mk(o); VS a; if (form == 0) a = {"--quant=" + w}; else if (form == 1) a = {"-q", w}; else { if (w.empty()) continue; a = {"-q" + w, "-q1"}; if (kind == 3) a[1] = "-qZ"; } CommandOptionParser ps("t"); Argv av(a); ps.parseOptions(av.n(), av.p.data()); c.eval(); if (ps.hasErrors() != !kindOk(kind, {w})) c.fail("typed-value", "kind " + num(kind) + " " + show(a)); if (p->getValue().size() != a.size() - (form == 1) || p->getValue()[0] != w) c.fail("typed-value:text", show(a)); std::ostringstream d; p->dumpValue(d); if (d.str() != w + "\n" + (form == 2 ? (kind == 3 ? "Z\n" : "1\n") : "")) c.fail("dumpValue", show(a)); } }, 60);
  h.part("times", 366, [=](Ctx& c, u64 i) { YDSTime y(2004, i + 1, 0); CommonTime t0 = y.convertToCommonTime(); t0.setTimeSystem(TimeSystem::Unknown); CivilTime cv(t0); char b[64]; struct W { S txt; bool ok; double s; }; std::vector<W> ws; snprintf(b, 64, "%d/%d/%d", cv.month, cv.day, cv.year); ws.push_back({b, true, 0}); snprintf(b, 64, "%d %d", 2004, int(i + 1)); ws.push_back({b, true, 0}); for (int s : {0, 1, 43200, 86399}) { snprintf(b, 64, "%d %d %d", 2004, int(i + 1), s); ws.push_back({b, true, (double)s}); snprintf(b, 64, " %d  %d %d ", 2004, int(i + 1), s); } ws.push_back({"", false, 0}); ws.push_back({"2004 1 2 3", false, 0}); ws.push_back({"x", false, 0}); ws.push_back({"1/2004", false, 0}); ws.push_back({"5-1-2004", false, 0});
    for (size_t k = 0; k < ws.size(); k++) for (size_t l = 0; l < ws.size(); l++) { defaultCommandOptionList.clear(); CommandOptionWithSimpleTimeArg o('t', "time", "d"); CommandOptionParser p("t"); Argv av({"-t", ws[k].txt, "--time=" + ws[l].txt}); p.parseOptions(av.n(), av.p.data()); c.eval(); bool ok = ws[k].ok && ws[l].ok; S id = show({ws[k].txt, ws[l].txt}); if (p.hasErrors() == ok) { c.fail("time-argument", id); continue; } auto g = o.getTime(); if (ok) { if (g.size() != 2) c.fail("time-argument:count", id); else for (int q = 0; q < 2; q++) { auto& w = ws[q ? l : k]; CommonTime t = t0; t += w.s; if (std::fabs(g[q] - t) > 1e-6) c.fail("time-argument:value", id); } } if (k > 2) break; }
    for (int bad = 0; bad < 2; bad++) { defaultCommandOptionList.clear(); CommandOptionWithCommonTimeArg o('t', "time", "%Y %m %d", "d"); CommandOptionWithTimeArg o2('u', "u", "%Y/%j", "d"); snprintf(b, 64, bad ? "%d-%d-%d" : "%d %d %d", cv.year, cv.month, cv.day); char b2[64]; snprintf(b2, 64, bad ? "2004x%d" : "2004/%d", int(i + 1)); CommandOptionParser p("t"); Argv av({"-t", b, "-u", b2}); p.parseOptions(av.n(), av.p.data()); std::ostringstream es; p.dumpErrors(es); c.eval(); if (lines(es.str()).size() != (bad ? 2u : 0u)) c.fail("time-format", b); if (!bad && (o.getTime().size() != 1 || o2.getTime().size() != 1 || std::fabs(o.getTime()[0] - t0) > 1e-6 || std::fabs(o2.getTime()[0] - t0) > 1e-6)) c.fail("time-format:value", b); }
    for (int bad = 0; bad < 1; bad++) { defaultCommandOptionList.clear(); CommandOptionWithPositionArg o('p', "pos", "%x %y %z", "d"); snprintf(b, 64, bad ? "%d q 3" : "%d 7 -3", int(i) * 1000); CommandOptionParser p("t"); Argv av({"-p", b, S("--pos=") + b}); p.parseOptions(av.n(), av.p.data()); c.eval(); if (p.hasErrors() != bool(bad)) c.fail("position", b); if (!bad) { auto g = o.getPosition(); if (g.size() != 2 || std::fabs(g[1].X() - i * 1000.) > 1e-6 || std::fabs(g[0].Y() - 7) > 1e-6 || std::fabs(g[0].Z() + 3) > 1e-6) c.fail("position:value", b); } } }, 60);
  // 4. help and usage
  h.part("help", 128, [=](Ctx& c, u64 i) { defaultCommandOptionList.clear(); Mix m(i); bool req = m(2), tr = m(2); CommandOptionNoArg a('a', "aa", "first"); CommandOptionWithNumberArg n('n', "", "second", req); CommandOptionWithAnyArg w(0, "ww", "third"); CommandOptionHelpUsage hu; CommandOptionHelpSimple hs('V', "version", "fourth", "ver 7"); std::unique_ptr<CommandOptionRest> rest; if (tr) rest.reset(new CommandOptionRest("FILES")); CommandOptionOneOf meta; meta.addOption(&a); VS av; int k1 = m(4), k2 = m(4); bool ff = m(2); const char* T[] = {"-a", "-h", "--version", "-n5"}; av = {T[k1], T[k2]}; CommandOptionParser p("the text"); Argv ar(av); p.parseOptions(ar.n(), ar.p.data()); c.eval(); bool hh = k1 == 1 || k2 == 1, hv = k1 == 2 || k2 == 2; if (p.helpRequested() != (hh || hv)) c.fail("helpRequested", show(av)); std::ostringstream o; p.printHelp(o, false, ff); S s = o.str(); bool firstV = k1 == 2 || (k1 != 1 && k2 == 2); bool wu = hh && (!ff || !firstV), wv = hv && (!ff || firstV); if ((s.find("ver 7") != S::npos) != wv) c.fail("printHelp", show(av) + s); if ((s.find("Usage: prog") != S::npos) != wu) c.fail("printHelp", show(av) + s);
    for (int pr = 0; pr < 2; pr++) { std::ostringstream u; p.displayUsage(u, pr); s = u.str(); for (const char* x : {"-a, --aa", "--ww=ARG", "-n  NUM", "-h, --help", "-V, --version"}) { size_t p1 = s.find(x); if (pr == 1 && p1 == S::npos) c.fail("usage-lists", S(x) + " not in " + s); if (p1 != S::npos && s.find(x, p1 + 1) != S::npos) c.fail("usage-twice", x); } for (const char* x : {"first", "second", "third", "fourth", "the text"}) if (s.find(x) == S::npos) c.fail("usage-describes", x); if ((s.find("Required arguments:") != S::npos) != req || (s.find("FILES") != S::npos) != tr) c.fail("usage-sections", s); if (req && (s.find("second") > s.find("Optional"))) c.fail("usage-sections", s); } }, 60);
  // 5. CommandLine
  struct RL { char s; S l; int type; bool rep, req; bool toggle, expand; }; // types as in the class: 0 bool 1 int 2 vint 3 double 4 string 5 vstring 6 sat 7 vsat
  static const std::vector<RL> LO = { {'a', "all", 0, false, false, false, true}, {'t', "tog", 0, false, false, true, true}, {'i', "int", 1, false, true, false, true}, {0, "ints", 2, true, false, false, true}, {'r', "real", 3, false, false, false, true}, {'w', "word", 4, true, false, false, true}, {0, "words", 5, true, false, false, true}, {0, "raws", 5, false, false, false, false}, {0, "sat", 6, false, false, false, true}, {0, "sats", 7, true, false, false, true} };
  static S dir; { char t[] = "/tmp/c30XXXXXX"; if (mkdtemp(t)) dir = t; chmod(dir.c_str(), 0777); auto w = [&](const S& n, const S& b) { std::ofstream f((dir + "/" + n).c_str()); f << b; }; w("l1", "alpha beta\n# c1 c2\ngamma # rest\n\n"); w("l2", "1 2\n-3"); w("o1", "--int 8 # no\n\n   \n--words \"two words\"\n# --tog\n--ints 4,5\n"); w("o2", "-w first\n--file " + dir + "/o1\n-a"); w("o3", "# nothing\n"); w("l4", "G05 R11\n"); w("o4", "--off --tog --on\n--words q1,q2\r\n"); }
  static const VS CT = {"-a", "--all", "--tog", "--int", "-i", "7", "x", "--ints", "1,2,z", "3,4", "-r", "1.5e3", "-w", "p,q", "--words", "@L1", "@L2", "@missing", "--raws", "--sats", "G1,@L4", "--sat", "G12", "--zz", "-f", "O1", "O2", "O3", "O4", "-fO1", "--help", "-v", "--old", "--skip", "--skipa", "--on", "--off", "", "--bad-sat"};
  int nc = CT.size(); int LC = TH ? 4 : 3;
  h.part("commandline", nc * nc * 2, [=](Ctx& c, u64 i) { bool one1 = i & 1; int t0 = i / 2 % nc, t1 = i / 2 / nc; auto sub = [&](S t) { if (t == "--bad-sat") return S("G999x"); for (S k : {"L1", "L2", "L4", "O1", "O2", "O3", "O4", "missing"}) { size_t p = t.find(k); if (p != S::npos) { S f = k; for (char& ch : f) ch = tolower(ch); return t.substr(0, p) + dir + "/" + f; } } return t; };
    auto run = [&](const VS& raw) { VS a; for (auto& t : raw) a.push_back(sub(t)); c.eval(); ConfigureLOG::ReportingLevel() = ConfigureLOG::Level("NONE");
      // reference
      VS Args; bool help = false, verbose = false, onoff = false, once = false, pendf = false; std::function<void(const S&)> pre = [&](const S& s) { if (s.empty()) return; if (once) { once = false; return; } if (s == "--skip") return; if (s == "--skipa") { once = true; return; } if (s == "--on") { onoff = true; return; } if (s == "--off") { onoff = false; return; } if (onoff) return; if (s == "--file" || s == "-f") { pendf = true; return; } if (pendf || s.compare(0, 2, "-f") == 0) { S fn = pendf ? s : s.substr(2); pendf = false; std::ifstream f(fn.c_str()); if (!f) return; S ln; while (std::getline(f, ln)) { while (!ln.empty() && ln.back() == '\r') ln.pop_back(); size_t p = 0; while (true) { while (p < ln.size() && ln[p] == ' ') p++; if (p >= ln.size() || ln[p] == '#') break; S w; if (ln[p] == '"') { size_t e = ln.find('"', p + 1); w = ln.substr(p + 1, e - p - 1); p = e + 1; } else { size_t e = ln.find(' ', p); w = ln.substr(p, e == S::npos ? S::npos : e - p); p = e == S::npos ? ln.size() : e; } pre(w); } } onoff = false; return; } if (s == "-h" || s == "--help") { help = true; return; } if (s == "-v" || s == "--verbose") { verbose = true; return; } if (s == "--old") { Args.push_back("--tog"); return; } Args.push_back(s); };
      for (auto& s : a) pre(s); if (a.empty() && one1) help = true; if (one1 && Args.empty()) help = true; std::vector<VS> val(LO.size()); VS unrec; int errs = 0; bool thr = false; for (size_t k = 0; k < Args.size(); k++) { int o = -1; for (size_t j = 0; j < LO.size() && o < 0; j++) if ((LO[j].s && Args[k] == S("-") + LO[j].s) || Args[k] == "--" + LO[j].l) o = j; if (o < 0) { unrec.push_back(Args[k]); continue; } if (LO[o].type == 0) { val[o].push_back("T"); continue; } if (k + 1 >= Args.size() || Args[k + 1].compare(0, 2, "--") == 0) { errs++; continue; } val[o].push_back(Args[++k]); }
      bool all = false, tog = true; int iv = 3; std::vector<int> vi = {9}; double dv = 2.5; S sv = "dflt"; VS vs, vr; RinexSatID sat; std::vector<RinexSatID> vsat; bool Eall = false, Etog = true; int Eiv = 3; std::vector<int> Evi = {9}; double Edv = 2.5; S Esv = "dflt"; VS Evs, Evr; S Esat = "none"; VS Evsat;
      for (size_t o = 0; o < LO.size(); o++) { auto& q = LO[o]; if (q.req && val[o].empty()) errs++; if (!q.rep && val[o].size() > 1) errs++; if (val[o].empty()) continue; VS v = val[o]; if (q.expand && (q.type == 2 || q.type == 5 || q.type == 7)) { VS nv; bool miss = false; for (auto& s : v) { std::istringstream is(s); S w; while (std::getline(is, w, ',')) { if (w.empty()) continue; if (w[0] == '@') { std::ifstream f(w.substr(1).c_str()); if (!f) { miss = true; continue; } S ln; while (std::getline(f, ln)) { std::istringstream ls(ln); S x; while (ls >> x) { if (x[0] == '#') break; nv.push_back(x); } } } else nv.push_back(w); } } if (miss) errs++; v = nv; }
        auto satTxt = [&](const S& s) { S x = thrown([&] { RinexSatID r(s); }); if (!x.empty()) { thr = true; return S("?"); } return RinexSatID(s).toString(); };
        switch (q.type) { case 0: if (q.toggle) Etog = !Etog; else Eall = true; break; case 1: if (isInt(v[0])) Eiv = std::atoi(v[0].c_str()); else errs++; break; case 2: for (auto& s : v) if (isInt(s)) Evi.push_back(std::atoi(s.c_str())); else errs++; break; case 3: if (isSci(v[0])) Edv = std::atof(v[0].c_str()); else errs++; break; case 4: Esv = v[0]; break; case 5: for (auto& s : v) (q.expand ? Evs : Evr).push_back(s); break; case 6: Esat = satTxt(v[0]); break; case 7: for (auto& s : v) { Evsat.push_back(satTxt(s)); } } }
      CommandLine cl; if (!one1) cl.noArgsRequired(); void* tp[] = {&all, &tog, &iv, &vi, &dv, &sv, &vs, &vr, &sat, &vsat}; for (size_t o = 0; o < LO.size(); o++) { auto& q = LO[o]; switch (q.type) { case 0: cl.Add(q.s, q.l, "", q.rep, q.req, (bool*)tp[o], "", "desc" + q.l); break; case 1: cl.Add(q.s, q.l, "n", q.rep, q.req, (int*)tp[o], "", "desc" + q.l); break; case 2: cl.Add(q.s, q.l, "n", q.rep, q.req, (std::vector<int>*)tp[o], "", "desc" + q.l); break; case 3: cl.Add(q.s, q.l, "n", q.rep, q.req, (double*)tp[o], "", "desc" + q.l); break; case 4: cl.Add(q.s, q.l, "n", q.rep, q.req, (S*)tp[o], "", "desc" + q.l); break; case 5: cl.Add(q.s, q.l, "n", q.rep, q.req, (VS*)tp[o], "", "desc" + q.l); break; case 6: cl.Add(q.s, q.l, "n", q.rep, q.req, (RinexSatID*)tp[o], "", "desc" + q.l); break; default: cl.Add(q.s, q.l, "n", q.rep, q.req, (std::vector<RinexSatID>*)tp[o], "", "desc" + q.l); } } cl.setToggle("tog"); cl.noExpansion("raws"); cl.Add_ignore("--skip"); cl.Add_ignore("--skipa", true); cl.Add_ignore_on("--on"); cl.Add_ignore_off("--off"); cl.Add_deprecated("--old", "--tog");
      auto bad = [&](const S& k, const S& x) { c.fail("CommandLine:" + k, S(one1 ? "" : "(no args required) ") + show(raw) + ": " + x); }; Argv av(a); S us, er; VS un; int rc = 99; S x = thrown([&] { rc = cl.ProcessCommandLine(av.n(), av.p.data(), "program text", us, er, un); }); ConfigureLOG::ReportingLevel() = ConfigureLOG::Level("NONE"); if (x.empty() == thr) { bad("exception", x); return; } if (thr) return; int ne = lines(er).size(); if ((ne > 0) != (errs > 0)) bad("errors", er + " want " + num(errs)); if (rc != (help ? 1 : errs ? -1 : 0)) bad("return", num(rc)); if (cl.hasHelp() != help || (!help && cl.hasErrors() != (errs > 0))) bad("state", er); if (un != unrec) bad("unrecognized", show(un) + " want " + show(unrec)); for (size_t o = 0; o < LO.size(); o++) if (cl.count(LO[o].l) != val[o].size()) bad("count", LO[o].l);
      if (all != Eall || tog != Etog) bad("bool", ""); if (iv != Eiv || vi != Evi) bad("int", num(iv)); if (dv != Edv) bad("double", num(dv)); if (sv != Esv || vs != Evs || vr != Evr) bad("string", sv + show(vs) + " want " + show(Evs)); if ((sat.id == -1 ? S("none") : sat.toString()) != Esat) bad("sat", ""); VS gs; for (auto& s : vsat) gs.push_back(s.toString()); if (gs != Evsat) bad("sats", show(gs)); if (us.find("Usage: ") != 0 || us.find("program text") == S::npos) bad("usage", us); for (auto& q : LO) if (us.find(" --" + q.l) == S::npos || us.find("desc" + q.l) == S::npos) bad("usage", q.l); if (a.size() < 2) { std::ostringstream d; cl.DumpConfiguration(d, "T"); for (auto& q : LO) if (d.str().find("(--" + q.l + ") : ") == S::npos) bad("DumpConfiguration", q.l); } c.outcome(u64(hmix(rc + 5, hstr(er)))); };
    if (t0 == 0 && t1 == 0) run({}); if (t1 == 0) run({CT[t0]}); VS a = {CT[t0], CT[t1]}; run(a); std::function<void(int)> rec = [&](int d) { if (!d) return; for (auto& t : CT) { a.push_back(t); run(a); rec(d - 1); a.pop_back(); } }; rec(LC - 2); }, 120);
  int rc = h.run(argc, argv); for (const char* f : {"l1", "l2", "o1", "o2", "o3", "l4", "o4"}) unlink((dir + "/" + f).c_str()); rmdir(dir.c_str()); return rc;
}
