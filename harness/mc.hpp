// Bounded-exhaustive exploration driver shared by every check.
// A harness registers "parts"; each part is a finite, indexed space [0,N) of
// cases; the driver runs *every* index exactly once, sharded over forked
// workers, and attributes crashes / hangs to the case being executed.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cxxabi.h>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <iomanip>
#include <limits>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <algorithm>
#include <typeinfo>
#include <unistd.h>
#include <vector>

namespace mc {
typedef uint64_t u64;
typedef int64_t i64;

inline u64 hmix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h;
}
inline u64 hstr(const std::string& s, u64 h = 1469598103934665603ULL) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return hmix(h, s.size());
}
inline u64 hdbl(double d) { u64 u; std::memcpy(&u, &d, 8); return u; }
inline std::string esc(const std::string& s) {
  std::string r; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct WShared {            // one per worker, in shared memory
  volatile u64 cur, hi, beat;
  volatile int active;
  u64 evals, states, trans, traces;
  char at[2048];
};

struct Ctx {
  WShared* w = nullptr;
  bool thorough = false, replay = false;
  u64 idx = 0;
  std::string part;
  std::string viol_file;
  std::map<std::string, int> keycount;
  std::vector<u64> outc;            // hash table, open addressing
  u64 noutc = 0;
  std::vector<std::string> samples;
  u64 nfail = 0;
  Ctx() : outc(1 << 12, 0) {}
  void at(const std::string& s) { std::strncpy(w->at, s.c_str(), sizeof(w->at) - 1); }
  void eval(u64 n = 1) { w->evals += n; w->beat++; }
  void states(u64 n = 1) { w->states += n; w->beat++; }
  void trans(u64 n = 1) { w->trans += n; w->beat++; }
  void traces(u64 n = 1) { w->traces += n; }
  void outcome(u64 h) {
    if (!h) h = 1;
    if (noutc > (8u << 20)) return;     // cap: the count becomes a lower bound
    if (2 * noutc >= outc.size()) {
      std::vector<u64> o(outc.size() * 2, 0); o.swap(outc); noutc = 0;
      for (u64 x : o) if (x) ins(x);
    }
    ins(h);
  }
  void outcome(const std::string& s) { outcome(hstr(s)); }
  void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s); }
  void fail(const std::string& key, const std::string& msg) {
    nfail++;
    int& k = keycount[key];
    if (replay) std::cout << "FAIL key=" << key << " : " << msg << std::endl;
    if (k++ >= 2 || keycount.size() > 200) return;
    std::ofstream f(viol_file.c_str(), std::ios::app);
    f << "{\"part\":\"" << esc(part) << "\",\"idx\":" << idx << ",\"key\":\"" << esc(key)
      << "\",\"kind\":\"assert\",\"msg\":\"" << esc(msg.substr(0, 1500)) << "\"}\n";
  }
  bool ck(bool ok, const char* key, const std::string& msg = "") { if (!ok) fail(key, msg); return ok; }
private:
  void ins(u64 h) {
    u64 m = outc.size() - 1, i = (h * 0x9e3779b97f4a7c15ULL) >> 20 & m;
    while (outc[i]) { if (outc[i] == h) return; i = (i + 1) & m; }
    outc[i] = h; noutc++;
  }
};
#define MC_CK(c, cond, key, msg) do { if (!(cond)) { std::ostringstream o_; o_ << std::setprecision(17) << msg; (c).fail(key, o_.str()); } } while (0)

inline std::string demangle(const char* n) {
  int st; char* d = abi::__cxa_demangle(n, 0, 0, &st);
  std::string r = d ? d : n; free(d); return r;
}
// run f; return "" or the dynamic type name of what it threw
template <class F> std::string thrown(F f) {
  try { f(); return ""; }
  catch (...) {
    std::type_info* t = abi::__cxa_current_exception_type();
    std::string n = t ? demangle(t->name()) : "?"; size_t q = n.rfind("::"); return q == std::string::npos ? n : n.substr(q + 2);
  }
}
struct Mix { u64 i; explicit Mix(u64 x) : i(x) {} unsigned operator()(u64 n) { unsigned r = i % n; i /= n; return r; } };

struct Part { std::string name; u64 n; std::function<void(Ctx&, u64)> fn; double timeout; };

struct Harness {
  std::string id;
  std::vector<Part> parts;
  bool thorough = false;
  int seed = 1;
  std::string scratch;
  explicit Harness(const std::string& i) : id(i) {
    const char* t = getenv("VERIF_TIER"); thorough = t && std::string(t) == "thorough";
  }
  void part(const std::string& name, u64 n, std::function<void(Ctx&, u64)> fn, double timeout = 60) {
    parts.push_back(Part{name, n, fn, timeout});
  }

  static void rmtree(const std::string& d) {
    DIR* dp = opendir(d.c_str()); if (!dp) return;
    while (dirent* e = readdir(dp)) {
      std::string n = e->d_name; if (n == "." || n == "..") continue;
      std::string p = d + "/" + n; struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmtree(p); else unlink(p.c_str());
    }
    closedir(dp); rmdir(d.c_str());
  }
  void enter(const std::string& sub) {
    std::string d = scratch + "/" + sub; mkdir(d.c_str(), 0700);
    if (chdir(d.c_str())) _exit(97);
#if !defined(__SANITIZE_ADDRESS__)
    rlimit r; r.rlim_cur = r.rlim_max = 4ULL << 30; setrlimit(RLIMIT_AS, &r);
#endif
    rlimit z; z.rlim_cur = z.rlim_max = 0; setrlimit(RLIMIT_CORE, &z);
    rlimit fs; fs.rlim_cur = fs.rlim_max = 1ULL << 30; setrlimit(RLIMIT_FSIZE, &fs);
  }
  void one(Ctx& c, const Part& p, u64 i) {
    c.idx = i; c.w->cur = i; c.w->at[0] = 0; c.w->beat++;
    try { p.fn(c, i); }
    catch (...) {
      std::type_info* t = abi::__cxa_current_exception_type();
      std::string n = t ? demangle(t->name()) : "?", what;
      try { throw; } catch (std::exception& e) { what = e.what(); } catch (...) {}
      c.fail("uncaught:" + p.name + ":" + n, "unexpected exception " + n + " " + what + " at " + c.w->at);
    }
  }
  int replay(const std::string& pn, u64 lo, u64 hi) {
    WShared* w = (WShared*)mmap(0, sizeof(WShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (auto& p : parts) if (p.name == pn) {
      fflush(0); std::cout.flush();
      pid_t k = fork();
      if (!k) {
        enter("r"); Ctx c; c.w = w; c.thorough = thorough; c.replay = true; c.part = p.name; c.viol_file = "/dev/null";
        for (u64 i = lo; i <= hi && i < p.n; i++) one(c, p, i);
        std::cout.flush(); fflush(0); _exit(c.nfail ? 1 : 0);
      }
      double last = now(); u64 b = w->beat; int st = 0;
      for (;;) {
        pid_t r = waitpid(k, &st, WNOHANG); if (r == k) break;
        if (w->beat != b) { b = w->beat; last = now(); }
        if (now() - last > 3 * p.timeout) { kill(k, SIGKILL); waitpid(k, &st, 0);
          std::cout << "FAIL key=hang:" << p.name << " : no progress in case " << w->cur << " at " << w->at << std::endl; return 1; }
        usleep(2000);
      }
      if (WIFSIGNALED(st) || (WEXITSTATUS(st) > 1)) {
        std::cout << "FAIL key=crash:" << p.name << " : case " << w->cur << " status " << st << " at " << w->at << std::endl; return 1;
      }
      return WEXITSTATUS(st);
    }
    std::cerr << "no such part " << pn << "\n"; return 2;
  }

  // ------------------------------------------------------------------
  int run(int argc, char** argv) {
    setenv("TZ", "UTC", 1); tzset();
    int nw = 8; std::string out, rp, only; u64 lo = 0, hi = 0; bool isr = false, list = false; double slow = 0;
    for (int a = 1; a < argc; a++) {
      std::string s = argv[a];
      if (s == "--out") out = argv[++a];
      else if (s == "--workers") nw = atoi(argv[++a]);
      else if (s == "--only") only = argv[++a];
      else if (s == "--replay") { rp = argv[++a]; lo = hi = strtoull(argv[++a], 0, 10); isr = true; }
      else if (s == "--range") { rp = argv[++a]; lo = strtoull(argv[++a], 0, 10); hi = strtoull(argv[++a], 0, 10); isr = true; }
      else if (s == "--list") list = true;
    }
    (void)slow;
    if (list) { for (auto& p : parts) std::cout << p.name << " " << p.n << "\n"; return 0; }
    char tmpl[] = "/tmp/mcscratch.XXXXXX"; if (!mkdtemp(tmpl)) return 2; scratch = tmpl;
    if (isr) { int r = replay(rp, lo, hi); rmtree(scratch); return r; }
    double t0 = now();
    struct Glob { std::atomic<u64> next; };
    Glob* g = (Glob*)mmap(0, sizeof(Glob), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    WShared* ws = (WShared*)mmap(0, sizeof(WShared) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::ostringstream js; js << "{\"parts\":[";
    u64 te = 0, ts = 0, tt = 0, tr = 0, td = 0, nviol = 0; bool first = true;
    std::string viols, samp;
    for (auto& p : parts) {
      if (!only.empty() && only != p.name) continue;
      double p0 = now();
      memset((void*)ws, 0, sizeof(WShared) * nw); g->next = 0;
      u64 chunk = p.n / (nw * 64); if (chunk < 1) chunk = 1; if (chunk > 4096) chunk = 4096;
      std::vector<pid_t> pid(nw, 0); std::vector<double> last(nw, now()); std::vector<u64> beat(nw, 0);
      std::vector<int> restarts(nw, 0);
      auto vf = [&](int k) { std::ostringstream o; o << scratch << "/viol." << k; return o.str(); };
      auto of = [&](int k) { std::ostringstream o; o << scratch << "/outc." << k; return o.str(); };
      auto sf = [&](int k) { std::ostringstream o; o << scratch << "/samp." << k; return o.str(); };
      auto start = [&](int k, u64 rlo, u64 rhi) {
        fflush(0); std::cout.flush();
        pid_t c = fork();
        if (!c) {
          if (!getenv("MC_VERBOSE")) { int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1); if (!getenv("MC_STDERR")) dup2(dn, 2); }
          std::ostringstream sd; sd << "w" << k; enter(sd.str());
          Ctx x; x.w = &ws[k]; x.thorough = thorough; x.part = p.name; x.viol_file = vf(k);
          ws[k].active = 1;
          for (u64 i = rlo; i < rhi; i++) { ws[k].hi = rhi; one(x, p, i); }
          for (;;) {
            u64 l = g->next.fetch_add(chunk); if (l >= p.n) break;
            u64 h = std::min(p.n, l + chunk); ws[k].hi = h;
            for (u64 i = l; i < h; i++) one(x, p, i);
          }
          std::ofstream f(of(k).c_str(), std::ios::binary | std::ios::app);
          for (u64 h : x.outc) if (h) f.write((char*)&h, 8);
          f.close();
          std::ofstream s(sf(k).c_str(), std::ios::app); for (auto& q : x.samples) s << esc(q) << "\n"; s.close();
          _exit(0);
        }
        pid[k] = c; last[k] = now(); beat[k] = ws[k].beat;
      };
      auto addv = [&](const std::string& kind, u64 idx, const std::string& msg) {
        nviol++; std::ostringstream o;
        o << (viols.empty() ? "" : ",") << "{\"part\":\"" << esc(p.name) << "\",\"idx\":" << idx << ",\"key\":\"" << kind << ":" << esc(p.name)
          << "\",\"kind\":\"" << kind << "\",\"msg\":\"" << esc(msg) << "\"}"; viols += o.str(); };
      int nwp = (int)std::min<u64>(nw, p.n ? p.n : 1);
      for (int k = 0; k < nwp; k++) start(k, 0, 0);
      int live = nwp; u64 abn = 0; bool abort_part = false;
      while (live > 0) {
        int st; pid_t r = waitpid(-1, &st, WNOHANG);
        if (r > 0) {
          for (int k = 0; k < nwp; k++) if (pid[k] == r) {
            pid[k] = 0; live--;
            bool bad = WIFSIGNALED(st) || WEXITSTATUS(st) != 0;
            if (bad) {
              abn++;
              std::ostringstream o; if (WIFSIGNALED(st)) o << "signal " << WTERMSIG(st); else o << "exit " << WEXITSTATUS(st);
              o << " at " << ws[k].at;
              bool hung = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
              if (abn <= 12) addv(hung ? "hang" : "crash", ws[k].cur, o.str());
              if (abn <= 12) { start(k, ws[k].cur + 1, std::max<u64>((u64)ws[k].hi, (u64)ws[k].cur + 1)); live++; }
              else abort_part = true;
            }
          }
          continue;
        }
        for (int k = 0; k < nwp; k++) if (pid[k]) {
          if (ws[k].beat != beat[k]) { beat[k] = ws[k].beat; last[k] = now(); }
          else if (now() - last[k] > p.timeout) { kill(pid[k], SIGKILL); last[k] = now(); }
        }
        usleep(1500);
      }
      u64 e = 0, s = 0, t = 0, tr1 = 0;
      for (int k = 0; k < nwp; k++) { e += ws[k].evals; s += ws[k].states; t += ws[k].trans; tr1 += ws[k].traces; }
      std::vector<u64> all;
      for (int k = 0; k < nwp; k++) {
        std::ifstream f(of(k).c_str(), std::ios::binary); u64 h; while (f.read((char*)&h, 8)) all.push_back(h);
        std::ifstream v(vf(k).c_str()); std::string l; while (std::getline(v, l)) { nviol++; viols += (viols.empty() ? "" : ",") + l; }
        std::ifstream sm(sf(k).c_str()); int q = 0; while (std::getline(sm, l) && q++ < 1 && samp.size() < 6000) samp += (samp.empty() ? "\"" : ",\"") + esc(p.name) + ": " + l + "\"";
        unlink(of(k).c_str()); unlink(vf(k).c_str()); unlink(sf(k).c_str());
      }
      std::sort(all.begin(), all.end()); u64 d = std::unique(all.begin(), all.end()) - all.begin();
      js << (first ? "" : ",") << "{\"name\":\"" << esc(p.name) << "\",\"cases\":" << p.n << ",\"evals\":" << e << ",\"states\":" << s << ",\"transitions\":" << t
         << ",\"traces\":" << tr1 << ",\"distinct\":" << d << ",\"abnormal\":" << abn << ",\"complete\":" << (abort_part ? "false" : "true") << ",\"wall\":" << now() - p0 << "}";
      first = false; te += e; ts += s; tt += t; tr += tr1; td += d;
      if (out.empty()) fprintf(stderr, "%-28s cases %llu evals %llu states %llu trans %llu traces %llu distinct %llu  %.2fs\n", p.name.c_str(), (unsigned long long)p.n, (unsigned long long)e,
        (unsigned long long)s, (unsigned long long)t, (unsigned long long)tr1, (unsigned long long)d, now() - p0);
    }
    js << "],\"evals\":" << te << ",\"states\":" << ts << ",\"transitions\":" << tt << ",\"traces\":" << tr << ",\"distinct\":" << td
       << ",\"wall\":" << now() - t0 << ",\"samples\":[" << samp << "],\"violations\":[" << viols << "]}";
    if (out.empty()) std::cout << "violations: " << nviol << "\n" << viols << "\n";
    else { std::ofstream f(out.c_str()); f << js.str() << "\n"; }
    rmtree(scratch);
    return nviol ? 1 : 0;
  }
};

// Breadth-first search over operation histories with canonical-state dedup.
// exec(hist, canon) executes the history on a fresh real object + model,
// reports mismatches itself, sets canon; returns false to prune.
template <class Exec> void bfs(Ctx& c, int nops, int depth, const std::vector<int>& prefix, Exec exec) {
  std::set<u64> seen; std::vector<std::vector<int>> front(1, prefix), next;
  std::string canon;
  if (!exec(prefix, canon)) return;
  seen.insert(hstr(canon)); c.states(); c.outcome(canon);
  for (int d = (int)prefix.size(); d < depth; d++) {
    next.clear();
    for (auto& h : front) for (int o = 0; o < nops; o++) {
      std::vector<int> n(h); n.push_back(o); canon.clear();
      bool ok = exec(n, canon); c.trans(); c.traces();
      if (!ok) continue;
      if (seen.insert(hstr(canon)).second) { c.states(); c.outcome(canon); next.push_back(n); }
    }
    front.swap(next);
  }
}
}  // namespace mc
