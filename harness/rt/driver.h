// Generic supervised driver: runs executions of an adapter under the scheduler and writes one NDJSON history per
// distinct execution.  A crash, failed assertion, deadlock or endless loop of the code under test becomes an
// "x" event at the end of the history of the execution in which it happened.
#pragma once
#include "sched.h"
#include "prefilter.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <cstring>
#include <time.h>
#include <cstdlib>
#include <unordered_set>
#include <sched.h>
#include <execinfo.h>
#include <sys/personality.h>
#include <string>
#include <map>

namespace vd {
using vs::Rng;

struct Op { std::string o; int k = 0; long v = 0; int hi = 0; int lim = 0; };
struct Scn {
  std::vector<Op> init;                  // executed before the threads start (recorded in the header or as events)
  std::vector<std::vector<Op>> thr;      // one op list per thread
  std::map<std::string, long> par;       // adapter specific parameters
};

// event helpers -----------------------------------------------------------------------------------
inline void call(int t, const char* o, int k, long v = 0) { { vs::NoSwitch ns; if (pf.on) pf.ev.push_back(PEv{'c', t, o, k, 0, v, 0, {}, {}}); } vs::ev("{\"e\":\"c\",\"t\":%d,\"o\":\"%s\",\"k\":%d,\"v\":%ld}", t, o, k, v); }
inline void ret(int t, long r) { { vs::NoSwitch ns; if (pf.on) pf.ev.push_back(PEv{'r', t, "", 0, 0, 0, r, {}, {}}); } vs::ev("{\"e\":\"r\",\"t\":%d,\"r\":%ld}", t, r); }
inline void call_scan(int t, const char* o, int lo, int hi, int lim) { { vs::NoSwitch ns; if (pf.on) pf.ev.push_back(PEv{'c', t, o, lo, hi, lim, 0, {}, {}}); } vs::ev("{\"e\":\"c\",\"t\":%d,\"o\":\"%s\",\"k\":%d,\"hi\":%d,\"v\":%d}", t, o, lo, hi, lim); }
inline void ret_scan(int t, const std::vector<std::pair<int, long>>& s) {
  vs::NoSwitch ns; if (pf.on) pf.ev.push_back(PEv{'s', t, "", 0, 0, 0, 0, s, {}});
  std::string b; for (auto& p : s) { if (!b.empty()) b += ","; b += "[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]"; }
  vs::ev("{\"e\":\"r\",\"t\":%d,\"s\":[%s]}", t, b.c_str());
}

// latch events: logged while the latch is held
inline void acq(int t, int k, bool excl) { { vs::NoSwitch ns; if (pf.on) pf.ev.push_back(PEv{excl ? 'a' : 'b', t, "", k, 0, 0, 0, {}, {}}); } vs::ev("{\"e\":\"a\",\"t\":%d,\"k\":%d,\"m\":\"%s\"}", t, k, excl ? "x" : "s"); }
inline void rel(int t, int k) { { vs::NoSwitch ns; if (pf.on) pf.ev.push_back(PEv{'l', t, "", k, 0, 0, 0, {}, {}}); } vs::ev("{\"e\":\"l\",\"t\":%d,\"k\":%d}", t, k); }
// quiescent read of every key after all threads are done
inline void fin(const std::vector<long>& m) {
  vs::NoSwitch ns; if (pf.on) pf.ev.push_back(PEv{'f', 0, "", 0, 0, 0, 0, {}, m});
  std::string b; for (auto v : m) { if (!b.empty()) b += ","; b += std::to_string(v); }
  vs::ev("{\"e\":\"f\",\"m\":[%s]}", b.c_str());
}
// the header field "init", which also arms the prefilter
inline std::string init_hdr(const std::vector<long>& iv) {
  vs::NoSwitch ns; pf.on = true; pf.init = iv;
  std::string h = ",\"init\":["; for (size_t i = 0; i < iv.size(); i++) h += (i ? "," : "") + std::to_string(iv[i]);
  return h + "]";
}
struct Shared { volatile uint64_t idx; volatile uint64_t execs; volatile uint64_t distinct; volatile uint64_t steps; volatile uint64_t crashes; volatile uint64_t switches; volatile uint64_t sus; volatile int sig; char head[60000]; };
inline Shared* sh;
inline int out_fd = -1;
inline std::string head;                 // header of the running execution (JSON fields without braces)
inline uint64_t cur_idx;
inline const char* crash_what(int s) { return s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : s == SIGFPE ? "SIGFPE" : s == SIGALRM || s == SIGPROF ? "TIMEOUT" : "signal"; }
inline void write_hist(bool sus = false) {
  std::string l = "{" + head + (sus ? ",\"sus\":1" : "") + ",\"ev\":" + vs::hist_take() + "}\n";
  size_t o = 0; while (o < l.size()) { ssize_t w = write(out_fd, l.data() + o, l.size() - o); if (w <= 0) break; o += w; }
}
inline void crash(const char* what) {
  vs::NoSwitch ns;
  static volatile int once = 0; if (once++) _exit(43);    // a second fault while writing: the parent reports the execution
  vs::mem_emergency();
  vs::ev("{\"e\":\"x\",\"t\":%d,\"w\":\"%s\"}", vs::tid(), what);
  write_hist(); sh->crashes++; _exit(43);
}
inline bool g_verbose = false;
inline void on_sig(int s) {
  if (!sh->sig) sh->sig = s;
  if (g_verbose) { vs::NoSwitch ns; void* b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); }
  crash(crash_what(s));
}

struct Opts { std::string out; uint64_t seed = 1; uint64_t n = 1000; uint64_t per = 20; uint64_t from = 0; double secs = 1e9; std::string kind; int cpu = -1; std::map<std::string, std::string> kv; };
inline Opts opts(int argc, char** argv) {
  Opts o;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], b = argv[i + 1];
    if (a == "--out") o.out = b; else if (a == "--seed") o.seed = strtoull(b.c_str(), 0, 10); else if (a == "--n") o.n = strtoull(b.c_str(), 0, 10);
    else if (a == "--per") o.per = strtoull(b.c_str(), 0, 10); else if (a == "--secs") o.secs = atof(b.c_str()); else if (a == "--from") o.from = strtoull(b.c_str(), 0, 10);
    else if (a == "--kind") o.kind = b; else if (a == "--cpu") o.cpu = atoi(b.c_str()); else o.kv[a.substr(2)] = b;
  }
  return o;
}
inline uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// one_exec(idx): run execution idx and leave header in `head` and events in the history.
// Concurrent adapters: class with gen/setup/exec/finish/teardown.
template <class A> struct Conc {
  Opts o; Scn scn; uint64_t scn_no = ~0ull; uint64_t horizon = 1000;
  A* a = nullptr;
  void one(uint64_t idx) {
    uint64_t sn = idx / o.per, sub = idx % o.per;
    if (sn != scn_no) { scn_no = sn; vs::NoSwitch ns; Rng r(o.seed * 1000003 + sn); scn = Scn(); a->gen(r, scn, o.kind); horizon = 0; vs::pc_reset(); }
    Rng r(o.seed * 7919 + idx * 31 + 17);
    vs::Plan p; p.seed = r.next();
    if (o.kv.count("max_steps")) p.max_steps = strtoull(o.kv["max_steps"].c_str(), 0, 10);
    if (horizon == 0) { p.mode = vs::PCT; p.depth = 0; }
    else {
      uint32_t nl, nc; const vs::Loc* L = vs::pcs(nl); const vs::Plan::At* C = vs::conflicts(nc);
      auto loc = [&] { const vs::Loc& l = L[r.below(nl)]; uint32_t m = l.max ? l.max : 1; if (r.chance(50) && m > 4) m = 4; return vs::Plan::At{l.pc, 1 + (uint32_t)r.below(m), 0}; };
      auto cf = [&] { return nc ? C[r.below(nc)] : loc(); };
      switch (r.below(nl ? 18 : 7)) {
        case 0: case 1: p.mode = vs::RANDOM; break;
        case 2: case 3: p.mode = vs::ONEPREEMPT; p.at = {1 + r.below(horizon)}; break;
        case 4: p.mode = vs::ONEPREEMPT; { uint64_t x = 1 + r.below(horizon); p.at = {x, x + 1 + r.below(200)}; } break;
        case 5: case 6: p.mode = vs::PCT; p.depth = 2 + r.below(3); break;
        case 7: p.mode = vs::ONEPREEMPT; p.pcs = {loc()}; break;                     // rarely reached locations as often as those in hot loops
        case 8: p.mode = vs::ONEPREEMPT; p.pcs = {loc(), loc()}; break;
        case 9: p.mode = vs::PCT; p.depth = 1 + r.below(2); p.pcs = {loc()}; break;
        case 10: case 11: case 12: p.mode = vs::ONEPREEMPT; p.pcs = {cf()}; break;   // just before an access that conflicts with another thread
        case 13: case 14: p.mode = vs::ONEPREEMPT; p.pcs = {cf(), cf()}; break;
        case 15: p.mode = vs::ONEPREEMPT; p.pcs = {cf(), cf(), cf()}; break;
        case 16: p.mode = vs::ONEPREEMPT; p.pcs = {cf(), loc()}; break;
        default: p.mode = vs::PCT; p.depth = 1; p.pcs = {cf()}; break;
      }
    }
    if (horizon && !o.kv.count("sc") && (o.kv.count("tso") || r.chance(25))) { p.tso = 1 + (int)r.below(12); p.tso_age = 20ull << r.below(8); }
    p.log = horizon == 0 || r.chance(4);
    p.horizon = horizon ? horizon : 1000;
    vs::hist_begin(); pf.on = false; pf.ext = false; pf.ext_ok = true; pf.ev.clear();
    head = "\"id\":" + std::to_string(idx);
    vs::mem_track(true);
    a->setup(scn);
    head += a->header(scn);
    { vs::NoSwitch ns; size_t hn = std::min(head.size(), sizeof sh->head - 1); memcpy(sh->head, head.data(), hn); sh->head[hn] = 0; }
    std::vector<std::function<void()>> b;
    for (size_t t = 0; t < scn.thr.size(); t++) b.push_back([this, t] { a->thread((int)t + 1, scn); });
    vs::Result res = vs::run(b, p);
    if (horizon == 0) horizon = res.steps + 1;
    sh->steps += res.steps; sh->switches += res.switches;
    a->finish(scn);
    a->teardown(scn);
    vs::mem_track(false);
    vs::mem_reset();
  }
};

// supervise: fork children that work through idx = from..n-1; after a crash continue behind it
template <class F> int supervise(Opts o, F make, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1 && (personality(0xffffffff) & ADDR_NO_RANDOMIZE))
    execv("/proc/self/exe", argv);     // same addresses in every run: executions replay exactly
  o.from -= o.from % o.per;
  g_verbose = o.kv.count("verbose");
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  out_fd = open(o.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (out_fd < 0) { perror("out"); return 2; }
  sh->idx = o.from;
  double t0 = now();
  while (sh->idx < o.n && now() - t0 < o.secs && sh->crashes < 12) {
    uint64_t crashes0 = sh->crashes; sh->sig = 0;
    pid_t c = fork();
    if (c == 0) {
      if (o.cpu >= 0) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(o.cpu, &s); sched_setaffinity(0, sizeof s, &s); }
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
      for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGILL, SIGFPE, SIGALRM, SIGPROF}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &sa, nullptr); }
      vs::on_crash = crash;
      int nul = open("/dev/null", O_WRONLY); if (!o.kv.count("verbose")) { dup2(nul, 1); dup2(nul, 2); }
      auto one = make(o);
      std::unordered_set<uint64_t> seen;
      uint64_t cnt = 0;
      unsigned alarm_s = o.kv.count("alarm") ? atoi(o.kv["alarm"].c_str()) : 120;
      int cpulim = o.kv.count("cpulimit") ? atoi(o.kv["cpulimit"].c_str()) : 15;
      uint64_t written = 0, keep = o.kv.count("keep") ? strtoull(o.kv["keep"].c_str(), 0, 10) : ~0ull;
      while (sh->idx < o.n && now() - t0 < o.secs && cnt < 20000) {
        uint64_t i = sh->idx; cur_idx = i;
        if (cnt % 32 == 0) { alarm(alarm_s); struct itimerval tv = {{0, 0}, {cpulim, 0}}; setitimer(ITIMER_PROF, &tv, nullptr); }
        one(i);
        if (seen.insert(vs::hist_hash() ^ (i / o.per) * 0x9E3779B97F4A7C15ull).second) {
          sh->distinct++;
          bool sus = (pf.on && !pf.ok()) || vs::hist_has("\"e\":\"x\"");
          if (sus) sh->sus++;
          // suspicious histories first; of the others an even sample over the run
          if (sus || keep == ~0ull || written <= keep * (now() - t0) / o.secs) { if (!sus) written++; if (!sus || sh->sus < 300) write_hist(sus); }
        }
        sh->idx = i + 1; sh->execs++; cnt++;
      }
      _exit(0);
    }
    // the child's own limits (SIGALRM, SIGPROF) end a stuck execution; when even their handlers are stuck, end it from outside
    int st = 0; bool stuck = false; uint64_t last = ~0ull; double base = 0; clockid_t ck; bool hasck = clock_getcpuclockid(c, &ck) == 0;
    while (waitpid(c, &st, WNOHANG) == 0) {
      usleep(5000); struct timespec ts; if (!hasck || clock_gettime(ck, &ts)) continue;
      double u = ts.tv_sec + ts.tv_nsec * 1e-9; if (sh->idx != last) { last = sh->idx; base = u; }
      if (u - base > 90) { stuck = true; kill(c, SIGKILL); }
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 43 && sh->crashes > crashes0) { sh->idx++; sh->execs++; continue; }
    bool killed = WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS || WTERMSIG(st) == SIGABRT);   // e.g. out of stack: no handler could run
    if ((killed || (stuck && WIFSIGNALED(st)) || (WIFEXITED(st) && WEXITSTATUS(st) == 43)) && sh->head[0]) {                                        // or the memory damage hit the handler
      std::string l = "{" + std::string(sh->head) + ",\"ev\":[{\"e\":\"x\",\"t\":0,\"w\":\"" + crash_what(killed ? WTERMSIG(st) : stuck ? SIGALRM : sh->sig ? sh->sig : SIGSEGV) + "\"}]}\n";
      if (write(out_fd, l.data(), l.size()) < 0) return 3;
      sh->crashes++; sh->idx++; sh->execs++; continue;
    }
    fprintf(stderr, "driver child ended with status %d at idx %lu\n", st, (unsigned long)sh->idx);
    return 3;
  }
  printf("{\"execs\":%lu,\"distinct\":%lu,\"steps\":%lu,\"switches\":%lu,\"crashes\":%lu,\"suspicious\":%lu,\"secs\":%.2f}\n", (unsigned long)sh->execs, (unsigned long)sh->distinct,
         (unsigned long)sh->steps, (unsigned long)sh->switches, (unsigned long)sh->crashes, (unsigned long)sh->sus, now() - t0);
  return 0;
}
template <class A> int conc_main(int argc, char** argv) {
  Opts o = opts(argc, argv);
  return supervise(o, [](Opts& o) { auto* c = new Conc<A>; c->o = o; c->a = new A; return [c](uint64_t i) { c->one(i); }; }, argv);
}
} // namespace vd
