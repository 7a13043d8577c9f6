// Masstree as a logged store: the real server's request execution (mtd.cc onego), loggers and recovery (log.cc), with
// crashes at any point.  Files live in a scratch directory; what had not been synced may be cut off by a crash.
#include <tbb/enumerable_thread_specific.h>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <deque>
#include <algorithm>
#include <cassert>
#include <iostream>
#include <set>
#include <map>
#include <math.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <dirent.h>
#include "rt/mapgen.h"
#include "string.hh"
#include "str.hh"
#include "json.hh"
#define private public
#include "kvthread.hh"
#include "log.hh"
#undef private
#include "json.hh"
#include "kvtest.hh"
#include "msgpack.hh"
#include "clp.h"
#include "misc.hh"
#include "file.hh"
static inline int say(FILE*, const char* f, ...) { vs::NoSwitch ns; if (!vd::g_verbose) return 0; va_list a; va_start(a, f); char b[400]; vsnprintf(b, sizeof b, f, a); va_end(a); return (int)write(2, b, strlen(b)); }
#define printf(...) say(nullptr, __VA_ARGS__)
#define fprintf(...) say(__VA_ARGS__)
#include "log.cc"
#define main mtd_main
#include "mtd.cc"
#undef main
#undef printf
#undef fprintf
using vd::GenCfg; using vd::gen_map; using vd::Op; using vd::Scn; using vd::call; using vd::ret; using vs::Rng;
static std::vector<std::string> g_keys;
static const long P = 4096; static const int NC = 4;
static int dig(long x, int c) { return (int)((x >> (3 * c)) & 7); }
static std::string cell(int k, int c, int v) {
  std::string s; s.push_back((char)('A' + v)); s.push_back((char)('a' + c));
  int l = (v * 5 + c * 3 + k) % 11 + (v == 7 ? 20 : 0); for (int i = 0; i < l; i++) s.push_back((char)('0' + (v + i) % 10)); return s;
}
static int uncell(int k, int c, const char* p, int n) {
  std::string s(p, n); if (s.empty()) return 0; int v = s[0] - 'A'; return v >= 1 && v <= 7 && s == cell(k, c, v) ? v : -1;
}
static lcdf::String mks(const std::string& s) { return lcdf::String(s.data(), (int)s.size()); }
// --- the machine: files, time, crashes -----------------------------------------------------------------------
static std::string g_root, g_dir; static std::map<std::string, off_t> g_durable;   // path -> synced length
static bool g_live, g_track, g_crashed, g_over; static int g_gen, g_ready, g_working, g_finished; static long g_ticks; static uint64_t g_us; static kvepoch_t g_lastep;
static int g_snapat, g_slow; static bool g_snapped; static Rng* g_rng;
static std::vector<std::pair<std::string, off_t>> files(const std::string& d) {
  std::vector<std::pair<std::string, off_t>> v; DIR* p = opendir(d.c_str()); if (!p) return v;
  while (dirent* e = readdir(p)) { if (e->d_name[0] == '.') continue; struct stat sb; if (stat((d + "/" + e->d_name).c_str(), &sb) == 0) v.push_back({e->d_name, sb.st_size}); }
  closedir(p); std::sort(v.begin(), v.end()); return v;
}
static void clean(const std::string& d) { for (auto& f : files(d)) unlink((d + "/" + f.first).c_str()); rmdir(d.c_str()); }
// the files as a crash now leaves them; mode 0: only what was synced, 1: everything written, 2: any prefix in between
static void crash_copy(const std::string& to, int mode) {
  mkdir(to.c_str(), 0777);
  for (auto& f : files(g_dir)) {
    off_t lo = g_durable.count(f.first) ? std::min(g_durable[f.first], f.second) : 0, hi = f.second, n = mode == 0 ? lo : mode == 1 ? hi : lo + (off_t)g_rng->below(hi - lo + 1);
    std::string b(n, 0); int a = open((g_dir + "/" + f.first).c_str(), O_RDONLY), z = open((to + "/" + f.first).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
    if (n && read(a, &b[0], n) != n) abort();
    if (n && write(z, b.data(), n) != n) abort();
    close(a); close(z);
    if (vd::g_verbose) {
      say(nullptr, "file %s: %d of %d\n", f.first.c_str(), (int)n, (int)hi);
      for (size_t i = 0; i + 8 <= (size_t)hi;) { uint32_t* w = (uint32_t*)&b[i]; if (i + 8 > b.size() || w[1] < 8 || i + w[1] > b.size()) break; say(nullptr, "  %s %d: %lx %s %s\n", i + w[1] <= (size_t)n ? "" : "lost", w[0], w[1] > 8 ? *(long*)&b[i + 8] : 0, w[0] == logcmd_epoch ? "epoch" : w[0] == logcmd_wake ? "wake" : w[0] == logcmd_quiesce ? "quiesce" : w[0] == logcmd_modify ? "modify" : "", ""); i += w[1]; }
    }
  }
}
static std::string path_of(int fd) { char b[300]; std::string l = "/proc/self/fd/" + std::to_string(fd); ssize_t n = readlink(l.c_str(), b, sizeof b); return n > 0 ? std::string(b, n) : ""; }
static void maybe_snap() {
  vs::NoSwitch ns; if (g_snapat > 0 && recovering && --g_snapat == 0) { crash_copy(g_root + "/s" + std::to_string(g_gen), (int)g_rng->below(3)); g_snapped = true; }
}
extern "C" int fsync(int fd) {
  if (!g_track) return 0;
  maybe_snap();
  { int w; { vs::NoSwitch ns; w = g_live && !g_crashed && g_rng->chance(g_slow) ? (int)g_rng->below(40) : 0; } while (w--) vs::yield(); }   // a slow disk
  { vs::NoSwitch ns; std::string p = path_of(fd); struct stat sb; if (p.compare(0, g_dir.size() + 1, g_dir + "/") == 0 && fstat(fd, &sb) == 0) g_durable[p.substr(g_dir.size() + 1)] = sb.st_size; }
  maybe_snap();
  return 0;
}
extern "C" int rename(const char* a, const char* b) noexcept {
  if (g_track) {
    maybe_snap();
    { vs::NoSwitch ns; std::string x = a, y = b; if (x.compare(0, g_dir.size() + 1, g_dir + "/") == 0) { x = x.substr(g_dir.size() + 1); y = y.substr(g_dir.size() + 1); g_durable[y] = g_durable.count(x) ? g_durable[x] : 0; g_durable.erase(x); } }
  }
  int r = (int)syscall(SYS_rename, a, b);
  if (g_track) maybe_snap();
  return r;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { tv->tv_sec = 1000 + g_us / 1000000; tv->tv_usec = g_us % 1000000; return 0; }
// native copy of DurTrace's Since and Recovered (ranking only)
static std::vector<long> n_init; static std::vector<vd::PEv> n_ev; static std::vector<size_t> n_R; static std::vector<int> n_n;
static void n_reset(const std::vector<long>& m) { n_init = m; n_ev.clear(); n_R.assign(1, 0); n_n.assign(nlogger, -1); }
static void n_it(int x) {
  if (n_n[x] >= 0) n_n[x]++;
  if (*std::min_element(n_n.begin(), n_n.end()) >= 2) { n_n.assign(nlogger, -1); n_R.push_back(n_ev.size()); }
}
static bool n_rec(const std::vector<long>& m) {
  size_t since = n_R.size() > 2 ? n_R[n_R.size() - 3] : 0;
  for (size_t i = n_ev.size() + 1; i-- > since;) { std::vector<vd::PEv> e(n_ev.begin(), n_ev.begin() + i); e.push_back(vd::PEv{'f', 0, "", 0, 0, 0, 0, {}, m}); if (vd::explain(n_init, e)) return true; }
  return false;
}
static void nap(long ms) {
  if (!g_track) { vs::yield(); return; }
  if (ms == 200) {
    vs::NoSwitch ns; g_ticks++; g_us += 200000 / nlogger;
    if (!g_crashed && g_live) {
      if (global_log_epoch != g_lastep) { g_lastep = global_log_epoch; for (auto& x : n_n) if (x < 0) x = 0; vs::ev("{\"e\":\"ep\"}"); }
      for (int i = 0; i < nlogger; i++) if (logs->log(i).ti_ && pthread_equal(logs->log(i).ti_->pthread(), pthread_self())) { vs::ev("{\"e\":\"it\",\"l\":%d}", i); if (vd::g_verbose) { loginfo& L = logs->log(i); say(nullptr, "it %d ge %d we %d q %d le %d wk %d pos %d wait %d fl %d\n", i, (int)global_log_epoch.value(), (int)global_wake_epoch.value(), (int)L.quiescent_epoch_.value(), (int)L.log_epoch_.value(), (int)L.wake_epoch_.value(), (int)L.pos_, L.f_.waiting_ != 0, (int)L.flushed_epoch_.value()); } n_it(i); }
    }
  }
  vs::yield();
  if (!g_crashed) return;
  if (ms == 200) throw vs::ThreadExit();
  for (int i = 0; i < nlogger; i++) { loginfo& L = logs->log(i); L.acquire(); { vs::NoSwitch ns; L.pos_ = 0; } L.release(); }   // nobody will flush any more
}
struct Ad {
  query<row_type>* q[9]; threadinfo* ti[9];
  std::vector<std::vector<long>> snapm;
  void gen(Rng& r, Scn& s, const std::string& kind) {
    int n = r.chance(60) ? r.range(1, 3) : r.range(3, 10); g_keys.clear();
    if (r.chance(50)) for (auto x : vk::ints(r, n)) g_keys.push_back(vk::be64(x)); else g_keys = vk::strs(r, n, 3 + r.below(20), r.chance(30), false);
    g_keys.erase(std::remove(g_keys.begin(), g_keys.end(), std::string()), g_keys.end()); if (g_keys.empty()) g_keys.push_back("k");
    n = g_keys.size();
    GenCfg c; c.init_op = "cput"; c.ops = {{"cput", 50}, {"crep", 15}, {"rem", 20}, {"cget", 15}}; c.minops = 2; c.maxops = 8;
    gen_map(r, s, n, c); s.init.clear();
    for (auto& v : s.thr) for (auto& o : v) {
      if (o.o == "cput") { long x = 0; for (int i = 0; i < NC; i++) if (r.chance(45)) x |= (long)(1 + r.below(7)) << (3 * i); if (!x) x = (1 + r.below(7)) << (3 * r.below(NC)); o.v = x; o.lim = r.below(2); }
      else if (o.o == "crep") o.v = 1 + r.below(7);
      else if (o.o == "cget") o.v = r.chance(50) ? 0 : r.below(16);
    }
    s.par["nlog"] = 1 + r.below(3); s.par["len"] = r.chance(20) ? 400 + r.below(400) : 1 << 16; s.par["epus"] = (long)r.below(4) * 150000; s.par["seed"] = r.next() >> 2; s.par["slow"] = r.chance(50) ? 0 : 10 + r.below(50);
    // the crashes: v = ticks until then (-v: ticks after the last operation), k = what of the unsynced part survives, lim = crash in recovery
    std::vector<Op> g; int ng = 1 + r.below(3);
    for (int i = 0; i < ng; i++) { Op o; o.o = "gen"; o.v = r.chance(60) ? r.below(r.chance(50) ? 12 : 50) : -(long)(1 + r.below(30)); o.k = r.below(3); o.lim = r.chance(35) ? 1 + r.below(8) : 0; g.push_back(o); }
    s.thr.insert(s.thr.begin(), g); if (s.thr.size() > 8) s.thr.resize(8);
  }
  std::string header(const Scn& s) {
    std::string h = ",\"nlog\":" + std::to_string(s.par.at("nlog")) + ",\"init\":["; int n = s.par.at("n"); for (int i = 0; i < n; i++) h += i ? ",0" : "0";
    vd::pf.on = true; vd::pf.ext = true; return h + "]";
  }
  void setup(const Scn& s) {
    threadinfo::no_pool_value = 1; nlogger = s.par.at("nlog"); nckthreads = 0; tcpthreads = 8;
    { const char* d = getenv("VS_SCRATCH"); g_root = std::string(d ? d : "/dev/shm") + "/vlog." + std::to_string(100000000 + getpid()); } teardown(s); mkdir(g_root.c_str(), 0777);
    g_rng = new Rng(s.par.at("seed")); g_slow = s.par.at("slow"); g_gen = g_ready = 0; g_over = g_crashed = false; g_us = 0; g_track = true; log_epoch_interval.tv_sec = 0; log_epoch_interval.tv_usec = s.par.at("epus");
    g_dir = g_root + "/d0"; g_durable.clear(); mkdir(g_dir.c_str(), 0777); g_working = (int)s.thr.size() - 1; g_finished = 0;
    for (auto& x : q) x = new query<row_type>;
    n_reset(std::vector<long>(s.par.at("n"), 0));
    vs::on_nap = nap;
  }
  std::vector<long> contents(threadinfo* t) {
    std::vector<long> m; query<row_type> qq; for (int k = 0; k < (int)g_keys.size(); k++) m.push_back(get(qq, *t, k, 0)); return m;
  }
  static long get(query<row_type>& qq, threadinfo& t, int k, int mask) {
    lcdf::Json req = lcdf::Json::array(0, Cmd_Get, mks(g_keys[k])); std::vector<int> cs;
    for (int c = 0; c < NC; c++) if (mask == 0 || mask >> c & 1) { cs.push_back(c); if (mask) req.push_back(lcdf::Json(c)); }
    int sz = req.size();
    t.rcu_start(); onego(qq, req, lcdf::Str(), t); t.rcu_stop();
    if (req.size() == sz && req[2].is_s() && req[2].as_s() == mks(g_keys[k])) return 0;     // unanswered
    int n = req.size() - 2; if (mask == 0) { if (n > NC) return -7; cs.resize(n); } else if (n != (int)cs.size()) return -7;
    long x = P; for (int i = 0; i < n; i++) { lcdf::String s = req[2 + i].as_s(); int d = uncell(k, cs[i], s.data(), s.length()); if (d < 0) return -7; x += (long)d << (3 * cs[i]); }
    return x;
  }
  void boot(long len) {
    { vs::NoSwitch ns; threadinfo::allthreads = nullptr; globalepoch = active_epoch = 1; global_log_epoch = 0; global_wake_epoch = 0; g_lastep = 0; log_epoch_time.tv_sec = log_epoch_time.tv_usec = 0;
      rec_state = REC_NONE; rec_nactive = 0; recovering = true; rec_log_infos = nullptr; logdirs.assign(1, g_dir.c_str()); ckpdirs.assign(1, g_dir.c_str()); g_crashed = false; g_snapped = false;
      pthread_mutex_init(&rec_mu, nullptr); pthread_cond_init(&rec_cond, nullptr); }
    threadinfo* main_ti = threadinfo::make(threadinfo::TI_MAIN, -1); main_ti->pthread() = pthread_self();
    tree = new Masstree::default_table; tree->initialize(*main_ti);
    logs = logset::make(nlogger);
    { vs::NoSwitch ns; for (int i = 0; i < nlogger; i++) { loginfo& li = logs->log(i); free(li.buf_); li.len_ = (uint32_t)len; li.buf_ = (char*)malloc(len); } }   // smaller buffers
    for (int i = 0; i < nlogger; i++) logs->log(i).initialize(log_filename(logdirs[i % logdirs.size()], i));
    recover(main_ti); ti[0] = main_ti;
  }
  // the process is gone: its threads do nothing any more
  void shut() {
    { vs::NoSwitch ns; g_crashed = true; }
    while (true) { { vs::NoSwitch ns; if (g_finished >= g_working) break; } vs::yield(); }
    for (int i = 0; i < nlogger; i++) pthread_join(logs->log(i).ti_->pthread(), nullptr);
    logset::free(logs);
    vs::NoSwitch ns; for (auto& f : files("/proc/self/fd")) { int fd = atoi(f.first.c_str()); if (path_of(fd).compare(0, g_root.size() + 1, g_root + "/") == 0) close(fd); }
  }
  void control(const Scn& s) {
    std::vector<Op> g = s.thr[0]; long len = s.par.at("len");
    { vs::NoSwitch ns; g_finished = g_working; } g_snapat = 0; boot(len);
    { vs::NoSwitch ns; note(contents(ti[0]), "rec"); }
    for (auto& o : g) {
      { vs::NoSwitch ns; g_finished = 0; g_ticks = 0; g_ready = ++g_gen; g_live = true; g_lastep = global_log_epoch; }
      long after = -1;
      while (true) { bool go; { vs::NoSwitch ns; bool done = g_finished >= g_working; if (done && after < 0) after = g_ticks; go = o.v >= 0 ? g_ticks >= o.v || (done && g_ticks >= after + 6) : done && g_ticks >= after - o.v; } if (go) break; vs::yield(); }
      std::string d = g_root + "/d" + std::to_string(g_gen);
      { vs::NoSwitch ns; vs::ev("{\"e\":\"cut\"}"); g_crashed = true; g_live = false; crash_copy(d, o.k); g_durable.clear(); }
      shut();
      { vs::NoSwitch ns; g_dir = d; for (auto& f : files(d)) g_durable[f.first] = f.second; g_finished = g_working; g_snapat = o.lim; }
      boot(len); g_snapat = 0;
      if (g_snapped) {
        note(contents(ti[0]), "pre"); shut();
        { vs::NoSwitch ns; g_dir = g_root + "/s" + std::to_string(g_gen); g_durable.clear(); for (auto& f : files(g_dir)) g_durable[f.first] = f.second; }
        boot(len);
      }
      note(contents(ti[0]), "rec");
    }
    { vs::NoSwitch ns; g_over = true; }
    shut();
  }
  void note(const std::vector<long>& m, const char* e) { vs::NoSwitch ns; if (!n_rec(m)) vd::pf.ext_ok = false; if (*e == 'r') n_reset(m); std::string b; for (auto v : m) { if (!b.empty()) b += ","; b += std::to_string(v); } vs::ev("{\"e\":\"%s\",\"m\":[%s]}", e, b.c_str()); }
  long doop(int t, const Op& o) {
    query<row_type>& qq = *q[t]; threadinfo& x = *ti[t]; lcdf::Json req; lcdf::StringAccum sa; lcdf::Str rs;
    if (o.o == "cget") return get(qq, x, o.k, o.v);
    { vs::NoSwitch ns; if (o.o == "cput") { req = lcdf::Json::array(1, Cmd_Put, mks(g_keys[o.k])); for (int c = 0; c < NC; c++) if (dig(o.v, c)) { req.push_back(lcdf::Json(c)); req.push_back(lcdf::Json(mks(cell(o.k, c, dig(o.v, c))))); } }
      else if (o.o == "crep") req = lcdf::Json::array(1, Cmd_Replace, mks(g_keys[o.k]), mks(cell(o.k, 0, o.v)));
      else req = lcdf::Json::array(1, Cmd_Remove, mks(g_keys[o.k]));
      if (o.lim) { msgpack::unparser<lcdf::StringAccum> cu(sa); cu << req; rs = lcdf::Str(sa.data(), sa.length()); } }
    x.rcu_start(); onego(qq, req, rs, x); x.rcu_stop();
    if (o.o == "rem") return req[2].as_b();
    return req[2].as_i() == Inserted;
  }
  void worker(int t, const Scn& s) {
    size_t i = 0; const auto& ops = s.thr[t - 1]; int seen = 0;
    while (true) {
      while (true) { bool go; { vs::NoSwitch ns; if (g_over) return; go = g_ready > seen; } if (go) break; vs::yield(); }
      { vs::NoSwitch ns; seen = g_ready; ti[t] = threadinfo::make(threadinfo::TI_PROCESS, t); delete q[t]; q[t] = new query<row_type>; prepare_thread(ti[t]); }
        while (i < ops.size()) {
          { vs::NoSwitch ns; if (g_crashed) break; n_ev.push_back(vd::PEv{'c', t, ops[i].o, ops[i].k, 0, ops[i].v, 0, {}, {}}); call(t, ops[i].o.c_str(), ops[i].k, ops[i].v); }
          long r = doop(t, ops[i++]);
          { vs::NoSwitch ns; if (g_crashed) break; n_ev.push_back(vd::PEv{'r', t, "", 0, 0, 0, r, {}, {}}); ret(t, r); g_ticks++; }
        }
        { vs::NoSwitch ns; g_finished++; }
    }
  }
  void thread(int tid, const Scn& s) { if (tid == 1) control(s); else worker(tid, s); }
  void finish(const Scn&) {}
  void teardown(const Scn&) { g_track = false; for (int i = 0; i < 10; i++) { clean(g_root + "/d" + std::to_string(i)); clean(g_root + "/s" + std::to_string(i)); } rmdir(g_root.c_str()); }
};
int main(int c, char** v) { return vd::conc_main<Ad>(c, v); }
