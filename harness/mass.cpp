// Masstree: the wrapper (upserts, searches; plain and pointer values) and the table underneath (inserts, removes, scans)
#include <tbb/enumerable_thread_specific.h>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <algorithm>
#include <cassert>
#include "rt/mapgen.h"
#define private public
#include "kvthread.hh"
#undef private
#include "MassTreeWrapper.h"
#include "masstree_scan.hh"
#include "masstree_split.hh"
using namespace vd;
volatile uint64_t globalepoch = 1, active_epoch = 1;
static std::vector<std::string> g_keys;
static long enc(int k, long v) { return ((long)(k + 1) << 20) | v; }
static long dec(int k, long x) { return (x >> 20) - 1 == k ? x & 0xfffff : -7; }
struct Guard { bool on; Guard(bool on = true) : on(on) { if (on) mass_thd_info->rcu_start(); } ~Guard() { if (on) mass_thd_info->rcu_stop(); } };
struct Box { long a, b; };
struct MapIf {
  virtual ~MapIf() {}
  virtual long ups(int k, long v) = 0; virtual long get(int k) = 0;
  virtual long ins(int k, long v) { return -9; } virtual long upso(int k, long v) { return -9; } virtual long remo(int k) { return -9; }
  virtual bool full() { return false; }
  virtual void scan(int k, bool incl, bool rev, int lo, int hi, int lim, std::vector<std::pair<int, long>>& out) {}
};
struct WrapL : MapIf {
  MassTreeWrapper<long> t;
  long ups(int k, long v) override { std::string s = g_keys[k]; return t.upsert(s, enc(k, v)); }
  long get(int k) override { std::string s = g_keys[k]; long x = 0; Guard g; return t.search(s, x) ? dec(k, x) : 0; }
};
struct WrapP : MapIf {
  MassTreeWrapper<Box*> t;
  long ups(int k, long v) override { Box* b = (Box*)malloc(sizeof(Box)); b->a = enc(k, v); b->b = ~b->a; std::string s = g_keys[k]; return t.upsert(s, b); }
  long get(int k) override { std::string s = g_keys[k]; Box* x = nullptr; Guard g; if (!t.search(s, x)) return 0; long a = x->a, b = x->b; return a == ~b ? dec(k, a) : -7; }
};
template <int LW, int IW> struct Tab : MapIf {
  struct NP : Masstree::nodeparams<LW, IW> { typedef long value_type; typedef threadinfo threadinfo_type; };
  typedef Masstree::basic_table<NP> Tr; typedef typename Tr::cursor_type C; typedef typename Tr::unlocked_cursor_type U;
  Tr t;
  Tab() { t.initialize(*mass_thd_info); }
  bool full() override { return true; }
  long ups(int k, long v) override { Guard g; C lp(t, g_keys[k].data(), (int)g_keys[k].size()); bool f = lp.find_insert(*mass_thd_info); lp.value() = enc(k, v); lp.finish(1, *mass_thd_info); return !f; }
  long upso(int k, long v) override { Guard g; C lp(t, g_keys[k].data(), (int)g_keys[k].size()); bool f = lp.find_insert(*mass_thd_info); long o = f ? dec(k, lp.value()) : 0; lp.value() = enc(k, v); lp.finish(1, *mass_thd_info); return o; }
  long ins(int k, long v) override { Guard g; C lp(t, g_keys[k].data(), (int)g_keys[k].size()); bool f = lp.find_insert(*mass_thd_info); if (!f) lp.value() = enc(k, v); lp.finish(f ? 0 : 1, *mass_thd_info); return !f; }
  long remo(int k) override { Guard g; C lp(t, g_keys[k].data(), (int)g_keys[k].size()); bool f = lp.find_locked(*mass_thd_info); long o = f ? dec(k, lp.value()) : 0; lp.finish(f ? -1 : 0, *mass_thd_info); return o; }
  long get(int k) override { Guard g; U lp(t, g_keys[k].data(), (int)g_keys[k].size()); bool f = lp.find_unlocked(*mass_thd_info); return f ? dec(k, lp.value()) : 0; }
  struct Vis {
    bool rev; int lo, hi, lim; std::vector<std::pair<int, long>>* out;
    template <typename SS, typename K> void visit_leaf(const SS&, const K&, threadinfo&) {}
    bool visit_value(Masstree::Str key, long v, threadinfo&) {
      if (out->size() > 400) return false;
      std::string s(key.s, key.len);
      if (rev ? s < g_keys[lo] : hi < (int)g_keys.size() && s >= g_keys[hi]) return false;
      int k = std::lower_bound(g_keys.begin(), g_keys.end(), s) - g_keys.begin();
      if (k == (int)g_keys.size() || g_keys[k] != s) k = -1;
      out->push_back({k, k < 0 ? -7 : dec(k, v)});
      return (int)out->size() < lim;
    }
  };
  void scan(int k, bool incl, bool rev, int lo, int hi, int lim, std::vector<std::pair<int, long>>& out) override {
    Vis v{rev, lo, hi, lim, &out}; Guard g;
    if (rev) t.rscan(Masstree::Str(g_keys[k]), incl, v, *mass_thd_info); else t.scan(Masstree::Str(g_keys[k]), incl, v, *mass_thd_info);
  }
};
static MapIf* mk(int ty) { switch (ty) { case 0: return new WrapL; case 1: return new WrapP; case 2: return new Tab<3, 3>; case 3: return new Tab<4, 5>; default: return new Tab<15, 15>; } }
struct Ad {
  MapIf* t = nullptr; bool advancing = false;
  void gen(Rng& r, Scn& s, const std::string& kind) {
    static const int tys[] = {2, 2, 2, 3, 3, 4, 0, 1};
    int ty = tys[r.below(kind == "point" ? 8 : 6)]; if (kind == "reclaim" && r.chance(15)) ty = 1;
    s.par["ty"] = ty;
    int n = ty == 2 || ty == 3 ? pick_n(r, {{3, 6}, {5, 14}, {10, 30}}) : pick_n(r, {{3, 8}, {14, 20}, {20, 50}});
    int style = r.below(4);
    g_keys.clear();
    if (style == 0) for (auto x : vk::ints(r, n)) g_keys.push_back(vk::be64(x));
    else if (style == 1) g_keys = vk::strs(r, n, 3 + r.below(40), r.chance(30), false);
    else {
      // layers: a shared prefix of whole slices, below it short distinguishing slices
      std::set<std::string> ks; std::vector<std::string> pre = {"", std::string(8 * (1 + r.below(3)), (char)('a' + r.below(3))) };
      pre.push_back(pre[1] + std::string(8, 'b')); pre.push_back(std::string(8, 'q'));
      int g = 0; while ((int)ks.size() < n && g++ < 10000) { std::string x = pre[r.below(4)]; int l = r.below(12); for (int i = 0; i < l; i++) x.push_back((char)(r.chance(60) ? r.below(3) : 'a' + r.below(3))); if (!x.empty()) ks.insert(x); }
      g_keys.assign(ks.begin(), ks.end());
    }
    // at most two keys may share a slice when leaves are narrow: no slice padded with zeros equals a shorter one
    if (ty == 2 || ty == 3) { std::set<std::string> ks; for (auto x : g_keys) { if (style) for (auto& c : x) if (!c) c = 1; ks.insert(x); } g_keys.assign(ks.begin(), ks.end()); }
    n = g_keys.size();
    GenCfg c; c.init_op = "ups";
    if (ty < 2) c.ops = {{"ups", 60}, {"get", 40}};
    else c.ops = {{"ups", 15}, {"upso", 10}, {"ins", 25}, {"remo", 35}, {"get", 20}};
    if (kind == "scan") { c.scans = {{"scan", 60}, {"rscan", 40}}; c.scanpct = 75; }
    if (kind == "reclaim") { c.ops = ty < 2 ? std::vector<std::pair<const char*, int>>{{"ups", 60}, {"get", 40}} : std::vector<std::pair<const char*, int>>{{"ins", 25}, {"remo", 45}, {"get", 20}, {"scan", 8}}; c.minops = 2; c.maxops = 6; }
    gen_map(r, s, n, c);
    if (kind == "reclaim") for (auto& v : s.thr) for (auto& o : v) if (o.o == "scan") { o.hi = n; o.lim = n + 1; o.v = 0; }
    // removing whole neighbourhoods empties leaves, inner nodes and layers
    if (ty >= 2 && r.chance(45)) {
      int T = s.thr.size(), b = r.below(n), m = 2 + r.below(6), d = r.chance(50) ? 1 : -1, t = kind == "scan" ? 1 : r.below(T); if (t >= T) t = 0;
      std::vector<Op> v; for (int i = 0; i < m; i++) { Op o; o.o = r.chance(85) ? "remo" : "ins"; o.k = ((b + d * i) % n + n) % n; o.v = 1 + r.below(3); v.push_back(o); }
      auto& x = s.thr[t]; if (r.chance(50)) x = v; else x.insert(x.begin() + r.below(x.size() + 1), v.begin(), v.end());
    }
    // inserts of whole neighbourhoods: splits at every level
    else if (r.chance(30)) {
      s.init.resize(r.below(s.init.size() + 1));
      for (size_t t = kind == "scan" ? 1 : 0; t < s.thr.size(); t++) { int m = 2 + r.below(4); int b = r.below(n), d = r.chance(50) ? 1 : -1; for (int i = 0; i < m; i++) { Op o; o.o = "ups"; o.k = ((b + d * i) % n + n) % n; o.v = 1 + r.below(3); s.thr[t].push_back(o); } }
    }
    // one more thread plays the maintenance task that moves the global epoch on
    if (kind == "reclaim") for (auto& v : s.thr) for (size_t i = 0; i <= v.size(); i++) if (r.chance(30)) { Op a; a.o = "adv"; v.insert(v.begin() + i, a); i++; }
    if (r.chance(kind == "reclaim" ? 40 : 15)) { std::vector<Op> v; int m = 2 + r.below(8); for (int i = 0; i < m; i++) { Op a; a.o = "adv"; v.push_back(a); } s.thr.push_back(v); }
  }
  // nodes whose grace period has ended lie in per-thread pools: hand them to the allocator, which watches accesses
  void drain(threadinfo* ti) { vs::NoSwitch ns; for (auto& p : ti->pool_) while (p) { void* x = p; p = *(void**)x; free(x); } }
  void doop(int tid, const Op& o) {
    if (o.o == "ups") { call(tid, "ups", o.k, o.v); ret(tid, t->ups(o.k, o.v)); }
    else if (o.o == "upso") { call(tid, "upso", o.k, o.v); ret(tid, t->upso(o.k, o.v)); }
    else if (o.o == "ins") { call(tid, "ins", o.k, o.v); ret(tid, t->ins(o.k, o.v)); }
    else if (o.o == "remo") { call(tid, "remo", o.k); ret(tid, t->remo(o.k)); }
    else if (o.o == "get") { call(tid, "get", o.k); ret(tid, t->get(o.k)); }
    else if (o.o == "adv") {     // one at a time: there is only one maintenance task
      bool go; { vs::NoSwitch ns; go = !advancing; if (go) advancing = true; }
      if (go) { globalepoch += 2; active_epoch = threadinfo::min_active_epoch(); vs::NoSwitch ns; advancing = false; }
    }
    else {
      bool rev = o.o == "rscan"; int lo = o.k, hi = std::max(o.hi, lo + 1); bool incl = true; int from = rev ? hi - 1 : lo;
      if (o.v == 1) { if (rev && hi < (int)g_keys.size()) { from = hi; incl = false; } else if (!rev && lo > 0) { from = lo - 1; incl = false; } }
      std::vector<std::pair<int, long>> out;
      call_scan(tid, o.o.c_str(), lo, hi, o.lim); t->scan(from, incl, rev, lo, hi, o.lim, out); ret_scan(tid, out);
    }
    drain(mass_thd_info);
  }
  std::string header(const Scn& s) { return map_header(s); }
  void setup(const Scn& s) {
    threadinfo::allthreads = nullptr; globalepoch = active_epoch = 1; advancing = false;
    mass_thd_info = threadinfo::make(threadinfo::TI_MAIN, -1); threadinfo::no_pool_value = 1;
    t = mk(s.par.at("ty"));
    for (auto& o : s.init) t->ups(o.k, o.v);
  }
  void thread(int tid, const Scn& s) {
    { vs::NoSwitch ns; mass_thd_info = threadinfo::make(threadinfo::TI_PROCESS, tid); }
    for (auto& o : s.thr[tid - 1]) doop(tid, o);
  }
  void finish(const Scn& s) {
    std::vector<long> m; int n = s.par.at("n"); for (int k = 0; k < n; k++) m.push_back(t->get(k));
    fin(m);
    if (t->full()) { Op o; o.k = 0; o.hi = n; o.lim = 400; o.o = "scan"; doop(4, o); o.o = "rscan"; doop(4, o); }
    // afterwards everything can be removed again and the rest stays intact
    if (t->full() && (s.thr.size() & 1)) { for (int k = 0; k < n; k += 2) { Op o; o.o = "remo"; o.k = k; doop(4, o); } Op o; o.k = 0; o.hi = n; o.lim = 400; o.o = "scan"; doop(4, o); }
  }
  void teardown(const Scn&) { t = nullptr; }
};
int main(int c, char** v) { return conc_main<Ad>(c, v); }
