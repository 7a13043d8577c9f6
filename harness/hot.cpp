// Height optimised trie (ROWEX): the HotTree wrapper and the underlying index with integer and C-string keys:
// insert, upsert, lookup, find, iteration from begin / lower_bound / upper_bound, n-th entry, reclamation
#include <cassert>
#include <new>
#include <atomic>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <algorithm>
#include <tbb/enumerable_thread_specific.h>
#include <immintrin.h>
#define private public
#include <hot/rowex/EpochBasedMemoryReclamationStrategy.hpp>
#undef private
#include "hot.h"
#include "rt/mapgen.h"
using namespace vd;
typedef hot::rowex::EpochBasedMemoryReclamationStrategy Epo;
struct KI { uint64_t key; uint64_t v; };
struct KS { uint64_t v; const char* key; };
template <class KV> struct ExI { typedef uint64_t KeyType; uint64_t operator()(const KI* kv) const { return kv->key; } };
template <class KV> struct ExS { typedef const char* KeyType; const char* operator()(const KS* kv) const { return kv->key; } };
static std::vector<uint64_t> g_ints; static std::vector<std::string> g_strs;
static uint64_t mk(int k, long v) { return ((uint64_t)(k + 1) << 20) | (uint64_t)v; }
static int kid(uint64_t x) { return (int)(x >> 20) - 1; }
static long val(uint64_t x) { return (long)(x & 0xfffff); }
typedef std::vector<std::pair<int, long>> Res;
struct Idx {
  virtual ~Idx() {}
  virtual bool ins(int k, long v) { return false; }
  virtual uint64_t upso(int k, long v) { return 0; }
  virtual bool ups(int k, long v) { return false; }
  virtual uint64_t get(int k) = 0;
  virtual uint64_t find(int k) { return get(k); }
  virtual void walk(int how, int lo, int hi, int lim, Res& out) {}
  virtual void nth(int lo, Res& out) {}
};
struct WI : Idx {
  HotTree<uint64_t, uint64_t> t;
  bool ups(int k, long v) override { return t.upsert(g_ints[k], mk(k, v)); }
  uint64_t get(int k) override { uint64_t v = mk(900, 7); return t.search(g_ints[k], v) ? v : 0; }
};
struct WS : Idx {
  HotTree<std::string, uint64_t> t;
  bool ups(int k, long v) override { return t.upsert((char*)g_strs[k].data(), (int)g_strs[k].size(), mk(k, v)); }
  uint64_t get(int k) override { uint64_t v = mk(900, 7); return t.search((char*)g_strs[k].c_str(), v) ? v : 0; }
};
template <class Tree, class KV> struct D : Idx {
  Tree t;
  static uint64_t key(int k, uint64_t*) { return g_ints[k]; }
  static const char* key(int k, const char**) { return g_strs[k].c_str(); }
  typedef typename std::remove_cv<typename std::remove_reference<decltype(KV().key)>::type>::type K;
  static K key(int k) { return key(k, (K*)nullptr); }
  static KV* mkv(int k, long v) { vs::NoSwitch ns; KV* x = (KV*)aligned_alloc(16, 32); x->key = key(k); x->v = mk(k, v); return x; }
  bool ins(int k, long v) override { return t.insert(mkv(k, v)); }
  uint64_t upso(int k, long v) override { auto r = t.upsert(mkv(k, v)); return r.mIsValid ? r.mValue->v : 0; }
  uint64_t get(int k) override { auto r = t.lookup(key(k)); return r.mIsValid ? r.mValue->v : 0; }
  uint64_t find(int k) override { auto it = t.find(key(k)); return it == t.end() ? 0 : (*it)->v; }
  void walk(int how, int lo, int hi, int lim, Res& out) override {
    auto it = how == 0 ? t.begin() : how == 1 ? t.lower_bound(key(lo)) : t.upper_bound(key(lo));
    for (; it != t.end() && (int)out.size() < lim; ++it) {
      uint64_t x = (*it)->v; int k = kid(x);
      if (k >= hi) { if (k >= (int)std::max(g_ints.size(), g_strs.size())) out.push_back({-1, 0}); break; }
      out.push_back({k, val(x)});
    }
  }
  void nth(int lo, Res& out) override { for (int i = 0; i < 400; i++) { auto r = t.scan(key(lo), i); if (!r.mIsValid) break; out.push_back({kid(r.mValue->v), val(r.mValue->v)}); } }
};
typedef D<hot::rowex::HOTRowex<KI*, ExI>, KI> DI;
typedef D<hot::rowex::HOTRowex<KS*, ExS>, KS> DS;
// retires about 64 nodes per call on an index of its own, so that the calling thread asks for a new epoch
static void burst(int n) {
  vs::NoSwitch ns;
  auto* t = new hot::rowex::HOTRowex<KI*, ExI>;
  static std::vector<KI*> pool; while ((int)pool.size() <= n) { KI* x = (KI*)aligned_alloc(16, 32); x->key = pool.size() + 1; x->v = 0; pool.push_back(x); }
  for (int i = 0; i <= n; i++) t->insert(pool[i]);
  delete t;
}
struct Ad {
  Idx* t = nullptr; int kind = 0;
  void gen(Rng& r, Scn& s, const std::string& knd) {
    int ty = knd == "point" ? r.below(4) : 2 + (r.chance(35) ? 1 : 0);
    int n = knd == "scan" && r.chance(12) ? r.range(128, 200) : pick_n(r, {{1, 3}, {3, 8}, {8, 20}, {28, 40}, {40, 90}});
    if (knd == "reclaim") n = pick_n(r, {{3, 8}, {8, 20}, {28, 36}});
    if (ty & 1) { g_strs = vk::strs(r, n, r.chance(80) ? 4 + r.below(30) : 200 + r.below(53), true, r.chance(50)); n = g_strs.size(); g_ints.clear(); }
    else { g_ints = vk::ints(r, n); g_strs.clear(); }
    GenCfg c; c.init_op = ty < 2 ? "ups" : "upso";
    if (ty < 2) c.ops = {{"ups", 60}, {"get", 40}}; else c.ops = {{"ins", 35}, {"upso", 30}, {"get", 25}, {"find", 10}};
    if (knd == "scan") c.scans = {{"scanl", 40}, {"scanu", 30}, {"scanb", 30}};
    if (knd == "reclaim") { c.scans = {{"scanl", 50}, {"scanb", 50}}; c.scanpct = 25; c.maxops = 4; }
    bool grow = knd != "reclaim" && r.chance(knd == "point" ? 35 : 8);
    if (grow) {             // large content, so that full nodes below full nodes split while other threads insert next to them
      n = r.range(70, r.chance(85) ? 400 : 620);
      if (ty & 1) { g_strs = vk::strs(r, n, 4 + r.below(30), true, r.chance(50)); n = g_strs.size(); } else g_ints = vk::ints(r, n);
    }
    gen_map(r, s, n, c);
    if (grow) {
      int st = r.chance(50) ? 2 : r.below(4), fr = r.range(n / 2, n - 1), dens = r.range(50, 85); s.init.clear(); std::vector<int> in;
      for (int k = 0; k < n; k++) { bool x = st == 0 ? k < fr : st == 1 ? (k & 1) : st == 2 ? r.chance(dens) : (k < fr || k > fr + 24); if (x) in.push_back(k); }
      if (r.chance(50)) for (size_t i = in.size(); i > 1; i--) std::swap(in[i - 1], in[r.below(i)]); else if (r.chance(30)) std::reverse(in.begin(), in.end());
      for (int k : in) { Op o; o.o = c.init_op; o.k = k; o.v = 1 + r.below(2); s.init.push_back(o); }
      std::set<int> have(in.begin(), in.end()); std::vector<int> out; for (int k = 0; k < n; k++) if (!have.count(k)) out.push_back(k);
      int base = out.empty() ? 0 : st == 1 || st == 2 ? (int)r.below(out.size()) : 0, T = s.thr.size(), span = 1 + r.below(st == 1 || st == 2 ? 40 : 24);
      for (auto& v : s.thr) {
        size_t keep = r.below(3); if (v.size() > keep) v.resize(keep);
        int m = 2 + r.below(6); for (int i = 0; i < m && !out.empty(); i++) { Op o; o.o = ty < 2 ? "ups" : r.chance(70) ? "ins" : "upso"; o.k = out[(base + r.below(span)) % out.size()]; o.v = 1 + r.below(3); v.insert(v.begin() + r.below(v.size() + 1), o); }
      }
      (void)T;
    }
    else if (r.chance(35)) {      // several threads fill the same region: node growth, splits and pull-ups collide
      if (r.chance(70)) s.init.resize(r.below(s.init.size() + 1)); else if (r.chance(50)) s.init.resize(r.below(std::min<int>(3, s.init.size() + 1)));
      for (auto& v : s.thr) { int m = 1 + r.below(4); int b = r.below(n), d = r.chance(50) ? 1 : -1; for (int i = 0; i < m; i++) { Op o; o.o = ty < 2 ? "ups" : r.chance(60) ? "ins" : "upso"; o.k = ((b + d * i) % n + n) % n; o.v = 1 + r.below(3); v.push_back(o); } }
    }
    s.par["ty"] = ty;
    if (knd == "reclaim") {
      for (size_t t = 0; t < s.thr.size(); t++) {
        s.par["warm" + std::to_string(t)] = r.chance(60) ? 60 + r.below(5) : r.below(200);
        auto& v = s.thr[t]; if (t == 0 && r.chance(60)) continue;
        for (int i = 1 + r.below(4); i > 0; i--) { Op o; o.o = "burst"; o.v = 64 + r.below(3); v.insert(v.begin() + r.below(v.size() + 1), o); }
      }
    }
  }
  void doop(int tid, const Op& o) {
    int n = std::max(g_ints.size(), g_strs.size());
    auto rv = [&](uint64_t x, int k) -> long { return x == 0 ? 0 : kid(x) == k ? val(x) : -7; };
    if (o.o == "burst") burst(o.v);
    else if (o.o == "ups") { call(tid, "ups", o.k, o.v); ret(tid, t->ups(o.k, o.v)); }
    else if (o.o == "upso") { call(tid, "upso", o.k, o.v); ret(tid, rv(t->upso(o.k, o.v), o.k)); }
    else if (o.o == "ins") { call(tid, "ins", o.k, o.v); ret(tid, t->ins(o.k, o.v)); }
    else if (o.o == "get") { call(tid, "get", o.k); ret(tid, rv(t->get(o.k), o.k)); }
    else if (o.o == "find") { call(tid, "get", o.k); ret(tid, rv(t->find(o.k), o.k)); }
    else {
      int how = o.o == "scanb" ? 0 : o.o == "scanl" ? 1 : 2; int lo = how == 0 ? 0 : o.k, hi = o.hi, lim = std::min(o.lim, 300);
      if (how == 2 && o.k + 1 >= hi) how = 1;
      call_scan(tid, "scan", how == 2 ? lo + 1 : lo, hi, lim);
      Res out; t->walk(how, lo, hi, lim, out); ret_scan(tid, out);
    }
    (void)n;
  }
  std::string header(const Scn& s) { return map_header(s); }
  void setup(const Scn& s) {
    Epo* e = Epo::getInstance(); e->~Epo(); new (e) Epo();
    switch (s.par.at("ty")) { case 0: t = new WI; break; case 1: t = new WS; break; case 2: t = new DI; break; default: t = new DS; }
    for (auto& o : s.init) { if (s.par.at("ty") < 2) t->ups(o.k, o.v); else t->upso(o.k, o.v); }
  }
  void thread(int tid, const Scn& s) { if (s.par.count("warm0")) { vs::NoSwitch ns; burst(s.par.at("warm" + std::to_string(tid - 1))); } for (auto& o : s.thr[tid - 1]) doop(tid, o); }
  void finish(const Scn& s) {
    std::vector<long> m; int n = s.par.at("n"); bool any = false;
    for (int k = 0; k < n; k++) { uint64_t x = t->get(k); m.push_back(x == 0 ? 0 : kid(x) == k ? val(x) : -7); any = any || x; }
    fin(m);
    if (s.par.at("ty") >= 2) {
      auto sc = [&](int how, int lo, int slo) { if (slo >= n) return; call_scan(4, "scan", slo, n, 400); Res out; if (how < 3) t->walk(how, lo, n, 400, out); else t->nth(lo, out); ret_scan(4, out); };
      int k = hash(head) % n;
      sc(0, 0, 0); sc(1, k, k); sc(2, k, k + 1); if (n < 60) sc(3, k, k);
    }
  }
  void teardown(const Scn& s) { if (s.par.at("ty") >= 2) delete t; t = nullptr; }
};
int main(int c, char** v) { return conc_main<Ad>(c, v); }
