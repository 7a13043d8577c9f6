// BTreeOLC (either header): upserts, lookups, leaf-bounded scans.  Key and payload are large so that nodes hold few
// entries and a few dozen keys give a tree of three levels.
#include <utility>
#include <cstring>
#include HDR
#include "rt/mapgen.h"
using namespace vd;
struct BK {
  uint64_t v; char pad[KPAD];
  BK() {}
  BK(uint64_t x) : v(x) {}
  bool operator<(const BK& o) const { return v < o.v; }
  bool operator>(const BK& o) const { return v > o.v; }
  bool operator==(const BK& o) const { return v == o.v; }
};
struct BV {
  uint64_t a; char pad[VPAD]; uint64_t b;
  BV() {}
  BV(int k, long v) { a = ((uint64_t)(k + 1) << 20) | v; b = ~a; }
  bool good() const { return a == ~b; }
  int k() const { return (int)(a >> 20) - 1; }
  long v() const { return (long)(a & 0xfffff); }
};
static std::vector<uint64_t> g_keys;
struct Ad {
  btreeolc::BTree<BK, BV>* t = nullptr;
  void gen(Rng& r, Scn& s, const std::string& kind) {
    int n = pick_n(r, {{3, 8}, {8, 20}, {20, 45}});
    g_keys = vk::ints(r, n);
    GenCfg c; c.init_op = "upsv"; c.ops = {{"upsv", 50}, {"get", 50}};
    if (kind == "scan") c.scans = {{"part1", 100}};
    gen_map(r, s, n, c);
    // a tail of scenarios in which the tree starts small and every thread inserts many new keys (splits at every level)
    if (r.chance(35)) {
      s.init.resize(r.below(s.init.size() + 1));
      for (auto& v : s.thr) { int m = 2 + r.below(4); int b = r.below(n), d = r.chance(50) ? 1 : -1; for (int i = 0; i < m; i++) { Op o; o.o = "upsv"; o.k = ((b + d * i) % n + n) % n; o.v = 1 + r.below(3); v.push_back(o); } }
    }
  }
  void doop(int tid, const Op& o) {
    if (o.o == "upsv") { call(tid, "upsv", o.k, o.v); t->insert(BK(g_keys[o.k]), BV(o.k, o.v)); ret(tid, -2); }
    else if (o.o == "get") { call(tid, "get", o.k); BV v(o.k, 9); bool f = t->lookup(BK(g_keys[o.k]), v); ret(tid, !f ? 0 : v.good() && v.k() == o.k ? v.v() : -7); }
    else {
      static thread_local BV buf[300];
      int lim = std::min(o.lim, 300), n = g_keys.size();
      call_scan(tid, "part1", o.k, n, lim);
      uint64_t c = t->scan(BK(g_keys[o.k]), lim, buf);
      std::vector<std::pair<int, long>> out;
      for (uint64_t i = 0; i < c && i < 300; i++) out.push_back({buf[i].good() ? buf[i].k() : -1, buf[i].v()});
      ret_scan(tid, out);
    }
  }
  std::string header(const Scn& s) { return map_header(s); }
  void setup(const Scn& s) { t = new btreeolc::BTree<BK, BV>(); for (auto& o : s.init) t->insert(BK(g_keys[o.k]), BV(o.k, o.v)); }
  void thread(int tid, const Scn& s) { for (auto& o : s.thr[tid - 1]) doop(tid, o); }
  void finish(const Scn& s) {
    std::vector<long> m; int n = s.par.at("n");
    for (int k = 0; k < n; k++) { BV v(k, 9); bool f = t->lookup(BK(g_keys[k]), v); m.push_back(!f ? 0 : v.good() && v.k() == k ? v.v() : -7); }
    fin(m);
    bool scans = false; for (auto& o : s.thr[0]) scans = scans || o.o == "part1";
    if (scans) for (int k = 0; k < n; k += 3) { Op o; o.o = "part1"; o.k = k; o.lim = 300; doop(4, o); }
  }
  void teardown(const Scn&) { delete t; t = nullptr; }
};
int main(int c, char** v) { return conc_main<Ad>(c, v); }
