// B-link tree: insert-if-absent, update, search, fixed-length and range scans
#include "b_link_tree.h"
#include "rt/mapgen.h"
using namespace vd;
struct Val { long a, b; Val() : a(0), b(~0l) {} Val(long x) : a(x), b(~x) {} };
inline std::ostream& operator<<(std::ostream& o, const Val& v) { return o << v.a; }
typedef BLinkTree<uint64_t, Val, StandardSharedMutex> T1;
typedef BLinkTree<uint64_t, Val, RSpinSharedLatch> T2;
typedef BTree<uint64_t, Val> Tree;
static std::vector<uint64_t> g_keys;
static int kid(uint64_t k) { auto it = std::lower_bound(g_keys.begin(), g_keys.end(), k); return it == g_keys.end() || *it != k ? -1 : (int)(it - g_keys.begin()); }
static long val(const Val& v) { return v.a == ~v.b ? v.a : -7; }
struct Ad {
  Tree* t = nullptr;
  void gen(Rng& r, Scn& s, const std::string& kind) {
    int n = pick_n(r, {{3, 8}, {8, 20}, {20, 40}});
    g_keys = vk::ints(r, n);
    GenCfg c; c.init_op = "ins"; c.ops = {{"ins", 45}, {"upd", 25}, {"get", 30}};
    if (kind == "scan") c.scans = {{"snap", 60}, {"snapn", 40}};
    gen_map(r, s, n, c);
    s.par["leaf"] = 4 + r.below(4); s.par["inner"] = 4 + r.below(4); s.par["thr"] = r.below(3); s.par["latch"] = r.below(2);
    if (r.chance(35)) {
      s.init.resize(r.below(s.init.size() + 1));
      for (auto& v : s.thr) { int m = 2 + r.below(3); int b = r.below(n), d = r.chance(50) ? 1 : -1; for (int i = 0; i < m; i++) { Op o; o.o = "ins"; o.k = ((b + d * i) % n + n) % n; o.v = 1 + r.below(3); v.push_back(o); } }
    }
  }
  void doop(int tid, const Op& o) {
    uint64_t k = g_keys[std::min<size_t>(o.k, g_keys.size() - 1)];
    if (o.o == "ins") { call(tid, "ins", o.k, o.v); ret(tid, t->Insert(k, Val(o.v))); }
    else if (o.o == "upd") { call(tid, "upd", o.k, o.v); ret(tid, t->Update(k, Val(o.v))); }
    else if (o.o == "get") { call(tid, "get", o.k); Val v; bool f = t->Search(k, v); ret(tid, f ? val(v) : 0); }
    else {
      std::vector<std::pair<uint64_t, Val>> out; int n = g_keys.size();
      bool rng = o.o == "snap"; int lim = std::min(o.lim, 300);
      uint64_t hi = o.hi < n ? g_keys[o.hi] : ~0ull;
      call_scan(tid, "snap", o.k, rng ? o.hi : n, rng ? 300 : lim);
      bool f = rng ? t->ScanRange(k, hi, out) : t->ScanFixed(k, lim, out);
      std::vector<std::pair<int, long>> l;
      for (auto& x : out) l.push_back({kid(x.first), val(x.second)});
      if (!f && !l.empty()) l.push_back({-1, 0});
      ret_scan(tid, l);
    }
  }
  std::string header(const Scn& s) { return map_header(s); }
  void setup(const Scn& s) {
    double th = s.par.at("thr") == 0 ? 0.75 : s.par.at("thr") == 1 ? 0.9 : 1.0;
    int in = s.par.at("inner"), lf = s.par.at("leaf");
    if (s.par.at("latch")) t = new T1(in, lf, th, 0.25, th, 0.25); else t = new T2(in, lf, th, 0.25, th, 0.25);
    for (auto& o : s.init) t->Insert(g_keys[o.k], Val(o.v));
  }
  void thread(int tid, const Scn& s) { for (auto& o : s.thr[tid - 1]) doop(tid, o); }
  void finish(const Scn& s) {
    std::vector<long> m; int n = s.par.at("n");
    for (int k = 0; k < n; k++) { Val v; bool f = k & 1 ? t->Search(g_keys[k], v) : t->SearchUnsafe(g_keys[k], v); m.push_back(f ? val(v) : 0); }
    fin(m);
    bool scans = false; for (auto& o : s.thr[0]) scans = scans || o.o[0] == 's';
    if (scans) {
      Op o; o.o = "snap"; o.k = 0; o.hi = n; o.lim = 300; doop(4, o); o.o = "snapn"; o.k = n / 3; o.lim = 2 + n / 4; doop(4, o);
      std::vector<std::pair<uint64_t, Val>> out; call_scan(4, "snap", 0, n, 300); t->ScanLeaf(out);
      std::vector<std::pair<int, long>> l; for (auto& x : out) l.push_back({kid(x.first), val(x.second)}); ret_scan(4, l);
    }
  }
  void teardown(const Scn& s) { delete t; t = nullptr; }
};
int main(int c, char** v) { return conc_main<Ad>(c, v); }
