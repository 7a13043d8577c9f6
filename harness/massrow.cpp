// Masstree rows: the query layer (column puts, whole-row replace, remove, column reads, scans) over the four row types
#include <tbb/enumerable_thread_specific.h>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <algorithm>
#include <cassert>
#include "rt/mapgen.h"
#define private public
#include "kvthread.hh"
#undef private
#include "masstree.hh"
#include "masstree_tcursor.hh"
#include "masstree_get.hh"
#include "masstree_insert.hh"
#include "masstree_remove.hh"
#include "masstree_split.hh"
#include "masstree_scan.hh"
#include "kvrow.hh"
using namespace vd; using lcdf::Json; using lcdf::String;
volatile uint64_t globalepoch = 1, active_epoch = 1;
kvepoch_t global_log_epoch;
static std::vector<std::string> g_keys;
static thread_local threadinfo* g_ti;
// a row is P plus one digit per column; digit 0: the column is not set
static const long P = 4096; static const int NC = 4;
static int dig(long x, int c) { return (int)((x >> (3 * c)) & 7); }
#if MASSTREE_ROW_TYPE_STR
static const bool STR_ROW = true;
static row_type::index_type idx(int c) { return row_type::make_index(3 * c, 3); }
#else
static const bool STR_ROW = false;
static row_type::index_type idx(int c) { return c; }
#endif
static std::string cell(int k, int c, int v) {
  std::string s; s.push_back((char)('A' + v)); s.push_back((char)('a' + c));
  if (STR_ROW) { s.push_back((char)('0' + k % 64)); return s; }
  int l = (v * 5 + c * 3 + k) % 11 + (v == 7 ? 20 : 0); for (int i = 0; i < l; i++) s.push_back((char)('0' + (v + i) % 10)); return s;
}
// reads through instrumented loads, so that the bytes of a freed row are noticed
static int uncell(int k, int c, const char* p, int n) {
  std::string s; for (int i = 0; i < n; i++) s.push_back(p[i]);
  if (s.empty() || (STR_ROW && s == std::string(s.size(), '\0'))) return 0; int v = s[0] - 'A'; return v >= 1 && v <= 7 && s == cell(k, c, v) ? v : -1;
}
struct NP3 : Masstree::nodeparams<3, 3> { typedef row_type* value_type; typedef threadinfo threadinfo_type; };
struct NP15 : Masstree::nodeparams<15, 15> { typedef row_type* value_type; typedef threadinfo threadinfo_type; };
struct TabIf {
  virtual ~TabIf() {}
  virtual long put(int k, long cols) = 0; virtual long rep(int k, int v) = 0; virtual long rem(int k) = 0; virtual long get(int k, int mask) = 0; virtual long get1(int k, int c) = 0;
  virtual void scan(bool rev, int k, int lo, int hi, int lim, int ncols, std::vector<std::pair<int, long>>& out) = 0;
};
static String mks(const std::string& s) { return String(s.data(), (int)s.size()); }
struct Guard { Guard() { g_ti->rcu_start(); } ~Guard() { g_ti->rcu_stop(); } };
template <class NP> struct Tab : TabIf {
  typedef Masstree::basic_table<NP> Tr; Tr t;
  query<row_type>* q[9];
  Tab() { t.initialize(*g_ti); for (auto& x : q) x = new query<row_type>; }
  query<row_type>& Q() { return *q[vs::tid() % 9]; }
  lcdf::Str key(int k) { return lcdf::Str(g_keys[k].data(), (int)g_keys[k].size()); }
  long put(int k, long cols) override {
    std::vector<Json> r; { vs::NoSwitch ns; for (int c = 0; c < NC; c++) if (dig(cols, c)) { r.push_back(Json((uint64_t)idx(c))); r.push_back(Json(mks(cell(k, c, dig(cols, c))))); } }
    Guard g; return Q().run_put(t, key(k), r.data(), r.data() + r.size(), *g_ti) == Inserted;
  }
  long rep(int k, int v) override { std::string s = cell(k, 0, v); Guard g; return Q().run_replace(t, key(k), lcdf::Str(s.data(), (int)s.size()), *g_ti) == Inserted; }
  long rem(int k) override { Guard g; return Q().run_remove(t, key(k), *g_ti); }
  long get1(int k, int c) override { Guard g; lcdf::Str v; if (!Q().run_get1(t, key(k), idx(c), v, *g_ti)) return 0; int d = uncell(k, c, v.s, v.len); return d < 0 ? -7 : P + ((long)d << (3 * c)); }
  long dec(int k, const Json* j, const std::vector<int>& cs) {
    long x = P;
    for (size_t i = 0; i < cs.size(); i++) { String s = j[i].as_s(); int d = uncell(k, cs[i], s.data(), s.length()); if (d < 0) return -7; x += (long)d << (3 * cs[i]); }
    return x;
  }
  long get(int k, int mask) override {
    Json req = Json::array(0, 0, String(g_keys[k].data(), (int)g_keys[k].size())); std::vector<int> cs;
    bool all = mask == 0 && !STR_ROW;
    for (int c = 0; c < NC; c++) if (mask == 0 || mask >> c & 1) { cs.push_back(c); if (!all) req.push_back(Json((uint64_t)idx(c))); }
    Guard g; Q().run_get(t, req, *g_ti);
    if (req.size() >= 3 && req[2].is_s() && req[2].as_s() == String(g_keys[k].data(), (int)g_keys[k].size()) && (int)req.size() == 3 + (all ? 0 : (int)cs.size()) && !(req.size() == 2)) {
      // an unanswered request keeps its key
      return 0;
    }
    int n = req.size() - 2; if (all) { if (n > NC) return -7; cs.resize(n); } else if (n != (int)cs.size()) return -7;
    std::vector<Json> v; for (int i = 0; i < n; i++) v.push_back(req[2 + i]);
    return dec(k, v.data(), cs);
  }
  void scan(bool rev, int k, int lo, int hi, int lim, int mode, std::vector<std::pair<int, long>>& out) override {
    Json req = Json::array(0, 0, String(g_keys[k].data(), (int)g_keys[k].size()), lim); std::vector<int> cs;
    bool all = mode == 0 && !STR_ROW; for (int c = 0; c < NC; c++) { cs.push_back(c); if (!all) req.push_back(Json((uint64_t)idx(c))); }
    Guard g; if (rev) Q().run_rscan(t, req, *g_ti); else Q().run_scan(t, req, *g_ti);
    for (int i = 2; i + 1 < req.size(); i += 2) {
      String s = req[i].as_s(); std::string ks(s.data(), s.length()); int id = std::lower_bound(g_keys.begin(), g_keys.end(), ks) - g_keys.begin();
      if (id == (int)g_keys.size() || g_keys[id] != ks) { out.push_back({-1, -7}); continue; }
      if (rev ? id < lo : id >= hi) break;
      Json v = req[i + 1]; long x;
      if (v.is_s()) { x = dec(id, &v, {0}); }
      else { int n = v.size(); std::vector<Json> w; for (int j = 0; j < n; j++) w.push_back(v[j]); auto c2 = cs; if (n > NC || (!all && n != NC)) x = -7; else { c2.resize(n); x = dec(id, w.data(), c2); } }
      out.push_back({id, x});
    }
  }
};
struct Ad {
  TabIf* t = nullptr; bool advancing = false;
  void gen(Rng& r, Scn& s, const std::string& kind) {
    int ty = r.chance(60) ? 0 : 1; s.par["ty"] = ty;
    int n = r.chance(50) ? r.range(1, 3) : r.range(3, 14); g_keys.clear();
    if (r.chance(50)) for (auto x : vk::ints(r, n)) g_keys.push_back(vk::be64(x)); else g_keys = vk::strs(r, n, 3 + r.below(20), r.chance(30), false);
    if (ty == 0) { std::set<std::string> ks; for (auto x : g_keys) { for (auto& c : x) if (!c) c = 1; ks.insert(x); } g_keys.assign(ks.begin(), ks.end()); }
    n = g_keys.size();
    GenCfg c; c.init_op = "cput"; c.ops = {{"cput", 45}, {"crep", 10}, {"rem", 15}, {"cget", 22}, {"cget1", 8}};
    if (kind == "rowgc") c.ops = {{"cput", 40}, {"crep", 20}, {"rem", 20}, {"cget", 20}};
    c.scans = {{"scan", 50}, {"rscan", 50}}; c.scanpct = 35; c.minops = 1; c.maxops = kind == "rowgc" ? 5 : 4;
    gen_map(r, s, n, c);
    auto fill = [&](Op& o) {
      if (o.o == "cput") {
        long x = 0; int hi = r.below(NC); bool pre = r.chance(50); for (int i = 0; i < NC; i++) if (STR_ROW && pre ? i <= hi : r.chance(45)) x |= (long)(1 + r.below(7)) << (3 * i);
        if (!x) x = (1 + r.below(7)) << (3 * (STR_ROW ? 0 : r.below(NC))); o.v = x;
      } else if (o.o == "crep") o.v = 1 + r.below(7);
      else if (o.o == "cget") o.v = r.chance(50) ? 0 : r.below(16);
      else if (o.o == "cget1") o.v = 1 << r.below(NC);
    };
    for (auto& o : s.init) fill(o);
    for (auto& v : s.thr) for (auto& o : v) fill(o);
    if (kind == "rowgc") for (auto& v : s.thr) for (size_t i = 0; i <= v.size(); i++) if (r.chance(30)) { Op a; a.o = "adv"; v.insert(v.begin() + i, a); i++; }
    if (r.chance(kind == "rowgc" ? 60 : 15)) { std::vector<Op> v; int m = 2 + r.below(8); for (int i = 0; i < m; i++) { Op a; a.o = "adv"; v.push_back(a); } s.thr.push_back(v); }
  }
  void drain(threadinfo* ti) { vs::NoSwitch ns; for (auto& p : ti->pool_) while (p) { void* x = p; p = *(void**)x; free(x); } }
  void doop(int tid, const Op& o) {
    if (o.o == "cput") { call(tid, "cput", o.k, o.v); ret(tid, t->put(o.k, o.v)); }
    else if (o.o == "crep") { call(tid, "crep", o.k, o.v); ret(tid, t->rep(o.k, o.v)); }
    else if (o.o == "rem") { call(tid, "rem", o.k); ret(tid, t->rem(o.k)); }
    else if (o.o == "cget") { call(tid, "cget", o.k, o.v); ret(tid, t->get(o.k, o.v)); }
    else if (o.o == "cget1") { call(tid, "cget", o.k, o.v); int c = 0; while (!(o.v >> c & 1)) c++; ret(tid, t->get1(o.k, c)); }
    else if (o.o == "adv") {
      bool go; { vs::NoSwitch ns; go = !advancing; if (go) advancing = true; }
      if (go) { globalepoch += 2; active_epoch = threadinfo::min_active_epoch(); vs::NoSwitch ns; advancing = false; }
    } else {
      bool rev = o.o == "rscan"; int lo = o.k, hi = std::max(o.hi, lo + 1);
      std::vector<std::pair<int, long>> out; call_scan(tid, o.o.c_str(), lo, hi, o.lim); t->scan(rev, rev ? hi - 1 : lo, lo, hi, o.lim, o.v & 1, out); ret_scan(tid, out);
    }
    drain(g_ti);
  }
  std::string header(const Scn& s) { std::vector<long> iv(s.par.at("n"), 0); for (auto& o : s.init) iv[o.k] = P + o.v; return init_hdr(iv); }
  void setup(const Scn& s) {
    threadinfo::allthreads = nullptr; globalepoch = active_epoch = 1; advancing = false;
    g_ti = threadinfo::make(threadinfo::TI_MAIN, -1); threadinfo::no_pool_value = 1;
    if (s.par.at("ty") == 0) t = new Tab<NP3>; else t = new Tab<NP15>;
    for (auto& o : s.init) t->put(o.k, o.v);
  }
  void thread(int tid, const Scn& s) { { vs::NoSwitch ns; g_ti = threadinfo::make(threadinfo::TI_PROCESS, tid); } for (auto& o : s.thr[tid - 1]) doop(tid, o); }
  void finish(const Scn& s) {
    std::vector<long> m; int n = s.par.at("n"); for (int k = 0; k < n; k++) m.push_back(t->get(k, 0));
    fin(m);
    for (int k = 0; k < n && k < 4; k++) { Op o; o.o = "cget"; o.k = k; o.v = 1 << (k & 3); doop(4, o); }
    Op o; o.k = 0; o.hi = n; o.lim = 400; o.o = "scan"; doop(4, o); o.o = "rscan"; doop(4, o);
  }
  void teardown(const Scn&) { t = nullptr; }
};
int main(int c, char** v) { return conc_main<Ad>(c, v); }
