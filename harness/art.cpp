// ARTOLC adapter: point operations, range lookups, reclamation
#include "Tree.h"
#include "rt/driver.h"
#include "rt/keys.h"
using namespace vd;

static std::vector<std::string> g_keys;                 // id -> bytes
static TID mk(int k, long v) { return ((TID)(k + 1) << 20) | (TID)v; }
static int kid(TID t) { return (int)(t >> 20) - 1; }
static long val(TID t) { return (long)(t & 0xfffff); }
static void loadKey(TID tid, Key& key) { const std::string& s = g_keys[kid(tid)]; key.set(s.data(), s.size()); }
static void setk(Key& key, int k) { const std::string& s = g_keys[k]; key.set(s.data(), s.size()); }

struct Art {
  ART_OLC::Tree* t = nullptr;
  long nv = 100;
  void gen(Rng& r, Scn& s, const std::string& kind) {
    int style = kind == "reclaim" ? 0 : r.below(4);
    int n;
    switch (r.below(5)) { case 0: n = 4 + r.below(6); break; case 1: n = 14 + r.below(8); break; case 2: n = 44 + r.below(10); break; case 3: n = 8 + r.below(30); break; default: n = 3 + r.below(4); break; }
    g_keys.clear();
    if (style == 3) g_keys = vk::strs(r, n, 8 + r.below(40), false, true);
    else for (auto x : vk::ints(r, n)) g_keys.push_back(vk::be64(x));
    n = (int)g_keys.size();
    if (kind == "reclaim") { g_keys.push_back(std::string(8, (char)0xfe)); g_keys.push_back(std::string(7, (char)0xfe) + "\x01"); for (int i = 0; i < 3; i++) {
      // garbage a thread has already retired: just below a collection (every 257th), or just below an epoch change (every 64th)
#ifdef SMALL_GC
      s.par["warm" + std::to_string(i + 1)] = r.below(6);
#else
      s.par["warm" + std::to_string(i + 1)] = r.chance(65) ? 256 - (int)r.below(4) : r.chance(70) ? 64 * (1 + (int)r.below(4)) - (int)r.below(3) : (int)r.below(300);
#endif
      } }
    s.par["n"] = n; s.par["kind"] = kind == "range" ? 1 : kind == "reclaim" ? 2 : 0;
    // hot keys: a cluster of neighbours plus a random one
    std::vector<int> hot; int h = 2 + r.below(3), st = r.below(n);
    for (int i = 0; i < h; i++) hot.push_back((st + i) % n);
    hot.push_back(r.below(n));
    int fillpct = r.chance(70) ? 100 : r.below(100), hotpct = r.below(100);
    for (int k = 0; k < n; k++) { bool ish = std::find(hot.begin(), hot.end(), k) != hot.end(); if (r.chance(ish ? hotpct : fillpct)) { Op o; o.o = "upsv"; o.k = k; o.v = kind == "reclaim" ? 1 : 1 + r.below(2); s.init.push_back(o); } }
    for (size_t i = s.init.size(); i > 1; i--) std::swap(s.init[i - 1], s.init[r.below(i)]);
    int T = 2 + (r.chance(40) ? 1 : 0);
    for (int t = 0; t < T; t++) {
      std::vector<Op> v; int m = kind == "reclaim" ? 2 + r.below(5) : 1 + r.below(3);
      for (int i = 0; i < m; i++) {
        Op o; o.k = hot[r.below(hot.size())]; int c = r.below(100);
        if (s.par["kind"] == 1 && t == 0) { o.o = "scan"; int a = r.below(n), b = r.below(n + 1); if (r.chance(40)) { a = 0; b = n; } if (a > b) std::swap(a, b); o.k = a; o.hi = b; o.lim = r.chance(70) ? n + 1 : 1 + r.below(n); if (r.chance(25)) o.v = 1 + r.below(4); }
        else if (s.par["kind"] == 2) { int vm = r.chance(85) ? 1 : 2; if (c < 35) { o.o = "upsv"; o.v = 1 + r.below(vm); } else if (c < 80) { o.o = "remx"; o.v = 1 + r.below(vm); } else if (c < 92) o.o = "get"; else { o.o = "scan"; o.k = 0; o.hi = n; o.lim = n + 1; } }
        else if (c < 40) { o.o = "upsv"; o.v = 1 + r.below(3); }
        else if (c < 75) { o.o = "remx"; o.v = 1 + r.below(3); }
        else o.o = "get";
        v.push_back(o);
      }
      s.thr.push_back(v);
    }
  }
  void doop(int tid, const Op& o, ART::ThreadInfo& ti) {
    Key key; setk(key, o.k < (int)g_keys.size() ? o.k : (int)g_keys.size() - 1);
    if (o.o == "upsv") { call(tid, "upsv", o.k, o.v); t->insert(key, mk(o.k, o.v), ti); ret(tid, -2); }
    else if (o.o == "remx") { call(tid, "remx", o.k, o.v); t->remove(key, mk(o.k, o.v), ti); ret(tid, -2); }
    else if (o.o == "get") { call(tid, "get", o.k); TID r = t->lookup(key, ti); ret(tid, r == 0 ? 0 : kid(r) == o.k ? val(r) : -7); }
    else if (o.o == "scan") {
      if (o.k >= o.hi) return;
      Key end; 
      if (o.hi < (int)g_keys.size()) setk(end, o.hi); else { std::string x(48, (char)0xff); end.set(x.data(), x.size()); }
      Key cont; TID res[300]; size_t cnt = 0;
      int lim = std::min(o.lim, 300);
      // o.v > 0: pages of that size, each continued at the key the previous one reported
      int page = o.v ? (int)o.v : lim;
      call_scan(tid, "scan", o.k, o.hi, o.v ? 300 : lim);
      std::vector<std::pair<int, long>> out;
      for (int pages = 0;; pages++) {
        bool more = t->lookupRange(key, end, cont, res, page, cnt, ti);
        for (size_t i = 0; i < cnt; i++) out.push_back({kid(res[i]), val(res[i])});
        if (!o.v || !more) break;
        if (pages > 300 || (int)cnt != page) { out.push_back({-1, -1}); break; }     // "more" with a page that is not full
        key.set((const char*)&cont[0], cont.getKeyLen());
      }
      ret_scan(tid, out);
    }
  }
  std::string header(const Scn& s) {
    std::vector<long> iv(s.par.at("n"), 0); for (auto& o : s.init) iv[o.k] = o.v;
    return init_hdr(iv);
  }
  void setup(const Scn& s) {
    { vs::NoSwitch ns; live0 = vs::mem_live(); }
    t = new ART_OLC::Tree(loadKey); warmed = 0;
    auto ti = t->getThreadInfo();
    for (auto& o : s.init) { Key k; setk(k, o.k); t->insert(k, mk(o.k, o.v), ti); }
  }
  uint64_t live0 = 0; volatile int warmed = 0;
  void thread(int tid, const Scn& s) {
    if (s.par.at("kind") == 2) {
      // bring this thread's garbage list close to its collection threshold; undisturbed, so that the interesting part follows
      { vs::NoSwitch ns; auto ti = t->getThreadInfo(); int n = s.par.at("n"); Key a, b; setk(a, n); setk(b, n + 1);
      t->insert(a, mk(n, 1), ti);
      for (int i = 0; i < s.par.at("warm" + std::to_string(tid)); i++) { t->insert(b, mk(n + 1, 1), ti); t->remove(b, mk(n + 1, 1), ti); }
      warmed++; }
      for (;;) { bool go; { vs::NoSwitch ns; go = warmed == (int)s.thr.size(); } if (go) break; vs::yield(); }
    }
    auto ti = t->getThreadInfo(); for (auto& o : s.thr[tid - 1]) doop(tid, o, ti);
  }
  void finish(const Scn& s) {
    auto ti = t->getThreadInfo();
    std::vector<long> m;
    for (int k = 0; k < s.par.at("n"); k++) { Key key; setk(key, k); TID r = t->lookup(key, ti); m.push_back(r == 0 ? 0 : kid(r) == k ? val(r) : -7); }
    fin(m);
    if (s.par.at("kind") == 1) { Op o; o.o = "scan"; o.k = 0; o.hi = s.par.at("n"); o.lim = 300; doop(4, o, ti); }
  }
  void teardown(const Scn&) { delete t; t = nullptr; }
};
int main(int c, char** v) { return conc_main<Art>(c, v); }
