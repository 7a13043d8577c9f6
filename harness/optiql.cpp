// OptiQL adaptive radix tree: point operations and range lookups
#include "Tree.h"
#include "rt/mapgen.h"
using namespace vd;
static std::vector<std::string> g_keys;
static TID mk(int k, long v) { return ((TID)(k + 1) << 20) | (TID)v; }
static int kid(TID t) { return (int)(t >> 20) - 1; }
static long val(TID t) { return (long)(t & 0xfffff); }
static void setk(Key& key, int k) { const std::string& s = g_keys[k]; key.set(s.data(), s.size()); }
static void loadKey(TID tid, Key& key) { setk(key, kid(tid)); }
static void removeNode(void*) {}

struct Oq {
  ART_OLC_OptiQL::Tree* t = nullptr;
  void gen(Rng& r, Scn& s, const std::string& kind) {
    int n = pick_n(r, {{4, 9}, {14, 21}, {44, 53}, {8, 37}, {3, 6}});
    g_keys.clear();
    if (r.chance(25)) g_keys = vk::strs(r, n, 8 + r.below(40), false, true);
    else for (auto x : vk::ints(r, n)) g_keys.push_back(vk::be64(x));
    n = g_keys.size();
    GenCfg c; c.init_op = "ins"; c.ops = {{"ins", 30}, {"upd", 25}, {"remxr", 25}, {"get", 20}};
    if (kind == "range") c.scans = {{"scan", 60}, {"scan1", 40}};
    gen_map(r, s, n, c);
  }
  void doop(int tid, const Op& o) {
    Key key; setk(key, o.k < (int)g_keys.size() ? o.k : (int)g_keys.size() - 1);
    if (o.o == "ins") { call(tid, "ins", o.k, o.v); ret(tid, t->insert(key, mk(o.k, o.v))); }
    else if (o.o == "upd") { call(tid, "upd", o.k, o.v); ret(tid, t->update(key, mk(o.k, o.v))); }
    else if (o.o == "remxr") { call(tid, "remxr", o.k, o.v); ret(tid, t->remove(key, mk(o.k, o.v))); }
    else if (o.o == "get") { call(tid, "get", o.k); TID r = t->lookup(key); ret(tid, r == 0 ? 0 : kid(r) == o.k ? val(r) : -7); }
    else if (o.o == "scan") {
      Key end;
      if (o.hi < (int)g_keys.size()) setk(end, o.hi); else { std::string x(48, (char)0xff); end.set(x.data(), x.size()); }
      Key cont; TID res[300]; size_t cnt = 0; int lim = std::min(o.lim, 300);
      int page = o.v ? (int)o.v : lim;
      call_scan(tid, "scan", o.k, o.hi, o.v ? 300 : lim);
      std::vector<std::pair<int, long>> out;
      for (int pages = 0;; pages++) {
        bool more = t->lookupRange(key, end, cont, res, page, cnt);
        for (size_t i = 0; i < cnt; i++) out.push_back({kid(res[i]), val(res[i])});
        if (!o.v || !more) break;
        if (pages > 300 || (int)cnt != page) { out.push_back({-1, -1}); break; }
        key.set((const char*)&cont[0], cont.getKeyLen());
      }
      ret_scan(tid, out);
    } else if (o.o == "scan1") {
      TID res[300]; size_t cnt = 0; int lim = std::min(o.lim, 300);
      call_scan(tid, "scan", o.k, (int)g_keys.size(), lim);
      t->lookupRange(key, res, lim, cnt);
      std::vector<std::pair<int, long>> out; for (size_t i = 0; i < cnt; i++) out.push_back({kid(res[i]), val(res[i])});
      ret_scan(tid, out);
    }
  }
  std::string header(const Scn& s) { return map_header(s); }
  void setup(const Scn& s) { t = new ART_OLC_OptiQL::Tree(loadKey, removeNode); for (auto& o : s.init) { Key k; setk(k, o.k); t->insert(k, mk(o.k, o.v)); } }
  void thread(int tid, const Scn& s) { for (auto& o : s.thr[tid - 1]) doop(tid, o); }
  void finish(const Scn& s) {
    std::vector<long> m;
    for (int k = 0; k < s.par.at("n"); k++) { Key key; setk(key, k); TID r = t->lookup(key); m.push_back(r == 0 ? 0 : kid(r) == k ? val(r) : -7); }
    fin(m);
    bool scans = false; for (auto& o : s.thr[0]) scans = scans || o.o[0] == 's';
    if (scans) { Op o; o.o = "scan"; o.k = 0; o.hi = s.par.at("n"); o.lim = 300; o.v = 0; doop(4, o); o.o = "scan1"; doop(4, o); }
  }
  void teardown(const Scn&) { delete t; t = nullptr; }
};
int main(int c, char** v) { return conc_main<Oq>(c, v); }
