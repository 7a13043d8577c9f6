// Wormhole: the three concurrent interfaces (buffers, safe, standard) over one map
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <map>
#include "rt/mapgen.h"
extern "C" {
#include "lib.h"
#include "kv.h"
#include "wh.h"
#include "whslab.h"
}
using namespace vd;
#ifndef KPN
#define KPN 128
#endif
static std::vector<std::string> g_keys;
static long enc(int k, long v) { return ((long)(k + 1) << 20) | v; }
static int vwords(int k) { return 1 + k % 4; }
static void fillv(int k, long v, uint64_t* w) { for (int i = 0; i < vwords(k); i++) w[i] = enc(k, v) ^ (i & 1 ? ~0ull : 0); }
static long readv(int k, const void* p, unsigned len) {
  if (len != vwords(k) * 8u) return -7;
  uint64_t w[8]; for (int i = 0; i < vwords(k); i++) memcpy(w + i, (const char*)p + 8 * i, 8);
  for (int i = 1; i < vwords(k); i++) if ((w[i] ^ (i & 1 ? ~0ull : 0)) != w[0]) return -7;
  return (long)(w[0] >> 20) - 1 == k ? (long)(w[0] & 0xfffff) : -7;
}
static kref mkref(const std::string& s) { kref r; kref_ref_hash32(&r, (const u8*)s.data(), s.size()); return r; }
static std::string keyof(const kv* x) { return std::string((const char*)kv_kptr_c(x), x->klen); }
static int idof(const std::string& s) { auto it = std::lower_bound(g_keys.begin(), g_keys.end(), s); return it != g_keys.end() && *it == s ? (int)(it - g_keys.begin()) : -1; }
struct Rd { int k; long r; };
static void rd_cb(kv* c, void* p) { Rd* x = (Rd*)p; x->r = c ? readv(x->k, kv_vptr_c(c), c->vlen) : 0; }
struct Ad_ { int k; long arg, old; };
static void add_cb(kv* c, void* p) { Ad_* x = (Ad_*)p; if (!c) { x->old = 0; return; } uint64_t* w = (uint64_t*)kv_vptr(c); x->old = readv(x->k, w, c->vlen); uint64_t t[8]; fillv(x->k, x->old + x->arg, t); for (int i = 0; i < vwords(x->k); i++) memcpy((char*)w + 8 * i, t + i, 8); }
static kv* merge_cb(kv* c, void* p) {
  Ad_* x = (Ad_*)p; x->old = c ? readv(x->k, kv_vptr_c(c), c->vlen) : 0;
  if (x->arg == 0) return c;                       // no change wanted
  uint64_t t[8]; fillv(x->k, x->old + x->arg, t);
  kv* n = kv_create(g_keys[x->k].data(), g_keys[x->k].size(), t, vwords(x->k) * 8); return n;
}
struct It { int lo, hi, lim; };
struct Ad {
  int api = 0; wormhole* map = nullptr; std::vector<wormref*> refs; bool pre = false;
  void gen(Rng& r, Scn& s, const std::string& kind) {
    bool reclaim = kind == "reclaim";
    s.par["api"] = r.below(3); s.par["pre"] = r.below(2);
    int n; bool tight = r.chance(50);
    if (tight) n = KPN + 1 + r.below(6); else n = r.chance(70) ? r.range(3, KPN + KPN / 2) : r.range(KPN, KPN * 3);
    if (KPN == 128 && n > 200) n = 200;
    g_keys.clear();
    if (r.chance(35)) for (auto x : vk::ints(r, n)) g_keys.push_back(vk::be64(x));
    else { g_keys = vk::strs(r, n, 3 + r.below(60), r.chance(30), false); if (r.chance(20) && g_keys[0] != "") g_keys[0] = ""; }
    n = g_keys.size();
    GenCfg c; c.init_op = "upsv";
    c.ops = {{"upsv", 30}, {"get", 20}, {"has", 8}, {"rem", 30}, {"addp", 10}, {"addo", 12}, {"delr", 4}};
    c.scans = {{"scan", 100}}; c.scanall = kind == "scan" ? 40 : 15; c.scanpct = kind == "scan" ? 75 : kind == "point" ? 0 : 25; if (kind == "scan") c.ops.back().second = 12;
    gen_map(r, s, n, c);
    for (auto& v : s.thr) for (auto& o : v) if (o.o == "delr") { int a = o.k, b = std::min(n, o.k + 1 + (int)r.below(r.chance(60) ? 4 : n)); o.k = a; o.hi = b; o.v = r.chance(20) && b == n; }
    if (tight) {      // one leaf that is full or nearly so: the next insertions split it
      std::vector<int> absent; int m = n - KPN + (int)r.below(3); for (int i = 0; i < m; i++) absent.push_back(r.below(n));
      s.init.clear(); for (int k = 0; k < n; k++) if (std::find(absent.begin(), absent.end(), k) == absent.end()) { Op o; o.o = "upsv"; o.k = k; o.v = 1 + r.below(2); s.init.push_back(o); }
      if (r.chance(50)) for (size_t i = s.init.size(); i > 1; i--) std::swap(s.init[i - 1], s.init[r.below(i)]);
      for (auto& v : s.thr) for (auto& o : v) if (o.o == "upsv" || o.o == "addo") if (r.chance(70)) o.k = absent[r.below(absent.size())];
    }
    int T = s.thr.size(), first = kind == "scan" ? 1 : 0;
    if (r.chance(reclaim ? 80 : 45)) {     // a burst over a neighbourhood: leaves empty or fill up
      int t = first + r.below(T - first), b = r.below(n), d = r.chance(50) ? 1 : -1, m = 2 + r.below(r.chance(30) ? 30 : 8); bool ins = r.chance(tight ? 20 : 50);
      std::vector<Op> v; for (int i = 0; i < m; i++) { Op o; o.o = r.chance(88) == ins ? "upsv" : "rem"; o.k = ((b + d * i) % n + n) % n; o.v = 1 + r.below(3); v.push_back(o); }
      if (!ins && r.chance(40)) { v.clear(); Op o; o.o = "delr"; o.k = r.below(n); o.hi = std::min(n, o.k + 1 + (int)r.below(n)); v.push_back(o); }
      auto& x = s.thr[t]; if (r.chance(50)) x = v; else x.insert(x.begin() + r.below(x.size() + 1), v.begin(), v.end());
    }
  }
  wormref* mkr() { return api == 0 ? wh_ref(map) : api == 1 ? whsafe_ref(map) : wormhole_ref(map); }
  long put(wormref* r, int k, long v) {
    uint64_t t[8]; fillv(k, v, t); auto& s = g_keys[k];
    if (api == 0) return wh_put(r, s.data(), s.size(), t, vwords(k) * 8);
    kv* x = kv_create(s.data(), s.size(), t, vwords(k) * 8);
    bool ok = api == 1 ? whsafe_put(r, x) : wormhole_put(r, x); free(x); return ok;
  }
  long get(wormref* r, int k, int how) {
    auto& s = g_keys[k]; kref q = mkref(s);
    if (how == 0) { Rd x{k, -7}; bool f = api == 0 ? wh_inpr(r, s.data(), s.size(), rd_cb, &x) : api == 1 ? whsafe_inpr(r, &q, rd_cb, &x) : wormhole_inpr(r, &q, rd_cb, &x); return f == (x.r != 0) ? x.r : -8; }
    if (api == 0) { uint64_t b[16]; u32 len = 0; return wh_get(r, s.data(), s.size(), b, sizeof b, &len) ? readv(k, b, len) : 0; }
    char buf[512]; kv* o = how == 1 && s.size() < 300 ? (kv*)buf : nullptr;
    kv* x = api == 1 ? whsafe_get(r, &q, o) : wormhole_get(r, &q, o);
    if (!x) return 0;
    long v = keyof(x) == s ? readv(k, kv_vptr_c(x), x->vlen) : -7; if (!o) free(x); return v;
  }
  long has(wormref* r, int k) { auto& s = g_keys[k]; kref q = mkref(s); return api == 0 ? wh_probe(r, s.data(), s.size()) : api == 1 ? whsafe_probe(r, &q) : wormhole_probe(r, &q); }
  long del(wormref* r, int k) { auto& s = g_keys[k]; kref q = mkref(s); return api == 0 ? wh_del(r, s.data(), s.size()) : api == 1 ? whsafe_del(r, &q) : wormhole_del(r, &q); }
  long addp(wormref* r, int k, long v) { auto& s = g_keys[k]; kref q = mkref(s); Ad_ x{k, v, 0}; return api == 0 ? wh_inpw(r, s.data(), s.size(), add_cb, &x) : api == 1 ? whsafe_inpw(r, &q, add_cb, &x) : wormhole_inpw(r, &q, add_cb, &x); }
  long addo(wormref* r, int k, long v) {
    auto& s = g_keys[k]; kref q = mkref(s); Ad_ x{k, v, -9};
    bool ok = api == 0 ? wh_merge(r, s.data(), s.size(), merge_cb, &x) : api == 1 ? whsafe_merge(r, &q, merge_cb, &x) : wormhole_merge(r, &q, merge_cb, &x);
    return ok ? x.old : -8;
  }
  long delr(wormref* r, int lo, int hi, bool open) {
    kref a = mkref(g_keys[lo]), b; if (hi < (int)g_keys.size()) b = mkref(g_keys[hi]);
    std::string top = g_keys.back() + std::string(1, '\0'); if (hi >= (int)g_keys.size()) b = mkref(top);
    if (api == 0) return wh_delr(r, a.ptr, a.len, b.ptr, b.len);
    return api == 1 ? whsafe_delr(r, &a, open ? nullptr : &b) : wormhole_delr(r, &a, open ? nullptr : &b);
  }
  bool peek(wormhole_iter* it, int how, std::string& key, std::pair<int, long>& out) {
    char kb[300], vb[128]; u32 kl = 0, vl = 0;
    if (api == 0) { if (!wh_iter_peek(it, kb, sizeof kb, &kl, vb, sizeof vb, &vl)) return false; key.assign(kb, kl); }
    else if (how == 0) { kvref q; if (!wormhole_iter_kvref(it, &q)) return false; kl = q.hdr.klen; vl = q.hdr.vlen; memcpy(kb, q.kptr, kl); memcpy(vb, q.vptr, vl); key.assign(kb, kl); }
    else if (how == 1) { kref q; if (!wormhole_iter_kref(it, &q)) return false; key.assign((const char*)q.ptr, q.len); Rd x{idof(key), -7}; if (x.k < 0 || !wormhole_iter_inp(it, rd_cb, &x)) { out = {-1, -7}; return true; } out = {x.k, x.r}; return true; }
    else { char buf[600]; kv* x = wormhole_iter_peek(it, (kv*)buf); if (!x) return false; key = keyof(x); vl = x->vlen; memcpy(vb, kv_vptr_c(x), vl); }
    int k = idof(key); out = {k, k < 0 ? -7 : readv(k, vb, vl)}; return true;
  }
  void scan(wormref* r, int lo, int hi, int lim, int how, std::vector<std::pair<int, long>>& out) {
    wormhole_iter* it = api == 0 ? wh_iter_create(r) : wormhole_iter_create(r);
    auto seek = [&](const std::string& s) { kref q = mkref(s); if (api == 0) wh_iter_seek(it, s.data(), s.size()); else if (api == 1) whsafe_iter_seek(it, &q); else wormhole_iter_seek(it, &q); };
    auto park = [&] { if (api == 0) wh_iter_park(it); else if (api == 1) whsafe_iter_park(it); else wormhole_iter_park(it); };
    seek(g_keys[lo]);
    std::string key; std::pair<int, long> x; int cnt = 0;
    while ((int)out.size() < lim && cnt++ < 2000 && peek(it, how % 3, key, x)) {
      if (hi < (int)g_keys.size() && key >= g_keys[hi]) break;
      out.push_back(x);
      if ((int)out.size() == lim) break;
      if (how >= 3 && cnt % 3 == 0) { park(); seek(key); std::string k2; std::pair<int, long> y; if (!peek(it, 0, k2, y)) break; if (k2 != key) continue; }
      if (api == 0) { if (how & 1) wh_iter_skip(it, 1); else wh_iter_skip1(it); } else if (how & 1) wormhole_iter_skip(it, 1); else wormhole_iter_skip1(it);
    }
    if (how != 4) park();
    if (api == 0) wh_iter_destroy(it); else if (api == 1) whsafe_iter_destroy(it); else wormhole_iter_destroy(it);
    if (how == 4 && api == 0) wh_park(r);
  }
  void doop(int tid, wormref* r, const Op& o) {
    if (o.o == "upsv") { call(tid, "upsv", o.k, o.v); ret(tid, put(r, o.k, o.v) ? -2 : -8); }
    else if (o.o == "get") { call(tid, "get", o.k); ret(tid, get(r, o.k, o.v % 3)); }
    else if (o.o == "has") { call(tid, "has", o.k); ret(tid, has(r, o.k)); }
    else if (o.o == "rem") { call(tid, "rem", o.k); ret(tid, del(r, o.k)); }
    else if (o.o == "addp") { call(tid, "addp", o.k, o.v); ret(tid, addp(r, o.k, o.v)); }
    else if (o.o == "addo") { long a = o.v == 3 ? 0 : o.v; call(tid, a ? "addo" : "get", o.k, a); ret(tid, addo(r, o.k, a)); }
    else if (o.o == "delr") { call_scan(tid, "delr", o.k, o.hi, 0); ret(tid, delr(r, o.k, o.hi, o.v)); }
    else { std::vector<std::pair<int, long>> out; call_scan(tid, "scan", o.k, o.hi, o.lim); scan(r, o.k, o.hi, o.lim, o.v % 5, out); ret_scan(tid, out); }
  }
  std::string header(const Scn& s) { return map_header(s); }
  void setup(const Scn& s) {
    api = s.par.at("api"); pre = s.par.at("pre"); refs.clear();
    map = api == 0 ? wh_create() : wormhole_create(nullptr);
    wormref* r = mkr();
    for (auto& o : s.init) put(r, o.k, o.v);
    wormhole_unref(r);
    if (pre) for (size_t t = 0; t < s.thr.size(); t++) { refs.push_back(mkr()); if (api == 2) wormhole_park(refs.back()); }
  }
  void thread(int tid, const Scn& s) {
    wormref* r = pre ? refs[tid - 1] : mkr();
    if (pre && api == 2) wormhole_resume(r);
    for (auto& o : s.thr[tid - 1]) doop(tid, r, o);
    if (pre && (tid & 1)) { wormhole_park(r); return; }
    if (pre) refs[tid - 1] = nullptr;
    wormhole_unref(r);
  }
  void finish(const Scn& s) {
    wormref* r = mkr(); int n = s.par.at("n");
    std::vector<long> m; for (int k = 0; k < n; k++) m.push_back(get(r, k, k % 3));
    fin(m);
    { Op o; o.o = "scan"; o.k = 0; o.hi = n; o.lim = 2000; o.v = s.thr.size(); doop(7, r, o); }
    if (api == 2) wormhole_refresh_qstate(r);
    wormhole_unref(r); for (auto x : refs) if (x) wormhole_unref(x); refs.clear();
  }
  void teardown(const Scn& s) { if (api == 0) wh_destroy(map); else wormhole_destroy(map); map = nullptr; }
};
int main(int c, char** v) { return conc_main<Ad>(c, v); }
