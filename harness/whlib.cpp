// wormhole's support library: latches, the lock-free slab allocator, quiescent-state reclamation
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <pthread.h>
#include "rt/mapgen.h"
extern "C" {
#include "lib.h"
}
using namespace vd;
struct Cell { volatile long a; volatile long pad[7]; volatile long b; };
static long rdc(Cell& c) { long a = c.a, b = c.b; return a == b ? a : -7; }
static long bump(Cell& c) { long a = c.a; c.a = a + 1; long b = c.b; c.b = b + 1; return a == b ? a : -7; }
struct Ad {
  std::string kd;
  // latches
  spinlock sp[2]; rwlock rw[2]; mutex mx[2]; Cell c[2];
  // slab
  struct slab* sl = nullptr; std::map<void*, int> ids; size_t osz = 0; bool safe = true; std::vector<void*> left[9];
  // qsbr
  struct qsbr* q = nullptr; int sid = -1; bool same = false; std::vector<qsbr_ref*> fill; volatile uint64_t cur, word; void touch() { for (int i = 0; i < 3; i++) (void)word; } pthread_mutex_t wl; int nfill = 0;
  void gen(Rng& r, Scn& s, const std::string& kind) {
    kd = kind; Op o; o.o = "init"; o.k = 0; o.v = 1; s.init.push_back(o);
    int T = 2 + r.below(3);
    if (kind == "lock") {
      int cfg = r.below(6); cfg = cfg < 4 ? 2 : cfg - 4; s.par["cfg"] = cfg; s.par["n"] = 1 + r.chance(20);
      for (int t = 0; t < T; t++) {
        std::vector<Op> v; int m = 1 + r.below(3);
        for (int i = 0; i < m; i++) {
          Op p; p.k = r.below(s.par["n"]); p.hi = r.below(12);
          static const char* k2[] = {"x", "t", "s", "ts", "d", "s"}; p.o = cfg == 2 ? k2[r.below(6)] : k2[r.below(2)]; v.push_back(p);
        }
        s.thr.push_back(v);
      }
    } else if (kind == "slab") {
      static const long sz[] = {1024, 2048, 1360, 512, 1000, 2040}; s.par["osz"] = sz[r.below(6)]; s.par["pre"] = r.below(4); s.par["res"] = r.below(3); s.par["post"] = r.below(2);
      for (int t = 0; t < T; t++) { std::vector<Op> v; int m = 2 + r.below(5), h = 0; for (int i = 0; i < m; i++) { Op p; p.o = h && r.chance(50) ? "free" : "alloc"; h += p.o == "alloc" ? 1 : -1; p.k = r.below(4); v.push_back(p); } s.thr.push_back(v); }
    } else {
      s.par["same"] = r.chance(60); s.par["fill"] = r.chance(20) ? 15 + r.below(7) : 0;
      int W = 1 + r.chance(25);
      for (int t = 0; t < T; t++) {
        std::vector<Op> v; int m = 2 + r.below(4);
        if (t < W) for (int i = 0; i < 1 + (int)r.below(2); i++) { Op p; p.o = "w"; v.push_back(p); }
        else for (int i = 0; i < m; i++) { static const char* k[] = {"rd", "rd", "rd", "park", "reg"}; Op p; p.o = k[r.below(5)]; p.k = r.below(3); v.push_back(p); }
        s.thr.push_back(v);
      }
    }
  }
  std::string header(const Scn& s) {
    std::vector<long> iv; if (kd == "lock") iv.assign(s.par.at("n"), 1); else iv.assign(1, kd == "slab" ? s.par.at("pre") : 0);
    return init_hdr(iv);
  }
  size_t at(int i) { return i == 0 ? 0 : i == 1 ? 8 : i == 2 ? osz / 16 * 8 : osz - 8; }
  void stamp(void* p, int t) { for (int i = 0; i < 4; i++) *(volatile uint64_t*)((char*)p + at(i)) = 0x4040404040404040ull + t; }
  bool stamped(void* p, int t) { bool ok = true; for (int i = 0; i < 4; i++) ok &= *(volatile uint64_t*)((char*)p + at(i)) == 0x4040404040404040ull + t; return ok; }
  void* take(int t) {
    void* p = safe ? slab_alloc_safe(sl) : slab_alloc_unsafe(sl); if (!p) return p;
    int id; { vs::NoSwitch ns; auto it = ids.find(p); if (it == ids.end()) it = ids.emplace(p, 1 + (int)ids.size()).first; id = it->second; }
    acq(t, id, true); stamp(p, t); return p;
  }
  bool give(int t, void* p) {
    bool ok = stamped(p, t);
    int id; { vs::NoSwitch ns; id = ids[p]; }
    rel(t, id); if (safe) slab_free_safe(sl, p); else slab_free_unsafe(sl, p); return ok;
  }
  void setup(const Scn& s) {
    if (kd == "lock") for (int k = 0; k < 2; k++) { spinlock_init(&sp[k]); rwlock_init(&rw[k]); mutex_init(&mx[k]); c[k].a = c[k].b = 1; }
    else if (kd == "slab") {
      pf.on = true; osz = s.par.at("osz"); sl = slab_create(osz, 4096); safe = false;
      if (s.par.at("res")) slab_reserve_unsafe(sl, s.par.at("res") * 3);
      for (int i = 0; i < s.par.at("pre"); i++) left[8].push_back(take(8));
      safe = true;
    } else {
      cur = 1; pthread_mutex_init(&wl, nullptr); q = qsbr_create(); sid = -1; same = s.par.at("same"); fill.clear();
      for (int i = 0; i < s.par.at("fill"); i++) { qsbr_ref* f = mkref(); if (!qsbr_register(q, f)) { free(f); break; } qsbr_park(f); fill.push_back(f); }
    }
  }
  // a reference of its own allocation, in the same shard as the others if possible
  qsbr_ref* mkref() {
    vs::NoSwitch ns; std::vector<void*> no; qsbr_ref* p;
    for (int i = 0;; i++) { p = (qsbr_ref*)malloc(sizeof *p); int x = crc32c_u64(0, (u64)p) & 31; if (!same || sid < 0 || x == sid || i > 100) { sid = x; break; } no.push_back(p); }
    for (auto x : no) free(x);
    return p;
  }
  void lockop(int t, const Op& o, int cfg) {
    int k = o.k; Cell& x = c[k]; rwlock* l = &rw[k];
    auto un = [&] { if (cfg == 0) spinlock_unlock(&sp[k]); else if (cfg == 1) mutex_unlock(&mx[k]); else rwlock_unlock_write(l); };
    if (o.o == "x" || o.o == "d") {
      call(t, "addo", k, 1);
      if (cfg == 0) spinlock_lock(&sp[k]); else if (cfg == 1) mutex_lock(&mx[k]); else if (o.hi % 2) rwlock_lock_write(l); else rwlock_lock_write_hp(l);
      acq(t, k, true); long r = bump(x); rel(t, k);
      if (o.o == "x") un();
      else { rwlock_write_to_read(l); acq(t, k, false); if (rdc(x) != r + 1) r = -7; rel(t, k); rwlock_unlock_read(l); }
      ret(t, r);
    } else if (o.o == "t") {
      call(t, "addm", k, 1); bool g;
      if (cfg == 0) g = spinlock_trylock(&sp[k]); else if (cfg == 1) g = mutex_trylock(&mx[k]);
      else switch (o.hi % 4) { case 0: g = rwlock_trylock_write(l); break; case 1: g = rwlock_trylock_write_hp(l); break; case 2: g = rwlock_trylock_write_nr(l, 4); break; default: g = rwlock_trylock_write_hp_nr(l, 4); }
      long r = 0; if (g) { acq(t, k, true); r = bump(x); rel(t, k); un(); r = r < 0 ? r : r + 1; }
      ret(t, r);
    } else {
      call(t, "get", k); bool g = true; if (o.o == "s") rwlock_lock_read(l);
      else switch (o.hi % 3) { case 0: g = rwlock_trylock_read(l); break; case 1: g = rwlock_trylock_read_lp(l); break; default: g = rwlock_trylock_read_nr(l, 4); }
      long r = -2; if (g) { acq(t, k, false); r = rdc(x); rel(t, k); rwlock_unlock_read(l); }
      ret(t, r);
    }
  }
  void thread(int t, const Scn& s) {
    auto& ops = s.thr[t - 1];
    if (kd == "lock") { for (auto& o : ops) lockop(t, o, s.par.at("cfg")); return; }
    if (kd == "slab") {
      for (auto& o : ops) {
        if (o.o == "alloc") { call(t, "add", 0, 1); void* p = take(t); { vs::NoSwitch ns; left[t].push_back(p); } ret(t, p ? -2 : -7); }
        else { void* p; { vs::NoSwitch ns; int i = o.k % left[t].size(); p = left[t][i]; left[t].erase(left[t].begin() + i); } call(t, "add", 0, -1); bool ok = give(t, p); ret(t, ok ? -2 : -7); }
      }
      return;
    }
    qsbr_ref* me = mkref(); bool parked = false;
    if (!qsbr_register(q, me)) { free(me); return; }
    long held = -1;
    for (auto& o : ops) {
      if (held >= 0) { touch(); rel(t, held); held = -1; }
      if (o.o == "w") {
        qsbr_park(me); pthread_mutex_lock(&wl); qsbr_resume(me); uint64_t v = cur; cur = v + 1; qsbr_update(me, v + 1); qsbr_wait(q, v + 1);
        acq(t, (int)v, true); touch(); rel(t, (int)v); pthread_mutex_unlock(&wl);
      } else if (o.o == "park") { if (!parked) { qsbr_park(me); parked = true; } }
      else if (o.o == "reg") { if (parked) { qsbr_resume(me); parked = false; } qsbr_unregister(q, me); free(me); me = mkref(); if (!qsbr_register(q, me)) { free(me); return; } }
      else { if (parked) { qsbr_resume(me); parked = false; } uint64_t w = cur; qsbr_update(me, w); acq(t, (int)w, false); held = w; touch(); }
    }
    if (held >= 0) { touch(); rel(t, held); }
    if (parked) qsbr_resume(me);
    qsbr_unregister(q, me); free(me);
  }
  void finish(const Scn& s) {
    if (kd == "lock") {
      std::vector<long> m; int n = s.par.at("n"); for (int k = 0; k < n; k++) m.push_back(rdc(c[k]));
      fin(m); int cfg = s.par.at("cfg");
      for (int k = 0; k < n; k++) {
        Op o; o.k = k; o.o = "x"; o.hi = k; lockop(8, o, cfg);
        for (int j = 0; j < (cfg == 2 ? 4 : 1); j++) { call(8, "addo", k, 1); bool g = cfg == 0 ? spinlock_trylock(&sp[k]) : cfg == 1 ? mutex_trylock(&mx[k]) : j == 0 ? rwlock_trylock_write(&rw[k]) : j == 1 ? rwlock_trylock_write_hp(&rw[k]) : j == 2 ? rwlock_trylock_write_nr(&rw[k], 3) : rwlock_trylock_write_hp_nr(&rw[k], 3); long r = -7; if (g) { r = bump(c[k]); if (cfg == 0) spinlock_unlock(&sp[k]); else if (cfg == 1) mutex_unlock(&mx[k]); else rwlock_unlock_write(&rw[k]); } ret(8, r); }
        if (cfg == 2) for (int j = 0; j < 3; j++) { call(8, "get", k); bool g = j == 0 ? rwlock_trylock_read(&rw[k]) : j == 1 ? rwlock_trylock_read_lp(&rw[k]) : rwlock_trylock_read_nr(&rw[k], 3); ret(8, g ? rdc(c[k]) : -7); if (g) rwlock_unlock_read(&rw[k]); }
        if (cfg == 0) { spinlock_lock(&sp[k]); bool g = spinlock_trylock(&sp[k]); call(8, "get", k); ret(8, g ? -7 : rdc(c[k])); if (!g) spinlock_unlock(&sp[k]); }
        if (cfg == 2) {   // a latch held in either mode refuses exactly the conflicting attempts
          rwlock_lock_write(&rw[k]); bool bad = rwlock_trylock_read(&rw[k]) || rwlock_trylock_write(&rw[k]) || rwlock_trylock_write_hp(&rw[k]) || rwlock_trylock_read_lp(&rw[k]); rwlock_write_to_read(&rw[k]);
          bad = bad || rwlock_trylock_write(&rw[k]) || rwlock_trylock_write_nr(&rw[k], 2) || !rwlock_trylock_read(&rw[k]);
          if (!bad) { rwlock_unlock_read(&rw[k]); rwlock_unlock_read(&rw[k]); }
          call(8, "get", k); ret(8, bad ? -7 : rdc(c[k]));
        }
      }
    } else if (kd == "slab") {
      for (int t = 0; t < 9; t++) for (auto p : left[t]) { bool ok = stamped(p, t); call(t, "add", 0, 0); ret(t, ok ? -2 : -7); rel(t, ids[p]); }
      fin({(long)slab_get_nalloc(sl)});
      if (s.par.at("post")) { slab_free_all(sl); for (int t = 0; t < 9; t++) left[t].clear(); call(8, "upsv", 0, 0); ret(8, -2); } else for (int t = 0; t < 9; t++) for (auto p : left[t]) acq(t, ids[p], true);
      for (int j = 0; j < 2; j++) {                 // at rest both interfaces hand out free objects
        safe = j; std::vector<void*> g; int n = 2 + s.par.at("pre");
        for (int i = 0; i < n; i++) { call(8, "add", 0, 1); void* p = take(8); g.push_back(p); ret(8, p ? -2 : -7); }
        call(8, "get", 0); ret(8, slab_get_nalloc(sl));
        for (auto p : g) { call(8, "add", 0, -1); bool ok = give(8, p); ret(8, ok ? -2 : -7); }
        call(8, "get", 0); ret(8, slab_get_nalloc(sl));
      }
    } else fin({0});
  }
  void teardown(const Scn& s) {
    if (kd == "slab") { slab_destroy(sl); ids.clear(); for (auto& l : left) l.clear(); }
    else if (kd == "qsbr") { for (auto f : fill) { qsbr_unregister(q, f); free(f); } fill.clear(); qsbr_destroy(q); }
  }
};
int main(int c, char** v) { return conc_main<Ad>(c, v); }
