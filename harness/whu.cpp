// Wormhole without threads: the whunsafe_* interface under long operation sequences (leaf splits, merges to both sides, ranges)
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "seqlib.h"
#include "rt/keys.h"
extern "C" {
#include "lib.h"
#include "kv.h"
#include "wh.h"
#include "whslab.h"
}
using namespace sq;
#ifndef KPN
#define KPN 128
#endif
struct A {
  std::vector<std::string> keys; wormhole* map = nullptr; bool viaapi = false;
  static kref mk(const std::string& s) { kref r; kref_ref_hash32(&r, (const u8*)s.data(), s.size()); return r; }
  static std::string keyof(const kv* x) { return std::string((const char*)kv_kptr_c(x), x->klen); }
  int idof(const std::string& s) { auto it = std::lower_bound(keys.begin(), keys.end(), s); return it != keys.end() && *it == s ? (int)(it - keys.begin()) : -1; }
  static unsigned vlen(long v) { return 8 + 8 * (v % 3); }
  static void fillv(long v, uint64_t* w) { for (unsigned i = 0; i < vlen(v) / 8; i++) w[i] = v ^ (i & 1 ? ~0ull : 0); }
  static long readv(const void* p, unsigned len) { uint64_t w[4]; if (len < 8 || len > 24) return -7; memcpy(w, p, len); if (len != vlen(w[0])) return -7; for (unsigned i = 1; i < len / 8; i++) if (w[i] != (w[0] ^ (i & 1 ? ~0ull : 0))) return -7; return (long)w[0]; }
  static long kvv(const kv* x) { return readv(kv_vptr_c(x), x->vlen); }
  static kv* mkkv(const std::string& s, long v) { uint64_t t[4]; fillv(v, t); return kv_create(s.data(), s.size(), t, vlen(v)); }
  struct Arg { const std::string* key; long arg, old; };
  static kv* merge_cb(kv* c, void* p) { Arg* a = (Arg*)p; a->old = c ? kvv(c) : 0; if (!a->arg) return c; return mkkv(*a->key, a->arg); }
  static void inp_cb(kv* c, void* p) { Arg* a = (Arg*)p; if (!c) { a->old = 0; return; } a->old = kvv(c); if (a->arg) { uint64_t t[4]; fillv(a->arg, t); memcpy(kv_vptr(c), t, c->vlen); } }
  void gen(Rng& r, Scn& s, const std::string&) { s.par["seed"] = r.next() & 0x7fffffff; s.par["n"] = 20 + r.below(80); s.thr.resize(1); }
  std::string header(const Scn&) { return seq_hdr("ord", ",\"multi\":0"); }
  void setup(const Scn&) {} void finish(const Scn&) {} void teardown(const Scn&) {}
  void thread(int, const Scn& s) {
    Rng r(s.par.at("seed"));
    int n = r.chance(25) ? 4 + r.below(KPN) : KPN / 2 + r.below(KPN == 128 ? 300 : 170);
    if (r.chance(40)) { keys.clear(); for (auto x : vk::ints(r, n)) keys.push_back(vk::be64(x)); }
    else { keys = vk::strs(r, n, 3 + r.below(60), r.chance(30), false); if (r.chance(20)) keys[0] = ""; }
    n = keys.size();
    std::map<long, long> R; long nv = 1;
    viaapi = r.chance(30); map = r.chance(60) ? whunsafe_create(nullptr) : wormhole_create(nullptr);
    auto all = [&] { L2 o; for (auto& x : R) o.push_back(x); return o; };
    auto fwd = [&](int how) { L2 o; char b[512]; wormhole_iter* it = whunsafe_iter_create(map); std::string e; kref q = mk(e); if (how & 1) whunsafe_iter_seek(it, &q);
      int g = 0; while (wormhole_iter_valid(it) && g++ < 4000) { kv* x = how & 2 ? whunsafe_iter_next(it, (kv*)b) : wormhole_iter_peek(it, (kv*)b); o.push_back({idof(keyof(x)), kvv(x)}); if (!(how & 2)) whunsafe_iter_skip1(it); }
      if (wormhole_iter_peek(it, (kv*)b)) o.push_back({-5, -5});
      whunsafe_iter_destroy(it); return o; };
    // initial contents
    { int m = r.below(n + 1); std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; int ord = r.below(3); if (ord == 0) for (int i = n; i > 1; i--) std::swap(p[i - 1], p[r.below(i)]); if (ord == 1) std::reverse(p.begin(), p.end());
      bool ok = true; for (int i = 0; i < m; i++) { kv* x = mkkv(keys[p[i]], nv); ok &= whunsafe_put(map, x); free(x); R[p[i]] = nv++; }
      L2 q = all(); Ev e; e.o = "bulk"; e.p = js(q); L2 f = fwd(1); e.s = js(f); bad(f == q && ok); if (!ok) e.r = {0}; emit(e); }
    int bias = r.below(3); int steps = s.par.at("n"); long run = -1, dir = 1;
    for (int i = 0; i < steps; i++) {
      Ev e; if (run < 0 || r.chance(15)) { run = r.below(n); dir = r.chance(50) ? 1 : -1; } else run = ((run + dir) % n + n) % n;
      long k = e.k = r.chance(60) ? run : r.below(n); auto it = R.find(k); long old = it == R.end() ? 0 : it->second; kref q = mk(keys[k]); char buf[512];
      auto ent = [&](std::map<long, long>::iterator x) { return x == R.end() ? L{0} : L{1, x->first, x->second}; };
      int w = r.below(100), up = bias == 0 ? 30 : bias == 1 ? 55 : 15;
      if (w < up) {
        long v = e.v = nv++;
        switch (r.below(6)) {
          case 0: { e.o = "mrg"; if (r.chance(25)) v = e.v = 0; Arg a{&keys[k], v, -9}; bool ok = whunsafe_merge(map, &q, merge_cb, &a); e.r = {ok ? a.old : -8}; bad(e.r == L{old}); if (v) R[k] = v; break; }
          case 1: { e.o = "inp"; if (old) while (vlen(nv) != vlen(old)) nv++; v = e.v = r.chance(25) ? 0 : nv++; Arg a{&keys[k], v, -9}; bool f = whunsafe_inp(map, &q, inp_cb, &a); e.r = {f == (a.old != 0) ? a.old : -8}; bad(e.r == L{old}); if (v && old) R[k] = v; break; }
          default: { e.o = "put"; kv* x = mkkv(keys[k], v); bool ok = whunsafe_put(map, x); free(x); e.r = {ok}; bad(ok); R[k] = v; }
        }
      } else if (w < 60) {
        if (r.chance(22)) { long hi = r.chance(60) ? k + (long)r.below(6) : r.chance(50) ? k + (long)r.below(n) : (long)r.below(n); e.o = "dlr"; e.j = hi >= n ? n : hi; kref z; if (hi < n) z = mk(keys[hi]);
          e.r = {(long)whunsafe_delr(map, &q, hi < n ? &z : nullptr)}; long c = 0; for (auto x = R.lower_bound(k); x != R.end() && x->first < e.j;) { x = R.erase(x); c++; } bad(e.r == L{c}); }
        else { e.o = "del"; e.r = {whunsafe_del(map, &q)}; bad(e.r == L{old != 0}); R.erase(k); }
      } else switch (r.below(10)) {
        case 0: case 1: { e.o = "get"; kv* x = whunsafe_get(map, &q, r.chance(50) ? (kv*)buf : nullptr); e.r = {x ? (keyof(x) == keys[k] ? kvv(x) : -7) : 0}; if (x && (char*)x != buf) free(x); bad(e.r == L{old}); break; }
        case 2: e.o = "has"; e.r = {whunsafe_probe(map, &q)}; bad(e.r == L{old != 0}); break;
        case 3: { e.o = "lb"; wormhole_iter* t = whunsafe_iter_create(map); whunsafe_iter_seek(t, &q); kref o; if (wormhole_iter_valid(t)) { wormhole_iter_kref(t, &o); std::string ks((const char*)o.ptr, o.len); kvref vr; wormhole_iter_kvref(t, &vr); e.r = {1, idof(ks), readv(vr.vptr, vr.hdr.vlen)}; } else e.r = {0}; whunsafe_iter_destroy(t); bad(e.r == ent(R.lower_bound(k))); break; }
        case 4: case 5: case 6: { e.o = "walk"; wormhole_iter* t = whunsafe_iter_create(map); whunsafe_iter_seek(t, &q); L p; L2 o, x; auto pos = R.lower_bound(k); int m = r.below(8);
          for (int g = 0;; g++) {
            kv* c = wormhole_iter_peek(t, (kv*)buf); o.push_back(c ? E2(idof(keyof(c)), kvv(c)) : E2(-1, -1)); x.push_back(pos == R.end() ? E2(-1, -1) : E2(*pos));
            if (g >= m) break;
            long st = r.chance(50) ? 1 : r.chance(60) ? (long)r.below(6) : (long)r.below(KPN * 2);
            if (st == 1 && r.chance(40)) whunsafe_iter_skip1(t); else if (st == 1 && r.chance(40)) whunsafe_iter_next(t, (kv*)buf); else whunsafe_iter_skip(t, st);
            p.push_back(st); for (long a = 0; a < st && pos != R.end(); a++) ++pos;
          }
          whunsafe_iter_destroy(t); e.p = js(p); e.s = js(o); bad(o == x); break; }
        case 7: { e.o = "fwd"; L2 f = fwd(r.below(4)); e.s = js(f); bad(f == all()); break; }
        case 8: { // through an iterator
          wormhole_iter* t = whunsafe_iter_create(map); whunsafe_iter_seek(t, &q); Arg a{&keys[k], 0, -9}; auto pos = R.lower_bound(k);
          if (pos == R.end()) { e.o = "lb"; e.r = {wormhole_iter_valid(t)}; bad(e.r == L{0}); }
          else { while (vlen(nv) != vlen(pos->second)) nv++; a.arg = nv++; e.o = "put"; e.k = pos->first; e.v = a.arg; bool ok = wormhole_iter_inp(t, inp_cb, &a); e.r = {ok && a.old == pos->second}; bad(e.r == L{1}); pos->second = a.arg; }
          whunsafe_iter_destroy(t); break; }
        default: { if (!r.chance(10)) { i--; continue; } e.o = "clear"; wormhole_clean(map); R.clear(); }
      }
      emit(e);
    }
    Ev e; e.o = "fwd"; L2 f = fwd(3); e.s = js(f); bad(f == all()); emit(e);
    for (int k = 0; k < n; k++) { kref q = mk(keys[k]); if (whunsafe_probe(map, &q) != (R.count(k) != 0)) { Ev x; x.o = "has"; x.k = k; x.r = {whunsafe_probe(map, &q)}; bad(false); emit(x); } }
    wormhole_destroy(map); map = nullptr;
  }
};
int main(int c, char** v) { return vd::conc_main<A>(c, v); }
