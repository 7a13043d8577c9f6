// Latches: exclusive, shared, optimistic and upgraded sections around a two-word counter
#include "rt/mapgen.h"
#include "lock.h"
#include <memory>
using namespace vd;
#define DECL(n) LockIf* mk_lock_##n();
DECL(0) DECL(1) DECL(2) DECL(3) DECL(4) DECL(5) DECL(6) DECL(7) DECL(8) DECL(9) DECL(10) DECL(11) DECL(12)
static LockIf* (*mks[])() = {mk_lock_0, mk_lock_1, mk_lock_2, mk_lock_3, mk_lock_4, mk_lock_5, mk_lock_6, mk_lock_7, mk_lock_8, mk_lock_9, mk_lock_10, mk_lock_11, mk_lock_12};
struct Cell { volatile long a; volatile long pad[7]; volatile long b; };
struct Ad {
  LockIf* L[2]; Cell c[2];
  // contexts: reused by the operations of a thread, as the index code reuses its queue nodes
  char* ctx[9];
  void gen(Rng& r, Scn& s, const std::string& kind) {
    // kind "opt": latches with optimistic reads; "rw": readers-writer latches
    static const int opt[] = {0, 0, 1, 2, 2, 9, 10, 11}, rw[] = {3, 4, 4, 4, 5, 5, 6, 7, 8, 12};
    int cfg = kind == "opt" ? opt[r.below(8)] : rw[r.below(10)];
    s.par["cfg"] = cfg; int nl = 1 + r.chance(20); s.par["n"] = nl;
    std::unique_ptr<LockIf> p(mks[cfg]());
    for (int k = 0; k < nl; k++) { Op o; o.o = "init"; o.k = k; o.v = 1; s.init.push_back(o); }
    int T = 2 + r.below(3), mm = r.chance(50) ? 3 : 8;
    for (int t = 0; t < T; t++) {
      std::vector<Op> v; int m = 1 + r.below(mm);
      for (int i = 0; i < m; i++) {
        Op o; o.k = r.below(nl); o.v = 1; o.hi = r.below(3);
        std::vector<const char*> c; if (p->has_x()) { c.push_back("x"); c.push_back("x"); } if (p->has_try()) c.push_back("t"); if (p->has_o()) { c.push_back("o"); c.push_back("o"); c.push_back("u"); } if (p->has_s()) { c.push_back("s"); c.push_back("s"); }
        o.o = c[r.below(c.size())]; v.push_back(o);
      }
      s.thr.push_back(v);
    }
  }
  long rd(int k) { long a = c[k].a, b = c[k].b; return a == b ? a : -7; }
  long bump(int k) { long a = c[k].a; c[k].a = a + 1; long b = c[k].b; c[k].b = b + 1; return a == b ? a : -7; }
  void doop(int t, const Op& o) {
    int k = o.k; LockIf* l = L[k]; void* q = ctx[t];
    if (o.o == "x") { call(t, "addo", k, 1); l->x_lock(q, o.hi); acq(t, k, true); long r = bump(k); rel(t, k); l->x_unlock(q, 0); ret(t, r); }
    else if (o.o == "t") { call(t, "addm", k, 1); long r = 0; if (l->try_x(q)) { acq(t, k, true); r = bump(k); rel(t, k); l->x_unlock(q, 0); r = r < 0 ? r : r + 1; } ret(t, r); }
    else if (o.o == "s") { call(t, "get", k); l->s_lock(q); acq(t, k, false); long r = rd(k); rel(t, k); l->s_unlock(q); ret(t, r); }
    else if (o.o == "o") {
      call(t, "get", k); long r = -2;
      for (int i = 0; i < 3; i++) { uint64_t v; if (!l->o_begin(v, o.hi == 1)) continue; long x = rd(k); if (l->o_valid(v)) { r = x; break; } }
      ret(t, r);
    } else if (o.o == "u") {
      call(t, "addm", k, 1); long r = 0; uint64_t v;
      if (l->o_begin(v, o.hi == 1)) { long x = rd(k); if (o.hi == 2 && !l->o_valid(v)) { ret(t, 0); return; } if (l->upgrade(v, q)) { acq(t, k, true); long y = bump(k); rel(t, k); l->x_unlock(q, v); r = x == y && x >= 0 ? x + 1 : -7; } }
      ret(t, r);
    }
  }
  std::string header(const Scn& s) { return map_header(s); }
  void setup(const Scn& s) {
    for (int k = 0; k < s.par.at("n"); k++) { L[k] = mks[s.par.at("cfg")](); c[k].a = c[k].b = 1; L[k]->peek = &c[k].b; }
    for (int t = 0; t < 9; t++) { ctx[t] = (char*)aligned_alloc(256, (L[0]->ctx_size() + 1023) / 256 * 256); if (L[0]->ctx_size() == 4) *(int*)ctx[t] = t * 3; }
  }
  void thread(int t, const Scn& s) { for (auto& o : s.thr[t - 1]) doop(t, o); }
  void finish(const Scn& s) {
    std::vector<long> m; int n = s.par.at("n"); for (int k = 0; k < n; k++) m.push_back(rd(k));
    fin(m);
    // at rest the latch must be free: every kind of section succeeds at once
    LockIf* p = L[0];
    for (int k = 0; k < n; k++) {
      for (const char* c : {"s", "x", "t", "o", "u"}) {
        if ((*c == 's' && !p->has_s()) || (*c == 'x' && !p->has_x()) || (*c == 't' && !p->has_try()) || ((*c == 'o' || *c == 'u') && !p->has_o())) continue;
        if (*c == 'o') { uint64_t v; call(4, "get", k); long r = -7; if (L[k]->o_begin(v, false)) { long x = rd(k); if (L[k]->o_valid(v)) r = x; } ret(4, r); continue; }
        if (*c == 't' || *c == 'u') { call(4, "addo", k, 1); uint64_t v = 0; bool ok = *c == 't' ? L[k]->try_x(ctx[4]) : L[k]->o_begin(v, false) && L[k]->upgrade(v, ctx[4]); long r = -7; if (ok) { r = bump(k); L[k]->x_unlock(ctx[4], v); } ret(4, r); continue; }
        Op o; o.o = c; o.k = k; o.hi = 0; doop(4, o);
      }
    }
  }
  void teardown(const Scn& s) { for (int k = 0; k < s.par.at("n"); k++) delete L[k]; for (int t = 0; t < 9; t++) free(ctx[t]); }
};
int main(int c, char** v) { return conc_main<Ad>(c, v); }
