// STX (tlx) heaps, LRU caches, ring buffer, splay trees and loser trees under random operation sequences
#include "seqlib.h"
#include <tlx/container/d_ary_heap.hpp>
#include <tlx/container/d_ary_addressable_int_heap.hpp>
#include <tlx/container/radix_heap.hpp>
#include <tlx/container/lru_cache.hpp>
#include <tlx/container/ring_buffer.hpp>
#include <tlx/container/splay_tree.hpp>
#include <tlx/container/loser_tree.hpp>
#include <memory>
#include <set>
#include <list>
using namespace sq;
static void o1(const char* o, long k, long v, const L& r, bool ok, long j = 0) { Ev e; e.o = o; e.k = k; e.v = v; e.r = r; e.j = j; bad(ok); emit(e); }

// ------------------------------------------------------------------------------------------------ priority queues
static long prio[256];
struct Less { bool operator()(int a, int b) const { return prio[a] < prio[b]; } };
struct More { bool operator()(int a, int b) const { return prio[a] > prio[b]; } };       // used with negated priorities
struct PqRef { std::map<long, long> m; long min() { long x = 1l << 60; for (auto& p : m) x = std::min(x, p.second); return x; } bool is(long id, long p) { return m.count(id) && m[id] == p && p == min(); } };
static std::string ents(const std::map<long, long>& m) { L2 l; for (auto& p : m) l.push_back({p.first, p.second}); return js(l); }
template <class H> static void addr_heap(Rng r, int n, int sign) {
  H h; PqRef R; int N = 3 + r.below(30), P = 1 + r.below(12);
  auto setp = [&](long id, long p) { prio[id] = sign * p; };
  auto ids = [&] { std::vector<unsigned> v; L s; for (int i = 0; i < N; i++) s.push_back(i); for (int c = r.below(N + 1); c > 0; c--) { int i = r.below(s.size()); v.push_back(s[i]); s.erase(s.begin() + i); } return v; };
  for (int i = 0; i < n; i++) {
    int k = r.below(N); long p = r.below(P);
    switch (r.below(14)) {
      case 0: case 1: case 2: if (R.m.count(k)) { o1("has", k, 0, {h.contains(k)}, h.contains(k)); break; } setp(k, p); if (r.chance(50)) h.push(k); else { const int c = k; h.push(c); } R.m[k] = p; o1("push", k, p, {}, true); break;
      case 3: if (!R.m.empty()) { int t = h.top(); o1("top", 0, 0, {t, sign * prio[t]}, R.is(t, sign * prio[t])); } break;
      case 4: case 5: if (!R.m.empty()) { int t = r.chance(60) ? h.extract_top() : [&] { int x = h.top(); h.pop(); return x; }(); o1("pop", 0, 0, {t, sign * prio[t]}, R.is(t, sign * prio[t])); R.m.erase(t); } break;
      case 6: if (R.m.count(k)) { h.remove(k); R.m.erase(k); o1("rem", k, 0, {}, true); } break;
      case 7: case 8: setp(k, p); h.update(k); R.m[k] = p; o1("upd", k, p, {}, true); break;
      case 9: { std::map<long, long> c; for (auto& x : R.m) if (r.chance(40)) { c[x.first] = r.below(P); } for (auto& x : c) { setp(x.first, x.second); R.m[x.first] = x.second; } h.update_all(); Ev e; e.o = "all"; e.p = ents(c); emit(e); break; }
      case 10: { auto v = ids(); std::map<long, long> c; for (int x : v) { long q = r.below(P); setp(x, q); c[x] = q; } int how = r.below(3); if (how == 0) h.build_heap(v); else if (how == 1) { std::list<int> l(v.begin(), v.end()); h.build_heap(l.begin(), l.end()); } else h.build_heap(std::move(v)); R.m = c; Ev e; e.o = "build"; e.p = ents(c); emit(e); break; }
      case 11: o1("has", k, 0, {h.contains(k)}, h.contains(k) == (bool)R.m.count(k)); break;
      case 12: { bool c = h.sanity_check(); o1("chk", 0, 0, {c}, c); break; }
      case 13: if (r.chance(30)) { h.clear(); R.m.clear(); o1("clear", 0, 0, {}, true); } else if (r.chance(50)) { H t(h); h.clear(); h = t; } o1("size", 0, 0, {(long)h.size(), h.empty()}, h.size() == R.m.size()); break;
    }
  }
  for (int k = 0; k < N; k++) o1("has", k, 0, {h.contains(k)}, h.contains(k) == (bool)R.m.count(k));
  while (h.size()) { int t = h.extract_top(); o1("pop", 0, 0, {t, sign * prio[t]}, R.is(t, sign * prio[t])); R.m.erase(t); }
  o1("size", 0, 0, {(long)h.size(), h.empty()}, R.m.empty());
}
template <class H> static void plain_heap(Rng r, int n, int sign) {     // items are identifiers ordered by prio[]
  H h; PqRef R; int N = 3 + r.below(40), P = 1 + r.below(12);
  auto setp = [&](long id, long p) { prio[id] = sign * p; };
  for (int i = 0; i < n; i++) {
    int k = r.below(N); long p = r.below(P);
    switch (r.below(10)) {
      case 0: case 1: case 2: case 3: if (R.m.count(k)) break; setp(k, p); if (r.chance(50)) h.push(k); else { const int c = k; h.push(c); } R.m[k] = p; o1("push", k, p, {}, true); break;
      case 4: case 5: if (!R.m.empty()) { int t = r.chance(60) ? h.extract_top() : [&] { int x = h.top(); h.pop(); return x; }(); o1("pop", 0, 0, {t, sign * prio[t]}, R.is(t, sign * prio[t])); R.m.erase(t); } break;
      case 6: if (!R.m.empty()) { int t = h.top(); o1("top", 0, 0, {t, sign * prio[t]}, R.is(t, sign * prio[t])); } break;
      case 7: { std::map<long, long> c; for (auto& x : R.m) if (r.chance(40)) c[x.first] = r.below(P); for (auto& x : c) { setp(x.first, x.second); R.m[x.first] = x.second; } h.update_all(); Ev e; e.o = "all"; e.p = ents(c); emit(e); break; }
      case 8: if (r.chance(50)) { std::vector<int> v; std::map<long, long> c; for (int x = 0; x < N; x++) if (r.chance(50)) v.push_back((x * 7 + 3) % N); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); for (size_t x = v.size(); x > 1; x--) std::swap(v[x - 1], v[r.below(x)]); for (int x : v) { long q = r.below(P); setp(x, q); c[x] = q; } int how = r.below(3); if (how == 0) h.build_heap(v); else if (how == 1) h.build_heap(v.begin(), v.end()); else h.build_heap(std::move(v)); R.m = c; Ev e; e.o = "build"; e.p = ents(c); emit(e); } break;
      case 9: { if (r.chance(15)) { h.clear(); R.m.clear(); o1("clear", 0, 0, {}, true); } bool c = h.sanity_check(); o1("chk", 0, 0, {c}, c); o1("size", 0, 0, {(long)h.size(), h.empty()}, h.size() == R.m.size()); break; }
    }
  }
  while (h.size()) { int t = h.extract_top(); o1("pop", 0, 0, {t, sign * prio[t]}, R.is(t, sign * prio[t])); R.m.erase(t); }
  o1("size", 0, 0, {(long)h.size(), h.empty()}, R.m.empty());
}
template <class T, unsigned Radix> static void radix_heap(Rng r, int n) {
  typedef tlx::RadixHeapPair<T, long, Radix> H; H h; PqRef R; long nid = 0;
  // candidate keys in ascending order; histories use their index as priority
  std::set<T> ks; int N = 6 + r.below(60);
  T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); if (r.chance(25)) ks.insert(lo); if (r.chance(25)) ks.insert(hi);
  for (int tries = 0; (int)ks.size() < N && tries < 400; tries++) { T b = r.chance(50) || ks.empty() ? (T)(r.next() >> r.below(64)) : (T)(*std::next(ks.begin(), r.below(ks.size())) + (T)r.below(r.chance(50) ? 4 : 90)); ks.insert(b); }
  std::vector<T> key(ks.begin(), ks.end()); N = key.size();
  auto rank = [&](T x) { return (long)(std::lower_bound(key.begin(), key.end(), x) - key.begin()); };
  long front = 0;
  for (int i = 0; i < n; i++) {
    int w = r.below(12);
    if (w < 6) {
      long span = N - front; long q = front + (r.chance(50) ? r.below(span) : r.below(std::min(span, 4l))); T x = key[q]; long id = nid++; R.m[id] = q;
      std::pair<T, long> v(x, id);
      switch (r.below(5)) { case 0: h.push(v); break; case 1: h.emplace(x, x, id); break; case 2: h.emplace_keyfirst(x, id); break; case 3: h.push_to_bucket(h.get_bucket(v), v); break; default: h.emplace_in_bucket(h.get_bucket_key(x), x, id); }
      o1("push", id, q, {}, true);
    } else if (R.m.empty()) { o1("size", 0, 0, {(long)h.size(), h.empty()}, h.size() == 0); if (r.chance(20)) { h.clear(); front = 0; o1("clear", 0, 0, {}, true); } }
    else if (w < 9) {
      if (r.chance(60)) { auto t = h.top(); long q = rank(t.first); front = q; o1("top", 0, 0, {t.second, q}, R.is(t.second, q)); h.pop(); o1("pop", 0, 0, {t.second, q}, R.is(t.second, q)); R.m.erase(t.second); }
      else { long q = R.min(); front = q; h.pop(); o1("popn", 0, 0, {}, true); auto it = R.m.begin(); for (; it != R.m.end() && it->second != q; ++it); if (it != R.m.end()) R.m.erase(it); /* which one is unknown: resynchronise on size only */
        // drain to a known state
        while (!R.m.empty() && h.size()) { typename H::bucket_data_type b; h.swap_top_bucket(b); Ev e; e.o = "bucket"; L ids; for (auto& x : b) ids.push_back(x.second); std::sort(ids.begin(), ids.end()); long pr = rank(b[0].first); e.r = {pr}; e.s = js(ids); for (auto& x : b) bad(rank(x.first) == pr); bad(pr == R.min() || ids.size() == 1 || pr == q); for (auto id : ids) R.m.erase(id); for (auto it2 = R.m.begin(); it2 != R.m.end();) if (it2->second <= pr) it2 = R.m.erase(it2); else ++it2; front = pr; emit(e); }
      }
    } else if (w == 9) { long q = rank(h.peak_top_key()); o1("peak", 0, 0, {q}, q == R.min()); }
    else if (w == 10) { typename H::bucket_data_type b; h.swap_top_bucket(b); L ids; long pr = b.empty() ? -1 : rank(b[0].first); bool ok = !b.empty() && pr == R.min(); for (auto& x : b) { ok = ok && R.is(x.second, pr) && rank(x.first) == pr; ids.push_back(x.second); } for (auto id : ids) R.m.erase(id); ok = ok && (R.m.empty() || R.min() > pr); std::sort(ids.begin(), ids.end()); Ev e; e.o = "bucket"; e.r = {pr}; e.s = js(ids); bad(ok); emit(e); front = pr < 0 ? front : pr; }
    else { o1("size", 0, 0, {(long)h.size(), h.empty()}, h.size() == R.m.size()); if (r.chance(10)) { h.clear(); R.m.clear(); front = 0; o1("clear", 0, 0, {}, true); } else if (r.chance(30)) { H t(h); h.clear(); h = t; } }
  }
  while (h.size() && !R.m.empty()) { auto t = h.top(); long q = rank(t.first); o1("top", 0, 0, {t.second, q}, R.is(t.second, q)); h.pop(); o1("pop", 0, 0, {t.second, q}, R.is(t.second, q)); R.m.erase(t.second); }
  o1("size", 0, 0, {(long)h.size(), h.empty()}, R.m.empty() && !h.size());
}
static void pq(int c, Rng r, int n) {
  switch (c) {
    case 0: return addr_heap<tlx::d_ary_addressable_int_heap<unsigned, 2, Less>>(r, n, 1);
    case 1: return addr_heap<tlx::d_ary_addressable_int_heap<unsigned, 3, Less>>(r, n, 1);
    case 2: return addr_heap<tlx::d_ary_addressable_int_heap<unsigned, 4, More>>(r, n, -1);
    case 3: return plain_heap<tlx::d_ary_heap<int, 2, Less>>(r, n, 1);
    case 4: return plain_heap<tlx::d_ary_heap<int, 3, More>>(r, n, -1);
    case 5: return plain_heap<tlx::d_ary_heap<int, 5, Less>>(r, n, 1);
    case 6: return radix_heap<unsigned, 8>(r, n);
    case 7: return radix_heap<int, 16>(r, n);
    case 8: return radix_heap<unsigned long, 64>(r, n);
    case 9: return radix_heap<long, 2>(r, n);
    case 10: return radix_heap<short, 4>(r, n);
    default: return radix_heap<unsigned char, 8>(r, n);
  }
}
// ------------------------------------------------------------------------------------------------ LRU caches
static std::string sk(long k) { return std::string(k % 3 * 10, 'q') + std::to_string(k); }
static long ks(const std::string& s) { return atol(s.c_str() + s.find_first_not_of('q')); }
struct KI { typedef long T; static T enc(long k) { return k; } static long dec(const T& x) { return x; } };
struct KS { typedef std::string T; static T enc(long k) { return sk(k); } static long dec(const T& x) { return ks(x); } };
template <class C, class K, bool map> static void lru(Rng r, int n) {
  C c; L2 R; int N = 2 + r.below(12); long nv = 1;
  auto at = [&](long k) { for (size_t i = 0; i < R.size(); i++) if (R[i].first == k) return (long)i; return -1l; };
  for (int i = 0; i < n; i++) {
    long k = r.below(N), p = at(k);
    auto front = [&] { if (p >= 0) { E2 x = R[p]; R.erase(R.begin() + p); R.insert(R.begin(), x); } };
    switch (r.below(11)) {
      case 0: case 1: case 2: { long v = map ? nv++ : 0; if constexpr (map) c.put(K::enc(k), v); else c.put(K::enc(k)); if (p >= 0) R.erase(R.begin() + p); R.insert(R.begin(), {k, v}); o1("put", k, v, {}, true); break; }
      case 3: case 4: { long x; if (r.chance(50)) x = c.touch_if_exists(K::enc(k)); else { x = 1; try { c.touch(K::enc(k)); } catch (std::range_error&) { x = 0; } } o1("touch", k, 0, {x}, x == (p >= 0)); front(); break; }
      case 5: { long x; if (r.chance(50)) x = c.erase_if_exists(K::enc(k)); else { x = 1; try { c.erase(K::enc(k)); } catch (std::range_error&) { x = 0; } } o1("erase", k, 0, {x}, x == (p >= 0)); if (p >= 0) R.erase(R.begin() + p); break; }
      case 6: { long x = c.exists(K::enc(k)); o1("has", k, 0, {x}, x == (p >= 0)); break; }
      case 7: if constexpr (map) { L x; try { x = {1, c.get(K::enc(k))}; } catch (std::range_error&) { x = {0}; } o1("get", k, 0, x, x == (p >= 0 ? L{1, R[p].second} : L{0})); } break;
      case 8: if constexpr (map) { L x; try { x = {1, c.get_touch(K::enc(k))}; } catch (std::range_error&) { x = {0}; } o1("gett", k, 0, x, x == (p >= 0 ? L{1, R[p].second} : L{0})); front(); } break;
      case 9: if (!R.empty() && (r.chance(50) || (int)R.size() > N / 2)) { L x; if constexpr (map) { auto q = c.pop(); x = {K::dec(q.first), q.second}; } else x = {K::dec(c.pop()), 0}; o1("pop", 0, 0, x, x == L{R.back().first, R.back().second}); R.pop_back(); } break;
      case 10: if (r.chance(15)) { c.clear(); R.clear(); o1("clear", 0, 0, {}, true); } o1("size", 0, 0, {(long)c.size(), c.size() == 0}, c.size() == R.size()); break;
    }
  }
  while (c.size() && !R.empty()) { L x; if constexpr (map) { auto q = c.pop(); x = {K::dec(q.first), q.second}; } else x = {K::dec(c.pop()), 0}; o1("pop", 0, 0, x, x == L{R.back().first, R.back().second}); R.pop_back(); }
  o1("size", 0, 0, {(long)c.size(), c.size() == 0}, c.size() == 0 && R.empty());
}
static void lru_(int c, Rng r, int n) {
  switch (c) { case 0: return lru<tlx::LruCacheSet<long>, KI, false>(r, n); case 1: return lru<tlx::LruCacheMap<long, long>, KI, true>(r, n); case 2: return lru<tlx::LruCacheSet<std::string>, KS, false>(r, n); default: return lru<tlx::LruCacheMap<std::string, long>, KS, true>(r, n); }
}
// ------------------------------------------------------------------------------------------------ ring buffer
struct Val {      // element whose lifetime is observable
  static long live; static bool broken; long* p; Val* self;
  explicit Val(long v = -1) : p(new long(v)), self(this) { live++; }
  Val(const Val& o) : p(new long(o.get())), self(this) { live++; }
  Val(Val&& o) : p(new long(o.get())), self(this) { live++; }
  Val& operator=(const Val& o) { chk(); *p = o.get(); return *this; }
  ~Val() { chk(); live--; self = nullptr; delete p; p = nullptr; }
  void chk() const { if (self != this) broken = true; }
  long get() const { chk(); return self == this ? *p : -99; }
};
long Val::live; bool Val::broken;
static long gv(const Val& v) { return v.get(); } static long gv(long v) { return v; }
template <class V> static void ring(Rng r, int n) {
  Val::live = 0; Val::broken = false;
  typedef tlx::RingBuffer<V> B; std::unique_ptr<B> c[2]; std::vector<long> R[2]; long nv = 1;
  auto mx = [&] { return (long)r.below(10); };
  for (auto& x : c) { long m = mx(); if (r.chance(50)) x.reset(new B(m)); else { x.reset(new B()); x->allocate(m); } }
  for (int i = 0; i < n; i++) {
    int b = r.below(4) == 0; B& x = *c[b]; auto& q = R[b]; Ev e; e.b = b; bool full = q.size() >= x.max_size(), emp = q.empty();
    switch (r.below(17)) {
      case 0: case 1: case 2: if (full) continue; e.o = "pb"; e.v = nv++; { V t(e.v); int h = r.below(3); if (h == 0) x.push_back(t); else if (h == 1) x.push_back(std::move(t)); else x.emplace_back(e.v); } q.push_back(e.v); break;
      case 3: case 4: if (full) continue; e.o = "pf"; e.v = nv++; { V t(e.v); int h = r.below(3); if (h == 0) x.push_front(t); else if (h == 1) x.push_front(std::move(t)); else x.emplace_front(e.v); } q.insert(q.begin(), e.v); break;
      case 5: case 6: if (emp) continue; e.o = "popf"; x.pop_front(); q.erase(q.begin()); break;
      case 7: case 8: if (emp) continue; e.o = "popb"; x.pop_back(); q.pop_back(); break;
      case 9: if (emp) continue; e.o = "at"; e.k = r.below(q.size()); e.r = {gv(r.chance(50) ? x[e.k] : ((const B&)x)[e.k])}; bad(e.r[0] == q[e.k]); break;
      case 10: if (emp) continue; e.o = "ends"; e.r = {gv(x.front()), gv(r.chance(50) ? x.back() : ((const B&)x).back())}; bad(e.r == L{q.front(), q.back()}); break;
      case 11: if (emp) continue; e.o = "put"; e.k = r.below(q.size()); e.v = nv++; x[e.k] = V(e.v); q[e.k] = e.v; break;
      case 12: { std::vector<V> o; L l; if (r.chance(70)) { e.o = "all"; x.copy_to(&o); } else { e.o = "take"; x.move_to(&o); } for (auto& y : o) l.push_back(gv(y)); e.s = js(l); bad(l == q); if (e.o == "take") q.clear(); break; }
      case 13: e.o = "clear"; { int h = r.below(3); if (h == 0) x.clear(); else if (h == 1) { x.deallocate(); x.allocate(mx()); } else { x.deallocate(); x = B(mx()); } } q.clear(); break;
      case 14: e.o = "copy"; { int h = r.below(4); if (h == 0) x = *c[1 - b]; else if (h == 1) c[b].reset(new B(*c[1 - b])); else if (h == 2) { x.deallocate(); x = *c[1 - b]; } else { B t(*c[1 - b]); x = t; x = x; } } q = R[1 - b]; break;
      case 15: e.o = "move"; { int h = r.below(2); if (h == 0) x = std::move(*c[1 - b]); else c[b].reset(new B(std::move(*c[1 - b]))); if (r.chance(50)) c[1 - b]->allocate(mx()); else *c[1 - b] = B(mx()); } q = R[1 - b]; R[1 - b].clear(); break;
      default: e.o = "swap"; if (r.chance(50)) continue; std::swap(*c[0], *c[1]); std::swap(R[0], R[1]); break;
    }
    emit(e);
    if (r.chance(40)) { Ev s; s.b = b; s.o = "size"; s.r = {(long)c[b]->size(), c[b]->empty()}; bad(c[b]->size() == R[b].size()); emit(s); }
    if (!std::is_same<V, long>::value && r.chance(60)) { Ev s; s.o = "live"; s.r = {Val::live, !Val::broken}; bad(!Val::broken && Val::live == (long)(R[0].size() + R[1].size())); emit(s); }
  }
  for (int b = 0; b < 2; b++) { Ev e; e.b = b; e.o = "all"; L l; for (size_t i = 0; i < c[b]->size(); i++) l.push_back(gv((*c[b])[i])); e.s = js(l); bad(l == R[b]); emit(e); }
  for (int b = 0; b < 2; b++) { c[b].reset(); Ev e; e.b = b; e.o = "clear"; emit(e); }
  if (!std::is_same<V, long>::value) { Ev s; s.o = "live"; s.r = {Val::live, !Val::broken}; bad(!Val::broken && Val::live == 0); emit(s); }
}
// ------------------------------------------------------------------------------------------------ splay trees
template <class C, class K, bool multi> static void splay(Rng r, int n) {
  C c; std::multiset<long> R; int N = 2 + r.below(multi ? 8 : 24);
  for (int i = 0; i < n; i++) {
    long k = r.below(N); bool p = R.count(k);
    switch (r.below(12)) {
      case 0: case 1: case 2: case 3: { long x = c.insert(K::enc(k)); o1("ins", k, 0, {x}, x == (multi || !p)); if (multi || !p) R.insert(k); break; }
      case 4: case 5: { long x = c.erase(K::enc(k)); o1("era", k, 0, {x}, x == p); if (p) R.erase(R.find(k)); break; }
      case 6: { auto* nd = c.find(K::enc(k)); if (nd) { long d = K::dec(nd->key); o1("find", k, 0, {d}, true); if (r.chance(50)) { long x = c.erase(nd); o1("era", d, 0, {x}, x == 1); if (R.count(d)) R.erase(R.find(d)); else bad(false); } } else o1("find", k, 0, {}, R.empty()); break; }
      case 7: case 8: { long x = c.exists(K::enc(k)); o1("has", k, 0, {x}, x == p); break; }
      case 9: { L l; c.traverse_preorder([&](const typename K::T& x) { l.push_back(K::dec(x)); }); Ev e; e.o = "fwd"; e.s = js(l); e.r = {multi || c.check()}; bad(l == L(R.begin(), R.end()) && e.r[0]); emit(e); break; }
      case 10: o1("size", 0, 0, {(long)c.size(), c.empty()}, c.size() == R.size()); break;
      default: if (r.chance(20)) { c.clear(); R.clear(); o1("clear", 0, 0, {}, true); } break;
    }
  }
  L l; c.traverse_preorder([&](const typename K::T& x) { l.push_back(K::dec(x)); }); Ev e; e.o = "fwd"; e.s = js(l); e.r = {1}; bad(l == L(R.begin(), R.end())); emit(e);
}
struct KG { typedef long T; static T enc(long k) { return -k; } static long dec(const T& x) { return -x; } };
struct KO { typedef std::string T; static T enc(long k) { return std::string(18, (char)('a' + k)); } static long dec(const T& x) { return x[0] - 'a'; } };
static void splay_(int c, Rng r, int n) {
  switch (c) { case 0: return splay<tlx::splay_set<long>, KI, false>(r, n); case 1: return splay<tlx::splay_multiset<long>, KI, true>(r, n); case 2: return splay<tlx::splay_set<std::string>, KO, false>(r, n); case 3: return splay<tlx::splay_multiset<long, std::greater<long>>, KG, true>(r, n); default: return splay<tlx::splay_set<long, std::greater<long>>, KG, false>(r, n); }
}
// ------------------------------------------------------------------------------------------------ loser trees
struct El { long k; int src; bool operator<(const El& o) const { return k < o.k; } };
static long neg_cmp;
struct ElG { bool operator()(const El& a, const El& b) const { return a.k > b.k; } };
template <class T, bool guarded, int sign, class Mk> static void loser(Rng r, bool stable, Mk mk) {
  int K = 1 + r.below(9), P = 1 + r.below(8); std::vector<std::vector<El>> in(K); size_t tot = 0;
  for (int i = 0; i < K; i++) { int n = r.below(5) + (guarded ? 0 : 0); for (int j = 0; j < n; j++) in[i].push_back({(long)r.below(P), i}); std::sort(in[i].begin(), in[i].end()); tot += n; }
  std::string p = "["; for (int i = 0; i < K; i++) { L l; for (auto& x : in[i]) l.push_back(x.k); p += (i ? "," : "") + js(l); } p += "]";
  for (auto& v : in) for (auto& x : v) x.k *= sign;
  Ev e; e.o = "init"; e.p = p; emit(e);
  static El sent; sent = {sign * 1000, -1}; std::unique_ptr<T> t(mk(K, sent)); std::vector<size_t> at(K, 0);
  auto head = [&](int i) -> const El* { return at[i] < in[i].size() ? &in[i][at[i]] : guarded ? nullptr : &sent; };
  for (int i = 0; i < K; i++) t->insert_start(head(i), i, head(i) == nullptr);
  t->init();
  for (size_t n = 0; n < tot; n++) {
    unsigned s = t->min_source(); if (s >= (unsigned)K || at[s] >= in[s].size()) { Ev x; x.o = "min"; x.r = {(long)(int)s, -1}; bad(false); emit(x); return; }
    long k = in[s][at[s]].k * sign; bool ok = true; for (int i = 0; i < K; i++) if (at[i] < in[i].size()) { long q = in[i][at[i]].k * sign; if (q < k || (stable && q == k && i < (int)s)) ok = false; }
    o1("min", 0, 0, {(long)s, k}, ok); at[s]++; t->delete_min_insert(head(s), head(s) == nullptr);
  }
}
template <bool St> static void loser_(int c, Rng r) {
  typedef std::less<El> C;
  switch (c) {
    case 0: return loser<tlx::LoserTreeCopy<St, El, C>, true, 1>(r, St, [](int k, El&) { return new tlx::LoserTreeCopy<St, El, C>(k); });
    case 1: return loser<tlx::LoserTreePointer<St, El, C>, true, 1>(r, St, [](int k, El&) { return new tlx::LoserTreePointer<St, El, C>(k); });
    case 2: return loser<tlx::LoserTreeCopyUnguarded<St, El, C>, false, 1>(r, St, [](int k, El& s) { return new tlx::LoserTreeCopyUnguarded<St, El, C>(k, s); });
    case 3: return loser<tlx::LoserTreePointerUnguarded<St, El, C>, false, 1>(r, St, [](int k, El& s) { return new tlx::LoserTreePointerUnguarded<St, El, C>(k, s); });
    case 4: return loser<tlx::LoserTree<St, El, ElG>, true, -1>(r, St, [](int k, El&) { return new tlx::LoserTree<St, El, ElG>(k); });
    default: return loser<tlx::LoserTreeUnguarded<St, El, ElG>, false, -1>(r, St, [](int k, El& s) { return new tlx::LoserTreeUnguarded<St, El, ElG>(k, s); });
  }
}
struct A {
  std::string kind; int ncfg() { return kind == "pq" ? 12 : kind == "lru" ? 4 : kind == "ring" ? 2 : kind == "splay" ? 5 : 12; }
  void gen(Rng& r, Scn& s, const std::string& k) { kind = k; s.par["cfg"] = r.below(ncfg()); s.par["seed"] = r.next() & 0x7fffffff; s.par["n"] = 10 + r.below(80); s.thr.resize(1); }
  std::string header(const Scn& s) { long c = s.par.at("cfg"); return seq_hdr(kind, ",\"cfg\":" + std::to_string(c) + ",\"multi\":" + std::to_string(kind == "splay" && (c == 1 || c == 3)) + ",\"stable\":" + std::to_string(c >= 6)); }
  void setup(const Scn&) {}
  void thread(int, const Scn& s) {
    Rng r(s.par.at("seed")); int c = s.par.at("cfg"), n = s.par.at("n");
    if (kind == "pq") pq(c, r, n); else if (kind == "lru") lru_(c, r, n); else if (kind == "ring") { if (c) ring<Val>(r, n); else ring<long>(r, n); } else if (kind == "splay") splay_(c, r, n); else if (c >= 6) loser_<true>(c - 6, r); else loser_<false>(c, r);
  }
  void finish(const Scn&) {} void teardown(const Scn&) {}
};
int main(int argc, char** argv) { return vd::conc_main<A>(argc, argv); }
