// Wrapper of the STL-like ordered containers (STX/tlx and GoogleBTree) for harness/ordseq.h
#pragma once
#include "ordseq.h"
#include <memory>
#include <iterator>
namespace sq {
// key encodings: identifiers 0..K in the order of the container
struct KInt { typedef int T; static T enc(long k) { return (int)(k * 3 - 20); } static long dec(const T& x) { return (x + 20) / 3; } };
struct KRev { typedef int T; static T enc(long k) { return (int)(50 - k * 2); } static long dec(const T& x) { return (50 - x) / 2; } };
struct KU64 { typedef unsigned long T; static T enc(long k) { return (T)k << 40; } static long dec(const T& x) { return (long)(x >> 40); } };
struct KStr {   // prefixes of each other and strings longer than the small-string buffer; lexicographic order = identifier order
  typedef std::string T;
  static T enc(long k) { std::string s(1, (char)('a' + k / 8)); k %= 8; s += std::string(k / 2 * 11, 'm'); if (k & 1) s += "a"; return s; }
  static long dec(const T& x) { long n = x.size() - 1; long odd = x.size() > 1 && x.back() == 'a'; return (x[0] - 'a') * 8 + (n - odd) / 11 * 2 + odd; }
};
struct KStrRev { typedef std::string T; static T enc(long k) { return KStr::enc(199 - k); } static long dec(const T& x) { return 199 - KStr::dec(x); } };
enum Flav { MAP, SET, MMAP, MSET };
template <class C, class K, Flav F, bool tlx> struct OW : Base {
  static constexpr bool mp = F == MAP || F == MMAP, mu = F == MMAP || F == MSET;
  typedef typename C::iterator It; typedef typename C::const_iterator Cit;
  std::unique_ptr<C> c[2];
  OW(bool idx, bool lessok) { multi = mu; isset = !mp; c_er1 = c_bulk = tlx; c_erg = !tlx; c_less = lessok && tlx; c_idx = F == MAP && idx; c_set = mp; for (auto& x : c) x.reset(new C()); }
  static auto mkv(long k, long v) { if constexpr (mp) return std::pair<typename K::T, long>(K::enc(k), v); else return K::enc(k); }
  template <class I> static E2 rd(I i) { if constexpr (mp) return {K::dec(i->first), i->second}; else return {K::dec(*i), 0}; }
  template <class I, class X> static L pos(I i, X& x) { if (i == x.end()) return {0}; E2 e = rd(i); return {1, e.first, e.second}; }
  const C& cc(int b) { return *c[b]; }
  L ins(int b, long k, long v, int how) {
    C& x = *c[b]; long n = x.size(); typename C::value_type val(mkv(k, v)); It i; bool ok;
    It h = how & 1 ? x.lower_bound(K::enc((k + v) % 7)) : x.lower_bound(K::enc(k));   // hint: right or arbitrary
    if (v % 5 == 4) h = x.end();
    if (how < 2) {
      if constexpr (mu) { i = how == 0 ? x.insert(val) : [&] { if constexpr (tlx && mp) return x.insert2(K::enc(k), v); else return x.insert(val); }(); ok = true; }
      else { std::pair<It, bool> p = how == 0 ? x.insert(val) : [&]() -> std::pair<It, bool> { if constexpr (tlx && mp) return x.insert2(K::enc(k), v); else return x.insert(val); }(); i = p.first; ok = p.second; }
    } else { if constexpr (tlx && mp) i = how == 2 ? x.insert(h, val) : x.insert2(h, K::enc(k), v); else i = x.insert(h, val); ok = (long)x.size() == n + 1; }
    if (i == x.end()) return {0}; E2 e = rd(i); return {ok, e.first, e.second};
  }
  L run(int b, long k) { L r; C& x = *c[b]; for (It i = x.lower_bound(K::enc(k)); i != x.end() && rd(i).first == k; ++i) r.push_back(rd(i).second); return r; }
  void idx(int b, long k, long v) { if constexpr (F == MAP) { (*c[b])[K::enc(k)] = v; } }
  It nth(int b, long k, long j) { It i = c[b]->lower_bound(K::enc(k)); while (--j > 0) ++i; return i; }
  void set(int b, long k, long j, long v) { if constexpr (mp) nth(b, k, j)->second = v; }
  L find(int b, long k, bool cst) { return cst ? pos(cc(b).find(K::enc(k)), cc(b)) : pos(c[b]->find(K::enc(k)), *c[b]); }
  long has(int b, long k) { if constexpr (tlx) return cc(b).exists(K::enc(k)); else return cc(b).find(K::enc(k)) != cc(b).end(); }
  long cnt(int b, long k) { return cc(b).count(K::enc(k)); }
  L lb(int b, long k, bool cst) { return cst ? pos(cc(b).lower_bound(K::enc(k)), cc(b)) : pos(c[b]->lower_bound(K::enc(k)), *c[b]); }
  L ub(int b, long k, bool cst) { return cst ? pos(cc(b).upper_bound(K::enc(k)), cc(b)) : pos(c[b]->upper_bound(K::enc(k)), *c[b]); }
  template <class P, class X> static L eqv(P p, X& x, L& s) { for (auto i = p.first; i != p.second; ++i) s.push_back(rd(i).second); return pos(p.second, x); }
  L eq(int b, long k, L& s, bool cst) { return cst ? eqv(cc(b).equal_range(K::enc(k)), cc(b), s) : eqv(c[b]->equal_range(K::enc(k)), *c[b], s); }
  long era(int b, long k) { return c[b]->erase(K::enc(k)); }
  long er1(int b, long k) { if constexpr (tlx) return c[b]->erase_one(K::enc(k)); else return 0; }
  L eri(int b, long k, long j) { It i = nth(b, k, j); if constexpr (tlx) { c[b]->erase(i); return {}; } else { It n = c[b]->erase(i); return pos(n, *c[b]); } }
  void erg(int b, long k, long j) { if constexpr (!tlx) c[b]->erase(c[b]->lower_bound(K::enc(k)), c[b]->lower_bound(K::enc(j))); }
  L2 fwd(int b, int how) { L2 r; C& x = *c[b]; if (how == 0) for (It i = x.begin(); i != x.end(); ++i) r.push_back(rd(i)); else if (how == 1) for (Cit i = cc(b).begin(); i != cc(b).end(); ++i) r.push_back(rd(i)); else for (It i = x.begin(); i != x.end();) r.push_back(rd(i++)); return r; }
  L2 bwd(int b, int how) { L2 r; C& x = *c[b];
    if (how == 0) for (It i = x.end(); i != x.begin();) r.push_back(rd(--i));
    else if (how == 1) for (auto i = x.rbegin(); i != x.rend(); ++i) r.push_back(rd(i));
    else for (auto i = cc(b).rbegin(); i != cc(b).rend(); i++) r.push_back(rd(i));
    return r; }
  template <class I, class X> static L2 walk_(I i, X& x, Rng& r, L& p) {
    L2 s; auto now = [&] { s.push_back(i == x.end() ? E2(-1, -1) : rd(i)); }; now();
    for (int n = r.below(10); n > 0; n--) { bool up = r.chance(50); if (up ? i == x.end() : i == x.begin()) up = !up; if (up ? i == x.end() : i == x.begin()) break; bool post = r.chance(30); if (up) { if (post) i++; else ++i; } else { if (post) i--; else --i; } p.push_back(up ? 1 : -1); now(); }
    return s;
  }
  L2 walk(int b, long k, Rng& r, L& p) { return r.chance(50) ? walk_(c[b]->lower_bound(K::enc(k)), *c[b], r, p) : walk_(cc(b).lower_bound(K::enc(k)), cc(b), r, p); }
  L size(int b) { return {(long)cc(b).size(), cc(b).empty()}; }
  void clear(int b) { c[b]->clear(); }
  void swp(int b, int how) { if (!how) swptree(*c[b], *c[1 - b], 0); else c[b]->swap(*c[1 - b]); }
  template <class X> static auto swptree(X& x, X& y, int) -> decltype(x.tree_.swap(y.tree_)) { x.tree_.swap(y.tree_); }   // the tree's own swap
  template <class X> static void swptree(X& x, X& y, long) { x.swap(y); }
  void copy(int b, int how) { if (how == 0) *c[b] = *c[1 - b]; else if (how == 1) c[b].reset(new C(cc(1 - b))); else { C t(cc(1 - b)); *c[b] = t; *c[b] = *c[b]; } }
  auto vec(const L2& p) { std::vector<decltype(mkv(0, 0))> v; for (auto& q : p) v.push_back(mkv(q.first, q.second)); return v; }
  void bulk(int b, const L2& p) { if constexpr (tlx) { auto v = vec(p); c[b]->bulk_load(v.begin(), v.end()); } }
  void inr(int b, const L2& p, int how) { auto v = vec(p); if (how == 0 || c[b]->size()) c[b]->insert(v.begin(), v.end()); else c[b].reset(new C(v.begin(), v.end())); }
  long eqq(int b, int how) { return how ? cc(b) == cc(1 - b) : !(cc(b) != cc(1 - b)); }
  L less(int b, int how) { if constexpr (tlx) { const C &x = cc(b), &y = cc(1 - b); return how ? L{x < y, y < x} : L{!(x >= y), !(x <= y)}; } else return {}; }
  void chk(int b) { c[b]->verify(); }
};
}
