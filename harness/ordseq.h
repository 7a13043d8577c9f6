// Random operation sequences over a pair of ordered containers behind the wrapper W
#pragma once
#include "seqlib.h"
namespace sq {
struct Base {
  // every method works on container b; entries are <<key id, value>>; nothing is checked here
  virtual ~Base() {}
  bool multi = false, isset = false, c_er1 = false, c_erg = false, c_bulk = false, c_less = false, c_idx = false, c_eri_ret = false, c_set = false;
  virtual L ins(int b, long k, long v, int how) = 0;          // <<ok, key, value of returned position>>
  virtual L run(int b, long k) = 0;                            // values of the entries with key k
  virtual void idx(int b, long k, long v) {}
  virtual void set(int b, long k, long j, long v) {}
  virtual L find(int b, long k, bool cst) = 0; virtual long has(int b, long k) = 0; virtual long cnt(int b, long k) = 0;
  virtual L lb(int b, long k, bool cst) = 0; virtual L ub(int b, long k, bool cst) = 0; virtual L eq(int b, long k, L& s, bool cst) = 0;
  virtual long era(int b, long k) = 0; virtual long er1(int b, long k) { return 0; } virtual L eri(int b, long k, long j) = 0; virtual void erg(int b, long k, long j) {}
  virtual L2 fwd(int b, int how) = 0; virtual L2 bwd(int b, int how) = 0;
  virtual L2 walk(int b, long k, Rng& r, L& p) = 0;
  virtual L size(int b) = 0; virtual void clear(int b) = 0; virtual void swp(int b, int how) = 0; virtual void copy(int b, int how) = 0; virtual void bulk(int b, const L2& p) {} virtual void inr(int b, const L2& p, int how) = 0;
  virtual long eqq(int b, int how) = 0; virtual L less(int b, int how) { return {}; } virtual void chk(int b) = 0;
};
struct Ref {     // native reference
  bool multi; L2 m[2];
  static bool kl(const E2& a, const E2& b) { return a.first < b.first; }
  long below(int b, long k) { return std::lower_bound(m[b].begin(), m[b].end(), E2(k, 0), kl) - m[b].begin(); }
  long upto(int b, long k) { return std::upper_bound(m[b].begin(), m[b].end(), E2(k, 0), kl) - m[b].begin(); }
  L run(int b, long k) { L r; for (long i = below(b, k); i < upto(b, k); i++) r.push_back(m[b][i].second); return r; }
  void put(int b, long k, const L& vs) { L2 n(m[b].begin(), m[b].begin() + below(b, k)); for (auto v : vs) n.push_back({k, v}); n.insert(n.end(), m[b].begin() + upto(b, k), m[b].end()); m[b] = n; }
  L at(int b, long i) { return i < (long)m[b].size() ? L{1, m[b][i].first, m[b][i].second} : L{0}; }
};
inline bool one_more(L a, L b, long v) { L c = a; c.push_back(v); std::sort(c.begin(), c.end()); std::sort(b.begin(), b.end()); return c == b; }
// do one random operation, emit it, rank it
inline void step(Base& W, Ref& R, Rng& r, int K, long& nv, int bias) {
  Ev e; int b = e.b = r.below(10) == 0; long k = e.k = r.below(K); int w = r.below(100);
  auto list = [&](int n, bool sorted) { L2 p; for (int i = 0; i < n; i++) p.push_back({(long)r.below(K), W.isset ? 0 : nv++}); if (sorted) { std::stable_sort(p.begin(), p.end(), Ref::kl); if (!W.multi) p.erase(std::unique(p.begin(), p.end(), [](const E2& a, const E2& b) { return a.first == b.first; }), p.end()); } return p; };
  int up = bias ? (bias == 1 ? 40 : 14) : 27;
  if (w < up) {
    long v = e.v = W.isset ? 0 : nv++; L old = R.run(b, k);
    int what = r.below(10);
    if (what == 0 && W.c_idx) { e.o = "idx"; W.idx(b, k, v); L a = W.run(b, k); e.s = js(a); bad(a == L{v}); R.put(b, k, a); }
    else if (what == 1 && W.c_set && !old.empty()) { e.o = "set"; e.j = 1 + r.below(old.size()); W.set(b, k, e.j, v); L a = W.run(b, k), x = old; x[e.j - 1] = v; e.s = js(a); bad(a == x); R.put(b, k, a); }
    else { e.o = "ins"; e.r = W.ins(b, k, v, r.below(4)); L a = W.run(b, k); e.s = js(a); if (W.multi) bad(e.r == L{1, k, v} && one_more(old, a, v)); else bad(old.empty() ? e.r == L{1, k, v} && a == L{v} : e.r == L{0, k, old[0]} && a == old); R.put(b, k, a); }
  } else if (w < 54) {
    if (!R.m[b].empty() && r.chance(75)) k = e.k = R.m[b][r.below(R.m[b].size())].first;
    L old = R.run(b, k); int what = r.below(10);
    if (what < 3 || (old.empty() && what < 6)) { e.o = "era"; e.r = {W.era(b, k)}; L a = W.run(b, k); e.s = js(a); bad(a.empty() && e.r == L{(long)old.size()}); R.put(b, k, a); }
    else if (what < 6 && W.c_er1) { e.o = "er1"; e.r = {W.er1(b, k)}; L a = W.run(b, k); e.s = js(a); bool ok = e.r == L{!old.empty()} && a.size() == old.size() - !old.empty(); bad(ok); R.put(b, k, a); }
    else if (what == 6 && W.c_erg) { e.o = "erg"; e.j = k + r.below(K / 3 + 1); W.erg(b, k, e.j); long x = R.below(b, k), y = R.below(b, e.j); R.m[b].erase(R.m[b].begin() + x, R.m[b].begin() + y); }
    else if (!old.empty()) { e.o = "eri"; e.j = 1 + r.below(old.size()); L x = old; x.erase(x.begin() + (e.j - 1)); e.r = W.eri(b, k, e.j); L a = W.run(b, k); e.s = js(a); bad(a == x); R.put(b, k, a); bad(e.r.empty() || e.r == R.at(b, R.below(b, k) + e.j - 1)); }
    else { e.o = "has"; e.r = {W.has(b, k)}; bad(e.r == L{0}); }
  } else if (w < 80) {
    bool c = r.chance(40); L run = R.run(b, k);
    switch (r.below(7)) {
      case 0: e.o = "find"; e.r = W.find(b, k, c); bad(run.empty() ? e.r == L{0} : e.r.size() == 3 && e.r[1] == k && std::count(run.begin(), run.end(), e.r[2])); break;
      case 1: e.o = "has"; e.r = {W.has(b, k)}; bad(e.r == L{!run.empty()}); break;
      case 2: e.o = "cnt"; e.r = {W.cnt(b, k)}; bad(e.r == L{(long)run.size()}); break;
      case 3: e.o = "lb"; e.r = W.lb(b, k, c); bad(e.r == R.at(b, R.below(b, k))); break;
      case 4: e.o = "ub"; e.r = W.ub(b, k, c); bad(e.r == R.at(b, R.upto(b, k))); break;
      case 5: { e.o = "eq"; L s; e.r = W.eq(b, k, s, c); e.s = js(s); bad(s == run && e.r == R.at(b, R.upto(b, k))); break; }
      default: { e.o = "walk"; L p; L2 s = W.walk(b, k, r, p); e.p = js(p); e.s = js(s); long i = R.below(b, k); bool ok = s.size() == p.size() + 1; for (size_t n = 0; n < s.size() && ok; n++) { ok = i >= 0 && s[n] == (i < (long)R.m[b].size() ? R.m[b][i] : E2(-1, -1)); if (n < p.size()) i += p[n]; } bad(ok); break; }
    }
  } else if (w < 90) {
    L2 s; if (r.chance(60)) { e.o = "fwd"; s = W.fwd(b, r.below(3)); bad(s == R.m[b]); } else { e.o = "bwd"; s = W.bwd(b, r.below(3)); L2 x(R.m[b].rbegin(), R.m[b].rend()); bad(s == x); }
    e.s = js(s);
  } else switch (r.below(10)) {
    case 0: case 1: e.o = "size"; e.r = W.size(b); bad(e.r == L{(long)R.m[b].size(), R.m[b].empty()}); break;
    case 2: if (r.chance(40)) { e.o = "clear"; W.clear(b); R.m[b].clear(); break; } e.o = "chk"; W.chk(b); break;
    case 3: e.o = "swap"; W.swp(b, r.below(3)); std::swap(R.m[0], R.m[1]); break;
    case 4: b = e.b = r.chance(70); e.o = "copy"; W.copy(b, r.below(3)); R.m[b] = R.m[1 - b]; break;
    case 5: if (W.c_bulk) { b = e.b = r.chance(60); L2 p = list(r.below(K), true); if (W.size(b)[0]) W.clear(b); Ev c; c.o = "clear"; c.b = b; emit(c); e.o = "bulk"; e.p = js(p); W.bulk(b, p); e.s = js(W.fwd(b, 0)); R.m[b] = p; bad(e.s == js(p)); break; } // fallthrough
    case 6: { e.o = "inr"; L2 p = list(r.below(5), false); e.p = js(p); W.inr(b, p, r.below(2)); L2 s = W.fwd(b, 0); e.s = js(s);
      L2 x = R.m[b]; for (auto& q : p) { bool in = false; for (auto& y : x) in |= y.first == q.first; if (W.multi || !in) x.push_back(q); } std::sort(x.begin(), x.end()); L2 y = s; std::sort(y.begin(), y.end()); bad(x == y && std::is_sorted(s.begin(), s.end(), Ref::kl)); R.m[b] = s; break; }
    case 7: e.o = "eqq"; e.r = {W.eqq(b, r.below(2))}; bad(e.r == L{R.m[0] == R.m[1]}); break;
    case 8: if (W.c_less) { e.o = "less"; e.r = W.less(b, r.below(2)); bad(e.r == L{R.m[b] < R.m[1 - b], R.m[1 - b] < R.m[b]}); break; } // fallthrough
    default: e.o = "chk"; W.chk(b); break;
  }
  emit(e);
}
struct OrdAd {
  Base* W = nullptr; Base* (*mk)(int cfg); int ncfg;
  void gen(Rng& r, Scn& s, const std::string& kind) {
    s.par["cfg"] = r.below(ncfg); s.par["seed"] = r.next() & 0x7fffffff; s.par["K"] = 4 + r.below(r.chance(30) ? 60 : 26); s.par["n"] = 20 + r.below(60); s.par["init"] = r.chance(70) ? r.below(s.par["K"]) : 0; s.par["bias"] = r.below(3);
    s.thr.resize(1);
  }
  std::string header(const Scn& s) { return seq_hdr("ord", ",\"cfg\":" + std::to_string(s.par.at("cfg")) + ",\"multi\":" + std::to_string(W->multi)); }
  void setup(const Scn& s) { W = mk(s.par.at("cfg")); }
  void thread(int, const Scn& s) {
    Rng r(s.par.at("seed")); Ref R; R.multi = W->multi; int K = s.par.at("K"); long nv = 1;
    // initial contents: one range insertion into container 0
    L2 p; for (int i = 0; i < s.par.at("init"); i++) p.push_back({(long)(r.chance(50) ? (i * 7) % K : r.below(K)), W->isset ? 0 : nv++});
    if (W->multi) { std::stable_sort(p.begin(), p.end(), Ref::kl); for (size_t i = 1; i + 1 < p.size();) if (p[i].first == p[i - 1].first) p.erase(p.begin() + i); else i++; }
    Ev e; e.o = "inr"; e.p = js(p); W->inr(0, p, 0); L2 f = W->fwd(0, 0); e.s = js(f); emit(e); R.m[0] = f;
    int n = s.par.at("n"); for (int i = 0; i < n; i++) step(*W, R, r, K, nv, s.par.at("bias"));
    for (int b = 0; b < 2; b++) { Ev x; x.b = b; x.o = "fwd"; L2 q = W->fwd(b, 1); x.s = js(q); bad(q == R.m[b]); emit(x); }
  }
  void finish(const Scn& s) {}
  void teardown(const Scn& s) { delete W; W = nullptr; }
};
}
