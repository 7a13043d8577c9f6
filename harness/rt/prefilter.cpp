// Native copy of spec/Lin.tla + spec/KeyOps.tla.  It decides nothing: it only ranks histories, so that the ones it
// cannot explain are always among those handed to TLC, which gives the verdict.
// Compiled without instrumentation.
#include "prefilter.h"
#include <set>
#include <map>
#include <cstdlib>
#include <algorithm>
namespace vd { namespace {
// bump allocator, emptied after every history; own types also keep these instantiations apart from instrumented ones
char* b_base = nullptr; size_t b_top = 0; const size_t b_size = 64u << 20;
void* bump(size_t n) { if (!b_base) b_base = (char*)malloc(b_size); n = (n + 15) & ~15ull; if (b_top + n > b_size) return malloc(n); void* p = b_base + b_top; b_top += n; return p; }
template <class T> struct PA { typedef T value_type; PA() {} template <class U> PA(const PA<U>&) {} T* allocate(size_t n) { return (T*)bump(n * sizeof(T)); } void deallocate(T* p, size_t) { if ((char*)p < b_base || (char*)p >= b_base + b_size) free(p); }
  template <class U> bool operator==(const PA<U>&) const { return true; } template <class U> bool operator!=(const PA<U>&) const { return false; } };
template <class K, class V> using Map = std::map<K, V, std::less<K>, PA<std::pair<const K, V>>>;
template <class K> using Set = std::set<K, std::less<K>, PA<K>>;
template <class K> using Vec = std::vector<K, PA<K>>;
struct Judge {
  std::vector<long>& init; std::vector<PEv>& ev;
  struct Cfg { long v; Map<int, long> done; bool operator<(const Cfg& o) const { return v != o.v ? v < o.v : done < o.done; } };
  struct Pend { bool act = false; std::string o; int k = 0, hi = 0; long v = 0; bool scan = false, rev = false, part = false, multi = false; };
  static void apply(const std::string& o, long a, long c, long& n, long& r) {
    n = c; r = -2;
    if (o == "get") r = c; else if (o == "has") r = c != 0;
    else if (o == "ins") { if (c == 0) { n = a; r = 1; } else r = 0; }
    else if (o == "insv") { if (c == 0) n = a; }
    else if (o == "insr") { if (c == 0) { n = a; r = 0; } else r = c; }
    else if (o == "ups") { n = a; r = c == 0; } else if (o == "upsv") n = a; else if (o == "upso") { n = a; r = c; }
    else if (o == "upd") { if (c) { n = a; r = 1; } else r = 0; } else if (o == "updo") { r = c; if (c) n = a; }
    else if (o == "rem") { n = 0; r = c != 0; } else if (o == "remo") { n = 0; r = c; } else if (o == "remv") n = 0;
    else if (o == "remx") { if (c == a) n = 0; } else if (o == "remxr") { if (c == a) { n = 0; r = 1; } else r = 0; }
    else if (o == "add") n = c + a; else if (o == "addo") { n = c + a; r = c; } else if (o == "addm") { n = c + a; r = c + 1; } else if (o == "addp") { if (c) { n = c + a; r = 1; } else r = 0; }
    else if (o == "cput") { n = c ? c : 4096; for (int i = 0; i < 4; i++) if (a >> 3 * i & 7) n = (n & ~(7L << 3 * i)) | (a & (7L << 3 * i)); r = c == 0; }
    else if (o == "crep") { n = 4096 + a; r = c == 0; }
    else if (o == "cget") { r = c; if (c && a) { r = 4096; for (int i = 0; i < 4; i++) if (a >> i & 1) r |= c & (7L << 3 * i); } }
    else r = -99;
  }
  Vec<Pend> P; Map<int, Set<Cfg>> C;
  Set<Cfg>& at(int k) { auto it = C.find(k); if (it == C.end()) { it = C.emplace(k, Set<Cfg>{Cfg{init[k], {}}}).first; } return it->second; }
  bool touches(const Pend& p, int k) { return p.act && (p.scan || p.multi ? p.k <= k && k < p.hi : p.k == k); }
  void close(int k) {
    auto& S = at(k); Vec<Cfg> work(S.begin(), S.end());
    while (!work.empty()) {
      Cfg c = work.back(); work.pop_back();
      for (int t = 0; t < (int)P.size(); t++) if (touches(P[t], k) && !c.done.count(t)) {
        long n, r; apply(P[t].scan ? "get" : P[t].multi ? "rem" : P[t].o, P[t].v, c.v, n, r);
        Cfg d = c; d.v = n; d.done[t] = r; if (S.insert(d).second) work.push_back(d);
        if (P[t].o == "addm") { Cfg f = c; f.done[t] = 0; if (S.insert(f).second) work.push_back(f); }
      }
    }
  }
  template <class F> bool keep(int k, int t, F f) {
    auto& S = at(k); Set<Cfg> N;
    for (auto c : S) if (f(c)) { c.done.erase(t); N.insert(c); }
    S.swap(N); return !S.empty();
  }
  // native copy of spec/SnapMap.tla (atomic scans)
  bool ok_snap() {
    struct J { Vec<long> m; Map<int, Vec<std::pair<int, long>>> done; bool operator<(const J& o) const { return m != o.m ? m < o.m : done < o.done; } };
    typedef Vec<std::pair<int, long>> R;
    Set<J> S; S.insert(J{Vec<long>(init.begin(), init.end()), {}}); Vec<Pend> Q(9); int nk = (int)init.size();
    auto closej = [&] {
      Vec<J> work(S.begin(), S.end());
      while (!work.empty()) {
        J c = work.back(); work.pop_back();
        for (int t = 0; t < 9; t++) if (Q[t].act && !c.done.count(t)) {
          J d = c; R r;
          if (Q[t].scan) { if (Q[t].rev) { for (int k = std::min(Q[t].hi, nk) - 1; k >= Q[t].k && (long)r.size() < Q[t].v; k--) { if (c.m[k]) r.push_back({k, c.m[k]}); } } else for (int k = Q[t].k; k < Q[t].hi && k < nk && (long)r.size() < Q[t].v; k++) { if (c.m[k]) r.push_back({k, c.m[k]}); } }
          else { long n, x; apply(Q[t].o, Q[t].v, c.m[Q[t].k], n, x); d.m[Q[t].k] = n; r.push_back({-5, x}); }
          d.done[t] = r; if (S.insert(d).second) work.push_back(d);
        }
      }
    };
    auto filt = [&](int t, auto f) { Set<J> N; for (auto c : S) if (f(c)) { c.done.erase(t); N.insert(c); } S.swap(N); return !S.empty(); };
    for (auto& e : ev) {
      if (e.t < 0 || e.t > 8) return false;
      if (e.e == 'c') { Pend p; p.act = true; p.o = e.o; p.k = e.k; p.hi = e.hi; p.v = e.v; p.rev = e.o == "rsnap"; p.scan = p.rev || e.o == "snap"; if (p.k < 0 || p.k >= nk || Q[e.t].act) return false; Q[e.t] = p; }
      else if (e.e == 'r' || e.e == 's') {
        if (!Q[e.t].act || Q[e.t].scan != (e.e == 's')) return false;
        closej(); R want(e.s.begin(), e.s.end()); if (e.e == 'r') { want.clear(); want.push_back({-5, e.r}); }
        if (!filt(e.t, [&](const J& c) { auto it = c.done.find(e.t); return it != c.done.end() && ((e.e == 'r' && e.r == -2) || it->second == want); })) return false;
        Q[e.t].act = false;
      } else if (e.e == 'f') { closej(); if (!filt(-1, [&](const J& c) { return c.m.size() == e.m.size() && std::equal(c.m.begin(), c.m.end(), e.m.begin()); })) return false; }
      else return false;
    }
    return true;
  }
  // true: explained
  bool ok() {
    for (auto& e : ev) if (e.e == 'c' && (e.o == "snap" || e.o == "rsnap")) return ok_snap();
    P.assign(9, Pend()); C.clear(); int nk = (int)init.size();
    Map<int, Map<int, char>> held;
    for (auto& e : ev) {
      if (e.t < 0 || e.t > 8) return false;
      if (e.e == 'a' || e.e == 'b') { for (auto& x : held[e.k]) if (e.e == 'a' || x.second == 'a') return false; held[e.k][e.t] = e.e; continue; }
      if (e.e == 'l') { if (!held[e.k].erase(e.t)) return false; continue; }
      if (e.e == 'c') {
        Pend p; p.act = true; p.o = e.o; p.k = e.k; p.hi = e.hi; p.v = e.v;
        p.rev = e.o == "rscan" || e.o == "rpart"; p.part = e.o == "part" || e.o == "rpart" || e.o == "part1"; p.scan = p.part || p.rev || e.o == "scan"; p.multi = e.o == "delr";
        if (p.k < 0 || p.k >= nk || P[e.t].act) return false;
        P[e.t] = p;
      } else if (e.e == 'r') {
        Pend p = P[e.t]; if (!p.act || p.scan) return false;
        if (p.multi) {
          long lo = 0, hi = 0; int top = std::min(p.hi, nk);
          for (int k = p.k; k < top; k++) { close(k); bool z = false, o = false; for (auto& c : at(k)) { auto it = c.done.find(e.t); if (it != c.done.end()) (it->second ? o : z) = true; } if (!z) lo++; if (o) hi++; }
          if (e.r < lo || e.r > hi) return false;
          for (int k = p.k; k < top; k++) { bool z = false, o = false; for (auto& c : at(k)) { auto it = c.done.find(e.t); if (it != c.done.end()) (it->second ? o : z) = true; }
            bool a = keep(k, e.t, [&](const Cfg& c) { auto it = c.done.find(e.t); return it != c.done.end() && (e.r == lo ? (it->second == 0 || !z) : e.r == hi ? (it->second == 1 || !o) : true); }); if (!a) return false; }
          P[e.t].act = false; continue;
        }
        close(p.k);
        bool a = keep(p.k, e.t, [&](const Cfg& c) { auto it = c.done.find(e.t); return it != c.done.end() && (e.r == -2 || it->second == e.r); });
        P[e.t].act = false; if (!a) return false;
      } else if (e.e == 's') {
        Pend p = P[e.t]; if (!p.act || !p.scan) return false;
        Map<int, long> seen; int last = p.rev ? 1 << 30 : -1;
        for (auto& x : e.s) { if (p.rev ? x.first >= last : x.first <= last) return false; last = x.first; if (x.first < p.k || x.first >= p.hi) return false; seen[x.first] = x.second; }
        if ((long)e.s.size() > p.v) return false;
        int lo = p.k, hi = p.hi - 1;
        if ((long)e.s.size() == p.v || (p.part && !(p.o == "part1" && e.s.empty()))) { if (e.s.empty()) { lo = 0; hi = -1; } else if (p.rev) lo = e.s.back().first; else hi = e.s.back().first; }
        if (hi >= nk) hi = nk - 1;
        for (int k = lo; k <= hi; k++) close(k);
        bool a = true;
        for (int k = lo; k <= hi; k++) { long v = seen.count(k) ? seen[k] : 0; a = a && keep(k, e.t, [&](const Cfg& c) { auto it = c.done.find(e.t); return it != c.done.end() && it->second == v; }); }
        for (auto& kc : C) if (!(lo <= kc.first && kc.first <= hi)) keep(kc.first, e.t, [](const Cfg&) { return true; });
        P[e.t].act = false; if (!a) return false;
      } else if (e.e == 'f') {
        if ((int)e.m.size() != nk) return false;
        for (int k = 0; k < nk; k++) {
          if (!C.count(k)) { bool any = false; for (auto& p : P) any = any || touches(p, k); if (!any) { if (init[k] != e.m[k]) return false; continue; } }
          close(k); if (!keep(k, -1, [&](const Cfg& c) { return c.v == e.m[k]; })) return false;
        }
      } else return false;
    }
    return true;
  }
};
} // namespace
bool explain(std::vector<long> init, std::vector<PEv> ev) { b_top = 0; Judge j{init, ev}; return j.ok(); }
bool Prefilter::ok() {
  if (ext) return ext_ok;
  b_top = 0; Judge j{init, ev}; return j.ok();
}
}
