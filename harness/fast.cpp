// FAST: read-only index over sorted keys; a lookup returns the values around the query
#include "seqlib.h"
#include <set>
using namespace sq;
extern "C" {
void* create_fast64(const uint64_t*, uint64_t, const uint64_t*, uint64_t); void lookup_fast64(const void*, uint64_t, uint64_t*, uint64_t*); void destroy_fast64(void*); uint64_t size_fast64(void*);
void* create_fast32(const uint32_t*, uint64_t, const uint32_t*, uint64_t); void lookup_fast32(const void*, uint32_t, uint32_t*, uint32_t*); void destroy_fast32(void*); uint64_t size_fast32(void*);
void slow64(const void*, uint64_t, uint64_t*, uint64_t*); void slow32(const void*, uint32_t, uint32_t*, uint32_t*);
}
template <class T> struct F;
template <> struct F<uint64_t> { static void* mk(const std::vector<uint64_t>& k, const std::vector<uint64_t>& v) { return create_fast64(k.data(), k.size(), v.data(), v.size()); } static void lk(void* t, uint64_t k, uint64_t* a, uint64_t* b) { lookup_fast64(t, k, a, b); } static void sl(void* t, uint64_t k, uint64_t* a, uint64_t* b) { slow64(t, k, a, b); } static void rm(void* t) { destroy_fast64(t); } static uint64_t sz(void* t) { return size_fast64(t); } };
template <> struct F<uint32_t> { static void* mk(const std::vector<uint32_t>& k, const std::vector<uint32_t>& v) { return create_fast32(k.data(), k.size(), v.data(), v.size()); } static void lk(void* t, uint32_t k, uint32_t* a, uint32_t* b) { lookup_fast32(t, k, a, b); } static void sl(void* t, uint32_t k, uint32_t* a, uint32_t* b) { slow32(t, k, a, b); } static void rm(void* t) { destroy_fast32(t); } static uint64_t sz(void* t) { return size_fast32(t); } };
template <class T> static void go(Rng r) {
  const T M = (T)~(T)0; int h = sizeof(T) == 8 ? 8 : 16;
  // sizes: around multiples of the node size and its powers
  long n; switch (r.below(8)) { case 0: n = 1 + r.below(4); break; case 1: case 2: n = 1 + r.below(3 * h); break; case 3: n = h * (1 + r.below(h)) + r.range(-1, 1); break; case 4: n = h * h + r.range(-2, 9); break; case 5: n = h * h * (1 + r.below(2)) + r.below(h * h); break; case 6: n = 1 + r.below(400); break; default: n = r.chance(30) ? (h == 8 ? 512 : 256) + r.below(200) : 1 + r.below(120); }
  bool big = r.below(200) == 0; if (big) n = 3000 + r.below(r.chance(50) ? 6000 : 140000);
  // key values in one of several shapes, with gaps in which to query
  std::set<T> ks; int sh = r.below(big ? 4 : 6); T step = sh == 0 ? 1 : sh == 1 ? 2 : sh == 2 ? 10 : M / (n + 2);
  T base = r.chance(50) ? 0 : r.chance(40) ? M - (T)(n * step) - (T)r.below(2) : (M >> 1) - (T)(n / 2) * step;
  if (sh < 4) for (long i = 0; i < n; i++) ks.insert((T)(base + step * i)); else while ((long)ks.size() < n) ks.insert((T)(sh == 4 ? r.next() >> (8 * r.below(sizeof(T)) + (64 - 8 * sizeof(T))) : r.below(3 * n)));
  if (r.chance(10)) ks.insert(M); if (r.chance(10)) ks.insert(0);
  std::vector<T> k(ks.begin(), ks.end()), v; n = k.size();
  int vm = r.below(3); for (long i = 0; i < n; i++) v.push_back(vm == 0 ? (T)(i + 1) : vm == 1 ? (T)(M - 1 - i) : (T)((i + 1) * (T)0x9E3779B97F4A7C15ull | 1));
  if (vm == 2) { std::set<T> u(v.begin(), v.end()); if ((long)u.size() != n || u.count(M)) for (long i = 0; i < n; i++) v[i] = (T)(i + 1); }
  std::map<T, long> id; for (long i = 0; i < n; i++) id[v[i]] = i + 1;
  // abstract key space: key i is 2i+2; queries in front of, on and behind keys
  void* t = F<T>::mk(k, v);
  std::vector<T> gk(k), gv(v); for (auto& x : gk) x = 0; for (auto& x : gv) x = 0;
  // the specification is told the entries [w0, w1): all of them, or, of a large index, a window inside which it queries
  long w0 = 0, w1 = n;
  auto window = [&](long a, long b) {
    w0 = a; w1 = b; std::string p = "["; for (long i = a; i < b; i++) p += (i > a ? ",[" : "[") + std::to_string(2 * i + 2) + "," + std::to_string(i + 1) + "]"; p += "]";
    Ev e; e.o = "init"; e.p = p; emit(e);
  };
  if (!big) window(0, n);
  auto out = [&](T x) -> long { return x == M ? -1 : x == 0 ? 0 : id.count(x) ? id[x] : -99; };
  int q = n < 40 ? 2 * n + 3 : 40 + (int)r.below(40);
  for (int i = 0; i < q; i++) {
    if (big && i % 10 == 0) { long a = r.chance(50) ? r.below(n - 20) : std::min<long>(n - 20, std::max<long>(0, (long)(h * h * h) * (1 + (long)r.below(n / (h * h * h) + 1)) + r.range(-10, 10))); window(a, a + 20); }
    long a = big ? 2 * w0 + 1 + (long)r.below(2 * (w1 - w0) - 2) : n < 40 ? i : r.chance(50) ? (long)r.below(2 * n + 2) : 2 * (h * (1 + (long)r.below(n / h + 1)) + r.range(-1, 1)) + r.range(-1, 2);   // abstract query - 1
    if (a < 0) a = 0; if (a > 2 * n + 2) a = 2 * n;
    // abstract 2i+2 = on key i; 2i+3 = between key i and i+1
    long ai = a + 1; T x; bool ok = true;
    if (ai <= 1) { ok = k[0] > 0; x = ok ? (T)(r.chance(50) ? k[0] - 1 : r.chance(50) ? 0 : r.next() % k[0]) : 0; }
    else if (ai % 2 == 0) { long j = (ai - 2) / 2; ok = j < n; if (ok) x = k[j]; }
    else { long j = (ai - 3) / 2; ok = j < n && k[j] != M && (j + 1 == n || k[j + 1] - k[j] > 1); if (ok) { T hi = j + 1 == n ? M : k[j + 1] - 1; x = r.chance(40) ? k[j] + 1 : r.chance(60) ? hi : k[j] + 1 + (T)(r.next() % (hi - k[j])); } }
    if (!ok) continue;
    T o1v = 7, o2v = 7; bool slow = r.chance(25);
    if (slow) F<T>::sl(t, x, &o1v, &o2v); else F<T>::lk(t, x, &o1v, &o2v);
    Ev l; l.o = "look"; l.k = ai; l.r = {out(o1v), out(o2v)};
    long nn = std::upper_bound(k.begin(), k.end(), x) - k.begin(); bad(l.r == L{nn == 0 ? 0 : nn, nn == n ? -1 : nn + 1}); emit(l);
  }
  if (F<T>::sz(t) < n * 2 * sizeof(T)) { bad(false); Ev s; s.o = "size"; emit(s); }
  F<T>::rm(t);
}
struct A {
  void gen(Rng& r, Scn& s, const std::string& k) { s.par["w"] = r.below(2); s.par["seed"] = r.next() & 0x7fffffff; s.thr.resize(1); }
  std::string header(const Scn& s) { return seq_hdr("fast", ",\"bits\":" + std::to_string(s.par.at("w") ? 64 : 32) + ",\"multi\":0,\"stable\":0"); }
  void setup(const Scn&) {} void finish(const Scn&) {} void teardown(const Scn&) {}
  void thread(int, const Scn& s) { vs::NoSwitch ns; Rng r(s.par.at("seed")); if (s.par.at("w")) go<uint64_t>(r); else go<uint32_t>(r); }
};
int main(int argc, char** argv) { return vd::conc_main<A>(argc, argv); }
