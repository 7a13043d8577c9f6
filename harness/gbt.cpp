// GoogleBTree containers under random operation sequences
#include "ordwrap.h"
#include "btree_map.h"
using namespace sq;
template <class K, class Cmp, int N> struct Set : btree::btree_unique_container<btree::btree<btree::btree_set_params<K, Cmp, std::allocator<K>, N>>> {
  typedef btree::btree_unique_container<btree::btree<btree::btree_set_params<K, Cmp, std::allocator<K>, N>>> S; Set() {} template <class I> Set(I b, I e) : S(b, e) {} Set(const Set& o) : S(o) {} Set& operator=(const Set&) = default;
};
template <class K, class Cmp, int N> struct MSet : btree::btree_multi_container<btree::btree<btree::btree_set_params<K, Cmp, std::allocator<K>, N>>> {
  typedef btree::btree_multi_container<btree::btree<btree::btree_set_params<K, Cmp, std::allocator<K>, N>>> S; MSet() {} template <class I> MSet(I b, I e) : S(b, e) {} MSet(const MSet& o) : S(o) {} MSet& operator=(const MSet&) = default;
};
template <class K, Flav F, class Cmp, int N> struct Pick;
template <class K, class Cmp, int N> struct Pick<K, MAP, Cmp, N> { typedef btree::btree_map<typename K::T, long, Cmp, std::allocator<std::pair<const typename K::T, long>>, N> C; };
template <class K, class Cmp, int N> struct Pick<K, MMAP, Cmp, N> { typedef btree::btree_multimap<typename K::T, long, Cmp, std::allocator<std::pair<const typename K::T, long>>, N> C; };
template <class K, class Cmp, int N> struct Pick<K, SET, Cmp, N> { typedef Set<typename K::T, Cmp, N> C; };
template <class K, class Cmp, int N> struct Pick<K, MSET, Cmp, N> { typedef MSet<typename K::T, Cmp, N> C; };
struct Cmp3 : btree::btree_key_compare_to_tag { int operator()(const std::string& a, const std::string& b) const { return a.compare(b); } };
template <class K, Flav F, class Cmp, int N> static Base* mk() { return new OW<typename Pick<K, F, Cmp, N>::C, K, F, false>(true, false); }
template <Flav F> static Base* mkf(int c) {
  switch (c) {
    case 0: return mk<KInt, F, std::less<int>, 64>();
    case 1: return mk<KInt, F, std::less<int>, 96>();
    case 2: return mk<KU64, F, std::less<unsigned long>, 80>();
    case 3: return mk<KRev, F, std::greater<int>, 72>();
    case 4: return mk<KStr, F, std::less<std::string>, 256>();
    case 5: return mk<KStrRev, F, std::greater<std::string>, 200>();
    default: return mk<KStr, F, Cmp3, 160>();
  }
}
// one translation unit per kind of container
#ifdef PART
#define NAME_(x) mk_part##x
#define NAME(x) NAME_(x)
Base* NAME(PART)(int c) { return mkf<(Flav)PART>(c); }
#else
Base *mk_part0(int), *mk_part1(int), *mk_part2(int), *mk_part3(int);
static Base* make(int c) { switch (c % 4) { case 0: return mk_part0(c / 4); case 1: return mk_part1(c / 4); case 2: return mk_part2(c / 4); default: return mk_part3(c / 4); } }
struct A : OrdAd { A() { mk = make; ncfg = 28; } };
int main(int argc, char** argv) { return vd::conc_main<A>(argc, argv); }
#endif
