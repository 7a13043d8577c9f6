// STX (tlx) B+-tree containers under random operation sequences
#include <tlx/container/btree_map.hpp>
#include <tlx/container/btree_set.hpp>
#include <tlx/container/btree_multimap.hpp>
#include <tlx/container/btree_multiset.hpp>
#include "ordwrap.h"
using namespace sq;
template <int LS, int IS, size_t BT> struct Tr { static const bool self_verify = false, debug = false; static const int leaf_slots = LS, inner_slots = IS; static const size_t binsearch_threshold = BT; };
template <class K, Flav F, class Cmp, class T> struct Pick;
template <class K, class Cmp, class T> struct Pick<K, MAP, Cmp, T> { typedef tlx::btree_map<typename K::T, long, Cmp, T> C; };
template <class K, class Cmp, class T> struct Pick<K, MMAP, Cmp, T> { typedef tlx::btree_multimap<typename K::T, long, Cmp, T> C; };
template <class K, class Cmp, class T> struct Pick<K, SET, Cmp, T> { typedef tlx::btree_set<typename K::T, Cmp, T> C; };
template <class K, class Cmp, class T> struct Pick<K, MSET, Cmp, T> { typedef tlx::btree_multiset<typename K::T, Cmp, T> C; };
template <class K, Flav F, bool rev, class T> static Base* mk() { typedef typename Pick<K, F, typename std::conditional<rev, std::greater<typename K::T>, std::less<typename K::T>>::type, T>::C C; return new OW<C, K, F, true>(true, !rev); }
template <Flav F> static Base* mkf(int c) {
  switch (c) {
    case 0: return mk<KInt, F, false, Tr<4, 4, 256>>();
    case 1: return mk<KInt, F, false, Tr<4, 4, 0>>();
    case 2: return mk<KInt, F, false, Tr<5, 6, 0>>();
    case 3: return mk<KRev, F, true, Tr<7, 5, 64>>();
    case 4: return mk<KStr, F, false, Tr<4, 5, 0>>();
    case 5: return mk<KInt, F, false, Tr<8, 8, 256>>();
    default: return mk<KU64, F, false, Tr<6, 4, 0>>();
  }
}
// one translation unit per kind of container
#ifdef PART
#define NAME_(x) mk_part##x
#define NAME(x) NAME_(x)
Base* NAME(PART)(int c) { return mkf<(Flav)PART>(c); }
#else
Base *mk_part0(int), *mk_part1(int), *mk_part2(int), *mk_part3(int);
static Base* make(int c) { switch (c % 4) { case 0: return mk_part0(c / 4); case 1: return mk_part1(c / 4); case 2: return mk_part2(c / 4); default: return mk_part3(c / 4); } }
struct A : OrdAd { A() { mk = make; ncfg = 28; } };
int main(int argc, char** argv) { return vd::conc_main<A>(argc, argv); }
#endif
