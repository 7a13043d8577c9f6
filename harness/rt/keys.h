// Key tables: id 0..n-1 <-> byte strings in ascending (memcmp) order, prefix free unless stated otherwise.
#pragma once
#include "sched.h"
#include <string>
#include <vector>
#include <set>
#include <algorithm>
namespace vk {
using vs::Rng;
inline std::string be64(uint64_t x) { std::string s(8, 0); for (int i = 0; i < 8; i++) s[i] = (char)(x >> (56 - 8 * i)); return s; }
inline std::string be32(uint32_t x) { std::string s(4, 0); for (int i = 0; i < 4; i++) s[i] = (char)(x >> (24 - 8 * i)); return s; }
// n distinct 8-byte keys whose radix tree has nodes of very different fan-out and compressed paths
inline std::vector<uint64_t> ints(Rng& r, int n) {
  std::set<uint64_t> s;
  int style = r.below(6);
  uint64_t base = r.chance(50) ? 0 : (r.next() & 0x7fffffffffffffffull);
  while ((int)s.size() < n) {
    uint64_t x;
    switch (style) {
      case 0: x = (base & ~0xffull) | r.below(256); break;                                   // one node
      case 1: x = (base & ~0xffffull) | (r.below(3) << 8) | r.below(200); break;             // two levels
      case 2: { int sh = 8 * (int)r.below(8); x = base ^ ((1 + r.below(255)) << sh); break; } // splits at every depth
      case 3: x = r.next() >> (r.below(8) * 8); break;
      case 4: x = (base & ~0xffffffull) | (r.below(4) << 16) | (r.below(4) << 8) | r.below(20); break;
      default: x = s.size() * (1 + (base & 3)); break;                                       // sequential
    }
    x &= 0x7fffffffffffffffull;
    if (style == 0 && s.size() >= 250) style = 1;
    if (style == 1 && s.size() >= 500) style = 3;
    if (style == 2 && s.size() >= 800) style = 3;
    if (style == 4 && s.size() >= 280) style = 3;
    s.insert(x);
  }
  return std::vector<uint64_t>(s.begin(), s.end());
}
// prefix-free strings with long shared prefixes; maxlen bounds the length; no NUL bytes if text
inline std::vector<std::string> strs(Rng& r, int n, int maxlen, bool text, bool prefixfree) {
  std::set<std::string> s;
  auto ch = [&](int w) -> char { int lo = text ? 33 : 0, hi = text ? 126 : 255; if (w <= 0) return (char)r.range(lo, hi); return (char)(lo + (int)(r.below(w) * (unsigned)((hi - lo) / std::max(1, w)) )); };
  std::vector<std::string> pool = {""};
  for (int i = 0; i < 3; i++) { std::string p = pool[r.below(pool.size())]; int l = r.below(std::max(1, maxlen * 2 / 3)); for (int j = 0; j < l; j++) p.push_back(ch(2)); if ((int)p.size() < maxlen) pool.push_back(p); }
  int guard = 0;
  while ((int)s.size() < n && guard++ < 100000) {
    std::string x = pool[r.below(pool.size())];
    int l = 1 + r.below(r.chance(70) ? 3 : std::max(1, maxlen / 2));
    for (int j = 0; j < l; j++) x.push_back(ch(r.chance(60) ? 3 : 0));
    if ((int)x.size() > maxlen) x.resize(maxlen);
    if (prefixfree) {
      // x must not be a prefix of, or have a prefix among, the others
      bool bad = false;
      for (auto& y : s) { size_t m = std::min(x.size(), y.size()); if (x.compare(0, m, y, 0, m) == 0) { bad = true; break; } }
      if (bad) continue;
    }
    if (x.empty() && prefixfree) continue;
    s.insert(x);
  }
  return std::vector<std::string>(s.begin(), s.end());
}
}
