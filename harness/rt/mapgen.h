// Scenario generator shared by the map-like indexes
#pragma once
#include "driver.h"
#include "keys.h"
#include <algorithm>
namespace vd {
struct GenCfg {
  std::vector<std::pair<const char*, int>> ops;      // point operations and weights
  std::vector<std::pair<const char*, int>> scans;    // scan operations and weights; empty: none
  const char* init_op = "upsv";
  int maxthreads = 3, minops = 1, maxops = 3, maxval = 3;
  int scanpct = 60;                                  // thread 1 issues scans with this probability
  int scanall = 15;                                  // the other threads scan, too, in this many of 100 scenarios
  bool insfresh = false;                             // operations of other threads use values > 100 (distinguishable)
};
inline int pick_n(Rng& r, std::vector<std::pair<int, int>> ranges) { auto p = ranges[r.below(ranges.size())]; return r.range(p.first, p.second); }
inline const char* pick_w(Rng& r, const std::vector<std::pair<const char*, int>>& v) {
  int s = 0; for (auto& p : v) s += p.second; int x = r.below(s); for (auto& p : v) { if (x < p.second) return p.first; x -= p.second; } return v[0].first;
}
inline void gen_map(Rng& r, Scn& s, int n, const GenCfg& c) {
  s.par["n"] = n;
  std::vector<int> hot; int h = 2 + r.below(3), st = r.below(n);
  for (int i = 0; i < h; i++) hot.push_back((st + i) % n);
  hot.push_back(r.below(n));
  int fillpct = r.chance(70) ? 100 : r.below(100), hotpct = r.below(100);
  for (int k = 0; k < n; k++) { bool ish = std::find(hot.begin(), hot.end(), k) != hot.end(); if (r.chance(ish ? hotpct : fillpct)) { Op o; o.o = c.init_op; o.k = k; o.v = 1 + r.below(2); s.init.push_back(o); } }
  int ord = r.below(4);
  if (ord == 1) std::reverse(s.init.begin(), s.init.end());
  else if (ord >= 2) for (size_t i = s.init.size(); i > 1; i--) std::swap(s.init[i - 1], s.init[r.below(i)]);
  int T = 2; if (c.maxthreads > 2 && r.chance(40)) T = 3; if (c.maxthreads > 3 && r.chance(15)) T = 4;
  bool all = !c.scans.empty() && r.chance(c.scanall);
  for (int t = 0; t < T; t++) {
    std::vector<Op> v; int m = r.range(c.minops, c.maxops);
    for (int i = 0; i < m; i++) {
      Op o; o.k = r.chance(90) ? hot[r.below(hot.size())] : (int)r.below(n);
      if (!c.scans.empty() && (t == 0 || all) && r.chance(c.scanpct)) {
        o.o = pick_w(r, c.scans);
        int a = r.below(n), b = 1 + r.below(n); if (r.chance(40)) { a = r.chance(50) ? 0 : std::min<int>(a, hot[0]); b = n; } if (a > b) std::swap(a, b); if (a == b) { if (b < n) b++; else a--; }
        o.k = a; o.hi = b; o.lim = r.chance(70) ? n + 1 : 1 + r.below(n); o.v = r.below(5);
      } else { o.o = pick_w(r, c.ops); o.v = 1 + r.below(c.maxval); }
      v.push_back(o);
    }
    s.thr.push_back(v);
  }
}
inline std::string map_header(const Scn& s) {
  std::vector<long> iv(s.par.at("n"), 0); for (auto& o : s.init) iv[o.k] = o.v;
  return init_hdr(iv);
}
}
