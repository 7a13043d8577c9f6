// Native copy of spec/Lin.tla + spec/KeyOps.tla.  It decides nothing: it only ranks histories, so that the ones it
// cannot explain are always among those handed to TLC, which gives the verdict.
#pragma once
#include <string>
#include <vector>
#include <utility>
namespace vd {
struct PEv { char e; int t; std::string o; int k; int hi; long v; long r; std::vector<std::pair<int, long>> s; std::vector<long> m; };
struct Prefilter {
  bool on = false, ext = false, ext_ok = true; std::vector<long> init;   // ext: the adapter ranks its own histories
  std::vector<PEv> ev;
  bool ok();                                                            // true: explained
};
inline Prefilter pf;
bool explain(std::vector<long> init, std::vector<PEv> ev);
}
