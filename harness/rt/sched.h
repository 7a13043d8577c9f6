// Deterministic cooperative scheduler: the code under test is compiled with -fsanitize=thread, whose
// instrumentation calls land in sched.cpp instead of libtsan.  Every memory access, atomic operation and
// intercepted blocking call is a potential switch point; exactly one managed thread runs at a time.
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
#include <functional>
#include <random>

namespace vs {

struct Rng {                       // splitmix64: own generator, so that a seed means the same everywhere
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool chance(int pct) { return below(100) < (uint64_t)pct; }
};

enum Mode { RANDOM = 0, PCT = 1, ONEPREEMPT = 2 };

struct Plan {
  Mode mode = RANDOM;
  uint64_t seed = 1;
  uint64_t horizon = 2000;         // PCT/ONEPREEMPT: step range in which the change points are drawn
  int depth = 2;                   // PCT: number of change points
  std::vector<uint64_t> at;        // ONEPREEMPT: explicit change points (step numbers)
  uint64_t max_steps = 4000000;    // beyond: hang
  struct At { uintptr_t pc; uint32_t occ; int t; };
  std::vector<At> pcs;             // PCT/ONEPREEMPT: further change points: the occ-th time this code location is reached (by thread t; 0: any)
  int tso = 0;                     // > 0: stores become visible to the other threads late, in order, at most this many (up to 16) at a time
  uint64_t tso_age = 500;          // ... and at most this many steps late
  bool log = false;                // record the accesses and add the conflicting ones to conflicts()
};

struct Result { uint64_t steps = 0; bool hang = false; uint64_t switches = 0; };

// Run the bodies as managed threads 1..n (thread ids as seen by tid()) to completion.
Result run(const std::vector<std::function<void()>>& bodies, const Plan& plan);
int tid();                         // managed thread number, 0 outside
void yield();                      // voluntary switch
bool active();
uint64_t step();                   // global step counter of the current execution
// code locations reached since the last pc_reset(), in the order of their first visit, with the largest number of visits in one execution
struct Loc { uintptr_t pc; uint32_t max; };
const Loc* pcs(uint32_t& n);
const Plan::At* conflicts(uint32_t& n);   // accesses to a location that several threads used, one of them writing
void pc_reset();

// --- memory life-cycle tracking -----------------------------------------------------------------
// While tracking is on, freed blocks are kept in quarantine until mem_reset(); accesses to them through
// instrumented code are reported (once per block and thread) to the history as "uaf".
void mem_track(bool on);
void mem_reset();                  // end of an execution: quarantined blocks may be reused
void mem_emergency();              // a fatal signal is being handled: serve malloc from a reserve, without locks
uint64_t mem_live();               // bytes allocated and not freed
uint64_t mem_freed_count();        // number of blocks freed since the last mem_reset
void mem_note_free(void* p, size_t n);   // a block handed back by a private allocator (slab)
void mem_note_alloc(void* p, size_t n);
void mem_touch(const void* p, size_t n); // explicit read by harness code of a block owned by the structure

// --- history ------------------------------------------------------------------------------------
// Events are JSON fragments; the log of one execution is a JSON array.
void hist_begin();
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hist_take();           // "[e1,e2,...]"
uint64_t hist_hash();
bool hist_has(const char* s);

// called instead of sleeping when a managed thread sleeps (nanosleep, usleep); it may throw ThreadExit to end the thread
struct ThreadExit {};
extern void (*on_nap)(long ms);

// guards against switching inside harness code (logging etc.)
struct NoSwitch { NoSwitch(); ~NoSwitch(); };

// called by the fatal signal handler to persist the history of the running execution
extern void (*on_crash)(const char* what);

}
