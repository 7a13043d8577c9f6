// See sched.h.  This file is compiled WITHOUT instrumentation.
#include <execinfo.h>
#include "sched.h"
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <linux/futex.h>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <dlfcn.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <sched.h>
#include <sys/auxv.h>
#include <new>

namespace vs {

static const int MAXT = 64;
struct Parked;
struct St { char* a; uint32_t n; uint64_t step; unsigned char v[16]; };     // a store not visible to the other threads yet
struct Th {
  St sb[16]; int nsb = 0;
  Parked* pk = nullptr;
  pthread_t pt{};
  bool used = false, finished = true;
  const void* wait_on = nullptr;      // blocked on a condition variable / join
  uint64_t prio = 0;
  uint64_t same_cnt = 0; const void* same_addr = nullptr; uint64_t same_val = 0;
  uint64_t run_len = 0;
};
static Th th[MAXT];
static volatile bool g_on = false;
static int g_n = 0;                    // highest managed id
static int g_cur = 0;
static int64_t g_budget = 0;
static Plan g_plan;
static Rng g_rng;
static uint64_t g_steps = 0, g_switches = 0;
static std::vector<uint64_t> g_points; static size_t g_pi = 0;
static uint64_t g_lowprio = 0;
static bool g_fair = false;
static const std::vector<std::function<void()>>* g_bodies = nullptr;
static bool g_hang = false;
static thread_local int t_id = 0;
static thread_local int t_nosw = 0;
void (*on_nap)(long) = nullptr;
void (*on_crash)(const char*) = nullptr;

// Contexts.  Every managed thread is a real pthread (own stack, own TLS), but the kernel thread behind it is parked on a
// small private stack; the one kernel thread that called run() executes all of them, switching stack and FS base itself.
struct Fib { void* sp; uint64_t fs; std::atomic<int>* rel; };
static Fib g_fmain;
static int g_fsgs = -1;
static inline uint64_t get_fs() { uint64_t v; asm volatile("mov %%fs:0, %0" : "=r"(v)); return v; }       // the TCB's self pointer
extern "C" void vs_ctx_switch(Fib* from, Fib* to);        // saves into *from, continues *to
extern "C" void vs_ctx_park(Fib* f, void* park_sp, std::atomic<int>* captured);
extern "C" uint32_t vs_use_wrfs; uint32_t vs_use_wrfs = 0;
asm(R"(
.text
.globl vs_ctx_switch
vs_ctx_switch:
  push %rbx
  push %rbp
  push %r12
  push %r13
  push %r14
  push %r15
  mov %rsp, (%rdi)
  mov %rsi, %rbx
  mov 8(%rsi), %rsi
  cmpl $0, vs_use_wrfs(%rip)
  je 1f
  wrfsbase %rsi
  jmp 2f
1:
  mov $0x1002, %edi
  mov $158, %eax
  syscall
2:
  mov (%rbx), %rsp
  pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbp
  pop %rbx
  ret
# the calling kernel thread leaves its stack: f can be continued by another one.  It sleeps on f->rel, then takes f over again.
.globl vs_ctx_park
vs_ctx_park:
  push %rbx
  push %rbp
  push %r12
  push %r13
  push %r14
  push %r15
  mov %rsp, (%rdi)
  mov %rdi, %rbx
  mov 16(%rdi), %rbp
  mov %rsi, %rsp
  movl $1, (%rdx)
  mov %rdx, %rdi
  mov $129, %esi
  mov $1, %edx
  mov $202, %eax
  xor %r10, %r10
  syscall
3:
  mov (%rbp), %eax
  test %eax, %eax
  jne 4f
  mov %rbp, %rdi
  mov $128, %esi
  xor %edx, %edx
  xor %r10, %r10
  mov $202, %eax
  syscall
  jmp 3b
4:
  mov (%rbx), %rsp
  pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbp
  pop %rbx
  ret
)");
static void fwait(std::atomic<int>& f) {
  while (f.load(std::memory_order_acquire) == 0)
    syscall(SYS_futex, (int*)&f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
}
static void fwake(std::atomic<int>& f) {
  f.store(1, std::memory_order_release);
  syscall(SYS_futex, (int*)&f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static std::atomic<int>* g_release = nullptr;           // kernel thread to let go once its stack has been left
static inline void after_switch() { if (g_release) { std::atomic<int>* r = g_release; g_release = nullptr; fwake(*r); } }
static inline void ctx_switch(Fib* from, Fib* to) { if (from == to) return; vs_ctx_switch(from, to); after_switch(); }
struct Parked { Fib fib{}; std::atomic<int> captured{0}, rel{0}; void* stack = nullptr; Parked* next = nullptr; };

int tid() { return t_id; }
bool active() { return g_on && t_id > 0; }
uint64_t step() { return g_steps; }
NoSwitch::NoSwitch() { t_nosw++; }
NoSwitch::~NoSwitch() { t_nosw--; }

static bool runnable(int i) { return th[i].used && !th[i].finished && !th[i].wait_on; }

static int64_t draw_budget() {
  if (g_fair) return 1 + g_rng.below(400);
  switch (g_rng.below(8)) {
    case 0: case 1: case 2: return 1 + g_rng.below(6);
    case 3: case 4: return 1 + g_rng.below(40);
    case 5: case 6: return 1 + g_rng.below(300);
    default: return 1 + g_rng.below(3000);
  }
}

static int pick(int self, bool voluntary) {
  int c[MAXT], n = 0;
  for (int i = 1; i <= g_n; i++) if (runnable(i) && !(voluntary && i == self)) c[n++] = i;
  if (n == 0) { if (runnable(self)) return self; return 0; }
  if (g_plan.mode == RANDOM || g_fair) return c[g_rng.below(n)];
  int b = c[0];
  for (int j = 1; j < n; j++) if (th[c[j]].prio > th[b].prio) b = c[j];
  return b;
}

static void set_budget() {
  if (g_plan.mode == RANDOM || g_fair) g_budget = draw_budget();
  else {
    uint64_t nxt = g_steps + 20000;                       // spin guard
    if (g_pi < g_points.size()) nxt = std::min<uint64_t>(nxt, std::max<uint64_t>(g_points[g_pi], g_steps + 1));
    g_budget = (int64_t)(nxt - g_steps);
  }
}

// Store buffers (Plan::tso): what the hardware does on x86.  The running thread sees memory including its own buffered
// stores; when it is switched out they are taken back (v: what its memory shows) and put in place again when it continues.
// VS_WATCH=addr,addr,..: where the 8 bytes at these addresses change, to standard error (debugging aid)
static uintptr_t g_watch[8]; static uint64_t g_watched[8]; static int g_nw = -1;
static void watch(const char* what) {
  if (g_nw < 0) { g_nw = 0; if (const char* w = getenv("VS_WATCH")) while (*w && g_nw < 8) { char* e; g_watch[g_nw++] = strtoull(w, &e, 16); w = *e ? e + 1 : e; } }
  for (int i = 0; i < g_nw; i++) { uint64_t v = *(uint64_t*)g_watch[i];
    if (v != g_watched[i]) { NoSwitch ns; fprintf(stderr, "WATCH %lx: %lx -> %lx step %lu thread %d %s nsb %d", g_watch[i], g_watched[i], v, g_steps, t_id, what, th[t_id].nsb);
      void* bt[8]; int k = backtrace(bt, 8); for (int j = 1; j < k; j++) fprintf(stderr, " %p", bt[j]); fprintf(stderr, "\n"); g_watched[i] = v; } }
}
#define WATCH(w) do { if (g_nw) watch(w); } while (0)
static inline void swap_mem(St& e) { unsigned char t[16]; memcpy(t, e.a, e.n); memcpy(e.a, e.v, e.n); memcpy(e.v, t, e.n); }
static inline void tso_flush() { th[t_id].nsb = 0; }
static void tso_drop(Th& t, int k) { memmove(t.sb, t.sb + k, sizeof(St) * (size_t)(t.nsb - k)); t.nsb -= k; }
static void tso_out(int self) {         // self stops running
  Th& t = th[self];
  if (!t.nsb) return;
  char* sp = (char*)__builtin_frame_address(0); size_t dead = 1 << 16;
  for (int i = t.nsb - 1; i >= 0; i--) {
    char* a = t.sb[i].a;
    if (a + t.sb[i].n > sp && a < sp + 768) { tso_drop(t, i + 1); break; }      // about where the frames of this runtime lie
    if (a < sp && a + dead > sp) { memmove(t.sb + i, t.sb + i + 1, sizeof(St) * (size_t)(t.nsb - i - 1)); t.nsb--; }   // a frame that is gone
  }
  if (t.nsb && g_rng.below(3) == 0) tso_drop(t, 1 + (int)g_rng.below(t.nsb));
  for (int i = t.nsb - 1; i >= 0; i--) swap_mem(t.sb[i]);
}
static void tso_in(int self) { Th& t = th[self]; for (int i = 0; i < t.nsb; i++) swap_mem(t.sb[i]); }
static void tso_age(int but) {          // what has waited for long enough becomes visible
  for (int i = 1; i <= g_n; i++) if (i != but && th[i].nsb) {
    Th& t = th[i]; int k = 0;
    while (k < t.nsb && g_steps - t.sb[k].step > g_plan.tso_age) { memcpy(t.sb[k].a, t.sb[k].v, t.sb[k].n); k++; }
    if (k) tso_drop(t, k);
  }
}
static inline void tso_store(const volatile void* a, size_t n) {
  if (!g_plan.tso || !g_on || !t_id) return;
  Th& t = th[t_id]; char* p = (char*)a;
  if (t_nosw || g_fair) { t.nsb = 0; return; }
  do {
    if (t.nsb >= g_plan.tso) tso_drop(t, t.nsb - g_plan.tso + 1);
    St& e = t.sb[t.nsb++]; e.a = p; e.n = n > 16 ? 16 : (uint32_t)n; e.step = g_steps; memcpy(e.v, p, e.n);
    p += e.n; n -= e.n;
  } while (n);
}

static void die_hang(const char* what) {
  t_nosw++;
  g_hang = true;
  if (on_crash) on_crash(what);
  _exit(43);
}

static void switch_to(int self, int nxt) {
  if (nxt == 0) die_hang("deadlock");
  if (nxt == self) { set_budget(); return; }
  g_switches++;
  g_cur = nxt; th[nxt].run_len = 0;
  WATCH("before switch");
  if (g_plan.tso) { tso_out(self); WATCH("out"); tso_age(0); WATCH("age"); tso_in(nxt); WATCH("in"); }
  set_budget();
  ctx_switch(&th[self].pk->fib, &th[nxt].pk->fib);
}

static void check_limit() {
  if (g_steps > g_plan.max_steps / 2 && !g_fair) g_fair = true;
  if (g_steps > g_plan.max_steps) die_hang("hang");
}

static void expire() {                 // budget used up
  int self = t_id;
  check_limit();
  if (g_plan.mode == RANDOM || g_fair) { switch_to(self, pick(self, false)); return; }
  if (g_pi < g_points.size() && g_steps >= g_points[g_pi]) {
    g_pi++;
    th[self].prio = --g_lowprio;       // change point: the running thread drops below all others
  } else th[self].prio = --g_lowprio;  // ran for too long without one: treat as spinning
  switch_to(self, pick(self, false));
}

// code locations: every call site of a hook is one
static const uint32_t NPC = 1 << 14, NTC = 8;
struct PcE { uintptr_t pc; uint32_t ex, cnt, tex, idx; uint32_t tc[NTC]; };
static PcE g_pct[NPC]; static uint32_t g_ex = 0; static uint32_t g_npc = 0;
static Loc g_locs[NPC];
const Loc* pcs(uint32_t& n) { n = g_npc; return g_locs; }
// access log of one execution, and the conflicting accesses found in the scenario so far
struct Acc { uint32_t pci, occ; uintptr_t a; uint8_t t, n, w; };
static Acc* g_log = nullptr; static uint32_t g_nlog = 0; static const uint32_t NLOG = 1 << 19;
struct Gr { uintptr_t g; uint32_t ex; uint8_t rd, wr; };
static Gr* g_gr = nullptr; static const uint32_t NGR = 1 << 18;
static Plan::At g_conf[1 << 13]; static uint32_t g_nconf = 0; static const uint32_t NCONF = 1 << 12;
static uint64_t g_cset[1 << 14];
const Plan::At* conflicts(uint32_t& n) { n = g_nconf; return g_conf; }
void pc_reset() { memset(g_pct, 0, sizeof g_pct); g_npc = 0; if (g_nconf) memset(g_cset, 0, sizeof g_cset); g_nconf = 0; }
static PcE* pc_slot(uintptr_t pc, bool add) {
  uint32_t h = (uint32_t)((pc * 0x9E3779B97F4A7C15ull) >> 50);
  while (g_pct[h].pc != pc) {
    if (!g_pct[h].pc) {
      if (!add || g_npc > NPC / 2) return nullptr;
      g_pct[h].pc = pc; g_pct[h].idx = g_npc; g_locs[g_npc++] = Loc{pc, 0}; return &g_pct[h];
    }
    h = (h + 1) & (NPC - 1);
  }
  return &g_pct[h];
}
static void pc_hit(PcE* e) {
  for (auto& a : g_plan.pcs) if (a.pc == e->pc && (a.t ? a.t == t_id && a.occ == e->tc[a.t] : a.occ == e->cnt)) {
    th[t_id].prio = --g_lowprio;
    switch_to(t_id, pick(t_id, false));
    return;
  }
}
static Gr* gran(uintptr_t g) {
  uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 46);
  for (int i = 0; i < 64; i++, h = (h + 1) & (NGR - 1)) {
    if (g_gr[h].ex != g_ex) { g_gr[h] = Gr{g, g_ex, 0, 0}; return &g_gr[h]; }
    if (g_gr[h].g == g) return &g_gr[h];
  }
  return nullptr;
}
static void find_conflicts() {
  if (!g_gr) g_gr = (Gr*)mmap(nullptr, sizeof(Gr) * NGR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  auto each = [](const Acc& a, auto f) { for (uintptr_t g = a.a; g < a.a + a.n; g++) if (!f(g)) break; };
  for (uint32_t i = 0; i < g_nlog; i++) { const Acc& a = g_log[i]; each(a, [&](uintptr_t g) { Gr* r = gran(g); if (r) { (a.w ? r->wr : r->rd) |= (uint8_t)(1u << (a.t & 7)); } return true; }); }
  for (uint32_t i = 0; i < g_nlog && g_nconf < NCONF; i++) {
    const Acc& a = g_log[i]; bool c = false;
    each(a, [&](uintptr_t g) { Gr* r = gran(g); uint8_t me = (uint8_t)(1u << (a.t & 7)); if (r && ((r->wr & ~me) || (a.w && (r->rd & ~me)))) c = true; return !c; });
    if (!c || a.t >= NTC) continue;
    uint64_t key = (((uint64_t)a.pci << 32 | a.occ) << 3 | a.t) + 1; uint32_t h = (uint32_t)((key * 0x9E3779B97F4A7C15ull) >> 50);
    while (g_cset[h] && g_cset[h] != key) h = (h + 1) & ((1 << 14) - 1);
    if (g_cset[h]) continue;
    g_cset[h] = key; g_conf[g_nconf++] = Plan::At{g_locs[a.pci].pc, a.occ, a.t};
  }
}
static inline void point_at(void* ra, const volatile void* a, size_t n, bool w) {
  if (!g_on || t_id == 0 || t_nosw) return;
  g_steps++;
  PcE* e = pc_slot((uintptr_t)ra, true);
  if (e) {
    if (e->ex != g_ex) { e->ex = g_ex; e->cnt = 0; memset(e->tc, 0, sizeof e->tc); }
    e->cnt++; if (t_id < (int)NTC) e->tc[t_id]++;
    Loc& l = g_locs[e->idx]; if (e->cnt > l.max) l.max = e->cnt;
    if (g_plan.log && a && g_nlog < NLOG) g_log[g_nlog++] = Acc{e->idx, t_id < (int)NTC ? e->tc[t_id] : 0, (uintptr_t)a, (uint8_t)t_id, (uint8_t)(n > 64 ? 64 : n), w};
  }
  if (--g_budget <= 0) expire();
  else if (e && e->tex == g_ex) pc_hit(e);
}
#define point(a, n, w) point_at(__builtin_return_address(0), (a), (n), (w))

void yield() {
  if (!g_on || t_id == 0 || t_nosw) return;
  tso_flush();
  g_steps++;
  check_limit();
  if (g_plan.mode != RANDOM) th[t_id].prio = --g_lowprio;
  switch_to(t_id, pick(t_id, true));
}

// a load of the same location that keeps returning the same value is a spin loop: let others run
static inline void spin_hint(const void* a, uint64_t v) {
  if (!g_on || t_id == 0 || t_nosw) return;
  Th& t = th[t_id];
  if (t.same_addr == a && t.same_val == v) {
    if (++t.same_cnt >= 30) { t.same_cnt = 0; yield(); }
  } else { t.same_addr = a; t.same_val = v; t.same_cnt = 0; }
}

static void finish_self(bool for_good = false) {
  Fib* to;
  int self = t_id;
  th[self].finished = true; th[self].nsb = 0;
  for (int i = 1; i <= g_n; i++) if (th[i].used && th[i].wait_on == &th[self]) th[i].wait_on = nullptr;
  int nxt = pick(self, true);
  if (nxt == 0 || nxt == self) {
    bool all = true;
    for (int i = 1; i <= g_n; i++) if (th[i].used && !th[i].finished) all = false;
    if (!all) die_hang("deadlock");
    g_on = false;
    to = &g_fmain;
  } else { g_cur = nxt; if (g_plan.tso) { tso_age(0); tso_in(nxt); } set_budget(); to = &th[nxt].pk->fib; }
  if (for_good) vs_ctx_switch(&th[self].pk->fib, to);    // comes back on the original kernel thread
  else ctx_switch(&th[self].pk->fib, to);
}

// hand the calling pthread's context over to the scheduler
static void park(Parked* pk) {
  sigset_t all; sigfillset(&all); pthread_sigmask(SIG_BLOCK, &all, nullptr);
  pk->fib.fs = get_fs(); pk->fib.rel = &pk->rel;
  vs_ctx_park(&pk->fib, (char*)pk->stack + 4096 - 64, &pk->captured);
}
static Parked* g_pool = nullptr;
static Parked* new_parked() {
  if (g_pool) { Parked* p = g_pool; g_pool = p->next; p->captured = 0; p->rel = 0; return p; }
  Parked* pk = new (mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)) Parked;
  pk->stack = (char*)pk + 4096; return pk;
}
// persistent worker threads (ids 1..k) so that thread-local state survives between executions
static int g_workers = 0;
static void* worker(void* p) {
  int id = (int)(intptr_t)p;
  t_id = id;
  park(th[id].pk);
  after_switch();
  for (;;) {
    (*g_bodies)[id - 1]();
    t_nosw = 0;
    finish_self();
  }
  return nullptr;
}
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_join)(pthread_t, void**);
template <class F> static F sym(F& f, const char* n) { if (!f) f = (F)dlsym(RTLD_NEXT, n); return f; }

Result run(const std::vector<std::function<void()>>& bodies, const Plan& plan) {
  int n = (int)bodies.size();
  sym(real_create, "pthread_create");
  while (g_workers < n) {
    g_workers++;
    th[g_workers].used = true; th[g_workers].finished = true;
    if (g_fsgs < 0) { g_fsgs = (getauxval(AT_HWCAP2) & 2) != 0; vs_use_wrfs = g_fsgs; }
    th[g_workers].pk = new_parked();
    real_create(&th[g_workers].pt, nullptr, worker, (void*)(intptr_t)g_workers);
    fwait(th[g_workers].pk->captured);
  }
  g_plan = plan; g_rng = Rng(plan.seed ^ 0xABCDEF); g_steps = g_switches = 0; g_fair = false; g_hang = false;
  for (int i = 1; i < MAXT; i++) {
    if (i > n) { if (i > g_workers) th[i].used = false; th[i].finished = true; }
    th[i].wait_on = nullptr; th[i].same_addr = nullptr; th[i].same_cnt = 0; th[i].run_len = 0; th[i].nsb = 0;
  }
  g_n = std::max(n, 0);
  g_points.clear(); g_pi = 0; g_lowprio = 1000000;
  std::vector<uint64_t> pr(n);
  for (int i = 0; i < n; i++) pr[i] = 2000000 + i;
  if (plan.mode != RANDOM) for (int i = n - 1; i > 0; i--) std::swap(pr[i], pr[g_rng.below(i + 1)]);
  for (int i = 1; i <= n; i++) { th[i].finished = false; th[i].used = true; th[i].prio = pr[i - 1]; }
  if (plan.mode == PCT) for (int i = 0; i < plan.depth; i++) g_points.push_back(1 + g_rng.below(plan.horizon));
  if (plan.mode == ONEPREEMPT) g_points = plan.at;
  std::sort(g_points.begin(), g_points.end());
  g_bodies = &bodies;
  g_ex++; g_nlog = 0;
  if (plan.log && !g_log) g_log = (Acc*)mmap(nullptr, sizeof(Acc) * NLOG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (auto& a : g_plan.pcs) { PcE* e = pc_slot(a.pc, false); if (e) e->tex = g_ex; }
  if (n == 0) return Result{};
  int first = pick(0, false);
  g_cur = first; set_budget();
  g_on = true;
  g_fmain.fs = get_fs();
  ctx_switch(&g_fmain, &th[first].pk->fib);
  if (plan.log) find_conflicts();
  Result r; r.steps = g_steps; r.hang = g_hang; r.switches = g_switches;
  return r;
}

// ------------------------------------------------------------------------------------- memory ----
static char* A = nullptr; static size_t A_size = 0; static size_t A_top = 0;   // arena
static uint8_t* shadow = nullptr;                                              // 1 byte per 16: 0 none 1 live 2 freed
static const size_t G = 16;
static std::atomic_flag mlock = ATOMIC_FLAG_INIT;
static bool g_track = false;
struct Hdr { size_t size; size_t cls; };                                       // precedes each block
static const int NCLS = 64;
static void* freel[NCLS];
static void* afreel[32][NCLS];
static Hdr** quar = nullptr; static size_t nquar = 0, cquar = 0;
static uint64_t live_bytes = 0;
struct Lk { Lk() { while (mlock.test_and_set(std::memory_order_acquire)) sched_yield(); } ~Lk() { mlock.clear(std::memory_order_release); } };

static void arena_init() {
  A_size = 12ull << 30;
  A = (char*)mmap((void*)0x600000000000ull, A_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  shadow = (uint8_t*)mmap(nullptr, A_size / G, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  quar = (Hdr**)mmap(nullptr, 1ull << 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cquar = (1ull << 32) / sizeof(Hdr*);
  if (A == MAP_FAILED || (void*)shadow == MAP_FAILED || (void*)quar == MAP_FAILED) { static const char m[] = "arena\n"; (void)!write(2, m, 6); _exit(44); }
}
static int cls_of(size_t n) {          // classes: 16..1024 by 16 is too many; use 4 per power of two
  size_t s = 32; int c = 0;
  while (s < n) { s = (c & 1) ? s / 3 * 4 : s / 2 * 3; c++; }
  return c;
}
static size_t cls_size(int c) { size_t s = 32; for (int i = 0; i < c; i++) s = (i & 1) ? s / 3 * 4 : s / 2 * 3; return s; }
static bool g_emerg = false; static char* e_p = nullptr; static char* e_end = nullptr;
void mem_emergency() {
  size_t n = 256u << 20; e_p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  e_end = e_p + n; g_emerg = e_p != MAP_FAILED;
}
static void* a_alloc(size_t n, size_t al) {
  if (g_emerg) {
    uintptr_t q = (uintptr_t)e_p + sizeof(Hdr); q = (q + (al < 16 ? 16 : al) - 1) & ~((al < 16 ? 16 : al) - 1);
    if (q + n > (uintptr_t)e_end) _exit(43);
    e_p = (char*)q + n; ((Hdr*)q - 1)->size = n; return (void*)q;
  }
  Lk l;
  if (!A) arena_init();
  if (n == 0) n = 1;
  if (al <= 16) {
    int c = cls_of(n);
    size_t s = cls_size(c);
    Hdr* h;
    if (freel[c]) { h = (Hdr*)freel[c]; freel[c] = *(void**)(h + 1); }
    else {
      A_top = (A_top + 15) & ~15ull;
      if (A_top + s + 64 > A_size) { static const char m[] = "arena full\n"; (void)!write(2, m, 11); _exit(44); }
      h = (Hdr*)(A + A_top); A_top += sizeof(Hdr) + ((s + 15) & ~15ull);
    }
    h->size = n; h->cls = c;
    char* p = (char*)(h + 1);
    memset(shadow + (p - A) / G, 1, (n + G - 1) / G);
    live_bytes += n;
    return p;
  }
  // over-aligned blocks: own free list per (alignment, class)
  int c = cls_of(n); size_t s = cls_size(c);
  int la = __builtin_ctzll(al);
  Hdr* h;
  if (afreel[la][c]) { h = (Hdr*)afreel[la][c]; afreel[la][c] = *(void**)(h + 1); }
  else {
    size_t start = A_top + sizeof(Hdr); start = (start + al - 1) & ~(al - 1);
    if (start + s + 64 > A_size) { static const char m[] = "arena full\n"; (void)!write(2, m, 11); _exit(44); }
    h = (Hdr*)(A + start) - 1; A_top = (start + s + 15) & ~15ull;
  }
  h->size = n; h->cls = (size_t)c | ((size_t)la << 8) | (1 << 16);
  char* p = (char*)(h + 1);
  memset(shadow + (p - A) / G, 1, (n + G - 1) / G);
  live_bytes += n;
  return p;
}
static void recycle(Hdr* h) {
  memset(shadow + ((char*)(h + 1) - A) / G, 0, (h->size + G - 1) / G);
  if (h->cls & (1 << 16)) { int la = (h->cls >> 8) & 0xff, c = h->cls & 0xff; *(void**)(h + 1) = afreel[la][c]; afreel[la][c] = h; return; }
  int c = h->cls & 0xff; *(void**)(h + 1) = freel[c]; freel[c] = h;
}
static uint64_t g_nfree = 0;
// VS_BT=1 (development): remember who freed a block, print both stacks at its first use after free
static int g_bt = -1; static struct { void* p; int n; void* f[24]; } g_frees[4096]; static int g_nf = 0;
static void bt_free(void* p) { if (g_bt == 1 && g_nf < 4096) { g_frees[g_nf].p = p; g_frees[g_nf].n = backtrace(g_frees[g_nf].f, 24); g_nf++; } }
static void bt_use(const void* q) {
  if (g_bt != 1) return;
  void* f[24]; int n = backtrace(f, 24); fprintf(stderr, "USE %p step %lu thread %d\n", q, (unsigned long)step(), tid()); backtrace_symbols_fd(f, n, 2);
  int best = -1; for (int i = 0; i < g_nf; i++) if (g_frees[i].p <= q && (best < 0 || g_frees[i].p >= g_frees[best].p)) best = i;
  if (best >= 0) { fprintf(stderr, "FREED %p\n", g_frees[best].p); backtrace_symbols_fd(g_frees[best].f, g_frees[best].n, 2); }
}
static void uaf(const char* kind, const void* p);
static void a_free(void* p) {
  if (!p || g_emerg) return;
  bool dbl = false;
  {
    Lk l;
    if ((char*)p < A || (char*)p >= A + A_size) return;   // not ours
    uint8_t& s = shadow[((char*)p - A) / G];
    Hdr* h = (Hdr*)p - 1;
    if (s == 2) dbl = true;
    else if (s == 1) {
      live_bytes -= h->size; g_nfree++;
      if (g_track) { bt_free(p); memset(&s, 2, (h->size + G - 1) / G); quar[nquar++] = h; }
      else recycle(h);
    }
  }
  if (dbl) uaf("dfree", p);
}
void mem_track(bool on) { if (g_bt < 0) { g_bt = getenv("VS_BT") != nullptr; void* f[4]; if (g_bt) backtrace(f, 4); } g_nf = 0; g_track = on; }
struct Note { char* p; size_t n; };
static std::vector<Note>* notes = nullptr;     // privately allocated ranges that are currently freed
void mem_reset() {
  { Lk l; for (size_t i = 0; i < nquar; i++) recycle(quar[i]); nquar = 0; g_nfree = 0; }
  if (notes) notes->clear();
}
uint64_t mem_live() { return live_bytes; }
uint64_t mem_freed_count() { return g_nfree; }
void mem_note_free(void* p, size_t n) { NoSwitch ns; if (!g_track) return; if (!notes) notes = new std::vector<Note>; notes->push_back({(char*)p, n}); g_nfree++; }
void mem_note_alloc(void* p, size_t n) { NoSwitch ns; (void)n; if (!notes) return; for (size_t i = 0; i < notes->size(); i++) if ((*notes)[i].p == p) { (*notes)[i] = notes->back(); notes->pop_back(); return; } }

static uint64_t seen_uaf[256]; static int n_seen = 0;
static void uaf(const char* kind, const void* p) {
  if (!g_track) return;
  NoSwitch ns;
  uint64_t key = ((uint64_t)(uintptr_t)p / 64) * 64 + (uint64_t)t_id;
  for (int i = 0; i < n_seen; i++) if (seen_uaf[i] == key) return;
  if (n_seen < 256) seen_uaf[n_seen++] = key; else return;
  bt_use(p);
  ev("{\"e\":\"x\",\"t\":%d,\"w\":\"%s\"}", t_id, kind);
}
static inline void macc(const void* p, size_t n, bool) {
  WATCH("run");
  if (!g_track) return;
  char* c = (char*)p;
  if (c >= A && c < A + A_size) {
    if (shadow[(c - A) / G] == 2) uaf("uaf", p);
  } else if (notes && !notes->empty()) {
    for (auto& x : *notes) if (c >= x.p && c < x.p + x.n) { uaf("uaf", p); break; }
  }
  (void)n;
}
void mem_touch(const void* p, size_t n) { macc(p, n, false); }

// ------------------------------------------------------------------------------------ history ----
static std::string* hist = nullptr; static size_t hist_n = 0;
void hist_begin() { NoSwitch ns; if (!hist) hist = new std::string; hist->clear(); hist_n = 0; n_seen = 0; }
void ev(const char* fmt, ...) {
  NoSwitch ns; tso_flush();
  char buf[1 << 16]; va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (!hist) return;
  if (hist_n++) hist->push_back(',');
  hist->append(buf, std::min<size_t>(n, sizeof buf - 1));
}
uint64_t hist_hash() { uint64_t h = 1469598103934665603ull; for (unsigned char c : *hist) { h ^= c; h *= 1099511628211ull; } return h; }
bool hist_has(const char* s) { return strstr(hist->c_str(), s) != nullptr; }
std::string hist_take() { NoSwitch ns; return "[" + *hist + "]"; }

} // namespace vs
using namespace vs;

// --------------------------------------------------------------------------------- tsan hooks ----
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* a) { point(a, n, false); macc(a, n, false); if (n <= 8) { uint64_t v = 0; memcpy(&v, a, n <= 8 ? n : 8); spin_hint(a, v); } } \
  void __tsan_write##n(void* a) { point(a, n, true); macc(a, n, true); tso_store(a, n); } \
  void __tsan_volatile_read##n(void* a) { point(a, n, false); macc(a, n, false); if (n <= 8) { uint64_t v = 0; memcpy(&v, a, n <= 8 ? n : 8); spin_hint(a, v); } } \
  void __tsan_volatile_write##n(void* a) { point(a, n, true); macc(a, n, true); tso_store(a, n); } \
  void __tsan_unaligned_read##n(void* a) { point(a, n, false); macc(a, n, false); } \
  void __tsan_unaligned_write##n(void* a) { point(a, n, true); macc(a, n, true); tso_store(a, n); } \
  void __tsan_unaligned_volatile_read##n(void* a) { point(a, n, false); macc(a, n, false); } \
  void __tsan_unaligned_volatile_write##n(void* a) { point(a, n, true); macc(a, n, true); tso_store(a, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { point(a, n, false); macc(a, n, false); }
void __tsan_write_range(void* a, unsigned long n) { point(a, n, true); macc(a, n, true); tso_store(a, n); }
void __tsan_vptr_update(void** a, void*) { point(a, 8, true); macc(a, 8, true); tso_store(a, 8); }
void __tsan_vptr_read(void** a) { point(a, 8, false); macc(a, 8, false); }
void __tsan_atomic_thread_fence(int mo) { if (mo == __ATOMIC_SEQ_CST) tso_flush(); __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}
#define AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T* a, int) { point(a, sizeof(T), false); macc((void*)a, sizeof(T), false); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); spin_hint((void*)a, (uint64_t)v); return v; } \
  void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { point(a, sizeof(T), true); macc((void*)a, sizeof(T), true); if (mo == __ATOMIC_SEQ_CST) tso_flush(); else tso_store(a, sizeof(T)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { point(a, sizeof(T), true); macc((void*)a, sizeof(T), true); tso_flush(); T o = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); spin_hint((void*)a, (uint64_t)o); return o; } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { point(a, sizeof(T), true); macc((void*)a, sizeof(T), true); tso_flush(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { point(a, sizeof(T), true); macc((void*)a, sizeof(T), true); tso_flush(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { point(a, sizeof(T), true); macc((void*)a, sizeof(T), true); tso_flush(); T o = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); spin_hint((void*)a, (uint64_t)o); return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { point(a, sizeof(T), true); macc((void*)a, sizeof(T), true); tso_flush(); T o = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); spin_hint((void*)a, (uint64_t)o); return o; } \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { point(a, sizeof(T), true); macc((void*)a, sizeof(T), true); tso_flush(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { point(a, sizeof(T), true); macc((void*)a, sizeof(T), true); tso_flush(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { point(a, sizeof(T), true); macc((void*)a, sizeof(T), true); tso_flush(); T e = *c; bool r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (!r) spin_hint((void*)a, (uint64_t)*c); (void)e; return r; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int x, int y) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, x, y); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { point(a, sizeof(T), true); macc((void*)a, sizeof(T), true); tso_flush(); T e = c; if (!__atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { spin_hint((void*)a, (uint64_t)c); return c; } return e; }
// inline assembly of the code under test: a call to vs_asm_point is put in front of every locked instruction and fence
void vs_asm_hook(void* ra) { point_at(ra, nullptr, 0, true); tso_flush(); }
asm(R"(
.text
.globl vs_asm_point
vs_asm_point:
  pushfq
  push %rax
  push %rcx
  push %rdx
  push %rsi
  push %rdi
  push %r8
  push %r9
  push %r10
  push %r11
  push %rbp
  mov %rsp, %rbp
  mov 88(%rbp), %rdi
  sub $4096, %rsp
  and $-64, %rsp
  mov $0xe7, %eax
  xor %edx, %edx
  movq $0, 512(%rsp)
  movq $0, 520(%rsp)
  movq $0, 528(%rsp)
  movq $0, 536(%rsp)
  movq $0, 544(%rsp)
  movq $0, 552(%rsp)
  movq $0, 560(%rsp)
  movq $0, 568(%rsp)
  xsave (%rsp)
  call vs_asm_hook
  mov $0xe7, %eax
  xor %edx, %edx
  xrstor (%rsp)
  mov %rbp, %rsp
  pop %rbp
  pop %r11
  pop %r10
  pop %r9
  pop %r8
  pop %rdi
  pop %rsi
  pop %rdx
  pop %rcx
  pop %rax
  popfq
  ret
)");
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)

// block operations of instrumented objects (symbols renamed by objcopy): copied in pieces, a switch point between them
extern "C" {
static inline size_t piece(size_t n) { size_t c = n / 6; return c < 8 ? 8 : (c + 7) & ~7ull; }
void* vs_memmove(void* d, const void* s, size_t n) {
  if (!n) return d;
  if (!g_on || !t_id || t_nosw) return memmove(d, s, n);
  size_t c = piece(n);
  if (d <= s || (char*)d >= (char*)s + n) for (size_t o = 0; o < n; o += c) { size_t m = n - o < c ? n - o : c; point((char*)s + o, m, false); point((char*)d + o, m, true); macc((char*)s + o, m, false); macc((char*)d + o, m, true); tso_store((char*)d + o, m); memmove((char*)d + o, (char*)s + o, m); }
  else for (size_t e = n; e > 0;) { size_t m = e < c ? e : c; e -= m; point((char*)s + e, m, false); point((char*)d + e, m, true); macc((char*)s + e, m, false); macc((char*)d + e, m, true); tso_store((char*)d + e, m); memmove((char*)d + e, (char*)s + e, m); }
  return d;
}
void* vs_memcpy(void* d, const void* s, size_t n) { return vs_memmove(d, s, n); }
void* vs_memset(void* d, int v, size_t n) {
  if (!n) return d;
  if (!g_on || !t_id || t_nosw) return memset(d, v, n);
  size_t c = n; if (n <= 4096) c = piece(n);
  for (size_t o = 0; o < n; o += c) { size_t m = n - o < c ? n - o : c; point((char*)d + o, m, true); macc((char*)d + o, m, true); tso_store((char*)d + o, m); memset((char*)d + o, v, m); }
  return d;
}
int vs_memcmp(const void* a, const void* b, size_t n) { if (n && g_on && t_id && !t_nosw) { point(a, n, false); macc(a, n, false); macc(b, n, false); } return memcmp(a, b, n); }
size_t vs_strlen(const char* a) { if (g_on && t_id && !t_nosw) { point(a, 1, false); macc(a, 1, false); } return strlen(a); }
int vs_strcmp(const char* a, const char* b) { if (g_on && t_id && !t_nosw) { point(a, 1, false); macc(a, 1, false); macc(b, 1, false); } return strcmp(a, b); }
}

// -------------------------------------------------------------------------- libc interposition ----
void* malloc(size_t n) { return a_alloc(n, 16); }
void free(void* p) { tso_flush(); a_free(p); }
void* calloc(size_t a, size_t b) { size_t n = a * b; void* p = a_alloc(n, 16); memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) {
  if (!p) return a_alloc(n, 16);
  if (!n) { a_free(p); return nullptr; }
  size_t o = ((Hdr*)p - 1)->size; void* q = a_alloc(n, 16); memcpy(q, p, o < n ? o : n); a_free(p); return q;
}
int posix_memalign(void** o, size_t al, size_t n) { *o = a_alloc(n, al); return 0; }
void* aligned_alloc(size_t al, size_t n) { return a_alloc(n, al); }
void* memalign(size_t al, size_t n) { return a_alloc(n, al); }
void* valloc(size_t n) { return a_alloc(n, 4096); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p - 1)->size : 0; }

int sched_yield() { if (g_on && t_id) { yield(); return 0; } return (int)syscall(SYS_sched_yield); }
int usleep(useconds_t u) { if (g_on && t_id) { yield(); return 0; } struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &ts, nullptr); }
int nanosleep(const struct timespec* a, struct timespec* b) { if (g_on && t_id) { if (on_nap) on_nap(a->tv_sec * 1000 + a->tv_nsec / 1000000); else yield(); return 0; } return (int)syscall(SYS_nanosleep, a, b); }
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { if (g_on && t_id) { yield(); return 0; } return (int)syscall(SYS_clock_nanosleep, c, f, a, b); }
unsigned int sleep(unsigned int s) { if (g_on && t_id) { yield(); return 0; } struct timespec ts = {(time_t)s, 0}; syscall(SYS_nanosleep, &ts, nullptr); return 0; }

static int (*r_lock)(pthread_mutex_t*); static int (*r_try)(pthread_mutex_t*); static int (*r_unlock)(pthread_mutex_t*);
int pthread_mutex_lock(pthread_mutex_t* m) { tso_flush();
  if (!g_on || !t_id || t_nosw) return sym(r_lock, "pthread_mutex_lock")(m);
  point(m, 1, true);
  while (sym(r_try, "pthread_mutex_trylock")(m) != 0) yield();
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) { tso_flush(); point(m, 1, true); return sym(r_try, "pthread_mutex_trylock")(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { tso_flush(); int r = sym(r_unlock, "pthread_mutex_unlock")(m); point(m, 1, true); return r; }

static int (*r_st)(pthread_spinlock_t*); static int (*r_sl)(pthread_spinlock_t*); static int (*r_su)(pthread_spinlock_t*);
int pthread_spin_lock(pthread_spinlock_t* m) { tso_flush();
  if (!g_on || !t_id || t_nosw) return sym(r_sl, "pthread_spin_lock")(m);
  point((void*)m, 1, true); while (sym(r_st, "pthread_spin_trylock")(m) != 0) yield(); return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* m) { tso_flush(); point(m, 1, true); return sym(r_st, "pthread_spin_trylock")(m); }
int pthread_spin_unlock(pthread_spinlock_t* m) { tso_flush(); int r = sym(r_su, "pthread_spin_unlock")(m); point(m, 1, true); return r; }

static int (*r_rd)(pthread_rwlock_t*); static int (*r_wr)(pthread_rwlock_t*); static int (*r_tr)(pthread_rwlock_t*); static int (*r_tw)(pthread_rwlock_t*); static int (*r_ru)(pthread_rwlock_t*);
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { tso_flush();
  if (!g_on || !t_id || t_nosw) return sym(r_rd, "pthread_rwlock_rdlock")(m);
  point(m, 1, true); while (sym(r_tr, "pthread_rwlock_tryrdlock")(m) != 0) yield(); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { tso_flush();
  if (!g_on || !t_id || t_nosw) return sym(r_wr, "pthread_rwlock_wrlock")(m);
  point(m, 1, true); while (sym(r_tw, "pthread_rwlock_trywrlock")(m) != 0) yield(); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { tso_flush(); point(m, 1, true); return sym(r_tr, "pthread_rwlock_tryrdlock")(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { tso_flush(); point(m, 1, true); return sym(r_tw, "pthread_rwlock_trywrlock")(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { tso_flush(); int r = sym(r_ru, "pthread_rwlock_unlock")(m); point(m, 1, true); return r; }

// condition variables: a managed thread that waits is blocked until signalled (no spurious wake-ups)
static int (*r_cw)(pthread_cond_t*, pthread_mutex_t*); static int (*r_cs)(pthread_cond_t*); static int (*r_cb)(pthread_cond_t*);
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { tso_flush();
  if (!g_on || !t_id) return sym(r_cw, "pthread_cond_wait")(c, m);
  point(c, 1, true);
  sym(r_unlock, "pthread_mutex_unlock")(m);
  th[t_id].wait_on = c;
  switch_to(t_id, pick(t_id, true));
  while (sym(r_try, "pthread_mutex_trylock")(m) != 0) yield();
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { tso_flush();
  if (!g_on || !t_id) return sym(r_cs, "pthread_cond_signal")(c);
  int w[MAXT], n = 0;
  for (int i = 1; i <= g_n; i++) if (th[i].used && !th[i].finished && th[i].wait_on == c) w[n++] = i;
  if (n) th[w[g_rng.below(n)]].wait_on = nullptr;
  point(c, 1, true); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) { tso_flush();
  if (!g_on || !t_id) return sym(r_cb, "pthread_cond_broadcast")(c);
  for (int i = 1; i <= g_n; i++) if (th[i].used && !th[i].finished && th[i].wait_on == c) th[i].wait_on = nullptr;
  point(c, 1, true); return 0;
}
// dynamically created threads become managed
struct Start { void* (*f)(void*); void* a; int id; Parked* pk; };
static void* dyn(void* p) {
  Start s = *(Start*)p; 
  t_id = s.id;
  park(s.pk);
  after_switch();
  free(p);
  void* r = nullptr;
  try { r = s.f(s.a); } catch (ThreadExit&) {}
  g_release = &s.pk->rel;                // whoever runs next lets this kernel thread go on below
  finish_self(true);
  t_id = 0;
  return r;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) { tso_flush();
  sym(real_create, "pthread_create");
  if (!g_on || !t_id) return real_create(t, a, f, arg);
  NoSwitch* ns = new NoSwitch;
  int id = std::max(g_n, g_workers) + 1;
  for (int i = g_n + 1; i < id; i++) th[i].finished = true;
  if (id >= MAXT) { static const char m[] = "too many threads\n"; (void)!write(2, m, 17); _exit(44); }
  Start* s = (Start*)malloc(sizeof(Start)); s->f = f; s->a = arg; s->id = id; s->pk = new_parked(); th[id].pk = s->pk;
  th[id].used = true; th[id].finished = false; th[id].wait_on = nullptr;
  th[id].prio = (g_plan.mode == RANDOM) ? 0 : 1500000 + g_rng.below(1000000);
  int r = real_create(t, a, dyn, s);
  fwait(s->pk->captured);
  th[id].pt = *t; g_n = id;
  delete ns;
  point(nullptr, 0, false);
  return r;
}
int pthread_join(pthread_t t, void** o) { tso_flush();
  Parked* pk = nullptr;
  for (int i = g_workers + 1; i < MAXT; i++) if (th[i].used && th[i].pk && i != t_id && pthread_equal(th[i].pt, t)) {
    if (g_on && t_id && !th[i].finished) { th[t_id].wait_on = &th[i]; switch_to(t_id, pick(t_id, true)); }
    if (th[i].finished) { pk = th[i].pk; th[i].pk = nullptr; }
    break;
  }
  int r = sym(real_join, "pthread_join")(t, o);
  if (pk) { pk->next = g_pool; g_pool = pk; }
  return r;
}
}
