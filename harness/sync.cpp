// Synchronisation utilities: semaphore, barriers, thread pool, counting pointer
#include "rt/driver.h"
#include <tlx/semaphore.hpp>
#include <tlx/thread_barrier_mutex.hpp>
#include <tlx/thread_barrier_spin.hpp>
#include <tlx/thread_pool.hpp>
#include <tlx/counting_ptr.hpp>
#include <memory>
#include <set>
#include <map>
#include <stdexcept>
namespace v = vd; using vd::Op; using vd::Scn; using vd::Rng; using vd::pf;
// Native monitor: ranks histories for validation (it never decides)
struct Mon {
  char kind; int n; long tok, upper; std::map<int, Op> pend; std::set<int> enqd, started, ended, dead, must[16]; std::map<int, std::set<int>> runAt; bool term, termed; int budget; long lastdone;
  std::map<int, int> cnt; int b, e; std::map<int, int> slot; std::set<int> odead, omade;
  void reset(const std::string& k, int nn) { *this = Mon(); kind = k[0]; n = nn; tok = upper = nn; term = termed = false; budget = 0; lastdone = 0; b = e = 0; pf.on = pf.ext = true; pf.ext_ok = true; }
  void bad(bool ok) { if (!ok) pf.ext_ok = false; }
  void call(int t, const char* o, int k, long v) {
    Op p; p.o = o; p.k = k; p.v = v; pend[t] = p;
    if (p.o == "sig") upper += k; if (p.o == "bwait") cnt[t]++;
    if (p.o == "lue") must[t & 15] = enqd; if (p.o == "term" || p.o == "dtor") { term = true; }
    if (p.o == "lut") { std::set<int> r; for (int j : started) if (!ended.count(j)) r.insert(j); runAt[t] = r; }
  }
  std::map<int, int> nx; int refs(int o) { int c = 0; for (auto& p : slot) c += p.second == o; for (auto& p : nx) if (!odead.count(p.first)) c += p.second == o; return c; }
  void ret(int t, long r) {
    Op p = pend[t]; pend[t].o = ""; if (p.o == "wait" || (p.o == "try" && r)) { upper -= p.k; bad(upper >= 0); }
    if (kind == 's' && p.o == "val") bad(r == upper);
    if (p.o == "bwait") bad(e >= cnt[t]); if (p.o == "step") bad(r == e % 2);
    if (p.o == "enq") enqd.insert(p.k);
    if (p.o == "lue") { for (int j : must[t & 15]) bad(dead.count(j)); lastdone = std::max<long>(lastdone, must[t & 15].size()); }
    if (p.o == "term") { termed = true; int run = 0; for (int j : started) run += !ended.count(j); budget = n - run; }
    if (p.o == "lut") { bad(term); for (int j : runAt[t]) bad(ended.count(j)); }
    if (p.o == "done") bad(r >= lastdone && r <= (long)dead.size()); if (p.o == "size") bad(r == n);
    if (p.o == "dtor") { for (int j : enqd) bad(dead.count(j)); for (int j : started) bad(ended.count(j)); }
    if (kind == 'r') {
      if (p.o == "mk") { slot[p.k] = p.v; omade.insert(p.v); } else if (p.o == "cp") slot[p.k] = slot[p.v]; else if (p.o == "mc" || p.o == "mv") { int x = slot[p.v]; if (p.k != p.v) { if (!(p.o == "mv" && slot[p.k] == x)) { slot[p.v] = 0; slot[p.k] = x; } } }
      else if (p.o == "rs") slot[p.k] = 0; else if (p.o == "sw") std::swap(slot[p.k], slot[p.v]); else if (p.o == "get") bad(r == slot[p.k]); else if (p.o == "uc") bad(r == refs(slot[p.k]));
      else if (p.o == "lk") nx[slot[p.k]] = slot[p.v]; else if (p.o == "nxt") slot[p.k] = nx[slot[p.k]]; else if (p.o == "nxm") { int o = slot[p.k], q = nx[o]; if (q != o) { slot[p.k] = q; nx[o] = 0; } }
      else if (p.o == "uniq") bad(r == (slot[p.k] && refs(slot[p.k]) == 1)); else if (p.o == "eq") bad(r == (slot[p.k] == slot[p.v])); else if (p.o == "unify") { if (thr1) bad(r == (slot[p.k] && refs(slot[p.k]) > 1)); if (r) { slot[p.k] = p.v; omade.insert(p.v); } }
      if (thr1) for (int o : omade) bad(odead.count(o) || refs(o) > 0);
    }
  }
  bool thr1 = false;
  void other(const char* ev, int t, int k) {
    std::string x = ev;
    if (x == "bb") { bad(b == e && (int)cnt.size() == n); for (auto& c : cnt) bad(c.second == b + 1); b++; }
    if (x == "be") e++;
    if (x == "jb") { bad(started.insert(k).second); int run = 0; for (int j : started) run += !ended.count(j); bad(run <= n); if (termed) bad(--budget >= 0); }
    if (x == "je") ended.insert(k);
    if (x == "jd") bad(dead.insert(k).second);
    if (x == "od") { bad(odead.insert(k).second); std::set<int> owners; for (auto& p : slot) if (p.second == k) owners.insert(p.first); bad((int)owners.size() <= 2); }
    if (x == "f") { if (kind == 'b') bad(b == e); }
  }
};
static Mon mon;
static void call(int t, const char* o, int k, long v = 0) { { vs::NoSwitch ns; mon.call(t, o, k, v); } vs::ev("{\"e\":\"c\",\"t\":%d,\"o\":\"%s\",\"k\":%d,\"v\":%ld}", t, o, k, v); }
static void ret(int t, long r) { { vs::NoSwitch ns; mon.ret(t, r); } vs::ev("{\"e\":\"r\",\"t\":%d,\"r\":%ld}", t, r); }
static void evk(const char* e, int k) { { vs::NoSwitch ns; mon.other(e, vs::tid(), k); } vs::ev("{\"e\":\"%s\",\"t\":%d,\"k\":%d}", e, vs::tid(), k); }
static volatile int g_dummy[64];
static void touch(int n) { for (int i = 0; i < n; i++) g_dummy[i & 63] = i; }      // instrumented: points at which others may run

// --- jobs
struct Ad;
static Ad* g_ad;
struct Tok {                               // the context a job captures: destroyed exactly once
  int id; bool own = true; int* payload;
  explicit Tok(int i) : id(i), payload(new int(i * 3 + 1)) {}
  Tok(Tok&& o) noexcept : id(o.id), own(o.own), payload(o.payload) { o.own = false; }
  Tok(const Tok& o) = delete;
  ~Tok() { if (own) { delete payload; evk("jd", id % 100); } }
};
struct Job { Tok t; void operator()(); };
// --- reference counted objects
struct Obj : public tlx::ReferenceCounter {
  int id; int magic = 4711; tlx::CountingPtr<Obj> next;
  explicit Obj(int i) : id(i) {}
  Obj(const Obj& o);
  ~Obj() { magic = 0; evk("od", id); }
};
struct Sub : public Obj { explicit Sub(int i) : Obj(i) {} };
static int g_copy_ids[64];
Obj::Obj(const Obj& o) : tlx::ReferenceCounter(o), id(g_copy_ids[vs::tid()]) {}
using Ptr = tlx::CountingPtr<Obj>;

struct Ad {
  std::unique_ptr<tlx::Semaphore> sem; std::unique_ptr<tlx::ThreadBarrierMutex> bm; std::unique_ptr<tlx::ThreadBarrierSpin> bs;
  tlx::ThreadPool* pool; volatile int ready, left; const Scn* sc; std::vector<Ptr>* slot;
  std::string kind;
  static bool dfs(const Scn& s, std::vector<int>& pc, int v, std::set<std::pair<std::vector<int>, int>>& seen) {
    if (!seen.insert({pc, v}).second) return false;
    bool any = false, all = true;
    for (size_t t = 0; t < pc.size(); t++) {
      if (pc[t] == (int)s.thr[t].size()) continue;
      all = false; const Op& o = s.thr[t][pc[t]]; int nv = v;
      if (o.o[0] == 's') nv = v + o.k; else if (v >= o.k + o.v) nv = v - o.k; else if (o.o != "try") continue;
      any = true; pc[t]++; bool b = dfs(s, pc, nv, seen); pc[t]--; if (b) return true;
    }
    return !any && !all;
  }
  static bool stuck(const Scn& s, int init) { std::vector<int> pc(s.thr.size(), 0); std::set<std::pair<std::vector<int>, int>> seen; return dfs(s, pc, init, seen); }
  void gen(Rng& r, Scn& s, const std::string& kd) {
    kind = kd;
    auto P = [](const char* o, int k = 0, long v = 0) { Op p; p.o = o; p.k = k; p.v = v; return p; };
    if (kd == "sem") {
      // any mix of waiting and signalling threads in which no schedule of the abstract semaphore gets stuck
      int init = r.below(3);
      do {
        s.thr.clear(); int T = 2 + r.below(3);
        for (int t = 0; t < T; t++) { std::vector<Op> v; int m = 1 + r.below(4), bias = r.below(3);
          for (int i = 0; i < m; i++) {
            int d = r.below(8) < 5 ? 1 : 1 + r.below(3), sl = r.chance(80) ? 0 : r.below(3), x = r.below(10);
            if (x < 1) v.push_back(P("try", d, sl));
            else if (bias == 0 ? x < 8 : bias == 1 ? x < 4 : x < 6) v.push_back(P(sl == 0 && d == 1 && r.chance(60) ? "wait1" : sl == 0 && r.chance(50) ? "waitd" : "wait", d, sl));
            else v.push_back(P(d == 1 && r.chance(70) ? "sig1" : "sig", d));
          } s.thr.push_back(v); }
      } while (stuck(s, init));
      s.par["n"] = init;
    } else if (kd == "barrier") {
      int T = 1 + r.below(4), R = 1 + r.below(4); s.par["n"] = T; s.par["spin"] = r.below(2);
      for (int t = 0; t < T; t++) { std::vector<Op> v; for (int i = 0; i < R; i++) { v.push_back(P(r.chance(50) ? "wait" : "yield", t, i)); if (r.chance(20)) v.push_back(P("idle")); } if (r.chance(20)) v.push_back(P("step")); s.thr.push_back(v); }
    } else if (kd == "pool") {
      int sz = 1 + r.below(3), T = 1 + r.below(3), J = r.below(5), id = 1; s.par["n"] = sz; s.par["init"] = r.chance(40);
      bool term = r.chance(40); s.par["term"] = term; s.par["jterm"] = term && r.chance(40);
      bool lut = term && r.chance(80);
      s.thr.resize(T);
      for (int j = 0; j < J; j++) { Op o = P("enq", id++); o.hi = r.chance(20) ? 1 : r.chance(15) ? 2 : 0; s.thr[r.below(T)].push_back(o); }   // hi 1: the job enqueues another; 2: it throws
      s.par["child"] = 50;
      for (int t = 0; t < T; t++) {
        if (r.chance(30)) s.thr[t].push_back(P(r.chance(50) ? "done" : r.chance(40) ? "idle" : r.chance(50) ? "size" : "hasidle"));
        if (!term && r.chance(60)) { s.thr[t].push_back(P("lue")); if (r.chance(30)) s.thr[t].push_back(P("done")); if (r.chance(30)) { s.thr[t].push_back(P("enq", id++)); if (r.chance(60)) s.thr[t].push_back(P("lue")); } }
      }
      if (term) {
        if (s.par["jterm"] && J > 0) { for (auto& v : s.thr) for (auto& o : v) if (o.k == J) o.hi = 3; } else { s.par["jterm"] = 0; s.thr[r.below(T)].push_back(P("term")); }
        // a thread waits for termination: no such wait in front of the termination it waits for
        if (lut) for (int t = 0; t < T; t++) if (r.chance(70)) s.thr[t].push_back(P("lut"));
        
      }
    } else {                                 // refs
      int T = kd == "refs1" ? 1 : 2 + r.below(2), per = kd == "refs1" ? 4 : 2; s.par["n"] = T * per; s.par["per"] = per; int id = 1;
      for (int k = 0; k < T * per; k++) s.init.push_back(P("mk", k, r.chance(30) && k > 0 ? 0 : k == 0 || r.chance(40) ? id++ : -1));   // -1: copy of slot 0, 0: null
      for (int t = 0; t < T; t++) {
        std::vector<Op> v; int m = kd == "refs1" ? 3 + r.below(12) : 1 + r.below(5);
        for (int i = 0; i < m; i++) {
          int a = t * per + r.below(per), b = t * per + r.below(per), x = r.below(kd == "refs1" ? 21 : 10);
          static const char* n[] = {"cp", "cp", "mv", "rs", "sw", "get", "mk", "cc", "mc", "unify", "uc", "uniq", "eq", "msub", "cp", "lk", "lk", "lk", "nxt", "nxm", "nxt"};
          Op o = P(n[x], a, b); if (o.o == "mk" || o.o == "unify" || o.o == "msub") { o.v = 100 + id++; }
          if (o.o == "mv" && a == b) o.o = "get";
          v.push_back(o);
        }
        s.thr.push_back(v);
      }
    }
  }
  std::string header(const Scn& s) {
    std::string k = kind == "refs1" ? "refs" : kind;
    return ",\"kind\":\"" + k + "\",\"n\":" + std::to_string(s.par.at("n")) + ",\"thr\":" + std::to_string(s.thr.size()) + ",\"init\":" + std::to_string(s.par.count("init") ? s.par.at("init") : 0);
  }
  void setup(const Scn& s) {
    sc = &s; g_ad = this; { vs::NoSwitch ns; mon.reset(kind, s.par.at("n")); mon.thr1 = kind == "refs1"; } pool = nullptr; ready = 0; left = (int)s.thr.size();
    if (kind == "sem") sem.reset(new tlx::Semaphore(s.par.at("n")));
    if (kind == "barrier") { bm.reset(new tlx::ThreadBarrierMutex(s.par.at("n"))); bs.reset(new tlx::ThreadBarrierSpin(s.par.at("n"))); }
    if (kind[0] == 'r') {
      slot = new std::vector<Ptr>(s.par.at("n"));
      for (auto& o : s.init) { if (o.v == 0) continue; if (o.v > 0) { call(8, "mk", o.k, o.v); (*slot)[o.k] = tlx::make_counting<Obj>((int)o.v); ret(8, 0); } else { call(8, "cp", o.k, 0); (*slot)[o.k] = (*slot)[0]; ret(8, 0); } }
    }
  }
  void enq(int t, const Op& o) {
    call(t, "enq", o.k);
    pool->enqueue(Job{Tok(o.k + 100 * o.hi)});
    ret(t, 0);
  }
  void thread(int t, const Scn& s) {
    if (kind == "sem") for (auto& o : s.thr[t - 1]) {
      if (o.o == "sig1") { call(t, "sig", 1); ret(t, sem->signal()); }
      else if (o.o == "sig") { call(t, "sig", o.k); ret(t, sem->signal(o.k)); }
      else if (o.o == "wait1") { call(t, "wait", 1, 0); ret(t, sem->wait()); }
      else if (o.o == "waitd") { call(t, "wait", o.k, 0); ret(t, sem->wait(o.k)); }
      else if (o.o == "wait") { call(t, "wait", o.k, o.v); ret(t, sem->wait(o.k, o.v)); }
      else { call(t, "try", o.k, o.v); ret(t, sem->try_acquire(o.k, o.v)); }
    }
    else if (kind == "barrier") {
      bool spin = s.par.at("spin");
      auto lam = [] { evk("bb", 0); touch(3); evk("be", 0); };
      for (auto& o : s.thr[t - 1]) {
        if (o.o == "idle") { touch(20); continue; }
        if (o.o == "step") { continue; }
        call(t, "bwait", 0);
        if (o.o == "wait") { if (spin) bs->wait(lam); else bm->wait(lam); } else { if (spin) bs->wait_yield(lam); else bm->wait_yield(lam); }
        ret(t, 0);
      }
    }
    else if (kind == "pool") {
      if (t == 1) {
        if (s.par.at("init")) pool = new tlx::ThreadPool(s.par.at("n"), [](size_t p) { evk("it", (int)p); touch(2); });
        else pool = new tlx::ThreadPool(s.par.at("n"));
        ready = 1;
      } else while (!ready) vs::yield();
      for (auto& o : s.thr[t - 1]) {
        if (o.o == "enq") enq(t, o);
        else if (o.o == "lue") { call(t, "lue", 0); pool->loop_until_empty(); ret(t, 0); }
        else if (o.o == "lut") { call(t, "lut", 0); pool->loop_until_terminate(); ret(t, 0); }
        else if (o.o == "term") { call(t, "term", 0); pool->terminate(); ret(t, 0); }
        else if (o.o == "done") { call(t, "done", 0); ret(t, pool->done()); }
        else if (o.o == "size") { call(t, "size", 0); ret(t, pool->size()); }
        else if (o.o == "idle") { call(t, "idle", 0); ret(t, pool->idle()); }
        else if (o.o == "hasidle") { call(t, "hasidle", 0); ret(t, pool->has_idle()); }
      }
      __atomic_fetch_sub(&left, 1, __ATOMIC_SEQ_CST);
      if (t == 1) { while (left) vs::yield(); call(t, "dtor", 0); delete pool; ret(t, 0); }
    }
    else for (auto& o : s.thr[t - 1]) {
      auto& S = *slot; Ptr& a = S[o.k];
      if (o.o == "cp") { call(t, "cp", o.k, o.v); a = S[o.v]; ret(t, 0); }
      else if (o.o == "cc") { call(t, "cp", o.k, o.v); { Ptr x(S[o.v]); Ptr y(x); a.swap(y); } ret(t, 0); }
      else if (o.o == "mc") { if (o.k == o.v) continue; call(t, "mc", o.k, o.v); { Ptr x(std::move(S[o.v])); swap(a, x); } ret(t, 0); }
      else if (o.o == "mv") { call(t, "mv", o.k, o.v); a = std::move(S[o.v]); ret(t, 0); }
      else if (o.o == "rs") { call(t, "rs", o.k); a.reset(); ret(t, 0); }
      else if (o.o == "sw") { call(t, "sw", o.k, o.v); a.swap(S[o.v]); ret(t, 0); }
      else if (o.o == "mk") { call(t, "mk", o.k, o.v); a = tlx::make_counting<Obj>((int)o.v); ret(t, 0); }
      else if (o.o == "msub") { call(t, "mk", o.k, o.v); { tlx::CountingPtr<Sub> x = tlx::make_counting<Sub>((int)o.v), y = x; if (o.v & 1) a = x; else { a = std::move(y); } } ret(t, 0); }
      else if (o.o == "get") { call(t, "get", o.k); int r = 0; if (a) { r = a->magic == 4711 ? a->id : -5; if (&*a != a.get()) r = -6; } else if (!a.empty() || a.valid() || a != nullptr) r = -7; ret(t, r); }
      else if (o.o == "lk") { if (!a) continue; call(t, "lk", o.k, o.v); a->next = S[o.v]; ret(t, 0); }
      else if (o.o == "nxt") { if (!a) continue; call(t, "nxt", o.k); a = a->next; ret(t, 0); }
      else if (o.o == "nxm") { if (!a) continue; call(t, "nxm", o.k); a = std::move(a->next); ret(t, 0); }
      else if (o.o == "uc") { if (!a) continue; call(t, "uc", o.k); ret(t, a.use_count()); }
      else if (o.o == "uniq") { call(t, "uniq", o.k); ret(t, a.unique()); }
      else if (o.o == "eq") { call(t, "eq", o.k, o.v); bool e = a == S[o.v]; if (e == (a != S[o.v]) || e != (a == S[o.v].get())) ret(t, -5); else ret(t, e); }
      else if (o.o == "unify") { call(t, "unify", o.k, o.v); Obj* before = a.get(); g_copy_ids[t] = o.v; a.unify(); ret(t, a.get() != before); }
    }
  }
  void job(int id) {
    int hi = id / 100, k = id % 100;
    evk("jb", k); touch(3);
    if (hi == 1) { int t = vs::tid(); Op o; o.o = "enq"; o.k = k + 50; enq(t, o); }
    if (hi == 3) { int t = vs::tid(); call(t, "term", 0); pool->terminate(); ret(t, 0); }
    touch(3); evk("je", k);
    if (hi == 2) throw std::runtime_error("job");
  }
  void finish(const Scn& s) {
    if (kind == "sem") { call(8, "val", 0); ret(8, sem->value()); }
    if (kind == "barrier") { call(8, "step", 0); ret(8, (s.par.at("spin") ? bs->step() : bm->step()) & 1); }
    if (kind[0] == 'r') for (int k = 0; k < s.par.at("n"); k++) { auto& a = (*slot)[k]; call(8, "get", k); ret(8, a ? a->id : 0); if (a) { call(8, "uc", k); ret(8, a.use_count()); } }
    if (kind[0] == 'r') for (int k = 0; k < s.par.at("n"); k++) { call(8, "rs", k); (*slot)[k].reset(); ret(8, 0); }
    evk("f", 0);
  }
  void teardown(const Scn& s) { sem.reset(); bm.reset(); bs.reset(); if (kind[0] == 'r') delete slot; }
};
void Job::operator()() { if (*t.payload != t.id * 3 + 1) evk("x", 0); g_ad->job(t.id); }
int main(int c, char** v) { return vd::conc_main<Ad>(c, v); }
