// Compiled once per latch configuration; -DCFG=n selects it.  Each configuration lives in a namespace of its own.
#include <atomic>
#include <cstdint>
#include <cassert>
#include <type_traits>
#include <memory>
#include <shared_mutex>
#include <mutex>
#include <thread>
#include <iostream>
#include <immintrin.h>
#include "lock.h"
#define LOG(x) std::cerr
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
namespace CAT(cfg_, CFG) {
#if CFG == 0            // OMCS, queue node pointers
#define OMCS_LOCK
#include "latches/OMCS.h"
#elif CFG == 1          // OMCS, queue node ids
#define OMCS_LOCK
#define OMCS_OFFSET
#include "latches/OMCS.h"
#elif CFG == 2          // OMCS, queue node ids, opportunistic read
#define OMCS_LOCK
#define OMCS_OFFSET
#define OMCS_OP_READ
#define OMCS_OP_READ_NEW_API_CALLBACK
#include "latches/OMCS.h"
#elif CFG == 3          // MCS
#include "latches/MCS.h"
#elif CFG == 4          // MCS readers-writer, pointers
#define MCSRW_LOCK
#define MCSRW_LOCK_ONLY
#define RWLOCK
#include "latches/OMCS.h"
#elif CFG == 5          // MCS readers-writer, ids
#define MCSRW_LOCK
#define MCSRW_LOCK_ONLY
#define RWLOCK
#define OMCS_OFFSET
#include "latches/OMCS.h"
#elif CFG == 6          // centralized, writer preference
#define MCSRW_LOCK
#define RWLOCK_WRITER_PREFERENCE
#define MCSRW_LOCK_CENTRALIZED
#define RWLOCK
#include "latches/OMCS.h"
#elif CFG == 7          // centralized, reader preference
#define MCSRW_LOCK
#define RWLOCK_READER_PREFERENCE
#define MCSRW_LOCK_CENTRALIZED
#define RWLOCK
#include "latches/OMCS.h"
#elif CFG == 8          // std::shared_mutex
#define STDRW_LOCK
#define RWLOCK
#include "latches/OMCS.h"
#elif CFG == 9          // OMCS without queue nodes
#define OMCS_LOCK
#include "latches/OMCS.h"
#elif CFG == 10         // as 9, plain stores in unlock
#define OMCS_LOCK
#define NO_FAA
#define ST_ONLY
#include "latches/OMCS.h"
#elif CFG == 11         // hybrid: the optimistic half
#define OPT_MCSRW_HYBRID_LOCK
#define OMCS_OFFSET
#include "latches/OMCS.h"
#elif CFG == 12         // hybrid: the queue half
#define OPT_MCSRW_HYBRID_LOCK
#define OMCS_OFFSET
#include "latches/OMCS.h"
#endif
#if CFG == 1 || CFG == 2
namespace omcs_impl { OMCSQNode g_nodes[1024]; OMCSQNode* base_qnode = g_nodes; }
#define NODES omcs_impl::g_nodes
#elif CFG == 5 || CFG == 12
namespace mcsrw { MCSRWQNode g_nodes[1024]; MCSRWQNode* base_qnode = g_nodes; }
#define NODES mcsrw::g_nodes
#endif
#if CFG == 11
namespace omcs_impl { OMCSQNode* base_qnode; } namespace mcsrw { MCSRWQNode* base_qnode; }
#elif CFG == 12
namespace omcs_impl { OMCSQNode* base_qnode; }
#endif
#if CFG <= 2
struct L : LockIf {
  OMCSLock k; typedef OMCSLock::Context Q;
#ifdef NODES
  // the context is the address of a slot number: 16 nodes per latch user
  Q* q(void* c) { return NODES + 1 + *(int*)c; }
  size_t ctx_size() override { return 4; }
#else
  Q* q(void* c) { return (Q*)c; }
  size_t ctx_size() override { return sizeof(Q); }
#endif
  void x_lock(void* c, int variant) override {
    Q* n = q(c);
    if (variant == 1) { k.writeLockBegin(n); k.writeLockTurnOffOpRead(); }
#ifdef OMCS_OP_READ_NEW_API_CALLBACK
    else if (variant == 2) { volatile long x; k.writeLockWithRead(n, [&] { x = *peek; }); if (x != *peek) abort(); }
#endif
    else k.writeLock(n);
  }
  void x_unlock(void* c, uint64_t) override { k.writeUnlock(q(c)); }
  bool o_begin(uint64_t& v, bool block) override { if (block) { v = k.readLock(); return true; } bool nr = false; v = k.readLockOrRestart(nr); return !nr; }
  bool o_valid(uint64_t v) override { bool nr = false; k.checkOrRestart(v, nr); return !nr; }
  bool upgrade(uint64_t v, void* c) override { bool nr = false; k.upgradeToWriteLockOrRestart(v, q(c), nr); return !nr; }
  bool has_o() override { return true; }
};
#elif CFG == 3
struct L : LockIf {
  mcs::MCSLock k; typedef mcs::MCSQNode Q;
  size_t ctx_size() override { return sizeof(Q); }
  void x_lock(void* c, int) override { k.lock((Q*)c); }
  void x_unlock(void* c, uint64_t) override { k.unlock((Q*)c); }
  bool try_x(void* c) override { return k.try_lock((Q*)c); }
  bool has_try() override { return true; }
};
#elif CFG == 4 || CFG == 5
struct L : LockIf {
  OMCSLock k; typedef OMCSLock::Context Q;
#ifdef NODES
  Q* q(void* c) { return NODES + 1 + *(int*)c; }
  size_t ctx_size() override { return 4; }
#else
  Q* q(void* c) { return (Q*)c; }
  size_t ctx_size() override { return sizeof(Q); }
#endif
  void x_lock(void* c, int) override { k.writeLock(q(c)); }
  void x_unlock(void* c, uint64_t) override { k.writeUnlock(q(c)); }
  void s_lock(void* c) override { k.readLock(q(c)); }
  void s_unlock(void* c) override { k.readUnlock(q(c)); }
  bool has_s() override { return true; }
};
#elif CFG <= 8
struct L : LockIf {
  OMCSLock k;
  void x_lock(void*, int) override { k.writeLock(); }
  void x_unlock(void*, uint64_t) override { k.writeUnlock(); }
  void s_lock(void*) override { k.readLock(); }
  void s_unlock(void*) override { k.readUnlock(); }
  bool has_s() override { return true; }
};
#elif CFG <= 10
struct L : LockIf {
  OMCSLock k;
  void x_lock(void* c, int) override { *(uint64_t*)c = k.writeLock(); }
  void x_unlock(void* c, uint64_t) override { k.writeUnlock(*(uint64_t*)c); }
  size_t ctx_size() override { return 8; }
  bool o_begin(uint64_t& v, bool block) override { if (block) { v = k.readLock(); return true; } bool nr = false; v = k.readLockOrRestart(nr); return !nr; }
  bool o_valid(uint64_t v) override { bool nr = false; k.readUnlockOrRestart(v, nr); return !nr; }
  bool upgrade(uint64_t v, void* c) override { bool nr = false; uint64_t w = v; k.upgradeToWriteLockOrRestart(w, nr); *(uint64_t*)c = v; return !nr; }
  bool has_o() override { return true; }
};
#elif CFG == 11
struct L : LockIf {
  OptLock k;
  void x_unlock(void* c, uint64_t) override { k.writeUnlock(*(uint64_t*)c); }
  size_t ctx_size() override { return 8; }
  bool o_begin(uint64_t& v, bool block) override { bool nr; do { nr = false; v = k.readLockOrRestart(nr); } while (block && nr); return !nr; }
  bool o_valid(uint64_t v) override { bool nr = false; k.checkOrRestart(v, nr); return !nr; }
  bool upgrade(uint64_t v, void* c) override { bool nr = false; uint64_t w = v; k.upgradeToWriteLockOrRestart(w, nr); *(uint64_t*)c = v; return !nr; }
  bool has_x() override { return false; }
  bool has_o() override { return true; }
};
#else
struct L : LockIf {
  MCSRWLock k; typedef OMCSLock::Context Q;
  Q* q(void* c) { return NODES + 1 + *(int*)c; }
  size_t ctx_size() override { return 4; }
  void x_lock(void* c, int) override { k.writeLock(q(c)); }
  void x_unlock(void* c, uint64_t) override { k.writeUnlock(q(c)); }
  void s_lock(void* c) override { k.readLock(q(c)); }
  void s_unlock(void* c) override { k.readUnlock(q(c)); }
  bool has_s() override { return true; }
};
#endif
}
LockIf* CAT(mk_lock_, CFG)() { return new CAT(cfg_, CFG)::L; }
