#pragma once
#include <cstdint>
#include <cstddef>
// one latch configuration of the repository behind a common interface
struct LockIf {
  volatile long* peek = nullptr;                     // protected word, read by the read callback of the opportunistic variant
  virtual ~LockIf() {}
  virtual size_t ctx_size() { return 0; }            // per acquisition context
  virtual void x_lock(void* ctx, int variant) {}     // blocking exclusive
  virtual void x_unlock(void* ctx, uint64_t v) {}
  virtual bool try_x(void* ctx) { return false; }
  virtual bool o_begin(uint64_t& v, bool block) { return false; }
  virtual bool o_valid(uint64_t v) { return false; }
  virtual bool upgrade(uint64_t v, void* ctx) { return false; }
  virtual void s_lock(void* ctx) {}
  virtual void s_unlock(void* ctx) {}
  virtual bool has_x() { return true; } virtual bool has_try() { return false; } virtual bool has_o() { return false; } virtual bool has_s() { return false; }
};

