#pragma once
#include <vector>
#include <algorithm>
// node slabs are replaced by the allocator that watches accesses to freed blocks
struct fslab { u64 osz, bsz; std::vector<void*>* live; };
void* __wrap_slab_create(u64 o, u64 b) { vs::NoSwitch ns; fslab* s = (fslab*)malloc(sizeof *s); s->osz = o; s->bsz = b; s->live = new std::vector<void*>; return s; }
bool __wrap_slab_reserve_unsafe(void*, u64) { return true; }
static void* fs_alloc(fslab* s) { vs::NoSwitch ns; void* p = nullptr; if (posix_memalign(&p, 64, s->osz)) return nullptr; memset(p, 0, s->osz); s->live->push_back(p); return p; }
static void fs_free(fslab* s, void* p) { vs::NoSwitch ns; auto& v = *s->live; v.erase(std::remove(v.begin(), v.end(), p), v.end()); free(p); }
void* __wrap_slab_alloc_unsafe(fslab* s) { return fs_alloc(s); }
void* __wrap_slab_alloc_safe(fslab* s) { return fs_alloc(s); }
void __wrap_slab_free_unsafe(fslab* s, void* p) { fs_free(s, p); }
void __wrap_slab_free_safe(fslab* s, void* p) { fs_free(s, p); }
void __wrap_slab_free_all(fslab* s) { vs::NoSwitch ns; for (auto p : *s->live) free(p); s->live->clear(); }
void __wrap_slab_destroy(fslab* s) { vs::NoSwitch ns; for (auto p : *s->live) free(p); delete s->live; free(s); }
