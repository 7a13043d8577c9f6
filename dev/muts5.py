# locks, wormhole library, sequential wormhole, misc: (id, property, file, old, new, n-th occurrence)
W="wormhole/wh.c"; L="wormhole/lib.c"; R="OptiQL/latches/MCSRW.h"
M=[
("b02-pref-writer-order","B02",R,"    reader_count_and_flag_.fetch_sub(kWriterActiveFlag);\n    write_completions_.fetch_add(1);","    write_completions_.fetch_add(1);\n    reader_count_and_flag_.fetch_sub(kWriterActiveFlag);",1),
("b02-reader-nowaitflag","B02",R,"    reader_count_and_flag_.fetch_add(kReaderCountIncr);\n    while (reader_count_and_flag_.load(std::memory_order_acquire) & kWriterActiveFlag) {\n    }","    if (!(reader_count_and_flag_.fetch_add(kReaderCountIncr) & kWriterActiveFlag)) return;\n    while (write_requests_.load() != write_completions_.load()) {\n    }",1),
("b02-nextwriter-first","B02",R,"      next_writer_.exchange(self);\n      if (reader_count_.load(std::memory_order_acquire) == 0) {\n        if (next_writer_.exchange(kNullPtr) == self) {","      bool idle = reader_count_.load(std::memory_order_acquire) == 0;\n      next_writer_.exchange(self);\n      if (idle) {\n        if (next_writer_.exchange(kNullPtr) == self) {",1),
("b02-nextwriter-noself","B02",R,"        if (next_writer_.exchange(kNullPtr) == self) {\n","        next_writer_.exchange(kNullPtr);\n        {\n",1),
("b02-setnext-before-class","B02",R,"      pred->set_successor_class(MCSRWSuccessorClass::WRITER);\n      std::atomic_thread_fence(std::memory_order_seq_cst);\n      pred->set_next(qnode);","      pred->set_next(qnode);\n      pred->set_successor_class(MCSRWSuccessorClass::WRITER);\n      std::atomic_thread_fence(std::memory_order_seq_cst);",1),
("b02-unlock-count-late","B02",R,"    if (succ->get_class() == MCSRWRequestorClass::READING) {\n      reader_count_.fetch_add(1);\n    }\n    succ->set_blocked(kUnblocked);","    succ->set_blocked(kUnblocked);\n    if (succ->get_class() == MCSRWRequestorClass::READING) {\n      reader_count_.fetch_add(1);\n    }",1),
("b02-rd-incr-late","B02",R,"        reader_count_.fetch_add(1);\n        pred->set_next(qnode);\n        qnode->set_blocked(kUnblocked);","        pred->set_next(qnode);\n        reader_count_.fetch_add(1);\n        qnode->set_blocked(kUnblocked);",1),
("b02-rd-cas-none","B02",R,"              MCSRWQNode::make_state(kBlocked, MCSRWSuccessorClass::READER))) {","              MCSRWQNode::make_state(kBlocked, MCSRWSuccessorClass::NONE))) {",1),
("b02-rd-succ-count","B02",R,"      reader_count_.fetch_add(1);\n      succ->set_blocked(kUnblocked);\n    }\n  }\n\n  inline void read_unlock","      succ->set_blocked(kUnblocked);\n      reader_count_.fetch_add(1);\n    }\n  }\n\n  inline void read_unlock",1),
("b02-exit-norecheck","B02",R,"        reader_count_.load(std::memory_order_acquire) == 0 &&\n        next_writer_.compare","        next_writer_.compare",1),
("b02-exit-store","B02",R,"        next_writer_.compare_exchange_strong(w, kNullPtr)) {","        (next_writer_.store(kNullPtr), true)) {",1),
("b02-unlock-nowait","B02",R,"      do {\n        succ = qnode->get_next();\n      } while (succ == nullptr);\n    }\n\n    assert(succ != nullptr);\n\n    if (qnode->get","      if (qnode->get_successor_class() != MCSRWSuccessorClass::WRITER) goto reader_exit;\n      do {\n        succ = qnode->get_next();\n      } while (succ == nullptr);\n    }\n\n    assert(succ != nullptr);\n\n    if (qnode->get",1),
("b02-nextw-relink","B02",R,"    if (qnode->get_successor_class() == MCSRWSuccessorClass::WRITER) {\n      offset_t next","    if (qnode->get_successor_class() == MCSRWSuccessorClass::WRITER && reader_count_.load() == 1) {\n      offset_t next",1),
# wormhole library
("g04-rd-nr-relock","G04",L,"    if ((atomic_load_explicit(pvar, MO_CONSUME) >> RWLOCK_WSHIFT) == 0) {\n      rwdep_lock_read(lock);\n      return true;\n    }\n  } while (nr--);\n\n  atomic_fetch_sub_explicit(pvar, 1, MO_RELAXED);","    if ((atomic_load_explicit(pvar, MO_CONSUME) >> RWLOCK_WSHIFT) == 0) {\n      rwdep_lock_read(lock);\n      return true;\n    }\n  } while (nr--);\n",1),
("g04-rd-fail-nosub","G04",L,"    atomic_fetch_sub_explicit(pvar, 1, MO_RELAXED);\n    return false;\n  }\n}","    if (atomic_load_explicit(pvar, MO_CONSUME) >> RWLOCK_WSHIFT)\n      atomic_fetch_sub_explicit(pvar, 1, MO_RELAXED);\n    return false;\n  }\n}",1),
("g04-hp-waitloop","G04",L,"      while (atomic_load_explicit(pvar, MO_CONSUME) != RWLOCK_WBIT) {","      for (u32 spin = 0; spin < 8 && atomic_load_explicit(pvar, MO_CONSUME) != RWLOCK_WBIT; spin++) {",1),
("g04-hp-v0one","G04",L,"    if (v0) { // saw active readers","    if (v0 > 1) { // saw active readers",1),
("g04-write-to-read","G04",L,"  atomic_fetch_add_explicit(pvar, ((lock_v)1) - RWLOCK_WBIT, MO_ACQ_REL);","  atomic_fetch_sub_explicit(pvar, RWLOCK_WBIT, MO_ACQ_REL);\n  atomic_fetch_add_explicit(pvar, 1, MO_ACQ_REL);",1),
("g04-unlock-write-store","G04",L,"  atomic_fetch_sub_explicit(pvar, RWLOCK_WBIT, MO_RELEASE);","  atomic_store_explicit(pvar, 0, MO_RELEASE);",1),
("g04-slab-nolock","G04",L,"  mutex_lock(&slab->lock);\n  do {\n    ret = astk_pop_safe(&slab->magic); // may","  if (slab->head_active) mutex_lock(&slab->lock); else mutex_trylock(&slab->lock);\n  do {\n    ret = astk_pop_safe(&slab->magic); // may",1),
("g04-slab-freeall","G04",L,"    iter->next = slab->head_backup; // active..backup","    iter->next = NULL; // active..backup",1),
("g04-slab-addlen","G04",L,"  for (u64 i = 1; i < slab->objs_per_slab; i++) {","  for (u64 i = 1; i <= slab->objs_per_slab; i++) {",1),
("g04-slab-objs","G04",L,"  slab->objs_per_slab = (blk_size - obj0_offset) / obj_size;","  slab->objs_per_slab = blk_size / obj_size;",1),
("g04-slab-nready","G04",L,"  slab->nr_ready = 0; // backup does not count\n","",1),
("g04-slab-expand","G04",L,"    slab->head_backup = old->next;\n    slab_add(slab, old, is_safe);","    slab_add(slab, old, is_safe);\n    slab->head_backup = old->next;",1),
# sequential wormhole
("g05-merge-del","G05",W,"  if ((leaf->prev && (n1 == 0)) || ((n0 + n1) < WH_KPN_MRG)) {\n    whunsafe","  if ((leaf->prev && (n1 == 0)) || ((n0 + n1) <= WH_KPN)) {\n    whunsafe",1),
("g05-merge-next","G05",W,"  } else if ((leaf->next && (n1 == 0)) || ((n1 + n2) < WH_KPN_MRG)) {\n    whunsafe_meta_leaf_merge(map, leaf, leaf->next);","  } else if ((leaf->next && (n1 == 0)) || ((n1 + n2) < WH_KPN_MRG)) {\n    whunsafe_meta_leaf_merge(map, leaf, leaf->next ? leaf->next : leaf->prev);",1),
("g05-delr-onenode","G05",W,"  if (leafa == leafz) { // one node only\n    whunsafe_del_try_merge(map, leafa);\n","  if (leafa == leafz) { // one node only\n    whunsafe_del_try_merge(map, leafa->next ? leafa->next : leafa);\n",1),
("g05-delr-mid-one","G05",W,"    leafx->nr_keys = 0;\n    leafx->nr_sorted = 0;\n    whunsafe_meta_leaf_merge","    leafx->nr_keys = 0;\n    whunsafe_meta_leaf_merge",1),
("g05-delr-last","G05",W,"    const u32 iz = wormleaf_seek_end(leafz, end);\n    wormleaf_delete_range(map, leafz, 0, iz);\n    ndel += iz;\n    whunsafe_del_try_merge(map, leafa);","    const u32 iz = wormleaf_seek_end(leafz, end);\n    wormleaf_delete_range(map, leafz, 0, iz);\n    ndel += iz;\n    if (iz) whunsafe_del_try_merge(map, leafz);",1),
("g05-delr-mid-bound","G05",W,"  while (leafa->next != leafz) {\n    struct wormleaf * const leafx = leafa->next;\n    ndel","  while (leafa->next != leafz && leafa->next->nr_keys) {\n    struct wormleaf * const leafx = leafa->next;\n    ndel",1),
("g05-delr-leafz-nosync","G05",W,"  if (leafz) {\n    wormleaf_sync_sorted(leafz);\n","  if (leafz) {\n",1),
("g05-delr-leafa-nosync","G05",W,"  struct wormleaf * const leafa = wormhole_jump_leaf(hmap, start);\n  wormleaf_sync_sorted(leafa);\n","  struct wormleaf * const leafa = wormhole_jump_leaf(hmap, start);\n",1),
]
