EXH = " The example fills the index from several threads once and compares the final contents."
P("E01", "HOT: inserts, upserts and lookups are linearizable",
  "In the height optimised trie, in its single-threaded index form and its concurrent form, concurrent inserts, upserts and lookups each appear to take effect at one instant between call and return. An insert succeeds exactly when the key was absent, an upsert reports exactly the value it replaced, no entry is lost when nodes are split, pushed down or pulled up, and no call crashes or fails to return.",
  ["schedules", "inputs", "histories"], SCHED + "; every key set, including integers and strings sharing long prefixes", EX + EXH, ["HOT/include/hot/rowex/HOTRowex.hpp", "HOT/include/hot/rowex/HOTRowexInsertStack.hpp", "HOT/include/hot/rowex/HOTRowexNode.hpp", "HOT/hot_tree.h"],
  [("path is locked bottom-up and revalidated before copying nodes", "HOT/include/hot/rowex/HOTRowexInsertStack.hpp"), ("readers follow copy-on-write child pointers without locks", "HOT/include/hot/rowex/HOTRowex.hpp lookup")], ["insert", "upsert", "lookup"])
P("E02", "HOT: bounded search and iteration return the right entries in order",
  "A search for the first entry at or above a key in the height optimised trie returns an entry that was current during the call, and never skips an entry that was present throughout. Iterating from it, or over the whole index, yields ascending entries, each at most once, including every entry present throughout and excluding every entry absent throughout.",
  ["schedules", "inputs", "histories"], SCHED + "; every start key", EX + " Bounded search is never called.", ["HOT/include/hot/rowex/HOTRowex.hpp", "HOT/include/hot/rowex/HOTRowexIterator.hpp"],
  [("descent records the path and moves to the next subtree when the search key is larger than all of a subtree", "HOT/include/hot/rowex/HOTRowex.hpp lower_bound/upper_bound")], ["lower_bound", "upper_bound", "begin", "iterator increment"])
P("E03", "HOT: no node is freed while it can be reached",
  "A trie node that was replaced is not returned to the allocator or reused for another node while any operation that began before its replacement still runs. Each replaced node is freed at most once, however threads enter, leave and stall in reclamation epochs.",
  ["schedules", "histories"], SCHED + "; every number of preceding epoch advances", EX + " Use of freed memory does not show in the contents.", ["HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp", "HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp", "HOT/include/hot/rowex/MemoryGuard.hpp"],
  [("thread publishes its epoch on entry; the epoch advances only past a barrier of retired nodes", "EpochBasedMemoryReclamationStrategy::enterCriticalSection")], ["memory accesses to blocks that have been freed"])
P("B01", "Optimistic queuing latches: exclusion, version validation, hand-over",
  "At most one thread is inside an exclusive section of an optimistic latch, and writers that wait get it one after another without any of them being lost. An optimistic read that validates has seen no part of a concurrent exclusive section, an upgrade succeeds only when nothing changed since the read began, and after the last section the latch is free for every kind of section.",
  ["schedules", "histories"], SCHED + "; every build variant of the latch (queue nodes by address or number, opportunistic reads, no queue nodes, hybrid)", EX, ["OptiQL/latches/OMCSImpl.h", "OptiQL/latches/OMCS.h"],
  [("tail word holds either a version or the last queue node", "omcs_impl::OMCSLock"), ("version handed to the successor", "OMCSLock::unlock")], ["begin_read", "validate_read", "lock", "unlock", "try_lock"])
P("B02", "Readers-writer and queue latches: exclusion and hand-over",
  "In every readers-writer latch and in the plain queue latch, an exclusive section never overlaps another section of the same latch, while shared sections may overlap each other. Every thread that waits is eventually admitted once the sections before it end, and an unlocked latch is free for every kind of section.",
  ["schedules", "histories"], SCHED + "; queue-based, centralized reader- and writer-preferring, and standard-library variants", EX, ["OptiQL/latches/MCS.h", "OptiQL/latches/MCSRW.h", "OptiQL/latches/STDRW.h", "OptiQL/latches/OMCS.h"],
  [("queue hand-over with successor class and reader count", "mcsrw::MCSRWLock"), ("queue hand-over", "mcs::MCSLock")], ["lock", "unlock", "read_lock", "read_unlock", "try_lock"])
MF = ["MassTree/masstree_get.hh", "MassTree/masstree_insert.hh", "MassTree/masstree_split.hh", "MassTree/masstree_remove.hh", "MassTree/masstree_struct.hh", "MassTree/MassTreeWrapper.h", "MassTree/nodeversion.hh"]
P("F01", "Masstree: inserts, upserts, removes and lookups are linearizable",
  "In Masstree, concurrent inserts, upserts, removes and lookups of single keys each appear to take effect at one instant between call and return and report success exactly when they had their effect. This holds for keys of any length and content, including keys that share 8-byte slices or contain zero bytes, while leaves split, trie layers appear and collapse and empty nodes are removed; no call crashes or fails to return.",
  ["schedules", "inputs", "histories"], SCHED + "; every key set, node width and value type", EX, MF,
  [("leaf version checked around reads; split counters", "MassTree/masstree_get.hh, nodeversion.hh"), ("permutation published atomically after the slot is filled", "MassTree/masstree_struct.hh, kpermuter.hh"), ("layers made and collapsed under the leaf lock", "MassTree/masstree_insert.hh make_new_layer, masstree_remove.hh gc_layer")],
  ["MassTreeWrapper insert/upsert/remove/search", "basic_table tcursor/unlocked_tcursor"])
P("F02", "Masstree: scans are ordered, complete and current",
  "A forward or reverse scan of Masstree yields keys in strictly ascending (descending) order from its start key, each at most once and with a value that was current during the scan. Every key of the covered stretch that is present throughout the scan is yielded and no key absent throughout is.",
  ["schedules", "inputs", "histories"], SCHED + "; every start key, direction and length", EX, ["MassTree/masstree_scan.hh", "MassTree/masstree_struct.hh", "MassTree/kpermuter.hh"],
  [("scan stack re-finds its position when a leaf changed", "MassTree/masstree_scan.hh scanstackelt")], ["scan", "rscan", "MassTreeWrapper::scan"])
P("F03", "Masstree: nothing is freed while it can be reached",
  "Nodes, key suffix bags and values that Masstree unlinks or replaces are not returned to the allocator while any operation that began before they became unreachable still runs. Each is freed at most once, whatever epochs pass while they are being unlinked.",
  ["schedules", "histories"], SCHED + "; every position of epoch advances and reclamation runs", EX + " The example never lets an epoch pass during an operation, and use of freed memory does not show in the contents.", ["MassTree/kvthread.hh", "MassTree/kvthread.cc", "MassTree/masstree_remove.hh", "MassTree/masstree_split.hh", "MassTree/MassTreeWrapper.h"],
  [("limbo lists stamped with the epoch of retirement", "MassTree/kvthread.hh record_rcu, kvthread.cc hard_rcu_quiesce"), ("removed nodes retired after unlinking", "MassTree/masstree_remove.hh remove_leaf")], ["memory accesses to blocks that have been freed"])

P("F04", "Masstree rows: column puts are atomic, reads see one row version",
  "With any of the row layouts, a put of several columns of a row, a replacement of the whole row, a removal and a read of several or all columns each take effect at one instant: a read returns columns that all belonged to the row together, and a put changes exactly the columns it names and keeps the others. Row and column memory that was replaced or removed is freed at most once and never while an operation that could still reach it runs.",
  ["schedules", "histories"], SCHED + "; every column set, row layout and position of epoch advances", EX + " Only single-word values are used there; the row code is not built.", ["MassTree/kvrow.hh", "MassTree/value_bag.hh", "MassTree/value_array.hh", "MassTree/value_versioned_array.hh", "MassTree/value_string.hh"],
  [("copy, change, then swap the row pointer; retire the old row afterwards", "MassTree/kvrow.hh query::apply_put, apply_replace, run_remove"), ("row version read before and after copying the columns", "MassTree/value_versioned_array.cc snapshot")], ["query::run_get, run_get1, run_put, run_replace, run_remove"])

P("F05", "Masstree logging: crash recovery restores a recent consistent state",
  "After a crash at any point, including one during an earlier recovery, what recovery from the logs restores is the contents at some instant before the crash: it includes everything that took effect by then, nothing that was called later, and no part of an operation without what it built on. Changes that were answered before every log completed two full rounds of flushing are never lost, and operations after recovery report results that follow from the restored contents. No crash point makes recovery itself fail.",
  ["schedules", "crash points", "histories"], SCHED + "; every crash point, with what was not yet synced kept, lost or cut anywhere; several crashes in a row", "The server and its logs are not part of the tests.", ["MassTree/log.cc", "MassTree/log.hh", "MassTree/mtd.cc", "MassTree/kvrow.hh"],
  [("epoch, wake and quiescence markers in each log", "MassTree/log.cc loginfo::run, record; log.hh acquire_epoch"), ("which epochs are replayed", "MassTree/mtd.cc recover"), ("changes that arrive before what they build on wait as delta markers", "MassTree/log.cc logrecord::apply")], ["onego, recover, loginfo::record, logreplay"])

WH = ["wormhole/wh.c", "wormhole/wh.h"]
P("G01", "Wormhole: puts, merges, deletes and lookups are linearizable",
  "In Wormhole, through each of its thread-safe interfaces, concurrent gets, probes, puts, in-place updates, merges, deletes and range deletes of byte-string keys each appear to take effect at one instant per key between call and return and report exactly what that instant implies. No key is lost, duplicated or left half-replaced while leaves split and merge and the anchor table grows or shrinks, and no call crashes or fails to return.",
  ["schedules", "inputs", "histories"], SCHED + "; every key set with shared prefixes, zero bytes and empty keys", EX, WH,
  [("leaf version and hash table version checked after locking", "wormhole/wh.c wormhole_jump_leaf_read/write"), ("two hash tables switched under version and quiescence", "wormhole/wh.c wormhole_split_meta, wormhole_meta_merge"), ("leaf merge re-checks sizes under both locks", "wormhole/wh.c wormhole_meta_merge")], ["wh_*", "whsafe_*", "wormhole_* calls"])
P("G02", "Wormhole: iteration is ordered, complete and current",
  "Seeking and stepping a Wormhole iterator yields keys in strictly ascending order at or above the seek key, each with a value that was current during the walk. Every key of the covered stretch that is present throughout is yielded and no key absent throughout is, even while leaves split and merge under the iterator.",
  ["schedules", "inputs", "histories"], SCHED + "; every seek key, pause point and leaf layout", EX, WH,
  [("iterator holds the leaf lock and re-seeks through the next leaf", "wormhole/wh.c wormhole_iter_seek, wormhole_iter_fix, wormhole_iter_skip1")], ["iter_seek/peek/skip1/next"])
P("G03", "Wormhole: quiescence protects readers of replaced tables and leaves",
  "A leaf, hash-table array or metadata node that Wormhole unlinks is not freed or reused while a thread that had announced an older state can still be using it, for every way threads register, announce, park, resume and leave. A waiter returns once every registered thread has announced the new state, parked or left, and never touches the record of a thread that has left.",
  ["schedules", "histories"], SCHED + "; every registration, park and announcement order", EX + " Use of freed memory does not show in results.", ["wormhole/lib.c", "wormhole/lib.h", "wormhole/wh.c"],
  [("per-shard bitmap with a busy bit; announced state compared with the target", "wormhole/lib.c qsbr_register, qsbr_unregister, qsbr_wait"), ("tables and nodes released only after waiting", "wormhole/wh.c wormhole_split_meta, wormhole_meta_merge")], ["memory accesses to freed blocks", "qsbr_*"])
P("G04", "Wormhole library: latches exclude, slab allocator hands out each object once",
  "A section entered through any locking call of the spin, mutex and readers-writer latches of Wormhole's library never overlaps a conflicting section, downgrading keeps writers out without a gap, failed attempts leave no trace and a free latch admits every kind of attempt. The slab allocator never hands out an object that is in use or overlaps another, loses no freed object, and its count of allocated objects is exact.",
  ["schedules", "histories"], SCHED + "; every object and block size, and mixes of locking variants", EX, ["wormhole/lib.c", "wormhole/lib.h"],
  [("writer bit plus reader count in one word", "wormhole/lib.c rwlock_*"), ("tagged pointer stack", "wormhole/lib.c astk_push_safe/astk_pop_safe"), ("free list expanded under a mutex", "wormhole/lib.c slab_expand, slab_alloc_safe")], ["rwlock_*, spinlock_*, mutex_*", "slab_*"])
P("G05", "Wormhole without threads: operation sequences behave as on an ordered map",
  "After any sequence of puts, read-modify-writes, in-place changes, deletions, interval deletions and clears through the unsynchronised interface, Wormhole holds exactly the entries an ordered map would hold, and every operation reports what it found or removed. Lookups and iterators (seek, single and multiple skips, next, in-place change) see exactly these entries in key order, whatever splits and merges of leaves happened before.",
  ["inputs", "histories"], "every sequence of operations and every key set (integers, binary strings with long shared prefixes, prefixes of each other, the empty key), at leaf capacities 32 and 128", "The repository's programs insert and look up random keys; leaves are hardly ever merged, intervals never deleted.", ["wormhole/wh.c", "wormhole/wh.h", "wormhole/kv.c"],
  [("split with a discriminating anchor, prefixes recorded in the hash table", "wormhole/wh.c whunsafe_split_insert, whunsafe_split_meta"), ("merge of neighbouring leaves in both directions", "wormhole/wh.c whunsafe_del_try_merge, whunsafe_meta_leaf_merge"), ("longest-prefix search in the hash table", "wormhole/wh.c wormhole_jump_leaf")], ["whunsafe_*"])
SEQ = "every sequence of operations, key set, node size, comparator and key type (integers, integers in descending order, strings that are prefixes of each other)"
EXS = "The examples insert a few thousand random keys and look them up; erasing, hints, duplicates, iterators, copies and rebalancing are not exercised."
P("H01", "STX B+ tree containers behave as ordered maps, sets, multimaps, multisets",
  "After any sequence of operations an STX B+ tree holds exactly the entries an ordered associative container would hold: every insertion (plain, hinted, ranged, by subscript), erasure (by key, one of several, by position), assignment, copy, swap, clear and bulk load has exactly its documented effect and result. Every lookup, bound, equal range, count, comparison and every forward, backward and mixed walk gives the result determined by the contents, and the tree stays structurally valid.",
  ["inputs", "histories"], SEQ, EXS, ["STX/tlx/tlx/container/btree.hpp", "STX/tlx/tlx/container/btree_map.hpp", "STX/tlx/tlx/container/btree_set.hpp", "STX/tlx/tlx/container/btree_multimap.hpp", "STX/tlx/tlx/container/btree_multiset.hpp"],
  [("split on insert, shift or merge on erase, separator keys kept in the parents", "BTree::insert_descend, erase_one_descend, erase_iter_descend"), ("leaf list for iteration", "BTree::iterator")], ["all public operations of btree_map/set/multimap/multiset"])
P("I01", "GoogleBTree containers behave as ordered maps, sets, multimaps, multisets",
  "After any sequence of operations a GoogleBTree container holds exactly the entries an ordered associative container would hold: every insertion (plain, hinted, ranged, by subscript), erasure (by key, position or interval), assignment, copy, swap and clear has exactly its documented effect and result, and erasing by position returns the following position. Every lookup, bound, count, comparison and every forward, backward and mixed walk gives the result determined by the contents, and the tree stays structurally valid.",
  ["inputs", "histories"], SEQ, EXS, ["GoogleBTree/btree.h", "GoogleBTree/btree_container.h", "GoogleBTree/btree_map.h"],
  [("value swaps between node, sibling and parent when splitting, rebalancing and merging", "btree_node::rebalance_*, split, merge"), ("hinted insertion", "btree::insert_unique/insert_multi(position)")], ["all public operations of the containers"])
P("H02", "STX priority queues and loser trees always deliver a smallest element",
  "The heaps of the STX library (plain, addressable by key, and monotone radix heap) deliver, remove and re-prioritise exactly the elements they hold, and what they deliver is always one of the smallest; membership, size and rebuilding reflect exactly the current elements. A loser tree over several sorted inputs always names an input with a smallest head, the lowest-numbered one in the stable variants.",
  ["inputs", "histories"], "every sequence of operations, priorities with ties, arity, radix, key width including the extreme values, and number of inputs", "No test of the suite uses these containers.",
  ["STX/tlx/tlx/container/d_ary_heap.hpp", "STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp", "STX/tlx/tlx/container/radix_heap.hpp", "STX/tlx/tlx/container/loser_tree.hpp"],
  [("sift up/down with a handle per key", "DAryAddressableIntHeap"), ("redistribution of the first non-empty bucket", "RadixHeap::reorganize_"), ("replay along the path to the root", "LoserTree*::delete_min_insert")], ["push, pop, top, update, remove, build_heap, swap_top_bucket, min_source, delete_min_insert"])
P("H03", "STX LRU caches, ring buffer and splay trees behave as specified",
  "An LRU cache holds exactly the keys put and not erased and evicts them from least to most recently used; a ring buffer is a double-ended queue whose elements are constructed and destroyed exactly once, also across copies, moves and reallocation. A splay tree holds exactly the (multi)set of keys inserted and not erased, whatever the order of look-ups between.",
  ["inputs", "histories"], "every sequence of operations, key set, capacity and element type", "No test of the suite uses these containers.",
  ["STX/tlx/tlx/container/lru_cache.hpp", "STX/tlx/tlx/container/ring_buffer.hpp", "STX/tlx/tlx/container/splay_tree.hpp"],
  [("list plus hash map", "LruCacheSet, LruCacheMap"), ("positions modulo a power of two", "RingBuffer"), ("top-down splaying", "splay, splay_erase")], ["all public operations"])
P("H04", "STX thread pool, semaphore and barriers never lose work, wake-ups or order",
  "Every job given to the thread pool runs at most once, on at most as many threads as the pool has, and its captured state is destroyed exactly once; waiting for an empty pool, waiting for termination and destruction return exactly when their documented condition has been reached, whatever jobs enqueue, throw or terminate, and never hang. A semaphore hands out exactly the tokens it was given and no waiter sleeps while its demand is covered; a barrier releases its threads only after all have arrived and the round's function has run exactly once.",
  ["schedules", "histories"], "every interleaving of pool, worker, waiter and signaller steps; numbers of threads, jobs, rounds and tokens", "No test of the suite uses these classes.",
  ["STX/tlx/tlx/thread_pool.cpp", "STX/tlx/tlx/semaphore.hpp", "STX/tlx/tlx/thread_barrier_mutex.hpp", "STX/tlx/tlx/thread_barrier_spin.hpp"],
  [("job counted after it finished, waiters notified", "ThreadPool::worker, loop_until_empty, loop_until_terminate, terminate"), ("condition re-checked after waking", "Semaphore::wait"), ("two alternating arrival counters; generation counter", "ThreadBarrierMutex::wait, ThreadBarrierSpin::wait")], ["enqueue, loop_until_*, terminate, done, idle, size", "signal, wait, try_acquire", "wait, wait_yield, step"])
P("H05", "STX counting pointers destroy an object exactly with its last reference",
  "An object managed by counting pointers is destroyed exactly once, when and only when the last pointer to it (in a variable or inside another managed object) goes away, for every sequence of copies, moves, swaps, resets, conversions and self-referring assignments, also when several threads copy and drop pointers to one object concurrently. Use counts, uniqueness and copy-on-write reflect exactly the pointers that exist.",
  ["schedules", "histories", "inputs"], "every interleaving of reference count updates; every sequence of pointer operations, with pointers held by managed objects", "No test of the suite uses this class; use after free does not show in results.",
  ["STX/tlx/tlx/counting_ptr.hpp"], [("acquire the new reference before releasing the old", "CountingPtr::operator="), ("decrement and test in one atomic step", "ReferenceCounter::dec_reference")], ["all public operations of CountingPtr", "object destruction", "memory accesses to freed objects"])
P("J01", "FAST: lookup returns the values on both sides of the query",
  "A FAST index built from any strictly increasing keys answers every query with the value of the largest key not above it and the value of the smallest key above it, or the documented end markers before the first and from the last key on. This holds for 32 and 64 bit keys up to the ends of the key type, every number of keys, and equally for the vectorised, the portable and the reference search.",
  ["inputs"], "every key set, size (in particular around full and just overfull nodes at every level) and query", "The package's own tests use a handful of fixed key sets and do not run in this build.",
  ["FAST/fast64/src/lib.rs", "FAST/fast64/c/lookup.c"], [("separator = last key of each page, page found by counting smaller keys", "fast_lookup64, fast_lookup32, FAST::slow_lookup"), ("levels built bottom up and padded", "FAST::new, build_internal_layer, layout")], ["create, lookup, destroy, size (C interface)", "slow_lookup"])
