fixed("A01", "compressed prefix length of an ART node once", "insert during a concurrent prefix change read the prefix length twice and passed a negative length to memcpy: SIGSEGV")
fixed("A01", "revalidate the parent in ART remove", "remove of a present key concurrent with a split of a compressed prefix could report nothing and leave the key in place (lost remove)")
fixed("A02", "fix: ART range lookups follow", "range lookup crashed on missing children and on leaves at the boundary, returned keys outside the interval, missed keys below a diverging prefix, and looped forever on a replaced node")
fixed("B03", "validate the last-level node of an OptiQL ART update", "update concurrent with a node replacement followed a child read from an unvalidated node: crash or update of the wrong entry")
fixed("B03", "revalidate the parent in OptiQL ART remove", "remove of a present key concurrent with a split of a compressed prefix reported failure and left the key in place")
fixed("B04", "fix: OptiQL ART range lookups follow", "both range lookups crashed on missing children and boundary leaves, returned keys outside the interval, missed keys, and looped forever on a replaced node")
fixed("C01", "BTreeOLC lookup reports absence", "lookup of an absent key returned an uninitialised result (usually 'present')")
fixed("B01", "OMCS upgrade from an opportunistically read version", "an upgrade from a version read while the lock was being handed over replaced the queue tail: two exclusive holders, or a waiting writer lost")
fixed("E01", "HOT lookup on an empty index", "lookup on an empty index dereferenced a null node")
fixed("E01", "HOT upsert into a single-entry index", "upsert of the key of a single-entry index reported the new value as the replaced one")
fixed("E01", "HOT upsert overwrote a slot", "upsert wrote its value into a slot that had changed before the node was locked: other entries were lost")
fixed("E02", "HOT bounded search on an index whose root", "bounded search with a single-entry root missed entries and read a root that could change underneath")
fixed("E02", "HOT bounded search returned a smaller entry", "bounded search returned an entry below the search key after a concurrent push-down")
fixed("E03", "HOT epoch reclamation freed nodes", "a thread that published an epoch late read nodes that had been freed (or reused)")
fixed("F03", "retired removed nodes before unlinking", "a leaf or inner node emptied by a removal was handed to reclamation before it was unlinked; with an epoch advance in between, a later reader used freed memory")
fixed("F03", "layer collapse retired the layer", "the last leaf of a collapsed trie layer was handed to reclamation while still linked into the layer above: readers used freed memory")
fixed("F03", "MassTreeWrapper upsert retired the old value", "upsert handed the old value to reclamation before replacing it: a lookup starting afterwards could read the freed value")
fixed("G03", "wormhole writer dereferenced the empty slot", "a writer waiting for readers dereferenced the unset slot of a thread that was just registering (null pointer)")
fixed("H02", "DAryAddressableIntHeap: forget the handles", "rebuilding an addressable heap kept the handles of the old items: contains() true for absent keys, remove/update/push of them corrupted the heap")
fixed("H02", "RadixHeap: 8 and 16 bit keys", "8 and 16 bit keys crashed (bucket index computed from the wrong width); the largest key of the type next to an empty bucket failed an assertion")
fixed("H03", "SplayTree: keep duplicates", "erasing one of several equal keys lost others; clear left a dangling root (use after free); exists() on an empty tree dereferenced null")
fixed("H03", "RingBuffer: pop_back destroys", "pop_back destroyed the first element instead of the last; deallocate/allocate with a smaller capacity wrote outside the buffer; assigning to a deallocated buffer wrote through null")
fixed("H04", "ThreadPool: wake all threads", "two threads in loop_until_empty or loop_until_terminate: only one was woken, the other waited forever")
fixed("H04", "Semaphore::signal(): wake all waiters", "signal() woke a waiter that needs more tokens while one that could proceed slept on: deadlock")
fixed("H05", "CountingPtr assignment from a pointer held by", "a = a->next (copied or moved) read the pointer out of the object it had just destroyed")
fixed("G03", "make a reader's announcement visible", "a resuming or registering reader's announcement could still be in its store buffer while it read: the writer did not wait for it and freed what it read (x86 store order)")
fixed("G03", "qsbr_wait makes the writer's publication visible", "the writer could look for readers while its own publication was still in its store buffer: a reader registering meanwhile saw the old table and was not waited for")
fixed("A03", "ARTOLC: entering an epoch is visible", "a thread's epoch could still be in its store buffer while it read nodes: the collector freed nodes it was reading")
fixed("F03", "epochs are announced and read with fences", "a thread's epoch announcement could still be in its store buffer while it read nodes (and a removed node be recorded with an epoch too old): nodes freed while being read")
fixed("F01", "a removed leaf stays in the leaf list", "a leaf taken out of the leaf list before it was out of the tree: its predecessor took over its keys and could split at the same bound, then the wrong child was dropped - the deleted leaf stayed in the tree and operations on its keys looped forever")
fixed("G05", "whunsafe_delr does nothing when end", "whunsafe_delr with end <= start crashed (null pointer) when start is the first key of its leaf, and removed keys outside the range otherwise")
fixed("F04", "retire the old row only after it is unlinked", "row puts, replaces and removes handed the old row to reclamation before it was unlinked: with an epoch advance in between, a later reader used freed memory")
fixed("F04", "value_string: no bytes copied from beyond", "updating a string row beyond its end copied bytes from beyond the old value into the new one and left the gap uninitialised")
fixed("F04", "value_versioned_array: compile", "the row type did not compile; a snapshot freed columns owned by live rows; a single-column read past the row's columns read out of bounds; replaced columns were retired while still reachable")
fixed("F05", "the server keeps a copy of the key", "the key of a put, replace or remove request was overwritten by the reply before the change was logged: the log held a dangling key (use after free)")
fixed("F05", "change sets are logged the way replay reads them", "replay of a logged put or modify misread its change set (or aborted), and replay of a remove aborted")
fixed("F05", "removing a key whose removal was recovered", "after recovery, removing a key whose removal had been recovered reported it present")
fixed("F05", "the log thread has its own copy of the file name", "the reference count of the log file's name was updated by two threads at once: the name was freed while in use")
fixed("F05", "no epoch marker or epoch advance races", "a log thread could write a marker of epoch 1 after recovery had set a later epoch: the next recovery dropped everything; one that noticed a wake could go quiescent in the epoch before it: later changes were never recovered")
fixed("F05", "a wake marker is a wake epoch", "a log that had not been flushed for some epochs recorded a wake marker no other log noticed: its flushed changes were never recovered")
fixed("F05", "an empty log is marked in recovery", "a log still empty at the crash was taken for complete: changes that built on ones it lacked were recovered without them")
fixed("F05", "missing logs are not quiescent logs", "for a log without a file, recovery used an uninitialised quiescence flag")
fixed("F05", "a change wakes its log before it is visible", "a change was visible before its quiescent log woke up: changes in other logs that built on it were recovered without it; and a change that found its log full was logged in an epoch before the ones already there: it was lost although flushed")
fixed("F05", "noticing a wake does not stand for its marker", "a log thread that noticed a wake took its marker for recorded: changes of that log were recovered without the ones they built on; and a log could go without a quiescence marker for ever while another one woke up in every epoch: flushed changes were never recovered")
