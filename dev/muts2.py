# HOT and Masstree mutations: (id, property, file, old, new, n-th occurrence)
R="HOT/include/hot/rowex/"; C="HOT/include/hot/commons/"; X="MassTree/"
M=[
("e01-cons-from0","E01",R+"HOTRowexInsertStack.hpp","for(int i=-1; i <","for(int i=0; i <",1),
("e01-ups-noleafcheck","E01",R+"HOTRowex.hpp","if(leafEntry.isConsistent()) {","if(true) {",1),
("e01-lock-height","E01",R+"HOTRowexInsertStack.hpp","(currentNode.getHeight() + 1) == parentStackEntry","(currentNode.getHeight() + 1) < parentStackEntry",1),
("e01-lock-noparent","E01",R+"HOTRowexInsertStack.hpp","& (insertStackEntry > getRawStack())) {","& (insertStackEntry > getRawStack()) & currentNode.getNode()->isFull()) {",1),
("e01-trylock-norecheck","E01",R+"HOTRowexNodeBase.hpp","""		if(isObsolete()) {
			mLock.unlock();
		} else {
			aquiredLock = true;
		}""","""		aquiredLock = true;""",1),
("e01-cons-lastonly","E01",R+"HOTRowexInsertStack.hpp","isConsistent &= (firstLockedEntry - i)","isConsistent = (firstLockedEntry - i)",1),
("e01-obsolete-late","E01",R+"HOTRowex.hpp","""		normalInsert(*currentStackEntry, insertLevel.mInsertInformation, childPointerToValue);
		currentStackEntry->markAsObsolete(*mMemoryReclamation);""","""		normalInsert(*currentStackEntry, insertLevel.mInsertInformation, childPointerToValue);
		currentStackEntry->unlock();
		currentStackEntry->markAsObsolete(*mMemoryReclamation);
		for(int i = numberLockedEntries - 1; i > 0; --i) (firstStackEntry - i)->unlock();
		return { true, true };""",1),
("e01-root-insert-reread","E01",R+"HOTRowex.hpp","insertionResult = { mRoot.compareAndSwap(currentRoot, newRoot) , true};","insertionResult = { mRoot.compareAndSwap(mRoot, newRoot) , true};",1),
("e01-ups-rootleaf-valid","E01",R+"HOTRowex.hpp","upsertCompleted = insertGuarded(newValue);","insertGuarded(newValue); upsertCompleted = true;",1),
("e01-intsplit-le","E01",R+"HOTRowex.hpp","numberEntriesInLowerPart <= currentInsert","numberEntriesInLowerPart < currentInsert",1),
("e01-intsplit-1child","E01",R+"HOTRowex.hpp","newSplitEntries.mLeft.getHeight() == currentNode.mHeight ? newSplitEntries.mLeft.getNumberEntries() : 1;","newSplitEntries.mLeft.isLeaf() ? 1 : newSplitEntries.mLeft.getNumberEntries();",1),
("e01-boundary","E01",R+"HOTRowexInsertStack.hpp","bool isBoundaryNode = isSingleEntry & (!isLeafEntry);","bool isBoundaryNode = isSingleEntry & (!isLeafEntry) & !possibleInsertStackEntry->getChildPointer().getNode()->isFull();",1),
("e01-multi-extract","E01",C+"MultiMaskPartialKeyMapping.hpp","(numberBytesUsed-1)/8;","(numberBytesUsed)/8;",1),
("e01-relevantbits","E01",C+"SparsePartialKeys.hpp","for(uint32_t i = firstIndexInRange + 1; i <","for(uint32_t i = firstIndexInRange + 2; i <",1),
("e01-prefixbits","E01",C+"MultiMaskPartialKeyMapping.hpp","if (byteIndex < significantKeyInformation.mByteIndex) {","if (byteIndex + 1 < significantKeyInformation.mByteIndex) {",1),
("e01-mmask-full","E01",C+"MultiMaskPartialKeyMapping.hpp","mNumberExtractionBytes < (numberExtractionMasks * 8)","mNumberExtractionBytes <= (numberExtractionMasks * 8)",1),
("e01-split-side","E01",R+"HOTRowexNode.hpp","(insertInformation.getFirstIndexInAffectedSubtree() >= numberSmallerEntries)","(insertInformation.getFirstIndexInAffectedSubtree() > numberSmallerEntries)",1),
("e02-lastkey","E02",R+"HOTRowexIterator.hpp","if(currentRoot.isUsed() & !mCurrentBufferState.endOfDataReached()) {","if(currentRoot.isUsed() & !mCurrentBufferState.endOfDataReached() & !currentRoot.isLeaf()) {",1),
("e02-refill-lower","E02",R+"HOTRowexIterator.hpp","mCurrentBufferState.getLastAccessedKey(), false, guard)","mCurrentBufferState.getLastAccessedKey(), true, guard)",1),
("e02-nextentry","E02",R+"HOTRowexIterator.hpp","if(nextEntryLocation != currentStackEntry->getCurrentPointerLocation()) {","{",1),
("e02-ascend-le","E02",R+"HOTRowexIterator.hpp","mismatchingBit.mValue.mAbsoluteBitIndex < *mMostSignificantBitIndex","mismatchingBit.mValue.mAbsoluteBitIndex + 1 < *mMostSignificantBitIndex",1),
("e02-copybuf","E02",R+"HOTRowexIteratorBufferState.hpp","		mLastAccessedKey = other.mLastAccessedKey;\n","",1),
("e02-laststack","E02",R+"HOTRowexIterator.hpp","const HOTRowexChildPointer currentRoot = *mRootPointerLocation;","const HOTRowexChildPointer currentRoot = getStackRoot()->getCurrent();",1),
("e02-upperbound","E02",R+"HOTRowexIterator.hpp","insertInformation.mKeyInformation.mValue\n","insertInformation.mKeyInformation.mValue && isLowerBound\n",1),
("e03-canadv","E03",R+"EpochBasedMemoryReclamationStrategy.hpp","uint32_t previousEpoch = PREVIOUS_EPOCH[currentEpoch];","uint32_t previousEpoch = NEXT_EPOCH[currentEpoch];",1),
("e03-noadvcheck","E03",R+"EpochBasedMemoryReclamationStrategy.hpp","threadInformation.getLocalEpoch() == previousEpoch","threadInformation.getLocalEpoch() == previousEpoch && !threadInformation.doesThreadWantToAdvanceEpochC()",1),
("e03-upsert-noguard","E03",R+"HOTRowex.hpp","""	MemoryGuard guard(mMemoryReclamation);
	KeyType newKey""","""	{ MemoryGuard guard(mMemoryReclamation); }
	KeyType newKey""",1),
("e03-iter-noguard","E03",R+"HOTRowexIterator.hpp","			MemoryGuard guard { mMemoryReclamationStrategy };\n			const HOTRowexChildPointer currentRoot = *mRootPointerLocation;","			const HOTRowexChildPointer currentRoot = *mRootPointerLocation;\n			MemoryGuard guard { mMemoryReclamationStrategy };",1),
("e03-free-prev","E03",R+"ThreadSpecificEpochBasedReclamationInformation.hpp","freeForEpoch(newEpoch);","freeForEpoch((newEpoch + 2) % NUMBER_EPOCHS);",1),
("e03-free-next","E03",R+"ThreadSpecificEpochBasedReclamationInformation.hpp","freeForEpoch(newEpoch);","freeForEpoch(newEpoch); freeForEpoch((newEpoch + 1) % NUMBER_EPOCHS);",1),
("e03-enter-order","E03",R+"ThreadSpecificEpochBasedReclamationInformation.hpp","""		mLocalEpoch.store(newEpoch);
	}""","""		if(mThreadWantsToAdvance) mLocalEpoch.store(newEpoch); else mLocalEpoch.store(newEpoch, std::memory_order_relaxed);
	}""",1),
("e03-double","E03",R+"HOTRowex.hpp","			currentStackEntry->markAsObsolete(*mMemoryReclamation);\n			//std::cout << \"Recusive splits","			if(nextStackEntry > insertStack.getRawStack()) currentStackEntry->markAsObsolete(*mMemoryReclamation);\n			//std::cout << \"Recusive splits",1),
# --- Masstree
("f01-find-perm","F01",X+"masstree_get.hh","if (n_->has_changed(v) || n_->permutation() != perm) {","if (n_->has_changed(v) || n_->permutation().size() != perm.size()) {",1),
("f01-find-perm2","F01",X+"masstree_get.hh","if (n_->has_changed(v) || n_->permutation() != perm) {","if (n_->has_changed(v)) {",1),
("f01-layer-notroot","F01",X+"masstree_get.hh","if (state_ < 0 && !n_->has_changed(v) && lv.layer()->is_root()) {","if (state_ < 0 && lv.layer()->is_root()) {",1),
("f01-deleted-layer","F01",X+"masstree_get.hh","} else if (unlikely(n_->deleted_layer())) {","} else if (unlikely(n_->deleted_layer() && n_->deleted())) {",1),
("f01-get-changed-first","F01",X+"masstree_get.hh","""    if (n_->has_changed(v_)) {
        ti.mark(threadcounter(tc_stable_leaf_insert + n_->simple_has_split(v_)));
        n_ = n_->advance_to_key(ka_, v_, ti);""","""    if (match == 0 && n_->has_changed(v_)) {
        ti.mark(threadcounter(tc_stable_leaf_insert + n_->simple_has_split(v_)));
        n_ = n_->advance_to_key(ka_, v_, ti);""",1),
("f01-newlayer-order","F01",X+"masstree_insert.hh","""    n_->mark_insert();
    fence();
    if (twig_tail != n_)""","""    fence();
    if (twig_tail != n_)""",1),
("f01-newlayer-keylen-first","F01",X+"masstree_insert.hh","""    if (twig_head != n_)
        n_->lv_[kx_.p] = twig_head;
    else
        n_->lv_[kx_.p] = nl;
    n_->keylenx_[kx_.p] = n_->layer_keylenx;
    updated""","""    n_->keylenx_[kx_.p] = n_->layer_keylenx;
    if (twig_head != n_)
        n_->lv_[kx_.p] = twig_head;
    else
        n_->lv_[kx_.p] = nl;
    updated""",1),
("f01-modstate","F01",X+"masstree_insert.hh","""        n_->mark_insert();
        n_->modstate_ = leaf<P>::modstate_insert;""","""        n_->modstate_ = leaf<P>::modstate_insert;""",1),
("f01-modstate-rem","F01",X+"masstree_remove.hh","""        n_->mark_insert();
        n_->modstate_ = leaf<P>::modstate_remove;""","""        n_->modstate_ = leaf<P>::modstate_remove;""",1),
("f01-finish-nofence","F01",X+"masstree_insert.hh","""    perm.insert_from_back(kx_.i);
    fence();
    n_->permutation_ = perm.value();""","""    perm.insert_from_back(kx_.i);
    n_->permutation_ = perm.value();
    fence();""",1),
("f01-bound0","F01",X+"masstree_insert.hh","if (likely(kx_.p != 0) || !n_->prev_ || n_->ikey_bound() == ka_.ikey()) {","if (likely(kx_.p != 0) || !n_->next_.ptr || n_->ikey_bound() == ka_.ikey()) {",1),
("f01-split-nomark","F01",X+"masstree_split.hh","            nl->mark_split();\n            nl->permutation_ = perml.value();","            nl->mark_insert();\n            nl->permutation_ = perml.value();",1),
("f01-split-mark-late","F01",X+"masstree_split.hh","            nl->mark_split();\n            nl->permutation_ = perml.value();","            nl->permutation_ = perml.value();\n            nl->mark_split();",1),
("f01-split-parent-nomark","F01",X+"masstree_split.hh","            p->mark_insert();\n","",1),
("f01-split-unlock-early","F01",X+"masstree_split.hh","""        internode_type *p = n->locked_parent(ti);

        int kp = -1;""","""        if (child != n_ && split_type == 0 && n == n_) child->unlock();
        internode_type *p = n->locked_parent(ti);
        if (child != n_ && split_type == 0 && n == n_) child->lock();

        int kp = -1;""",1),
("f01-split-ikeyeq","F01",X+"masstree_split.hh","if (mid_ikey == ikey_after_insert(perml, mid - 1, cursor)) {","if (p != mid && mid_ikey == ikey_after_insert(perml, mid - 1, cursor)) {",1),
("f01-split-permexch","F01",X+"masstree_split.hh","""            if (width != nl->width) {
                perml.exchange(perml.size(), nl->width - 1);
            }""","",1),
("f01-inode-split-mid","F01",X+"masstree_split.hh","split_ikey = this->ikey0_[mid - 1];","split_ikey = this->ikey0_[mid];",1),
("f01-rem-redirect","F01",X+"masstree_remove.hh","if (kp <= 1 && p->nkeys_ > 0 && !p->child_[0]) {","if (kp == 0 && p->nkeys_ > 0 && !p->child_[0]) {",1),
("f01-rem-nomark","F01",X+"masstree_remove.hh","        p->mark_insert();\n        masstree_invariant(!p->deleted());","        masstree_invariant(!p->deleted());",1),
("f01-rem-redir-unlock","F01",X+"masstree_remove.hh","} while (kp == 0 || (kp == 1 && !n->child_[0]));","} while (kp == 0);",1),
("f01-rem-replacement-parent","F01",X+"masstree_remove.hh","            replacement->set_parent(p);","            if (p->nkeys_) replacement->set_parent(p);",1),
("f01-gc-rootmark","F01",X+"masstree_remove.hh","        child->make_layer_root();\n        n_->lv_[kx_.p] = child;","        n_->lv_[kx_.p] = child;\n        child->make_layer_root();",1),
("f01-gc-lf-nolock","F01",X+"masstree_remove.hh","if (!lf->is_root() || lf->size() > 0) {","if (!lf->is_root()) {",1),
("f01-gc-nomark","F01",X+"masstree_remove.hh","        lf->mark_deleted_layer();   // NB","        //",1),
("f01-gc-reclaim-callback","F01",X+"masstree_remove.hh","if (!do_remove || !lp.finish_remove(ti)) {\n            lp.n_->unlock();","if (!do_remove || !lp.finish_remove(ti)) {\n            lp.n_->mark_insert(); lp.n_->unlock();",1),
("f01-unlink-nolock","F01",X+"btree_leaflink.hh","            if (bool_cmpxchg(&prev->next_.ptr, n, mark(n)))\n                break;","            if (prev->next_.ptr == n)\n                break;",1),
("f01-unlock-vins","F01",X+"nodeversion.hh","x.v_ = (x.v_ + ((x.v_ & P::inserting_bit) << 2)) & P::unlock_mask;","x.v_ = (x.v_ + ((x.v_ & P::inserting_bit) << 1)) & P::unlock_mask;",1),
("f02-scan-changed","F02",X+"masstree_scan.hh","        if (n_->has_changed(v_))\n            goto changed;\n        else if","        if (n_->has_split(v_))\n            goto changed;\n        else if",1),
("f02-scan-dup","F02",X+"masstree_scan.hh","return k.compare(ikey, keylenx) >= 0;","return k.compare(ikey, keylenx) > 0;",1),
("f02-scan-adv-nochk","F02",X+"masstree_scan.hh","    if (!n_->has_changed(v_)) {\n        n_ = helper.advance","    if (!n_->has_split(v_)) {\n        n_ = helper.advance",1),
("f02-scan-up-stable","F02",X+"masstree_scan.hh","            stack.v_ = helper.stable(stack.n_, ka);\n            stack.perm_ = stack.n_->permutation();","            stack.perm_ = stack.n_->permutation();\n            stack.v_ = helper.stable(stack.n_, ka);",1),
("f02-rscan-upper","F02",X+"masstree_scan.hh","        if (upper_bound_)\n            return n->size() - 1;","        if (upper_bound_)\n            return n->size() - 2;",1),
("f02-rscan-next","F02",X+"masstree_scan.hh","                || (cmp == 0 && k.length() == 0))","                || cmp == 0)",1),
("f02-rscan-lower","F02",X+"masstree_scan.hh","return kx.i - (kx.p < 0);","return kx.i - (kx.p <= 0);",1),
("f02-scan-initial-ksuf","F02",X+"masstree_scan.hh","return ksuf_compare > 0 || (ksuf_compare == 0 && emit_equal);","return ksuf_compare >= 0;",1),
("f02-scan-initial-perm","F02",X+"masstree_scan.hh","""    if (n_->has_changed(v_)) {
        ti.mark(tc_leaf_retry);""","""    if (n_->has_split(v_)) {
        ti.mark(tc_leaf_retry);""",1),
("f02-scan-retry-deleted","F02",X+"masstree_scan.hh","    if (v_.deleted())\n        goto retry;\n","",1),
("f02-scan-deleted","F02",X+"masstree_scan.hh","    if (v_.deleted())\n        return scan_retry;\n","",1),
("f02-scan-unshift","F02",X+"masstree_scan.hh","} while (unlikely(ka.empty()));","} while (false);",1),
("f03-dead-early","F03",X+"masstree_remove.hh","        dead = lf;                  // RCU-freed by the caller once unreachable","        lf->deallocate_rcu(ti);",1),
("f03-leaf-early","F03",X+"masstree_remove.hh","        if (n == leaf) {\n            leaf->deallocate_rcu(ti);","        if (n == leaf) {\n            if (p->nkeys_) leaf->deallocate_rcu(ti); else leaf->deallocate(ti);",1),
("f03-inode-noRCU","F03",X+"masstree_remove.hh","        in->set_parent(child);  // ensure","        //",1),
]
