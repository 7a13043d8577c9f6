# sequential containers, sync (id, property, file, old, new, n-th occurrence)
T="STX/tlx/tlx/container/"; B=T+"btree.hpp"; G="GoogleBTree/btree.h"; S="STX/tlx/tlx/"
M=[
("h01-leafmid-dup","H01",B,"*splitkey = key;\n            }\n\n            return std::pair<iterator, bool>(iterator(leaf, slot), true);","*splitkey = leaf->key(leaf->slotuse - 2);\n            }\n\n            return std::pair<iterator, bool>(iterator(leaf, slot), true);",1),
("h01-prevleaf","H01",B,"newleaf->next_leaf->prev_leaf = newleaf;","",1),
("h01-merge-tail","H01",B,"        else\n            tail_leaf_ = left;","",1),
("h01-lastkey-fwd","H01",B,"myres |= result_t(btree_update_lastkey, result.lastkey);","",1),
("h01-lastkey-fwd-iter","H01",B,"myres |= result_t(btree_update_lastkey, result.lastkey);","",2),
("h01-lastkey-leaf-iter","H01",B,"parent->slotkey[parentslot] = leaf->key(leaf->slotuse - 1);","",2),
("h01-fix-split","H01",B,"inner->slotkey[slot] = child->key(child->slotuse - 1);","",1),
("h01-fix-split-iter","H01",B,"inner->slotkey[slot] = child->key(child->slotuse - 1);","",2),
("h01-shiftleft-key","H01",B,"return result_t(btree_update_lastkey, left->key(left->slotuse - 1));","return btree_ok;",1),
("h01-shiftinner-key","H01",B,"parent->slotkey[parentslot] = right->slotkey[shiftnum - 1];","parent->slotkey[parentslot] = right->slotkey[shiftnum];",1),
("h01-shiftrinner-key","H01",B,"parent->slotkey[parentslot] = left->slotkey[left->slotuse - shiftnum];","parent->slotkey[parentslot] = left->slotkey[left->slotuse - shiftnum - 1];",1),
("h01-wrong-parentslot","H01",B,"""                    if (left_inner->slotuse <= right_inner->slotuse)
                        shift_left_inner(
                            inner, right_inner, right_parent, parentslot);""","""                    if (left_inner->slotuse <= right_inner->slotuse)
                        shift_left_inner(
                            inner, right_inner, right_parent, parentslot ? parentslot - 1 : 0);""",1),
("h01-special-inner","H01",B,"if (slot == inner->slotuse + 1 &&\n                        inner->slotuse < (*splitnode)->slotuse)","if (slot == inner->slotuse + 1)",1),
("h01-midcond","H01",B,"if (addslot <= mid && mid > inner->slotuse - (mid + 1))","if (addslot <= mid && mid >= inner->slotuse - (mid + 1))",1),
("h01-bulk-last","H01",B,"tail_leaf_ = leaf;","if (!tail_leaf_) tail_leaf_ = leaf;",1),
("h01-copy-tail","H01",B,"newleaf->prev_leaf = tail_leaf_;\n                tail_leaf_->next_leaf","newleaf->prev_leaf = head_leaf_;\n                tail_leaf_->next_leaf",1),
("h01-root-stats","H01",B,"--stats_.size;","if (root_) --stats_.size;",1),
("h01-swap-stats","H01",B,"std::swap(stats_, from.stats_);","",1),
("h01-upper-leaf","H01",B,"unsigned short slot = find_upper(leaf, key);\n        return iterator(leaf, slot);","unsigned short slot = find_upper(leaf, key);\n        return slot == leaf->slotuse && leaf->next_leaf == nullptr ? end() : iterator(leaf, slot);",1),
("h01-eq-const","H01",B,"return (size() == other.size()) &&\n               std::equal","return (size() <= other.size()) &&\n               std::equal",1),
("h02-sift-eq","H02",T+"d_ary_addressable_int_heap.hpp","while (k > 0 && !cmp_(heap_[p], value)) {","while (k > 0 && cmp_(value, heap_[p]) && p != k) {",1),
("h02-remove-up","H02",T+"d_ary_addressable_int_heap.hpp","if (h && cmp_(heap_[h], heap_[parent(h)])) {","if (false) {",1),
("h02-update-root","H02",T+"d_ary_addressable_int_heap.hpp","        else if (handles_[key] &&\n                 cmp_(heap_[handles_[key]], heap_[parent(handles_[key])])) {","        else if (handles_[key] > arity &&\n                 cmp_(heap_[handles_[key]], heap_[parent(handles_[key])])) {",1),
("h02-heapify-max","H02",T+"d_ary_addressable_int_heap.hpp","                        max_key = std::max(max_key, heap_[j]);\n","",1),
("h02-heapify-last","H02",T+"d_ary_addressable_int_heap.hpp","size_t last_internal = (heap_.size() - 2) / arity;","size_t last_internal = (heap_.size() - 1) / arity - (heap_.size() % arity == 1 ? 1 : 0);",1),
("h02-fill","H02",T+"d_ary_addressable_int_heap.hpp","        std::fill(handles_.begin(), handles_.end(), not_present());\n        handles_.resize","        handles_.resize",1),
("h02-dary-right","H02",T+"d_ary_heap.hpp","size_t right = std::min(heap_.size(), c + arity);","size_t right = std::min(heap_.size(), c + arity - 1);",1),
("h02-radix-min","H02",T+"radix_heap.hpp","        filled_.clear_bit(first_non_empty);\n","",1),
("h02-radix-min2","H02",T+"radix_heap.hpp","mins_[first_non_empty] = std::numeric_limits<ranked_key_type>::max();","",1),
("h02-radix-swapclear","H02",T+"radix_heap.hpp","        filled_.clear_bit(current_bucket_);\n    }\n\n    /","    }\n\n    /",1),
("h02-radix-initmins","H02",T+"radix_heap.hpp","        std::fill(mins_.begin(), mins_.end(),\n                  std::numeric_limits<ranked_key_type>::max());\n","        if (size_ == 0 && insertion_limit_ == 0 && !filled_.empty()) std::fill(mins_.begin(), mins_.end(),\n                  std::numeric_limits<ranked_key_type>::max());\n",1),
("h02-radix-curmin","H02",T+"radix_heap.hpp","        mins_[current_bucket_] = std::numeric_limits<ranked_key_type>::max();\n","",1),
("h02-radix-lsb","H02",T+"radix_heap.hpp","if (mins_[idx] > key) mins_[idx] = key;","if (mins_[idx] > key && idx) mins_[idx] = key;",1),
("h02-loser-stable","H02",T+"loser_tree.hpp","""                  (!cmp_(key, losers_[pos].key) &&
                   losers_[pos].source < source)))) {""","""                  (!cmp_(key, losers_[pos].key) &&
                   losers_[pos].source <= source)))) {""",1),
("h02-loser-stable2","H02",T+"loser_tree.hpp","                   losers_[pos].source < source)))) {","                   losers_[pos].source > source)))) {",1),
("h02-loser-init","H02",T+"loser_tree.hpp","             !cmp_(losers_[right].key, losers_[left].key))) {","             cmp_(losers_[left].key, losers_[right].key))) {",1),
("h02-loser-unstable-sup","H02",T+"loser_tree.hpp","            if (TLX_UNLIKELY(sup)) {","            if (TLX_UNLIKELY(sup) && !losers_[pos].sup) {",1),
("h03-lru-touch","H03",T+"lru_cache.hpp","list_.splice(list_.begin(), list_, it->second);","list_.splice(list_.end(), list_, it->second);",2),
("h03-lru-pop","H03",T+"lru_cache.hpp","map_.erase(out);","if (list_.size() > 1) map_.erase(out);",1),
("h03-lru-put","H03",T+"lru_cache.hpp","            list_.erase(it->second);\n            map_.erase(it);\n        }\n\n        // insert key","            map_.erase(it);\n        }\n\n        // insert key",1),
("h03-ring-mask","H03",T+"ring_buffer.hpp","        mask_ = rb.mask_;\n","",1),
("h03-ring-mask-max","H03",T+"ring_buffer.hpp","        max_size_ = rb.max_size_;\n        mask_ = rb.mask_;","        mask_ = rb.mask_;",1),
("h03-ring-move","H03",T+"ring_buffer.hpp","        rb.begin_ = rb.end_ = 0;\n        rb.capacity_ = 0;\n        return *this;","        rb.capacity_ = 0;\n        return *this;",1),
("h03-ring-assign-clear","H03",T+"ring_buffer.hpp","        begin_ = end_ = 0;\n        // copy","        // copy",1),
("h03-ring-cap","H03",T+"ring_buffer.hpp","capacity_(round_up_to_power_of_two(max_size + 1))","capacity_(round_up_to_power_of_two(max_size))",1),
("h03-ring-cap2","H03",T+"ring_buffer.hpp","capacity_ = round_up_to_power_of_two(max_size + 1);","capacity_ = round_up_to_power_of_two(max_size);",1),
("h03-ring-moveto","H03",T+"ring_buffer.hpp","            out->emplace_back(std::move(front()));\n            pop_front();","            out->emplace_back(std::move(front()));\n            ++begin_ &= mask_;",1),
("h03-ring-movector","H03",T+"ring_buffer.hpp","begin_(rb.begin_), end_(rb.end_) {","begin_(0), end_(rb.size()) {",1),
("h03-splay-zigzag","H03",T+"splay_tree.hpp","                t->left = y->right;\n                y->right = t;\n                t = y;\n                if (t->left == nullptr) break;","                t->left = y->right;\n                y->right = t;\n                t = y;\n                if (t->left == nullptr) { t = y; r = r; break; } else if (t->right->right == nullptr && t->right->left == t->left) break;",1),
("h03-splay-erase","H03",T+"splay_tree.hpp","            while (y->right != nullptr) y = y->right;\n","",1),
("h03-splay-dup","H03",T+"splay_tree.hpp","if (!Duplicates && !cmp_(k, root_->key) && !cmp_(root_->key, k)) {","if (!Duplicates && !cmp_(root_->key, k)) {",1),
("h03-splay-clear","H03",T+"splay_tree.hpp","        root_ = nullptr;\n    }","        if (size_) root_ = nullptr;\n    }",1),
("i01-right2left-child","I01",G,"set_child(1 + count() + i, src->child(i));","set_child(count() + i + (i ? 1 : 1), src->child(i)); if (i + 1 == to_move && to_move > 3) swap(this);",1),
("i01-l2r-child","I01",G,"dest->set_child(i - 1, child(count() - to_move + i));","*dest->mutable_child(i - 1) = child(count() - to_move + i);",1),
("i01-r2l-bias","I01",G,"if (insert_position < 0) {","if (insert_position <= 0) {",1),
("i01-l2r-bias","I01",G,"if (insert_position > node->count()) {","if (insert_position >= node->count()) {",1),
("i01-split-pos","I01",G,"  if (insert_position > node->count()) {\n    insert_position = insert_position - node->count() - 1;\n    node = split_node;","  if (insert_position >= node->count()) {\n    insert_position = insert_position - node->count() - 1;\n    node = split_node;",1),
("i01-rightmost","I01",G,"    if (rightmost() == node) {\n      *mutable_rightmost() = split_node;","    if (rightmost() == node && insert_position) {\n      *mutable_rightmost() = split_node;",1),
("i01-merge-rightmost","I01",G,"    if (rightmost() == right) {","    if (rightmost() == right && left->count() > 1) {",1),
("i01-merge-pos","I01",G,"iter->position += 1 + left->count();","iter->position += left->count();",1),
("i01-reb-pos","I01",G,"      iter->position += to_move;\n","",1),
("i01-merge-cap","I01",G,"if ((1 + iter->node->count() + right->count()) <= right->max_count()) {","if ((iter->node->count() + right->count()) <= right->max_count()) {",1),
("i01-toomany","I01",G,"to_move = std::min(to_move, right->count() - 1);","to_move = std::max(to_move, 1);",1),
("i01-last","I01",G,"while (iter.node && iter.position == iter.node->count()) {","if (iter.node && iter.position == iter.node->count()) {",1),
("i01-hint","I01",G,"if (next == end() || compare_keys(key, next.key())) {","if (next == end() || !compare_keys(next.key(), key)) {",1),
("i01-hint-prev","I01",G,"if (position == begin() || compare_keys((--prev).key(), key)) {","if (position == begin() || !compare_keys(key, (--prev).key())) {",1),
("i01-size","I01",G,"++*mutable_size();","if (iter.node != root() || true) ++*mutable_size();",1),
("i01-erase-internal","I01",G,"internal_delete = true;","internal_delete = false;",1),
("i01-shrink","I01",G,"  if (root()->count() > 0) {\n    return;","  if (root()->count() > 0 || (!root()->leaf() && root()->child(0)->count() == 0)) {\n    return;",1),
("h04-busy-empty","H04",S+"thread_pool.cpp","return jobs_.empty() && (busy_ == 0);","return jobs_.empty();",1),
("h04-done-order","H04",S+"thread_pool.cpp","            ++done_;\n            --busy_;","            --busy_;\n            ++done_;",1),
("h04-nolock-notify","H04",S+"thread_pool.cpp","            lock.lock();\n            cv_finished_.notify_all();","            cv_finished_.notify_all();\n            lock.lock();",1),
("h04-one","H04",S+"thread_pool.cpp","            cv_finished_.notify_all();\n        }\n    }","            cv_finished_.notify_one();\n        }\n    }",1),
("h04-termnotify","H04",S+"thread_pool.cpp","    cv_finished_.notify_all();\n}","}",1),
("h04-busylate","H04",S+"thread_pool.cpp","            ++busy_;\n\n            {\n                // pull job.\n                Job job = std::move(jobs_.front());\n                jobs_.pop_front();\n\n                // release lock.\n                lock.unlock();\n","            {\n                // pull job.\n                Job job = std::move(jobs_.front());\n                jobs_.pop_front();\n\n                // release lock.\n                lock.unlock();\n                ++busy_;\n",1),
("h04-jobscope","H04",S+"thread_pool.cpp","            {\n                // pull job.","            Job job;\n            {\n                // pull job.",1),
("h04-sem-slack","H04",S+"semaphore.hpp","while (value_ < delta + slack)","while (value_ < delta)",1),
("h04-sem-slackmax","H04",S+"semaphore.hpp","while (value_ < delta + slack)","while (value_ < (delta > slack ? delta : slack))",1),
("h04-sem-if","H04",S+"semaphore.hpp","while (value_ < delta + slack)","if (value_ < delta + slack)",1),
("h04-sem-one","H04",S+"semaphore.hpp","cv_.notify_all();","cv_.notify_one();",2),
("h04-sem-one1","H04",S+"semaphore.hpp","cv_.notify_all();","cv_.notify_one();",1),
("h04-bar-reset","H04",S+"thread_barrier_mutex.hpp","            counts_[step_] = 0;\n            lambda();","            lambda();\n            counts_[step_] = 0; counts_[current] = 0;",1),
("h04-bar-early","H04",S+"thread_barrier_spin.hpp","            waiting_.store(0, std::memory_order_release);\n            // step other generation counters.\n            lambda();\n            // the following statement releases all threads from busy waiting.\n            step_.fetch_add(1, std::memory_order_acq_rel);","            lambda();\n            step_.fetch_add(1, std::memory_order_acq_rel);\n            waiting_.store(0, std::memory_order_release);",2),
("h04-bar-lambda","H04",S+"thread_barrier_spin.hpp","            lambda();\n            // the following statement releases all threads from busy waiting.\n            step_.fetch_add(1, std::memory_order_acq_rel);","            step_.fetch_add(1, std::memory_order_acq_rel);\n            lambda();",1),
("h05-dec-split","H05",S+"counting_ptr.hpp","return (--reference_count_ == 0);","--reference_count_; return reference_count_ == 0;",1),
("h05-unique","H05",S+"counting_ptr.hpp","return (reference_count_ == 1);","return (reference_count_ <= 2);",1),
("h05-copy-cnt","H05",S+"counting_ptr.hpp","ReferenceCounter(const ReferenceCounter&) noexcept\n        : reference_count_(0) { }","ReferenceCounter(const ReferenceCounter& o) noexcept\n        : reference_count_(o.reference_count_.load()) { }",1),
("h05-assign-cnt","H05",S+"counting_ptr.hpp","        // changing the contents leaves pointers unchanged\n","        reference_count_ = 0;\n",1),
("j01-lastkey","J01","FAST/fast64/src/lib.rs","prev_layer[idx + (step_size / 2) - 1]","prev_layer[idx]",1),
("j01-u16","J01","FAST/fast64/src/lib.rs","T::from(index as u32)","T::from(index as u16 as u32)",1),
("j01-first","J01","FAST/fast64/src/lib.rs","if key < self.min_key {","if key <= self.min_key {",3),
("j01-last","J01","FAST/fast64/src/lib.rs","if key >= self.max_key {","if key > self.max_key {",2),
("j01-pad","J01","FAST/fast64/src/lib.rs","result.push(T::max_value());","result.push(T::from(0));",1),
("j01-left","J01","FAST/fast64/c/lookup.c","*out1 = leaf_page[idx - 16 + 15];","*out1 = leaf_page[idx + 8];",1),
("j01-32right","J01","FAST/fast64/c/lookup.c","*out2 = leaf_page[idx+32+16];","*out2 = leaf_page[idx+31];",1),
("j01-brk","J01","FAST/fast64/c/lookup.c","for (unsigned int i = 0; i < 16; i++) {","for (unsigned int i = 0; i < 15; i++) {",2),
("j01-slow","J01","FAST/fast64/src/lib.rs","layer[idx+key_run_size+gt_count]","layer[idx+key_run_size+(if gt_count > 6 {6} else {gt_count})]",1),
]
