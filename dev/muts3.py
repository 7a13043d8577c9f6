# wormhole mutations: (id, property, file, old, new, n-th occurrence)
W="wormhole/wh.c"; L="wormhole/lib.c"
M=[
("g01-ver-nocheck-r","G01",W,"        if (wormleaf_version_load(leaf) <= v)\n          return leaf;\n        wormleaf_unlock_read(leaf);","        if (wormleaf_version_load(leaf) <= v + 1)\n          return leaf;\n        wormleaf_unlock_read(leaf);",1),
("g01-ver-nocheck-w","G01",W,"        if (wormleaf_version_load(leaf) <= v)\n          return leaf;\n        wormleaf_unlock_write(leaf);","        if (wormleaf_version_load(leaf) <= v + 1)\n          return leaf;\n        wormleaf_unlock_write(leaf);",1),
("g01-split-nover1","G01",W,"  wormleaf_version_store(leaf1, v1);\n  wormleaf_version_store(leaf2, v1);\n  wormhmap_version_store(hmap1, v1);\n\n  wormmeta_split","  wormleaf_version_store(leaf2, v1);\n  wormhmap_version_store(hmap1, v1);\n\n  wormmeta_split",1),
("g01-merge-nover2","G01",W,"  wormleaf_version_store(leaf1, v1);\n  wormleaf_version_store(leaf2, v1);\n  wormhmap_version_store(hmap1, v1);\n\n  wormmeta_merge","  wormleaf_version_store(leaf1, v1);\n  wormhmap_version_store(hmap1, v1);\n\n  wormmeta_merge",1),
("g01-merge-nover1","G01",W,"  wormleaf_version_store(leaf1, v1);\n  wormleaf_version_store(leaf2, v1);\n  wormhmap_version_store(hmap1, v1);\n\n  wormmeta_merge","  wormleaf_version_store(leaf2, v1);\n  wormhmap_version_store(hmap1, v1);\n\n  wormmeta_merge",1),
("g01-unlock-before-store","G01",W,"  wormmeta_split(hmap1, leaf2, mkey);\n\n  qsbr_update(&ref->qref, v1);\n\n  // switch hmap\n  wormhmap_store(map, hmap1);\n\n  wormleaf_unlock_write(leaf1);","  wormmeta_split(hmap1, leaf2, mkey);\n\n  qsbr_update(&ref->qref, v1);\n\n  wormleaf_unlock_write(leaf1);\n  // switch hmap\n  wormhmap_store(map, hmap1);\n",1),
("g01-nowait-split","G01",W,"  qsbr_wait(map->qsbr, v1);\n\n  wormmeta_split(hmap0, leaf2, mkey);","  wormmeta_split(hmap0, leaf2, mkey);",1),
("g03-nowait-merge","G03",W,"  qsbr_wait(map->qsbr, v1);\n\n  wormmeta_merge(hmap0, leaf2);","  wormmeta_merge(hmap0, leaf2);",1),
("g03-wait-v0","G03",W,"  qsbr_wait(map->qsbr, v1);\n\n  wormmeta_merge(hmap0, leaf2);","  qsbr_wait(map->qsbr, v1 - 1);\n\n  wormmeta_merge(hmap0, leaf2);",1),
("g01-merge-nodouble","G01",W,"  // double check\n  if ((leaf->nr_keys + next->nr_keys) <= WH_KPN) {","  // double check\n  if ((leaf->nr_keys + next->nr_keys) <= WH_KPN + 1) {",1),
("g01-lock-noupdate","G01",W,"  if (wormleaf_merge(leaf, next)) {","  if (wormleaf_merge(leaf, next) && next->nr_keys < 3) {",1),
("g01-del-free-early","G03",W,"    struct kv * const kv = wormleaf_remove_ih(leaf, im);\n    wormhole_del_try_merge(ref, leaf);","    struct kv * const kv = wormleaf_kv_at_ih(leaf, im);\n    wormleaf_remove_ih(leaf, im);\n    wormhole_del_try_merge(ref, leaf);",1),
("g03-put-free-early","G03",W,"    struct kv * const old = wormleaf_update(leaf, im, new);\n    wormleaf_unlock_write(leaf);\n    map->mm.free(old, map->mm.priv);\n    return true;","    struct kv * const old = wormleaf_kv_at_ih(leaf, im);\n    map->mm.free(old, map->mm.priv);\n    wormleaf_update(leaf, im, new);\n    wormleaf_unlock_write(leaf);\n    return true;",1),
("g02-iter-unlock-first","G02",W,"      wormleaf_lock_read(next, ref);\n      wormleaf_unlock_read(iter->leaf);","      wormleaf_unlock_read(iter->leaf);\n      wormleaf_lock_read(next, ref);",1),
("g02-sortlock","G02",W,"    spinlock_lock(&(leaf->sortlock));\n    wormleaf_sync_sorted(leaf);\n    spinlock_unlock(&(leaf->sortlock));","    wormleaf_sync_sorted(leaf);",1),
("g02-iterfix-nosort","G02",W,"      wormleaf_unlock_read(iter->leaf);\n\n      wormhole_iter_leaf_sync_sorted(next);","      wormleaf_unlock_read(iter->leaf);\n      if (next->nr_sorted == 0) wormhole_iter_leaf_sync_sorted(next);",1),
("g02-while-if","G02",W,"  while (unlikely(iter->is >= iter->leaf->nr_sorted)) {","  if (unlikely(iter->is >= iter->leaf->nr_sorted)) {",1),
("g02-skip","G02",W,"    const u32 nskip = (cap < todo) ? cap : todo;","    const u32 nskip = (cap <= todo) ? cap : todo + 1;",1),
("g01-remove-sorted","G02",W,"  if (leaf->nr_sorted > is)\n    leaf->nr_sorted = is;","  if (leaf->nr_sorted > is + 1)\n    leaf->nr_sorted = is;",1),
("g01-merge-sorted","G02",W,"  if (leaf1_sorted)\n    leaf1->nr_sorted += leaf2->nr_sorted;","  leaf1->nr_sorted += leaf2->nr_sorted;",1),
("g01-lcp-test","G01",W,"      if (wormmeta_bm_test(tmp, kref->ptr[lo])) {","      if (wormmeta_bm_test(tmp, kref->ptr[lo]) && lo < 2) {",1),
("g01-down-bitmax","G01",W,"} else if (wormmeta_bitmax_load(meta) < id0) {","} else if (wormmeta_bitmax_load(meta) <= id0 + 1) {",1),
("g01-lpath-noupd","G01",W,"  if (next)\n    wormmeta_lpath_update(hmap, leaf->anchor, next->anchor, leaf);","  if (next && next->next)\n    wormmeta_lpath_update(hmap, leaf->anchor, next->anchor, leaf);",1),
("g01-lpath-merge","G01",W,"    wormmeta_lpath_update(hmap, leaf->anchor, next->anchor, prev);","    wormmeta_lpath_update(hmap, leaf->anchor, next->anchor, leaf->prev->prev ? prev : leaf->prev);",1),
("g01-split-touch-rmost","G01",W,"    else if (wormmeta_rmost_load(meta) == leaf->prev)\n      wormmeta_rmost_store(meta, leaf);","    else if (wormmeta_rmost_load(meta) == leaf->prev && mkey->klen)\n      wormmeta_rmost_store(meta, leaf);",1),
("g01-merge-lmost","G01",W,"      if (wormmeta_lmost_load(meta) == leaf)\n        wormmeta_lmost_store(meta, next);\n","      if (wormmeta_lmost_load(meta) == leaf && i < alen)\n        wormmeta_lmost_store(meta, next);\n",1),
("g01-merge-i","G01",W,"u32 i = (prev && next) ? kv_key_lcp(prev->anchor, next->anchor) : 0;","u32 i = (prev && next) ? kv_key_lcp(leaf->anchor, next->anchor) : 0;",1),
("g01-bmclear-parent","G01",W,"        wormmeta_bm_clear_helper(hmap, parent, pbuf->kv[i-1]);","        if (bitmin == WH_FO) wormmeta_bm_clear_helper(hmap, parent, pbuf->kv[i-1]);",1),
("g01-maxplen","G01",W,"  if (i > hmap->maxplen)\n    hmap->maxplen = i;","  if (i > hmap->maxplen + 1u)\n    hmap->maxplen = i;",1),
("g01-merge-bound","G01",W,"  if (next && ((leaf->nr_keys == 0) || ((leaf->nr_keys + next->nr_keys) < WH_KPN_MRG))) {","  if (next && ((leaf->nr_keys == 0) || ((leaf->nr_keys) < WH_KPN_MRG / 4))) {",1),
("g01-delr-partial","G01",W,"    ndel += iz;\n    wormleaf_delete_range(map, leafx, 0, iz);","    wormleaf_delete_range(map, leafx, 0, iz);\n    ndel += iz ? iz : 0;\n    if (iz && leafx->nr_keys && !leafx->next) ndel--;",1),
("g01-delr-lastleaf","G01",W,"      wormhole_meta_merge(ref, leafa, leafx, false);","      wormhole_meta_merge(ref, leafa, leafx, true); wormleaf_lock_write(leafa, ref);",1),
("g01-seekend","G01",W,"      return wormleaf_seek(leaf, key);\n  } else {\n    return 0;","      return wormleaf_seek(leaf, key);\n  } else {\n    return leaf->nr_keys ? 0 : 0;",1),
("g01-cut-case3","G01",W,"  if (cut <= is1) { // e1 goes to leaf2","  if (cut <= is1 && cut > 1) { // e1 goes to leaf2",1),
("g01-pull-left","G01",W,"  while ((i < WH_KPN) && hs[i].e1 && ((hs[i].e1 / WH_HDIV) > i))\n    i--;","  while ((i < WH_KPN) && hs[i].e1 && ((hs[i].e1 / WH_HDIV) >= i))\n    i--;",1),
("g01-pull-right","G01",W,"  while ((i < WH_KPN) && hs[i].e1 && ((hs[i].e1 / WH_HDIV) < i))\n    i++;","  while ((i < WH_KPN) && hs[i].e1 && ((hs[i].e1 / WH_HDIV) <= i))\n    i++;",1),
("g01-inpw-read","G01",W,"  struct wormleaf * const leaf = wormhole_jump_leaf_write(ref, key);\n  const u32 im = wormleaf_match_hs(leaf, key);\n  if (im < WH_KPN) {\n    uf(wormleaf_kv_at_ih(leaf, im), priv);\n    wormleaf_unlock_write(leaf);","  struct wormleaf * const leaf = wormhole_jump_leaf_read(ref, key);\n  const u32 im = wormleaf_match_hs(leaf, key);\n  if (im < WH_KPN) {\n    uf(wormleaf_kv_at_ih(leaf, im), priv);\n    wormleaf_unlock_read(leaf);",1),
("g03-qs-ge","G03",L,"if (atomic_load_explicit(&(ptr->qstate), MO_CONSUME) == target)","if (atomic_load_explicit(&(ptr->qstate), MO_CONSUME) + 1 >= target)",1),
("g03-unreg-nowait","G03",L,"  while (atomic_load_explicit(&shard->bitmap, MO_CONSUME) >> 63)\n    cpu_pause();","",1),
("g03-park-unreg","G03",L,"  atomic_store_explicit(&shard->ptrs[pos], (u64)(&q->target), MO_RELAXED);\n  //shard->ptrs[pos] = &q->target;\n  (void)atomic_fetch_and","  (void)atomic_fetch_and",1),
("g03-nomark","G03",L,"const u64 bits1 = atomic_fetch_or_explicit(&(shard->bitmap), 1lu << 63, MO_ACQUIRE);","const u64 bits1 = atomic_load_explicit(&(shard->bitmap), MO_ACQUIRE);",1),
("g03-oneshard","G03",L,"      if (bms[i] == 0)\n        cbits &= ~(1lu << i);","      cbits &= ~(1lu << i);",1),
("g03-update-pause","G03",W,"  if (v > ref->qref.opaque","  if (v >= ref->qref.opaque",1),
("g04-w2r","G04",L,"rwlock_write_to_read(rwlock * const lock)\n{","rwlock_write_to_read(rwlock * const lock)\n{\n  rwlock_unlock_write(lock); rwlock_lock_read(lock); return;",1),
("g04-slab-aba","G04",L,"slab_free_safe(struct slab * const slab, void * const ptr)\n{","slab_free_safe(struct slab * const slab, void * const ptr)\n{\n  slab_free_unsafe(slab, ptr); return;",1),
]
