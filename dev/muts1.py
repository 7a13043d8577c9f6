# (id, property, file, old, new, n-th occurrence)
M=[
("a01-nocheck-parent-insert","A01","ARTOLC/N.cpp","""            if (parentNode != nullptr) {
                parentNode->readUnlockOrRestart(parentVersion, needRestart);
                if (needRestart) return;
            }
            n->upgradeToWriteLockOrRestart(v, needRestart);
            if (needRestart) return;
            n->insert(key, val);""","""            n->upgradeToWriteLockOrRestart(v, needRestart);
            if (needRestart) return;
            n->insert(key, val);""",1),
("a01-lookup-noparent","A01","ARTOLC/Tree.cpp","""            parentNode->readUnlockOrRestart(v, needRestart);
            if (needRestart) goto restart;
            v = nv;
        }
    }

    bool Tree::lookupRange""","""            v = nv;
        }
    }

    bool Tree::lookupRange""",1),
("a01-addprefix","A01","ARTOLC/N.cpp","if (node->getPrefixLength() < maxStoredPrefixLength) {\n            this->prefix[prefixCopyCount - 1] = key;","if (node->getPrefixLength() + 1 < maxStoredPrefixLength) {\n            this->prefix[prefixCopyCount - 1] = key;",1),
("a01-remove-secondlock","A01","ARTOLC/Tree.cpp","""                                N::change(parentNode, parentKey, secondNodeN);
                                parentNode->writeUnlock();

                                secondNodeN->addPrefixBefore(node, secondNodeK);
                                secondNodeN->writeUnlock();""","""                                N::change(parentNode, parentKey, secondNodeN);
                                secondNodeN->writeUnlock();
                                parentNode->writeUnlock();

                                secondNodeN->addPrefixBefore(node, secondNodeK);""",1),
("a01-leaf-read-before-lock","A01","ARTOLC/Tree.cpp","""                node->upgradeToWriteLockOrRestart(v, needRestart);
                if (needRestart) goto restart;

                Key key;
                loadKey(N::getLeaf(nextNode), key);

		if (key == k) {""","""                node->writeLockOrRestart(needRestart);
                if (needRestart) goto restart;

                Key key;
                loadKey(N::getLeaf(nextNode), key);

		if (key == k) {""",1),
("a01-n48-remove","A01","ARTOLC/N48.cpp","children[childIndex[k]] = nullptr;","",1),
("a02-n48-children-novalid","A02","ARTOLC/N48.cpp","        readUnlockOrRestart(v, needRestart);\n        if (needRestart) goto restart;\n        return v;","        return v;",1),
("a03-le-epoch","A03","ARTOLC/Epoche.cpp","if (cur->epoche < oldestEpoche) {\n                for","if (cur->epoche <= oldestEpoche) {\n                for",1),
("a03-localepoch-own","A03","ARTOLC/Epoche.cpp","            auto e = epoche.localEpoche.load();\n            if (e < oldestEpoche) {\n                oldestEpoche = e;\n            }\n        }\n\n        LabelDelete","            auto e = epoche.localEpoche.load();\n            if (e < oldestEpoche && epoche.size() > 0) {\n                oldestEpoche = e;\n            }\n        }\n\n        LabelDelete",1),
("a03-mark-before-unlink","A03","ARTOLC/N.cpp","        N::change(parentNode, keyParent, nBig);\n\n        n->writeUnlockObsolete();\n        threadInfo.getEpoche().markNodeForDeletion(n, threadInfo);","        threadInfo.getEpoche().markNodeForDeletion(n, threadInfo);\n        N::change(parentNode, keyParent, nBig);\n\n        n->writeUnlockObsolete();",1),
("b03-insert-exist-novalid","B03","OptiQL/Tree.cpp","""        // key already exists
        node->readUnlockOrRestart(v, needRestart);
        if (needRestart) goto restart;
        return false;""","""        // key already exists
        return false;""",1),
("b03-grow-noobsolete","B03","OptiQL/N.cpp","""  N::change(parentNode, keyParent, nBig);

  n->setObsolete();
  UNLOCK_NODE(n);""","""  N::change(parentNode, keyParent, nBig);

  UNLOCK_NODE(n);""",1),
("b03-update-unlock-miss","B03","OptiQL/Tree.cpp","""          UPGRADE_NODE(parentNode);
          if (needRestart) goto restart;

          parentNode_out = parentNode;
          level_out = level;
          upgraded_out = true;""","""          LOCK_NODE(parentNode);
          if (needRestart) goto restart;

          parentNode_out = parentNode;
          level_out = level;
          upgraded_out = true;""",1),
("b03-insert-parent-novalid","B03","OptiQL/N.cpp","""    if (parentNode != nullptr) {
      parentNode->readUnlockOrRestart(parentVersion, needRestart);
      if (needRestart) return;
    }
    DEFINE_CONTEXT(q, 0);
    UPGRADE_NODE(n);
    if (needRestart) return;
    n->insert(key, val);""","""    DEFINE_CONTEXT(q, 0);
    UPGRADE_NODE(n);
    if (needRestart) return;
    n->insert(key, val);""",1),
("c01-root-check","C01","BTreeOLC/BTreeOLC.h","	if (!parent && (node != root)) { // there's a new parent\n	  node->writeUnlock();\n	  goto restart;\n	}\n	// Split\n	Key sep; BTreeInner","	// Split\n	Key sep; BTreeInner",1),
("c01-lookup-root","C01","BTreeOLC/BTreeOLC.h","    if (needRestart || (node!=root)) goto restart;","    if (needRestart) goto restart;",2),
("c01-leaf-parent-late","C01","BTreeOLC/BTreeOLC.h","""      if (parent) {
        parent->readUnlockOrRestart(versionParent, needRestart);
	if (needRestart) {
	  node->writeUnlock();
	  goto restart;
	}
      }
      leaf->insert(k, v);""","""      leaf->insert(k, v);""",1),
("c01-insert-check","C01","BTreeOLC/BTreeOLC.h","""      inner->checkOrRestart(versionNode, needRestart);
      if (needRestart) goto restart;
      versionNode = node->readLockOrRestart(needRestart);
      if (needRestart) goto restart;""","""      versionNode = node->readLockOrRestart(needRestart);
      if (needRestart) goto restart;""",1),
("c01-unlock-early","C01","BTreeOLC/BTreeOLC.h","""      // Split
      Key sep; BTreeLeaf<Key,Value>* newLeaf = leaf->split(sep);
      if (parent)
	parent->insert(sep, newLeaf);
      else
	makeRoot(sep, leaf, newLeaf);
      // Unlock and restart
      node->writeUnlock();""","""      // Split
      Key sep; BTreeLeaf<Key,Value>* newLeaf = leaf->split(sep);
      if (!parent)
	makeRoot(sep, leaf, newLeaf);
      // Unlock and restart
      node->writeUnlock();
      if (parent)
	parent->insert(sep, newLeaf);""",1),
("c02-scan-parent","C02","BTreeOLC/BTreeOLC.h","""    if (parent) {
      parent->readUnlockOrRestart(versionParent, needRestart);
      if (needRestart) goto restart;
    }
    node->readUnlockOrRestart(versionNode, needRestart);
    if (needRestart) goto restart;

    return count;""","""    node->readUnlockOrRestart(versionNode, needRestart);
    if (needRestart) goto restart;

    return count;""",1),
("d01-search-sibling-unlatch","D01","BLinkTree/b_link_tree.h","      current = work;\n      current->latch_shared();\n    }\n\n    int index = current->NodeScan(key);","      current = work;\n      current->latch_shared();\n      break;\n    }\n\n    int index = current->NodeScan(key);",1),
("d01-upper-level","D01","BLinkTree/b_link_tree.h","        new_node->upper_level() = work;\n","",1),
("d01-unlock-before-parent","D01","BLinkTree/b_link_tree.h","      work->latch_exclusive();\n      if(current == root_) // set root after it has been latched\n        root_ = work;\n","      if(current == root_)\n        root_ = work;\n      work->latch_exclusive();\n",1),
("d01-parent-one-step","D01","BLinkTree/b_link_tree.h","      while(work->sibling() != nullptr && work->high_key() < right_max_key) {","      if(work->sibling() != nullptr && work->high_key() < right_max_key) {",1),
("d01-right-max","D01","BLinkTree/b_link_tree.h","work->high_key() < right_max_key","work->high_key() < left_max_key",1),
("d02-scan-unlatch","D02","BLinkTree/b_link_tree.h","      index = 0;\n      current->latch_shared();\n      scan_stack.push_back(current);","      index = 0;\n      current->latch_shared();\n      if(scan_stack.size() > 1) { scan_stack.back()->unlatch_shared(); scan_stack.pop_back(); }\n      scan_stack.push_back(current);",1),
("d02-inner-split-child","D01","BLinkTree/b_link_node.h","        if(index < mid)\n          children_[index + 1] = const_cast<BLinkNode*>(right_node);","        if(index <= mid)\n          children_[index + 1] = const_cast<BLinkNode*>(right_node);",1),
("b01-turnoff","B01","OptiQL/latches/OMCSImpl.h","""    OMCSQNode *pred = OMCSLock::get_qnode_ptr(version);
    pred->set_next(qnode);

    while (qnode->get_version() == OMCSLock::kInvalidVersion) {
    }

#if""","""    OMCSQNode *pred = OMCSLock::get_qnode_ptr(version);
    pred->set_next(qnode);

    while (pred->get_next() == nullptr) {
    }

#if""",1),
("b01-unlock-nowait","B01","OptiQL/latches/OMCSImpl.h","      if (tail_.compare_exchange_strong(self, v0)) {\n        return;\n      }","      if (tail_.compare_exchange_strong(self, v0 - kVersionStride)) {\n        return;\n      }",1),
("b01-turn-off-opread","B01","OptiQL/latches/OMCSImpl.h","""#ifdef OMCS_OFFSET
    // Remove the consistent bit + version (actually not necessary to remove version, but just to be clear)
    tail_.fetch_and(~(kConsistentBit | kVersionMask));""","""#ifdef OMCS_OFFSET
    tail_.fetch_and(~(kVersionMask));""",2),
]
