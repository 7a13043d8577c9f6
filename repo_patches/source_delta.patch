From 24a21dc49ba45025f998a46aa1bca7edaa77b50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 01/44] fix: read the compressed prefix length of an ART node
 once per prefix check

---
 ARTOLC/Tree.cpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 4f515f9..bee46e4 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -554,18 +554,20 @@ namespace ART_OLC {
     }
 
     inline typename Tree::CheckPrefixResult Tree::checkPrefix(N *n, const Key &k, uint32_t &level) {
-        if (n->hasPrefix()) {
-            if (k.getKeyLen() <= level + n->getPrefixLength()) {
+        // the length may change under a concurrent writer until the caller validates the version: read it once
+        const uint32_t prefixLength = n->getPrefixLength();
+        if (prefixLength > 0) {
+            if (k.getKeyLen() <= level + prefixLength) {
                 return CheckPrefixResult::NoMatch;
             }
-            for (uint32_t i = 0; i < std::min(n->getPrefixLength(), maxStoredPrefixLength); ++i) {
+            for (uint32_t i = 0; i < std::min(prefixLength, maxStoredPrefixLength); ++i) {
                 if (n->getPrefix()[i] != k[level]) {
                     return CheckPrefixResult::NoMatch;
                 }
                 ++level;
             }
-            if (n->getPrefixLength() > maxStoredPrefixLength) {
-                level = level + (n->getPrefixLength() - maxStoredPrefixLength);
+            if (prefixLength > maxStoredPrefixLength) {
+                level = level + (prefixLength - maxStoredPrefixLength);
                 return CheckPrefixResult::OptimisticMatch;
             }
         }
@@ -576,10 +578,11 @@ namespace ART_OLC {
                                                                         uint8_t &nonMatchingKey,
                                                                         Prefix &nonMatchingPrefix,
                                                                         LoadKeyFunction loadKey, bool &needRestart) {
-        if (n->hasPrefix()) {
+        const uint32_t prefixLength = n->getPrefixLength();
+        if (prefixLength > 0) {
             uint32_t prevLevel = level;
             Key kt;
-            for (uint32_t i = 0; i < n->getPrefixLength(); ++i) {
+            for (uint32_t i = 0; i < prefixLength; ++i) {
                 if (i == maxStoredPrefixLength) {
                     auto anyTID = N::getAnyChildTid(n, needRestart);
                     if (needRestart) return CheckPrefixPessimisticResult::Match;
@@ -588,16 +591,16 @@ namespace ART_OLC {
                 uint8_t curKey = i >= maxStoredPrefixLength ? kt[level] : n->getPrefix()[i];
                 if (curKey != k[level]) {
                     nonMatchingKey = curKey;
-                    if (n->getPrefixLength() > maxStoredPrefixLength) {
+                    if (prefixLength > maxStoredPrefixLength) {
                         if (i < maxStoredPrefixLength) {
                             auto anyTID = N::getAnyChildTid(n, needRestart);
                             if (needRestart) return CheckPrefixPessimisticResult::Match;
                             loadKey(anyTID, kt);
                         }
-                        memcpy(nonMatchingPrefix, &kt[0] + level + 1, std::min((n->getPrefixLength() - (level - prevLevel) - 1),
+                        memcpy(nonMatchingPrefix, &kt[0] + level + 1, std::min((prefixLength - (level - prevLevel) - 1),
                                                                            maxStoredPrefixLength));
                     } else {
-                        memcpy(nonMatchingPrefix, n->getPrefix() + i + 1, n->getPrefixLength() - i - 1);
+                        memcpy(nonMatchingPrefix, n->getPrefix() + i + 1, prefixLength - i - 1);
                     }
                     return CheckPrefixPessimisticResult::NoMatch;
                 }
@@ -609,9 +612,10 @@ namespace ART_OLC {
 
     typename Tree::PCCompareResults Tree::checkPrefixCompare(const N *n, const Key &k, uint8_t fillKey, uint32_t &level,
                                                         LoadKeyFunction loadKey, bool &needRestart) {
-        if (n->hasPrefix()) {
+        const uint32_t prefixLength = n->getPrefixLength();
+        if (prefixLength > 0) {
             Key kt;
-            for (uint32_t i = 0; i < n->getPrefixLength(); ++i) {
+            for (uint32_t i = 0; i < prefixLength; ++i) {
                 if (i == maxStoredPrefixLength) {
                     auto anyTID = N::getAnyChildTid(n, needRestart);
                     if (needRestart) return PCCompareResults::Equal;
@@ -633,9 +637,10 @@ namespace ART_OLC {
 
     typename Tree::PCEqualsResults Tree::checkPrefixEquals(const N *n, uint32_t &level, const Key &start, const Key &end,
                                                       LoadKeyFunction loadKey, bool &needRestart) {
-        if (n->hasPrefix()) {
+        const uint32_t prefixLength = n->getPrefixLength();
+        if (prefixLength > 0) {
             Key kt;
-            for (uint32_t i = 0; i < n->getPrefixLength(); ++i) {
+            for (uint32_t i = 0; i < prefixLength; ++i) {
                 if (i == maxStoredPrefixLength) {
                     auto anyTID = N::getAnyChildTid(n, needRestart);
                     if (needRestart) return PCEqualsResults::BothMatch;
-- 
2.43.0


From 8592e6a0995e5a563292a771ff94e88bf59877b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 02/44] fix: revalidate the parent in ART remove after reading
 the child's version

---
 ARTOLC/Tree.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index bee46e4..13f2005 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -478,6 +478,12 @@ namespace ART_OLC {
             auto v = node->readLockOrRestart(needRestart);
             if (needRestart) goto restart;
 
+            if (parentNode != nullptr) {
+                // node may have been moved below another prefix since its parent was read
+                parentNode->readUnlockOrRestart(parentVersion, needRestart);
+                if (needRestart) goto restart;
+            }
+
             switch (checkPrefix(node, k, level)) { // increases level
                 case CheckPrefixResult::NoMatch:
                     node->readUnlockOrRestart(v, needRestart);
-- 
2.43.0


From 836a12615e6016bf0da6a0126ab98d910b4c4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 03/44] fix: ART range lookups follow missing children,
 boundary leaves and replaced nodes correctly

---
 ARTOLC/Key.h    |  6 ++++
 ARTOLC/N16.cpp  |  3 +-
 ARTOLC/N256.cpp |  3 +-
 ARTOLC/N4.cpp   |  3 +-
 ARTOLC/N48.cpp  |  3 +-
 ARTOLC/Tree.cpp | 75 ++++++++++++++++++++++++++++++++++++++++++-------
 ARTOLC/Tree.h   |  4 ++-
 7 files changed, 82 insertions(+), 15 deletions(-)

diff --git a/ARTOLC/Key.h b/ARTOLC/Key.h
index 5b8e511..b1ccea7 100644
--- a/ARTOLC/Key.h
+++ b/ARTOLC/Key.h
@@ -41,6 +41,12 @@ public:
         return std::memcmp(&k[0], data, getKeyLen()) == 0;
     }
 
+    bool operator<(const Key &k) const {
+        KeyLen m = getKeyLen() < k.getKeyLen() ? getKeyLen() : k.getKeyLen();
+        int c = std::memcmp(data, &k[0], m);
+        return c != 0 ? c < 0 : getKeyLen() < k.getKeyLen();
+    }
+
     uint8_t &operator[](std::size_t i);
 
     const uint8_t &operator[](std::size_t i) const;
diff --git a/ARTOLC/N16.cpp b/ARTOLC/N16.cpp
index be6f97e..02f5260 100644
--- a/ARTOLC/N16.cpp
+++ b/ARTOLC/N16.cpp
@@ -91,7 +91,8 @@ namespace ART_OLC {
         bool needRestart = false;
         uint64_t v;
         v = readLockOrRestart(needRestart);
-        if (needRestart) goto restart;
+        // an obsolete node does not change any more and may still be read
+        if (needRestart && !isObsolete(v)) goto restart;
         childrenCount = 0;
         auto startPos = getChildPos(start);
         auto endPos = getChildPos(end);
diff --git a/ARTOLC/N256.cpp b/ARTOLC/N256.cpp
index c667a79..a277873 100644
--- a/ARTOLC/N256.cpp
+++ b/ARTOLC/N256.cpp
@@ -69,7 +69,8 @@ namespace ART_OLC {
         bool needRestart = false;
         uint64_t v;
         v = readLockOrRestart(needRestart);
-        if (needRestart) goto restart;
+        // an obsolete node does not change any more and may still be read
+        if (needRestart && !isObsolete(v)) goto restart;
         childrenCount = 0;
         for (unsigned i = start; i <= end; i++) {
             if (this->children[i] != nullptr) {
diff --git a/ARTOLC/N4.cpp b/ARTOLC/N4.cpp
index 0a3d4ea..5904e9b 100644
--- a/ARTOLC/N4.cpp
+++ b/ARTOLC/N4.cpp
@@ -94,7 +94,8 @@ namespace ART_OLC {
         bool needRestart = false;
         uint64_t v;
         v = readLockOrRestart(needRestart);
-        if (needRestart) goto restart;
+        // an obsolete node does not change any more and may still be read
+        if (needRestart && !isObsolete(v)) goto restart;
         childrenCount = 0;
         for (uint32_t i = 0; i < count; ++i) {
             if (this->keys[i] >= start && this->keys[i] <= end) {
diff --git a/ARTOLC/N48.cpp b/ARTOLC/N48.cpp
index b9d1bfb..7ae3077 100644
--- a/ARTOLC/N48.cpp
+++ b/ARTOLC/N48.cpp
@@ -81,7 +81,8 @@ namespace ART_OLC {
         bool needRestart = false;
         uint64_t v;
         v = readLockOrRestart(needRestart);
-        if (needRestart) goto restart;
+        // an obsolete node does not change any more and may still be read
+        if (needRestart && !isObsolete(v)) goto restart;
         childrenCount = 0;
         for (unsigned i = start; i <= end; i++) {
             if (this->childIndex[i] != emptyMarker) {
diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 13f2005..6fb0e2b 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -99,6 +99,10 @@ namespace ART_OLC {
         }
         EpocheGuard epocheGuard(threadEpocheInfo);
         TID toContinue = 0;
+        // set when a node on the path of a range boundary was replaced: the scan starts over from the root
+        bool restartScan = false;
+        // set when the boundaries part within a node's prefix: a replacement of that node may reach beyond the range
+        bool partedInPrefix = false;
         std::function<void(const N *)> copy = [&result, &resultSize, &resultsFound, &toContinue, &copy](const N *node) {
             if (N::isLeaf(node)) {
                 if (resultsFound == resultSize) {
@@ -120,19 +124,30 @@ namespace ART_OLC {
                 }
             }
         };
-        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart = [&copy, &start, &findStart, &toContinue, this](
-                N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
+        // a leaf that shares its path with a boundary may lie on either side of it
+        auto copyBoundaryLeaf = [&copy, &start, &end, this](const N *leaf) {
+            Key key;
+            loadKey(N::getLeaf(leaf), key);
+            if (!(key < start) && key < end) {
+                copy(leaf);
+            }
+        };
+        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart = [&copy, &copyBoundaryLeaf, &start, &findStart, &toContinue, &restartScan, &partedInPrefix, this](
+                N *node, uint8_t nodeK, uint32_t nodeLevel, const N *parentNode, uint64_t vp) {
             if (N::isLeaf(node)) {
-                copy(node);
+                copyBoundaryLeaf(node);
                 return;
             }
+            uint32_t level;
             uint64_t v;
             PCCompareResults prefixResult;
 
             {
                 readAgain:
                 bool needRestart = false;
+                level = nodeLevel;
                 v = node->readLockOrRestart(needRestart);
+                if (N::isObsolete(v) || N::isObsolete(vp)) goto readParentAgain;
                 if (needRestart) goto readAgain;
 
                 prefixResult = checkPrefixCompare(node, start, 0, level, loadKey, needRestart);
@@ -141,8 +156,12 @@ namespace ART_OLC {
                 parentNode->readUnlockOrRestart(vp, needRestart);
                 if (needRestart) {
                     readParentAgain:
-		  needRestart = false;
+                    needRestart = false;
                     vp = parentNode->readLockOrRestart(needRestart);
+                    if (partedInPrefix || N::isObsolete(vp)) {
+                        restartScan = true;
+                        return;
+                    }
                     if (needRestart) goto readParentAgain;
 
                     node = N::getChild(nodeK, parentNode);
@@ -154,7 +173,7 @@ namespace ART_OLC {
                         return;
                     }
                     if (N::isLeaf(node)) {
-                        copy(node);
+                        copyBoundaryLeaf(node);
                         return;
                     }
                     goto readAgain;
@@ -180,7 +199,7 @@ namespace ART_OLC {
                         } else if (k > startLevel) {
                             copy(n);
                         }
-                        if (toContinue != 0) {
+                        if (toContinue != 0 || restartScan) {
                             break;
                         }
                     }
@@ -190,17 +209,21 @@ namespace ART_OLC {
                     break;
             }
         };
-        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd = [&copy, &end, &toContinue, &findEnd, this](
-                N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
+        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd = [&copy, &copyBoundaryLeaf, &end, &toContinue, &restartScan, &partedInPrefix, &findEnd, this](
+                N *node, uint8_t nodeK, uint32_t nodeLevel, const N *parentNode, uint64_t vp) {
             if (N::isLeaf(node)) {
+                copyBoundaryLeaf(node);
                 return;
             }
+            uint32_t level;
             uint64_t v;
             PCCompareResults prefixResult;
             {
                 readAgain:
                 bool needRestart = false;
+                level = nodeLevel;
                 v = node->readLockOrRestart(needRestart);
+                if (N::isObsolete(v) || N::isObsolete(vp)) goto readParentAgain;
                 if (needRestart) goto readAgain;
 
                 prefixResult = checkPrefixCompare(node, end, 255, level, loadKey, needRestart);
@@ -209,7 +232,12 @@ namespace ART_OLC {
                 parentNode->readUnlockOrRestart(vp, needRestart);
                 if (needRestart) {
                     readParentAgain:
+                    needRestart = false;
                     vp = parentNode->readLockOrRestart(needRestart);
+                    if (partedInPrefix || N::isObsolete(vp)) {
+                        restartScan = true;
+                        return;
+                    }
                     if (needRestart) goto readParentAgain;
 
                     node = N::getChild(nodeK, parentNode);
@@ -221,6 +249,7 @@ namespace ART_OLC {
                         return;
                     }
                     if (N::isLeaf(node)) {
+                        copyBoundaryLeaf(node);
                         return;
                     }
                     goto readAgain;
@@ -245,7 +274,7 @@ namespace ART_OLC {
                         } else if (k < endLevel) {
                             copy(n);
                         }
-                        if (toContinue != 0) {
+                        if (toContinue != 0 || restartScan) {
                             break;
                         }
                     }
@@ -264,6 +293,9 @@ namespace ART_OLC {
         bool needRestart = false;
 
         resultsFound = 0;
+        toContinue = 0;
+        restartScan = false;
+        partedInPrefix = false;
 
         uint32_t level = 0;
         N *node = nullptr;
@@ -277,6 +309,7 @@ namespace ART_OLC {
             vp = v;
             node = nextNode;
             PCEqualsResults prefixResult;
+            const uint32_t nodeLevel = level;
             v = node->readLockOrRestart(needRestart);
             if (needRestart) goto restart;
             prefixResult = checkPrefixEquals(node, level, start, end, loadKey, needRestart);
@@ -296,6 +329,16 @@ namespace ART_OLC {
                     copy(node);
                     break;
                 }
+                case PCEqualsResults::StartMatch: {
+                    partedInPrefix = true;
+                    findStart(node, start[nodeLevel - 1], nodeLevel, parentNode, vp);
+                    break;
+                }
+                case PCEqualsResults::EndMatch: {
+                    partedInPrefix = true;
+                    findEnd(node, end[nodeLevel - 1], nodeLevel, parentNode, vp);
+                    break;
+                }
                 case PCEqualsResults::BothMatch: {
                     uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
                     uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
@@ -313,7 +356,7 @@ namespace ART_OLC {
                             } else if (k == endLevel) {
                                 findEnd(n, k, level + 1, node, v);
                             }
-                            if (toContinue) {
+                            if (toContinue != 0 || restartScan) {
                                 break;
                             }
                         }
@@ -321,6 +364,13 @@ namespace ART_OLC {
                         nextNode = N::getChild(startLevel, node);
                         node->readUnlockOrRestart(v, needRestart);
                         if (needRestart) goto restart;
+                        if (nextNode == nullptr) {
+                            return false;
+                        }
+                        if (N::isLeaf(nextNode)) {
+                            copyBoundaryLeaf(nextNode);
+                            break;
+                        }
                         level++;
                         continue;
                     }
@@ -329,6 +379,7 @@ namespace ART_OLC {
             }
             break;
         }
+        if (restartScan) goto restart;
         if (toContinue != 0) {
             loadKey(toContinue, continueKey);
             return true;
@@ -661,6 +712,10 @@ namespace ART_OLC {
                 } else if (curKey < startLevel || curKey > endLevel) {
                     return PCEqualsResults::NoMatch;
                 }
+                if (startLevel != endLevel) {
+                    // the boundaries part within the prefix: only one of them still matters below
+                    return curKey == startLevel ? PCEqualsResults::StartMatch : PCEqualsResults::EndMatch;
+                }
                 ++level;
             }
         }
diff --git a/ARTOLC/Tree.h b/ARTOLC/Tree.h
index c104314..0a64904 100644
--- a/ARTOLC/Tree.h
+++ b/ARTOLC/Tree.h
@@ -43,7 +43,9 @@ namespace ART_OLC {
         enum class PCEqualsResults : uint8_t {
             BothMatch,
             Contained,
-            NoMatch
+            NoMatch,
+            StartMatch,
+            EndMatch
         };
         static CheckPrefixResult checkPrefix(N* n, const Key &k, uint32_t &level);
 
-- 
2.43.0


From f9c4a5c29990fffe4253f502ed10b19aaa79299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 04/44] fix: validate the last-level node of an OptiQL ART
 update before using its child

---
 OptiQL/Tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index a5fafb9..f698140 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -648,7 +648,7 @@ restart:
         }
         parentNode = node;
         node = N::getChild(k[level], parentNode);
-        if (level < k.getKeyLen() - 1) {
+        if (!lockAcquired) {
           parentNode->checkOrRestart(v, needRestart);
           if (needRestart) goto restart;
         }
-- 
2.43.0


From 4b28612546527630955598b231b99c5f4d953b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 05/44] fix: revalidate the parent in OptiQL ART remove after
 reading the child's version

---
 OptiQL/Tree.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index f698140..4b9676c 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -1232,6 +1232,12 @@ restart:
     auto v = node->readLockOrRestart(needRestart);
     if (needRestart) goto restart;
 
+    if (parentNode != nullptr) {
+      // node may have been moved below another prefix since its parent was read
+      parentNode->readUnlockOrRestart(parentVersion, needRestart);
+      if (needRestart) goto restart;
+    }
+
     switch (checkPrefix(node, k, level)) {  // increases level
       case CheckPrefixResult::NoMatch:
         node->readUnlockOrRestart(v, needRestart);
-- 
2.43.0


From c72e141b27eb8b84b6199221afe857907924e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 06/44] fix: OptiQL ART range lookups follow missing children,
 boundary leaves and replaced nodes correctly

---
 OptiQL/N16.cpp  |   5 ++-
 OptiQL/N256.cpp |   5 ++-
 OptiQL/N4.cpp   |   5 ++-
 OptiQL/N48.cpp  |   5 ++-
 OptiQL/Tree.cpp | 116 +++++++++++++++++++++++++++++++++++++++++-------
 OptiQL/Tree.h   |   2 +-
 6 files changed, 117 insertions(+), 21 deletions(-)

diff --git a/OptiQL/N16.cpp b/OptiQL/N16.cpp
index 09d27a3..60f4370 100644
--- a/OptiQL/N16.cpp
+++ b/OptiQL/N16.cpp
@@ -90,7 +90,9 @@ restart:
   bool needRestart = false;
   uint64_t v;
   v = readLockOrRestart(needRestart);
-  if (needRestart) goto restart;
+  // an obsolete node does not change any more and may still be read
+  const bool obsolete = needRestart && isObsolete();
+  if (needRestart && !obsolete) goto restart;
   childrenCount = 0;
   auto startPos = getChildPos(start);
   auto endPos = getChildPos(end);
@@ -104,6 +106,7 @@ restart:
     children[childrenCount] = std::make_tuple(flipSign(keys[p - this->children]), *p);
     childrenCount++;
   }
+  if (obsolete) return v;
   readUnlockOrRestart(v, needRestart);
   if (needRestart) goto restart;
   return v;
diff --git a/OptiQL/N256.cpp b/OptiQL/N256.cpp
index f267577..adb6146 100644
--- a/OptiQL/N256.cpp
+++ b/OptiQL/N256.cpp
@@ -65,7 +65,9 @@ restart:
   bool needRestart = false;
   uint64_t v;
   v = readLockOrRestart(needRestart);
-  if (needRestart) goto restart;
+  // an obsolete node does not change any more and may still be read
+  const bool obsolete = needRestart && isObsolete();
+  if (needRestart && !obsolete) goto restart;
   childrenCount = 0;
   for (unsigned i = start; i <= end; i++) {
     if (this->children[i] != nullptr) {
@@ -73,6 +75,7 @@ restart:
       childrenCount++;
     }
   }
+  if (obsolete) return v;
   readUnlockOrRestart(v, needRestart);
   if (needRestart) goto restart;
   return v;
diff --git a/OptiQL/N4.cpp b/OptiQL/N4.cpp
index 8ad79bf..a52a394 100644
--- a/OptiQL/N4.cpp
+++ b/OptiQL/N4.cpp
@@ -93,7 +93,9 @@ restart:
   bool needRestart = false;
   uint64_t v;
   v = readLockOrRestart(needRestart);
-  if (needRestart) goto restart;
+  // an obsolete node does not change any more and may still be read
+  const bool obsolete = needRestart && isObsolete();
+  if (needRestart && !obsolete) goto restart;
   childrenCount = 0;
   for (uint32_t i = 0; i < count; ++i) {
     if (this->keys[i] >= start && this->keys[i] <= end) {
@@ -101,6 +103,7 @@ restart:
       childrenCount++;
     }
   }
+  if (obsolete) return v;
   readUnlockOrRestart(v, needRestart);
   if (needRestart) goto restart;
   return v;
diff --git a/OptiQL/N48.cpp b/OptiQL/N48.cpp
index a40d6c0..8aa668d 100644
--- a/OptiQL/N48.cpp
+++ b/OptiQL/N48.cpp
@@ -80,7 +80,9 @@ restart:
   bool needRestart = false;
   uint64_t v;
   v = readLockOrRestart(needRestart);
-  if (needRestart) goto restart;
+  // an obsolete node does not change any more and may still be read
+  const bool obsolete = needRestart && isObsolete();
+  if (needRestart && !obsolete) goto restart;
   childrenCount = 0;
   for (unsigned i = start; i <= end; i++) {
     if (this->childIndex[i] != emptyMarker) {
@@ -88,6 +90,7 @@ restart:
       childrenCount++;
     }
   }
+  if (obsolete) return v;
   readUnlockOrRestart(v, needRestart);
   if (needRestart) goto restart;
   return v;
diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index 4b9676c..4038b15 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -87,6 +87,10 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
   }
 
   TID toContinue = 0;
+  // set when a node on the path of a range boundary was replaced: the scan starts over from the root
+  bool restartScan = false;
+  // set when the boundaries part within a node's prefix: a replacement of that node may reach beyond the range
+  bool partedInPrefix = false;
   std::function<void(const N *)> copy = [&result, &resultSize, &resultsFound, &toContinue,
                                          &copy](const N *node) {
     if (N::isLeaf(node)) {
@@ -109,11 +113,20 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
       }
     }
   };
+  // a leaf that shares its path with a boundary may lie on either side of it
+  auto copyBoundaryLeaf = [&copy, &start, &end, this](const N *leaf) {
+    Key key;
+    loadKey(N::getLeaf(leaf), key);
+    if (!(key < start) && key < end) {
+      copy(leaf);
+    }
+  };
   std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart =
-      [&copy, &start, &findStart, &toContinue, this](N *node, uint8_t nodeK, uint32_t level,
-                                                     const N *parentNode, uint64_t vp) {
+      [&copy, &copyBoundaryLeaf, &start, &findStart, &toContinue, &restartScan, &partedInPrefix,
+       this](N *node, uint8_t nodeK, uint32_t nodeLevel, const N *parentNode, uint64_t vp) {
+        uint32_t level;
         if (N::isLeaf(node)) {
-          copy(node);
+          copyBoundaryLeaf(node);
           return;
         }
         uint64_t v;
@@ -122,7 +135,9 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
         {
         readAgain:
           bool needRestart = false;
+          level = nodeLevel;
           v = node->readLockOrRestart(needRestart);
+          if (node->isObsolete() || parentNode->isObsolete()) goto readParentAgain;
           if (needRestart) goto readAgain;
 
           prefixResult = checkPrefixCompare(node, start, 0, level, loadKey, needRestart);
@@ -133,6 +148,10 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
           readParentAgain:
             needRestart = false;
             vp = parentNode->readLockOrRestart(needRestart);
+            if (partedInPrefix || parentNode->isObsolete()) {
+              restartScan = true;
+              return;
+            }
             if (needRestart) goto readParentAgain;
 
             node = N::getChild(nodeK, parentNode);
@@ -144,7 +163,7 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
               return;
             }
             if (N::isLeaf(node)) {
-              copy(node);
+              copyBoundaryLeaf(node);
               return;
             }
             goto readAgain;
@@ -170,7 +189,7 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
               } else if (k > startLevel) {
                 copy(n);
               }
-              if (toContinue != 0) {
+              if (toContinue != 0 || restartScan) {
                 break;
               }
             }
@@ -181,9 +200,11 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
         }
       };
   std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd =
-      [&copy, &end, &toContinue, &findEnd, this](N *node, uint8_t nodeK, uint32_t level,
-                                                 const N *parentNode, uint64_t vp) {
+      [&copy, &copyBoundaryLeaf, &end, &toContinue, &restartScan, &partedInPrefix, &findEnd,
+       this](N *node, uint8_t nodeK, uint32_t nodeLevel, const N *parentNode, uint64_t vp) {
+        uint32_t level;
         if (N::isLeaf(node)) {
+          copyBoundaryLeaf(node);
           return;
         }
         uint64_t v;
@@ -191,7 +212,9 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
         {
         readAgain:
           bool needRestart = false;
+          level = nodeLevel;
           v = node->readLockOrRestart(needRestart);
+          if (node->isObsolete() || parentNode->isObsolete()) goto readParentAgain;
           if (needRestart) goto readAgain;
 
           prefixResult = checkPrefixCompare(node, end, 255, level, loadKey, needRestart);
@@ -202,6 +225,10 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
           readParentAgain:
             needRestart = false;
             vp = parentNode->readLockOrRestart(needRestart);
+            if (partedInPrefix || parentNode->isObsolete()) {
+              restartScan = true;
+              return;
+            }
             if (needRestart) goto readParentAgain;
 
             node = N::getChild(nodeK, parentNode);
@@ -213,6 +240,7 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
               return;
             }
             if (N::isLeaf(node)) {
+              copyBoundaryLeaf(node);
               return;
             }
             goto readAgain;
@@ -237,7 +265,7 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
               } else if (k < endLevel) {
                 copy(n);
               }
-              if (toContinue != 0) {
+              if (toContinue != 0 || restartScan) {
                 break;
               }
             }
@@ -252,6 +280,9 @@ restart:
   bool needRestart = false;
 
   resultsFound = 0;
+  toContinue = 0;
+  restartScan = false;
+  partedInPrefix = false;
 
   uint32_t level = 0;
   N *node = nullptr;
@@ -265,6 +296,7 @@ restart:
     vp = v;
     node = nextNode;
     PCEqualsResults prefixResult;
+    const uint32_t nodeLevel = level;
     v = node->readLockOrRestart(needRestart);
     if (needRestart) goto restart;
     prefixResult = checkPrefixEquals(node, level, start, end, loadKey, needRestart);
@@ -284,6 +316,16 @@ restart:
         copy(node);
         break;
       }
+      case PCEqualsResults::StartMatch: {
+        partedInPrefix = true;
+        findStart(node, start[nodeLevel - 1], nodeLevel, parentNode, vp);
+        break;
+      }
+      case PCEqualsResults::EndMatch: {
+        partedInPrefix = true;
+        findEnd(node, end[nodeLevel - 1], nodeLevel, parentNode, vp);
+        break;
+      }
       case PCEqualsResults::BothMatch: {
         uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
         uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
@@ -301,7 +343,7 @@ restart:
             } else if (k == endLevel) {
               findEnd(n, k, level + 1, node, v);
             }
-            if (toContinue) {
+            if (toContinue != 0 || restartScan) {
               break;
             }
           }
@@ -309,6 +351,13 @@ restart:
           nextNode = N::getChild(startLevel, node);
           node->readUnlockOrRestart(v, needRestart);
           if (needRestart) goto restart;
+          if (nextNode == nullptr) {
+            return false;
+          }
+          if (N::isLeaf(nextNode)) {
+            copyBoundaryLeaf(nextNode);
+            break;
+          }
           level++;
           continue;
         }
@@ -317,6 +366,7 @@ restart:
     }
     break;
   }
+  if (restartScan) goto restart;
   if (toContinue != 0) {
     loadKey(toContinue, continueKey);
     return true;
@@ -328,6 +378,8 @@ restart:
 bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
                        std::size_t &resultsFound) const {
   TID toContinue = 0;
+  // set when a node on the path of a range boundary was replaced: the scan starts over from the root
+  bool restartScan = false;
   std::function<void(const N *)> copy = [&result, &resultSize, &resultsFound, &toContinue,
                                          &copy](const N *node) {
     if (N::isLeaf(node)) {
@@ -350,11 +402,20 @@ bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
       }
     }
   };
+  // a leaf that shares its path with a boundary may lie on either side of it
+  auto copyBoundaryLeaf = [&copy, &start, this](const N *leaf) {
+    Key key;
+    loadKey(N::getLeaf(leaf), key);
+    if (!(key < start)) {
+      copy(leaf);
+    }
+  };
   std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart =
-      [&copy, &start, &findStart, &toContinue, this](N *node, uint8_t nodeK, uint32_t level,
-                                                     const N *parentNode, uint64_t vp) {
+      [&copy, &copyBoundaryLeaf, &start, &findStart, &toContinue, &restartScan,
+       this](N *node, uint8_t nodeK, uint32_t nodeLevel, const N *parentNode, uint64_t vp) {
+        uint32_t level;
         if (N::isLeaf(node)) {
-          copy(node);
+          copyBoundaryLeaf(node);
           return;
         }
         uint64_t v;
@@ -363,7 +424,9 @@ bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
         {
         readAgain:
           bool needRestart = false;
+          level = nodeLevel;
           v = node->readLockOrRestart(needRestart);
+          if (node->isObsolete() || parentNode->isObsolete()) goto readParentAgain;
           if (needRestart) goto readAgain;
 
           prefixResult = checkPrefixCompare(node, start, 0, level, loadKey, needRestart);
@@ -374,6 +437,10 @@ bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
           readParentAgain:
             needRestart = false;
             vp = parentNode->readLockOrRestart(needRestart);
+            if (parentNode->isObsolete()) {
+              restartScan = true;
+              return;
+            }
             if (needRestart) goto readParentAgain;
 
             node = N::getChild(nodeK, parentNode);
@@ -385,7 +452,7 @@ bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
               return;
             }
             if (N::isLeaf(node)) {
-              copy(node);
+              copyBoundaryLeaf(node);
               return;
             }
             goto readAgain;
@@ -411,7 +478,7 @@ bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
               } else if (k > startLevel) {
                 copy(n);
               }
-              if (toContinue != 0) {
+              if (toContinue != 0 || restartScan) {
                 break;
               }
             }
@@ -426,6 +493,8 @@ restart:
   bool needRestart = false;
 
   resultsFound = 0;
+  toContinue = 0;
+  restartScan = false;
 
   uint32_t level = 0;
   N *node = nullptr;
@@ -454,8 +523,11 @@ restart:
       case PCCompareResults::Smaller: {
         return false;
       }
-      case PCCompareResults::Equal:
       case PCCompareResults::Bigger: {
+        copy(node);
+        break;
+      }
+      case PCCompareResults::Equal: {
         uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
         uint8_t endLevel = 255;
         if (startLevel != endLevel) {
@@ -470,7 +542,7 @@ restart:
             } else if (k > startLevel) {
               copy(n);
             }
-            if (toContinue) {
+            if (toContinue != 0 || restartScan) {
               break;
             }
           }
@@ -478,6 +550,13 @@ restart:
           nextNode = N::getChild(startLevel, node);
           node->readUnlockOrRestart(v, needRestart);
           if (needRestart) goto restart;
+          if (nextNode == nullptr) {
+            return false;
+          }
+          if (N::isLeaf(nextNode)) {
+            copyBoundaryLeaf(nextNode);
+            break;
+          }
           level++;
           continue;
         }
@@ -486,6 +565,7 @@ restart:
     }
     break;
   }
+  if (restartScan) goto restart;
 
   return false;
 }
@@ -1434,6 +1514,10 @@ typename Tree::PCEqualsResults Tree::checkPrefixEquals(const N *n, uint32_t &lev
       } else if (curKey < startLevel || curKey > endLevel) {
         return PCEqualsResults::NoMatch;
       }
+      if (startLevel != endLevel) {
+        // the boundaries part within the prefix: only one of them still matters below
+        return curKey == startLevel ? PCEqualsResults::StartMatch : PCEqualsResults::EndMatch;
+      }
       ++level;
     }
   }
diff --git a/OptiQL/Tree.h b/OptiQL/Tree.h
index 1b2123c..0d0999f 100644
--- a/OptiQL/Tree.h
+++ b/OptiQL/Tree.h
@@ -42,7 +42,7 @@ class Tree {
     Equal,
     Bigger,
   };
-  enum class PCEqualsResults : uint8_t { BothMatch, Contained, NoMatch };
+  enum class PCEqualsResults : uint8_t { BothMatch, Contained, NoMatch, StartMatch, EndMatch };
   static CheckPrefixResult checkPrefix(N *n, const Key &k, uint32_t &level);
 
   static CheckPrefixPessimisticResult checkPrefixPessimistic(
-- 
2.43.0


From 272fe5e32555d4d0b2ab802e8816f1e6b5197344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 07/44] fix: BTreeOLC lookup reports absence of a missing key

---
 BTreeOLC/BTreeOLC.h              | 2 +-
 BTreeOLC/BTreeOLC_child_layout.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BTreeOLC/BTreeOLC.h b/BTreeOLC/BTreeOLC.h
index e7826a9..10cc283 100644
--- a/BTreeOLC/BTreeOLC.h
+++ b/BTreeOLC/BTreeOLC.h
@@ -391,7 +391,7 @@ struct BTree {
 
     BTreeLeaf<Key,Value>* leaf = static_cast<BTreeLeaf<Key,Value>*>(node);
     unsigned pos = leaf->lowerBound(k);
-    bool success;
+    bool success = false;
     if ((pos<leaf->count) && (leaf->keys[pos]==k)) {
       success = true;
       result = leaf->payloads[pos];
diff --git a/BTreeOLC/BTreeOLC_child_layout.h b/BTreeOLC/BTreeOLC_child_layout.h
index 2f8e953..94fd1e2 100644
--- a/BTreeOLC/BTreeOLC_child_layout.h
+++ b/BTreeOLC/BTreeOLC_child_layout.h
@@ -390,7 +390,7 @@ struct BTree {
 
     BTreeLeaf<Key,Value>* leaf = static_cast<BTreeLeaf<Key,Value>*>(node);
     unsigned pos = leaf->lowerBound(k);
-    bool success;
+    bool success = false;
     if ((pos<leaf->count) && (leaf->data[pos].first==k)) {
       success = true;
       result = leaf->data[pos].second;
-- 
2.43.0


From 1a10a630c9aaf28ed9802dc5d1e3eb2ee807ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:46 +0000
Subject: [PATCH 08/44] fix: HOT lookup on an empty index dereferenced a null
 node

---
 HOT/include/hot/rowex/HOTRowex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index ac38163..360d251 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -64,6 +64,9 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 	uint8_t const* byteKey = idx::contenthelpers::interpretAsByteArray(fixedSizeKey);
 
 	HOTRowexChildPointer current =  mRoot;
+	if(current.isEmpty()) {
+		return {};
+	}
 	while(!current.isLeaf()) {
 		current = *(current.search(byteKey));
 	}
-- 
2.43.0


From 9a876538bc0b136689586b60c441bcb1d0907e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:46 +0000
Subject: [PATCH 09/44] fix: HOT upsert into a single-entry index reported its
 own new value as the replaced one

---
 HOT/include/hot/rowex/HOTRowex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index 360d251..9ef3328 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -167,7 +167,7 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 				upsertCompleted = mRoot.compareAndSwap(currentRoot, HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
 				upsertResult = { true, existingValue };
 			} else {
-				insertGuarded(newValue);
+				upsertCompleted = insertGuarded(newValue);
 			}
 		} else {
 			HOTRowexChildPointer newRootPointer(idx::contenthelpers::valueToTid(newValue));
-- 
2.43.0


From 7a5d5bb8a7e5eb6cf3fee9ca986f7b5b7d12afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:46 +0000
Subject: [PATCH 10/44] fix: HOT upsert overwrote a slot that had changed
 before it was locked, losing entries

---
 HOT/include/hot/rowex/HOTRowex.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index 9ef3328..3e61a72 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -153,11 +153,14 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 				InsertStackEntryType &leafEntry = *insertStack.mLeafEntry;
 				InsertStackEntryType* parentEntry = insertStack.mLeafEntry - 1;
 				if(parentEntry->tryLock()) { //Check for consistency
-					ValueType const &existingValue = idx::contenthelpers::tidToValue<ValueType>(
-						leafEntry.getChildPointer().getTid());
-					leafEntry.updateChildPointer(HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
-					upsertResult = idx::contenthelpers::OptionalValue<ValueType> {true, existingValue};
-					upsertCompleted = true;
+					//the slot may have been replaced (by another upsert or a leaf node pushdown) before the lock was acquired
+					if(leafEntry.isConsistent()) {
+						ValueType const &existingValue = idx::contenthelpers::tidToValue<ValueType>(
+							leafEntry.getChildPointer().getTid());
+						leafEntry.updateChildPointer(HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
+						upsertResult = idx::contenthelpers::OptionalValue<ValueType> {true, existingValue};
+						upsertCompleted = true;
+					}
 					parentEntry->unlock();
 				}
 			}
-- 
2.43.0


From 3dba5c9d91513158067187cc87edfe083c14bf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 11/44] fix: HOT bounded search on an index whose root is a
 single entry missed larger entries and read a root that could change
 underneath

---
 HOT/include/hot/rowex/HOTRowexIterator.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/HOT/include/hot/rowex/HOTRowexIterator.hpp b/HOT/include/hot/rowex/HOTRowexIterator.hpp
index 1718c7a..c3469a0 100644
--- a/HOT/include/hot/rowex/HOTRowexIterator.hpp
+++ b/HOT/include/hot/rowex/HOTRowexIterator.hpp
@@ -57,11 +57,10 @@ public:
 
 	static inline HOTRowexSynchronizedIterator getBounded(HOTRowexChildPointer const * rootPointer, KeyType const & searchKey, bool isLowerBound, EpochBasedMemoryReclamationStrategy * const & memoryReclamationStrategy) {
 		MemoryGuard guard(memoryReclamationStrategy);
-		HOTRowexChildPointer const & currentRoot = *rootPointer;
+		//a copy is important, as the root pointer might be changed concurrently
+		HOTRowexChildPointer const currentRoot = *rootPointer;
 
-		return (currentRoot.isLeaf()
-				&& idx::contenthelpers::contentEquals(searchKey, extractKey(idx::contenthelpers::tidToValue<ValueType>(currentRoot.getTid())))
-			   ) || currentRoot.isAValidNode()
+		return currentRoot.isUsed()
 			   ? HOTRowexSynchronizedIterator(rootPointer, currentRoot, searchKey, isLowerBound, memoryReclamationStrategy, guard)
 			   : END_ITERATOR;
 	}
@@ -208,7 +207,10 @@ private:
 
 		idx::contenthelpers::OptionalValue<hot::commons::DiscriminativeBit> mismatchingBit = hot::commons::getMismatchingBit(existingKeyBytes, searchKeyBytes, idx::contenthelpers::getMaxKeyLength<KeyType>());
 
-		if(mismatchingBit.mIsValid) {
+		if(mismatchingBit.mIsValid && getIteratorStackDepth(currentStackRoot, currentStackEntry) == 0) {
+			//the root itself is a leaf, which is only part of the result if it is larger than the search key
+			return fillBuffer({ bufferRoot }, { currentStackRoot, mismatchingBit.mValue.mValue ? ITERATOR_FILL_BUFFER_STATE_END : ITERATOR_FILL_BUFFER_STATE_STORE, currentStackEntry }, guard);
+		} else if(mismatchingBit.mIsValid) {
 			HOTRowexChildPointer const * childPointerLocation = currentStackEntry->getCurrentPointerLocation();
 			--mMostSignificantBitIndex;
 			--currentStackEntry;
-- 
2.43.0


From f9486b824f05105bf6cf55f39d001473d969ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:52 +0000
Subject: [PATCH 12/44] fix: HOT bounded search returned a smaller entry that
 was pushed down concurrently on its search path

---
 HOT/include/hot/rowex/HOTRowexIterator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/HOT/include/hot/rowex/HOTRowexIterator.hpp b/HOT/include/hot/rowex/HOTRowexIterator.hpp
index c3469a0..1c296a8 100644
--- a/HOT/include/hot/rowex/HOTRowexIterator.hpp
+++ b/HOT/include/hot/rowex/HOTRowexIterator.hpp
@@ -232,7 +232,11 @@ private:
 				if(nextEntryLocation >= existingNode.end()) {
 					return HOTRowexSynchronizedIteratorStackState(currentStackRoot, HOTRowexSynchronizedIterator::ascendOrAdvance(currentStackEntry), currentStackEntry);
 				} else {
-					(++currentStackEntry)->init(nextEntryLocation, existingNode.end());
+					++currentStackEntry;
+					//the entry on the search path must not be read again: in the meantime keys smaller than the search key might have been pushed down there
+					if(nextEntryLocation != currentStackEntry->getCurrentPointerLocation()) {
+						currentStackEntry->init(nextEntryLocation, existingNode.end());
+					}
 					return HOTRowexSynchronizedIteratorStackState(currentStackRoot, HOTRowexSynchronizedIterator::descendOrStore(currentStackEntry), currentStackEntry );
 				}
 			}), guard);
-- 
2.43.0


From f8a6fc3fda98965df0d0939139cee88deff47b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 13/44] fix: HOT epoch reclamation freed nodes still read by a
 thread that entered an epoch late

---
 .../hot/rowex/EpochBasedMemoryReclamationStrategy.hpp       | 6 ++++++
 .../ThreadSpecificEpochBasedReclamationInformation.hpp      | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp b/HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp
index 162e3d2..57395d5 100644
--- a/HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp
+++ b/HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp
@@ -35,6 +35,12 @@ public:
 		ThreadSpecificEpochBasedReclamationInformation & currentMemoryInformation = mThreadSpecificInformations.local();
 		uint32_t currentEpoch = mCurrentEpoch.load(std::memory_order_acquire);
 		currentMemoryInformation.enter(currentEpoch);
+		//the epoch might have advanced before the local epoch became visible to other threads, in that case this thread does not protect anything
+		for(uint32_t latestEpoch; (latestEpoch = mCurrentEpoch.load()) != currentEpoch;) {
+			currentMemoryInformation.leave();
+			currentEpoch = latestEpoch;
+			currentMemoryInformation.enter(currentEpoch);
+		}
 		if(currentMemoryInformation.doesThreadWantToAdvanceEpoch() && canAdvance(currentEpoch)) {
 			mCurrentEpoch.compare_exchange_strong(currentEpoch, NEXT_EPOCH[currentEpoch]);
 		}
diff --git a/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp b/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp
index da04228..0b5b8b2 100644
--- a/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp
+++ b/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp
@@ -50,7 +50,7 @@ public:
 			mThreadWantsToAdvance = false;
 			mPreviouslyAccessedEpoch = newEpoch;
 		}
-		mLocalEpoch.store(newEpoch, std::memory_order_release);
+		mLocalEpoch.store(newEpoch);
 	}
 
 	void leave()  {
-- 
2.43.0


From 0a64d76e386c79b5aa66f76ba0a8f43901bddc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 14/44] fix: OMCS upgrade from an opportunistically read
 version replaced the tail of a lock in use

---
 OptiQL/latches/OMCSImpl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/OptiQL/latches/OMCSImpl.h b/OptiQL/latches/OMCSImpl.h
index 3c32147..1ffc6c9 100644
--- a/OptiQL/latches/OMCSImpl.h
+++ b/OptiQL/latches/OMCSImpl.h
@@ -347,6 +347,12 @@ class OMCSLock {
   }
 
   inline bool try_lock(OMCSQNode *qnode, uint64_t version) {
+    // An opportunistically read version belongs to a lock that is still held
+    // by a queue of writers, so it must never be upgraded
+    if (OMCSLock::has_locked_bit(version)) {
+      return false;
+    }
+
     if (!validate_read(version)) {
       return false;
     }
-- 
2.43.0


From 84c9f95a0f35c8df29be1f503fe953844e6b3260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 15/44] fix: Masstree retired removed nodes before unlinking
 them

---
 MassTree/masstree_remove.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/MassTree/masstree_remove.hh b/MassTree/masstree_remove.hh
index b1a749d..4f72fea 100644
--- a/MassTree/masstree_remove.hh
+++ b/MassTree/masstree_remove.hh
@@ -186,9 +186,9 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         return false;
     }
 
-    // mark leaf deleted, RCU-free
+    // mark leaf deleted; it is RCU-freed only once it cannot be reached any
+    // more, so that the recorded epoch covers everyone who can still see it
     leaf->mark_deleted();
-    leaf->deallocate_rcu(ti);
 
     // Ensure node that becomes responsible for our keys has its phantom epoch
     // kept up to date
@@ -238,6 +238,11 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
 
         n->unlock();
+        if (n == leaf) {
+            leaf->deallocate_rcu(ti);
+        } else {
+            static_cast<internode_type*>(n)->deallocate_rcu(ti);
+        }
         n = p;
 
         if (p->nkeys_ || p->is_root()) {
@@ -245,7 +250,6 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
 
         p->mark_deleted();
-        p->deallocate_rcu(ti);
         replacement = p->child_[0];
         p->child_[0] = nullptr;
     }
-- 
2.43.0


From da2266cf64e50c763e7901f33451553dd110c913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 16/44] fix: Masstree layer collapse retired the layer's leaf
 while it was still linked

---
 MassTree/masstree_remove.hh  | 10 +++++++---
 MassTree/masstree_tcursor.hh |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/MassTree/masstree_remove.hh b/MassTree/masstree_remove.hh
index 4f72fea..1c252b3 100644
--- a/MassTree/masstree_remove.hh
+++ b/MassTree/masstree_remove.hh
@@ -21,7 +21,7 @@
 namespace Masstree {
 
 template <typename P>
-bool tcursor<P>::gc_layer(threadinfo& ti)
+bool tcursor<P>::gc_layer(threadinfo& ti, leaf_type*& dead)
 {
     find_locked(ti);
     masstree_precondition(!n_->deleted() && !n_->deleted_layer());
@@ -105,7 +105,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
         }
         lf->mark_deleted_layer();   // NB DO NOT mark as deleted (see above)
         lf->unlock();
-        lf->deallocate_rcu(ti);
+        dead = lf;                  // RCU-freed by the caller once unreachable
         return true;
     }
 
@@ -139,10 +139,14 @@ void gc_layer_rcu_callback<P>::operator()(threadinfo& ti)
     }
     if (!root_->deleted()) {    // if not destroying tree...
         tcursor<P> lp(root_, s_, len_);
-        bool do_remove = lp.gc_layer(ti);
+        leaf<P>* dead = nullptr;
+        bool do_remove = lp.gc_layer(ti, dead);
         if (!do_remove || !lp.finish_remove(ti)) {
             lp.n_->unlock();
         }
+        if (dead) {
+            dead->deallocate_rcu(ti);
+        }
         ti.deallocate(this, size(), memtag_masstree_gc);
     }
 }
diff --git a/MassTree/masstree_tcursor.hh b/MassTree/masstree_tcursor.hh
index b3782dd..705911b 100644
--- a/MassTree/masstree_tcursor.hh
+++ b/MassTree/masstree_tcursor.hh
@@ -193,7 +193,7 @@ class tcursor {
     static bool remove_leaf(leaf_type* leaf, node_type* root,
                             Str prefix, threadinfo& ti);
 
-    bool gc_layer(threadinfo& ti);
+    bool gc_layer(threadinfo& ti, leaf_type*& dead);
     friend struct gc_layer_rcu_callback<P>;
 };
 
-- 
2.43.0


From 2ad812797983c937e0a5eadefcf4bc0d0872ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 17/44] fix: MassTreeWrapper upsert retired the old value
 before replacing it

---
 MassTree/MassTreeWrapper.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MassTree/MassTreeWrapper.h b/MassTree/MassTreeWrapper.h
index b37388f..d9f888e 100644
--- a/MassTree/MassTreeWrapper.h
+++ b/MassTree/MassTreeWrapper.h
@@ -78,11 +78,12 @@ class MassTreeWrapper {
     mass_thd_info->rcu_start();
     locked_cursor_t lp(tree_, key, klen);
     bool find = lp.find_insert(*mass_thd_info);
-    if(find) {
-      retire(lp.value(), vtag());
-    }
+    V old = find ? lp.value() : V();
     lp.value() = value;
     lp.finish(1, *mass_thd_info);
+    if(find) { /* retired only after it has become unreachable */
+      retire(old, vtag());
+    }
     mass_thd_info->rcu_stop();
 
     return !find;
-- 
2.43.0


From d1f92467856491bf2bb552ae5f8fd0fd0f0ae327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 18/44] fix: wormhole writer dereferenced the empty slot of a
 thread that was just registering

---
 wormhole/lib.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wormhole/lib.c b/wormhole/lib.c
index 8c67e10..b93909e 100644
--- a/wormhole/lib.c
+++ b/wormhole/lib.c
@@ -2866,6 +2866,11 @@ qsbr_create(void)
 {
   struct qsbr * const q = yalloc(sizeof(*q));
   memset(q, 0, sizeof(*q));
+  // an unused slot always refers to target, also before its first use: a waiter can see
+  // the slot's bit before qsbr_register() has stored the pointer
+  for (u32 i = 0; i < QSBR_SHARD_NR; i++)
+    for (u32 j = 0; j < QSBR_STATES_NR; j++)
+      atomic_store_explicit(&(q->shards[i].ptrs[j]), (u64)(&q->target), MO_RELAXED);
   return q;
 }
 
-- 
2.43.0


From 090504af4b40c79f3b83f037f5ad593952b50fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 19/44] fix: DAryAddressableIntHeap: forget the handles of the
 old items when the heap is rebuilt

---
 STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp b/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp
index 7329594..c5dd4a3 100644
--- a/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp
+++ b/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp
@@ -351,7 +351,8 @@ private:
                 heap_[cur] = std::move(value);
             }
         }
-        // initialize handles_ vector
+        // initialize handles_ vector: forget the items of a previous heap
+        std::fill(handles_.begin(), handles_.end(), not_present());
         handles_.resize(std::max(handles_.size(), static_cast<size_t>(max_key) + 1), not_present());
         for (size_t i = 0; i < heap_.size(); ++i)
             handles_[heap_[i]] = i;
-- 
2.43.0


From b8e762ca7513addfefc1d54033a44f6268a22a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 20/44] fix: SplayTree: keep duplicates on erase, reset the
 root on clear, and answer exists() on an empty tree

---
 STX/tlx/tlx/container/splay_tree.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/splay_tree.hpp b/STX/tlx/tlx/container/splay_tree.hpp
index a3fb8a3..1f4535d 100644
--- a/STX/tlx/tlx/container/splay_tree.hpp
+++ b/STX/tlx/tlx/container/splay_tree.hpp
@@ -185,7 +185,10 @@ Tree * splay_erase(const Key& k, Tree*& t, const Compare& cmp) {
         }
         else {
             Tree* x = splay(k, t->left, cmp);
-            x->right = t->right;
+            // x may have right descendants if they are duplicates of k
+            Tree* y = x;
+            while (y->right != nullptr) y = y->right;
+            y->right = t->right;
             t = x;
         }
         return r;
@@ -272,10 +275,12 @@ public:
     //! free all nodes
     void clear() {
         splay_traverse_postorder([this](Node* n) { delete_node(n); }, root_);
+        root_ = nullptr;
     }
 
     //! check if key exists
     bool exists(const Key& k) {
+        if (root_ == nullptr) return false;
         root_ = splay(k, root_, cmp_);
         return !cmp_(root_->key, k) && !cmp_(k, root_->key);
     }
-- 
2.43.0


From aa7dd04510d94b69869920a415ae0dcc6df21756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 21/44] fix: RingBuffer: pop_back destroys the last element,
 deallocate resets the positions and the capacity

---
 STX/tlx/tlx/container/ring_buffer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/ring_buffer.hpp b/STX/tlx/tlx/container/ring_buffer.hpp
index 7eec7c1..ef23ff9 100644
--- a/STX/tlx/tlx/container/ring_buffer.hpp
+++ b/STX/tlx/tlx/container/ring_buffer.hpp
@@ -155,6 +155,8 @@ public:
             clear();
             alloc_.deallocate(data_, capacity_);
             data_ = nullptr;
+            begin_ = end_ = 0;
+            capacity_ = 0;
         }
     }
 
@@ -219,8 +221,8 @@ public:
     //! remove element at the end
     void pop_back() {
         assert(!empty());
-        alloc_traits::destroy(alloc_, std::addressof(data_[begin_]));
         --end_ &= mask_;
+        alloc_traits::destroy(alloc_, std::addressof(data_[end_]));
     }
 
     //! reset buffer contents
-- 
2.43.0


From 9858aa7b8243a259ee8fa65636f597ba593e3ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 22/44] fix: RadixHeap: 8 and 16 bit keys, and the largest key
 next to an empty bucket

---
 STX/tlx/tlx/container/radix_heap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/radix_heap.hpp b/STX/tlx/tlx/container/radix_heap.hpp
index 05ba7f6..649dc44 100644
--- a/STX/tlx/tlx/container/radix_heap.hpp
+++ b/STX/tlx/tlx/container/radix_heap.hpp
@@ -288,7 +288,7 @@ public:
         const auto diff = x ^ insertion_limit;
         if (!diff) return 0;
 
-        const auto diff_in_bit = (8 * sizeof(Int) - 1) - clz(diff);
+        const auto diff_in_bit = (8 * sizeof(diff) - 1) - clz(diff);
 
         const auto row = diff_in_bit / radix_bits;
         const auto bucket_in_row = ((x >> (radix_bits * row)) & mask) - row;
@@ -621,6 +621,7 @@ protected:
             const ranked_key_type key = Encoder::rank_of_int(key_extract_(x));
             assert(key >= mins_[first_non_empty]);
             assert(first_non_empty == mins_.size() - 1
+                   || buckets_data_[first_non_empty + 1].empty()
                    || key < mins_[first_non_empty + 1]);
             const auto idx = bucket_map_(key, insertion_limit_);
             assert(idx < first_non_empty);
-- 
2.43.0


From 62f5b5c83a1e1ad663e488b93f36656baae036b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 23/44] fix: ThreadPool: wake all threads waiting in
 loop_until_empty/loop_until_terminate

---
 STX/tlx/tlx/thread_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/STX/tlx/tlx/thread_pool.cpp b/STX/tlx/tlx/thread_pool.cpp
index 23a91e6..fe932c1 100644
--- a/STX/tlx/tlx/thread_pool.cpp
+++ b/STX/tlx/tlx/thread_pool.cpp
@@ -59,7 +59,7 @@ void ThreadPool::terminate() {
     // wake up all worker threads and let them terminate.
     cv_jobs_.notify_all();
     // notify LoopUntilTerminate in case all threads are idle.
-    cv_finished_.notify_one();
+    cv_finished_.notify_all();
 }
 
 size_t ThreadPool::done() const {
@@ -132,7 +132,7 @@ void ThreadPool::worker(size_t p) {
 
             // relock mutex before signaling condition.
             lock.lock();
-            cv_finished_.notify_one();
+            cv_finished_.notify_all();
         }
     }
 }
-- 
2.43.0


From 7116573439ac0ca5f1c8c93ffb25d8f85aa700a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 24/44] fix: Semaphore::signal(): wake all waiters, the one
 woken may need more tokens than are available

---
 STX/tlx/tlx/semaphore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/semaphore.hpp b/STX/tlx/tlx/semaphore.hpp
index a661e38..9674fba 100644
--- a/STX/tlx/tlx/semaphore.hpp
+++ b/STX/tlx/tlx/semaphore.hpp
@@ -44,7 +44,7 @@ public:
     size_t signal() {
         std::unique_lock<std::mutex> lock(mutex_);
         size_t res = ++value_;
-        cv_.notify_one();
+        cv_.notify_all();
         return res;
     }
     //! function increments the semaphore and signals any threads that are
-- 
2.43.0


From 4ccb60894334b215297e1752bd244dd8f5454431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 25/44] fix: CountingPtr assignment from a pointer held by the
 object being released

---
 STX/tlx/tlx/counting_ptr.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/STX/tlx/tlx/counting_ptr.hpp b/STX/tlx/tlx/counting_ptr.hpp
index c4ce899..308be7f 100644
--- a/STX/tlx/tlx/counting_ptr.hpp
+++ b/STX/tlx/tlx/counting_ptr.hpp
@@ -134,9 +134,11 @@ public:
     CountingPtr& operator = (const CountingPtr& other) noexcept {
         if (ptr_ == other.ptr_)
             return *this;
-        inc_reference(other.ptr_);
+        // other may be a member of the current object: read it beforehand.
+        Type* o = other.ptr_;
+        inc_reference(o);
         dec_reference();
-        ptr_ = other.ptr_;
+        ptr_ = o;
         return *this;
     }
 
@@ -149,9 +151,11 @@ public:
     operator = (const CountingPtr<Subclass, Deleter>& other) noexcept {
         if (ptr_ == other.ptr_)
             return *this;
-        inc_reference(other.ptr_);
+        // other may be a member of the current object: read it beforehand.
+        Type* o = other.ptr_;
+        inc_reference(o);
         dec_reference();
-        ptr_ = other.ptr_;
+        ptr_ = o;
         return *this;
     }
 
@@ -159,9 +163,11 @@ public:
     CountingPtr& operator = (CountingPtr&& other) noexcept {
         if (ptr_ == other.ptr_)
             return *this;
-        dec_reference();
-        ptr_ = other.ptr_;
+        // other may be a member of the current object: steal it beforehand.
+        Type* o = other.ptr_;
         other.ptr_ = nullptr;
+        dec_reference();
+        ptr_ = o;
         return *this;
     }
 
@@ -172,9 +178,11 @@ public:
     CountingPtr& operator = (CountingPtr<Subclass, Deleter>&& other) noexcept {
         if (ptr_ == other.ptr_)
             return *this;
-        dec_reference();
-        ptr_ = other.ptr_;
+        // other may be a member of the current object: steal it beforehand.
+        Type* o = other.ptr_;
         other.ptr_ = nullptr;
+        dec_reference();
+        ptr_ = o;
         return *this;
     }
 
-- 
2.43.0


From 68d699e112806bf06533df4f1326468fad09d214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:58 +0000
Subject: [PATCH 26/44] fix: wormhole: make a reader's announcement visible
 before it reads (resume, register)

---
 wormhole/lib.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wormhole/lib.c b/wormhole/lib.c
index b93909e..9b2baf3 100644
--- a/wormhole/lib.c
+++ b/wormhole/lib.c
@@ -2903,7 +2903,8 @@ qsbr_register(struct qsbr * const q, struct qsbr_ref * const qref)
 
     const u64 bits1 = bits | (1lu << pos);
     if (atomic_compare_exchange_weak_explicit(&shard->bitmap, &bits, bits1, MO_ACQUIRE, MO_RELAXED)) {
-      atomic_store_explicit(&shard->ptrs[pos], (u64)ref, MO_RELAXED);
+      // visible before anything is read under its protection, as in qsbr_resume()
+      atomic_store_explicit(&shard->ptrs[pos], (u64)ref, MO_SEQ_CST);
       //shard->ptrs[pos] = ref;
 
       ref->pptr = &(shard->ptrs[pos]);
@@ -2967,7 +2968,8 @@ qsbr_park(struct qsbr_ref * const qref)
 qsbr_resume(struct qsbr_ref * const qref)
 {
   struct qsbr_ref_real * const ref = (typeof(ref))qref;
-  atomic_store_explicit(ref->pptr, (u64)ref, MO_RELAXED);
+  // the announcement must be visible before anything is read under its protection
+  atomic_store_explicit(ref->pptr, (u64)ref, MO_SEQ_CST);
 #ifdef QSBR_DEBUG
   ref->status = 0xf; // resumed
 #endif
-- 
2.43.0


From a2dc4f522b9525a84b2c0c97aa52af96ce470534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 27/44] fix: wormhole: qsbr_wait makes the writer's publication
 visible before it looks for readers

---
 wormhole/lib.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wormhole/lib.c b/wormhole/lib.c
index 9b2baf3..ecd3216 100644
--- a/wormhole/lib.c
+++ b/wormhole/lib.c
@@ -2982,6 +2982,9 @@ qsbr_wait(struct qsbr * const q, const u64 target)
 {
   cpu_cfence();
   qsbr_write_qstate(&q->target, target);
+  // what the writer published must be visible before the readers are looked for: one that
+  // registers from now on is not waited for
+  atomic_thread_fence(MO_SEQ_CST);
   u64 cbits = 0; // check-bits; each bit corresponds to a shard
   u64 bms[QSBR_SHARD_NR]; // copy of all bitmap
   // take an unsafe snapshot of active users
-- 
2.43.0


From b65f49a93709874b635d47e9c780ece78e45e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:12 +0000
Subject: [PATCH 28/44] fix: ARTOLC: entering an epoch is visible before the
 first node is read

---
 ARTOLC/Epoche.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ARTOLC/Epoche.cpp b/ARTOLC/Epoche.cpp
index 2ff107b..c294cec 100644
--- a/ARTOLC/Epoche.cpp
+++ b/ARTOLC/Epoche.cpp
@@ -67,7 +67,8 @@ inline LabelDelete *DeletionList::head() {
 
 __attribute_used__ inline void Epoche::enterEpoche(ThreadInfo &epocheInfo) {
     unsigned long curEpoche = currentEpoche.load(std::memory_order_relaxed);
-    epocheInfo.getDeletionList().localEpoche.store(curEpoche, std::memory_order_release);
+    // must be visible to the collectors before any node is read
+    epocheInfo.getDeletionList().localEpoche.store(curEpoche, std::memory_order_seq_cst);
 }
 
 __attribute_used__ inline void Epoche::markNodeForDeletion(void *n, ThreadInfo &epocheInfo) {
-- 
2.43.0


From 102f5b2063d68959516fdd1a877f2a3c6f30c244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:32 +0000
Subject: [PATCH 29/44] fix: MassTree: epochs are announced and read with
 fences (rcu_start, record_rcu, min_active_epoch)

---
 MassTree/kvthread.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/MassTree/kvthread.hh b/MassTree/kvthread.hh
index fc03339..8a96eed 100644
--- a/MassTree/kvthread.hh
+++ b/MassTree/kvthread.hh
@@ -261,8 +261,11 @@ class threadinfo {
     // RCU
     enum { rcu_free_count = 128 }; // max # of entries to free per rcu_quiesce() call
     void rcu_start() {
-        if (gc_epoch_ != globalepoch)
+        if (gc_epoch_ != globalepoch) {
             gc_epoch_ = globalepoch;
+            // must be visible to min_active_epoch() before any node is read
+            memory_fence();
+        }
     }
     void rcu_stop() {
         if (perform_gc_epoch_ != active_epoch)
@@ -339,6 +342,8 @@ class threadinfo {
     void record_rcu(void* ptr, memtag tag) {
         if (limbo_tail_->tail_ + 2 > limbo_tail_->capacity)
             refill_rcu();
+        // ptr must be out of reach of the threads that start with a later epoch
+        memory_fence();
         uint64_t epoch = globalepoch;
         limbo_tail_->push_back(ptr, tag, epoch);
     }
@@ -366,6 +371,8 @@ class threadinfo {
 
 inline mrcu_epoch_type threadinfo::min_active_epoch() {
     mrcu_epoch_type ae = globalepoch;
+    // a thread that is not seen below starts with the new epoch
+    memory_fence();
     for (threadinfo* ti = allthreads; ti; ti = ti->next()) {
         prefetch((const void*) ti->next());
         mrcu_epoch_type te = ti->gc_epoch_;
-- 
2.43.0


From 68e55a7eb71e3815ff05fcba070aa82792631ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:32 +0000
Subject: [PATCH 30/44] fix: MassTree: a removed leaf stays in the leaf list
 until it is out of the tree

---
 MassTree/masstree_remove.hh | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/MassTree/masstree_remove.hh b/MassTree/masstree_remove.hh
index 1c252b3..3f02c96 100644
--- a/MassTree/masstree_remove.hh
+++ b/MassTree/masstree_remove.hh
@@ -209,9 +209,6 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
     }
 
-    // Unlink leaf from doubly-linked leaf list
-    btree_leaflink<leaf_type>::unlink(leaf);
-
     // Remove leaf from tree, collapse trivial chains, and rewrite
     // ikey bounds.
     ikey_type ikey = leaf->ikey_bound();
@@ -241,10 +238,8 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
             ikey = p->ikey0_[0];
         }
 
-        n->unlock();
-        if (n == leaf) {
-            leaf->deallocate_rcu(ti);
-        } else {
+        if (n != leaf) {
+            n->unlock();
             static_cast<internode_type*>(n)->deallocate_rcu(ti);
         }
         n = p;
@@ -259,6 +254,13 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
     }
 
     n->unlock();
+
+    // Unlink leaf from doubly-linked leaf list. NB not before it is out of
+    // the tree: its predecessor would take over its keys, and could split at
+    // a bound that the parents still have for the leaf.
+    btree_leaflink<leaf_type>::unlink(leaf);
+    leaf->unlock();
+    leaf->deallocate_rcu(ti);
     return true;
 }
 
-- 
2.43.0


From 5b91e63e344ffd0e190414b81b3ef56215e318da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 31/44] fix: wormhole: whunsafe_delr does nothing when end is
 not above start

---
 wormhole/wh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wormhole/wh.c b/wormhole/wh.c
index ffb1da6..26d0c1c 100644
--- a/wormhole/wh.c
+++ b/wormhole/wh.c
@@ -3047,6 +3047,8 @@ whsafe_delr(struct wormref * const ref, const struct kref * const start,
 whunsafe_delr(struct wormhole * const map, const struct kref * const start,
     const struct kref * const end)
 {
+  if (end && kref_compare(start, end) >= 0) // do nothing if end <= start
+    return 0;
   // first leaf
   struct wormhmap * const hmap = map->hmap;
   struct wormleaf * const leafa = wormhole_jump_leaf(hmap, start);
-- 
2.43.0


From f056f9cda80c0e75bcbd25ce1c5124d31b08c4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:52 +0000
Subject: [PATCH 32/44] fix: Masstree rows: retire the old row only after it is
 unlinked

---
 MassTree/kvrow.hh | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/MassTree/kvrow.hh b/MassTree/kvrow.hh
index a92c9b2..dc7e332 100644
--- a/MassTree/kvrow.hh
+++ b/MassTree/kvrow.hh
@@ -185,7 +185,6 @@ inline bool query<R>::apply_put(R*& value, bool found, const Json* firstreq,
     }
 
     if (!found) {
-    insert:
         assign_timestamp(ti);
         value = R::create(firstreq, lastreq, qtimes_.ts, ti);
         return true;
@@ -194,8 +193,10 @@ inline bool query<R>::apply_put(R*& value, bool found, const Json* firstreq,
     R* old_value = value;
     assign_timestamp(ti, old_value->timestamp());
     if (row_is_marker(old_value)) {
+        assign_timestamp(ti);
+        value = R::create(firstreq, lastreq, qtimes_.ts, ti);
         old_value->deallocate_rcu(ti);
-        goto insert;
+        return true;
     }
 
     R* updated = old_value->update(firstreq, lastreq, qtimes_.ts, ti);
@@ -227,14 +228,17 @@ inline bool query<R>::apply_replace(R*& value, bool found, Str new_value,
     }
 
     bool inserted = !found || row_is_marker(value);
+    R* old_value = found ? value : nullptr;
     if (!found) {
         assign_timestamp(ti);
     } else {
-        assign_timestamp(ti, value->timestamp());
-        value->deallocate_rcu(ti);
+        assign_timestamp(ti, old_value->timestamp());
     }
 
     value = R::create1(new_value, qtimes_.ts, ti);
+    // retire the old row only when it cannot be reached anymore
+    if (old_value)
+        old_value->deallocate_rcu(ti);
     return inserted;
 }
 
@@ -242,9 +246,15 @@ template <typename R> template <typename T>
 bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
     bool found = lp.find_locked(ti);
-    if (found)
+    R* old_value = nullptr;
+    if (found) {
+        old_value = lp.value();
         apply_remove(lp.value(), lp.node()->phantom_epoch_[0], ti);
+    }
     lp.finish(-1, ti);
+    // retire the row only when it cannot be reached anymore
+    if (old_value)
+        old_value->deallocate_rcu(ti);
     return found;
 }
 
@@ -261,7 +271,6 @@ inline void query<R>::apply_remove(R*& value, kvtimestamp_t& node_ts,
     if (circular_int<kvtimestamp_t>::less_equal(node_ts, qtimes_.ts)) {
         node_ts = qtimes_.ts + 2;
     }
-    old_value->deallocate_rcu(ti);
 }
 
 
-- 
2.43.0


From 787bcd074bfa89a5b9153b1317c2a0f7af07e8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:52 +0000
Subject: [PATCH 33/44] fix: value_string: no bytes copied from beyond the old
 value, gaps zeroed

---
 MassTree/value_string.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MassTree/value_string.hh b/MassTree/value_string.hh
index dc35c40..3b00bb3 100644
--- a/MassTree/value_string.hh
+++ b/MassTree/value_string.hh
@@ -144,7 +144,9 @@ value_string* value_string::update(const Json* first, const Json* last,
     value_string* row = (value_string*) ti.allocate(shallow_size(vallen), memtag_value);
     row->ts_ = ts;
     row->vallen_ = vallen;
+    cut = std::min(cut, unsigned(vallen_));
     memcpy(row->s_, s_, cut);
+    memset(row->s_ + cut, 0, vallen - cut);
     for (; first != last; first += 2) {
         Str val = first[1].as_s();
         memcpy(row->s_ + index_offset(first[0].as_u()), val.data(), val.length());
-- 
2.43.0


From c20e1ab5a4ea4a4cc56d7c8935c1cd79203cc208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:52 +0000
Subject: [PATCH 34/44] fix: value_versioned_array: compile; snapshot frees
 only its own storage and checks its columns; replaced columns retired after
 they are replaced

---
 MassTree/value_versioned_array.cc | 15 +++++++++------
 MassTree/value_versioned_array.hh |  6 +++++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/MassTree/value_versioned_array.cc b/MassTree/value_versioned_array.cc
index dadd352..02a77d0 100644
--- a/MassTree/value_versioned_array.cc
+++ b/MassTree/value_versioned_array.cc
@@ -29,16 +29,17 @@ value_versioned_array* value_versioned_array::make_sized_row(int ncol, kvtimesta
 void value_versioned_array::snapshot(value_versioned_array*& storage,
                                      const std::vector<index_type>& f, threadinfo& ti) const {
     if (!storage || storage->ncol_cap_ < ncol_) {
-        if (storage)
-            storage->deallocate(ti);
+        if (storage) // the columns belong to the rows they were copied from
+            ti.deallocate(storage, shallow_size(storage->ncol_cap_), memtag_value);
         storage = make_sized_row(ncol_, ts_, ti);
     }
     storage->ncol_ = ncol_;
     rowversion v1 = ver_.stable();
     while (1) {
-        if (f.size() == 1)
-            storage->cols_[f[0]] = cols_[f[0]];
-        else
+        if (f.size() == 1) {
+            if (unsigned(f[0]) < unsigned(storage->ncol_))
+                storage->cols_[f[0]] = cols_[f[0]];
+        } else
             memcpy(storage->cols_, cols_, sizeof(cols_[0]) * storage->ncol_);
         rowversion v2 = ver_.stable();
         if (!v1.has_changed(v2))
@@ -73,8 +74,10 @@ value_versioned_array::update(const Json* first, const Json* last,
 
     for (; first != last; first += 2) {
         unsigned idx = first[0].as_u();
-        value_array::deallocate_column_rcu(row->cols_[idx], ti);
+        lcdf::inline_string* old_col = row->cols_[idx];
         row->cols_[idx] = value_array::make_column(first[1].as_s(), ti);
+        if (row == this) // otherwise deallocate_rcu_after_update does it
+            value_array::deallocate_column_rcu(old_col, ti);
     }
 
     if (row == this) {
diff --git a/MassTree/value_versioned_array.hh b/MassTree/value_versioned_array.hh
index 9f7a3b9..7310aed 100644
--- a/MassTree/value_versioned_array.hh
+++ b/MassTree/value_versioned_array.hh
@@ -18,6 +18,8 @@
 #include "compiler.hh"
 #include "value_array.hh"
 
+template <typename R> struct query_helper;
+
 struct rowversion {
     rowversion() {
         v_.u = 0;
@@ -172,7 +174,9 @@ inline value_versioned_array* value_versioned_array::create1(Str value, kvtimest
     return row;
 }
 
-inline void value_versioned_array::deallocate_rcu_after_update(const Json*, const Json*, threadinfo& ti) {
+inline void value_versioned_array::deallocate_rcu_after_update(const Json* first, const Json* last, threadinfo& ti) {
+    for (; first != last && first[0].as_u() < unsigned(ncol_); first += 2)
+        value_array::deallocate_column_rcu(cols_[first[0].as_u()], ti);
     ti.deallocate_rcu(this, shallow_size(), memtag_value);
 }
 
-- 
2.43.0


From 6df9f1d6dbdec7d228e4592dbaaa93d4733c7bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:52 +0000
Subject: [PATCH 35/44] fix: MassTree log: the server keeps a copy of the key
 until the change is logged

---
 MassTree/mtd.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index a2b725d..f3badae 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -968,7 +968,7 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
         q.run_get(tree->table(), request, ti);
     } else if (command == Cmd_Put && request.size() > 3
                && (request.size() % 2) == 1) { // insert or update
-        Str key(request[2].as_s());
+        lcdf::String key(request[2].as_s()); // the reply replaces it before it is logged
         const Json* req = request.array_data() + 3;
         const Json* end_req = request.end_array_data();
         request[2] = q.run_put(tree->table(), request[2].as_s(),
@@ -982,13 +982,13 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
             ti.logger()->record(logcmd_put, q.query_times(), key, req, end_req);
         request.resize(3);
     } else if (command == Cmd_Replace) { // insert or update
-        Str key(request[2].as_s()), value(request[3].as_s());
+        lcdf::String key(request[2].as_s()), value(request[3].as_s());
         request[2] = q.run_replace(tree->table(), key, value, ti);
         if (ti.logger()) // NB may block
             ti.logger()->record(logcmd_replace, q.query_times(), key, value);
         request.resize(3);
     } else if (command == Cmd_Remove) { // remove
-        Str key(request[2].as_s());
+        lcdf::String key(request[2].as_s());
         bool removed = q.run_remove(tree->table(), key, ti);
         if (removed && ti.logger()) // NB may block
             ti.logger()->record(logcmd_remove, q.query_times(), key, Str());
-- 
2.43.0


From 6b0eae96b506d6863a9c35d4b0539b01ac30454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:52 +0000
Subject: [PATCH 36/44] fix: MassTree log: change sets are logged the way
 replay reads them, removes are replayed as markers

---
 MassTree/log.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 0cad68b..adad268 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -371,7 +371,6 @@ void loginfo::record(int command, const query_times& qtimes, Str key,
                      const lcdf::Json* req, const lcdf::Json* end_req) {
     lcdf::StringAccum sa(128);
     msgpack::unparser<lcdf::StringAccum> cu(sa);
-    cu.write_array_header(end_req - req);
     for (; req != end_req; ++req)
         cu << *req;
     record(command, qtimes, key, Str(sa.data(), sa.length()));
@@ -550,7 +549,7 @@ inline void logrecord::apply(row_type*& value, bool found,
         }
 
     // actually apply change
-    if (command == logcmd_replace)
+    if (command == logcmd_replace || command == logcmd_remove)
         *cur_value = row_type::create1(val, ts, ti);
     else if (command != logcmd_modify
              || (*cur_value && (*cur_value)->timestamp() == prev_ts)) {
-- 
2.43.0


From cad72d74eb5eb2f612004dd1a673f03c7efc965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:09 +0000
Subject: [PATCH 37/44] fix: Masstree rows: removing a key whose removal was
 recovered reports it absent

---
 MassTree/kvrow.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MassTree/kvrow.hh b/MassTree/kvrow.hh
index dc7e332..bfaeb6f 100644
--- a/MassTree/kvrow.hh
+++ b/MassTree/kvrow.hh
@@ -245,13 +245,14 @@ inline bool query<R>::apply_replace(R*& value, bool found, Str new_value,
 template <typename R> template <typename T>
 bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
-    bool found = lp.find_locked(ti);
+    // a marker stands for a removed key (log replay leaves them)
+    bool found = lp.find_locked(ti) && !row_is_marker(lp.value());
     R* old_value = nullptr;
     if (found) {
         old_value = lp.value();
         apply_remove(lp.value(), lp.node()->phantom_epoch_[0], ti);
     }
-    lp.finish(-1, ti);
+    lp.finish(found ? -1 : 0, ti);
     // retire the row only when it cannot be reached anymore
     if (old_value)
         old_value->deallocate_rcu(ti);
-- 
2.43.0


From 2e9dc61733e09372fd65e7d3b4e0b0512f603bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:09 +0000
Subject: [PATCH 38/44] fix: MassTree log: the log thread has its own copy of
 the file name

---
 MassTree/log.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index adad268..9134ed8 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -213,8 +213,13 @@ void loginfo::initialize(const String& logfile) {
     assert(!ti_);
 
     f_.filename_.deref();
-    f_.filename_ = logfile.internal_rep();
-    f_.filename_.ref();
+    {
+        // The caller may still use its String when the log thread runs, and
+        // String reference counts are not thread safe: keep a copy.
+        String filename(logfile.data(), logfile.length());
+        f_.filename_ = filename.internal_rep();
+        f_.filename_.ref();
+    }
 
     ti_ = threadinfo::make(threadinfo::TI_LOG, logindex_);
     int r = pthread_create(&ti_->pthread(), 0, trampoline, this);
-- 
2.43.0


From 76c6cc6e3979be96ff3ec4e56a530e5dab89ab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:09 +0000
Subject: [PATCH 39/44] fix: MassTree log: no epoch marker or epoch advance
 races with the end of recovery or a wake

---
 MassTree/log.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 9134ed8..05a27d9 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -252,7 +252,14 @@ void* loginfo::run() {
     while (1) {
         uint32_t nb = 0;
         acquire();
-        kvepoch_t ge = global_log_epoch, we = global_wake_epoch;
+        // Recovery sets the epoch before it ends: look at "recovering" first.
+        const bool live = !recovering;
+        acquire_fence();
+        // And the wake epoch never passes the log epoch: don't go quiescent in
+        // an epoch before the wake that's noticed here.
+        kvepoch_t we = global_wake_epoch;
+        acquire_fence();
+        kvepoch_t ge = global_log_epoch;
         if (wake_epoch_ != we) {
             wake_epoch_ = we;
             quiescent_epoch_ = 0;
@@ -260,7 +267,7 @@ void* loginfo::run() {
         // If the writing threads appear quiescent, and aren't about to write
         // to the log (f_.waiting_ != 0), then write a quiescence
         // notification.
-        if (!recovering && pos_ == 0 && !quiescent_epoch_
+        if (live && pos_ == 0 && !quiescent_epoch_
             && ge != log_epoch_ && ge != we && !f_.waiting_) {
             quiescent_epoch_ = log_epoch_ = ge;
             char *p = buf_;
@@ -270,7 +277,7 @@ void* loginfo::run() {
             p += logrec_base::store(p, logcmd_quiesce);
             pos_ = p - buf_;
         }
-        if (!recovering && pos_ > 0) {
+        if (live && pos_ > 0) {
             uint32_t x_pos = pos_;
             std::swap(buf_, x_buf);
             pos_ = 0;
@@ -286,7 +293,7 @@ void* loginfo::run() {
             release();
         if (nb < len_ / 4)
             napms(200);
-        if (ti_->index() == 0)
+        if (live && ti_->index() == 0)
             check_epoch();
     }
 
-- 
2.43.0


From 217bdb79ca40334f2bf73edde987382c2d8f3845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:09 +0000
Subject: [PATCH 40/44] fix: MassTree log: a wake marker is a wake epoch for
 the quiescent logs, too

---
 MassTree/log.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 05a27d9..580c426 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -331,7 +331,11 @@ void loginfo::record(int command, const query_times& qtimes,
                 quiescent_epoch_ = 0;
                 while (we < qtimes.epoch)
                     we = cmpxchg(&global_wake_epoch, we, qtimes.epoch);
-            }
+            } else if (we != wake_epoch_)
+                // The wake marker recorded below means "epoch" is a wake
+                // epoch: quiescent logs must notice it, too.
+                while (we < qtimes.epoch)
+                    we = cmpxchg(&global_wake_epoch, we, qtimes.epoch);
 
             // Log epochs should be recorded in monotonically increasing
             // order, but the wake epoch may be ahead of the query epoch (if
-- 
2.43.0


From 9151018b1814cad963d8fa6a20a13f84445b3375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:09 +0000
Subject: [PATCH 41/44] fix: MassTree log: an empty log is marked in recovery,
 so it is not taken for complete later

---
 MassTree/log.cc | 23 ++++++++++++++++++++++-
 MassTree/log.hh |  1 +
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 580c426..68faf9d 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -800,6 +800,26 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
     return nr;
 }
 
+// An empty log says nothing about the changes it lacks. Mark it complete up to
+// the epochs being replayed, so that if it's still empty when the other logs
+// contain later epochs, those epochs aren't replayed without it.
+void
+logreplay::append_empty_epoch()
+{
+    char buf[sizeof(logrec_epoch)];
+    kvepoch_t e = rec_replay_max_epoch;
+    size_t n = logrec_epoch::store(buf, logcmd_epoch, e ? e : e.next_nonzero());
+
+    int fd = open(filename_.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0666);
+    always_assert(fd >= 0);
+    ssize_t w = safe_write(fd, buf, n);
+    always_assert(w == ssize_t(n));
+    int r = fsync(fd);
+    always_assert(r == 0);
+    r = close(fd);
+    always_assert(r == 0);
+}
+
 int
 logreplay::replay_truncate(size_t len)
 {
@@ -877,6 +897,7 @@ logreplay::replay(int which, threadinfo *ti)
         uint64_t nr = replayandclean1(rec_replay_min_epoch, rec_replay_max_epoch, ti);
         ti->rcu_stop();
         printf("recovered %" PRIu64 " records from %s\n", nr, filename_.c_str());
-    }
+    } else
+        append_empty_epoch();
     inactive();
 }
diff --git a/MassTree/log.hh b/MassTree/log.hh
index 3df07fa..ccbff40 100644
--- a/MassTree/log.hh
+++ b/MassTree/log.hh
@@ -156,6 +156,7 @@ class logreplay {
 
     uint64_t replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
                              threadinfo *ti);
+    void append_empty_epoch();
     int replay_truncate(size_t len);
     int replay_copy(const char *tmpname, const char *first, const char *last);
 };
-- 
2.43.0


From 83fdc779f5c57e71025c2bc3c35606df3c5fccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:44 +0000
Subject: [PATCH 42/44] fix: MassTree log: missing logs are not quiescent logs
 in recovery

---
 MassTree/mtd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index f3badae..e0ca4ee 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1383,7 +1383,7 @@ recover(threadinfo *)
   recphase(nckthreads, REC_CKP);
 
   // find minimum maximum timestamp of entries in each log
-  rec_log_infos = new logreplay::info_type[nlogger];
+  rec_log_infos = new logreplay::info_type[nlogger]();
   recphase(nlogger, REC_LOG_TS);
 
   // replay log entries, remove inconsistent entries, and append
-- 
2.43.0


From 3fb70e1ee4d7dec94c65ac96a039d644c5528e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:44 +0000
Subject: [PATCH 43/44] fix: MassTree log: a change wakes its log before it is
 visible, and changes are logged in epoch order

---
 MassTree/kvrow.hh |  9 +++------
 MassTree/log.cc   |  1 -
 MassTree/log.hh   | 23 ++++++++++++++++++++++-
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/MassTree/kvrow.hh b/MassTree/kvrow.hh
index bfaeb6f..c7962e7 100644
--- a/MassTree/kvrow.hh
+++ b/MassTree/kvrow.hh
@@ -180,8 +180,7 @@ template <typename R>
 inline bool query<R>::apply_put(R*& value, bool found, const Json* firstreq,
                                 const Json* lastreq, threadinfo& ti) {
     if (loginfo* log = ti.logger()) {
-        log->acquire();
-        qtimes_.epoch = global_log_epoch;
+        qtimes_.epoch = log->acquire_epoch();
     }
 
     if (!found) {
@@ -223,8 +222,7 @@ template <typename R>
 inline bool query<R>::apply_replace(R*& value, bool found, Str new_value,
                                     threadinfo& ti) {
     if (loginfo* log = ti.logger()) {
-        log->acquire();
-        qtimes_.epoch = global_log_epoch;
+        qtimes_.epoch = log->acquire_epoch();
     }
 
     bool inserted = !found || row_is_marker(value);
@@ -263,8 +261,7 @@ template <typename R>
 inline void query<R>::apply_remove(R*& value, kvtimestamp_t& node_ts,
                                    threadinfo& ti) {
     if (loginfo* log = ti.logger()) {
-        log->acquire();
-        qtimes_.epoch = global_log_epoch;
+        qtimes_.epoch = log->acquire_epoch();
     }
 
     R* old_value = value;
diff --git a/MassTree/log.cc b/MassTree/log.cc
index 68faf9d..37a67d6 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -31,7 +31,6 @@
 using lcdf::String;
 
 kvepoch_t global_log_epoch;
-kvepoch_t global_wake_epoch;
 struct timeval log_epoch_interval;
 static struct timeval log_epoch_time;
 extern Masstree::default_table* tree;
diff --git a/MassTree/log.hh b/MassTree/log.hh
index ccbff40..b335f1a 100644
--- a/MassTree/log.hh
+++ b/MassTree/log.hh
@@ -19,6 +19,7 @@
 #include "string.hh"
 #include "kvproto.hh"
 #include "str.hh"
+#include "misc.hh"
 #include <pthread.h>
 class logset;
 using lcdf::Str;
@@ -31,6 +32,7 @@ class loginfo {
     void initialize(const lcdf::String& logfile);
 
     inline void acquire();
+    inline kvepoch_t acquire_epoch();
     inline void release();
 
     inline kvepoch_t flushed_epoch() const;
@@ -115,7 +117,7 @@ class logset {
 };
 
 extern kvepoch_t global_log_epoch;
-extern kvepoch_t global_wake_epoch;
+inline kvepoch_t global_wake_epoch;
 extern struct timeval log_epoch_interval;
 
 enum logcommand {
@@ -179,6 +181,25 @@ inline void loginfo::acquire() {
     test_and_set_acquire(&f_.lock_);
 }
 
+// Acquire the log for a change that record() will log; return its epoch.
+// The change is visible before record() is called, and changes that depend on
+// it may reach other logs before it reaches this one. So a quiescent log has
+// to wake up here. And changes are logged in the order of their epochs: wait
+// for a change that found the log full.
+inline kvepoch_t loginfo::acquire_epoch() {
+    acquire();
+    while (f_.waiting_) {
+        release();
+        napms(1);
+        acquire();
+    }
+    kvepoch_t e = global_log_epoch;
+    if (quiescent_epoch_)
+        for (kvepoch_t we = global_wake_epoch; we < e; )
+            we = cmpxchg(&global_wake_epoch, we, e);
+    return e;
+}
+
 inline void loginfo::release() {
     test_and_set_release(&f_.lock_);
 }
-- 
2.43.0


From c2c1c8bea5c926728ab8029c457c2d9ec91de824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:58 +0000
Subject: [PATCH 44/44] fix: MassTree log: noticing a wake does not stand for
 its marker, and every epoch can quiesce

---
 MassTree/log.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 37a67d6..f4b15c2 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -259,19 +259,19 @@ void* loginfo::run() {
         kvepoch_t we = global_wake_epoch;
         acquire_fence();
         kvepoch_t ge = global_log_epoch;
-        if (wake_epoch_ != we) {
-            wake_epoch_ = we;
+        // A wake ends quiescence up to its epoch: go quiescent again in the
+        // next epoch. The log's next record has the wake marker; see record().
+        if (quiescent_epoch_ <= we)
             quiescent_epoch_ = 0;
-        }
         // If the writing threads appear quiescent, and aren't about to write
         // to the log (f_.waiting_ != 0), then write a quiescence
         // notification.
         if (live && pos_ == 0 && !quiescent_epoch_
-            && ge != log_epoch_ && ge != we && !f_.waiting_) {
+            && ge != log_epoch_ && !f_.waiting_) {
             quiescent_epoch_ = log_epoch_ = ge;
             char *p = buf_;
             p += logrec_epoch::store(p, logcmd_epoch, log_epoch_);
-            if (log_epoch_ == wake_epoch_)
+            if (log_epoch_ == we)
                 p += logrec_base::store(p, logcmd_wake);
             p += logrec_base::store(p, logcmd_quiesce);
             pos_ = p - buf_;
-- 
2.43.0

