From f18db16b2b224f2ffcf40011e7ec30fd6be49be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 01/16] fix: btree::concurrent_map released a null node's latch
 after a pessimistic read of the root state

---
 include/indexes/btree/concurrent_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 85612ac..0921982 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -673,8 +673,12 @@ protected:
         BTREE_UPDATE_STAT(optimistic_fail, ++);
         try_lock_pessimistic(node, state);
 
-        if (!state.is_deleted())
-          node->mutex.unlock();
+        if (!state.is_deleted()) {
+          if (node)
+            node->mutex.unlock();
+          else
+            this->m_root_mutex->unlock();
+        }
       }
     } else {
       try_lock_pessimistic(node, state);
-- 
2.43.0


From f70cbc89382095b7820c3dfd9ac0847e34073e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 02/16] fix: art::concurrent_map modified a dead node whose
 version was read after it died

---
 include/indexes/art/concurrent_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 127e711..71d1e28 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -781,7 +781,9 @@ private:
     LockType lock() {
       LockType lock{node->m};
 
-      if (load_rx(node->version) != version) {
+      // A node already dead when its version was read must not be modified
+      if (version == node_t::DEAD_VERSION ||
+          load_rx(node->version) != version) {
         lock.unlock();
       }
 
-- 
2.43.0


From 36323b06f66c31f209bca755a22fe0d112ddb810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 03/16] fix: art::concurrent_map deleted an expanded node
 through its base type

---
 include/indexes/art/concurrent_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 71d1e28..2fe273a 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -952,7 +952,7 @@ private:
         map.m_gc.retire_in_new_epoch(node_t::free, old);
       } else {
         lock.unlock();
-        delete node;
+        node_t::free(node);
         node = nullptr;
       }
 
-- 
2.43.0


From 3b5c509f12bcfac1692f14b44542ceabbff0cd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 04/16] fix: art::concurrent_map leaked the new leaf when
 linking it failed

---
 include/indexes/art/concurrent_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 2fe273a..31d0f09 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -1070,7 +1070,10 @@ private:
       }
 
       if constexpr (UOp != UpdateOp::UOP_Update) {
-        if (!add_to_parent(new leaf_t(key, value), parent, grand_parent)) {
+        auto leaf = new leaf_t(key, value);
+
+        if (!add_to_parent(leaf, parent, grand_parent)) {
+          delete leaf;
           is_snapshot_stale = true;
         }
       }
-- 
2.43.0


From 4b570f3a7d0df6a123a6c93eaabd9b21e5827ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 05/16] fix: art::concurrent_map freed an unused shrunk node
 while holding its latch

---
 include/indexes/art/concurrent_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 31d0f09..470d30c 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -892,7 +892,8 @@ private:
           }
 
           if (node->node_type != node_type_t::NODE4) {
-            delete replacement;
+            child_lock.unlock();
+            node_t::free(replacement);
           }
         } else {
           if (parent) {
-- 
2.43.0


From b4a9f1b2ce5f61c1069065eb67176db1c39c3410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 06/16] fix: art::concurrent_map retired a root leaf without
 marking it dead

---
 include/indexes/art/concurrent_map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 470d30c..00c9da7 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -927,6 +927,7 @@ private:
         } else {
           if (auto lock = root_snapshot.lock_root(map)) {
             map.root = nullptr;
+            leaf->mark_as_deleted();
             is_snapshot_stale = false;
           }
         }
-- 
2.43.0


From f6b1813497fb2898cea1b5e8e8dd2f7d6ac44037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 07/16] fix: hashtable::concurrent_map leaked the new table
 when a migration attempt overflowed

---
 include/indexes/hashtable/concurrent_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index d9dd299..f0e1e55 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -365,8 +365,10 @@ private:
         HT_DEBUG_ASSERT(ires.res !=
                         HashTable::InsertResult::InsertResult_AlreadyPresent);
 
-        if (ires.res == HashTable::InsertResult::InsertResult_Overflow)
+        if (ires.res == HashTable::InsertResult::InsertResult_Overflow) {
+          delete new_ht;
           return false;
+        }
 
         insert_key_val_into_ht(*new_ht, ires.sres, ires.bucket_link,
                                old_bucket.key_value.first,
-- 
2.43.0


From 3217444fc4b758220ae8df4d6ed2cc71796b179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 08/16] fix: hashtable::concurrent_map never freed its table

---
 include/indexes/hashtable/concurrent_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index f0e1e55..3768e8a 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -425,6 +425,8 @@ public:
     o_map.ht.store(nullptr);
   }
 
+  ~concurrent_map() { delete ht.load(); }
+
   void reserve(size_t num_values) { migrate_table(num_values * 2); }
 
   std::optional<mapped_type> Search(const key_type &key) {
-- 
2.43.0


From dd9cf513c2afc6e833827b77f24aab7bcf27aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 09/16] fix: hashtable::concurrent_map retired buckets inside a
 table that may be freed before them, and never destroyed deleted entries

---
 include/indexes/hashtable/concurrent_map.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 3768e8a..821728a 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -118,8 +118,9 @@ private:
         return this->hash == hash && key_value.first == key;
       }
 
+      // Deleted key/values live as long as the table, see `mark_as_empty`
       void destroy() {
-        if (has_value())
+        if (!is_free())
           key_value.~KeyValuePair();
       }
 
@@ -557,13 +558,6 @@ public:
 
           bucket.mark_as_empty();
           ht.increment_num_tomb_stones();
-
-          m_gc.retire_in_new_epoch(
-              [&](void *ptr) {
-                reinterpret_cast<typename HashTable::HashBucket *>(ptr)
-                    ->destroy();
-              },
-              reinterpret_cast<void *>(&bucket));
         } else {
           continue;
         }
-- 
2.43.0


From f30a1b18806e69a6011bcbba64a4f8e893870873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 10/16] fix: hashtable::concurrent_map::size and load_factor
 read a table that may be reclaimed

---
 include/indexes/hashtable/concurrent_map.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 821728a..c96fb36 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -331,12 +331,12 @@ private:
   sync_prim::mutex::Mutex migration_mutex;
   std::atomic<int> num_migrations;
 
-  indexes::utils::EpochManager<uint64_t, void> m_gc;
+  mutable indexes::utils::EpochManager<uint64_t, void> m_gc;
 
   struct EpochGuard {
-    concurrent_map *map;
+    const concurrent_map *map;
 
-    EpochGuard(concurrent_map *a_map) : map(a_map) { map->m_gc.enter_epoch(); }
+    EpochGuard(const concurrent_map *a_map) : map(a_map) { map->m_gc.enter_epoch(); }
 
     ~EpochGuard() { map->m_gc.exit_epoch(); }
   };
@@ -568,6 +568,7 @@ public:
   }
 
   size_t size() const {
+    EpochGuard eg{this};
     std::atomic_thread_fence(std::memory_order_seq_cst);
 
     auto [num_values, num_tomb_stones] = ht.load()->get_stats();
@@ -576,6 +577,7 @@ public:
   }
 
   int load_factor() const {
+    EpochGuard eg{this};
     HashTable &ht = *this->ht.load();
     auto [num_values, num_tomb_stones] = ht.get_stats();
 
-- 
2.43.0


From 749b9b5427dacc44d213676653f52a64c1cf4e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 11/16] fix: hashtable::concurrent_map applied changes to a
 table that was already migrated

---
 include/indexes/hashtable/concurrent_map.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index c96fb36..3e5c967 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -385,6 +385,12 @@ private:
     return true;
   }
 
+  // A change made to `table`, when this returns true, would be lost.
+  // Must be called while holding the latch of the bucket to be changed.
+  bool is_migrated_from(const HashTable &table) const {
+    return is_migration_in_progress || ht.load() != std::addressof(table);
+  }
+
   void wait_for_migration_to_end() {
     std::lock_guard<sync_prim::mutex::Mutex> migration_lock{migration_mutex};
   }
@@ -448,7 +454,7 @@ public:
       HashTable &ht = *this->ht.load();
       auto ires = ht.insert(key);
 
-      if (is_migration_in_progress) {
+      if (is_migrated_from(ht)) {
         if (ires.lock)
           ires.lock.unlock();
 
@@ -480,7 +486,7 @@ public:
       HashTable &ht = *this->ht.load();
       auto ires = ht.insert(key);
 
-      if (is_migration_in_progress) {
+      if (is_migrated_from(ht)) {
         if (ires.lock)
           ires.lock.unlock();
 
@@ -518,7 +524,7 @@ public:
       if (found) {
         typename HashTable::MutexLock lock{ht.link[sres.bucket].m};
 
-        if (is_migration_in_progress) {
+        if (is_migrated_from(ht)) {
           lock.unlock();
           wait_for_migration_to_end();
           continue;
@@ -547,7 +553,7 @@ public:
 
         typename HashTable::MutexLock lock{ht.link[sres.bucket].m};
 
-        if (is_migration_in_progress) {
+        if (is_migrated_from(ht)) {
           lock.unlock();
           wait_for_migration_to_end();
           continue;
-- 
2.43.0


From e390d410eefb16e4ba46e5bf28a4df945c133a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 12/16] fix: hashtable::concurrent_map lost keys when a chain
 was extended by two threads at once

---
 include/indexes/hashtable/concurrent_map.h | 36 ++++++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 3e5c967..543f78f 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -284,6 +284,8 @@ private:
     struct InsertSearchResult {
       InsertResult res;
       MutexLock lock;
+      // Latch of the bucket, whose link will refer to the new bucket
+      MutexLock tail_lock;
       typename Traits::LinkType bucket_link;
       SearchResult sres;
     };
@@ -299,28 +301,44 @@ private:
           MutexLock lock{link[sres.bucket].m};
 
           if (buckets[sres.bucket].has_value()) {
-            return {InsertResult::InsertResult_AlreadyPresent, std::move(lock),
-                    0, sres};
+            return {InsertResult::InsertResult_AlreadyPresent,
+                    std::move(lock),
+                    {},
+                    0,
+                    sres};
           } else {
             continue;
           }
         }
 
+        // The chain is only extended while holding the latch of its tail.
+        // A tail is either full or the chosen bucket itself, so waiting for a
+        // free bucket with the latch of the tail held can't deadlock.
+        MutexLock tail_lock{link[sres.bucket].m};
+
+        if (*sres.link || buckets[sres.bucket].equals(sres.hash, key))
+          continue;
+
         if (auto bucket_link = get_bucket_to_insert(sres)) {
-          sres.bucket = add_bucket_circular(sres.bucket, *bucket_link);
+          MutexLock lock;
 
-          MutexLock lock{link[sres.bucket].m};
+          if (*bucket_link) {
+            sres.bucket = add_bucket_circular(sres.bucket, *bucket_link);
+            lock = MutexLock{link[sres.bucket].m};
+          } else {
+            lock = std::move(tail_lock);
+          }
 
           if (buckets[sres.bucket].is_free()) {
             increment_num_values();
 
             return {InsertResult::InsertResult_New, std::move(lock),
-                    *bucket_link, sres};
+                    std::move(tail_lock), *bucket_link, sres};
           } else {
             continue;
           }
         } else {
-          return {InsertResult::InsertResult_Overflow, {}, 0, sres};
+          return {InsertResult::InsertResult_Overflow, {}, {}, 0, sres};
         }
       };
     }
@@ -458,6 +476,9 @@ public:
         if (ires.lock)
           ires.lock.unlock();
 
+        if (ires.tail_lock)
+          ires.tail_lock.unlock();
+
         wait_for_migration_to_end();
         continue;
       }
@@ -490,6 +511,9 @@ public:
         if (ires.lock)
           ires.lock.unlock();
 
+        if (ires.tail_lock)
+          ires.tail_lock.unlock();
+
         wait_for_migration_to_end();
         continue;
       }
-- 
2.43.0


From 214afb9ac172f000dc64410a547952ca8bf73147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 13/16] fix: read the value an ART leaf is removed with under
 its latch

Delete read the leaf value before latching the leaf; an Update that ran in
between was overwritten without its value ever being returned.
---
 include/indexes/art/concurrent_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 00c9da7..acea53c 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -913,11 +913,13 @@ private:
 
     std::optional<value_type> remove_leaf(leaf_t *leaf, node_snapshot_t &node,
                                           node_snapshot_t &parent) {
-      value_type oldval = leaf->value;
+      std::optional<value_type> oldval;
 
       is_snapshot_stale = true;
 
       if (auto lock = node.lock()) {
+        oldval = leaf->value;
+
         if (parent) {
           if (auto lock = parent.lock()) {
             parent->remove(leaf->key);
-- 
2.43.0


From 5fdc43652cbbb1283264cda260d17cc478226d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 14/16] fix: art::concurrent_map::update_leaf read the value of
 a leaf without its latch

Insert of a present key copied the leaf's value while an Upsert could be
overwriting it in place, although only the presence of the key matters.
---
 include/indexes/art/concurrent_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index acea53c..3c5e3ae 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -828,7 +828,9 @@ private:
         }
       }
 
-      return leaf->value;
+      // Only tells that the key is present: the leaf's value must not be read
+      // without its latch.
+      return value;
     }
 
     bool replace_root(node_t *node) {
-- 
2.43.0


From 6d391333164d4b038c037b8d00ac1f066523f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 15/16] fix: EpochManager reclaimed objects still in use when
 the oldest section ended during the scan

---
 include/indexes/utils/EpochManager.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 352397a..cb7ccf0 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -189,13 +189,19 @@ private:
   }
 
   epoch_t get_min_used_epoch() {
-    return std::min_element(std::begin(m_local_epoch),
-                            std::begin(m_local_epoch) +
-                                ThreadRegistry::MaxThreadID() + 1,
-                            [](const auto &a, const auto &b) {
-                              return a.epoch.load() < b.epoch.load();
-                            })
-        ->epoch;
+    // Each slot is read exactly once: the thread owning the smallest epoch may
+    // leave it at any time, and then the slot doesn't bound the others.
+    epoch_t min_used_epoch = QUIESCENT_STATE;
+    const int max_thread_id = ThreadRegistry::MaxThreadID();
+
+    for (int id = 0; id <= max_thread_id; id++) {
+      const epoch_t used_epoch = m_local_epoch[id].epoch.load();
+
+      if (used_epoch < min_used_epoch)
+        min_used_epoch = used_epoch;
+    }
+
+    return min_used_epoch;
   }
 
   void retire(std::function<void(ReclaimedPtrType object)> reclaimer,
-- 
2.43.0


From d65afcfc02a88656540d569e6f2865511cbec58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 16/16] fix: EpochManager::enter_epoch let reads pass the store
 that announces the epoch

---
 include/indexes/utils/EpochManager.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index cb7ccf0..4f77681 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -46,7 +46,8 @@ public:
 
     if (pd.nested_level == 0) {
       pd.epoch.store(now(), std::memory_order_release);
-      std::atomic_thread_fence(std::memory_order_acquire);
+      // The epoch must be visible before anything is read under its protection.
+      std::atomic_thread_fence(std::memory_order_seq_cst);
     }
     pd.nested_level++;
   }
-- 
2.43.0

