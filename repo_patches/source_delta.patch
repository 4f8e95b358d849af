From 3cde4f2535198e8ddc70dbf883d29c308f49e21a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 01/18] fix: pcas must not report a value whose dirty flag is
 set

A CAS that failed because another thread changed the word in between returned
that word with its dirty flag, so callers compared it with clean values:
two threads could claim two slots for one key, and the migration counters
could exceed the table length.
---
 include/persistence.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/persistence.hpp b/include/persistence.hpp
index 9ab0f17..6deb4f4 100644
--- a/include/persistence.hpp
+++ b/include/persistence.hpp
@@ -95,10 +95,17 @@ template <class U>
 static bool pcas(std::atomic<U> *address, U &oldVal, U newVal)
 {
     U oldValCopy = oldVal;
-    // Ensure the field is persisted.
-    pcas_read<U>(address);
-    // Attempt to CAS.
-    bool ret = address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag));
+    bool ret;
+    do
+    {
+        oldVal = oldValCopy;
+        // Ensure the field is persisted.
+        pcas_read<U>(address);
+        // Attempt to CAS.
+        ret = address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag));
+        // If somebody else changed the field in the meantime, then what we found may not be persisted yet.
+        // Callers must never see the dirty flag, so persist it and try again.
+    } while (!ret && ((uintptr_t)oldVal & DirtyFlag) != 0);
     assert((ret && oldValCopy == oldVal) || (!ret && oldValCopy != oldVal));
     return ret;
 }
-- 
2.43.0


From c44891ed49b1795e8106fad1a48a813fa3ed8b13 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 02/18] fix: remove(key) must tell whether the key was present

It returned the old value converted to bool: true for an absent key, and
false when the removed value was 0.
---
 containers/cliffMap/hashMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index d97a9a3..9ddb089 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -916,7 +916,7 @@ public:
     }
     bool remove(Key key)
     {
-        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD);
+        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD) != VINITIAL;
     }
     // Remove key with specified value.
     bool remove(Key key, Value value)
-- 
2.43.0


From aa9126eb6164b65c47fdea2f60490b89e2e96949 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 03/18] fix: insert of the lock-free container returned the
 inverse of its result

---
 containers/ucfMap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/containers/ucfMap.hpp b/containers/ucfMap.hpp
index 78a07f5..8cfdfdf 100644
--- a/containers/ucfMap.hpp
+++ b/containers/ucfMap.hpp
@@ -17,7 +17,8 @@ namespace ucf
             //assert((shiftedEl >> ConcurrentHashMap<KeyT, ValT>::BITS_MARKED) == el);
 
             ValT x = c->put(shiftedEl, shiftedEl);
-            return x == shiftedEl;
+            // True if this changed the map.
+            return x != shiftedEl;
         }
 
         bool erase(ValT el)
-- 
2.43.0


From 9c6a4b02e2b5169e9ccae64a7086df35e04eb580 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 04/18] fix: keep the custom CAS function when an operation
 moves on to a new table

An increment that met a table growth stored its placeholder value instead of
incrementing.
---
 containers/cliffMap/hashMap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 9ddb089..009c1b0 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -1125,7 +1125,7 @@ public:
                 }
                 // Try again in the new table.
                 // This is a recursive call.
-                return putIfMatch(newTable, key, newVal, oldVal);
+                return putIfMatch(newTable, key, newVal, oldVal, CAS);
 #else
                 // The key is not present.
                 return VINITIAL;
@@ -1161,7 +1161,7 @@ public:
         {
             // Copy the slot and retry in the new table.
             // This is a recursive call to the new table.
-            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);
+            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
         }
 #endif
         // Update the existing table.
@@ -1222,7 +1222,7 @@ public:
             // If a primed value was is present (placed by us or someone else), re-run put on the new table.
             if (isMarked((uintptr_t)table->value(idx), MigrationFlag))
             {
-                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);
+                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
             }
 #endif
             // Otherwise retry our put.
-- 
2.43.0


From e6e1168037122ef9199bd189dfafa39fefd7f0ab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 05/18] fix: count used slots from zero

With the counter starting at the capacity every table looked overfull, so
eleven keys with equal low bits doubled the table until memory ran out.
---
 containers/cliffMap/hashMap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 009c1b0..a300e0d 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -233,7 +233,7 @@ public:
             // If this number gets too large, consider resizing.
             std::atomic<size_t> size;
 
-            // The number of usable slots.
+            // The number of used slots.
             // If this number gets too large, consider resizing.
             std::atomic<size_t> slots;
 
@@ -269,7 +269,8 @@ public:
             CHM(size_t tableCapacity = Table::MIN_SIZE, size_t existingSize = 0, size_t id = 0)
             {
                 this->size.store(existingSize);
-                slots.store(tableCapacity);
+                // No slot has been used yet.
+                slots.store(0);
                 this->id = id;
 #ifdef RESIZE
                 newTable.store(nullptr);
-- 
2.43.0


From d7a6194b3063742a5c02d6517a47e390df0df648 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 06/18] fix: count a slot as migrated by whoever retires it

It was counted by whoever copied the value. If the new table already holds the
value (after a recovery), nobody counted the slot and helpers waited forever.
---
 containers/cliffMap/hashMap.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index a300e0d..0a285da 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -209,23 +209,19 @@ public:
                 // Only succeeds if there isn't already a value there.
                 // If there is, we say that our write "happened before" the write that placed the existing value.
                 // In that case, we don't need to do anything.
-                bool copiedIntoNew = (hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL) == VINITIAL);
+                hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL);
 
                 // Now that the value has been migrated, replace the old table value with a tombstone.
                 // This will prevent other threads from redundantly attempting to copy to the new table.
                 // If other threads attempt this redundant computation, it will waste time but not hurt correctness.
                 // They will see the value has been migrated and fail to replace.
-                // Keep trying until we succeed.
+                // A marked value can only be replaced by TOMBPRIME, so failing means that another thread was faster.
                 Value actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
-                while (actualVal != oldVal)
-                {
-                    oldVal = actualVal;
-                    actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
-                }
-                // Return whether or not we made progress (copied a value from the old table to the new table).
+                // Return whether or not we made progress (retired the slot of the old table).
+                // Exactly one thread does so for every slot.
                 // Note: Stalling threads may delay reporting of completed migrations.
                 // This means old tables may continue to exist for longer than we like, but it shouldn't hurt correctness.
-                return copiedIntoNew;
+                return actualVal == oldVal;
             }
 #endif
         public:
-- 
2.43.0


From 110579d65fcc7ab6d7ec2f9ac2fe9cfa41c57031 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 07/18] fix: persist a migrated entry before the original is
 dropped

The old slot could be retired, and that be written back, while the copy in the
new table was still only in the cache: a crash then lost the entry.
---
 containers/cliffMap/hashMap.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 0a285da..499e18b 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -187,6 +187,9 @@ public:
                     }
                 }
                 // We have successfully marked the value.
+                // The mark must be persistent before the new table can hold a copy: otherwise a crash
+                // could leave a slot that accepts updates next to a copy that hides them.
+                oldVal = oldTable->value(idx);
 
                 // If we marked with a tombstone.
                 if (oldVal == TOMBPRIME)
@@ -1206,6 +1209,12 @@ public:
                         table->chm.size.fetch_add(-1);
                     }
                 }
+                else
+                {
+                    // Persist the copy. The original is about to be dropped.
+                    table->key(idx);
+                    table->value(idx);
+                }
                 // If we replaced an initial value when we had expected a non-initial value, return the tombstone sentinel.
                 return (V == VINITIAL && oldVal != VINITIAL) ? VTOMBSTONE : V;
             }
-- 
2.43.0


From b78191384a7d278719d77fe3d2aaaa7c9728a178 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 08/18] fix: a delayed table copy must not resurrect a removed
 key

A copier that stalls while the key is removed and the table is migrated once more
found a tombprime, took it for a slot that never held a value, and placed the old
value in the next table. Slots that never held a value now get their own mark.
---
 containers/cliffMap/hashMap.hpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 499e18b..47d931d 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -78,6 +78,8 @@ class ConcurrentHashMap
     static Key KTOMBSTONE;
     // Primed tombstone. Marked to prevent any updates to the location, used for resizing.
     static Value TOMBPRIME;
+    // Primed initial value. Like a primed tombstone, but in a location that never held a value.
+    static Value INITPRIME;
 
     // Heuristics for resizing.
     // Consider a reprobes heuristic, or some alternative, to indicate when to resize and gather statistics on key distribution.
@@ -162,15 +164,15 @@ public:
                 // Keep trying to mark the value until we succeed.
                 while (!isMarked((uintptr_t)oldVal, MigrationFlag))
                 {
-                    // If there isn't a usable value to migrate, replace it with a tombprime. Otherwise, mark it.
-                    Value mark = (oldVal == VINITIAL || oldVal == VTOMBSTONE) ? TOMBPRIME : (Value)setMark((uintptr_t)oldVal, MigrationFlag);
+                    // If there isn't a usable value to migrate, the mark makes it an initprime or tombprime.
+                    Value mark = (Value)setMark((uintptr_t)oldVal, MigrationFlag);
                     // Attempt the CAS.
                     Value actualVal = CASvalue(oldTable, idx, oldVal, mark);
                     // If we succeeded.
                     if (actualVal == oldVal)
                     {
                         // If we replaced an empty spot.
-                        if (mark == TOMBPRIME)
+                        if (mark == TOMBPRIME || mark == INITPRIME)
                         {
                             // We are already done.
                             return true;
@@ -192,7 +194,7 @@ public:
                 oldVal = oldTable->value(idx);
 
                 // If we marked with a tombstone.
-                if (oldVal == TOMBPRIME)
+                if (oldVal == TOMBPRIME || oldVal == INITPRIME)
                 {
                     // No need to migrate a value. We are done.
                     return false;
@@ -1156,6 +1158,12 @@ public:
             newTable = table->chm.resize(this, table);
         }
 
+        // A table copy never follows a value any further: it was superseded if this slot ever held one.
+        if (oldVal == VINITIAL && isMarked((uintptr_t)V, MigrationFlag) && V != INITPRIME)
+        {
+            return V;
+        }
+
         // If a new table is allocated.
         if (newTable != nullptr)
         {
@@ -1228,6 +1236,11 @@ public:
             // If a primed value was is present (placed by us or someone else), re-run put on the new table.
             if (isMarked((uintptr_t)table->value(idx), MigrationFlag))
             {
+                // A table copy was superseded if this slot ever held a value.
+                if (oldVal == VINITIAL && table->value(idx) != INITPRIME)
+                {
+                    return table->value(idx);
+                }
                 return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
             }
 #endif
@@ -1264,6 +1277,9 @@ public:
         case TOMBPRIME:
             stream << "TOMBPRIME";
             break;
+        case INITPRIME:
+            stream << "INITPRIME";
+            break;
         case MATCH_ANY:
             stream << "MATCH_ANY";
             break;
@@ -1322,7 +1338,7 @@ public:
     // If it is reserved, then it serves a special purpose as a sentinel.
     static bool isValueReserved(Value value)
     {
-        return value == VINITIAL || value == VTOMBSTONE || value == TOMBPRIME || value == MATCH_ANY || value == NO_MATCH_OLD;
+        return value == VINITIAL || value == VTOMBSTONE || value == TOMBPRIME || value == INITPRIME || value == MATCH_ANY || value == NO_MATCH_OLD;
     }
 
 private:
@@ -1359,6 +1375,8 @@ Value ConcurrentHashMap<Key, Value, Hash>::VTOMBSTONE = ((((size_t)1 << 62) - 2)
 template <typename Key, typename Value, class Hash>
 Value ConcurrentHashMap<Key, Value, Hash>::TOMBPRIME = (size_t)setMark(VTOMBSTONE, MigrationFlag);
 template <typename Key, typename Value, class Hash>
+Value ConcurrentHashMap<Key, Value, Hash>::INITPRIME = (size_t)setMark(VINITIAL, MigrationFlag);
+template <typename Key, typename Value, class Hash>
 Value ConcurrentHashMap<Key, Value, Hash>::MATCH_ANY = ((((size_t)1 << 62) - 3) << BITS_MARKED);
 template <typename Key, typename Value, class Hash>
 Value ConcurrentHashMap<Key, Value, Hash>::NO_MATCH_OLD = ((((size_t)1 << 62) - 4) << BITS_MARKED);
-- 
2.43.0


From 5edb89f68e9dfe56429233052446aa318ee19f91 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 09/18] fix: persist the mark of an emptied slot before the new
 table is used

A crash could otherwise leave an absent entry that accepts updates in front of the
entry in the new table.
---
 containers/cliffMap/hashMap.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 47d931d..b2ef58f 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -174,6 +174,8 @@ public:
                         // If we replaced an empty spot.
                         if (mark == TOMBPRIME || mark == INITPRIME)
                         {
+                            // The mark must be persistent before the new table is used instead of this slot.
+                            oldTable->value(idx);
                             // We are already done.
                             return true;
                         }
-- 
2.43.0


From 2be64a6fdfead64af7f6df70b70112f217a7f265 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 10/18] fix: unmap the pairs of a table, not its control
 structure

---
 containers/cliffMap/hashMap.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index b2ef58f..d4aa8e6 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -756,8 +756,7 @@ public:
         }
         static bool munmapTable(Table *table)
         {
-            size_t size = table->chm.size.load();
-            bool ret = (munmap(table, (sizeof(KVpair) * size)) != 0);
+            bool ret = (munmap(table->pairs, (sizeof(KVpair) * table->len)) == 0);
             delete table;
             return ret;
         }
-- 
2.43.0


From bf25d30a47aaf6e8c1470be47e741a0b169e0e66 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 11/18] fix: count the present keys per map, not per table

Each table had its own counter. A removal or insertion that was counted in the old
table after the new one had taken over its counter was lost, as were insertions made
in the new table before the old one was replaced.
---
 containers/cliffMap/hashMap.hpp | 52 ++++++++++++---------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index d4aa8e6..4b3da76 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -232,10 +232,6 @@ public:
             }
 #endif
         public:
-            // The number of active KV pairs.
-            // If this number gets too large, consider resizing.
-            std::atomic<size_t> size;
-
             // The number of used slots.
             // If this number gets too large, consider resizing.
             std::atomic<size_t> slots;
@@ -269,9 +265,8 @@ public:
 #endif
             // The CHM constructor.
             // The CHM tracks control structure data for the hash table, particularly involving resizing.
-            CHM(size_t tableCapacity = Table::MIN_SIZE, size_t existingSize = 0, size_t id = 0)
+            CHM(size_t tableCapacity = Table::MIN_SIZE, size_t id = 0)
             {
-                this->size.store(existingSize);
                 // No slot has been used yet.
                 slots.store(0);
                 this->id = id;
@@ -311,8 +306,8 @@ public:
                 // Compute the new table size.
                 // Total capacity of the current table.
                 size_t oldLen = table->len;
-                // Current number of KV pairs stored in the table.
-                size_t size = this->size.load();
+                // Current number of KV pairs stored in the map.
+                size_t size = hashMap->size();
                 // An initial size estimate.
                 size_t newSize = size;
 
@@ -355,7 +350,7 @@ public:
                 size_t count = fileNameCounter.fetch_add(1);
                 // Allocate the new table.
                 std::string filename = getOrderedFileName(count);
-                newTable = mmapTable(true, newSize, size, filename.c_str());
+                newTable = mmapTable(true, newSize, filename.c_str());
 
                 // Attempt to CAS the new table.
                 // Only one thread can succeed here.
@@ -486,11 +481,11 @@ public:
         // The number of pairs that can fit in the table.
         size_t len;
 
-        Table(size_t tableCapacity, size_t existingSize, size_t id, KVpair *pairs = NULL)
+        Table(size_t tableCapacity, size_t id, KVpair *pairs = NULL)
         {
             assert(tableCapacity % 2 == 0);
             assert(tableCapacity >= MIN_SIZE);
-            new (&chm) CHM(tableCapacity, existingSize, id);
+            new (&chm) CHM(tableCapacity, id);
             assert(pairs != NULL);
             this->pairs = pairs;
             len = tableCapacity;
@@ -596,7 +591,7 @@ public:
             // Return the integer.
             return ret;
         }
-        static Table *mmapTable(bool newTable, size_t tableCapacity, size_t existingSize = 0, const char *constFileName = NULL)
+        static Table *mmapTable(bool newTable, size_t tableCapacity, const char *constFileName = NULL)
         {
             // This is the name and location of our persistent memory file for this table.
             std::string filenameString;
@@ -666,10 +661,9 @@ public:
                 // Allocate our table.
                 // We pass in the asigned location of our KV pairs to assign them to the structure.
                 // We pass in the size of the table to assign the length.
-                table = new Table(size, existingSize, count, pairs);
+                table = new Table(size, count, pairs);
 
                 // Use the KV pairs to infer the number of used and free entries in the table.
-                table->chm.size.store(0);
                 table->chm.slots.store(0);
                 for (size_t i = 0; i < size; i++)
                 {
@@ -690,13 +684,8 @@ public:
                         assert(V == VTOMBSTONE);
                     }
 
-                    // Anything that's not a sentinel.
-                    if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME)
-                    {
-                        table->chm.size.fetch_add(1);
-                    }
-                    // Anything left that's not a tombstone.
-                    else if (V != VTOMBSTONE && V != TOMBPRIME)
+                    // Slots whose key is claimed.
+                    if (K != KINITIAL && K != KTOMBSTONE)
                     {
                         table->chm.slots.fetch_add(1);
                     }
@@ -746,7 +735,7 @@ public:
                 // Allocate our table.
                 // We pass in the location of our KV pairs to assign them to the structure.
                 // We pass in the size of the table to assign the length.
-                table = new Table(tableCapacity, existingSize, count, pairs);
+                table = new Table(tableCapacity, count, pairs);
             }
             // After the mmap() call has returned, the file descriptor, fd, can be closed immediately, without invalidating the mapping.
             close(fd);
@@ -796,13 +785,7 @@ public:
             for (auto it = tableNames.begin(); it != tableNames.end(); ++it)
             {
                 // Allocate an mmapped table.
-                Table *table = Table::mmapTable(!reconstruct, size, 0, (*it).c_str());
-
-                // If the table is empty, deallocate it and continue.
-                if (table->chm.size.load() == 0)
-                {
-                    Table::munmapTable(table);
-                }
+                Table *table = Table::mmapTable(!reconstruct, size, (*it).c_str());
 
                 // If the table is fully migrated, deallocate it and continue.
                 bool migrationDone = true;
@@ -870,7 +853,7 @@ public:
         {
             // Alternative approach: just make a table, bypassing recovery.
             // Allocate a new, mmapped table.
-            Table *table = Table::mmapTable(!reconstruct, size, 0);
+            Table *table = Table::mmapTable(!reconstruct, size);
             // Store the table.
             this->table.store(table);
         }
@@ -898,8 +881,7 @@ public:
     // This number is really only meaningful if the size is not being changed by other threads.
     size_t size()
     {
-        Table *table = this->table.load();
-        return table->chm.size.load();
+        return keyCount.load();
     }
     bool isEmpty()
     {
@@ -1210,12 +1192,12 @@ public:
                     // If we removed an initial or tombstone value with a non-tombstone.
                     if ((V == VINITIAL || V == VTOMBSTONE) && newVal != VTOMBSTONE)
                     {
-                        table->chm.size.fetch_add(1);
+                        keyCount.fetch_add(1);
                     }
                     // If we removed a non-initial and non-tombstone value with a tombstone.
                     else if (!(V == VINITIAL || V == VTOMBSTONE) && newVal == VTOMBSTONE)
                     {
-                        table->chm.size.fetch_add(-1);
+                        keyCount.fetch_sub(1);
                     }
                 }
                 else
@@ -1345,6 +1327,8 @@ public:
 private:
     // The structure that stores the top table.
     std::atomic<Table *> table;
+    // The number of keys that are present, in whichever table they are.
+    std::atomic<size_t> keyCount{0};
 };
 
 // size_t keys and values.
-- 
2.43.0


From 3b14112d999cc1b45b01bebda79ae04fd0770102 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 12/18] fix: recovery of the lock-free hash map

Recovery never opened the existing tables (the flag of mmapTable was inverted, the
names lacked the directory, and the directory was taken from the name of an unrelated
file), sorted them by name (10 before 2), kept using tables it had unmapped, removed
tables that still decide which entries of older tables are outdated, crashed without
tables, left the counters of present keys and migrated slots wrong, and left a table
whose migration had begun without a successor.
---
 containers/cliffMap/hashMap.hpp | 160 +++++++++++++++++---------------
 1 file changed, 84 insertions(+), 76 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 4b3da76..7d14098 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -28,13 +28,16 @@
 #ifndef HASH_MAP_HPP
 #define HASH_MAP_HPP
 
+#include <algorithm>
 #include <atomic>
 #include <cassert>
 #include <chrono>
 #include <cstddef>
 #include <filesystem>
 #include <iostream>
+#include <set>
 #include <utility>
+#include <vector>
 
 // Fast hashing library.
 #include "xxhash.hpp"
@@ -112,10 +115,13 @@ public:
             // Represents "work chunks" claimed by resizers.
             // There is no guarantee that any one thread will actually finish a chunk.
             std::atomic<size_t> copyIdx;
+        public:
             // The amount of chunks completed.
             // Signals when all resizing is finished.
             std::atomic<size_t> copyDone;
 
+        private:
+
             // Report our completed chunks and, if all chunks are complete, attempt to promote the new table over the old one.
             // hashMap: Our hash map.
             // oldTable: The table that is (as far as we know) currently in place.
@@ -544,9 +550,13 @@ public:
             return oldValueRef;
         }
         // TODO: Grab count and store in CHM.
+        static std::string getTableDir()
+        {
+            return "/mnt/pmem/pm1/tables/";
+        }
         static std::string getOrderedFileName(size_t count)
         {
-            return "/mnt/pmem/pm1/tables/" + std::to_string(count) + ".dat";
+            return getTableDir() + std::to_string(count) + ".dat";
         }
         // Take a full table name with path and keep only the associated number.
         static size_t numFromName(const char *source)
@@ -618,17 +628,22 @@ public:
                 count = Table::numFromName(fileName);
             }
 
-            // If we want to map a new file.
-            if (newTable)
+            // If we want to map an existing file.
+            if (!newTable)
             {
                 // Try to open an existing hash table.
                 fd = open(fileName, O_RDWR);
+                if (fd == -1)
+                {
+                    // Error.
+                    std::cerr << "Failed to open the existing file." << std::endl;
+                    throw std::runtime_error("cannot open file");
+                }
             }
-            // If we want to map an existing file.
+            // If we want to map a new file.
             else
             {
-                // We will open the existing file.
-                // Report table doesn't exist.
+                // There is nothing to open yet.
                 fd = -1;
             }
 
@@ -671,17 +686,13 @@ public:
                     Value V = table->value(i);
                     Key K = table->key(i);
 
-                    // While we're at it, check for inconsistent table entries.
-                    // THis is the only situation I've come up with where we could have a problem with partial persists.
-                    if (K != KINITIAL && V == VINITIAL)
+                    // A key without a value is an insertion or migration that did not get far. It counts as absent,
+                    // and must stay as it is: with a tombstone, the migration could not be repeated.
+
+                    // Slots that need no migration any more.
+                    if (V == TOMBPRIME || V == INITPRIME)
                     {
-                        // If the key has been set but the value hasn't, then we have an incomplete insert on our hands.
-                        // Just make it a tombstone since we don't know what value it should have been.
-                        Table::CASvalue(table, i, VINITIAL, VTOMBSTONE);
-                        // Update the replaced value for subsequent use in this loop.
-                        V = table->value(i);
-                        // We should always succeed. We are running sequentially, after all.
-                        assert(V == VTOMBSTONE);
+                        table->chm.copyDone.fetch_add(1);
                     }
 
                     // Slots whose key is claimed.
@@ -757,103 +768,100 @@ public:
         // Recovery.
         if (reconstruct)
         {
-            std::vector<std::string> tableNames;
+            std::vector<size_t> tableNums;
             std::vector<Table *> tables;
-            std::string lastTableName;
 
-            // Get the table names.
-            std::filesystem::path path = fileDir;
+            // Get the table numbers, oldest table first.
+            std::filesystem::path path = Table::getTableDir();
             for (auto &p : std::filesystem::directory_iterator(path))
             {
-                const std::string filenameStr = p.path().filename().string();
-                if (p.is_regular_file())
+                // Anything that is not named like a table is not a table (or not a complete one).
+                const std::string stem = p.path().stem().string();
+                if (p.is_regular_file() && p.path().extension() == ".dat" &&
+                    !stem.empty() && std::all_of(stem.begin(), stem.end(), [](char c) { return c >= '0' && c <= '9'; }))
                 {
-                    tableNames.push_back(filenameStr);
+                    tableNums.push_back(std::stoul(stem));
                 }
             }
-
-            // Sort the tables by name.
-            std::sort(tableNames.begin(), tableNames.end(),
-                      [](std::string a, std::string b)
-                      {
-                          return a.compare(b) < 0;
-                      });
+            std::sort(tableNums.begin(), tableNums.end());
 
             // For each table.
             // Map the table.
             // Check if the table is empty or migrated.
-            for (auto it = tableNames.begin(); it != tableNames.end(); ++it)
+            for (size_t num : tableNums)
             {
-                // Allocate an mmapped table.
-                Table *table = Table::mmapTable(!reconstruct, size, (*it).c_str());
+                // Map the existing table.
+                const std::string tableName = Table::getOrderedFileName(num);
+                Table *table = Table::mmapTable(false, size, tableName.c_str());
 
-                // If the table is fully migrated, deallocate it and continue.
-                bool migrationDone = true;
-                // Check for non-migrated values.
-                for (size_t i = 0; i < table->len; i++)
-                {
-                    ValT val = table->value(i);
-                    // If the value is a tombstone, initial value, or migrated.
-                    if (val == VTOMBSTONE ||
-                        val == VINITIAL ||
-                        val == TOMBPRIME)
-                    {
-                        // Then migration for this value is complete.
-                        continue;
-                    }
-                    // Migration did not complete.
-                    // NOTE: If a migration was in progress (MigrationFlag is set for a valid value), then we consider migration incomplete as well.
-                    else
-                    {
-                        migrationDone = false;
-                        break;
-                    }
-                }
-                // If this table was fully migrated.
-                if (migrationDone)
+                // A table without keys was never used.
+                // A fully migrated table still decides which keys of older tables are outdated.
+                if (table->chm.slots.load() == 0 || (tables.empty() && table->chm.copyDone.load() == table->len))
                 {
                     // Deallocate it.
                     Table::munmapTable(table);
                     // Delete the underlying file.
-                    if (std::remove((*it).c_str()) != 0)
+                    if (std::remove(tableName.c_str()) != 0)
                     {
-                        fprintf(stderr, "Error deleting file \"%s\". Error %d\n", (*it).c_str(), errno);
+                        fprintf(stderr, "Error deleting file \"%s\". Error %d\n", tableName.c_str(), errno);
                     }
                 }
                 else
                 {
-                    // Migration is incomplete. Add it to our list.
                     tables.push_back(table);
                 }
-                lastTableName = *it;
             }
-            // Now that tables are filtered out, perform migrations (or just link tables together).
-            Table *oldTable = NULL;
-            Table *newTable = NULL;
-            for (auto it = tables.begin(); it != tables.end(); ++it)
+            // Ensure we use unique file names.
+            if (!tableNums.empty() && fileNameCounter.load() <= tableNums.back())
             {
-                oldTable = newTable;
-                newTable = *it;
-
-                if (oldTable != NULL)
+                fileNameCounter.store(tableNums.back() + 1);
+            }
+            // If nothing was ever stored, start afresh.
+            if (tables.empty())
+            {
+                tables.push_back(Table::mmapTable(true, size));
+            }
+            // If the newest table was already being migrated, it needs a table to migrate to.
+            Table *newest = tables.back();
+            for (size_t i = 0; i < newest->len; i++)
+            {
+                if (newest->key(i) == KTOMBSTONE || isMarked((uintptr_t)newest->value(i), MigrationFlag))
+                {
+                    tables.push_back(Table::mmapTable(true, newest->len << 1));
+                    break;
+                }
+            }
+            // Now that tables are filtered out, link tables together.
+            for (size_t i = 1; i < tables.size(); i++)
+            {
+                // Link the levels. This should always succeed, since we are running only one thread.
+                bool CASSucceed = tables[i - 1]->chm.CASNewTable(tables[i]);
+                assert(CASSucceed);
+            }
+            // Count the present keys. The newest table with a value for the key decides.
+            std::set<Key> decided;
+            for (auto it = tables.rbegin(); it != tables.rend(); ++it)
+            {
+                for (size_t i = 0; i < (*it)->len; i++)
                 {
-                    // Link the levels. This should always succeed, since we are running only one thread.
-                    bool CASSucceed = oldTable->chm.CASNewTable(newTable);
-                    assert(CASSucceed);
+                    Key K = (*it)->key(i);
+                    Value V = (*it)->value(i);
+                    if (K != KINITIAL && K != KTOMBSTONE && V != VINITIAL && V != INITPRIME && decided.insert(K).second &&
+                        V != VTOMBSTONE && V != TOMBPRIME)
+                    {
+                        keyCount.fetch_add(1);
+                    }
                 }
             }
             // Store the lowest table with an incomplete migration, as the base.
             // Might as well not migrate during recovery, since we lose out on parallel migration performance.
             this->table.store(tables[0]);
-
-            // Ensure we use unique file names.
-            fileNameCounter.store(Table::numFromName(lastTableName.c_str()));
         }
         else
         {
             // Alternative approach: just make a table, bypassing recovery.
             // Allocate a new, mmapped table.
-            Table *table = Table::mmapTable(!reconstruct, size);
+            Table *table = Table::mmapTable(true, size);
             // Store the table.
             this->table.store(table);
         }
-- 
2.43.0


From 41672ed9cf6d67f6c74d1f5ec1d4711a7286707a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 13/18] fix: a table file gets its name once it is initialized

After a crash during its creation recovery found a file of zeros, which reads as the
key 0 with the value 0, or an empty file, which cannot be mapped.
---
 containers/cliffMap/hashMap.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 7d14098..a65ebbf 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -706,7 +706,9 @@ public:
             else
             {
                 // Create and open the file.
-                fd = open(fileName, O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);
+                // It gets its final name once it is initialized: recovery must not find it before.
+                const std::string tempName = std::string(fileName) + ".tmp";
+                fd = open(tempName.c_str(), O_RDWR | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR);
                 if (fd == -1)
                 {
                     // Error.
@@ -743,6 +745,12 @@ public:
                 // Persist all keys and values.
                 // Everything else can be inferred upon recovery.
                 PERSIST(pairs, sizeof(KVpair) * tableCapacity);
+                if (std::rename(tempName.c_str(), fileName) != 0)
+                {
+                    // Error.
+                    std::cerr << "Failed to name the new file." << std::endl;
+                    throw std::runtime_error("cannot create or open file");
+                }
                 // Allocate our table.
                 // We pass in the location of our KV pairs to assign them to the structure.
                 // We pass in the size of the table to assign the length.
-- 
2.43.0


From f19be844ef52042f477f3e98e2b5cd952856bbeb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 14/18] fix: get and count of the std::map container must hold
 the lock

---
 containers/stlMap.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/containers/stlMap.hpp b/containers/stlMap.hpp
index 9d10f83..ec38759 100644
--- a/containers/stlMap.hpp
+++ b/containers/stlMap.hpp
@@ -38,6 +38,7 @@ namespace stl
 
         ValT get(KeyT el)
         {
+            guard_type g(global_lock);
             try
             {
                 return c->at(el);
@@ -50,6 +51,7 @@ namespace stl
 
         size_t count()
         {
+            guard_type g(global_lock);
             return c->size();
         }
 
-- 
2.43.0


From bed75329497c98bcab521e21d39263ea9bfeb26f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 15/18] fix: clevel container killed during its creation is
 created when reopened

---
 containers/levelMap.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/containers/levelMap.hpp b/containers/levelMap.hpp
index f9e2dae..2758963 100644
--- a/containers/levelMap.hpp
+++ b/containers/levelMap.hpp
@@ -106,8 +106,16 @@ namespace clevel
                 pop = pmem::obj::pool<root>::create(path, "clevel_hash",
                                                     PMEMOBJ_MIN_POOL * 20,
                                                     S_IWUSR | S_IRUSR);
-                auto proot = pop.root();
+            }
+            else
+            {
+                pop = pmem::obj::pool<root>::open(realfilename, "clevel_hash");
+            }
 
+            // A process killed while it created the pool leaves an empty root.
+            auto proot = pop.root();
+            if (proot->cons == nullptr)
+            {
                 pmem::obj::transaction::manual tx(pop);
 
                 proot->cons = pmem::obj::make_persistent<root::map_type>();
@@ -115,10 +123,6 @@ namespace clevel
 
                 pmem::obj::transaction::commit();
             }
-            else
-            {
-                pop = pmem::obj::pool<root>::open(realfilename, "clevel_hash");
-            }
             return;
         }
 
-- 
2.43.0


From fc4656dea5b820904c89405ba8176314e04ecae7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 16/18] fix: clevel insert that finds the new level already
 appended must publish that level

---
 include/libpmemobj++/experimental/clevel_hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 1bdde1f..05323f0 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -1379,7 +1379,7 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::expand(
 
 		if (meta == m_copy)
 		{
-			size_type new_capacity = cl->capacity;
+			size_type new_capacity = cl->capacity * 2;
 
 			// Update the first_level and is_resizing in the metadata.
 			while (true)
-- 
2.43.0


From b8b9b8b9536604210de0286835cdb564d7486a3a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 17/18] fix: discard tables of an earlier process when a map is
 created without recovery

They stayed in the table directory and were recovered together with the tables
of the new map after its next crash.
---
 containers/cliffMap/hashMap.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index a65ebbf..2f62647 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -868,6 +868,18 @@ public:
         else
         {
             // Alternative approach: just make a table, bypassing recovery.
+            // Tables that an earlier process left behind must not be recovered together with this one.
+            std::error_code ec;
+            for (auto &p : std::filesystem::directory_iterator(Table::getTableDir(), ec))
+            {
+                const std::string stem = p.path().stem().string();
+                if (p.is_regular_file(ec) && p.path().extension() == ".dat" &&
+                    !stem.empty() && std::all_of(stem.begin(), stem.end(), [](char c) { return c >= '0' && c <= '9'; }) &&
+                    std::stoul(stem) >= fileNameCounter.load())
+                {
+                    std::filesystem::remove(p.path(), ec);
+                }
+            }
             // Allocate a new, mmapped table.
             Table *table = Table::mmapTable(true, size);
             // Store the table.
-- 
2.43.0


From f43fad165e2a220bec4064a16cbf83c20695f8bb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:18 +0000
Subject: [PATCH 18/18] fix: a stalled thread that has not reported its
 migrated slots must not block the others

---
 containers/cliffMap/hashMap.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 2f62647..674d928 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -419,7 +419,9 @@ public:
                 size_t copyIdx;
 
                 // If copying is not yet complete.
-                while (copyDone.load() < oldLen)
+                // And, in case a stalled thread does not report the slots it has migrated, we have not gone over the whole table alone.
+                while (copyDone.load() < oldLen &&
+                       (panicStart == -1 || copyIdx < (size_t)panicStart + oldLen))
                 {
                     // If we have not yet panicked.
                     if (panicStart == -1)
-- 
2.43.0

