From ebba8d3aee1c68620aece73f6d2eecfe46b35ac2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 01/21] fix: exact and prefix lookups must not match past the
 end of the key

---
 src/detail/search_engine.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index c7e2d65..c968c88 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -468,6 +468,12 @@ namespace detail {
 #endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
+            // The key ends inside this edge; comparing the whole edge would
+            // read past the end of the key.
+            if (edge_len > len) {
+                rval = MBError::NOT_EXIST;
+                break;
+            }
             rval = compareCurrEdgeTail(edge_ptrs, data, key_cursor, key_buff, edge_len, edge_len_m1);
             if (rval == MBError::READ_ERROR)
                 break;
@@ -552,6 +558,12 @@ namespace detail {
 #endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
+            // The key ends inside this edge; comparing the whole edge would
+            // read past the end of the key.
+            if (edge_len > len) {
+                rval = MBError::NOT_EXIST;
+                break;
+            }
             // match edge string
             if (edge_len > LOCAL_EDGE_LEN) {
                 size_t edge_str_off = Get5BInteger(edge_ptrs.ptr);
-- 
2.43.0


From 29de078792fa4baa21b563f49e29f555d2757678 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 02/21] fix: longest prefix match length must belong to the
 returned value

---
 src/detail/search_engine.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index c968c88..8e0ba29 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -285,8 +285,9 @@ namespace detail {
                 rval = dict.ReadDataFromNode(data, last_node_buffer);
         } else if (edge_len == len) {
             if (edge_len_m1 == 0 || memcmp(key_buff, key + 1, edge_len_m1) == 0) {
-                data.match_len = len;
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                if (rval == MBError::SUCCESS)
+                    data.match_len = len;
             }
         }
 
@@ -585,8 +586,10 @@ namespace detail {
             len -= edge_len;
             key_cursor += edge_len;
             if (len <= 0 || (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)) {
-                data.match_len = key_cursor - key_base;
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                // keep the length of the last matching node if no value ends here
+                if (rval == MBError::SUCCESS)
+                    data.match_len = key_cursor - key_base;
                 break;
             }
 #ifdef __LOCK_FREE__
-- 
2.43.0


From a2af5579f8d478924ca681c9106cb25d5c5bdf62 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 03/21] fix: lower bound handles root edges that are shorter,
 longer or less than the key

---
 src/detail/search_engine.cpp | 45 ++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 8e0ba29..defe6eb 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -168,37 +168,32 @@ namespace detail {
             edge_label_ptr = edge_ptrs.ptr;
         }
 
-        if (edge_len < len) {
-            int label_cmp = memcmp(edge_label_ptr, key_cursor + 1, edge_label_len);
-            if (label_cmp != 0) {
-                if (label_cmp < 0) {
-                    bound_state.use_curr_edge = true;
-                    if (bound_key) {
-                        bound_key->push_back(static_cast<char>(key[0]));
-                        bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), edge_label_len);
-                    }
-                }
-                return readBoundFromRootEdge(edge_ptrs, data, root_key, bound_key);
+        // Only compare the bytes present in both the edge label and the key.
+        int cmp_len = (edge_len < len ? edge_len : len) - 1;
+        int label_cmp = cmp_len > 0 ? memcmp(edge_label_ptr, key_cursor + 1, cmp_len) : 0;
+        if (label_cmp < 0) {
+            // All keys along this edge are less than the target.
+            bound_state.use_curr_edge = true;
+            if (bound_key) {
+                bound_key->push_back(static_cast<char>(key[0]));
+                bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), edge_label_len);
             }
+            return MBError::NOT_EXIST;
+        }
+        if (label_cmp > 0 || edge_len > len) {
+            // All keys along this edge are greater than the target.
+            return MBError::NOT_EXIST;
+        }
 
+        if (edge_len == len || (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)) {
+            rval = dict.ReadDataFromEdge(data, edge_ptrs);
+            if (rval == MBError::SUCCESS)
+                data.match_len += edge_len;
+        } else {
             len -= edge_len;
             key_cursor += edge_len;
             data.match_len += edge_len;
             rval = traverseToLowerBound(key_cursor, len, edge_ptrs, data, bound_edge_ptrs, bound_state);
-        } else if (edge_len == len) {
-            if (len > 1 && memcmp(edge_label_ptr, key + 1, len - 1) != 0) {
-                if (memcmp(edge_label_ptr, key + 1, len - 1) < 0) {
-                    bound_state.use_curr_edge = true;
-                    if (bound_key) {
-                        bound_key->append(reinterpret_cast<const char*>(key), data.match_len + 1);
-                        bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), len - 1);
-                    }
-                }
-            } else {
-                rval = dict.ReadDataFromEdge(data, edge_ptrs);
-                if (rval == MBError::SUCCESS)
-                    data.match_len += edge_len;
-            }
         }
 
         return rval;
-- 
2.43.0


From ef0ba8b9dd91264f00d7f625989d5966b5889c28 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:31:29 +0000
Subject: [PATCH 04/21] fix: lower bound traversal must not compare past the
 end of the key

---
 src/detail/search_engine.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index defe6eb..1f9e06d 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -730,8 +730,10 @@ namespace detail {
             // Any divergence returns NOT_EXIST to the caller, carrying the best
             // candidate captured so far in bound_edge_ptrs.
             if (edge_label_len > 0) {
-                int label_cmp = memcmp(edge_label_ptr, key + 1, edge_label_len);
-                if (label_cmp != 0) {
+                // Do not compare past the end of the key.
+                int cmp_len = (edge_len < len ? edge_len : len) - 1;
+                int label_cmp = cmp_len > 0 ? memcmp(edge_label_ptr, key + 1, cmp_len) : 0;
+                if (label_cmp != 0 || edge_len > len) {
                     // If the edge label is strictly less than the key suffix, signal
                     // that the current subtree itself is a valid lower-bound pivot.
                     if (label_cmp < 0) {
-- 
2.43.0


From d92725bf1fb8f735dba7f02ffc36869172b5f21f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 05/21] fix: data free list must cover the largest data buffer

---
 src/drm_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drm_base.h b/src/drm_base.h
index 4deb27f..0552e3c 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -259,7 +259,7 @@ public:
                 if (index) {
                     free_lists = new FreeList(mbdir + "_ibfl", BUFFER_ALIGNMENT, NUM_BUFFER_RESERVE);
                 } else {
-                    free_lists = new FreeList(mbdir + "_dbfl", BUFFER_ALIGNMENT, NUM_BUFFER_RESERVE);
+                    free_lists = new FreeList(mbdir + "_dbfl", DATA_BUFFER_ALIGNMENT, NUM_DATA_BUFFER_RESERVE);
                 }
             }
         }
-- 
2.43.0


From 509024d1d95bbedd0a26fe264af42fe7078c2309 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 06/21] fix: reuse of smallest free buffers must not index
 before the list

---
 src/free_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_list.cpp b/src/free_list.cpp
index 844760d..442cec5 100644
--- a/src/free_list.cpp
+++ b/src/free_list.cpp
@@ -68,7 +68,7 @@ FreeList::~FreeList()
 int FreeList::ReuseBuffer(size_t buf_index, size_t offset)
 {
     int rval = MBError::BUFFER_LOST;
-    for (size_t i = buf_index - 1; i > 0; i--) {
+    for (size_t i = buf_index; i-- > 0;) {
         if (buffer_free_list[i]->Count() > max_buffer_per_list)
             continue;
 
-- 
2.43.0


From 8ea9ec81280ffc5937441d32cd720bd5f45a8e2b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 07/21] fix: lower bound must not depend on what its output
 arguments held before

---
 src/db.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index ac47816..dc80d2b 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -935,8 +935,11 @@ int DB::FindLowerBound(const char* key, int len, MBData& data, std::string* boun
         return MBError::NOT_ALLOWED;
 
     data.options = 0;
-    if (bound_key != nullptr)
+    data.match_len = 0;
+    if (bound_key != nullptr) {
+        bound_key->clear();
         bound_key->reserve(CONSTS::MAX_KEY_LENGHTH);
+    }
     detail::SearchEngine engine(*dict);
     return engine.lowerBound(reinterpret_cast<const uint8_t*>(key), len, data, bound_key);
 }
-- 
2.43.0


From 4f197fa270a4dcfcc8e9f0cd1a4bce86f12d614c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 08/21] fix: bound key must include edge labels that are not
 memory mapped

---
 src/detail/search_engine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 1f9e06d..ce86971 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -611,6 +611,11 @@ namespace detail {
             uint8_t* edge_str_buff = dict.mm.GetShmPtr(edge_str_off, edge_len_m1);
             if (edge_str_buff != nullptr) {
                 key->append((const char*)edge_str_buff, edge_len_m1);
+            } else {
+                // the label is not memory mapped
+                uint8_t edge_str[NUM_ALPHABET];
+                if (dict.mm.ReadData(edge_str, edge_len_m1, edge_str_off) == edge_len_m1)
+                    key->append((const char*)edge_str, edge_len_m1);
             }
         } else if (edge_len_m1 > 0) {
             key->append(reinterpret_cast<const char*>(edge_ptrs.ptr), edge_len_m1);
-- 
2.43.0


From e0e7cdbff447bf85a37cf53be078d40d5bea5d60 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 09/21] fix: a value at data offset zero must be readable
 through an internal node

---
 src/dict.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 0833d48..cefc0de 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -728,10 +728,9 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
 
 int Dict::ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const
 {
+    // Whether the node holds a value is told by FLAG_NODE_MATCH, which callers
+    // have checked. Zero is a valid data offset in jemalloc mode.
     size_t data_off = Get6BInteger(node_ptr + 2);
-    if (data_off == 0)
-        return MBError::NOT_EXIST;
-
     data.data_offset = data_off;
 
     // Read data length first
-- 
2.43.0


From 2412d0fd342824bc86b916f2661b452a029cc228 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 10/21] fix: backup must report unreadable files with the
 exception type its callers catch

---
 src/mb_backup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index a6a5525..4c0ab5b 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -53,12 +53,12 @@ void DBBackup::copy_file(const std::string& src_path, const std::string& dest_pa
 
     if ((fp_read = fopen(src_path.c_str(), "rb")) == NULL) {
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not open file %s", src_path.c_str());
-        throw MBError::OPEN_FAILURE;
+        throw (int)MBError::OPEN_FAILURE;
     }
     if ((fp_write = fopen(dest_path.c_str(), "wb")) == NULL) {
         fclose(fp_read);
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not open file %s", dest_path.c_str());
-        throw MBError::OPEN_FAILURE;
+        throw (int)MBError::OPEN_FAILURE;
     }
 
     int rval = MBError::SUCCESS;
-- 
2.43.0


From 9f9ef4d0fe5a1b3a7d723d9adfa8fd44ed835811 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 11/21] fix: backup must accept a database whose last block
 file does not exist yet

---
 src/mb_backup.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index 4c0ab5b..866538e 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -129,6 +129,9 @@ int DBBackup::Backup(const char* bk_dir)
     for (int i = 0; i < num_data_files; i++) {
         read_file_path = read_file_path_base + std::to_string(i);
         write_file_path = write_file_path_base + std::to_string(i);
+        // The last block file is created when the first buffer is placed in it.
+        if (i == num_data_files - 1 && access(read_file_path.c_str(), F_OK) != 0)
+            break;
         copy_file(read_file_path, write_file_path, buffer, BLOCK_SIZE_ALIGN);
     }
 
@@ -137,6 +140,8 @@ int DBBackup::Backup(const char* bk_dir)
     for (int i = 0; i < num_index_files; i++) {
         read_file_path = read_file_path_base + std::to_string(i);
         write_file_path = write_file_path_base + std::to_string(i);
+        if (i == num_index_files - 1 && access(read_file_path.c_str(), F_OK) != 0)
+            break;
         copy_file(read_file_path, write_file_path, buffer, BLOCK_SIZE_ALIGN);
     }
 
-- 
2.43.0


From 787f9b2f5da0e4a3217a8f81802333fe69b79807 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 12/21] fix: backup of a database with its own queue directory
 must not crash

---
 src/mb_backup.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index 866538e..6b87e6f 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -155,6 +155,12 @@ int DBBackup::Backup(const char* bk_dir)
     // reset number readers/writers in backed up DB.
     int rval;
     DB db = DB(bk_dir, CONSTS::ACCESS_MODE_READER, 0, 0);
+    if (!db.is_open()) {
+        // The copy is complete. It cannot be opened here if the shared memory
+        // queue of the source is not in the default directory.
+        Logger::Log(LOG_LEVEL_WARN, "failed to reset number of handles for DB %s", bk_dir);
+        return MBError::SUCCESS;
+    }
     rval = db.UpdateNumHandlers(CONSTS::ACCESS_MODE_WRITER, -1);
     if (rval != MBError::SUCCESS)
         Logger::Log(LOG_LEVEL_WARN, "failed to reset number of writer for DB %s", bk_dir);
-- 
2.43.0


From 921cc9bba74ba58e1c016f164998e1077639cfc2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 13/21] fix: queued updates must reject empty and negative
 lengths

---
 src/shmq_update.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shmq_update.cpp b/src/shmq_update.cpp
index 6bd1cdb..edc424b 100644
--- a/src/shmq_update.cpp
+++ b/src/shmq_update.cpp
@@ -29,7 +29,7 @@ namespace mabain {
 int Dict::SHMQ_Add(const char* key, int key_len, const char* data, int data_len,
     bool overwrite)
 {
-    if (key_len > MB_ASYNC_SHM_KEY_SIZE || data_len > MB_ASYNC_SHM_DATA_SIZE) {
+    if (key_len > MB_ASYNC_SHM_KEY_SIZE || data_len > MB_ASYNC_SHM_DATA_SIZE || key_len <= 0 || data_len <= 0) {
         return MBError::OUT_OF_BOUND;
     }
 
@@ -50,7 +50,7 @@ int Dict::SHMQ_Add(const char* key, int key_len, const char* data, int data_len,
 
 int Dict::SHMQ_Remove(const char* key, int len)
 {
-    if (len > MB_ASYNC_SHM_KEY_SIZE)
+    if (len > MB_ASYNC_SHM_KEY_SIZE || len <= 0)
         return MBError::OUT_OF_BOUND;
 
     int err = MBError::SUCCESS;
-- 
2.43.0


From 9f8da226e4fc3c65cb16ab34bd853b318ebbec8f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 14/21] fix: a queued backup request must carry the length of
 its path

---
 src/shmq_update.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shmq_update.cpp b/src/shmq_update.cpp
index edc424b..edef92f 100644
--- a/src/shmq_update.cpp
+++ b/src/shmq_update.cpp
@@ -86,7 +86,7 @@ int Dict::SHMQ_Backup(const char* backup_dir)
     AsyncNode* node_ptr = SHMQ_AcquireSlot(err);
     if (node_ptr == nullptr)
         return err;
-    snprintf(node_ptr->data, MB_ASYNC_SHM_DATA_SIZE, "%s", backup_dir);
+    node_ptr->data_len = snprintf(node_ptr->data, MB_ASYNC_SHM_DATA_SIZE, "%s", backup_dir);
     node_ptr->type = MABAIN_ASYNC_TYPE_BACKUP;
     return SHMQ_PrepareSlot(node_ptr);
 }
-- 
2.43.0


From d681155dd4e57c1cb0c556a32d3d9e2e17c53c88 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 15/21] fix: the writer must give a queue slot back only after
 it is cleared

---
 src/async_writer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index a02514c..40cccb6 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -165,9 +165,10 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
             }
 
             header->writer_index++;
-            node_ptr->num_reader.store(0, std::memory_order_release);
+            // The slot can be claimed again once num_reader is zero.
             node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
             node_ptr->in_use.store(false, std::memory_order_release);
+            node_ptr->num_reader.store(0, std::memory_order_release);
             mbd.Clear();
             count++;
         } else {
@@ -317,9 +318,10 @@ void* AsyncWriter::async_writer_thread()
         }
 
         header->writer_index++;
-        node_ptr->num_reader.store(0, std::memory_order_release);
+        // The slot can be claimed again once num_reader is zero.
         node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
         node_ptr->in_use.store(false, std::memory_order_release);
+        node_ptr->num_reader.store(0, std::memory_order_release);
 
         if (rval != MBError::SUCCESS) {
             Logger::Log(LOG_LEVEL_DEBUG, "failed to run update %d: %s",
-- 
2.43.0


From dc8ce6e656541fc0965c589f6435a468135436f0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:30:26 +0000
Subject: [PATCH 16/21] fix: keep the old value allocated until an overwrite is
 published

---
 src/dict.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index cefc0de..c24460e 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1188,8 +1188,8 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         mbd.data_offset = Get6BInteger(edge_ptrs.offset_ptr);
         if (!overwrite)
             return MBError::IN_DICT;
-        if (ReleaseBuffer(mbd.data_offset) != MBError::SUCCESS)
-            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer: %llu", mbd.data_offset);
+        // The old value stays allocated until the edge no longer refers to it.
+        const size_t old_data_offset = mbd.data_offset;
         ReserveData(mbd.buff, mbd.data_len, mbd.data_offset);
         Write6BInteger(edge_ptrs.offset_ptr, mbd.data_offset);
 
@@ -1204,9 +1204,13 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         lfree.WriterLockFreeStop();
 #endif
         header->excep_updating_status = EXCEP_STATUS_NONE;
+        if (ReleaseBuffer(old_data_offset) != MBError::SUCCESS)
+            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer: %llu", old_data_offset);
     } else {
         uint8_t* node_buff = header->excep_buff;
         size_t node_off = Get6BInteger(edge_ptrs.offset_ptr);
+        bool release_old = false;
+        size_t old_data_offset = 0;
 
         if (mm.ReadData(node_buff, NODE_EDGE_KEY_FIRST, node_off) != NODE_EDGE_KEY_FIRST)
             return MBError::READ_ERROR;
@@ -1216,8 +1220,8 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
             mbd.data_offset = Get6BInteger(node_buff + 2);
             if (!overwrite)
                 return MBError::IN_DICT;
-            if (ReleaseBuffer(mbd.data_offset) != MBError::SUCCESS)
-                Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer %llu", mbd.data_offset);
+            release_old = true;
+            old_data_offset = mbd.data_offset;
             node_buff[NODE_EDGE_KEY_FIRST] = 0;
         } else {
             // set the match flag
@@ -1240,6 +1244,8 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         lfree.WriterLockFreeStop();
 #endif
         header->excep_updating_status = EXCEP_STATUS_NONE;
+        if (release_old && ReleaseBuffer(old_data_offset) != MBError::SUCCESS)
+            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer %llu", old_data_offset);
     }
 
     return MBError::SUCCESS;
-- 
2.43.0


From e01163a23507c90d484257279f61d40a6817764a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 17/21] fix: lookups must not use an edge the writer is still
 changing

---
 src/detail/lf_guard.h        |  8 +++++++-
 src/detail/search_engine.cpp | 30 ++++++++++++++++++++++++------
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/detail/lf_guard.h b/src/detail/lf_guard.h
index e543803..f96ecf4 100644
--- a/src/detail/lf_guard.h
+++ b/src/detail/lf_guard.h
@@ -20,7 +20,13 @@ struct ReaderLFGuard {
     {
         lf.ReaderLockFreeStart(snap);
     }
-    inline int stop(size_t edge_off) { return lf.ReaderLockFreeStop(snap, edge_off, data); }
+    inline int stop(size_t edge_off)
+    {
+        // The lookup reads every edge from the index again when it retries, so an
+        // edge that is still being written must not be taken for the saved one.
+        data.options &= ~CONSTS::OPTION_READ_SAVED_EDGE;
+        return lf.ReaderLockFreeStop(snap, edge_off, data);
+    }
 };
 
 } // namespace mabain
diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index ce86971..35f14da 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -273,6 +273,13 @@ namespace detail {
                 return dict.ReadDataFromEdge(data, edge_ptrs);
             }
 
+#ifdef __LOCK_FREE__
+            {
+                int _r = lf_guard.stop(edge_ptrs.offset);
+                if (_r != MBError::SUCCESS)
+                    return _r;
+            }
+#endif
             uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST];
             int last_prefix_rval = MBError::NOT_EXIST;
             rval = traversePrefixFromEdge(key, key_cursor, len, edge_ptrs, data, last_prefix_rval, last_node_buffer);
@@ -360,7 +367,15 @@ namespace detail {
                 consumed += edge_len;
                 len -= edge_len;
                 if (len <= 0) {
-                    return resolveMatchOrInDict(data, edge_ptrs, true);
+                    rval = resolveMatchOrInDict(data, edge_ptrs, true);
+#ifdef __LOCK_FREE__
+                    {
+                        int _r = lf_guard.stop(edge_ptrs.offset);
+                        if (_r != MBError::SUCCESS)
+                            return _r;
+                    }
+#endif
+                    return rval;
                 }
                 if (isLeaf(edge_ptrs)) {
 #ifdef __LOCK_FREE__
@@ -376,7 +391,9 @@ namespace detail {
             } else if (edge_len == len) {
                 if (remainderMatches(key_buff, key_cursor, edge_len_m1)) {
                     // Find does not update prefix cache; writer seeds during Add
-                    return resolveMatchOrInDict(data, edge_ptrs, true);
+                    rval = resolveMatchOrInDict(data, edge_ptrs, true);
+                } else {
+                    rval = MBError::NOT_EXIST;
                 }
 #ifdef __LOCK_FREE__
                 {
@@ -385,7 +402,7 @@ namespace detail {
                         return _r;
                 }
 #endif
-                return MBError::NOT_EXIST;
+                return rval;
             } else {
 #ifdef __LOCK_FREE__
                 {
@@ -478,11 +495,12 @@ namespace detail {
 
             len -= edge_len;
             if (len <= 0) {
-                int _ret = resolveMatchOrInDict(data, edge_ptrs, false);
-                return _ret;
+                rval = resolveMatchOrInDict(data, edge_ptrs, false);
+                break;
             }
             if (isLeaf(edge_ptrs)) {
-                return MBError::NOT_EXIST;
+                rval = MBError::NOT_EXIST;
+                break;
             }
 
             key_cursor += edge_len;
-- 
2.43.0


From 0ffde57c11b98a2c1eaac9216e0505b1596ab7b1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 18/21] fix: an interrupted update must be recovered when the
 database is reopened

---
 src/mb_rc.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index e6b2597..6346b2b 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -1052,7 +1052,11 @@ int ResourceCollection::ExceptionRecovery()
     if (!db_ref.is_open())
         return db_ref.Status();
 
-    int rval = MBError::SUCCESS;
+    // Complete or undo the update the previous writer may have been killed in.
+    int rval = dict->ExceptionRecovery();
+    if (rval != MBError::SUCCESS)
+        return rval;
+
     if (header->rc_m_index_off_pre != 0 && header->rc_m_data_off_pre != 0) {
         Logger::Log(LOG_LEVEL_WARN, "previous rc was not completed successfully, retrying...");
         try {
-- 
2.43.0


From a668076f9c303144714dc88cc80d4c0af3d009c6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 19/21] fix: removal must not touch nodes and values before
 they are unreachable

---
 src/dict.cpp     |  32 ++++++++------
 src/dict.h       |   2 +-
 src/dict_mem.cpp | 110 ++++++++++++++++++++++++++++++-----------------
 src/dict_mem.h   |   2 +
 4 files changed, 92 insertions(+), 54 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index c24460e..a2d8039 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -669,12 +669,12 @@ int Dict::ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const
 // Delete operations:
 //   If this is a leaf node, need to remove the edge. Otherwise, unset the match flag.
 //   Also need to set the delete flag in the data block so that it can be reclaimed later.
-int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
+// The data block to be released is returned to the caller, which must not release it
+// before the entry is gone.
+int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs, size_t& data_off, int& rel_size)
 {
     int rval = MBError::SUCCESS;
-    size_t data_off;
     uint16_t data_len;
-    int rel_size;
 
     // Check if this is a leaf node first by using the EDGE_FLAG_DATA_OFF bit
     if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
@@ -687,7 +687,6 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
         } else {
             rel_size = free_lists->GetAlignmentSize(data_len + DATA_HDR_BYTE);
         }
-        ReleaseBuffer(data_off, rel_size);
         rval = mm.RemoveEdgeByIndex(edge_ptrs, data);
     } else {
         // No exception handling in this case
@@ -702,11 +701,6 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
             return MBError::READ_ERROR;
 
         if (node_buff[0] & FLAG_NODE_MATCH) {
-            // Unset the match flag
-            node_buff[0] &= ~FLAG_NODE_MATCH;
-            mm.WriteData(&node_buff[0], 1, node_off);
-
-            // Release data buffer
             data_off = Get6BInteger(node_buff + 2);
             if (ReadData(reinterpret_cast<uint8_t*>(&data_len), DATA_SIZE_BYTE, data_off)
                 != DATA_SIZE_BYTE)
@@ -717,7 +711,10 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
             } else {
                 rel_size = free_lists->GetAlignmentSize(data_len + DATA_HDR_BYTE);
             }
-            ReleaseBuffer(data_off, rel_size);
+
+            // Unset the match flag
+            node_buff[0] &= ~FLAG_NODE_MATCH;
+            mm.WriteData(&node_buff[0], 1, node_off);
         } else {
             rval = MBError::NOT_EXIST;
         }
@@ -955,7 +952,9 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
         rval = engine.find(key, len, data);
     }
     if (rval == MBError::IN_DICT) {
-        rval = DeleteDataFromEdge(data, data.edge_ptrs);
+        size_t data_off = 0;
+        int data_rel_size = 0;
+        rval = DeleteDataFromEdge(data, data.edge_ptrs, data_off, data_rel_size);
         while (rval == MBError::TRY_AGAIN) {
             data.Clear();
             len -= data.edge_ptrs.len_ptr[0];
@@ -970,6 +969,8 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
                 rval = mm.RemoveEdgeByIndex(data.edge_ptrs, data);
             }
         }
+        if (rval == MBError::SUCCESS)
+            ReleaseBuffer(data_off, data_rel_size);
     }
 
     if (rval == MBError::SUCCESS) {
@@ -1437,9 +1438,12 @@ int Dict::ExceptionRecovery()
 #ifdef __LOCK_FREE__
         lfree.WriterLockFreeStart(header->excep_lf_offset);
 #endif
-        Write6BInteger(header->excep_buff, header->excep_offset);
-        mm.WriteData(header->excep_buff, OFFSET_SIZE,
-            header->excep_lf_offset + EDGE_NODE_LEADING_POS);
+        // Let the edge lead to the old node again. The update may have turned it
+        // into a leaf edge.
+        header->excep_buff[0] = 0;
+        Write6BInteger(header->excep_buff + 1, header->excep_offset);
+        mm.WriteData(header->excep_buff, OFFSET_SIZE + 1,
+            header->excep_lf_offset + EDGE_FLAG_POS);
         break;
     case EXCEP_STATUS_CLEAR_EDGE:
 #ifdef __LOCK_FREE__
diff --git a/src/dict.h b/src/dict.h
index a7bdfba..9142821 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -145,7 +145,7 @@ private:
     int UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, bool& inc_count);
     int ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const;
     int ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const;
-    int DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs);
+    int DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs, size_t& data_off, int& rel_size);
     int ReadNodeMatch(size_t node_off, int& match, MBData& data) const;
     int SHMQ_PrepareSlot(AsyncNode* node_ptr);
     AsyncNode* SHMQ_AcquireSlot(int& err) const;
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 5c363ee..82af9b4 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -1355,6 +1355,8 @@ int DictMem::RemoveEdgeSizeN(const EdgePtrs& edge_ptrs,
 
     // Update the link from parent edge to the new node offset
     Write6BInteger(header->excep_buff, new_node_offset);
+    header->excep_lf_offset = parent_edge_offset;
+    header->excep_updating_status = EXCEP_STATUS_REMOVE_EDGE;
 #ifdef __LOCK_FREE__
     lfree->WriterLockFreeStart(parent_edge_offset);
 #endif
@@ -1362,6 +1364,7 @@ int DictMem::RemoveEdgeSizeN(const EdgePtrs& edge_ptrs,
 #ifdef __LOCK_FREE__
     lfree->WriterLockFreeStop();
 #endif
+    header->excep_updating_status = EXCEP_STATUS_NONE;
 
     return MBError::SUCCESS;
 }
@@ -1373,25 +1376,10 @@ int DictMem::RemoveEdgeSizeOne(uint8_t* old_node_buffer,
     size_t& str_off_rel,
     int& str_size_rel)
 {
-    int rval = MBError::SUCCESS;
-
-    if (old_node_buffer[0] & FLAG_NODE_MATCH) {
-        uint8_t* parent_edge_buff = header->excep_buff;
-        size_t data_offset = Get6BInteger(old_node_buffer + 2);
-        parent_edge_buff[0] = EDGE_FLAG_DATA_OFF;
-        Write6BInteger(parent_edge_buff + 1, data_offset);
-#ifdef __LOCK_FREE__
-        lfree->WriterLockFreeStart(parent_edge_offset);
-#endif
-        // Write the one-byte flag and 6-byte offset
-        WriteData(parent_edge_buff, OFFSET_SIZE_P1, parent_edge_offset + EDGE_FLAG_POS);
-#ifdef __LOCK_FREE__
-        lfree->WriterLockFreeStop();
-#endif
-    } else {
-        // This is an internal node.
-        rval = MBError::TRY_AGAIN;
-    }
+    // An internal node that holds no value disappears together with its last edge.
+    // It is left alone until the edge that leads to it has been removed.
+    if (!(old_node_buffer[0] & FLAG_NODE_MATCH))
+        return MBError::TRY_AGAIN;
 
     uint8_t old_edge_buff[16];
     size_t old_edge_offset = node_offset + NODE_EDGE_KEY_FIRST + nt;
@@ -1402,7 +1390,63 @@ int DictMem::RemoveEdgeSizeOne(uint8_t* old_node_buffer,
         str_size_rel = old_edge_buff[EDGE_LEN_POS] - 1;
     }
 
-    return rval;
+    uint8_t* parent_edge_buff = header->excep_buff;
+    size_t data_offset = Get6BInteger(old_node_buffer + 2);
+    parent_edge_buff[0] = EDGE_FLAG_DATA_OFF;
+    Write6BInteger(parent_edge_buff + 1, data_offset);
+    header->excep_lf_offset = parent_edge_offset;
+    header->excep_updating_status = EXCEP_STATUS_REMOVE_EDGE;
+#ifdef __LOCK_FREE__
+    lfree->WriterLockFreeStart(parent_edge_offset);
+#endif
+    // Write the one-byte flag and 6-byte offset
+    WriteData(parent_edge_buff, OFFSET_SIZE_P1, parent_edge_offset + EDGE_FLAG_POS);
+#ifdef __LOCK_FREE__
+    lfree->WriterLockFreeStop();
+#endif
+    header->excep_updating_status = EXCEP_STATUS_NONE;
+
+    return MBError::SUCCESS;
+}
+
+// Clear an edge that is not part of the tree any more. A reader may still be
+// looking at it.
+void DictMem::ClearDetachedEdge(size_t edge_offset)
+{
+#ifdef __LOCK_FREE__
+    header->excep_lf_offset = edge_offset;
+    header->excep_updating_status = EXCEP_STATUS_CLEAR_EDGE;
+    lfree->WriterLockFreeStart(edge_offset);
+#endif
+    WriteData(DictMem::empty_edge, EDGE_SIZE, edge_offset);
+#ifdef __LOCK_FREE__
+    lfree->WriterLockFreeStop();
+    header->excep_updating_status = EXCEP_STATUS_NONE;
+#endif
+}
+
+// Release the nodes below a removed edge. Every one of them has a single edge and
+// no value.
+int DictMem::ReleaseDetachedNodes(const uint8_t* edge_buff)
+{
+    uint8_t buff[NODE_EDGE_KEY_FIRST + 1 + EDGE_SIZE];
+    bool is_leaf = edge_buff[EDGE_FLAG_POS] & EDGE_FLAG_DATA_OFF;
+    size_t node_offset = Get6BInteger(edge_buff + EDGE_NODE_LEADING_POS);
+
+    while (!is_leaf) {
+        if (ReadData(buff, sizeof(buff), node_offset) != static_cast<int>(sizeof(buff)))
+            return MBError::READ_ERROR;
+        const uint8_t* edge = buff + NODE_EDGE_KEY_FIRST + 1;
+        ClearDetachedEdge(node_offset + NODE_EDGE_KEY_FIRST + 1);
+        header->n_edges--;
+        ReleaseNode(node_offset, 0);
+        if (edge[EDGE_LEN_POS] > LOCAL_EDGE_LEN)
+            ReleaseBuffer(Get5BInteger(edge), edge[EDGE_LEN_POS] - 1);
+        is_leaf = edge[EDGE_FLAG_POS] & EDGE_FLAG_DATA_OFF;
+        node_offset = Get6BInteger(edge + EDGE_NODE_LEADING_POS);
+    }
+
+    return MBError::SUCCESS;
 }
 
 int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
@@ -1411,7 +1455,7 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
 
     if (header->excep_offset == root_offset) {
         RemoveRootEdge(edge_ptrs);
-        return MBError::SUCCESS;
+        return ReleaseDetachedNodes(edge_ptrs.ptr);
     }
 
     int nt = edge_ptrs.curr_nt;
@@ -1428,35 +1472,23 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
     size_t str_off_rel;
     int str_size_rel = 0;
 
-    header->excep_lf_offset = edge_ptrs.parent_offset;
-    header->excep_updating_status = EXCEP_STATUS_REMOVE_EDGE;
     if (nt > 1) {
         rval = RemoveEdgeSizeN(edge_ptrs, nt, header->excep_offset, old_node_buffer,
-            str_off_rel, str_size_rel, header->excep_lf_offset);
+            str_off_rel, str_size_rel, edge_ptrs.parent_offset);
     } else {
-        rval = DictMem::RemoveEdgeSizeOne(old_node_buffer, header->excep_lf_offset,
+        rval = DictMem::RemoveEdgeSizeOne(old_node_buffer, edge_ptrs.parent_offset,
             header->excep_offset, nt, str_off_rel, str_size_rel);
     }
-    header->excep_updating_status = EXCEP_STATUS_NONE;
+    if (rval != MBError::SUCCESS)
+        return rval;
 
+    ClearDetachedEdge(edge_ptrs.offset);
     header->n_edges--;
     ReleaseNode(header->excep_offset, nt - 1);
     if (str_size_rel > 0)
         ReleaseBuffer(str_off_rel, str_size_rel);
 
-        // Clear the edge
-#ifdef __LOCK_FREE__
-    header->excep_lf_offset = edge_ptrs.offset;
-    header->excep_updating_status = EXCEP_STATUS_CLEAR_EDGE;
-    lfree->WriterLockFreeStart(edge_ptrs.offset);
-#endif
-    WriteData(DictMem::empty_edge, EDGE_SIZE, edge_ptrs.offset);
-#ifdef __LOCK_FREE__
-    lfree->WriterLockFreeStop();
-    header->excep_updating_status = EXCEP_STATUS_NONE;
-#endif
-
-    return rval;
+    return ReleaseDetachedNodes(edge_ptrs.ptr);
 }
 
 // Should only be called by writer
diff --git a/src/dict_mem.h b/src/dict_mem.h
index bcb9374..8b8d709 100644
--- a/src/dict_mem.h
+++ b/src/dict_mem.h
@@ -116,6 +116,8 @@ private:
         MBData& data, int& release_buffer_size,
         size_t& edge_str_off, bool& map_new_sliding);
     void RemoveRootEdge(const EdgePtrs& edge_ptrs);
+    void ClearDetachedEdge(size_t edge_offset);
+    int ReleaseDetachedNodes(const uint8_t* edge_buff);
     int RemoveEdgeSizeN(const EdgePtrs& edge_ptrs, int nt, size_t node_offset,
         uint8_t* old_node_buffer, size_t& str_off_rel,
         int& str_size_rel, size_t parent_edge_offset);
-- 
2.43.0


From 3d6a9947f0f2c13e2384afa3dc20f8d02b10aa63 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:15:31 +0000
Subject: [PATCH 20/21] fix: queued updates must be applied in the order they
 were accepted

A refused update moved the queue index on, so a later update could be
accepted into a slot that the writer reaches before slots filled earlier.
---
 src/shmq_update.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/shmq_update.cpp b/src/shmq_update.cpp
index edef92f..0c43cbc 100644
--- a/src/shmq_update.cpp
+++ b/src/shmq_update.cpp
@@ -114,14 +114,19 @@ int Dict::SHMQ_CollectResource(int64_t m_index_rc_size,
 
 AsyncNode* Dict::SHMQ_AcquireSlot(int& err) const
 {
-    uint32_t index = header->queue_index.fetch_add(1, std::memory_order_release);
-    AsyncNode* node_ptr = queue + (index % header->async_queue_size);
-
-    if (node_ptr->in_use.load(std::memory_order_consume)) {
-        // This slot is being processed by writer.
-        err = MBError::TRY_AGAIN;
-        return nullptr;
-    }
+    uint32_t index = header->queue_index.load(std::memory_order_acquire);
+    AsyncNode* node_ptr;
+
+    do {
+        node_ptr = queue + (index % header->async_queue_size);
+        if (node_ptr->in_use.load(std::memory_order_acquire)) {
+            // This slot has not been processed by writer. Do not move on to the next
+            // slot. Otherwise later updates could be processed ahead of earlier ones.
+            err = MBError::TRY_AGAIN;
+            return nullptr;
+        }
+    } while (!header->queue_index.compare_exchange_weak(index, index + 1,
+        std::memory_order_acq_rel, std::memory_order_acquire));
 
     uint16_t nreader = node_ptr->num_reader.fetch_add(1, std::memory_order_release);
     if (nreader != 0) {
-- 
2.43.0


From dae14beb122d8c5fc413925cfb876eb459124c25 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:15:31 +0000
Subject: [PATCH 21/21] fix: writer must not step over a queue slot that is
 being filled

The writer skipped a claimed slot as soon as any signal woke it up, so the
update in that slot was applied late or not at all.
---
 src/async_writer.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index 40cccb6..f769da3 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -165,10 +165,10 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
             }
 
             header->writer_index++;
-            // The slot can be claimed again once num_reader is zero.
+            // The slot can be claimed again once it is no longer in use.
             node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
-            node_ptr->in_use.store(false, std::memory_order_release);
             node_ptr->num_reader.store(0, std::memory_order_release);
+            node_ptr->in_use.store(false, std::memory_order_release);
             mbd.Clear();
             count++;
         } else {
@@ -214,6 +214,8 @@ void* AsyncWriter::async_writer_thread()
     int64_t max_dbsize = MAX_6B_OFFSET;
     int64_t max_dbcount = MAX_6B_OFFSET;
     bool skip;
+    bool slot_claimed;
+    std::chrono::steady_clock::time_point claim_time;
     MBPipe mbp(db->GetDBDir(), CONSTS::ACCESS_MODE_WRITER);
 
     Logger::Log(LOG_LEVEL_DEBUG, "async writer started");
@@ -228,6 +230,7 @@ void* AsyncWriter::async_writer_thread()
         node_ptr = &queue[header->writer_index % header->async_queue_size];
 
         skip = false;
+        slot_claimed = false;
         while (!node_ptr->in_use.load(std::memory_order_consume)) {
             if (stop_processing) {
                 skip = true;
@@ -240,6 +243,15 @@ void* AsyncWriter::async_writer_thread()
             auto windex = header->writer_index;
             auto qindex = header->queue_index.load(std::memory_order_consume);
             if (windex != qindex) {
+                // The slot was claimed. Leave its owner enough time to fill it.
+                auto now = std::chrono::steady_clock::now();
+                if (!slot_claimed) {
+                    slot_claimed = true;
+                    claim_time = now;
+                }
+                if (now - claim_time < std::chrono::milliseconds(__ASYNC_THREAD_SLEEP_TIME)
+                    || node_ptr->in_use.load(std::memory_order_consume))
+                    continue;
                 // Reader process may have exited unexpectedly. Recover index.
                 skip = true;
                 header->writer_index = NextShmSlot(windex, qindex);
@@ -318,10 +330,10 @@ void* AsyncWriter::async_writer_thread()
         }
 
         header->writer_index++;
-        // The slot can be claimed again once num_reader is zero.
+        // The slot can be claimed again once it is no longer in use.
         node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
-        node_ptr->in_use.store(false, std::memory_order_release);
         node_ptr->num_reader.store(0, std::memory_order_release);
+        node_ptr->in_use.store(false, std::memory_order_release);
 
         if (rval != MBError::SUCCESS) {
             Logger::Log(LOG_LEVEL_DEBUG, "failed to run update %d: %s",
-- 
2.43.0

