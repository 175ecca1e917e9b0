From dae661f57ee9d3c3e094dbde43afb3bc6a3cb7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:38 +0000
Subject: [PATCH 01/18] fix: RwSerializer integer reads from memory reset the
 status on success

A failed memory-mode read left READ_VIOLATION in the caller's (by default
shared static) status; every later successful read returned the right value
but did not advance the position.
---
 src/internal_helper.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index 56157af..c891a42 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -200,6 +200,7 @@ uint64_t RwSerializer::getU64(Status& s_out) {
             s_out = Status::READ_VIOLATION;
         } else {
             read_mem_64(dstPtr, val, 0, off);
+            s_out = Status();
         }
     } else {
         s_out = read_file_64(fOps, dstFile, val, 0, off);
@@ -216,6 +217,7 @@ uint32_t RwSerializer::getU32(Status& s_out) {
             s_out = Status::READ_VIOLATION;
         } else {
             read_mem_32(dstPtr, val, 0, off);
+            s_out = Status();
         }
     } else {
         s_out = read_file_32(fOps, dstFile, val, 0, off);
@@ -232,6 +234,7 @@ uint16_t RwSerializer::getU16(Status& s_out) {
             s_out = Status::READ_VIOLATION;
         } else {
             read_mem_16(dstPtr, val, 0, off);
+            s_out = Status();
         }
     } else {
         s_out = read_file_16(fOps, dstFile, val, 0, off);
@@ -248,6 +251,7 @@ uint8_t RwSerializer::getU8(Status& s_out) {
             s_out = Status::READ_VIOLATION;
         } else {
             read_mem_8(dstPtr, val, 0, off);
+            s_out = Status();
         }
     } else {
         s_out = read_file_8(fOps, dstFile, val, 0, off);
-- 
2.43.0


From 7ded7808655d220ffd109d8cae8fce3673166673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:38 +0000
Subject: [PATCH 02/18] fix: RwSerializer::getSb checks the length and consumes
 nothing on failure

Without clone the out buffer could point beyond the end of the memory, and
with clone a failed body read left the position after the length field.
---
 src/internal_helper.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index c891a42..2634799 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -176,6 +176,7 @@ Status RwSerializer::get(void* data, size_t size) {
 
 Status RwSerializer::getSb(SizedBuf& s_buf_out, bool clone) {
     Status s;
+    size_t prev_pos = pos();
     uint32_t len = getU32(s);
     s_buf_out.clear();
     if (len) {
@@ -183,11 +184,15 @@ Status RwSerializer::getSb(SizedBuf& s_buf_out, bool clone) {
             s_buf_out.alloc(len);
             s = get(s_buf_out.data, len);
             if (!s) s_buf_out.free();
+        } else if (!available(len)) {
+            s = Status::READ_VIOLATION;
         } else {
             s_buf_out.data = dstPtr + curPos;
             s_buf_out.size = len;
             pos( pos() + len );
         }
+        // Rollback.
+        if (!s) pos(prev_pos);
     }
     return s;
 }
-- 
2.43.0


From b013339b9c27a25581eb55b8a0b1e1a52aa02c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:03 +0000
Subject: [PATCH 03/18] fix: SizedBuf::cmp orders a prefix first for any length
 difference

The 32-bit signed length difference overflowed for lengths 2^31 or more
apart, so the comparison disagreed with operator< and was not transitive.
---
 include/libjungle/sized_buf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libjungle/sized_buf.h b/include/libjungle/sized_buf.h
index d849ba4..4b00a3c 100644
--- a/include/libjungle/sized_buf.h
+++ b/include/libjungle/sized_buf.h
@@ -177,7 +177,7 @@ public:
             int cmp = memcmp(l.data, r.data, len);
             if (cmp != 0) return cmp;
             else {
-                return (int)((int)l.size - (int)r.size);
+                return (l.size < r.size) ? -1 : 1;
             }
         }
     }
-- 
2.43.0


From 30fa3f2883b755be504d0ae49c663d8dab296806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:03 +0000
Subject: [PATCH 04/18] fix: SizedBuf::resize to zero bytes does not keep a
 dangling pointer

realloc(ptr, 0) frees the memory and returns NULL; the buffer kept the freed
address, its old size and its ownership, so the next access or free was
a use-after-free / double free.
---
 include/libjungle/sized_buf.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libjungle/sized_buf.h b/include/libjungle/sized_buf.h
index 4b00a3c..37e0e6d 100644
--- a/include/libjungle/sized_buf.h
+++ b/include/libjungle/sized_buf.h
@@ -405,6 +405,12 @@ public:
             return;
         }
 
+        if (_size == 0) {
+            // `realloc` with zero size frees the memory and returns NULL.
+            free();
+            return;
+        }
+
         uint8_t* new_ptr = reinterpret_cast<uint8_t*>(::realloc(data, _size));
         if (new_ptr) {
             data = new_ptr;
-- 
2.43.0


From 6219553f7afd9602c1e81fd7ba5ec2477c1b6deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:48 +0000
Subject: [PATCH 05/18] fix: empty slots of the lookup booster never match hash
 value 0

---
 src/table_lookup_booster.cc | 5 +++--
 src/table_lookup_booster.h  | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/table_lookup_booster.cc b/src/table_lookup_booster.cc
index ccc827c..c02f0bb 100644
--- a/src/table_lookup_booster.cc
+++ b/src/table_lookup_booster.cc
@@ -50,7 +50,7 @@ Status TableLookupBooster::get(uint32_t h_value, uint64_t& offset_out) {
 
     std::lock_guard<std::mutex> l( elemsLock[lock_idx] );
     Elem& existing = elems[elem_idx];
-    if (existing.hValue() == h_value) {
+    if (!existing.empty() && existing.hValue() == h_value) {
         offset_out = existing.offset();
         return Status();
     }
@@ -63,7 +63,8 @@ Status TableLookupBooster::setIfNew(const TableLookupBooster::Elem& elem) {
 
     std::lock_guard<std::mutex> l( elemsLock[lock_idx] );
     Elem& existing = elems[elem_idx];
-    if ( existing.hValue() == elem.hValue() &&
+    if ( !existing.empty() &&
+         existing.hValue() == elem.hValue() &&
          existing.seqNum() >= elem.seqNum() ) {
         return Status::ALREADY_EXIST;
     }
diff --git a/src/table_lookup_booster.h b/src/table_lookup_booster.h
index 2d71f19..b16015d 100644
--- a/src/table_lookup_booster.h
+++ b/src/table_lookup_booster.h
@@ -33,7 +33,7 @@ public:
     public:
         Elem(uint32_t h = 0,
              uint64_t s = 0,
-             uint64_t o = 0)
+             uint64_t o = NOT_INITIALIZED)
         {
             uint8_t* ptr = (uint8_t*)data;
             *((uint32_t*)(ptr +  0)) = h;
@@ -53,6 +53,10 @@ public:
             uint8_t* ptr = (uint8_t*)data;
             return *((uint64_t*)(ptr + 12));
         }
+        // `true` if nothing has been stored here.
+        inline bool empty() const {
+            return offset() == NOT_INITIALIZED;
+        }
     private:
         char data[20];
     };
-- 
2.43.0


From ba6790fc96de3e3ad00defc31ebf2673aab5e780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:48 +0000
Subject: [PATCH 06/18] fix: lookup booster always takes the same lock for the
 same slot

---
 src/table_lookup_booster.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table_lookup_booster.cc b/src/table_lookup_booster.cc
index c02f0bb..ae5eb1c 100644
--- a/src/table_lookup_booster.cc
+++ b/src/table_lookup_booster.cc
@@ -45,8 +45,8 @@ size_t TableLookupBooster::size() const {
 }
 
 Status TableLookupBooster::get(uint32_t h_value, uint64_t& offset_out) {
-    size_t lock_idx = h_value % elemsLock.size();
     size_t elem_idx = h_value % elems.size();
+    size_t lock_idx = elem_idx % elemsLock.size();
 
     std::lock_guard<std::mutex> l( elemsLock[lock_idx] );
     Elem& existing = elems[elem_idx];
@@ -58,8 +58,8 @@ Status TableLookupBooster::get(uint32_t h_value, uint64_t& offset_out) {
 }
 
 Status TableLookupBooster::setIfNew(const TableLookupBooster::Elem& elem) {
-    size_t lock_idx = elem.hValue() % elemsLock.size();
     size_t elem_idx = elem.hValue() % elems.size();
+    size_t lock_idx = elem_idx % elemsLock.size();
 
     std::lock_guard<std::mutex> l( elemsLock[lock_idx] );
     Elem& existing = elems[elem_idx];
-- 
2.43.0


From d3b96b117499b3c629b222a6568e63898e61104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:16 +0000
Subject: [PATCH 07/18] fix: direct-I/O eof does not truncate file sizes above
 2 GB

---
 src/fileops_directio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index cd6f3d3..e8a51cc 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -425,7 +425,7 @@ cs_off_t FileOpsDirectIO::eof(FileHandle* fhandle) {
     FileHandleDirectIO* phandle = getHandle(fhandle);
     if (!phandle) return -1;
     if (phandle->fd <= 0) return -1;
-    int r = ::lseek(phandle->fd, 0, SEEK_END);
+    off_t r = ::lseek(phandle->fd, 0, SEEK_END);
     if (r < 0) {
         int n = errno;
         _log_err(myLog,
-- 
2.43.0


From 86cdeef596d4cc28dd683c0d8537172980b30e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:16 +0000
Subject: [PATCH 08/18] fix: direct-I/O read buffer fits the instance that
 reads

---
 src/fileops_directio.cc | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index e8a51cc..8a453d1 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -73,7 +73,7 @@ public:
 };
 
 struct AlignedMemoryHolder {
-    explicit AlignedMemoryHolder(void* _bufPtr) : bufPtr(_bufPtr) {}
+    AlignedMemoryHolder() : bufPtr(nullptr), bufSize(0), alignSize(0) {}
     ~AlignedMemoryHolder() {
         if (bufPtr) {
             free(bufPtr);
@@ -81,6 +81,8 @@ struct AlignedMemoryHolder {
         }
     }
     void* bufPtr;
+    size_t bufSize;
+    size_t alignSize;
 };
 
 static FileHandleDirectIO* getHandle(FileHandle* fhandle) {
@@ -287,16 +289,23 @@ Status FileOpsDirectIO::pread(FileHandle* fhandle,
     auto file_size = static_cast<size_t>(file_size_tmp);
     if (offset + count > file_size) return Status::FILE_SIZE_MISMATCH;
 
-    // Aligned buffer to direct read
-    thread_local void* aligned_buf = nullptr;
-    thread_local Status aligned_buf_status = allocAlignedBuf(&aligned_buf);
-    thread_local auto* aligned_buf_char = static_cast<uint8_t*>(aligned_buf);
-    if (!aligned_buf_status) return aligned_buf_status;
-    assert(aligned_buf != nullptr && aligned_buf_char != nullptr);
-    thread_local AlignedMemoryHolder buf_holder(aligned_buf);
-    (void) buf_holder;
-
+    // Aligned buffer to direct read, shared by all instances used by this
+    // thread. Reallocate it if it does not fit the setting of this instance.
+    thread_local AlignedMemoryHolder buf_holder;
     Status s;
+    if ( !buf_holder.bufPtr ||
+         buf_holder.bufSize < bufferSize ||
+         buf_holder.alignSize % alignSize != 0 ) {
+        void* new_buf = nullptr;
+        EP(allocAlignedBuf(&new_buf));
+        if (buf_holder.bufPtr) free(buf_holder.bufPtr);
+        buf_holder.bufPtr = new_buf;
+        buf_holder.bufSize = bufferSize;
+        buf_holder.alignSize = alignSize;
+    }
+    void* aligned_buf = buf_holder.bufPtr;
+    auto* aligned_buf_char = static_cast<uint8_t*>(aligned_buf);
+
     size_t aligned_file_offset = offset;
     size_t need_align = offset % alignSize;
     if (need_align > 0) {
-- 
2.43.0


From e3fba8653193a5597d3f992d29bb26d380669649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:16 +0000
Subject: [PATCH 09/18] fix: fsync after direct-I/O truncation is not skipped

---
 src/fileops_directio.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index 8a453d1..606f4c2 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -567,6 +567,9 @@ Status FileOpsDirectIO::ftruncate(FileHandle* fhandle,
         return Status::ERROR;
     }
 
+    // Data written below the old synced position needs to be synced again
+    phandle->fsyncedFilePos = 0;
+
     // Set the aligned write buffer
     if (aligned_length == length) {
         phandle->filePos = aligned_length;
-- 
2.43.0


From 6650fa7abf0531814d7c69b356a7852be24d39f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:46:14 +0000
Subject: [PATCH 10/18] fix: backup and restore report failed truncation, sync
 and size query

---
 src/internal_helper.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index 2634799..c20162d 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -290,15 +290,18 @@ Status BackupRestore::copyFile(FileOps* f_ops,
     TC(f_ops->open(&s_file, src_file));
     TC(f_ops->open(&d_file, dst_file));
 
-    size_t file_size = f_ops->eof(s_file);
+    cs_off_t file_size = f_ops->eof(s_file);
+    if (file_size < 0) throw Status(Status::ERROR);
     SizedBuf tmp_buf(file_size);
     SizedBuf::Holder h_tmp_buf(tmp_buf);
+    // Length of `SizedBuf` is 32 bits.
+    if (tmp_buf.size != (size_t)file_size) throw Status(Status::ALLOCATION_FAILURE);
 
     TC( f_ops->pread(s_file, tmp_buf.data, tmp_buf.size, 0) );
     TC( f_ops->pwrite(d_file, tmp_buf.data, tmp_buf.size, 0) );
-    f_ops->ftruncate(d_file, file_size);
+    TC( f_ops->ftruncate(d_file, file_size) );
     if (call_fsync) {
-        f_ops->fsync(d_file);
+        TC( f_ops->fsync(d_file) );
     }
 
     f_ops->close(s_file);
@@ -348,9 +351,9 @@ Status BackupRestore::backup(FileOps* f_ops,
                            length - bytes_to_skip,
                            bytes_to_skip ) );
     }
-    f_ops->ftruncate(d_file, length);
+    TC( f_ops->ftruncate(d_file, length) );
     if (call_fsync) {
-        f_ops->fsync(d_file);
+        TC( f_ops->fsync(d_file) );
     }
     f_ops->close(d_file);
     delete d_file;
@@ -389,19 +392,20 @@ Status BackupRestore::backup(FileOps* f_ops,
         TC( f_ops->open(file, dst_file) );
     }
 
-    size_t file_size = f_ops->eof(*file);
+    cs_off_t file_size = f_ops->eof(*file);
+    if (file_size < 0) throw Status(Status::ERROR);
     if (length > bytes_to_skip) {
         TC( f_ops->pwrite( *file,
                         ctx.data + bytes_to_skip,
                         length - bytes_to_skip,
                         bytes_to_skip ) );
     }
-    if (file_size > length) {
-        f_ops->ftruncate(*file, length);
+    if ((size_t)file_size > length) {
+        TC( f_ops->ftruncate(*file, length) );
     }
 
     if (call_fsync) {
-        f_ops->fsync(*file);
+        TC( f_ops->fsync(*file) );
     }
     return s;
    } catch (Status s) {
-- 
2.43.0


From 57ea1f3dd141e2825d5b7f91b0b3657d2f18d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:48:14 +0000
Subject: [PATCH 11/18] fix: partial backup writes everything when the backup
 file lacks the skipped part

---
 src/internal_helper.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index c20162d..0a23fab 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -345,6 +345,11 @@ Status BackupRestore::backup(FileOps* f_ops,
 
    try {
     TC( f_ops->open(&d_file, dst_file) );
+    cs_off_t file_size = f_ops->eof(d_file);
+    if (file_size < 0) throw Status(Status::ERROR);
+    // Nothing can be skipped if backup file does not have that part
+    // (e.g., newly created).
+    if ((size_t)file_size < bytes_to_skip) bytes_to_skip = 0;
     if (length > bytes_to_skip) {
         TC( f_ops->pwrite( d_file,
                            ctx.data + bytes_to_skip,
@@ -394,6 +399,9 @@ Status BackupRestore::backup(FileOps* f_ops,
 
     cs_off_t file_size = f_ops->eof(*file);
     if (file_size < 0) throw Status(Status::ERROR);
+    // Nothing can be skipped if backup file does not have that part
+    // (e.g., newly created).
+    if ((size_t)file_size < bytes_to_skip) bytes_to_skip = 0;
     if (length > bytes_to_skip) {
         TC( f_ops->pwrite( *file,
                         ctx.data + bytes_to_skip,
-- 
2.43.0


From 2cbf07b95919b7f63b17c83449cd3af05346afea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:04:49 +0000
Subject: [PATCH 12/18] fix: release the lock of an element refused by
 skiplist_insert_nodup

When skiplist_insert_nodup() finds an equal key it returned without
releasing the write lock taken on the new node. The node stayed locked
for ever: skiplist_is_safe_to_free() never became true and inserting the
same node again spun for ever.
---
 src/skiplist.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 0b765cf..cf9679e 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -464,6 +464,7 @@ insert_retry:
                 // Duplicate key is not allowed.
                 _sl_clr_flags(prevs, cur_layer+1, top_layer);
                 ATM_FETCH_SUB(cur_node->ref_count, 1);
+                _sl_write_unlock_an(node);
                 return -1;
             }
 
-- 
2.43.0


From 70b9816d476e9d3f63d13e984f31343a235391dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:02:54 +0000
Subject: [PATCH 13/18] fix: a key whose versions were all discarded has no
 minimum sequence number

---
 src/memtable.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 10c2195..1fd02db 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -106,8 +106,8 @@ uint64_t MemTable::RecNode::getMinSeq() {
     mGuard l(recListLock);
     auto entry = recList->begin();
     if (entry == recList->end()) {
-        // Shouldn't happen.
-        assert(0);
+        // All records have been discarded.
+        return NOT_INITIALIZED;
     }
     Record* rec = *entry;
     return rec->seqNum;
-- 
2.43.0


From 75ba214ab659fd7723c15370a004c4e3a1a1c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:02:54 +0000
Subject: [PATCH 14/18] fix: prefix search skips keys that are not visible
 instead of ending there

---
 src/memtable.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 1fd02db..6eddf89 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -720,14 +720,15 @@ Status MemTable::getRecordsByPrefix(const uint64_t chk,
 
     while ( is_prefix_match(node->key) ) {
         Record* rec_ret = node->getLatestRecord(NOT_INITIALIZED, chk);
-        if (!rec_ret) {
-            skiplist_release_node(&node->snode);
-            return Status::KEY_NOT_FOUND;
-        }
-
         bool found = true;
         // Dummy loop to use `break`.
         do {
+            if (!rec_ret) {
+                // Not visible to this snapshot, go to the next matching key.
+                found = false;
+                break;
+            }
+
             if ( valid_number(flushedSeqNum) &&
                  rec_ret->seqNum <= flushedSeqNum ) {
                 // Already purged KV pair, go to the next matching key.
-- 
2.43.0


From 4028d5e48d5f1aebbadcc3aaf8c7bcb213370af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:28 +0000
Subject: [PATCH 15/18] fix: a checkpoint marker is not written into the middle
 of a log record

---
 src/memtable.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 6eddf89..568cb42 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1434,7 +1434,8 @@ Status MemTable::flush(RwSerializer& rws, uint64_t upto, uint64_t& flushed_seq_o
              entry != checkpoints.rend() &&
              valid_number(syncedSeqNum) &&
              *entry == syncedSeqNum ) {
-            TC( appendCheckpointMarker(rws, syncedSeqNum) );
+            // Should not be ahead of the data remaining in the buffer.
+            TC( appendCheckpointMarker(ss_tmp_buf, syncedSeqNum) );
         }
         checkpointsDirty = false;
     }
-- 
2.43.0


From bc1f2c69c8225a28774cd8746e6dc12acd32ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:28 +0000
Subject: [PATCH 16/18] fix: log flush buffer is not overflowed by records
 above 4 GB or expanded by compression

---
 src/memtable.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 568cb42..9291f72 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1383,7 +1383,9 @@ Status MemTable::flush(RwSerializer& rws, uint64_t upto, uint64_t& flushed_seq_o
         crc_data = crc32_8(value_ref.data, value_ref.size, crc_data);
         TC( ss_tmp_buf.putU32(crc_data) );
 
-        size_t data_len = rec->kv.key.size + rec->kv.value.size + rec->meta.size;
+        // Should be 64-bit, and based on the actual value data to write.
+        size_t data_len = (size_t)rec->kv.key.size + rec->meta.size +
+                          value_ref.size;
         if (data_len >= PAGE_LIMIT) {
             // Data itself is bigger than a page, flush and bypass buffer.
             TC( rws.put(tmp_buf.data, ss_tmp_buf.pos()) );
-- 
2.43.0


From d93f2c6bae4ff51db8b42c0437790d630427d43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:28 +0000
Subject: [PATCH 17/18] fix: log scan does not step over the end of file by
 32-bit overflow of lengths

---
 src/memtable.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 9291f72..9f362a4 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1160,7 +1160,8 @@ Status MemTable::findOffsetOfSeq(SimpleLogger* logger,
             (void)crc_data;
 
             // Skip.
-            if (!rws.available(k_size + m_size + v_size)) {
+            const size_t data_size = (size_t)k_size + m_size + v_size;
+            if (!rws.available(data_size)) {
                 s = Status::INCOMPLETE_LOG;
                 m = "not enough bytes for content of record";
                 break;
-- 
2.43.0


From 07cc2c8074d6c5171f8ae4db30683f1aa433930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:28 +0000
Subject: [PATCH 18/18] fix: a failed read of a log file is reported instead of
 parsing the unread buffer

---
 src/log_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index e41e98b..ec29e92 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -230,7 +230,7 @@ Status LogFile::loadMemTable() {
     SizedBuf read_buf(fileSize);
     SizedBuf::Holder h_read_buf(read_buf);
 
-    fOps->pread(fHandle, read_buf.data, read_buf.size, 0);
+    EP( fOps->pread(fHandle, read_buf.data, read_buf.size, 0) );
 
     uint8_t footer_file[8];
     RwSerializer ss(read_buf);
-- 
2.43.0

