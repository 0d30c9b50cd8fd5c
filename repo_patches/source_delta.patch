From 0c2ba126e3c204de4f8f688ed2864952b9794101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 01/55] fix: RSCAN walks over index files which contain no
 entry

---
 libzdb/index_scan.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libzdb/index_scan.c b/libzdb/index_scan.c
index e3480d0..c24cca6 100644
--- a/libzdb/index_scan.c
+++ b/libzdb/index_scan.c
@@ -75,6 +75,13 @@ void __ditry_seqmode_fix(index_item_t *source, off_t original) {
         source->previous = 1;
 }
 
+// when an index file was closed before anything was written on it, it only
+// contains its header: walking backward goes through it, offsets are related
+// to the last file which contains something
+static int index_scan_empty_file(index_scan_t *scan) {
+    return lseek(scan->fd, 0, SEEK_END) <= (off_t) sizeof(index_header_t);
+}
+
 // RSCAN implementation
 static index_scan_t index_previous_header_real(index_scan_t scan) {
     index_item_t source;
@@ -131,6 +138,10 @@ static index_scan_t index_previous_header_real(index_scan_t scan) {
     }
     #endif
 
+    // nothing in that file, the expected entry is in an older one
+    if(index_scan_empty_file(&scan))
+        return index_scan_error(scan, INDEX_SCAN_REQUEST_PREVIOUS);
+
     // jumping to previous object
     lseek(scan.fd, scan.target, SEEK_SET);
 
@@ -440,6 +451,10 @@ static index_scan_t index_last_header_real(index_scan_t scan) {
         return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
     }
 
+    // nothing in that file, the expected entry is in an older one
+    if(index_scan_empty_file(&scan))
+        return index_scan_error(scan, INDEX_SCAN_REQUEST_PREVIOUS);
+
     // special dirty-fix case, please see __ditry_seqmode_fix function
     if(scan.target == 1) {
         // forcing last entry position
-- 
2.43.0


From 2a5a53cf7d18fb5b62edb35d90679a88b704fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 02/55] fix: store the data file id of inserted entries in the
 index

---
 libzdb/api.c        | 2 ++
 zdbd/commands_set.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index e5bf558..382dda3 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -151,6 +151,7 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
         .offset = offset,
         .length = psize,
         .crc = dreq.crc,
+        .dataid = ns->data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
@@ -232,6 +233,7 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
         .offset = offset,
         .length = psize,
         .crc = dreq.crc,
+        .dataid = ns->data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index 90ff943..a293264 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -138,7 +138,7 @@ static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *e
         .offset = offset,
         .length = request->argv[2]->length,
         .crc = dreq.crc,
-        // .dataid = data->dataid,
+        .dataid = data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
-- 
2.43.0


From b7aace16795b31dc6b52f8717b5669fcd230ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 03/55] fix: sequential lookup checks that the entry found is
 the id requested

---
 libzdb/index_get.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libzdb/index_get.c b/libzdb/index_get.c
index 42adfda..9d86191 100644
--- a/libzdb/index_get.c
+++ b/libzdb/index_get.c
@@ -28,8 +28,8 @@ static index_entry_t *index_get_handler_sequential(index_root_t *index, void *id
     index_seqmap_t *seqmap = index_fileid_from_seq(index, key);
 
     // resolving relative offset
-    uint32_t relative = key - seqmap->seqid;
-    uint32_t offset = index_seq_offset(relative);
+    uint64_t relative = key - seqmap->seqid;
+    size_t offset = index_seq_offset(relative);
 
     // reading index on disk
     index_item_t *item;
@@ -37,6 +37,14 @@ static index_entry_t *index_get_handler_sequential(index_root_t *index, void *id
     if(!(item = index_item_get_disk(index, seqmap->fileid, offset, sizeof(seqid_t))))
         return NULL;
 
+    // ensure the entry found is the one requested, an id never generated
+    // can be resolved to any location on the file
+    if(item->idlength != sizeof(seqid_t) || memcmp(item->id, id, sizeof(seqid_t))) {
+        zdb_debug("[-] index: sequential get: id mismatch, unknown key\n");
+        free(item);
+        return NULL;
+    }
+
     memcpy(index_reusable_entry->id, item->id, item->idlength);
     index_reusable_entry->idlength = item->idlength;
     index_reusable_entry->offset = item->offset;
-- 
2.43.0


From e1193b0c276d7d897c1f4c7bc4f4c0289c10a642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:16 +0000
Subject: [PATCH 04/55] fix: map sequential ids of the current file when
 previous one is empty

---
 libzdb/index_loader.c | 25 ++++++++++++-------------
 libzdb/index_seq.c    |  7 +++++++
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 2cfd371..306fd53 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -298,8 +298,7 @@ static size_t index_load_file(index_root_t *root) {
         zdb_diep("index buffer: read");
 
     // positioning seeker to beginin of index entries
-    char *initseeker = filebuf + sizeof(index_header_t);
-    char *seeker = initseeker;
+    char *seeker = filebuf + sizeof(index_header_t);
 
     // reading the index, populating memory
     //
@@ -314,6 +313,17 @@ static size_t index_load_file(index_root_t *root) {
     // this file, starting from zero
     root->nextid = 0;
 
+    // checking if we are in sequential mode, we need to populate
+    // our mapping with the first key of this file (which can be the
+    // next key to insert, if the file contains nothing yet)
+    //
+    // the set operation will update 'nextentry' counter
+    // we need to update seqid before inserting key
+    if(root->seqid) {
+        index_seqid_push(root, root->nextentry, root->indexid);
+        // index_seqid_dump(root);
+    }
+
     while(seeker < filebuf + fullsize) {
         index_entry_t *fresh = NULL;
 
@@ -337,17 +347,6 @@ static size_t index_load_file(index_root_t *root) {
             .parentoff = entry->parentoff,
         };
 
-        // checking if we are in sequential mode
-        // and this if the first key, we need to populate
-        // our mapping with this key
-        //
-        // the set operation will update 'nextentry' counter
-        // we need to update seqid before inserting key
-        if(root->seqid && seeker == initseeker) {
-            index_seqid_push(root, root->nextentry, root->indexid);
-            // index_seqid_dump(root);
-        }
-
         // insert this entry like it was inserted by a user
         // this allows us to keep a generic way of inserting data and keeping a
         // single point of logic when adding data (logic for overwrite, resize bucket, ...)
diff --git a/libzdb/index_seq.c b/libzdb/index_seq.c
index 9226bb0..0149f94 100644
--- a/libzdb/index_seq.c
+++ b/libzdb/index_seq.c
@@ -50,6 +50,13 @@ index_seqmap_t *index_fileid_from_seq(index_root_t *root, seqid_t seqid) {
 void index_seqid_push(index_root_t *root, seqid_t id, fileid_t indexid) {
     zdb_debug("[+] index seq: mapping id %" PRIu64 " to file %u\n", id, indexid);
 
+    // nothing was inserted on the last mapped file, that id
+    // will be stored on the new file
+    if(root->seqid->length > 0 && root->seqid->seqmap[root->seqid->length - 1].seqid == id) {
+        root->seqid->seqmap[root->seqid->length - 1].fileid = indexid;
+        return;
+    }
+
     if(root->seqid->length + 1 == root->seqid->allocated) {
         // growing up the vector
         root->seqid->allocated += 1024;
-- 
2.43.0


From a777613c7cfd18d6f4e9b28fa44ce64d11e1877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 05/55] fix: key update keeps the previous entry until the new
 one is written

---
 libzdb/index.c     | 10 +++++-----
 libzdb/index_set.c | 30 ++++++++++++++++++++++--------
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index 56a325b..b760738 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -539,10 +539,6 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     // compute this object size on disk
     size_t entrylength = sizeof(index_item_t) + entry->idlength;
 
-    // mark entry as deleted
-    // this affect the memory object (runtime)
-    entry->flags |= INDEX_ENTRY_DELETED;
-
     // (re-)open the expected index file, in read-write mode
     if((fd = index_open_file_readwrite(root, entry->indexid)) < 0)
         return 1;
@@ -561,7 +557,7 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     index_item_header_dump(index_transition);
 
     // update the flags
-    index_transition->flags = entry->flags;
+    index_transition->flags = entry->flags | INDEX_ENTRY_DELETED;
 
     // rollback to point to the entry again
     zdb_debug("[+] index: delete: overwriting key\n");
@@ -582,6 +578,10 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
 
     close(fd);
 
+    // mark entry as deleted
+    // this affect the memory object (runtime)
+    entry->flags |= INDEX_ENTRY_DELETED;
+
     // flag index entry as dirty, it was just modified
     index_dirty_set(root, entry->indexid, 1);
 
diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index 70f492d..ac3b21d 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -147,19 +147,21 @@ int index_append_entry_on_disk(index_root_t *root, index_set_t *set) {
 
     index_item_t *item = index_item_from_set(root, set);
 
-    // updating global previous
-    root->previous = curoffset;
-
     // writing data on the disk
     if(!index_write(root->indexfd, item, entrylength, root)) {
         zdb_verbosep("index_append_entry_on_disk", "cannot write index entry on disk");
 
-        // it's easier to flag the entry as deleted than
-        // removing it from the list
-        entry->flags |= INDEX_ENTRY_DELETED;
+        // discard what was maybe partially written, otherwise next
+        // entry would be appended after an incomplete one
+        if(ftruncate(root->indexfd, curoffset) < 0)
+            zdb_warnp("index_append_entry_on_disk: ftruncate");
+
         return 1;
     }
 
+    // updating global previous
+    root->previous = curoffset;
+
     return 0;
 }
 
@@ -302,8 +304,9 @@ index_entry_t *index_update_memory_handler_sequential(index_root_t *root, index_
 
 // public disk and memory part
 index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, index_entry_t *previous) {
-    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
-    index_entry_delete_disk(root, previous);
+    // keep previous state, this entry will be replaced in memory
+    index_entry_t original = *previous;
+    size_t datasize = root->stats.datasize;
 
     // update memory state
     index_entry_t *entry = index_update_memory_handler_memkey(root, set, previous);
@@ -316,9 +319,20 @@ index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, i
     // append the data on the disk
     if(index_append_entry_on_disk(root, &updated)) {
         zdb_debug("[-] index: update entry failed: could not write on disk\n");
+
+        // nothing changed on disk, restoring previous state
+        original.next = entry->next;
+        *entry = original;
+        root->stats.datasize = datasize;
+
         return NULL;
     }
 
+    // previous entry is only flagged when new one is there: if we are
+    // interrupted between, the key is still available
+    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
+    index_entry_delete_disk(root, &original);
+
     return entry;
 }
 
-- 
2.43.0


From 0ba8aadf13f5be8c1c8468c3a378ef00fe600fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 06/55] fix: flag entries replaced by an interrupted update
 while loading index

---
 libzdb/index_loader.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 306fd53..4aa0a0f 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -347,6 +347,17 @@ static size_t index_load_file(index_root_t *root) {
             .parentoff = entry->parentoff,
         };
 
+        // an entry replaced by a newer one is always flagged as deleted on disk,
+        // except if an update was interrupted just before, doing it now
+        if(root->mode == ZDB_MODE_KEY_VALUE && !(root->status & INDEX_READ_ONLY)) {
+            index_entry_t *existing = index_get(root, entry->id, entry->idlength);
+
+            if(existing) {
+                index_entry_t replaced = *existing;
+                index_entry_delete_disk(root, &replaced);
+            }
+        }
+
         // insert this entry like it was inserted by a user
         // this allows us to keep a generic way of inserting data and keeping a
         // single point of logic when adding data (logic for overwrite, resize bucket, ...)
-- 
2.43.0


From 3c7db7010bb7280dbf10e4f6ac64a6a944004648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 07/55] fix: discard an incomplete entry at the end of an index
 file

---
 libzdb/index_loader.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 4aa0a0f..12b352d 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -329,6 +329,20 @@ static size_t index_load_file(index_root_t *root) {
 
         entry = (index_item_t *) seeker;
         off_t offset = seeker - filebuf;
+        size_t remain = fullsize - offset;
+
+        // last entry was not completly written, this was never acknowledged,
+        // discarding it, next entry will be written at the right place
+        if(remain < sizeof(index_item_t) || remain < sizeof(index_item_t) + entry->idlength) {
+            zdb_danger("[-] %s: incomplete entry found, discarding", root->indexfile);
+
+            if(!(root->status & INDEX_READ_ONLY)) {
+                if(ftruncate(root->indexfd, offset) < 0)
+                    zdb_diep(root->indexfile);
+            }
+
+            break;
+        }
 
         // create a gateway struct to fill our index memory
         // this is not nice (lot of copy) but make things more
-- 
2.43.0


From 385596485159ed55d209f8a3f421af6e33696e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 08/55] fix: initialize an index file left empty by an
 interrupted rotation

---
 libzdb/index_loader.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 12b352d..878f7e4 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -215,10 +215,10 @@ static size_t index_load_file(index_root_t *root) {
         // we could not read anything, which basicly means that
         // the file is empty, we probably just created it
         //
-        // if the current indexid is not zero, this is probably
-        // a new file not expected, otherwise if index is zero,
-        // this is the initial index file we need to create
-        if(root->indexid > 0) {
+        // if the current indexid is not zero, we were interrupted
+        // before initializing that new file, there is nothing to load
+        // and we cannot initialize it in read-only mode
+        if(root->indexid > 0 && (root->status & INDEX_READ_ONLY)) {
             zdb_verbose("[+] index: discarding file\n");
             close(root->indexfd);
             return 0;
-- 
2.43.0


From e5419d8ee29733d5765a3369f9daa7db9e3a9906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 09/55] fix: refused updates leave the index as it was

---
 libzdb/index_set.c | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index ac3b21d..fe58bf3 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -307,6 +307,7 @@ index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, i
     // keep previous state, this entry will be replaced in memory
     index_entry_t original = *previous;
     size_t datasize = root->stats.datasize;
+    size_t lastoffset = root->previous;
 
     // update memory state
     index_entry_t *entry = index_update_memory_handler_memkey(root, set, previous);
@@ -317,23 +318,27 @@ index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, i
     };
 
     // append the data on the disk
-    if(index_append_entry_on_disk(root, &updated)) {
-        zdb_debug("[-] index: update entry failed: could not write on disk\n");
-
-        // nothing changed on disk, restoring previous state
-        original.next = entry->next;
-        *entry = original;
-        root->stats.datasize = datasize;
-
-        return NULL;
+    if(index_append_entry_on_disk(root, &updated) == 0) {
+        // previous entry is only flagged when new one is there: if we are
+        // interrupted between, the key is still available
+        zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
+        if(index_entry_delete_disk(root, &original) == 0)
+            return entry;
+
+        // previous entry is still the valid one, removing the new one
+        if(ftruncate(root->indexfd, entry->idxoffset) < 0)
+            zdb_warnp("index_update_entry_memkey: ftruncate");
     }
 
-    // previous entry is only flagged when new one is there: if we are
-    // interrupted between, the key is still available
-    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
-    index_entry_delete_disk(root, &original);
+    zdb_debug("[-] index: update entry failed: could not write on disk\n");
 
-    return entry;
+    // nothing changed on disk, restoring previous state
+    original.next = entry->next;
+    *entry = original;
+    root->stats.datasize = datasize;
+    root->previous = lastoffset;
+
+    return NULL;
 }
 
 index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *set, index_entry_t *previous) {
@@ -343,6 +348,7 @@ index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *se
     // this will add a *new* entry on the index file, and we will use this
     // as reference to update the first one, to keep history and so one
     previous->flags |= INDEX_ENTRY_DELETED;
+    size_t lastoffset = root->previous;
 
     index_set_t updated = {
         .entry = previous,
@@ -358,7 +364,17 @@ index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *se
     // with the latest data (the new one, basicly)
     set->entry->parentid = root->indexid;
     set->entry->parentoff = previous->idxoffset;
-    index_seq_overwrite(root, set);
+
+    if(index_seq_overwrite(root, set)) {
+        zdb_debug("[-] index: update entry failed: could not overwrite on disk\n");
+
+        // original entry was not updated, removing the duplicate
+        if(ftruncate(root->indexfd, previous->idxoffset) < 0)
+            zdb_warnp("index_update_entry_sequential: ftruncate");
+
+        root->previous = lastoffset;
+        return NULL;
+    }
 
     // since we added a new entry on the index, the next id needs
     // to be incremented to skip this position in the futur
-- 
2.43.0


From 6eb4e1f474391ca603b6a1a986187474bc6b2257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 10/55] fix: discard partially written data entries

---
 libzdb/data.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libzdb/data.c b/libzdb/data.c
index 7e7aac3..391c001 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -588,6 +588,12 @@ int data_check(data_root_t *root, size_t offset, fileid_t dataid) {
 }
 
 
+// discard an entry partially written, otherwise next entries would be
+// appended after an incomplete one and the datafile could not be walked anymore
+static void data_insert_rollback(data_root_t *root, size_t offset) {
+    if(ftruncate(root->datafd, offset) < 0)
+        zdb_warnp("data_insert: ftruncate");
+}
 
 // insert data to the datafile and return it's offset
 // size_t data_insert(data_root_t *root, unsigned char *data, uint32_t datalength, void *vid, uint8_t idlength, uint8_t flags, uint32_t crc) {
@@ -614,6 +620,7 @@ size_t data_insert(data_root_t *root, data_request_t *source) {
 
     if(!data_write(root->datafd, header, headerlength, 0, root)) {
         zdb_verbose("[-] data header: write failed\n");
+        data_insert_rollback(root, offset);
         free(header);
         return 0;
     }
@@ -622,6 +629,7 @@ size_t data_insert(data_root_t *root, data_request_t *source) {
 
     if(!data_write(root->datafd, source->data, source->datalength, 1, root)) {
         zdb_verbose("[-] data payload: write failed\n");
+        data_insert_rollback(root, offset);
         return 0;
     }
 
-- 
2.43.0


From d0f8be7c2d0952637da8ae85b5161520ceee663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 11/55] fix: refuse a cursor which doesn't match the id length
 of the entry

---
 libzdb/index.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index b760738..e7e057d 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -644,7 +644,9 @@ index_entry_t *index_entry_deserialize(index_root_t *root, index_bkey_t *key) {
     zdb_debug("[+] index: deserialize: length %u <> %u\n", item->length, key->length);
     zdb_debug("[+] index: deserialize: crc %08x <> %08x\n", item->crc, key->crc);
 
-    if(item->length != key->length || item->crc != key->crc) {
+    // length of the id read from disk needs to match what was requested, only that
+    // amount of bytes were read
+    if(item->idlength != key->idlength || item->length != key->length || item->crc != key->crc) {
         zdb_debug("[-] index: deserialize: invalid key requested (fields mismatch)\n");
         free(item);
         return NULL;
-- 
2.43.0


From b359020b06eba73211d762761178e67a6b9f9162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 12/55] fix: cursors of sequential entries stay valid when the
 entry is updated

---
 libzdb/index.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index e7e057d..69314b4 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -646,7 +646,21 @@ index_entry_t *index_entry_deserialize(index_root_t *root, index_bkey_t *key) {
 
     // length of the id read from disk needs to match what was requested, only that
     // amount of bytes were read
-    if(item->idlength != key->idlength || item->length != key->length || item->crc != key->crc) {
+    int valid = (item->idlength == key->idlength);
+
+    if(root->mode == ZDB_MODE_KEY_VALUE) {
+        valid = valid && item->length == key->length && item->crc == key->crc;
+
+    } else {
+        // sequential entries are updated in place, the payload can be another one since
+        // the key was serialized but location of entries is always the same
+        size_t entrylength = sizeof(index_item_t) + sizeof(seqid_t);
+
+        valid = valid && key->idxoffset >= sizeof(index_header_t);
+        valid = valid && (key->idxoffset - sizeof(index_header_t)) % entrylength == 0;
+    }
+
+    if(!valid) {
         zdb_debug("[-] index: deserialize: invalid key requested (fields mismatch)\n");
         free(item);
         return NULL;
-- 
2.43.0


From f2b7cc8d7b52b294b35e7aee1f8766c711c9c5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 13/55] fix: history refuses cursors of longer keys and keys
 over the length limit

---
 libzdb/data.c           |  6 +++++-
 zdbd/commands_history.c | 16 ++++++++++++++--
 zdbd/commands_scan.c    |  6 ++++++
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index 391c001..dee8c26 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -486,7 +486,11 @@ static inline data_payload_t data_get_real(int fd, size_t offset, size_t length,
 
     // allocating buffer from length
     // (from index or data header, we don't care)
-    payload.buffer = malloc(length);
+    if(!(payload.buffer = malloc(length))) {
+        zdb_warnp("data_get: malloc");
+        return payload;
+    }
+
     payload.length = length;
 
     if(read(fd, payload.buffer, length) != (ssize_t) length) {
diff --git a/zdbd/commands_history.c b/zdbd/commands_history.c
index d6f3fc8..8d9bf30 100644
--- a/zdbd/commands_history.c
+++ b/zdbd/commands_history.c
@@ -110,7 +110,7 @@ int history_send(redis_client_t *client, index_item_t *item, index_ekey_t *ekey)
     if(!response.payload.buffer) {
         zdb_log("[-] command: history: cannot read payload\n");
         redis_hardsend(client, "-Internal Error");
-        free(response.payload.buffer);
+        free(item);
         return 0;
     }
 
@@ -152,6 +152,12 @@ int command_history(redis_client_t *client) {
         return 1;
     }
 
+    if(client->request->argv[1]->length > MAX_KEY_LENGTH) {
+        zdbd_debug("[-] command: history: invalid key size (too big)\n");
+        redis_hardsend(client, "-Invalid key");
+        return 1;
+    }
+
     if(namespace_is_frozen(client->ns))
         return command_error_frozen(client);
 
@@ -178,6 +184,12 @@ int command_history(redis_client_t *client) {
 
         index_item_t *item = index_item_get_disk(index, entry->indexid, entry->idxoffset, entry->idlength);
 
+        if(!item) {
+            zdbd_debug("[-] command: history: cannot read index entry\n");
+            redis_hardsend(client, "-Internal Error");
+            return 1;
+        }
+
         return history_send(client, item, &ekey);
     }
 
@@ -211,7 +223,7 @@ int command_history(redis_client_t *client) {
         return 1;
     }
 
-    if(memcmp(userkey, item->id, idlength)) {
+    if(item->idlength != idlength || memcmp(userkey, item->id, idlength)) {
         zdbd_debug("[-] command: history: key mismatch from user and index, denied\n");
         free(item);
         redis_hardsend(client, "-Invalid arguments (invalid key)");
diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 311cbc7..0dfd614 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -339,6 +339,12 @@ int command_keycur(redis_client_t *client) {
     if(!command_args_validate(client, 2))
         return 1;
 
+    if(request->argv[1]->length > MAX_KEY_LENGTH) {
+        zdbd_debug("[-] command: keycur: invalid key size (too big)\n");
+        redis_hardsend(client, "-Invalid key");
+        return 1;
+    }
+
     if(namespace_is_frozen(client->ns))
         return command_error_frozen(client);
 
-- 
2.43.0


From 9009927ab0b5b96c3d1d50b6d257303ce94f81b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 14/55] fix: flush removes the payload files of the namespace

---
 libzdb/filesystem.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libzdb/filesystem.c b/libzdb/filesystem.c
index 7190c62..6c64a2b 100644
--- a/libzdb/filesystem.c
+++ b/libzdb/filesystem.c
@@ -72,20 +72,20 @@ int zdb_dir_remove(char *path) {
 
 static int dir_clean_cb(const char *fpath, const struct stat *sb, int tflag, struct FTW *ftwbuf) {
     (void) sb;
-    (void) ftwbuf;
-    (void) tflag;
-    char *fullpath = (char *) fpath;
-    size_t length = strlen(fullpath);
+    const char *name = fpath + ftwbuf->base;
 
-    if(strncmp(fullpath + length - 14, "zdb-data-", 9) == 0) {
-        zdb_debug("[+] filesystem: removing datafile: %s\n", fullpath);
-        unlink(fullpath);
-    }
+    if(tflag != FTW_F)
+        return 0;
 
-    if(strncmp(fullpath + length - 15, "zdb-index-", 10) == 0) {
-        zdb_debug("[+] filesystem: removing indexfile: %s\n", fullpath);
-        unlink(fullpath);
-    }
+    // payload files are named by their type followed by their id (eg: d0, i12)
+    if((name[0] != 'd' && name[0] != 'i') || name[1] == '\0')
+        return 0;
+
+    if(strspn(name + 1, "0123456789") != strlen(name + 1))
+        return 0;
+
+    zdb_debug("[+] filesystem: removing payload file: %s\n", fpath);
+    unlink(fpath);
 
     return 0;
 }
-- 
2.43.0


From b7e172618ef502986f0a305c21ba258bf073c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 15/55] fix: commands are matched by their full name

---
 zdbd/commands.c           | 12 ++++++++++--
 zdbd/commands.h           |  3 +++
 zdbd/commands_auth.c      |  4 ++--
 zdbd/commands_namespace.c |  2 +-
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/zdbd/commands.c b/zdbd/commands.c
index f20a994..f719fe4 100644
--- a/zdbd/commands.c
+++ b/zdbd/commands.c
@@ -105,6 +105,14 @@ int command_args_namespace(redis_client_t *client, int argidx) {
     return 1;
 }
 
+// check if an argument is exactly the expected word (case insensitive)
+int command_args_match(resp_object_t *argument, char *expected) {
+    if(argument->length != (int) strlen(expected))
+        return 0;
+
+    return (strncasecmp(argument->buffer, expected, argument->length) == 0);
+}
+
 // command parser
 // dispatch command to the right handler
 
@@ -184,7 +192,7 @@ int redis_dispatcher(redis_client_t *client) {
     zdbd_debug("[+] command: '%.*s' [+%d args]\n", key->length, (char *) key->buffer, request->argc - 1);
 
     for(unsigned int i = 0; i < sizeof(commands_handlers) / sizeof(command_t); i++) {
-        if(strncasecmp(key->buffer, commands_handlers[i].command, key->length) == 0) {
+        if(command_args_match(key, commands_handlers[i].command)) {
             // save last command executed
             client->executed = &commands_handlers[i];
 
@@ -222,7 +230,7 @@ int command_wait(redis_client_t *client) {
 
     // checking if the requested command is supported
     for(unsigned int i = 0; i < sizeof(commands_handlers) / sizeof(command_t); i++) {
-        if(strncasecmp(key->buffer, commands_handlers[i].command, key->length) == 0) {
+        if(command_args_match(key, commands_handlers[i].command)) {
             handler = &commands_handlers[i];
             break;
         }
diff --git a/zdbd/commands.h b/zdbd/commands.h
index e0417e0..3b6bde0 100644
--- a/zdbd/commands.h
+++ b/zdbd/commands.h
@@ -15,6 +15,9 @@
     // validate a argument as namespace
     int command_args_namespace(redis_client_t *client, int argidx);
 
+    // compare an argument with a full word, case insensitive
+    int command_args_match(resp_object_t *argument, char *expected);
+
     int command_admin_authorized(redis_client_t *client);
     int command_wait(redis_client_t *client);
     int command_asterisk(redis_client_t *client);
diff --git a/zdbd/commands_auth.c b/zdbd/commands_auth.c
index 1cd46e3..203d1bd 100644
--- a/zdbd/commands_auth.c
+++ b/zdbd/commands_auth.c
@@ -87,13 +87,13 @@ static int command_auth_secure(redis_client_t *client) {
         return 1;
 
     // only accept <AUTH SECURE password>
-    if(strncasecmp(request->argv[1]->buffer, "SECURE", request->argv[1]->length) != 0) {
+    if(!command_args_match(request->argv[1], "SECURE")) {
         redis_hardsend(client, "-Only SECURE extra method supported");
         return 1;
     }
 
     // check if this is not a CHALLENGE request
-    if(strncasecmp(request->argv[2]->buffer, "CHALLENGE", request->argv[2]->length) == 0) {
+    if(command_args_match(request->argv[2], "CHALLENGE")) {
         zdbd_debug("[+] auth: challenge requested\n");
         return command_auth_challenge(client);
     }
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 0566d62..a0d2861 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -185,7 +185,7 @@ int command_select(redis_client_t *client) {
             // SELECT namespace SECURE password
             if(request->argc == 4) {
                 // only accept <SELECT namespace SECURE password>
-                if(strncasecmp(request->argv[2]->buffer, "SECURE", request->argv[2]->length) != 0) {
+                if(!command_args_match(request->argv[2], "SECURE")) {
                     redis_hardsend(client, "-Only SECURE extra method supported");
                     return 1;
                 }
-- 
2.43.0


From 063f51f73b1149aed07ce5e13c63cfd9fa50d168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 16/55] fix: passwords with trailing bytes after a null byte
 are refused

---
 zdbd/auth.c               |  5 +----
 zdbd/commands_namespace.c | 12 ++++--------
 2 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/zdbd/auth.c b/zdbd/auth.c
index 0d4b947..498d39b 100644
--- a/zdbd/auth.c
+++ b/zdbd/auth.c
@@ -8,10 +8,7 @@
 // check if user input (buffer with buffer length)
 // does match with expected password string, unified way
 int zdbd_password_check(char *input, int length, char *expected) {
-    char password[192];
-    sprintf(password, "%.*s", length, input);
-
-    if(strcmp(password, expected) == 0) {
+    if(length == (int) strlen(expected) && memcmp(input, expected, length) == 0) {
         zdbd_debug("[+] password: access granted\n");
         return 1;
     }
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index a0d2861..71c9dd7 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -162,19 +162,15 @@ int command_select(redis_client_t *client) {
 
             // SELECT namespace password
             if(request->argc == 3) {
-                char password[256];
+                resp_object_t *user = request->argv[2];
 
-                if(request->argv[2]->length > (ssize_t) sizeof(password) - 1) {
+                if(user->length > 255) {
                     redis_hardsend(client, "-Password too long");
                     return 1;
                 }
 
-                // copy password to a temporary variable
-                // to check password match using strcmp and no any strncmp
-                // to ensure we check exact password
-                sprintf(password, "%.*s", request->argv[2]->length, (char *) request->argv[2]->buffer);
-
-                if(strcmp(password, namespace->password) != 0) {
+                // check exact password match (including length)
+                if(!zdbd_password_check(user->buffer, user->length, namespace->password)) {
                     redis_hardsend(client, "-Access denied");
                     return 1;
                 }
-- 
2.43.0


From 8187aae7f5d2fcea2324c96211fcc782116f6940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 17/55] fix: secure select consumes the challenge

---
 zdbd/commands_namespace.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 71c9dd7..82c9af3 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -210,16 +210,19 @@ int command_select(redis_client_t *client) {
                 zdbd_debug("[+] namespace: auth: expected hash: %s\n", expected);
 
                 resp_object_t *user = request->argv[3];
+                int granted = zdbd_password_check(user->buffer, user->length, expected);
 
-                if(zdbd_password_check(user->buffer, user->length, expected) == 0) {
-                    free(expected);
+                // a challenge can only be used once
+                free(expected);
+                free(client->nonce);
+                client->nonce = NULL;
+
+                if(!granted) {
                     zdbd_debug("[-] namespace: auth: secure authentication denied\n");
                     redis_hardsend(client, "-Access denied");
                     return 1;
                 }
 
-                free(expected);
-
                 // nothing to do, granted
             }
 
-- 
2.43.0


From daa4893e02e3a352473524b6c8fa2494fe729bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 18/55] fix: refuse empty namespace names and names with null
 bytes

---
 libzdb/namespace.c | 4 ++++
 zdbd/commands.c    | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 23a2409..2b03d17 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -365,6 +365,10 @@ int namespace_create(char *name) {
 }
 
 int namespace_valid_name(char *name) {
+    // an empty name would be the root directory itself
+    if(strlen(name) == 0)
+        return 0;
+
     if(strcmp(name, ".") == 0 || strcmp(name, "..") == 0)
         return 0;
 
diff --git a/zdbd/commands.c b/zdbd/commands.c
index f719fe4..f391223 100644
--- a/zdbd/commands.c
+++ b/zdbd/commands.c
@@ -102,6 +102,12 @@ int command_args_namespace(redis_client_t *client, int argidx) {
         return 0;
     }
 
+    // names are handled as strings, nothing can follow a null byte
+    if(memchr(request->argv[argidx]->buffer, '\0', request->argv[argidx]->length)) {
+        redis_hardsend(client, "-Invalid namespace name");
+        return 0;
+    }
+
     return 1;
 }
 
-- 
2.43.0


From df750374c904818800891d6b5572ffc1f8a1b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 19/55] fix: subcommands of 256 bytes do not overflow their
 buffer

---
 zdbd/commands_namespace.c | 2 +-
 zdbd/commands_system.c    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 82c9af3..7727b7e 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -505,7 +505,7 @@ int command_nsset(redis_client_t *client) {
     if(!command_args_namespace(client, 1))
         return 1;
 
-    if(!command_args_overflow(client, 2, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 2, COMMAND_MAXLEN - 1))
         return 1;
 
     // limit size of the value
diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index 01dc272..97bd20d 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -186,7 +186,7 @@ static int command_index_dirty(redis_client_t *client) {
     char *response;
 
     if(request->argc == 3) {
-        if(!command_args_overflow(client, 2, COMMAND_MAXLEN))
+        if(!command_args_overflow(client, 2, COMMAND_MAXLEN - 1))
             return 1;
 
         sprintf(subcommand, "%.*s", request->argv[2]->length, (char *) request->argv[2]->buffer);
@@ -237,7 +237,7 @@ int command_index(redis_client_t *client) {
     if(!command_args_validate_min(client, 2))
         return 1;
 
-    if(!command_args_overflow(client, 1, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 1, COMMAND_MAXLEN - 1))
         return 1;
 
     sprintf(command, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
@@ -349,7 +349,7 @@ int command_data(redis_client_t *client) {
     if(!command_args_validate_min(client, 2))
         return 1;
 
-    if(!command_args_overflow(client, 1, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 1, COMMAND_MAXLEN - 1))
         return 1;
 
     sprintf(command, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
-- 
2.43.0


From 63c4453ba005f27e0b90ee0bd1952579838cd758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:16 +0000
Subject: [PATCH 20/55] fix: frozen, locked, read-only and worm states apply to
 every command

---
 zdbd/commands_namespace.c | 17 +++++++++++++++++
 zdbd/commands_scan.c      |  3 +++
 2 files changed, 20 insertions(+)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 7727b7e..2973621 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -646,6 +646,23 @@ int command_flush(redis_client_t *client) {
         return 1;
     }
 
+    // flushing is an update like any other
+    if(!client->writable) {
+        redis_hardsend(client, "-Namespace is in read-only mode");
+        return 1;
+    }
+
+    if(namespace_is_frozen(namespace))
+        return command_error_frozen(client);
+
+    if(namespace_is_locked(namespace))
+        return command_error_locked(client);
+
+    if(namespace->worm) {
+        redis_hardsend(client, "-Cannot flush a namespace in worm mode");
+        return 1;
+    }
+
     if(namespace_flush(namespace)) {
         redis_hardsend(client, "-Internal Server Error");
         return 1;
diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 0dfd614..44ec337 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -458,6 +458,9 @@ int command_kscan(redis_client_t *client) {
     resp_request_t *request = client->request;
     index_root_t *index = client->ns->index;
 
+    if(namespace_is_frozen(client->ns))
+        return command_error_frozen(client);
+
     #ifdef RELEASE
     redis_hardsend(client, "-Command disabled in release code, not yet available");
     return 1;
-- 
2.43.0


From 736de5b55d4dfa7ee253b945395ac8cca266a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 21/55] fix: namespace settings are written at once

---
 libzdb/namespace.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 2b03d17..eaa56c8 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -84,17 +84,23 @@ void namespace_descriptor_update(namespace_t *namespace, int fd) {
     if(namespace->worm)
         header.flags |= NS_FLAGS_WORM;
 
-    if(write(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t))
-        zdb_warnp("namespace legacy header write");
+    // write everything at once, header and password always match
+    char buffer[sizeof(ns_header_t) + UINT8_MAX + UINT8_MAX];
+    size_t length = sizeof(ns_header_t);
 
-    if(write(fd, namespace->name, header.namelength) != (ssize_t) header.namelength)
-        zdb_warnp("namespace header name write");
+    memcpy(buffer, &header, sizeof(ns_header_t));
+
+    memcpy(buffer + length, namespace->name, header.namelength);
+    length += header.namelength;
 
     if(namespace->password) {
-        if(write(fd, namespace->password, header.passlength) != (ssize_t) header.passlength)
-            zdb_warnp("namespace header password write");
+        memcpy(buffer + length, namespace->password, header.passlength);
+        length += header.passlength;
     }
 
+    if(write(fd, buffer, length) != (ssize_t) length)
+        zdb_warnp("namespace header write");
+
     // ensure metadata are written
     fsync(fd);
 }
-- 
2.43.0


From b11c6fa16f0e3f406654dda6ac824d368fe2a52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 22/55] fix: refuse empty namespace passwords, which are lost
 on restart

---
 zdbd/commands_namespace.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 2973621..ced14a4 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -391,7 +391,13 @@ static int command_nsset_maxsize(namespace_t *namespace, char *value) {
 }
 
 // NSSET password
-static int command_nsset_password(namespace_t *namespace, char *value) {
+static int command_nsset_password(redis_client_t *client, namespace_t *namespace, char *value) {
+    // an empty password can't be stored
+    if(strlen(value) == 0) {
+        redis_hardsend(client, "-Password cannot be empty");
+        return 1;
+    }
+
     // clearing password using "*" password
     if(strcmp(value, "*") == 0) {
         free(namespace->password);
@@ -555,7 +561,7 @@ int command_nsset(redis_client_t *client) {
             return 1;
 
     } else if(strcmp(command, "password") == 0) {
-        if(command_nsset_password(namespace, value) == 1)
+        if(command_nsset_password(client, namespace, value) == 1)
             return 1;
 
     } else if(strcmp(command, "public") == 0) {
-- 
2.43.0


From 6e7946f210c4456c671e88980be044bee5dd568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 23/55] fix: flush keeps the mode of the namespace

---
 libzdb/namespace.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index eaa56c8..834e243 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -644,6 +644,7 @@ int namespace_flush(namespace_t *namespace) {
 
     char *indexpath = strdup(namespace->index->indexdir);
     char *datapath = strdup(namespace->data->datadir);
+    index_mode_t mode = namespace->index->mode;
 
     zdb_debug("[+] namespace: flushing: destroying objects\n");
     index_destroy(namespace->index);
@@ -656,6 +657,14 @@ int namespace_flush(namespace_t *namespace) {
     zdb_debug("[+] namespace: flushing: reloading data\n");
     namespace_load_lazy(nsroot, namespace);
 
+    // new files are made with the default mode, keep the one
+    // this namespace had
+    if(namespace->index->mode != mode) {
+        namespace->index->mode = mode;
+        index_switch_mode(namespace->index);
+        index_rehash(namespace->index);
+    }
+
     free(indexpath);
     free(datapath);
 
-- 
2.43.0


From 25ec22593c2b9d8673ccb4f9ea8abbd6521e903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 24/55] fix: request lengths are validated, malformed requests
 are always discarded

---
 zdbd/redis.c | 49 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 7d6b3fb..9036119 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -13,6 +13,7 @@
 #include <sys/time.h>
 #include <inttypes.h>
 #include <errno.h>
+#include <limits.h>
 #include "sockets.h"
 #include "libzdb.h"
 #include "zdbd.h"
@@ -402,6 +403,24 @@ static void redis_free_request(resp_request_t *request) {
     request->argv = NULL;
 }
 
+// parse a protocol length (decimal digits), which ends at the end of the line
+//
+// returns -1 if there is no valid number, a value too large for
+// any field is always reported as INT_MAX
+static int redis_parse_length(const char *input, const char *end) {
+    long long value = 0;
+    const char *digit = input;
+
+    for(; digit < end && *digit >= '0' && *digit <= '9'; digit++)
+        if(value <= INT_MAX)
+            value = (value * 10) + (*digit - '0');
+
+    if(digit == input)
+        return -1;
+
+    return (value > INT_MAX) ? INT_MAX : (int) value;
+}
+
 static resp_status_t redis_handle_resp_empty(redis_client_t *client) {
     resp_request_t *request = client->request;
     buffer_t *buffer = &client->buffer;
@@ -432,30 +451,32 @@ static resp_status_t redis_handle_resp_empty(redis_client_t *client) {
     }
 
     // reading the amount of arguments
-    request->argc = atoi(buffer->reader + 1);
-    zdbd_debug("[+] redis: resp: %d arguments\n", request->argc);
+    int argc = redis_parse_length(buffer->reader + 1, match);
+    zdbd_debug("[+] redis: resp: %d arguments\n", argc);
 
-    if(request->argc == 0) {
+    if(argc <= 0) {
         resp_discard(client, "Missing arguments");
-        return RESP_STATUS_ABNORMAL;
+        return RESP_STATUS_DISCARD;
     }
 
     // we don't have any command
     // with more than like 4 or 5 arguments
     // but let put a higher limit, just in case
-    if(request->argc > 1024) {
+    if(argc > 1024) {
         resp_discard(client, "Too many arguments");
-        return RESP_STATUS_ABNORMAL;
+        return RESP_STATUS_DISCARD;
     }
 
     // allocating needed requests per arguments announced
     // (this is basicly why we limit the number or items)
-    if(!(request->argv = (resp_object_t **) calloc(sizeof(resp_type_t *), request->argc))) {
+    if(!(request->argv = (resp_object_t **) calloc(sizeof(resp_type_t *), argc))) {
         zdbd_warnp("request argv malloc");
         resp_discard(client, "Internal memory error");
         return RESP_STATUS_DISCARD;
     }
 
+    request->argc = argc;
+
     // next step if reading the first
     // header of the first argument
     request->state = RESP_FILLIN_HEADER;
@@ -494,7 +515,7 @@ static resp_status_t redis_handle_resp_header(redis_client_t *client) {
     if(*buffer->reader != '$') {
         zdbd_debug("[-] resp: request is not a string, rejecting\n");
         resp_discard(client, "Malformed query string");
-        return RESP_STATUS_ABNORMAL;
+        return RESP_STATUS_DISCARD;
     }
 
     if(!(request->argv[request->fillin] = calloc(sizeof(resp_object_t), 1))) {
@@ -506,15 +527,21 @@ static resp_status_t redis_handle_resp_header(redis_client_t *client) {
     resp_object_t *argument = request->argv[request->fillin];
 
     // reading the length of the array
-    argument->length = atoi(buffer->reader + 1);
-    // real size is the length + 2 (\r\n)
-    argument->size = argument->length + 2;
+    argument->length = redis_parse_length(buffer->reader + 1, match);
+
+    if(argument->length < 0) {
+        resp_discard(client, "Invalid argument length");
+        return RESP_STATUS_DISCARD;
+    }
 
     if(argument->length > REDIS_MAX_PAYLOAD) {
         resp_discard(client, "Payload too big");
         return RESP_STATUS_DISCARD;
     }
 
+    // real size is the length + 2 (\r\n)
+    argument->size = argument->length + 2;
+
     if(!(argument->buffer = (unsigned char *) malloc(argument->size))) {
         zdbd_warnp("argument buffer malloc");
         resp_discard(client, "Internal memory error");
-- 
2.43.0


From 0a4f68fa0a83177045183cf5d7d21a356b7dcd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 25/55] fix: pipelined requests of a disconnected client are
 not executed

---
 zdbd/redis.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 9036119..62d57c7 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -812,6 +812,10 @@ go_again:
         if(request->fillin == request->argc) {
             pzdbd_debug("[+] redis: request completed, executing\n");
             value = redis_handle_resp_finished(client);
+
+            // this client is leaving, nothing else should be executed
+            if(value == RESP_STATUS_DISCARD || value == RESP_STATUS_SHUTDOWN)
+                break;
         }
     }
 
-- 
2.43.0


From 7744a62ce938dc3076b99a8e0658041151ea4a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 26/55] fix: sockets are read until nothing is available

---
 zdbd/redis.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 62d57c7..50c4090 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -831,15 +831,10 @@ go_again:
         return value;
     }
 
-    // not suceed, let's try again
-    if(value != RESP_STATUS_SUCCESS) {
-        pzdbd_debug("[+] redis: parsing didn't suceed, trying again\n");
-        goto go_again;
-    }
-
-    // success
-    pzdbd_debug("[+] redis: socket parsing succeed\n");
-    return RESP_STATUS_SUCCESS;
+    // more data can be available on the socket (even if the last request was
+    // complete), the event is only triggered once, we need to read everything
+    pzdbd_debug("[+] redis: reading next chunk\n");
+    goto go_again;
 }
 
 void socket_nonblock(int fd) {
-- 
2.43.0


From 6d81e303768875fed8a2f8e239492539bf549171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 27/55] fix: mirrored requests carry the instance id, own
 requests are not replayed

---
 zdbd/redis.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 50c4090..7bf52c8 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -633,7 +633,7 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
     // it's a normal client, there is nothing special to do
     // just set the owner id as our own id
     if(!client->master) {
-        // client->request->owner = zdbd_rootsettings.iid; // FIXME
+        client->request->owner = zdb_instanceid_get();
         return 0;
     }
 
@@ -654,12 +654,10 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
     // converting string into unsigned integer
     uint32_t ownerid = strtoul(temp, NULL, 10);
 
-    /* FIXME
-    if(ownerid == zdbd_rootsettings.iid) {
+    if(ownerid == zdb_instanceid_get()) {
         zdbd_debug("[-] redis: owner check: looks like this comes from us, dropping\n");
         return 1;
     }
-    */
 
     // okay, let's pop this request from original object
     // so this request will looks like an original request
-- 
2.43.0


From 8fdeb336d1812a8fe048d70df778971df8cd6c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 28/55] fix: replicated requests without owner are dropped

---
 zdbd/redis.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 7bf52c8..2dff303 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -637,6 +637,13 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
         return 0;
     }
 
+    // there is no request at all without at least
+    // a command and the owner id
+    if(client->request->argc < 2) {
+        zdbd_debug("[-] redis: owner check: owner is missing, dropping\n");
+        return 1;
+    }
+
     // this comes from a replication client
     // extracting the owner id (which is the last argument)
     // and checking if it's a replay of our own database
-- 
2.43.0


From cbe80ebb30ed52ed5cbb29291f70129627c3d0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 29/55] fix: requests which did not execute anything do not
 notify clients

---
 zdbd/redis.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 2dff303..959ca39 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -682,6 +682,9 @@ static resp_status_t redis_handle_resp_finished(redis_client_t *client) {
     resp_request_t *request = client->request;
     int value = 0;
 
+    // nothing executed yet by this request
+    client->executed = NULL;
+
     // setting the request ownerid
     if(redis_handle_resp_ownerid(client)) {
         zdbd_debug("[-] redis: ownerid requested to ignore this request\n");
-- 
2.43.0


From 04d103e1f29251b35baf13689aad82d0b5c2ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 30/55] fix: pending responses are released with the client

---
 zdbd/redis.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 959ca39..9ccb96e 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -959,6 +959,13 @@ void socket_client_free(int fd) {
     // closing socket
     close(client->fd);
 
+    // discarding responses never sent
+    while(client->responses) {
+        redis_response_t *next = client->responses->next;
+        redis_response_free(client->responses);
+        client->responses = next;
+    }
+
     // cleaning client memory usage
     redis_free_request(client->request);
     buffer_free(&client->buffer);
-- 
2.43.0


From 89ca6b01d7bf29ec42e5cc24d8eb53644ec9a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 31/55] fix: no negative available space is reported

---
 zdbd/commands_namespace.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index ced14a4..e208f09 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -296,7 +296,12 @@ int command_nsinfo(redis_client_t *client) {
     uint64_t nextid = zdb_index_next_id(namespace->index);
 
     // compute free space available
-    size_t available = namespace->maxsize - namespace->index->stats.datasize;
+    // (the limit can be lower than what is already there)
+    size_t available = 0;
+
+    if(namespace->maxsize > namespace->index->stats.datasize)
+        available = namespace->maxsize - namespace->index->stats.datasize;
+
     int len = 0;
 
     len += sprintf(info, "# namespace\n");
-- 
2.43.0


From 0f42306445990ee908f6796aa08bd7a24444ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 32/55] fix: entries overwritten in the index are synced like
 others

---
 libzdb/index.c     | 10 ++--------
 libzdb/index_set.c |  4 ++--
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index 69314b4..3d46faa 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -564,14 +564,8 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     lseek(fd, entry->idxoffset, SEEK_SET);
 
     // overwrite the key
-    // FIXME: why not using index_write ?
-    if(write(fd, index_transition, entrylength) != (ssize_t) entrylength) {
-        zdb_warnp("index_entry_delete write");
-
-        // FIXME: not needed if using index_write
-        root->stats.errors += 1;
-        root->stats.lasterr = time(NULL);
-
+    if(!index_write(fd, index_transition, entrylength, root)) {
+        zdb_verbosep("index_entry_delete", "cannot overwrite index entry on disk");
         close(fd);
         return 1;
     }
diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index fe58bf3..6f040dd 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -95,8 +95,8 @@ int index_seq_overwrite(index_root_t *root, index_set_t *set) {
     // overwrite the key
     lseek(fd, offset, SEEK_SET);
 
-    if(write(fd, item, entrylength) != (ssize_t) entrylength) {
-        zdb_warnp("index_seq_overwrite re-write");
+    if(!index_write(fd, item, entrylength, root)) {
+        zdb_verbosep("index_seq_overwrite", "cannot overwrite index entry on disk");
         close(fd);
         return 1;
     }
-- 
2.43.0


From 61484ec8986452dcead28ccd79e85f164cd3011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 33/55] fix: payload compared with an update is released

---
 zdbd/commands_set.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index a293264..3f50371 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -65,7 +65,10 @@ static int data_compare_matching(index_entry_t *existing, data_request_t *dreq,
         return 0;
 
     // check if data are the same
-    if(memcmp(payload.buffer, dreq->data, dreq->datalength) == 0) {
+    int matching = (memcmp(payload.buffer, dreq->data, dreq->datalength) == 0);
+    free(payload.buffer);
+
+    if(matching) {
         zdbd_debug("[+] command: set: matching data, ignoring update\n");
         return 1;
     }
-- 
2.43.0


From 3277c29cfbfcb9faa4b550ee32b761660d82707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:06 +0000
Subject: [PATCH 34/55] fix: replaced namespace password is released

---
 zdbd/commands_namespace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index e208f09..c23f987 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -412,6 +412,7 @@ static int command_nsset_password(redis_client_t *client, namespace_t *namespace
 
     } else {
         // updating password
+        free(namespace->password);
         namespace->password = strdup(value);
         zdbd_debug("[+] command: nsset: password set and updated\n");
     }
-- 
2.43.0


From 5a6898f7605adcf545a137cd476110748042b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 35/55] fix: a scan always advances, however short its time
 slice

---
 zdbd/commands_scan.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 44ec337..b7e6645 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -246,7 +246,9 @@ int command_scan(redis_client_t *client) {
     // the keys and building our scan response
     uint64_t basetime = ustime();
 
-    while(ustime() - basetime < SCAN_TIMESLICE_US) {
+    // at least one entry is always looked up: an empty reply means
+    // the end of the list, not the end of the time slice
+    do {
         zdbd_debug("[+] scan: elapsed time: %" PRIu64 " us\n", ustime() - basetime);
 
         // reading entry and appending it
@@ -261,7 +263,8 @@ int command_scan(redis_client_t *client) {
 
         // append object to the list
         scanlist_append(&scanlist, &scan, &info);
-    }
+
+    } while(ustime() - basetime < SCAN_TIMESLICE_US);
 
     zdbd_debug("[+] scan: retreived %lu entries in %" PRIu64 " us\n", scanlist.length, ustime() - basetime);
 
@@ -303,7 +306,9 @@ int command_rscan(redis_client_t *client) {
     // the keys and building our scan response
     uint64_t basetime = ustime();
 
-    while(ustime() - basetime < SCAN_TIMESLICE_US) {
+    // at least one entry is always looked up: an empty reply means
+    // the end of the list, not the end of the time slice
+    do {
         zdbd_debug("[+] rscan: elapsed time: %" PRIu64 " us\n", ustime() - basetime);
 
         // reading entry and appending it
@@ -318,7 +323,8 @@ int command_rscan(redis_client_t *client) {
 
         // append object to the list
         scanlist_append(&scanlist, &scan, &info);
-    }
+
+    } while(ustime() - basetime < SCAN_TIMESLICE_US);
 
     zdbd_debug("[+] rscan: retreived %lu entries in %" PRIu64 " us\n", scanlist.length, ustime() - basetime);
 
-- 
2.43.0


From a2ca4e84cbe502dd25574e7b90f55a8af197ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 36/55] fix: long directory paths no longer overrun stack
 buffers

---
 libzdb/bootstrap.c    | 2 +-
 libzdb/index.c        | 6 +++---
 libzdb/index_loader.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libzdb/bootstrap.c b/libzdb/bootstrap.c
index 4c2b089..2138396 100644
--- a/libzdb/bootstrap.c
+++ b/libzdb/bootstrap.c
@@ -93,7 +93,7 @@ static int zdb_lock(char *lockpath) {
 }
 
 zdb_settings_t *zdb_open(zdb_settings_t *zdb_settings) {
-    char lockpath[512];
+    char lockpath[ZDB_PATH_MAX];
 
     //
     // ensure default directories exists
diff --git a/libzdb/index.c b/libzdb/index.c
index 3d46faa..7b38b31 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -175,10 +175,10 @@ void index_set_id(index_root_t *root, fileid_t fileid) {
 //
 // open index _without_ changing internal fd
 static int index_open_file_mode(index_root_t *root, fileid_t fileid, int mode) {
-    char filename[512];
+    char filename[ZDB_PATH_MAX];
     int fd;
 
-    sprintf(filename, "%s/i%u", root->indexdir, fileid);
+    snprintf(filename, sizeof(filename), "%s/i%u", root->indexdir, fileid);
     zdb_debug("[+] index: opening file: %s (ro: %s)\n", filename, (mode & O_RDONLY) ? "yes" : "no");
 
     if((fd = open(filename, mode)) < 0) {
@@ -226,7 +226,7 @@ int index_open_readwrite(index_root_t *root, fileid_t fileid) {
 
 int index_open_readwrite_oneshot(index_root_t *root, fileid_t fileid) {
     int fd;
-    char tempfile[2048];
+    char tempfile[ZDB_PATH_MAX + 1];
 
     index_set_id_buffer(tempfile, root->indexdir, fileid);
     zdb_debug("[+] index: opening file (one shot): %s\n", root->indexfile);
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 878f7e4..dd1511a 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -435,8 +435,8 @@ void index_internal_load(index_root_t *root) {
 
     // legacy check:
     // check for old database file
-    char legacy[256];
-    sprintf(legacy, "%s/zdb-index-00000", root->indexdir);
+    char legacy[ZDB_PATH_MAX];
+    snprintf(legacy, sizeof(legacy), "%s/zdb-index-00000", root->indexdir);
     if(zdb_file_exists(legacy) == ZDB_FILE_EXISTS) {
         zdb_danger("[-] index: =================================");
         zdb_danger("[-] index: unsupported database detected");
-- 
2.43.0


From 1b3d9ffc306bfb841a2a4bed9af1d81f2d1acbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 37/55] fix: scans print entry times after 2038 as unsigned

---
 zdbd/commands_scan.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index b7e6645..5b5d68a 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -142,10 +142,10 @@ static int command_scan_send_scanlist(scan_list_t *scanlist, redis_client_t *cli
         offset += entry->idlength;
 
         // adding the length of the payload
-        offset += sprintf(response + offset, "\r\n:%d\r\n", entry->length);
+        offset += sprintf(response + offset, "\r\n:%u\r\n", entry->length);
 
         // adding the timestamp to the payload
-        offset += sprintf(response + offset, ":%d\r\n", entry->timestamp);
+        offset += sprintf(response + offset, ":%u\r\n", entry->timestamp);
     }
 
     redis_reply_heap(client, response, offset, free);
-- 
2.43.0


From 701e55cf4c551c56a495a5a7f3970884e69887a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 38/55] fix: NSSET refuses values with a null byte instead of
 cutting them

---
 zdbd/commands_namespace.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index c23f987..65a10c6 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -524,6 +524,14 @@ int command_nsset(redis_client_t *client) {
     if(!command_args_overflow(client, 3, 63))
         return 1;
 
+    // properties are handled as strings, nothing can follow a null byte
+    for(int i = 2; i < 4; i++) {
+        if(memchr(request->argv[i]->buffer, '\0', request->argv[i]->length)) {
+            redis_hardsend(client, "-Invalid property value");
+            return 1;
+        }
+    }
+
     sprintf(target, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
     sprintf(command, "%.*s", request->argv[2]->length, (char *) request->argv[2]->buffer);
     sprintf(value, "%.*s", request->argv[3]->length, (char *) request->argv[3]->buffer);
-- 
2.43.0


From 5df325e26a43ee870636141bf07de9bde2a0f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 39/55] fix: a hook which could not be started is not waited
 for

---
 libzdb/hook.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libzdb/hook.c b/libzdb/hook.c
index dd17c78..20f92a4 100644
--- a/libzdb/hook.c
+++ b/libzdb/hook.c
@@ -126,6 +126,10 @@ pid_t hook_execute(hook_t *hook) {
             zdb_warnp("hook: fork");
             pid = 0;
 
+            // nothing is running, there is nothing to wait for
+            hook->finished = time(NULL);
+            hook->status = EXIT_FAILURE;
+
         } else {
             // adding one pending child
             zdb_rootsettings.stats.childwait += 1;
@@ -149,7 +153,10 @@ int hook_execute_wait(hook_t *hook) {
     pid_t child;
     int status;
 
-    child = hook_execute(hook);
+    // hook could not be started
+    if((child = hook_execute(hook)) == 0)
+        return hook->status;
+
     zdb_debug("[+] hooks: waiting for hook to finish: %d\n", child);
 
     if(waitpid(child, &status, 0) < 0)
@@ -229,6 +236,10 @@ void libzdb_hooks_cleanup() {
         for(size_t i = 0; i < hooks->length; i++) {
             hook_t *hook = hooks->hooks[i];
 
+            // empty slot, nothing to do
+            if(hook == NULL)
+                continue;
+
             // only match same pid and running (not finished) process
             if(hook->pid == pid && hook->finished == 0) {
                 hook->finished = time(NULL);
-- 
2.43.0


From 2abdb0a7b64fedd2b64f4a11959f88136d240995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 40/55] fix: reply of HOOKS fits its arguments whatever their
 length

---
 zdbd/commands_system.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index 97bd20d..ed45300 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -132,7 +132,18 @@ int command_hooks(redis_client_t *client) {
     if(!command_admin_authorized(client))
         return 1;
 
-    if(!(info = calloc(sizeof(char), (hooks->active + 1) * 1024)))
+    // room for the fixed fields of each hook and its arguments
+    size_t infolen = (hooks->active + 1) * 1024;
+
+    for(size_t i = 0; i < hooks->length; i++) {
+        if(!(hook = hooks->hooks[i]))
+            continue;
+
+        for(size_t s = 1; s < hook->argidx; s++)
+            infolen += strlen(hook->argv[s]) + 32;
+    }
+
+    if(!(info = calloc(sizeof(char), infolen)))
         return 1;
 
     len += sprintf(info, "*%lu\r\n", hooks->active);
-- 
2.43.0


From fc04e11a7c39ee878c78676b0873400538c5d162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 41/55] fix: a hook ended by a signal did not succeed

---
 libzdb/hook.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libzdb/hook.c b/libzdb/hook.c
index 20f92a4..20111a2 100644
--- a/libzdb/hook.c
+++ b/libzdb/hook.c
@@ -149,6 +149,11 @@ pid_t hook_execute(hook_t *hook) {
     return 0;
 }
 
+// a hook which did not exit by itself did not succeed
+static int hook_exit_status(int status) {
+    return WIFEXITED(status) ? WEXITSTATUS(status) : EXIT_FAILURE;
+}
+
 int hook_execute_wait(hook_t *hook) {
     pid_t child;
     int status;
@@ -159,11 +164,16 @@ int hook_execute_wait(hook_t *hook) {
 
     zdb_debug("[+] hooks: waiting for hook to finish: %d\n", child);
 
-    if(waitpid(child, &status, 0) < 0)
+    hook->status = EXIT_FAILURE;
+
+    if(waitpid(child, &status, 0) < 0) {
         zdb_warnp("waitpid");
 
+    } else {
+        hook->status = hook_exit_status(status);
+    }
+
     hook->finished = time(NULL);
-    hook->status = WEXITSTATUS(status);
 
     // update stats, since we wait, this won't be handled
     // by recurring scrubber
@@ -243,7 +253,7 @@ void libzdb_hooks_cleanup() {
             // only match same pid and running (not finished) process
             if(hook->pid == pid && hook->finished == 0) {
                 hook->finished = time(NULL);
-                hook->status = WEXITSTATUS(status);
+                hook->status = hook_exit_status(status);
                 break;
             }
         }
-- 
2.43.0


From 61f8cd62f157ec5deb41aa9be9926313e751321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:43 +0000
Subject: [PATCH 42/55] fix: raw data requests serve deletions and empty values

---
 libzdb/data.c          | 5 +++--
 zdbd/commands_system.c | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index dee8c26..7aa46d1 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -365,8 +365,9 @@ data_raw_t data_raw_get_real(int fd, off_t offset) {
     }
 
     if(raw.header.flags & DATA_ENTRY_DELETED) {
+        // a deletion has no payload
         zdb_debug("[+] data: raw: entry deleted\n");
-        return data_raw_error(raw);
+        return raw;
     }
 
     zdb_debug("[+] data: raw: fetching payload from header offset\n");
@@ -398,7 +399,7 @@ data_raw_t data_raw_get(data_root_t *root, fileid_t dataid, off_t offset) {
 
     // acquire data id fd
     if((fd = data_grab_dataid(root, dataid)) < 0)
-        return raw;
+        return data_raw_error(raw);
 
     raw = data_raw_get_real(fd, offset);
 
diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index ed45300..33dd4d1 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -292,7 +292,7 @@ static int command_data_raw(redis_client_t *client) {
         return 1;
     }
 
-    if(raw.header.datalength == 0 || raw.header.datalength != raw.payload.length) {
+    if(raw.header.datalength != raw.payload.length) {
         if((raw.header.flags & DATA_ENTRY_DELETED) == 0) {
             // something went wrong when fetching data from file
             zdb_log("[-] command: data: raw: invalid read at specified data/offset\n");
@@ -333,10 +333,11 @@ static int command_data_raw(redis_client_t *client) {
     length += sprintf(response + length, ":%u\r\n", raw.header.flags);
     length += sprintf(response + length, ":%u\r\n", raw.header.timestamp);
 
-    if(raw.payload.length > 0) {
+    // only deletions have no payload at all
+    if(raw.payload.buffer) {
         length += sprintf(response + length, "$%lu\r\n", raw.payload.length);
         memcpy(response + length, raw.payload.buffer, raw.payload.length);
-        length += raw.header.datalength;
+        length += raw.payload.length;
         length += sprintf(response + length, "\r\n");
 
     } else {
-- 
2.43.0


From fc755e42f2cdba2aa4623b6644d34b5101f2c365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:43 +0000
Subject: [PATCH 43/55] fix: free space of the disk is counted in fragments

---
 zdbd/commands_namespace.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 65a10c6..8f7c623 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -334,7 +334,7 @@ int command_nsinfo(redis_client_t *client) {
 
     // index path
     if(statvfs(namespace->indexpath, &buf) == 0) {
-        sfree = buf.f_bsize * buf.f_bavail;
+        sfree = buf.f_frsize * buf.f_bavail;
 
         len += sprintf(info + len, "index_disk_freespace_bytes: %lu\n", sfree);
         len += sprintf(info + len, "index_disk_freespace_mb: %.2f\n", MB(sfree));
@@ -345,7 +345,7 @@ int command_nsinfo(redis_client_t *client) {
 
     // data path
     if(statvfs(namespace->datapath, &buf) == 0) {
-        sfree = buf.f_bsize * buf.f_bavail;
+        sfree = buf.f_frsize * buf.f_bavail;
 
         len += sprintf(info + len, "data_disk_freespace_bytes: %lu\n", sfree);
         len += sprintf(info + len, "data_disk_freespace_mb: %.2f\n", MB(sfree));
-- 
2.43.0


From a1f7cc07847d18d5a785b78c5ca86da42bee76f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:02 +0000
Subject: [PATCH 44/55] fix: hooks do not inherit locks and sockets

---
 libzdb/bootstrap.c   |  3 ++-
 zdbd/redis.c         | 11 +++++++++++
 zdbd/redis.h         |  1 +
 zdbd/socket_epoll.c  |  1 +
 zdbd/socket_kqueue.c |  1 +
 5 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/libzdb/bootstrap.c b/libzdb/bootstrap.c
index 2138396..ab19858 100644
--- a/libzdb/bootstrap.c
+++ b/libzdb/bootstrap.c
@@ -74,7 +74,8 @@ static int zdb_lock(char *lockpath) {
 
     zdb_debug("[+] bootstrap: checking lockfile: %s\n", lockpath);
 
-    if((fd = open(lockpath, O_CREAT | O_RDONLY, 0664)) < 0) {
+    // hooks should not inherit the lock, it would outlive us
+    if((fd = open(lockpath, O_CREAT | O_RDONLY | O_CLOEXEC, 0664)) < 0) {
         zdb_warnp(lockpath);
         return -1;
     }
diff --git a/zdbd/redis.c b/zdbd/redis.c
index 9ccb96e..0e2ce85 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -854,6 +854,16 @@ void socket_nonblock(int fd) {
     fcntl(fd, F_SETFL, flags | O_NONBLOCK);
 }
 
+// keep this socket out of the programs we execute (hooks)
+void socket_cloexec(int fd) {
+    int flags;
+
+    if((flags = fcntl(fd, F_GETFD, 0)) < 0)
+        zdbd_diep("fcntl");
+
+    fcntl(fd, F_SETFD, flags | FD_CLOEXEC);
+}
+
 void socket_keepalive(int fd) {
     int optval = 1;
 
@@ -1379,6 +1389,7 @@ int redis_listen(char *listenaddr, char *port, char *socket) {
     // configuring each sockets
     for(int i = 0; i < redis.fdlen; i++) {
         socket_nonblock(redis.mainfd[i]);
+        socket_cloexec(redis.mainfd[i]);
 
         if(listen(redis.mainfd[i], SOMAXCONN) == -1)
             zdbd_diep("listen");
diff --git a/zdbd/redis.h b/zdbd/redis.h
index 0fc8d22..d7c467a 100644
--- a/zdbd/redis.h
+++ b/zdbd/redis.h
@@ -178,6 +178,7 @@
     resp_status_t redis_delayed_write(int fd);
 
     void socket_nonblock(int fd);
+    void socket_cloexec(int fd);
     void socket_keepalive(int fd);
     void socket_block(int fd);
 
diff --git a/zdbd/socket_epoll.c b/zdbd/socket_epoll.c
index a23efe9..1fa1598 100644
--- a/zdbd/socket_epoll.c
+++ b/zdbd/socket_epoll.c
@@ -26,6 +26,7 @@ static int socket_client_accept(redis_handler_t *redis, int fd) {
     }
 
     socket_nonblock(clientfd);
+    socket_cloexec(clientfd);
     socket_keepalive(clientfd);
     socket_client_new(clientfd);
 
diff --git a/zdbd/socket_kqueue.c b/zdbd/socket_kqueue.c
index 5b1f6f7..13757a4 100644
--- a/zdbd/socket_kqueue.c
+++ b/zdbd/socket_kqueue.c
@@ -27,6 +27,7 @@ static int socket_client_accept(redis_handler_t *redis, int fd) {
     }
 
     socket_nonblock(clientfd);
+    socket_cloexec(clientfd);
     socket_keepalive(clientfd);
     socket_client_new(clientfd);
 
-- 
2.43.0


From 4d21add625f1cbb390a72283dd653a8984891690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:02 +0000
Subject: [PATCH 45/55] fix: integrity-check accepts the names data files have

---
 tools/integrity-check/integrity-check.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tools/integrity-check/integrity-check.c b/tools/integrity-check/integrity-check.c
index 4644a60..885a989 100644
--- a/tools/integrity-check/integrity-check.c
+++ b/tools/integrity-check/integrity-check.c
@@ -127,13 +127,18 @@ int main(int argc, char *argv[]) {
     char *filedir = dirname(strdup(filename));
     char *datafile = basename(filename);
 
-    if(strncmp(datafile, "zdb-data-", 9)) {
+    // data files are named 'd' followed by their id
+    char *idend = datafile;
+    fileid_t dataid = 0;
+
+    if(datafile[0] == 'd' && datafile[1] >= '0' && datafile[1] <= '9')
+        dataid = strtoul(datafile + 1, &idend, 10);
+
+    if(idend == datafile || *idend != '\0') {
         fprintf(stderr, "[-] integrity-check: data filename seems wrong\n");
         exit(EXIT_FAILURE);
     }
 
-    fileid_t dataid = atoi(datafile + 9);
-
     printf("[+] datafile path: %s\n", filedir);
     printf("[+] datafile name: %s\n", datafile);
     printf("[+] datafile id  : %d\n", dataid);
-- 
2.43.0


From f48ed0b457c7925d1d303e330f6560dab4b09b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:02 +0000
Subject: [PATCH 46/55] fix: integrity-check fails for any number of errors

---
 tools/integrity-check/integrity-check.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/integrity-check/integrity-check.c b/tools/integrity-check/integrity-check.c
index 885a989..f0f8bd8 100644
--- a/tools/integrity-check/integrity-check.c
+++ b/tools/integrity-check/integrity-check.c
@@ -167,6 +167,7 @@ int main(int argc, char *argv[]) {
     if((val = data_integrity(zdbdata)))
         fprintf(stderr, "[-] data file inconsistency: %d error(s)\n", val);
 
-    return val;
+    // amount of errors could not fit in the exit status
+    return val ? EXIT_FAILURE : EXIT_SUCCESS;
 }
 
-- 
2.43.0


From 07742fdcc0314638559751f2358e8beae99bbc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:02 +0000
Subject: [PATCH 47/55] fix: namespace-dump of a namespace which does not exist

---
 tools/namespace-dump/namespace-dump.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/namespace-dump/namespace-dump.c b/tools/namespace-dump/namespace-dump.c
index 5873159..afd0124 100644
--- a/tools/namespace-dump/namespace-dump.c
+++ b/tools/namespace-dump/namespace-dump.c
@@ -37,6 +37,11 @@ int main(int argc, char *argv[]) {
     ns_root_t *nsroot = namespaces_allocate(zdb_settings);
     namespace_t *ns = namespace_load_light(nsroot, nsname, 0);
 
+    if(!ns) {
+        fprintf(stderr, "[-] could not load namespace\n");
+        return 1;
+    }
+
     printf("[+] ----------------------------------------\n");
     printf("[+] name        : %s\n", ns->name);
     printf("[+] password    : %s\n", ns->password ? ns->password : "<no password set>");
-- 
2.43.0


From ff5fc4769eeee4de25209ef8bbd626749ec93fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:02 +0000
Subject: [PATCH 48/55] fix: quick-compact uses the names files have and the
 offsets of the entries it writes

---
 tools/quick-compaction/quick-compact.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/quick-compaction/quick-compact.c b/tools/quick-compaction/quick-compact.c
index 90a3bb1..c29b1d7 100644
--- a/tools/quick-compaction/quick-compact.c
+++ b/tools/quick-compaction/quick-compact.c
@@ -144,13 +144,13 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
     uint32_t dataoffset = sizeof(data_header_t);
 
     // create target index and data files
-    snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-index-%05d", output->indexpath, output->nsname, fileid);
+    snprintf(filebuf, sizeof(filebuf), "%s/%s/i%u", output->indexpath, output->nsname, fileid);
 
     printf("[+] quick-compact: creating target index: %s\n", filebuf);
     if((indexfd = open(filebuf, O_CREAT | O_RDWR, 0600)) < 0)
         diep(filebuf);
 
-    snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-data-%05d", output->datapath, output->nsname, fileid);
+    snprintf(filebuf, sizeof(filebuf), "%s/%s/d%u", output->datapath, output->nsname, fileid);
 
     printf("[+] quick-compact: creating target data: %s\n", filebuf);
     if((datafd = open(filebuf, O_CREAT | O_RDWR, 0600)) < 0)
@@ -229,7 +229,7 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
         if(truedid != fileid) {
             printf("[+] quick-compact: opening another datafile\n");
 
-            snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-data-%05d", input->datapath, output->nsname, truedid);
+            snprintf(filebuf, sizeof(filebuf), "%s/%s/d%u", input->datapath, output->nsname, truedid);
 
             if((transfd = open(filebuf, O_RDONLY, 0600)) < 0)
                 diep(buffer);
@@ -273,12 +273,14 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
 
         // saving current position as previous entry
         session->dataprev = lseek(datafd, 0, SEEK_CUR);
-        dataoffset = session->dataprev;
 
         // writing new data
         if(write(datafd, dataentry, writelen) != writelen)
             diep("data payload write");
 
+        // next entry will be located right after this one
+        dataoffset = lseek(datafd, 0, SEEK_CUR);
+
         printf("<<<< new next offset: %lu\n", lseek(datafd, 0, SEEK_CUR));
         free(dataentry);
 
-- 
2.43.0


From 30931615f2e4b4436a7fa083d0572cfbca3de544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:02 +0000
Subject: [PATCH 49/55] fix: library insertion uses the mode of the namespace

---
 libzdb/api.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 382dda3..545f7e7 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -304,7 +304,8 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
         data_jump_next(ns->data, newid);
     }
 
-    return api_set_handlers[zdb_rootsettings.mode](ns, key, ksize, payload, psize, entry);
+    // using namespace mode, global settings can be mixed mode
+    return api_set_handlers[ns->index->mode](ns, key, ksize, payload, psize, entry);
 }
 
 
-- 
2.43.0


From 056ba0cf759e51fa75fa4b051590c64338980ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:02 +0000
Subject: [PATCH 50/55] fix: library compares contents before ignoring an
 update

---
 libzdb/api.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 545f7e7..9a2f16f 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -105,6 +105,26 @@ char *zdb_api_debug_type(zdb_api_type_t type) {
 //
 // api
 //
+
+// crc can be the same for different contents, this is only a hint
+// to know if contents needs to be compared
+static int api_set_unchanged(namespace_t *ns, index_entry_t *existing, data_request_t *dreq) {
+    if(existing->crc != dreq->crc || existing->length != dreq->datalength)
+        return 0;
+
+    index_entry_t *x = existing; // shortcut
+    data_payload_t payload = data_get(ns->data, x->offset, x->length, x->dataid, x->idlength);
+
+    // could not fetch existing data, let's update it
+    if(!payload.buffer)
+        return 0;
+
+    int matching = (memcmp(payload.buffer, dreq->data, dreq->datalength) == 0);
+    free(payload.buffer);
+
+    return matching;
+}
+
 static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksize, void *payload, size_t psize, index_entry_t *existing) {
     if(ksize == 0)
         return zdb_api_reply_error("Invalid argument, key needed");
@@ -126,8 +146,8 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
     };
 
     // checking if we need to update this entry of if data are unchanged
-    if(existing && existing->crc == dreq.crc) {
-        zdb_debug("[+] api: set: existing %08x <> %08x crc match, ignoring\n", existing->crc, dreq.crc);
+    if(existing && api_set_unchanged(ns, existing, &dreq)) {
+        zdb_debug("[+] api: set: existing %08x <> %08x data match, ignoring\n", existing->crc, dreq.crc);
         return zdb_api_reply(ZDB_API_UP_TO_DATE, NULL);
     }
 
@@ -207,8 +227,8 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
     };
 
     // checking if we need to update this entry of if data are unchanged
-    if(existing && existing->crc == dreq.crc) {
-        zdb_debug("[+] api: set: existing %08x <> %08x crc match, ignoring\n", existing->crc, dreq.crc);
+    if(existing && api_set_unchanged(ns, existing, &dreq)) {
+        zdb_debug("[+] api: set: existing %08x <> %08x data match, ignoring\n", existing->crc, dreq.crc);
         return zdb_api_reply(ZDB_API_UP_TO_DATE, NULL);
     }
 
-- 
2.43.0


From 4e9437ddbfc90cfe65883bf9dbbe8aec8aafdb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:02 +0000
Subject: [PATCH 51/55] fix: library refuses keys which do not fit in their
 length

---
 libzdb/api.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 9a2f16f..e011cec 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -106,6 +106,15 @@ char *zdb_api_debug_type(zdb_api_type_t type) {
 // api
 //
 
+// key length is stored on a single byte, longer
+// keys cannot exist
+static index_entry_t *api_index_get(namespace_t *ns, void *key, size_t ksize) {
+    if(ksize > MAX_KEY_LENGTH)
+        return NULL;
+
+    return index_get(ns->index, key, ksize);
+}
+
 // crc can be the same for different contents, this is only a hint
 // to know if contents needs to be compared
 static int api_set_unchanged(namespace_t *ns, index_entry_t *existing, data_request_t *dreq) {
@@ -291,6 +300,9 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
     index_entry_t *entry = NULL;
     size_t floating = 0;
 
+    if(ksize > MAX_KEY_LENGTH)
+        return zdb_api_reply_error("Key too large");
+
     // if the user want to override an existing key
     // and the maxsize of the namespace is reached, we need
     // to know if the replacement data is shorter, this is
@@ -300,7 +312,7 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
     // update an existing key, we can only delete it
     if(ksize) {
         // userkey id is not null
-        if((entry = index_get(ns->index, key, ksize)))
+        if((entry = api_index_get(ns, key, ksize)))
             floating = entry->length;
     }
 
@@ -336,7 +348,7 @@ zdb_api_t *zdb_api_get(namespace_t *ns, void *key, size_t ksize) {
     index_entry_t *entry = NULL;
 
     // fetching index entry for this key
-    if(!(entry = index_get(ns->index, key, ksize))) {
+    if(!(entry = api_index_get(ns, key, ksize))) {
         zdb_debug("[-] api: get: key not found\n");
         return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
     }
@@ -370,7 +382,7 @@ zdb_api_t *zdb_api_get(namespace_t *ns, void *key, size_t ksize) {
 // DATASET
 //
 zdb_api_t *zdb_api_exists(namespace_t *ns, void *key, size_t ksize) {
-    index_entry_t *entry = index_get(ns->index, key, ksize);
+    index_entry_t *entry = api_index_get(ns, key, ksize);
 
     zdb_debug("[+] api: exists: entry found: %s\n", (entry ? "yes" : "no"));
 
@@ -387,7 +399,7 @@ zdb_api_t *zdb_api_exists(namespace_t *ns, void *key, size_t ksize) {
 }
 
 zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
-    index_entry_t *entry = index_get(ns->index, key, ksize);
+    index_entry_t *entry = api_index_get(ns, key, ksize);
 
     // key not found at all
     if(!entry) {
@@ -406,6 +418,7 @@ zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
     zdb_debug("[+] api: get: data file: %d, data offset: %" PRIu32 "\n", entry->dataid, entry->offset);
 
     int status = data_check(ns->data, entry->offset, entry->dataid);
+
     return zdb_api_reply(status ? ZDB_API_TRUE : ZDB_API_FALSE, NULL);
 }
 
@@ -413,7 +426,7 @@ zdb_api_t *zdb_api_del(namespace_t *ns, void *key, size_t ksize) {
     index_entry_t *entry;
 
     // grabbing original entry
-    if(!(entry = index_get(ns->index, key, ksize))) {
+    if(!(entry = api_index_get(ns, key, ksize))) {
         zdb_debug("[-] api: del: key not found\n");
         return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
     }
-- 
2.43.0


From b66ad3d2f941ea6c053c7e154bb6c66ee4198005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:02 +0000
Subject: [PATCH 52/55] fix: library does not report data it cannot read as
 valid

---
 libzdb/api.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libzdb/api.c b/libzdb/api.c
index e011cec..93162a5 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -419,6 +419,10 @@ zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
 
     int status = data_check(ns->data, entry->offset, entry->dataid);
 
+    // data could not be read, there is nothing to compare
+    if(status < 0)
+        return zdb_api_reply(ZDB_API_INTERNAL_ERROR, NULL);
+
     return zdb_api_reply(status ? ZDB_API_TRUE : ZDB_API_FALSE, NULL);
 }
 
-- 
2.43.0


From b7da5364d8e5a0e27539f97e5d1cb43d3f4df8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:32 +0000
Subject: [PATCH 53/55] fix: db-sync, db-replicate: skip keys removed
 meanwhile, fail on source errors

A key removed between its listing and its reading was written to the
target as an empty value, and the text of an error as a value.
---
 utilities/db-replicate/db-replicate.c | 12 ++++++++++++
 utilities/db-sync/db-sync.c           | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/utilities/db-replicate/db-replicate.c b/utilities/db-replicate/db-replicate.c
index c60ffd3..63280c5 100644
--- a/utilities/db-replicate/db-replicate.c
+++ b/utilities/db-replicate/db-replicate.c
@@ -116,6 +116,18 @@ int fetchsync(sync_t *sync, keylist_t *keylist, status_t *status) {
             exit(EXIT_FAILURE);
         }
 
+        // this key was removed since it was listed, there is nothing to copy
+        if(input->type == REDIS_REPLY_NIL) {
+            freeReplyObject(input);
+            freeReplyObject(keylist->keys[i]);
+            continue;
+        }
+
+        if(input->type != REDIS_REPLY_STRING) {
+            fprintf(stderr, "\n[-] source: could not read key: %s\n", input->str);
+            return 1;
+        }
+
         char *key = keylist->keys[i]->element[0]->str;
         size_t keylen = keylist->keys[i]->element[0]->len;
 
diff --git a/utilities/db-sync/db-sync.c b/utilities/db-sync/db-sync.c
index ae12484..ecc90ed 100644
--- a/utilities/db-sync/db-sync.c
+++ b/utilities/db-sync/db-sync.c
@@ -179,6 +179,18 @@ int fetchsync(sync_t *sync, keylist_t *keylist, status_t *status) {
             exit(EXIT_FAILURE);
         }
 
+        // this key was removed since it was listed, there is nothing to copy
+        if(input->type == REDIS_REPLY_NIL) {
+            freeReplyObject(input);
+            freeReplyObject(keylist->keys[i]);
+            continue;
+        }
+
+        if(input->type != REDIS_REPLY_STRING) {
+            fprintf(stderr, "\n[-] source: could not read key: %s\n", input->str);
+            return 1;
+        }
+
         char *key = keylist->keys[i]->element[0]->str;
         size_t keylen = keylist->keys[i]->element[0]->len;
 
-- 
2.43.0


From 097f250b33a664dcb93ad6c65336a26070602dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:32 +0000
Subject: [PATCH 54/55] fix: db-sync, db-replicate: fail when the target
 refuses or loses a write

The copy went on and reported success.
---
 utilities/db-replicate/db-replicate.c | 18 ++++++++++++++----
 utilities/db-sync/db-sync.c           | 15 ++++++++++++---
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/utilities/db-replicate/db-replicate.c b/utilities/db-replicate/db-replicate.c
index 63280c5..e1130e8 100644
--- a/utilities/db-replicate/db-replicate.c
+++ b/utilities/db-replicate/db-replicate.c
@@ -131,8 +131,15 @@ int fetchsync(sync_t *sync, keylist_t *keylist, status_t *status) {
         char *key = keylist->keys[i]->element[0]->str;
         size_t keylen = keylist->keys[i]->element[0]->len;
 
-        if(!(output = redisCommand(sync->target, "SET %b %b", key, keylen, input->str, input->len)))
-            return 0;
+        if(!(output = redisCommand(sync->target, "SET %b %b", key, keylen, input->str, input->len))) {
+            fprintf(stderr, "\n[-] target: %s\n", sync->target->errstr);
+            return 1;
+        }
+
+        if(output->type == REDIS_REPLY_ERROR) {
+            fprintf(stderr, "\n[-] target: could not write key: %s\n", output->str);
+            return 1;
+        }
 
         status->transfered += input->len;
         status->copied += 1;
@@ -182,7 +189,9 @@ int replicate_from_reply(sync_t *sync, redisReply *from, status_t *status) {
 
         // original reply will be free'd here
         // that's why new reply is already prepared ^
-        fetchsync(sync, &keylist, status);
+        if(fetchsync(sync, &keylist, status))
+            return 1;
+
         keylist.length = 0;
         keylist.size = 0;
     }
@@ -232,7 +241,8 @@ int synchronize(sync_t *sync) {
             return 1;
 
         printf("[+] trigger fired, syncing...\n");
-        replicate_from_reply(sync, from, &status);
+        if(replicate_from_reply(sync, from, &status))
+            return 1;
 
         freeReplyObject(reply);
         printf("\n");
diff --git a/utilities/db-sync/db-sync.c b/utilities/db-sync/db-sync.c
index ecc90ed..b218f31 100644
--- a/utilities/db-sync/db-sync.c
+++ b/utilities/db-sync/db-sync.c
@@ -194,8 +194,15 @@ int fetchsync(sync_t *sync, keylist_t *keylist, status_t *status) {
         char *key = keylist->keys[i]->element[0]->str;
         size_t keylen = keylist->keys[i]->element[0]->len;
 
-        if(!(output = redisCommand(sync->target, "SET %b %b", key, keylen, input->str, input->len)))
-            return 0;
+        if(!(output = redisCommand(sync->target, "SET %b %b", key, keylen, input->str, input->len))) {
+            fprintf(stderr, "\n[-] target: %s\n", sync->target->errstr);
+            return 1;
+        }
+
+        if(output->type == REDIS_REPLY_ERROR) {
+            fprintf(stderr, "\n[-] target: could not write key: %s\n", output->str);
+            return 1;
+        }
 
         status->transfered += input->len;
         status->copied += 1;
@@ -256,7 +263,9 @@ int synchronize(sync_t *sync) {
 
         // original reply will be free'd here
         // that's why new reply is already prepared ^
-        fetchsync(sync, &keylist, &status);
+        if(fetchsync(sync, &keylist, &status))
+            return 1;
+
         keylist.length = 0;
         keylist.size = 0;
     }
-- 
2.43.0


From 251ffb1315a972874986ee60f8c79be9fd31b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:32 +0000
Subject: [PATCH 55/55] fix: db-replicate: follow from the last key copied

Starting on an empty database crashed, and keys written between the
end of the copy and the next RSCAN were never copied.
---
 utilities/db-replicate/db-replicate.c | 32 +++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/utilities/db-replicate/db-replicate.c b/utilities/db-replicate/db-replicate.c
index e1130e8..e71a5cf 100644
--- a/utilities/db-replicate/db-replicate.c
+++ b/utilities/db-replicate/db-replicate.c
@@ -22,6 +22,9 @@ typedef struct sync_t {
     redisContext *sourcep;  // source payload
     redisContext *target;
 
+    char *cursor;           // last scan position reached
+    size_t cursorlen;
+
 } sync_t;
 
 
@@ -183,6 +186,17 @@ int replicate_from_reply(sync_t *sync, redisReply *from, status_t *status) {
             status->requested += 1;
         }
 
+        // keeping this position, next changes are after it
+        free(sync->cursor);
+        sync->cursorlen = reply->element[0]->len;
+
+        if(!(sync->cursor = malloc(sync->cursorlen))) {
+            perror("malloc");
+            exit(EXIT_FAILURE);
+        }
+
+        memcpy(sync->cursor, reply->element[0]->str, sync->cursorlen);
+
         // query next key
         if(!(reply = redisCommand(sync->sourceq, "SCAN %b", reply->element[0]->str, reply->element[0]->len)))
             return 1;
@@ -219,16 +233,12 @@ int replicate(sync_t *sync) {
 }
 
 int synchronize(sync_t *sync) {
-    redisReply *reply, *wait, *from;
+    redisReply *wait, *from;
     status_t status = {0};
 
     printf("[+] synchronizing databases\n");
 
     while(1) {
-        printf("[+] fetching last id\n");
-        if(!(reply = redisCommand(sync->sourceq, "RSCAN")))
-            return 1;
-
         printf("[+] waiting trigger on master\n");
         if(!(wait = redisCommand(sync->sourceq, "WAIT SET")))
             return 1;
@@ -236,15 +246,19 @@ int synchronize(sync_t *sync) {
         // wait is not needed
         freeReplyObject(wait);
 
-        // fetching from last ket we know
-        if(!(from = redisCommand(sync->sourceq, "SCAN %b", reply->element[0]->str, reply->element[0]->len)))
+        // fetching from last key we know, if any
+        if(sync->cursor)
+            from = redisCommand(sync->sourceq, "SCAN %b", sync->cursor, sync->cursorlen);
+        else
+            from = redisCommand(sync->sourceq, "SCAN");
+
+        if(!from)
             return 1;
 
         printf("[+] trigger fired, syncing...\n");
         if(replicate_from_reply(sync, from, &status))
             return 1;
 
-        freeReplyObject(reply);
         printf("\n");
     }
 
@@ -283,7 +297,7 @@ void usage(char *program) {
 }
 
 int main(int argc, char **argv) {
-    sync_t sync;
+    sync_t sync = {0};
     int option_index = 0;
     char *inhost = NULL, *outhost = NULL;
     int inport = 9900, outport = 9900;
-- 
2.43.0

