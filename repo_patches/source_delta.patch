From abeba86db9494be2f35e6f202bcb0b077f115620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 01/45] fix: FLUSH ignored read-only session, lock, freeze and
 worm mode

---
 zdbd/commands_namespace.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 0566d62..08a7ae5 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -647,6 +647,26 @@ int command_flush(redis_client_t *client) {
         return 1;
     }
 
+    // flushing is a write operation, apply same
+    // restrictions than any other update
+    if(!client->writable) {
+        zdbd_debug("[-] command: flush: denied, read-only namespace\n");
+        redis_hardsend(client, "-Namespace is in read-only mode");
+        return 1;
+    }
+
+    if(namespace_is_frozen(namespace))
+        return command_error_frozen(client);
+
+    if(namespace_is_locked(namespace))
+        return command_error_locked(client);
+
+    if(namespace->worm) {
+        zdbd_debug("[-] command: flush: denied, namespace in worm mode\n");
+        redis_hardsend(client, "-Namespace is protected by worm mode");
+        return 1;
+    }
+
     if(namespace_flush(namespace)) {
         redis_hardsend(client, "-Internal Server Error");
         return 1;
-- 
2.43.0


From e393627879c3ed181be2421d39cea87cc60fcc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 02/45] fix: KSCAN was still served on a frozen namespace

---
 zdbd/commands_scan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 311cbc7..1f7c0cb 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -466,6 +466,9 @@ int command_kscan(redis_client_t *client) {
     if(!command_args_validate(client, 2))
         return 1;
 
+    if(namespace_is_frozen(client->ns))
+        return command_error_frozen(client);
+
     resp_object_t *key = request->argv[1];
     list_t keys = list_init(NULL);
 
-- 
2.43.0


From 5260d247a3e34449433a98fa1629fcf8efb2a6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 03/45] fix: HOOKS, NSINFO and KSCAN left the client without
 reply on memory error

---
 zdbd/commands_namespace.c | 4 +++-
 zdbd/commands_scan.c      | 4 +++-
 zdbd/commands_system.c    | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 08a7ae5..c7a4bd4 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -290,8 +290,10 @@ int command_nsinfo(redis_client_t *client) {
     }
 
     // allocate large buffer for info
-    if(!(info = calloc(sizeof(char), 8192)))
+    if(!(info = calloc(sizeof(char), 8192))) {
+        redis_hardsend(client, "-Internal Memory Error");
         return 1;
+    }
 
     // value is hard-capped to 32 bits, even if internal uses 64 bits
     uint64_t nextid = zdb_index_next_id(namespace->index);
diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 1f7c0cb..c0b5d67 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -423,8 +423,10 @@ static int command_kscan_send_list(redis_client_t *client, list_t *list) {
     //    (in our case, this is always the same value as the returned id)
     //  - the second one is another array, of each keys found, each entry containins
     //    information about this key like timestamp and size
-    if(!(response = malloc(((MAX_KEY_LENGTH * 2) + 128) * list->length)))
+    if(!(response = malloc(((MAX_KEY_LENGTH * 2) + 128) * list->length))) {
+        redis_hardsend(client, "-Internal Memory Error");
         return 1;
+    }
 
     offset = sprintf(response, "*2\r\n$1\r\n0\r\n");
 
diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index 01dc272..dcf6236 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -132,8 +132,10 @@ int command_hooks(redis_client_t *client) {
     if(!command_admin_authorized(client))
         return 1;
 
-    if(!(info = calloc(sizeof(char), (hooks->active + 1) * 1024)))
+    if(!(info = calloc(sizeof(char), (hooks->active + 1) * 1024))) {
+        redis_hardsend(client, "-Internal Memory Error");
         return 1;
+    }
 
     len += sprintf(info, "*%lu\r\n", hooks->active);
 
-- 
2.43.0


From c14081f31dc557129a64c8ca4605370922f3c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 04/45] fix: a request which reached no handler was reported as
 the previous command

---
 zdbd/commands.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zdbd/commands.c b/zdbd/commands.c
index f20a994..15b403b 100644
--- a/zdbd/commands.c
+++ b/zdbd/commands.c
@@ -161,6 +161,11 @@ int redis_dispatcher(redis_client_t *client) {
     resp_request_t *request = client->request;
     resp_object_t *key = request->argv[0];
 
+    // reset executed flag, it's only set again when this
+    // request reach a handler (this flag is used after the command
+    // to forward it to watchers, the previous command doesn't matter)
+    client->executed = NULL;
+
     // client doesn't have a running namespace
     // this will happens when a namespace is removed
     // and the client is still attached to this namespace
@@ -178,6 +183,7 @@ int redis_dispatcher(redis_client_t *client) {
 
     if(key->type != STRING) {
         zdbd_debug("[-] command: not a string command, ignoring\n");
+        redis_hardsend(client, "-Command not supported");
         return 0;
     }
 
@@ -199,9 +205,6 @@ int redis_dispatcher(redis_client_t *client) {
     // unknown command
     zdbd_verbose("[-] command: unsupported redis command\n");
     zdbd_rootsettings.stats.cmdsfailed += 1;
-
-    // reset executed flag, this was a non-existing command
-    client->executed = NULL;
     redis_hardsend(client, "-Command not supported");
 
     return 1;
-- 
2.43.0


From bf39d25d4fe01604bc80587ca2a3f01afb670822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 05/45] fix: overwriting a key invalidated the previous version
 before the new one was stored

---
 libzdb/index_set.c  | 28 +++++++++++++++-------------
 zdbd/commands_set.c |  2 +-
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index 70f492d..f91a912 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -302,24 +302,26 @@ index_entry_t *index_update_memory_handler_sequential(index_root_t *root, index_
 
 // public disk and memory part
 index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, index_entry_t *previous) {
-    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
-    index_entry_delete_disk(root, previous);
-
-    // update memory state
-    index_entry_t *entry = index_update_memory_handler_memkey(root, set, previous);
-
-    index_set_t updated = {
-        .entry = entry,
-        .id = set->id,
-    };
+    // ensure flags are empty, and link this new version
+    // to the previous one, to keep track of the history
+    set->entry->flags = 0;
+    set->entry->parentid = previous->indexid;
+    set->entry->parentoff = previous->idxoffset;
 
-    // append the data on the disk
-    if(index_append_entry_on_disk(root, &updated)) {
+    // append the data on the disk, the previous version needs to
+    // stay valid (on disk and in memory) until this one is written
+    if(index_append_entry_on_disk(root, set)) {
         zdb_debug("[-] index: update entry failed: could not write on disk\n");
         return NULL;
     }
 
-    return entry;
+    // this is not fatal if previous version is not flagged, when
+    // replaying the index, the new version overrides it anyway
+    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
+    index_entry_delete_disk(root, previous);
+
+    // update memory state
+    return index_update_memory_handler_memkey(root, set, previous);
 }
 
 index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *set, index_entry_t *previous) {
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index 90ff943..a293264 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -138,7 +138,7 @@ static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *e
         .offset = offset,
         .length = request->argv[2]->length,
         .crc = dreq.crc,
-        // .dataid = data->dataid,
+        .dataid = data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
-- 
2.43.0


From 592b511dbadd8ead5aae82bbc9ccbca11d18531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 06/45] fix: failed index append was linked as previous entry

---
 libzdb/index_set.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index f91a912..cc827e6 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -147,9 +147,6 @@ int index_append_entry_on_disk(index_root_t *root, index_set_t *set) {
 
     index_item_t *item = index_item_from_set(root, set);
 
-    // updating global previous
-    root->previous = curoffset;
-
     // writing data on the disk
     if(!index_write(root->indexfd, item, entrylength, root)) {
         zdb_verbosep("index_append_entry_on_disk", "cannot write index entry on disk");
@@ -160,6 +157,9 @@ int index_append_entry_on_disk(index_root_t *root, index_set_t *set) {
         return 1;
     }
 
+    // updating global previous
+    root->previous = curoffset;
+
     return 0;
 }
 
-- 
2.43.0


From 60e40a9a4620bae58f7512e4a6a385afe2430ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 07/45] fix: sequential update was acknowledged when index
 could not be overwritten

---
 libzdb/index_set.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index cc827e6..160f25b 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -346,13 +346,17 @@ index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *se
     // with the latest data (the new one, basicly)
     set->entry->parentid = root->indexid;
     set->entry->parentoff = previous->idxoffset;
-    index_seq_overwrite(root, set);
 
     // since we added a new entry on the index, the next id needs
     // to be incremented to skip this position in the futur
     root->nextid += 1;
     root->nextentry += 1;
 
+    if(index_seq_overwrite(root, set)) {
+        zdb_debug("[-] index: update entry failed: could not overwrite original entry\n");
+        return NULL;
+    }
+
     // update statistics
     root->stats.datasize -= previous->length;
     root->stats.datasize += set->entry->length;
-- 
2.43.0


From 3d0c3dc92eae9403712e830e3c48da3f9fea17c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 08/45] fix: memory leak when comparing data with existing
 entry

---
 zdbd/commands_set.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index a293264..fd40823 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -65,12 +65,13 @@ static int data_compare_matching(index_entry_t *existing, data_request_t *dreq,
         return 0;
 
     // check if data are the same
-    if(memcmp(payload.buffer, dreq->data, dreq->datalength) == 0) {
+    int matching = (memcmp(payload.buffer, dreq->data, dreq->datalength) == 0);
+    free(payload.buffer);
+
+    if(matching)
         zdbd_debug("[+] command: set: matching data, ignoring update\n");
-        return 1;
-    }
 
-    return 0;
+    return matching;
 }
 
 static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *existing) {
-- 
2.43.0


From 3a69b78867c5b55b61e50675fb929d26b79fedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 09/45] fix: in-place index updates ignored the sync setting

---
 libzdb/index.c        | 8 +-------
 libzdb/index_loader.c | 2 +-
 libzdb/index_set.c    | 2 +-
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index 56a325b..4907386 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -568,14 +568,8 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     lseek(fd, entry->idxoffset, SEEK_SET);
 
     // overwrite the key
-    // FIXME: why not using index_write ?
-    if(write(fd, index_transition, entrylength) != (ssize_t) entrylength) {
+    if(!index_write(fd, index_transition, entrylength, root)) {
         zdb_warnp("index_entry_delete write");
-
-        // FIXME: not needed if using index_write
-        root->stats.errors += 1;
-        root->stats.lasterr = time(NULL);
-
         close(fd);
         return 1;
     }
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 2cfd371..0158aa3 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -679,7 +679,7 @@ int index_switch_mode(index_root_t *root) {
     // rewrite header
     lseek(fd, 0, SEEK_SET);
 
-    if(write(fd, &header, sizeof(header)) != sizeof(header)) {
+    if(!index_write(fd, &header, sizeof(header), root)) {
         zdb_warnp("index_switch_mode: write");
         close(fd);
         return 1;
diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index 160f25b..da7aeb8 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -95,7 +95,7 @@ int index_seq_overwrite(index_root_t *root, index_set_t *set) {
     // overwrite the key
     lseek(fd, offset, SEEK_SET);
 
-    if(write(fd, item, entrylength) != (ssize_t) entrylength) {
+    if(!index_write(fd, item, entrylength, root)) {
         zdb_warnp("index_seq_overwrite re-write");
         close(fd);
         return 1;
-- 
2.43.0


From 3df547e803c34eb160e0268b473d69023e53dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 10/45] fix: api: set used the default mode and not the
 namespace mode

---
 libzdb/api.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index e5bf558..02c1e8f 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -151,6 +151,7 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
         .offset = offset,
         .length = psize,
         .crc = dreq.crc,
+        .dataid = ns->data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
@@ -232,6 +233,7 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
         .offset = offset,
         .length = psize,
         .crc = dreq.crc,
+        .dataid = ns->data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
@@ -302,7 +304,7 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
         data_jump_next(ns->data, newid);
     }
 
-    return api_set_handlers[zdb_rootsettings.mode](ns, key, ksize, payload, psize, entry);
+    return api_set_handlers[ns->index->mode](ns, key, ksize, payload, psize, entry);
 }
 
 
-- 
2.43.0


From c7e0b6713434600cc282300a91a477644eac2fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 11/45] fix: SELECT SECURE let the same challenge be used more
 than once

---
 zdbd/commands_namespace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index c7a4bd4..f6d2f99 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -213,6 +213,10 @@ int command_select(redis_client_t *client) {
 
                 zdbd_debug("[+] namespace: auth: expected hash: %s\n", expected);
 
+                // challenge can only be used once
+                free(client->nonce);
+                client->nonce = NULL;
+
                 resp_object_t *user = request->argv[3];
 
                 if(zdbd_password_check(user->buffer, user->length, expected) == 0) {
-- 
2.43.0


From 4a6fdc38fa1b1aa815f674afa526a173eb818914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 12/45] fix: FLUSH did not remove the data and index files

Files were still matched by the name they had in previous versions, so
nothing was removed from disk and entries came back with the reload.
---
 libzdb/filesystem.c | 20 ++++++++++----------
 libzdb/namespace.c  |  8 ++++++++
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/libzdb/filesystem.c b/libzdb/filesystem.c
index 7190c62..f1d46b5 100644
--- a/libzdb/filesystem.c
+++ b/libzdb/filesystem.c
@@ -70,20 +70,20 @@ int zdb_dir_remove(char *path) {
     return nftw(path, dir_remove_cb, 64, FTW_DEPTH | FTW_PHYS);
 }
 
+// payload files are called d<id> (data) and i<id> (index)
+static int payload_filename(const char *name) {
+    if(name[0] != 'd' && name[0] != 'i')
+        return 0;
+
+    return name[1] != '\0' && name[1 + strspn(name + 1, "0123456789")] == '\0';
+}
+
 static int dir_clean_cb(const char *fpath, const struct stat *sb, int tflag, struct FTW *ftwbuf) {
     (void) sb;
-    (void) ftwbuf;
-    (void) tflag;
     char *fullpath = (char *) fpath;
-    size_t length = strlen(fullpath);
-
-    if(strncmp(fullpath + length - 14, "zdb-data-", 9) == 0) {
-        zdb_debug("[+] filesystem: removing datafile: %s\n", fullpath);
-        unlink(fullpath);
-    }
 
-    if(strncmp(fullpath + length - 15, "zdb-index-", 10) == 0) {
-        zdb_debug("[+] filesystem: removing indexfile: %s\n", fullpath);
+    if(tflag == FTW_F && payload_filename(fullpath + ftwbuf->base)) {
+        zdb_debug("[+] filesystem: removing payload file: %s\n", fullpath);
         unlink(fullpath);
     }
 
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 23a2409..94c012b 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -634,6 +634,7 @@ int namespace_flush(namespace_t *namespace) {
 
     char *indexpath = strdup(namespace->index->indexdir);
     char *datapath = strdup(namespace->data->datadir);
+    index_mode_t mode = namespace->index->mode;
 
     zdb_debug("[+] namespace: flushing: destroying objects\n");
     index_destroy(namespace->index);
@@ -646,6 +647,13 @@ int namespace_flush(namespace_t *namespace) {
     zdb_debug("[+] namespace: flushing: reloading data\n");
     namespace_load_lazy(nsroot, namespace);
 
+    // contents is lost but not the mode of the namespace
+    if(namespace->index->mode != mode) {
+        namespace->index->mode = mode;
+        index_switch_mode(namespace->index);
+        index_rehash(namespace->index);
+    }
+
     free(indexpath);
     free(datapath);
 
-- 
2.43.0


From 5e6a8ff1b81bd87c7fba7ffa5dd8aebf8753719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 13/45] fix: arguments with a negative length were accepted

---
 zdbd/redis.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 7d6b3fb..d114e39 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -507,6 +507,12 @@ static resp_status_t redis_handle_resp_header(redis_client_t *client) {
 
     // reading the length of the array
     argument->length = atoi(buffer->reader + 1);
+
+    if(argument->length < 0) {
+        resp_discard(client, "Malformed query string");
+        return RESP_STATUS_DISCARD;
+    }
+
     // real size is the length + 2 (\r\n)
     argument->size = argument->length + 2;
 
-- 
2.43.0


From f360c1c5a5308cedac0e4fe4dbcfb87377a685b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 14/45] fix: request of a master without owner id used freed
 memory

---
 zdbd/redis.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index d114e39..02483ae 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -616,7 +616,13 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
         return 0;
     }
 
-    // this comes from a replication client
+    // this comes from a replication client, there is at least
+    // one command and the owner id
+    if(client->request->argc < 2) {
+        zdbd_debug("[-] redis: owner check: owner id missing, dropping\n");
+        return 1;
+    }
+
     // extracting the owner id (which is the last argument)
     // and checking if it's a replay of our own database
     resp_object_t *ownobj = client->request->argv[client->request->argc - 1];
-- 
2.43.0


From d8b2b95656ad9d31e9e7af003415f2ad72c1dcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 15/45] fix: requests had no owner id

The owner was never set (the heap content was used), mirroring a request
or not was random and replication loops were not detected.
---
 zdbd/redis.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 02483ae..b2039fb 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -612,7 +612,7 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
     // it's a normal client, there is nothing special to do
     // just set the owner id as our own id
     if(!client->master) {
-        // client->request->owner = zdbd_rootsettings.iid; // FIXME
+        client->request->owner = zdb_instanceid_get();
         return 0;
     }
 
@@ -639,12 +639,10 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
     // converting string into unsigned integer
     uint32_t ownerid = strtoul(temp, NULL, 10);
 
-    /* FIXME
-    if(ownerid == zdbd_rootsettings.iid) {
+    if(ownerid == zdb_instanceid_get()) {
         zdbd_debug("[-] redis: owner check: looks like this comes from us, dropping\n");
         return 1;
     }
-    */
 
     // okay, let's pop this request from original object
     // so this request will looks like an original request
-- 
2.43.0


From 63521e27b7472c939657f7d1ba3ba6d8d527522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 16/45] fix: HISTORY crashed or leaked memory when an entry
 could not be read

---
 zdbd/commands_history.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_history.c b/zdbd/commands_history.c
index d6f3fc8..106b247 100644
--- a/zdbd/commands_history.c
+++ b/zdbd/commands_history.c
@@ -101,6 +101,13 @@ int history_send(redis_client_t *client, index_item_t *item, index_ekey_t *ekey)
     data_root_t *data = client->ns->data;
     history_response_t response;
 
+    // index entry could not be read
+    if(!item) {
+        zdb_log("[-] command: history: cannot read index entry\n");
+        redis_hardsend(client, "-Internal Error");
+        return 1;
+    }
+
     // dump entry found
     index_item_header_dump(item);
 
@@ -110,7 +117,7 @@ int history_send(redis_client_t *client, index_item_t *item, index_ekey_t *ekey)
     if(!response.payload.buffer) {
         zdb_log("[-] command: history: cannot read payload\n");
         redis_hardsend(client, "-Internal Error");
-        free(response.payload.buffer);
+        free(item);
         return 0;
     }
 
-- 
2.43.0


From afed288e6671dd06352d1fc9ad16f2fdcd1a8cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 17/45] fix: HISTORY and KEYCUR truncated the length of long
 keys

---
 zdbd/commands_history.c | 6 ++++++
 zdbd/commands_scan.c    | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/zdbd/commands_history.c b/zdbd/commands_history.c
index 106b247..dc11775 100644
--- a/zdbd/commands_history.c
+++ b/zdbd/commands_history.c
@@ -162,6 +162,12 @@ int command_history(redis_client_t *client) {
     if(namespace_is_frozen(client->ns))
         return command_error_frozen(client);
 
+    // no key longer than this can exist
+    if(client->request->argv[1]->length > MAX_KEY_LENGTH) {
+        redis_hardsend(client, "-Invalid key");
+        return 1;
+    }
+
     // requesting a previous data, without any exact offset
     // this basicly request the first older entry of a specific key
     if(client->request->argc == 2) {
diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index c0b5d67..70d5894 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -345,6 +345,11 @@ int command_keycur(redis_client_t *client) {
     index_root_t *index = client->ns->index;
     resp_object_t *key = request->argv[1];
 
+    if(key->length > MAX_KEY_LENGTH) {
+        redis_hardsend(client, "-Invalid key");
+        return 1;
+    }
+
     if(!(entry = index_get(index, key->buffer, key->length))) {
         redis_hardsend(client, "-Key not found");
         return 1;
-- 
2.43.0


From 64d39c4595166e47467e10706823efe0e64034d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 18/45] fix: a 256 bytes argument overflowed the local copy

---
 zdbd/commands_namespace.c | 2 +-
 zdbd/commands_system.c    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index f6d2f99..e98748e 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -512,7 +512,7 @@ int command_nsset(redis_client_t *client) {
     if(!command_args_namespace(client, 1))
         return 1;
 
-    if(!command_args_overflow(client, 2, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 2, COMMAND_MAXLEN - 1))
         return 1;
 
     // limit size of the value
diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index dcf6236..f118583 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -188,7 +188,7 @@ static int command_index_dirty(redis_client_t *client) {
     char *response;
 
     if(request->argc == 3) {
-        if(!command_args_overflow(client, 2, COMMAND_MAXLEN))
+        if(!command_args_overflow(client, 2, COMMAND_MAXLEN - 1))
             return 1;
 
         sprintf(subcommand, "%.*s", request->argv[2]->length, (char *) request->argv[2]->buffer);
@@ -239,7 +239,7 @@ int command_index(redis_client_t *client) {
     if(!command_args_validate_min(client, 2))
         return 1;
 
-    if(!command_args_overflow(client, 1, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 1, COMMAND_MAXLEN - 1))
         return 1;
 
     sprintf(command, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
@@ -351,7 +351,7 @@ int command_data(redis_client_t *client) {
     if(!command_args_validate_min(client, 2))
         return 1;
 
-    if(!command_args_overflow(client, 1, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 1, COMMAND_MAXLEN - 1))
         return 1;
 
     sprintf(command, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
-- 
2.43.0


From e6da519569ff27ec70236943b7ca003638a044e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 19/45] fix: NSNEW accepted an empty name

---
 libzdb/namespace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 94c012b..f7af78c 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -365,6 +365,10 @@ int namespace_create(char *name) {
 }
 
 int namespace_valid_name(char *name) {
+    // empty name would be the root directory itself
+    if(strlen(name) == 0)
+        return 0;
+
     if(strcmp(name, ".") == 0 || strcmp(name, "..") == 0)
         return 0;
 
-- 
2.43.0


From 9d981a11d6d81d7a7a71d8734e62e68e1f0a9383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 20/45] fix: SET of a deleted sequential id with the same data
 stored nothing

---
 zdbd/commands_set.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index fd40823..74177a8 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -52,6 +52,10 @@ time_t timestamp_from_set(resp_request_t *request, int field) {
 static int data_compare_matching(index_entry_t *existing, data_request_t *dreq, data_root_t *data) {
     zdbd_debug("[+] command: set: existing %08x <> %08x crc match, inspecting\n", existing->crc, dreq->crc);
 
+    // nothing to compare with, the existing entry was deleted
+    if(index_entry_is_deleted(existing))
+        return 0;
+
     // size differs, it's obviously different
     if(existing->length != dreq->datalength)
         return 0;
-- 
2.43.0


From 54dbb45370e1e012720417b34bb9221770a64775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 21/45] fix: api: set ignored an update when only the checksum
 matched

---
 libzdb/api.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 02c1e8f..29e6af4 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -105,6 +105,27 @@ char *zdb_api_debug_type(zdb_api_type_t type) {
 //
 // api
 //
+
+// crc match does not mean data are the same, see comments about
+// data_compare_matching in the server set command
+static int api_set_matching(namespace_t *ns, index_entry_t *existing, data_request_t *dreq) {
+    if(index_entry_is_deleted(existing))
+        return 0;
+
+    if(existing->crc != dreq->crc || existing->length != dreq->datalength)
+        return 0;
+
+    data_payload_t payload = data_get(ns->data, existing->offset, existing->length, existing->dataid, existing->idlength);
+
+    if(!payload.buffer)
+        return 0;
+
+    int matching = (memcmp(payload.buffer, dreq->data, dreq->datalength) == 0);
+    free(payload.buffer);
+
+    return matching;
+}
+
 static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksize, void *payload, size_t psize, index_entry_t *existing) {
     if(ksize == 0)
         return zdb_api_reply_error("Invalid argument, key needed");
@@ -126,8 +147,8 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
     };
 
     // checking if we need to update this entry of if data are unchanged
-    if(existing && existing->crc == dreq.crc) {
-        zdb_debug("[+] api: set: existing %08x <> %08x crc match, ignoring\n", existing->crc, dreq.crc);
+    if(existing && api_set_matching(ns, existing, &dreq)) {
+        zdb_debug("[+] api: set: existing %08x <> %08x data match, ignoring\n", existing->crc, dreq.crc);
         return zdb_api_reply(ZDB_API_UP_TO_DATE, NULL);
     }
 
@@ -207,8 +228,8 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
     };
 
     // checking if we need to update this entry of if data are unchanged
-    if(existing && existing->crc == dreq.crc) {
-        zdb_debug("[+] api: set: existing %08x <> %08x crc match, ignoring\n", existing->crc, dreq.crc);
+    if(existing && api_set_matching(ns, existing, &dreq)) {
+        zdb_debug("[+] api: set: existing %08x <> %08x data match, ignoring\n", existing->crc, dreq.crc);
         return zdb_api_reply(ZDB_API_UP_TO_DATE, NULL);
     }
 
-- 
2.43.0


From 56f78855b6c188923842baab0385d715011c814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 22/45] fix: api: length of long keys was truncated

---
 libzdb/api.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libzdb/api.c b/libzdb/api.c
index 29e6af4..0c003cf 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -292,6 +292,9 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
     index_entry_t *entry = NULL;
     size_t floating = 0;
 
+    if(ksize > MAX_KEY_LENGTH)
+        return zdb_api_reply_error("Key too large");
+
     // if the user want to override an existing key
     // and the maxsize of the namespace is reached, we need
     // to know if the replacement data is shorter, this is
@@ -335,6 +338,10 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
 zdb_api_t *zdb_api_get(namespace_t *ns, void *key, size_t ksize) {
     index_entry_t *entry = NULL;
 
+    // no key longer than this can exist
+    if(ksize > MAX_KEY_LENGTH)
+        return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
+
     // fetching index entry for this key
     if(!(entry = index_get(ns->index, key, ksize))) {
         zdb_debug("[-] api: get: key not found\n");
@@ -370,6 +377,9 @@ zdb_api_t *zdb_api_get(namespace_t *ns, void *key, size_t ksize) {
 // DATASET
 //
 zdb_api_t *zdb_api_exists(namespace_t *ns, void *key, size_t ksize) {
+    if(ksize > MAX_KEY_LENGTH)
+        return zdb_api_reply(ZDB_API_FALSE, NULL);
+
     index_entry_t *entry = index_get(ns->index, key, ksize);
 
     zdb_debug("[+] api: exists: entry found: %s\n", (entry ? "yes" : "no"));
@@ -387,6 +397,9 @@ zdb_api_t *zdb_api_exists(namespace_t *ns, void *key, size_t ksize) {
 }
 
 zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
+    if(ksize > MAX_KEY_LENGTH)
+        return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
+
     index_entry_t *entry = index_get(ns->index, key, ksize);
 
     // key not found at all
@@ -412,6 +425,9 @@ zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
 zdb_api_t *zdb_api_del(namespace_t *ns, void *key, size_t ksize) {
     index_entry_t *entry;
 
+    if(ksize > MAX_KEY_LENGTH)
+        return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
+
     // grabbing original entry
     if(!(entry = index_get(ns->index, key, ksize))) {
         zdb_debug("[-] api: del: key not found\n");
-- 
2.43.0


From ac8f212e34111e2cfb0f8e9c354979daf68bcbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 23/45] fix: api: check succeeded when data could not be read

---
 libzdb/api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 0c003cf..5f1d411 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -419,7 +419,7 @@ zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
     zdb_debug("[+] api: get: data file: %d, data offset: %" PRIu32 "\n", entry->dataid, entry->offset);
 
     int status = data_check(ns->data, entry->offset, entry->dataid);
-    return zdb_api_reply(status ? ZDB_API_TRUE : ZDB_API_FALSE, NULL);
+    return zdb_api_reply(status == 1 ? ZDB_API_TRUE : ZDB_API_FALSE, NULL);
 }
 
 zdb_api_t *zdb_api_del(namespace_t *ns, void *key, size_t ksize) {
-- 
2.43.0


From 82ad463a116b16cb2fcc9e8d7d91f7ee081773ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 24/45] fix: sequential update trusted the id length of the
 stored record

---
 libzdb/api.c        | 2 +-
 zdbd/commands_set.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 5f1d411..ea84ce4 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -209,7 +209,7 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
 
     // setting key to existing if we do an update
     if(existing)
-        memcpy(&id, existing->id, existing->idlength);
+        memcpy(&id, existing->id, idlength);
 
     // setting the timestamp // FIXME
     // time_t timestamp = timestamp_from_set(request);
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index 74177a8..493e881 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -199,7 +199,7 @@ static size_t redis_set_handler_sequential(redis_client_t *client, index_entry_t
     if(existing) {
         zdbd_debug("[+] command: set: updating existing id: ");
         zdbd_debughex(existing->id, existing->idlength);
-        memcpy(&id, existing->id, existing->idlength);
+        memcpy(&id, existing->id, idlength);
     }
 
     unsigned char *value = request->argv[2]->buffer;
-- 
2.43.0


From c0be7724ba9e195b133c7e7a5ae3c601b689c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 25/45] fix: requests received after a disconnection or STOP
 were still executed

---
 zdbd/redis.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index b2039fb..a1ce6f8 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -795,6 +795,14 @@ go_again:
         if(request->fillin == request->argc) {
             pzdbd_debug("[+] redis: request completed, executing\n");
             value = redis_handle_resp_finished(client);
+
+            // the client needs to be disconnected or the server stopped,
+            // requests already received after this one are not executed
+            if(value == RESP_STATUS_DISCARD || value == RESP_STATUS_DISCONNECTED)
+                break;
+
+            if(value == RESP_STATUS_DONE || value == RESP_STATUS_SHUTDOWN)
+                break;
         }
     }
 
-- 
2.43.0


From 86ca6afe444e4491f755f2e13e84cde5590e1642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 26/45] fix: requests already received could stay unread with
 edge-triggered events

---
 zdbd/redis.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index a1ce6f8..e55e7f7 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -818,15 +818,11 @@ go_again:
         return value;
     }
 
-    // not suceed, let's try again
-    if(value != RESP_STATUS_SUCCESS) {
-        pzdbd_debug("[+] redis: parsing didn't suceed, trying again\n");
-        goto go_again;
-    }
-
-    // success
-    pzdbd_debug("[+] redis: socket parsing succeed\n");
-    return RESP_STATUS_SUCCESS;
+    // the socket is watched in edge-triggered mode, there won't be any new
+    // notification for what is already received, let's read until there is
+    // nothing more available
+    pzdbd_debug("[+] redis: socket parsing done, trying again\n");
+    goto go_again;
 }
 
 void socket_nonblock(int fd) {
-- 
2.43.0


From a8717f8592fa962a35ec1fb1871c967cc9197558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 27/45] fix: a malformed request was never consumed and
 answered again with each new data

---
 zdbd/redis.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index e55e7f7..046f629 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -437,7 +437,7 @@ static resp_status_t redis_handle_resp_empty(redis_client_t *client) {
 
     if(request->argc == 0) {
         resp_discard(client, "Missing arguments");
-        return RESP_STATUS_ABNORMAL;
+        return RESP_STATUS_DISCARD;
     }
 
     // we don't have any command
@@ -445,7 +445,7 @@ static resp_status_t redis_handle_resp_empty(redis_client_t *client) {
     // but let put a higher limit, just in case
     if(request->argc > 1024) {
         resp_discard(client, "Too many arguments");
-        return RESP_STATUS_ABNORMAL;
+        return RESP_STATUS_DISCARD;
     }
 
     // allocating needed requests per arguments announced
@@ -494,7 +494,7 @@ static resp_status_t redis_handle_resp_header(redis_client_t *client) {
     if(*buffer->reader != '$') {
         zdbd_debug("[-] resp: request is not a string, rejecting\n");
         resp_discard(client, "Malformed query string");
-        return RESP_STATUS_ABNORMAL;
+        return RESP_STATUS_DISCARD;
     }
 
     if(!(request->argv[request->fillin] = calloc(sizeof(resp_object_t), 1))) {
-- 
2.43.0


From 79f2630bb4b7d4db4a4553cdadcd5a7064748cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 28/45] fix: argument counts and lengths could be parsed beyond
 the receive buffer

---
 zdbd/redis.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 046f629..a012405 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -81,8 +81,8 @@ static buffer_t buffer_new() {
     // initializing empty buffer
     buffer_reset(&buffer);
 
-    // allocating memory
-    if(!(buffer.buffer = (char *) malloc(sizeof(char) * REDIS_BUFFER_SIZE))) {
+    // allocating memory (with one extra byte for the string terminator)
+    if(!(buffer.buffer = (char *) malloc(sizeof(char) * (REDIS_BUFFER_SIZE + 1)))) {
         zdbd_warnp("new client buffer malloc");
         return buffer;
     }
@@ -738,8 +738,8 @@ go_again:
     zdbd_fulldump((uint8_t *) buffer->buffer, buffer->length);
     #endif
 
-    // ensure string (needed for testing later)
-    // buffer->buffer[buffer->length] = '\0';
+    // ensure string (needed to parse numbers)
+    *buffer->writer = '\0';
 
     // while we didn't parsed everything available
     // on the buffer
-- 
2.43.0


From fddb560cbb7059a91fed9c725b3985e35535d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 29/45] fix: pending responses of a disconnected client were
 never released

---
 zdbd/redis.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index a012405..b902057 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -939,6 +939,14 @@ void socket_client_free(int fd) {
     // closing socket
     close(client->fd);
 
+    // dropping responses not sent yet
+    while(client->responses) {
+        redis_response_t *next = client->responses->next;
+
+        redis_response_free(client->responses);
+        client->responses = next;
+    }
+
     // cleaning client memory usage
     redis_free_request(client->request);
     buffer_free(&client->buffer);
-- 
2.43.0


From c773c45afdeefa6bbbd356bdd3a9722e0315b060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 30/45] fix: connection without client when memory is exhausted
 crashed the server

---
 zdbd/redis.c        | 1 +
 zdbd/socket_epoll.c | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index b902057..247289a 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -894,6 +894,7 @@ redis_client_t *socket_client_new(int fd) {
     // allocate a single request object
     if(!(client->request = (resp_request_t *) malloc(sizeof(resp_request_t)))) {
         zdbd_warnp("new client request malloc");
+        buffer_free(&client->buffer);
         free(client);
         return NULL;
     }
diff --git a/zdbd/socket_epoll.c b/zdbd/socket_epoll.c
index a23efe9..2c710af 100644
--- a/zdbd/socket_epoll.c
+++ b/zdbd/socket_epoll.c
@@ -27,7 +27,11 @@ static int socket_client_accept(redis_handler_t *redis, int fd) {
 
     socket_nonblock(clientfd);
     socket_keepalive(clientfd);
-    socket_client_new(clientfd);
+
+    if(!socket_client_new(clientfd)) {
+        close(clientfd);
+        return 0;
+    }
 
     zdbd_verbose("[+] incoming connection (socket %d)\n", clientfd);
 
@@ -45,6 +49,7 @@ static int socket_client_accept(redis_handler_t *redis, int fd) {
 
     if(epoll_ctl(redis->evfd, EPOLL_CTL_ADD, clientfd, &event) < 0) {
         zdbd_verbosep("socket_event", "epoll_ctl");
+        socket_client_free(clientfd);
         return 0;
     }
 
-- 
2.43.0


From 01c1454a0a141d87cdb183e10be495bd4f83ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 31/45] fix: an empty or truncated name ran another command

---
 zdbd/commands.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/zdbd/commands.c b/zdbd/commands.c
index 15b403b..11b2ce3 100644
--- a/zdbd/commands.c
+++ b/zdbd/commands.c
@@ -157,6 +157,14 @@ static command_t commands_handlers[] = {
     {.command = "FLUSH",   .handler = command_flush},    // custom command to reset a namespace
 };
 
+// check if the argument is the full name of the command
+static int command_match(resp_object_t *key, command_t *command) {
+    if(key->length != (int) strlen(command->command))
+        return 0;
+
+    return (strncasecmp(key->buffer, command->command, key->length) == 0);
+}
+
 int redis_dispatcher(redis_client_t *client) {
     resp_request_t *request = client->request;
     resp_object_t *key = request->argv[0];
@@ -190,7 +198,7 @@ int redis_dispatcher(redis_client_t *client) {
     zdbd_debug("[+] command: '%.*s' [+%d args]\n", key->length, (char *) key->buffer, request->argc - 1);
 
     for(unsigned int i = 0; i < sizeof(commands_handlers) / sizeof(command_t); i++) {
-        if(strncasecmp(key->buffer, commands_handlers[i].command, key->length) == 0) {
+        if(command_match(key, &commands_handlers[i])) {
             // save last command executed
             client->executed = &commands_handlers[i];
 
@@ -225,7 +233,7 @@ int command_wait(redis_client_t *client) {
 
     // checking if the requested command is supported
     for(unsigned int i = 0; i < sizeof(commands_handlers) / sizeof(command_t); i++) {
-        if(strncasecmp(key->buffer, commands_handlers[i].command, key->length) == 0) {
+        if(command_match(key, &commands_handlers[i])) {
             handler = &commands_handlers[i];
             break;
         }
-- 
2.43.0


From 245d02bffbd5e17af29143b40be0db14b6714957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 32/45] fix: index: mapping of sequential ids pointed to an
 empty file after two rotations

---
 libzdb/index_seq.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libzdb/index_seq.c b/libzdb/index_seq.c
index 9226bb0..7c17ba6 100644
--- a/libzdb/index_seq.c
+++ b/libzdb/index_seq.c
@@ -50,6 +50,13 @@ index_seqmap_t *index_fileid_from_seq(index_root_t *root, seqid_t seqid) {
 void index_seqid_push(index_root_t *root, seqid_t id, fileid_t indexid) {
     zdb_debug("[+] index seq: mapping id %" PRIu64 " to file %u\n", id, indexid);
 
+    // the last file mapped is still empty, this id will be stored
+    // in the new file, ids need to be unique in this map
+    if(root->seqid->length > 0 && root->seqid->seqmap[root->seqid->length - 1].seqid == id) {
+        root->seqid->seqmap[root->seqid->length - 1].fileid = indexid;
+        return;
+    }
+
     if(root->seqid->length + 1 == root->seqid->allocated) {
         // growing up the vector
         root->seqid->allocated += 1024;
-- 
2.43.0


From 4bade83060c44e8f52e22a2fe808b4160b7c93f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:42 +0000
Subject: [PATCH 33/45] fix: index: keys inserted after reloading an empty
 sequential index file could not be found

---
 libzdb/index_loader.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 0158aa3..3765fc8 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -298,8 +298,7 @@ static size_t index_load_file(index_root_t *root) {
         zdb_diep("index buffer: read");
 
     // positioning seeker to beginin of index entries
-    char *initseeker = filebuf + sizeof(index_header_t);
-    char *seeker = initseeker;
+    char *seeker = filebuf + sizeof(index_header_t);
 
     // reading the index, populating memory
     //
@@ -314,6 +313,17 @@ static size_t index_load_file(index_root_t *root) {
     // this file, starting from zero
     root->nextid = 0;
 
+    // checking if we are in sequential mode, we need to populate
+    // our mapping with the first key of this file, even if this file
+    // is still empty (next key will be inserted there)
+    //
+    // the set operation will update 'nextentry' counter
+    // we need to update seqid before inserting key
+    if(root->seqid) {
+        index_seqid_push(root, root->nextentry, root->indexid);
+        // index_seqid_dump(root);
+    }
+
     while(seeker < filebuf + fullsize) {
         index_entry_t *fresh = NULL;
 
@@ -337,17 +347,6 @@ static size_t index_load_file(index_root_t *root) {
             .parentoff = entry->parentoff,
         };
 
-        // checking if we are in sequential mode
-        // and this if the first key, we need to populate
-        // our mapping with this key
-        //
-        // the set operation will update 'nextentry' counter
-        // we need to update seqid before inserting key
-        if(root->seqid && seeker == initseeker) {
-            index_seqid_push(root, root->nextentry, root->indexid);
-            // index_seqid_dump(root);
-        }
-
         // insert this entry like it was inserted by a user
         // this allows us to keep a generic way of inserting data and keeping a
         // single point of logic when adding data (logic for overwrite, resize bucket, ...)
-- 
2.43.0


From f417e57f9d4e06937254745a3cf6045c4b16305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 34/45] fix: CHECK answered -1 when the payload could not be
 read

---
 zdbd/commands_dataset.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_dataset.c b/zdbd/commands_dataset.c
index d9f2a45..187847c 100644
--- a/zdbd/commands_dataset.c
+++ b/zdbd/commands_dataset.c
@@ -91,7 +91,10 @@ int command_check(redis_client_t *client) {
     zdbd_debug("[+] command: check: data file: %d, data offset: %" PRIu32 "\n", entry->dataid, entry->offset);
 
     data_root_t *data = client->ns->data;
-    int status = data_check(data, entry->offset, entry->dataid);
+
+    // anything but a match (even a payload which cannot be read)
+    // means the integrity is not validated
+    int status = (data_check(data, entry->offset, entry->dataid) == 1);
 
     char response[32];
     sprintf(response, ":%d\r\n", status);
-- 
2.43.0


From e53f9a547af3c5ec13ecfba8a69016988b4f5508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:53 +0000
Subject: [PATCH 35/45] fix: index: sequential lookup of a large id answered
 another record

The position of the record was computed on 32 bits and the record found there
was used without looking at its id, asking for id 4294967296 answered record 0.
---
 libzdb/index_get.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libzdb/index_get.c b/libzdb/index_get.c
index 42adfda..5d60d7e 100644
--- a/libzdb/index_get.c
+++ b/libzdb/index_get.c
@@ -28,8 +28,8 @@ static index_entry_t *index_get_handler_sequential(index_root_t *index, void *id
     index_seqmap_t *seqmap = index_fileid_from_seq(index, key);
 
     // resolving relative offset
-    uint32_t relative = key - seqmap->seqid;
-    uint32_t offset = index_seq_offset(relative);
+    seqid_t relative = key - seqmap->seqid;
+    size_t offset = index_seq_offset(relative);
 
     // reading index on disk
     index_item_t *item;
@@ -37,6 +37,14 @@ static index_entry_t *index_get_handler_sequential(index_root_t *index, void *id
     if(!(item = index_item_get_disk(index, seqmap->fileid, offset, sizeof(seqid_t))))
         return NULL;
 
+    // the position is only a guess, what was found there
+    // needs to be the key requested
+    if(item->idlength != sizeof(seqid_t) || memcmp(item->id, &key, sizeof(seqid_t))) {
+        zdb_debug("[-] index: sequential get: another key found at this offset\n");
+        free(item);
+        return NULL;
+    }
+
     memcpy(index_reusable_entry->id, item->id, item->idlength);
     index_reusable_entry->idlength = item->idlength;
     index_reusable_entry->offset = item->offset;
-- 
2.43.0


From 6ae11fea7d0804c27c60a2ff54b7e87007c0df8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:48 +0000
Subject: [PATCH 36/45] fix: index: an empty index file found when loading was
 used without header

A crash between the creation of a new index file and the write of its
header left a file which was then used as active file, without header:
everything stored in it was lost and the next start refused the file.
---
 libzdb/index_loader.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 3765fc8..c28725f 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -215,10 +215,11 @@ static size_t index_load_file(index_root_t *root) {
         // we could not read anything, which basicly means that
         // the file is empty, we probably just created it
         //
-        // if the current indexid is not zero, this is probably
-        // a new file not expected, otherwise if index is zero,
+        // if the current indexid is not zero, we probably crashed
+        // before the header of this new file was written (it will be used
+        // as active file, it needs a header), otherwise if index is zero,
         // this is the initial index file we need to create
-        if(root->indexid > 0) {
+        if(root->indexid > 0 && (root->status & INDEX_READ_ONLY)) {
             zdb_verbose("[+] index: discarding file\n");
             close(root->indexfd);
             return 0;
-- 
2.43.0


From 2ecd85ef0e7330c83ce734683d8a39db8fead72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:48 +0000
Subject: [PATCH 37/45] fix: index: records stored after an incomplete record
 were lost

A crash during the write of an index record leaves a part of it at the
end of the file. This part was read beyond the end of the buffer and
everything appended later was misaligned and lost on the next load.
---
 libzdb/index_loader.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index c28725f..dd1648b 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -330,6 +330,19 @@ static size_t index_load_file(index_root_t *root) {
 
         entry = (index_item_t *) seeker;
         off_t offset = seeker - filebuf;
+        off_t remain = fullsize - offset;
+
+        // the last record can be incomplete if we crashed while writing it,
+        // this record was never acknowledged: discarding it, what will be
+        // written next needs to follow the last complete record
+        if(remain < (off_t) sizeof(index_item_t) || remain < (off_t) (sizeof(index_item_t) + entry->idlength)) {
+            zdb_warning("[-] index: incomplete record, discarding last %ld bytes", (long) remain);
+
+            if(!(root->status & INDEX_READ_ONLY) && ftruncate(root->indexfd, offset) < 0)
+                zdb_diep("index: incomplete record: ftruncate");
+
+            break;
+        }
 
         // create a gateway struct to fill our index memory
         // this is not nice (lot of copy) but make things more
-- 
2.43.0


From 5f64db5360a0a9132954f8e30f57b0ef504d06b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:48 +0000
Subject: [PATCH 38/45] fix: index: a partial write left the next records
 misaligned

When an index record could only be written partially (disk full), the
records appended later followed that part and could not be loaded.
---
 libzdb/index_set.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index da7aeb8..59130ee 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -151,6 +151,11 @@ int index_append_entry_on_disk(index_root_t *root, index_set_t *set) {
     if(!index_write(root->indexfd, item, entrylength, root)) {
         zdb_verbosep("index_append_entry_on_disk", "cannot write index entry on disk");
 
+        // a part of the entry could be written, the next entry
+        // needs to follow the last complete one
+        if(curoffset >= 0 && ftruncate(root->indexfd, curoffset) < 0)
+            zdb_warnp("index_append_entry_on_disk: ftruncate");
+
         // it's easier to flag the entry as deleted than
         // removing it from the list
         entry->flags |= INDEX_ENTRY_DELETED;
-- 
2.43.0


From e9132b45b755c884812261ae36e60d2a982d55dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:15 +0000
Subject: [PATCH 39/45] fix: namespace: settings were acknowledged although
 they could not be saved

---
 libzdb/namespace.c        | 39 ++++++++++++++++++++++++++++++---------
 libzdb/namespace.h        |  2 +-
 zdbd/commands_namespace.c | 20 ++++++++++++++++----
 3 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index f7af78c..ad64fbe 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -66,8 +66,9 @@ namespace_t *namespace_get(char *name) {
     return NULL;
 }
 
-// FIXME: no error handled externally
-void namespace_descriptor_update(namespace_t *namespace, int fd) {
+// write the descriptor of a namespace, returns 0 when the
+// descriptor was completely written or -1 on error
+int namespace_descriptor_update(namespace_t *namespace, int fd) {
     ns_header_t header;
 
     zdb_debug("[+] namespaces: updating header\n");
@@ -84,19 +85,27 @@ void namespace_descriptor_update(namespace_t *namespace, int fd) {
     if(namespace->worm)
         header.flags |= NS_FLAGS_WORM;
 
-    if(write(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t))
+    if(write(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t)) {
         zdb_warnp("namespace legacy header write");
+        return -1;
+    }
 
-    if(write(fd, namespace->name, header.namelength) != (ssize_t) header.namelength)
+    if(write(fd, namespace->name, header.namelength) != (ssize_t) header.namelength) {
         zdb_warnp("namespace header name write");
+        return -1;
+    }
 
     if(namespace->password) {
-        if(write(fd, namespace->password, header.passlength) != (ssize_t) header.passlength)
+        if(write(fd, namespace->password, header.passlength) != (ssize_t) header.passlength) {
             zdb_warnp("namespace header password write");
+            return -1;
+        }
     }
 
     // ensure metadata are written
     fsync(fd);
+
+    return 0;
 }
 
 static int namespace_descriptor_open(namespace_t *namespace) {
@@ -125,13 +134,14 @@ static int namespace_descriptor_load(namespace_t *namespace) {
 
     if(read(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t)) {
         // probably new file, let's write initial namespace information
-        namespace_descriptor_update(namespace, fd);
+        int value = namespace_descriptor_update(namespace, fd);
         close(fd);
-        return 0;
+        return value;
     }
 
     if(header.version != NAMESPACE_CURRENT_VERSION) {
         zdb_danger("[-] %s: unsupported version detected", namespace->name);
+        close(fd);
         return -1;
     }
 
@@ -183,10 +193,13 @@ int namespace_commit(namespace_t *namespace) {
         return fd;
 
     // update metadata
-    namespace_descriptor_update(namespace, fd);
+    int value = namespace_descriptor_update(namespace, fd);
 
     close(fd);
 
+    if(value < 0)
+        return value;
+
     // trigger updated hook
     namespace_commit_hook(namespace);
 
@@ -257,9 +270,17 @@ namespace_t *namespace_load_light(ns_root_t *nsroot, char *name, int ensure) {
     namespace->locked = NS_LOCK_UNLOCKED;           // by default, namespace are unlocked
     namespace->version = NAMESPACE_CURRENT_VERSION; // set current version before reading descriptor
 
+    if(!namespace->name || !namespace->indexpath || !namespace->datapath) {
+        zdb_warnp("namespace load malloc");
+        namespace_free(namespace);
+        return NULL;
+    }
+
     if(ensure) {
-        if(!namespace_ensure(namespace))
+        if(!namespace_ensure(namespace)) {
+            namespace_free(namespace);
             return NULL;
+        }
     }
 
     // load descriptor from disk
diff --git a/libzdb/namespace.h b/libzdb/namespace.h
index 5bafc73..8cf7213 100644
--- a/libzdb/namespace.h
+++ b/libzdb/namespace.h
@@ -71,7 +71,7 @@
 
     size_t namespace_length();
     int namespace_valid_name(char *name);
-    void namespace_descriptor_update(namespace_t *namespace, int fd);
+    int namespace_descriptor_update(namespace_t *namespace, int fd);
 
     namespace_t *namespace_iter();
     namespace_t *namespace_iter_next(namespace_t *namespace);
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index e98748e..706ccf6 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -398,7 +398,7 @@ static int command_nsset_maxsize(namespace_t *namespace, char *value) {
 }
 
 // NSSET password
-static int command_nsset_password(namespace_t *namespace, char *value) {
+static int command_nsset_password(redis_client_t *client, namespace_t *namespace, char *value) {
     // clearing password using "*" password
     if(strcmp(value, "*") == 0) {
         free(namespace->password);
@@ -408,7 +408,16 @@ static int command_nsset_password(namespace_t *namespace, char *value) {
 
     } else {
         // updating password
-        namespace->password = strdup(value);
+        char *password;
+
+        if(!(password = strdup(value))) {
+            zdbd_warnp("nsset password strdup");
+            redis_hardsend(client, "-Internal Memory Error");
+            return 1;
+        }
+
+        free(namespace->password);
+        namespace->password = password;
         zdbd_debug("[+] command: nsset: password set and updated\n");
     }
 
@@ -562,7 +571,7 @@ int command_nsset(redis_client_t *client) {
             return 1;
 
     } else if(strcmp(command, "password") == 0) {
-        if(command_nsset_password(namespace, value) == 1)
+        if(command_nsset_password(client, namespace, value) == 1)
             return 1;
 
     } else if(strcmp(command, "public") == 0) {
@@ -580,7 +589,10 @@ int command_nsset(redis_client_t *client) {
     }
 
     // update persistant setting
-    namespace_commit(namespace);
+    if(namespace_commit(namespace) < 0) {
+        redis_hardsend(client, "-Could not save namespace settings");
+        return 1;
+    }
 
     // confirmation
     redis_hardsend(client, "+OK");
-- 
2.43.0


From 16530db8bc65f922dbfe3fa0393046affd3056c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:15 +0000
Subject: [PATCH 40/45] fix: namespace: a descriptor only partly readable
 dropped the password or was rewritten misaligned

---
 libzdb/namespace.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index ad64fbe..62232a2 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -85,6 +85,12 @@ int namespace_descriptor_update(namespace_t *namespace, int fd) {
     if(namespace->worm)
         header.flags |= NS_FLAGS_WORM;
 
+    // an incomplete header could have been read before
+    if(lseek(fd, 0, SEEK_SET) != 0) {
+        zdb_warnp("namespace header seek");
+        return -1;
+    }
+
     if(write(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t)) {
         zdb_warnp("namespace legacy header write");
         return -1;
@@ -153,14 +159,19 @@ static int namespace_descriptor_load(namespace_t *namespace) {
     if(header.passlength) {
         if(!(namespace->password = calloc(sizeof(char), header.passlength + 1))) {
             zdb_warnp("namespace password malloc");
-            return 0;
+            close(fd);
+            return -1;
         }
 
         // skip the namespace name, jump to password
         lseek(fd, sizeof(ns_header_t) + header.namelength, SEEK_SET);
 
-        if(read(fd, namespace->password, header.passlength) != (ssize_t) header.passlength)
+        if(read(fd, namespace->password, header.passlength) != (ssize_t) header.passlength) {
+            // without it, the namespace would not be protected anymore
             zdb_warnp("namespace password read");
+            close(fd);
+            return -1;
+        }
     }
 
     zdb_log("[+] namespace: [%s] opened, analyzing...\n", namespace->name);
-- 
2.43.0


From 1eb609e9559ca33a78cf3e0507c470b858dee669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:23 +0000
Subject: [PATCH 41/45] fix: HISTORY: an exact position was accepted with only
 the beginning of the key

---
 zdbd/commands_history.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_history.c b/zdbd/commands_history.c
index dc11775..0389616 100644
--- a/zdbd/commands_history.c
+++ b/zdbd/commands_history.c
@@ -224,7 +224,8 @@ int command_history(redis_client_t *client) {
         return 1;
     }
 
-    if(memcmp(userkey, item->id, idlength)) {
+    // the key needs to be exactly the same, a prefix is not enough
+    if(item->idlength != idlength || memcmp(userkey, item->id, idlength)) {
         zdbd_debug("[-] command: history: key mismatch from user and index, denied\n");
         free(item);
         redis_hardsend(client, "-Invalid arguments (invalid key)");
-- 
2.43.0


From ce31e2a45940fecdbc106e2b82f2cd9a25eaef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:23 +0000
Subject: [PATCH 42/45] fix: index: a SCAN key with a wrong id length was read
 beyond the entry

---
 libzdb/index.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index 4907386..3ff7b22 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -638,7 +638,9 @@ index_entry_t *index_entry_deserialize(index_root_t *root, index_bkey_t *key) {
     zdb_debug("[+] index: deserialize: length %u <> %u\n", item->length, key->length);
     zdb_debug("[+] index: deserialize: crc %08x <> %08x\n", item->crc, key->crc);
 
-    if(item->length != key->length || item->crc != key->crc) {
+    // the id was read using the length provided by the key, which
+    // can be anything, it needs to be checked before using it
+    if(item->idlength != key->idlength || item->length != key->length || item->crc != key->crc) {
         zdb_debug("[-] index: deserialize: invalid key requested (fields mismatch)\n");
         free(item);
         return NULL;
-- 
2.43.0


From c9911468feea44f4d8e953a9351aa4d40506603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:23 +0000
Subject: [PATCH 43/45] fix: RSCAN: entries before an empty index file were
 lost

---
 libzdb/index_scan.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/libzdb/index_scan.c b/libzdb/index_scan.c
index e3480d0..a780439 100644
--- a/libzdb/index_scan.c
+++ b/libzdb/index_scan.c
@@ -135,7 +135,16 @@ static index_scan_t index_previous_header_real(index_scan_t scan) {
     lseek(scan.fd, scan.target, SEEK_SET);
 
     // reading the fixed-length
-    if(read(scan.fd, &source, sizeof(index_item_t)) != sizeof(index_item_t)) {
+    ssize_t length = read(scan.fd, &source, sizeof(index_item_t));
+
+    // this file doesn't contain any entry, the previous
+    // entry is located in an even older file
+    if(length == 0 && scan.fileid > 0) {
+        zdb_debug("[+] index rscan: previous-header: empty file, looking before\n");
+        return index_scan_error(scan, INDEX_SCAN_REQUEST_PREVIOUS);
+    }
+
+    if(length != sizeof(index_item_t)) {
         zdb_warnp("index rscan: previous-header: could not read previous offset datafile");
         return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
     }
@@ -451,8 +460,17 @@ static index_scan_t index_last_header_real(index_scan_t scan) {
     lseek(scan.fd, scan.target, SEEK_SET);
 
     // reading the fixed-length
-    if(read(scan.fd, &source, sizeof(index_item_t)) != sizeof(index_item_t)) {
-        zdb_warnp("index scan: previous-header: could not read previous offset indexfile");
+    ssize_t length = read(scan.fd, &source, sizeof(index_item_t));
+
+    // this file doesn't contain any entry, the previous
+    // entry is located in an even older file
+    if(length == 0 && scan.fileid > 0) {
+        zdb_debug("[+] index scan: last-header: empty file, looking before\n");
+        return index_scan_error(scan, INDEX_SCAN_REQUEST_PREVIOUS);
+    }
+
+    if(length != sizeof(index_item_t)) {
+        zdb_warnp("index scan: last-header: could not read previous offset indexfile");
         return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
     }
 
-- 
2.43.0


From f82a8ae28d4982dd132daf374bff1bea3124ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:41 +0000
Subject: [PATCH 44/45] fix: SCAN: lengths and timestamps above 2^31 were sent
 negative

---
 zdbd/commands_scan.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 70d5894..8781efa 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -142,10 +142,10 @@ static int command_scan_send_scanlist(scan_list_t *scanlist, redis_client_t *cli
         offset += entry->idlength;
 
         // adding the length of the payload
-        offset += sprintf(response + offset, "\r\n:%d\r\n", entry->length);
+        offset += sprintf(response + offset, "\r\n:%" PRIu32 "\r\n", entry->length);
 
         // adding the timestamp to the payload
-        offset += sprintf(response + offset, ":%d\r\n", entry->timestamp);
+        offset += sprintf(response + offset, ":%" PRIu32 "\r\n", entry->timestamp);
     }
 
     redis_reply_heap(client, response, offset, free);
-- 
2.43.0


From 385521116c8e7e1675a2f93f1bb7b758f59abcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:23 +0000
Subject: [PATCH 45/45] fix: refuse to start when the lock of a directory
 cannot be obtained

Any failure of flock but EWOULDBLOCK was answered with 1, which is taken for
a locked descriptor: the database was opened without lock and the standard
output closed in place of the lock.
---
 libzdb/bootstrap.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libzdb/bootstrap.c b/libzdb/bootstrap.c
index 4c2b089..af20701 100644
--- a/libzdb/bootstrap.c
+++ b/libzdb/bootstrap.c
@@ -80,12 +80,14 @@ static int zdb_lock(char *lockpath) {
     }
 
     if(flock(fd, LOCK_EX | LOCK_NB) < 0) {
-        if(errno != EWOULDBLOCK) {
+        if(errno == EWOULDBLOCK) {
+            zdb_danger("[-] bootstrap: an instance of zdb is already using: %s", lockpath);
+
+        } else {
             zdb_warnp(lockpath);
-            return 1;
         }
 
-        zdb_danger("[-] bootstrap: an instance of zdb is already using: %s", lockpath);
+        close(fd);
         return -1;
     }
 
-- 
2.43.0

