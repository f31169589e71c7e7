From 9edd5273a5f0d304eed33ada36dde16479891c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:20 +0000
Subject: [PATCH 01/28] fix: kvpsync receiver: keep deletions for 255 seconds,
 not 255 nanoseconds

---
 server/libkvpsync/recv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/libkvpsync/recv.h b/server/libkvpsync/recv.h
index dce1fe2..be057fd 100644
--- a/server/libkvpsync/recv.h
+++ b/server/libkvpsync/recv.h
@@ -3,7 +3,7 @@
    leaving deletions in the data structure for a few minutes to ensure that no
    stray network packet could be still circulating.  We use the IPv4 max TTL
    even though in practice that's a lot longer than a real packet can live. */
-#define GC_DELAY 255
+#define GC_DELAY (255 * SECOND)
 
 // kvpsync_recv_t is the receiver's side of kvp sync
 typedef struct {
-- 
2.43.0


From 3e2039596b326807fd83654a74798f38222a67e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:20 +0000
Subject: [PATCH 02/28] fix: kvpsync receiver: ignore a flush with no matching
 start, and stale flushes

---
 server/libkvpsync/recv.c | 37 +++++++++++++++++++++++++++++++++++--
 server/libkvpsync/recv.h |  5 +++++
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/server/libkvpsync/recv.c b/server/libkvpsync/recv.c
index f738ae8..833c19a 100644
--- a/server/libkvpsync/recv.c
+++ b/server/libkvpsync/recv.c
@@ -1,6 +1,7 @@
 #include "server/libkvpsync/libkvpsync.h"
 
 #include <stdlib.h>
+#include <string.h>
 
 struct recv_data_t;
 typedef struct recv_data_t recv_data_t;
@@ -164,8 +165,35 @@ static void do_gc(kvpsync_recv_t *r, xtime_t now){
     }
 }
 
+/* 1 for the oldest sync we've seen a START for, increasing for newer ones, or
+   0 if we haven't seen it */
+static int start_index(const kvpsync_recv_t *r, uint32_t sync_id){
+    for(int i = 0; sync_id && i < KVPSYNC_RECV_STARTS; i++){
+        if(r->starts[i] == sync_id) return i + 1;
+    }
+    return 0;
+}
+
+static void note_start(kvpsync_recv_t *r, uint32_t sync_id){
+    // ignore duplicates
+    if(start_index(r, sync_id)) return;
+    // forget the oldest sync, if we must
+    size_t len = KVPSYNC_RECV_STARTS - 1;
+    if(r->starts[len]){
+        memmove(&r->starts[0], &r->starts[1], len * sizeof(*r->starts));
+        r->starts[len] = sync_id;
+        return;
+    }
+    for(size_t i = 0; i <= len; i++){
+        if(r->starts[i]) continue;
+        r->starts[i] = sync_id;
+        return;
+    }
+}
+
+// newer data belongs to a sync whose flush we haven't seen yet
 static bool _flush_should_free(kvpsync_recv_t *r, recv_datum_t *datum){
-    return datum->sync_id != r->sync_id;
+    return start_index(r, datum->sync_id) < start_index(r, r->sync_id);
 }
 
 static void flush_stale_data(kvpsync_recv_t *r){
@@ -275,6 +303,7 @@ derr_t kvpsync_recv_handle_update(
         }
         // got the start packet, ack it as normal
         r->initial_sync_acked = true;
+        note_start(r, update.sync_id);
         return e;
     }
 
@@ -295,12 +324,16 @@ derr_t kvpsync_recv_handle_update(
             break;
 
         case KVP_UPDATE_START:
-            // noop, sender-side resyncs happen passively to us
+            // sender-side resyncs otherwise happen passively to us
+            note_start(r, update.sync_id);
             break;
 
         case KVP_UPDATE_FLUSH:
             // ignore any packets before our resync is acknowldged
             if(!r->initial_sync_acked) break;
+            // ignore a flush with no matching start, and stale flushes
+            int start = start_index(r, update.sync_id);
+            if(!start || start < start_index(r, r->sync_id)) break;
             r->sync_id = update.sync_id;
             r->ok_expiry = MAX(r->ok_expiry, update.ok_expiry);
             flush_stale_data(r);
diff --git a/server/libkvpsync/recv.h b/server/libkvpsync/recv.h
index be057fd..eacda39 100644
--- a/server/libkvpsync/recv.h
+++ b/server/libkvpsync/recv.h
@@ -5,11 +5,16 @@
    even though in practice that's a lot longer than a real packet can live. */
 #define GC_DELAY (255 * SECOND)
 
+// how many recently STARTed syncs we remember
+#define KVPSYNC_RECV_STARTS 16
+
 // kvpsync_recv_t is the receiver's side of kvp sync
 typedef struct {
     hashmap_t h;  // maps dstr_t keys to dstr_t values
     uint32_t recv_id;  // randomly chosen at boot
     uint32_t sync_id;  // the send_id for a sync we've completed, or zero
+    // recent sync_ids for which we've seen a START, in order, zero-padded
+    uint32_t starts[KVPSYNC_RECV_STARTS];
     bool initial_sync_acked;
     xtime_t ok_expiry;
     link_t gc; // recv_datum_t->gc
-- 
2.43.0


From 9d42c89c36653e15071ae7c9e9bba0322c83a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:42 +0000
Subject: [PATCH 03/28] fix: up_t: finish the reselect before telling the
 imaildir it is synced

imaildir_up_synced() sends the relays which queued up during the reSELECT, or
starts another one; both hit a LOG_FATAL while up->reselect.needed is set.
---
 libimaildir/up.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libimaildir/up.c b/libimaildir/up.c
index bb7c1eb..47dbfc4 100644
--- a/libimaildir/up.c
+++ b/libimaildir/up.c
@@ -408,10 +408,14 @@ static derr_t reselect_done(imap_cmd_cb_t *cb, const ie_st_resp_t *st_resp){
 
     // non-initial sync complete
     // TODO: wait for a SEARCH RECENT as well, if necessary
-    PROP(&e, imaildir_up_synced(up->m, up, up->reselect.examine) );
 
+    /* the reselect must be over before telling the imaildir_t, which may emit
+       relays or even another reselect immediately */
+    bool examine = up->reselect.examine;
     up_free_reselect(up);
 
+    PROP(&e, imaildir_up_synced(up->m, up, examine) );
+
     return e;
 }
 
-- 
2.43.0


From f1d4d9f7d117f49bf49a96b1b3159535a3367448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:42 +0000
Subject: [PATCH 04/28] fix: imaildir: keep track of relays which are sent
 after a sync

link_list_append_list() of a lone link is a no-op, so relays sent by
imaildir_up_synced() were in no list: they were forgotten if the up_t died, and
kept pointing at their requester after it was gone.
---
 libimaildir/imaildir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index f2f7dfe..6d795b6 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -1357,7 +1357,7 @@ derr_t imaildir_up_synced(imaildir_t *m, up_t *up, bool examining){
     imap_cmd_t *cmd = NULL;
     link_t *link;
     while((link = link_list_pop_first(&m->relays_unsent))){
-        link_list_append_list(&m->relays_sent, link);
+        link_list_append(&m->relays_sent, link);
 
         relay_t *relay = CONTAINER_OF(link, relay_t, link);
         cmd = imap_cmd_copy(&e, relay->cmd);
-- 
2.43.0


From f65a5261388618c143a3325c21f1ff452b815b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:31 +0000
Subject: [PATCH 05/28] fix: dn_t: complete a SEARCH in an empty mailbox

The untagged SEARCH was sent but the tagged response never was.
---
 libimaildir/dn.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 9c52eeb..16971b5 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -759,10 +759,12 @@ derr_t dn_search(
 
     PROP(&e, healthcheck(dn) );
 
+    link_t temp = {0};
+
     // handle the empty maildir case
     if(dn->views.size == 0){
-        PROP(&e, send_search_resp(dn, NULL, out) );
-        return e;
+        PROP(&e, send_search_resp(dn, NULL, &temp) );
+        goto finish;
     }
 
     // now figure out some constants to do the search
@@ -772,11 +774,10 @@ derr_t dn_search(
     ie_nums_t *nums = NULL;
     PROP(&e, dn_search_loop(dn, search, seq_max, &nums) );
 
-    link_t temp = {0};
-
     // finally, send the responses (nums will be consumed)
     PROP_GO(&e, send_search_resp(dn, nums, &temp), cu);
 
+finish:
     PROP_GO(&e,
         dn_gather_updates(dn, search->uid_mode, search->uid_mode, NULL, &temp),
     cu);
-- 
2.43.0


From 619f7ab233557d67d21a594369460ff758cf89d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:31 +0000
Subject: [PATCH 06/28] fix: dn_t: propagate errors of store_begin()

---
 libimaildir/dn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 16971b5..e7aee9c 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1099,7 +1099,7 @@ derr_t dn_store(
     PROP(&e, healthcheck(dn) );
 
     if(!dn->store.started){
-        store_begin(dn, tagp, store, out, ok);
+        PROP(&e, store_begin(dn, tagp, store, out, ok) );
         return e;
     }
 
-- 
2.43.0


From c683d0514ad740930e8b68987d1da07ff967bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:31 +0000
Subject: [PATCH 07/28] fix: dn_t: never write to a mailbox which is opened
 read-only

A non-peek FETCH stored \Seen and a CLOSE expunged after EXAMINE.
---
 libimaildir/dn.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index e7aee9c..e6d3f28 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1548,7 +1548,8 @@ static derr_t fetch_begin(
 
     /* some FETCH commands can't cause any \Seen flags to get set, while
        other FETCH commands don't happen to affect any unseen messages */
-    bool ispeek = fetch_is_peek_only(dn->fetch.cmd);
+    // and nothing may be changed in a mailbox which is opened read-only
+    bool ispeek = dn->examine || fetch_is_peek_only(dn->fetch.cmd);
     msg_key_list_t *nonpeeks = NULL;
     if(!ispeek){
         PROP(&e, nonpeek_msgs(dn, dn->fetch.uids_dn, &nonpeeks) );
@@ -2069,7 +2070,8 @@ fail:
 static derr_t disconnect_begin(dn_t *dn, bool expunge, bool *ok){
     derr_t e = E_OK;
 
-    if(!expunge){
+    // CLOSE does not expunge a mailbox which is opened read-only
+    if(!expunge || dn->examine){
         /* since the server_t is not allowed to process commands while it is
            waiting for the dn_t to respond to a command, there's no additional
            need to synchronize at this point */
-- 
2.43.0


From e61217a97b04887f4e2ff5258e71bb5016a3f3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:42 +0000
Subject: [PATCH 08/28] fix: imaildir: an OK to a relayed COPY need not carry
 COPYUID

RFC 4315: the server must not send COPYUID when no messages were copied, such as
when they were all expunged by another client first.  The missing code broke the
imaildir and with it every session using the mailbox.
---
 libimaildir/imaildir.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 6d795b6..9b291f9 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -2006,9 +2006,15 @@ static derr_t relay_copy_cb(const relay_t *relay, const ie_st_resp_t *st_resp){
         return e;
     }
 
-    // ensure that we have a COPYUID in the st_resp
+    /* the server sends no COPYUID if it found nothing to copy, for instance
+       when all the messages were expunged by somebody else in the meantime */
     if(!st_resp->code){
-        ORIG(&e, E_RESPONSE, "expected COPYUID in st_resp but got nothing");
+        imaildir_t *hold_m;
+        PROP(&e, dirmgr_hold_get_imaildir(relay->hold, &hold_m) );
+        PROP_GO(&e, local_copy(m, relay->locals, hold_m), cu_nocode);
+    cu_nocode:
+        dirmgr_hold_release_imaildir(relay->hold, &hold_m);
+        return e;
     }
     if(st_resp->code->type != IE_ST_CODE_COPYUID){
         TRACE(&e, "expected COPYUID in status response (%x) but got %x\n",
@@ -2021,7 +2027,7 @@ static derr_t relay_copy_cb(const relay_t *relay, const ie_st_resp_t *st_resp){
     const ie_seq_set_t *dst_uids_up = st_resp->code->arg.copyuid.uids_out;
 
     imaildir_t *hold_m;
-    dirmgr_hold_get_imaildir(relay->hold, &hold_m);
+    PROP(&e, dirmgr_hold_get_imaildir(relay->hold, &hold_m) );
 
     if(uidvld != imaildir_get_uidvld_up(hold_m)){
         LOG_WARN("detected COPY with mismatched UIDVALIDITY\n");
-- 
2.43.0


From 557aa6fc3e8d211af83c46516e3c9eb0fa106917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:05 +0000
Subject: [PATCH 09/28] fix: up_t: bootstrap when no HIGHESTMODSEQ was ever
 committed

If the connection died between the UIDVALIDITY and the end of the first sync of
a mailbox, the next SELECT had no QRESYNC parameters but also no bootstrap, so
the messages which already existed were never downloaded.
---
 libimaildir/up.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libimaildir/up.c b/libimaildir/up.c
index 47dbfc4..5b6bc7e 100644
--- a/libimaildir/up.c
+++ b/libimaildir/up.c
@@ -1194,7 +1194,11 @@ static derr_t untagged_ok(up_t *up, const ie_st_code_t *code){
                     imaildir_up_check_uidvld_up(up->m, code->arg.uidvld)
                 );
 
-                if(code->arg.uidvld != up->select.uidvld_up){
+                /* without a HIGHESTMODSEQ the SELECT was sent without QRESYNC
+                   even if the UIDVALIDITY was known, which happens when the
+                   first sync of a mailbox was interrupted */
+                if(code->arg.uidvld != up->select.uidvld_up
+                        || !up->select.himodseq_up){
                     /* invalidate our himodseq seen, which may be from an
                        old UIDVALIDITY */
                     up->himodseq_up_seen = 0;
-- 
2.43.0


From 4b07f693da5f7bae15e8715410b4610621a732ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:14 +0000
Subject: [PATCH 10/28] fix: dn_t: never announce the EXPUNGE of a message
 which was never announced

A message which arrives and vanishes between two of a client's commands is
both in gather->news and gather->expunges.  It was dropped from the news, but
its EXPUNGE was still sent, with a sequence number the client has never seen.
---
 libimaildir/dn.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index e6d3f28..432b59c 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -2351,11 +2351,19 @@ static derr_t gather_send_responses(
     for(; node; node = jsw_atnext(&trav)){
         gathered_t *gathered = CONTAINER_OF(node, gathered_t, node);
 
-        node = jsw_aerase(&gather->news, &gathered->uid_dn);
-        if(node) gathered_free(CONTAINER_OF(node, gathered_t, node));
-
         node = jsw_aerase(&gather->metas, &gathered->uid_dn);
         if(node) gathered_free(CONTAINER_OF(node, gathered_t, node));
+
+        node = jsw_aerase(&gather->news, &gathered->uid_dn);
+        if(!node) continue;
+        gathered_free(CONTAINER_OF(node, gathered_t, node));
+
+        /* the client has never heard of this message, so it must not hear of
+           its EXPUNGE either; just forget our view of it */
+        node = jsw_aerase(&dn->views, &gathered->uid_dn);
+        if(!node) ORIG_GO(&e, E_INTERNAL, "missing uid_dn", cu);
+        msg_view_t *view = CONTAINER_OF(node, msg_view_t, node);
+        msg_view_free(&view);
     }
 
     // step 2: any new messages don't get FETCHes
@@ -2400,7 +2408,8 @@ static derr_t gather_send_responses(
         // find our view of this uid_dn
         size_t index;
         jsw_anode_t *node = jsw_afind(&dn->views, &gathered->uid_dn, &index);
-        if(!node) ORIG_GO(&e, E_INTERNAL, "missing uid_dn", cu);
+        // there is no view if the message was never announced, see step 1
+        if(!node) continue;
 
         // just remove and delete the view
         msg_view_t *view = CONTAINER_OF(node, msg_view_t, node);
-- 
2.43.0


From 88d360190458d6c7e4782eb2f4a95443acfd72b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:16 +0000
Subject: [PATCH 11/28] fix: imaildir: find the highest uid_dn before assigning
 new ones at startup

A message file which was renamed into place right before a crash, before its
log entry was written, gets a new uid_dn when it is found at startup.  That
happened before the uid_dn's of the log were considered, so the new uid_dn was
1, again: the UID of another message.
---
 libimaildir/imaildir.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 9b291f9..4ef86e1 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -495,14 +495,7 @@ static derr_t imaildir_read_cache_and_files(imaildir_t *m, bool read_files){
         )
     );
 
-    if(read_files){
-        // populate messages by reading files
-        PROP(&e, populate_msgs(m) );
-
-        PROP(&e, imaildir_print_msgs(m) );
-    }
-
-    // detect all of the uid_dn's and uid_local's
+    // detect all of the uid_dn's and uid_local's in the log
     jsw_atrav_t trav;
     jsw_anode_t *node = jsw_atfirst(&trav, &m->msgs);
     for(; node != NULL; node = jsw_atnext(&trav)){
@@ -518,6 +511,15 @@ static derr_t imaildir_read_cache_and_files(imaildir_t *m, bool read_files){
         detect_hi_uid_local(m, expunge->key.uid_local);
     }
 
+    /* only now read files, as a file which is not in the log yet may need a
+       new uid_dn */
+    if(read_files){
+        // populate messages by reading files
+        PROP(&e, populate_msgs(m) );
+
+        PROP(&e, imaildir_print_msgs(m) );
+    }
+
     return e;
 }
 
-- 
2.43.0


From 59badd24e8cc1a3dc48911f78edd152a3b4e3473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:35 +0000
Subject: [PATCH 12/28] fix: dn_t: UID EXPUNGE must expunge only the messages
 it names

The uid set of a UID EXPUNGE was ignored, and every message of the mailbox
which was marked as deleted was expunged.
---
 libcitm/sc.c     |  2 +-
 libimaildir/dn.c | 63 +++++++++++++++++++++++++++++++++++++++++++++---
 libimaildir/dn.h |  9 ++++++-
 3 files changed, 68 insertions(+), 6 deletions(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index 23edd8f..44e9b5d 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -908,7 +908,7 @@ static derr_t handle_cmd(sc_t *sc, bool *ok){
         case IMAP_CMD_EXPUNGE:
             PROP(&e, require_selected(sc, tagp, &valid) );
             if(!valid) break;
-            PROP(&e, dn_expunge(&sc->dn, tagp, out, ok) );
+            PROP(&e, dn_expunge(&sc->dn, tagp, arg->uid_expunge, out, ok) );
             break;
         case IMAP_CMD_COPY:
             PROP(&e, require_selected(sc, tagp, &valid) );
diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 432b59c..77133d8 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -11,6 +11,9 @@ DEF_CONTAINER_OF(gathered_t, node, jsw_anode_t)
 
 // forward declarations
 static derr_t get_msg_keys_to_expunge(dn_t *dn, msg_key_list_t **out);
+static derr_t get_msg_keys_to_uid_expunge(
+    dn_t *dn, const ie_seq_set_t *uid_expunge, msg_key_list_t **out
+);
 
 static const void *gathered_jsw_get_uid_dn(const jsw_anode_t *node);
 static void gather_prep(gather_t *gather);
@@ -1743,7 +1746,13 @@ derr_t dn_fetch(
 }
 
 
-static derr_t expunge_begin(dn_t *dn, ie_dstr_t **tagp, link_t *out, bool *ok){
+static derr_t expunge_begin(
+    dn_t *dn,
+    ie_dstr_t **tagp,
+    const ie_seq_set_t *uid_expunge,
+    link_t *out,
+    bool *ok
+){
     derr_t e = E_OK;
 
     if(dn->examine){
@@ -1755,7 +1764,11 @@ static derr_t expunge_begin(dn_t *dn, ie_dstr_t **tagp, link_t *out, bool *ok){
     link_t temp = {0};
 
     msg_key_list_t *keys;
-    PROP(&e, get_msg_keys_to_expunge(dn, &keys) );
+    if(uid_expunge){
+        PROP(&e, get_msg_keys_to_uid_expunge(dn, uid_expunge, &keys) );
+    }else{
+        PROP(&e, get_msg_keys_to_expunge(dn, &keys) );
+    }
     // detect noop EXPUNGEs
     if(!keys){
         // true = always allow expunges, false = there is no uid mode
@@ -1822,7 +1835,13 @@ cu:
     return e;
 }
 
-derr_t dn_expunge(dn_t *dn, ie_dstr_t **tagp, link_t *out, bool *ok){
+derr_t dn_expunge(
+    dn_t *dn,
+    ie_dstr_t **tagp,
+    const ie_seq_set_t *uid_expunge,
+    link_t *out,
+    bool *ok
+){
     derr_t e = E_OK;
 
     *ok = false;
@@ -1830,7 +1849,7 @@ derr_t dn_expunge(dn_t *dn, ie_dstr_t **tagp, link_t *out, bool *ok){
     PROP(&e, healthcheck(dn) );
 
     if(!dn->expunge.started){
-        PROP(&e, expunge_begin(dn, tagp, out, ok) );
+        PROP(&e, expunge_begin(dn, tagp, uid_expunge, out, ok) );
         return e;
     }
 
@@ -2067,6 +2086,42 @@ fail:
     return e;
 }
 
+// like get_msg_keys_to_expunge, but only for the uids given to a UID EXPUNGE
+static derr_t get_msg_keys_to_uid_expunge(
+    dn_t *dn, const ie_seq_set_t *uid_expunge, msg_key_list_t **out
+){
+    derr_t e = E_OK;
+    *out = NULL;
+
+    ie_seq_set_t *uids_dn = NULL;
+    msg_key_list_t *keys = NULL;
+
+    // uid_mode seq_sets are always ok
+    bool ok;
+    PROP(&e,
+        seq_set_to_canonical_uids_dn(dn, true, uid_expunge, &uids_dn, &ok)
+    );
+
+    ie_seq_set_trav_t trav;
+    unsigned int uid_dn = ie_seq_set_iter(&trav, uids_dn, 0, 0);
+    for(; uid_dn != 0; uid_dn = ie_seq_set_next(&trav)){
+        jsw_anode_t *node = jsw_afind(&dn->views, &uid_dn, NULL);
+        if(!node) ORIG_GO(&e, E_INTERNAL, "missing uid_dn", cu);
+        msg_view_t *view = CONTAINER_OF(node, msg_view_t, node);
+        if(!view->flags.deleted) continue;
+        keys = msg_key_list_new(&e, view->key, keys);
+        CHECK_GO(&e, cu);
+    }
+
+    *out = STEAL(msg_key_list_t, &keys);
+
+cu:
+    ie_seq_set_free(uids_dn);
+    msg_key_list_free(keys);
+
+    return e;
+}
+
 static derr_t disconnect_begin(dn_t *dn, bool expunge, bool *ok){
     derr_t e = E_OK;
 
diff --git a/libimaildir/dn.h b/libimaildir/dn.h
index c823f04..8bc8477 100644
--- a/libimaildir/dn.h
+++ b/libimaildir/dn.h
@@ -30,7 +30,14 @@ derr_t dn_store(
     link_t *out,
     bool *ok
 );
-derr_t dn_expunge(dn_t *dn, ie_dstr_t **tagp, link_t *out, bool *ok);
+// uid_expunge is NULL except for a UID EXPUNGE
+derr_t dn_expunge(
+    dn_t *dn,
+    ie_dstr_t **tagp,
+    const ie_seq_set_t *uid_expunge,
+    link_t *out,
+    bool *ok
+);
 derr_t dn_copy(
     dn_t *dn,
     ie_dstr_t **tagp,
-- 
2.43.0


From ef71c6ecc6667f4f2b59db4e098fd0deceef52e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:37 +0000
Subject: [PATCH 13/28] fix: imap_server: do not write to a connection which
 failed after a BYE

After a LOGOUT or after the connection upwards broke, errors of the client's
connection are expected and ignored, but whatever was still to be written was
then written to the dead connection, which is fatal for the whole process.
---
 libcitm/imap_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcitm/imap_server.c b/libcitm/imap_server.c
index d42712e..ee78689 100644
--- a/libcitm/imap_server.c
+++ b/libcitm/imap_server.c
@@ -377,6 +377,10 @@ static void advance_state(imap_server_t *s){
 
     if(is_error(s->e) || s->canceled) goto cu;
 
+    /* after a LOGOUT or a broken connection upwards, the client's connection
+       may fail before we have written everything to it */
+    if(s->stream->awaited) goto cu;
+
     // LOGOUT codepath
     if(s->logged_out){
         // wait for our response to be written
-- 
2.43.0


From 2f6704a8d7055d40e51701ffed3e3f3b44034bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:02 +0000
Subject: [PATCH 14/28] fix: sc: keep reading from the server while a LOGOUT
 closes the mailbox

---
 libcitm/sc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index 44e9b5d..bd12394 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -1264,6 +1264,9 @@ static void advance_state(sc_t *sc){
     return;
 
 logout:
+    /* closing the mailbox takes responses from the server, and the last one we
+       read may have been for our own ENABLE */
+    if(sc->up_active) (void)advance_reads_up(sc);
     PROP_GO(&sc->e, advance_logout(sc, &ok), fail);
     up_ok = advance_writes_up(sc);
     dn_ok = advance_writes_dn(sc);
-- 
2.43.0


From ce457e7796d78651d1a8041e0dd0f9cbf7fcf572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:24 +0000
Subject: [PATCH 15/28] fix: imap writer: a LIST response with a NIL separator
 is valid

---
 libimap/write.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libimap/write.c b/libimap/write.c
index 6459da4..91e3d62 100644
--- a/libimap/write.c
+++ b/libimap/write.c
@@ -1482,14 +1482,20 @@ static derr_t list_resp_skip_fill(skip_fill_t *sf, ie_list_resp_t *list){
     derr_t e = E_OK;
     STATIC_SKIP_FILL("(");
     PROP(&e, mflags_skip_fill(sf, list->mflags) );
-    STATIC_SKIP_FILL(") \"");
+    STATIC_SKIP_FILL(") ");
+    if(list->sep == '\0'){
+        // a flat name has no separator
+        STATIC_SKIP_FILL("NIL ");
+        PROP(&e, mailbox_skip_fill(sf, list->m) );
+        return e;
+    }
+    STATIC_SKIP_FILL("\"");
     // the separator needs 2 characters because FMT always null-terminates
     DSTR_VAR(sep, 2);
     // the separator must be a quotable character
     switch(list->sep){
         case '\r':
         case '\n':
-        case '\0':
             TRACE(&e, "unable to print ascii=%x as mailbox separator\n",
                     FI(list->sep));
             ORIG(&e, E_PARAM, "invalid mailbox separator");
-- 
2.43.0


From c45caf73715f4a2116704c6294e52c416f206152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:24 +0000
Subject: [PATCH 16/28] fix: sc: an IDLE without a selected mailbox must not
 end the session

---
 libcitm/sc.c | 28 +++++++++++++++++++++++++---
 libcitm/sc.h |  3 +++
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index bd12394..c22907f 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -939,12 +939,33 @@ static derr_t handle_cmd(sc_t *sc, bool *ok){
             PROP(&e, dn_search(&sc->dn, tagp, arg->search, out) );
             break;
         case IMAP_CMD_IDLE:
-            PROP(&e, require_selected(sc, tagp, &valid) );
-            if(!valid) break;
+            if(!sc->selected_mailbox){
+                /* IDLE is valid without a selected mailbox, and the imap
+                   parser is waiting for a DONE in any case */
+                ie_dstr_t *text = ie_dstr_new2(&e, DSTR_LIT("ok idling"));
+                CHECK(&e);
+                PROP(&e, respond_plus(out, &text) );
+                sc->idle_tag = STEAL(ie_dstr_t, tagp);
+                sc->idle = true;
+                break;
+            }
             PROP(&e, dn_idle(&sc->dn, tagp, out) );
             sc->idle = true;
             break;
         case IMAP_CMD_IDLE_DONE:
+            if(sc->idle_tag){
+                // IDLE without a selected mailbox
+                sc->idle = false;
+                if(arg->idle_done){
+                    // syntax error mid-IDLE
+                    PROP(&e,
+                        respond_error(&sc->idle_tag, &arg->idle_done, out)
+                    );
+                }else{
+                    PROP(&e, RESP_OK(&sc->idle_tag, "done idling", out) );
+                }
+                break;
+            }
             PROP(&e, require_selected(sc, tagp, &valid) );
             if(!valid) break;
             PROP(&e, dn_idle_done(&sc->dn, arg->idle_done, out) );
@@ -980,7 +1001,7 @@ static derr_t advance_server(sc_t *sc){
     bool ok = advance_reads_dn(sc);
     if(!ok){
         // if we didn't read any command but we are in IDLE, check for updates
-        if(sc->idle){
+        if(sc->idle && sc->dn_active){
             // true = always allow expunges, false = there is no uid mode
             PROP(&e,
                 dn_gather_updates(&sc->dn, true, false, NULL, &sc->resps)
@@ -1364,6 +1385,7 @@ void sc_free(sc_t *sc){
     imap_server_free(&sc->s);
     imap_client_free(&sc->c);
     ie_mailbox_free(sc->selected_mailbox);
+    ie_dstr_free(sc->idle_tag);
     dirmgr_freeze_free(sc->freeze_deleting);
     dirmgr_freeze_free(sc->freeze_rename_src);
     dirmgr_freeze_free(sc->freeze_rename_dst);
diff --git a/libcitm/sc.h b/libcitm/sc.h
index 73ff66b..bef494c 100644
--- a/libcitm/sc.h
+++ b/libcitm/sc.h
@@ -54,6 +54,9 @@ struct sc_t {
 
     size_t ntags;
 
+    // the tag of an IDLE in the AUTHENTICATED state
+    ie_dstr_t *idle_tag;
+
     derr_t e;
 
     bool failed : 1;
-- 
2.43.0


From 2864793ee8b405a4ff9c78469ccc6082413be486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:03 +0000
Subject: [PATCH 17/28] fix: sc: a mailbox which another session deletes or
 renames is a NO, not the end of the session

---
 libcitm/sc.c | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index c22907f..4d76ff5 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -315,16 +315,23 @@ static derr_t advance_select(
 
     ONCE(sc->select_connected){
         // connect our dn_t first, to pick the initial SELECT/EXAMINE correctly
-        PROP(&e,
-            dirmgr_open_dn(
-                sc->dirmgr,
-                ie_mailbox_name(*mp),
-                &sc->dn,
-                &sc->dn_cb,
-                &sc->s->exts,
-                examine
-            )
+        derr_t e2 = dirmgr_open_dn(
+            sc->dirmgr,
+            ie_mailbox_name(*mp),
+            &sc->dn,
+            &sc->dn_cb,
+            &sc->s->exts,
+            examine
         );
+        CATCH(&e2, E_FROZEN){
+            // another session is deleting or renaming this mailbox right now
+            DROP_VAR(&e2);
+            sc->select_disconnected = false;
+            sc->select_connected = false;
+            PROP(&e, RESP_NO(tagp, "mailbox is in use", &sc->resps) );
+            *ok = true;
+            return e;
+        }else PROP_VAR(&e, &e2);
         sc->dn_active = true;
 
         // connect our up_t
@@ -558,7 +565,12 @@ static derr_t pre_delete(
     }
 
     // take out a freeze on the mailbox in question
-    PROP(&e, dirmgr_freeze_new(sc->dirmgr, &deleting, &sc->freeze_deleting) );
+    derr_t e2 = dirmgr_freeze_new(sc->dirmgr, &deleting, &sc->freeze_deleting);
+    CATCH(&e2, E_BUSY){
+        DROP_VAR(&e2);
+        PROP(&e, RESP_NO(cmdtagp, "mailbox is in use", &sc->resps) );
+        return e;
+    }else PROP_VAR(&e, &e2);
 
     *valid = true;
 
@@ -612,8 +624,17 @@ static derr_t pre_rename(
     }
 
     // take out a freeze on the mailbox in question
-    PROP(&e, dirmgr_freeze_new(sc->dirmgr, &old, &sc->freeze_rename_src) );
-    PROP(&e, dirmgr_freeze_new(sc->dirmgr, &new, &sc->freeze_rename_dst) );
+    derr_t e2 = dirmgr_freeze_new(sc->dirmgr, &old, &sc->freeze_rename_src);
+    if(!is_error(e2)){
+        e2 = dirmgr_freeze_new(sc->dirmgr, &new, &sc->freeze_rename_dst);
+    }
+    CATCH(&e2, E_BUSY){
+        DROP_VAR(&e2);
+        dirmgr_freeze_free(sc->freeze_rename_src);
+        sc->freeze_rename_src = NULL;
+        PROP(&e, RESP_NO(cmdtagp, "mailbox is in use", &sc->resps) );
+        return e;
+    }else PROP_VAR(&e, &e2);
 
     *valid = true;
 
-- 
2.43.0


From c38145d6e76eba53f05080f469815542b4cf22df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:09 +0000
Subject: [PATCH 18/28] fix: imaildir: a COPY which waits for the initial sync
 must not block it

---
 libimaildir/imaildir.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 4ef86e1..72fc52f 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -697,6 +697,23 @@ void imaildir_free(imaildir_t *m){
     }
 }
 
+/* A relayed COPY holds its destination, but only from when it is sent: a relay
+   which waits for an initial sync must not block any initial sync itself. */
+static derr_t relay_take_hold(imaildir_t *m, relay_t *relay){
+    derr_t e = E_OK;
+
+    if(relay->cmd->type != IMAP_CMD_COPY || relay->hold) return e;
+
+    const ie_copy_cmd_t *copy = relay->cmd->arg.copy;
+    PROP(&e,
+        m->cb->dirmgr_hold_new(
+            m->cb, ie_mailbox_name(copy->m), &relay->hold
+        )
+    );
+
+    return e;
+}
+
 // consumes or frees the relay_t
 static derr_t maybe_send_relay(imaildir_t *m, relay_t *relay){
     derr_t e = E_OK;
@@ -725,6 +742,8 @@ static derr_t maybe_send_relay(imaildir_t *m, relay_t *relay){
         );
     }
 
+    PROP_GO(&e, relay_take_hold(m, relay), fail);
+
     cmd_copy = imap_cmd_copy(&e, relay->cmd);
     CHECK_GO(&e, fail);
 
@@ -803,6 +822,10 @@ static size_t eject_up(imaildir_t *m, up_t *up){
             relay_free(relay);
         }
         // all remaining relays go to unsent
+        LINK_FOR_EACH(relay, &m->relays_sent, relay_t, link){
+            dirmgr_hold_free(relay->hold);
+            relay->hold = NULL;
+        }
         link_list_prepend_list(&m->relays_unsent, &m->relays_sent);
     }
 
@@ -1362,6 +1385,7 @@ derr_t imaildir_up_synced(imaildir_t *m, up_t *up, bool examining){
         link_list_append(&m->relays_sent, link);
 
         relay_t *relay = CONTAINER_OF(link, relay_t, link);
+        PROP_GO(&e, relay_take_hold(m, relay), fail);
         cmd = imap_cmd_copy(&e, relay->cmd);
         CHECK_GO(&e, fail);
 
@@ -2170,13 +2194,6 @@ static derr_t relay_update_req_copy(imaildir_t *m, update_req_t *req){
     relay_t *relay = relay_new(&e, m, cmd, requester);
     CHECK(&e);
 
-    // take a dirmgr_hold_t on the mailbox in question
-    PROP_GO(&e,
-        m->cb->dirmgr_hold_new(
-            m->cb, ie_mailbox_name(arg.copy->m), &relay->hold
-        ),
-    fail_relay);
-
     // steal the local keys we need to copy after the relay command finishes
     relay->locals = STEAL(msg_key_list_t, &req->val.msg_copy->keys);
 
@@ -2186,10 +2203,6 @@ static derr_t relay_update_req_copy(imaildir_t *m, update_req_t *req){
     PROP(&e, maybe_send_relay(m, relay) );
 
     return e;
-
-fail_relay:
-    relay_free(relay);
-    return e;
 }
 
 
-- 
2.43.0


From dd08a9eacadfe22d9f3ac99ffa7bb2a1cdeafbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:50 +0000
Subject: [PATCH 19/28] fix: dirmgr: RENAME into a hierarchy which does not
 exist locally

---
 libimaildir/dirmgr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libimaildir/dirmgr.c b/libimaildir/dirmgr.c
index 38f2b3a..00a730a 100644
--- a/libimaildir/dirmgr.c
+++ b/libimaildir/dirmgr.c
@@ -768,6 +768,9 @@ derr_t dirmgr_rename(dirmgr_t *dm, dirmgr_freeze_t *src, dirmgr_freeze_t *dst){
     // do the rename
     PROP(&e, exists_path(&src_path, &exists) );
     if(exists){
+        // the parent directories of the new name may not exist yet
+        PROP(&e, mkdirs_path(&dst_path, 0777) );
+        PROP(&e, drmdir_path(&dst_path) );
         PROP(&e, drename_path(&src_path, &dst_path) );
     }
 
-- 
2.43.0


From 82862aceab3c7b8a48b14eb15dea71ecd6576e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:51 +0000
Subject: [PATCH 20/28] fix: dns: skip a record's data when iterating through
 records

rrs_next() resumed parsing at the data of the record it had just returned,
so any record following a nonempty one was read from attacker-controlled
bytes, with lengths which were never validated.  One datagram was enough to
read past the end of the packet buffer.
---
 server/dns/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/dns/parse.c b/server/dns/parse.c
index 239a37b..1c0c8ae 100644
--- a/server/dns/parse.c
+++ b/server/dns/parse.c
@@ -460,7 +460,7 @@ rr_t *rrs_next(rrs_t *it){
     rr.rdoff = used;
 
     it->rr = rr;
-    it->pos = used;
+    it->pos = used + rr.rdlen;
     it->seen++;
 
     return &it->rr;
-- 
2.43.0


From f631d3366c2fba4008647442f850e7b563653cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:51 +0000
Subject: [PATCH 21/28] fix: dns: treat an overrunning edns option as a bad
 packet

BP_ENDS_OPT_DATA_OVERRUN was below BP_MINVAL, so it counted as success.
---
 server/dns/parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/dns/parse.h b/server/dns/parse.h
index 733372c..e6ba4a7 100644
--- a/server/dns/parse.h
+++ b/server/dns/parse.h
@@ -18,7 +18,7 @@ derr_type_t _fmt_lstr_dbg(const fmt_i *iface, writer_i *out);
 bool lstr_ieq(const lstr_t a, const lstr_t b);
 
 typedef enum {
-    BP_MINVAL                = (size_t)-13,
+    BP_MINVAL                = (size_t)-14,
 
     BP_ENDS_OPT_DATA_OVERRUN = (size_t)-14,
     BP_ENDS_OPT_HDR_OVERRUN  = (size_t)-13,
-- 
2.43.0


From 9924431f5c298734c35c256d91e3c755ba9c1e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:51 +0000
Subject: [PATCH 22/28] fix: dns: don't dereference a returned membuf after a
 failed send

EDESTADDRREQ and ENOKEY are meant to be survivable, but logging them read
the destination through a pointer which was already NULL.
---
 server/dns/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/dns/main.c b/server/dns/main.c
index d9ced4c..40c69af 100644
--- a/server/dns/main.c
+++ b/server/dns/main.c
@@ -109,6 +109,8 @@ static void on_send(uv_udp_send_t *req, int status){
     globals_t *g = req->handle->data;
 
     membuf_t *membuf = CONTAINER_OF(req, membuf_t, req);
+    // remember the destination, the membuf isn't ours after we return it
+    struct sockaddr_storage dst = membuf->ss;
     g_membuf_return(g, &membuf);
 
     if(status == 0 || status == UV_ECANCELED) return;
@@ -119,13 +121,13 @@ static void on_send(uv_udp_send_t *req, int status){
        destination to uv_udp_send(), we can treat this error in the wireguard
        layer as if it were silently dropped by the network. */
     if(status == UV_EDESTADDRREQ){
-        LOG_ERROR("EDESTADDRREQ: dst=%x\n", FNTOPS(&membuf->ss));
+        LOG_ERROR("EDESTADDRREQ: dst=%x\n", FNTOPS(&dst));
         return;
     }
 
     // similarly, don't crash the service if one wg endpoint is misconfigured
     if(status == -ENOKEY){
-        LOG_ERROR("ENOKEY: dst=%x\n", FNTOPS(&membuf->ss));
+        LOG_ERROR("ENOKEY: dst=%x\n", FNTOPS(&dst));
         return;
     }
 
-- 
2.43.0


From 88dfebe91e0fbe6434c507bcf2224410bd4a66d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:32 +0000
Subject: [PATCH 23/28] fix: user: start the key sync when the user is created

---
 libcitm/user.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libcitm/user.c b/libcitm/user.c
index 6526c8d..7882acc 100644
--- a/libcitm/user.c
+++ b/libcitm/user.c
@@ -309,6 +309,9 @@ derr_t user_new(
     hash_elem_t *old = hashmap_sets(out, &u->user, &u->elem);
     if(old) LOG_FATAL("user_new found existing user %x\n", FD_DBG(u->user));
 
+    // start our XKEYSYNC
+    schedule(u);
+
     return e;
 
 fail:
-- 
2.43.0


From 1c4c9912897ef57c8088a6ae0e4f322d7822b949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:38 +0000
Subject: [PATCH 24/28] fix: sc: refuse mailbox names which lead out of the
 mail directory

---
 libcitm/sc.c         | 52 ++++++++++++++++++++++++++++++++++++++++----
 libimaildir/dirmgr.c |  4 ++++
 2 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index 4d76ff5..622d6f4 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -295,6 +295,21 @@ static derr_t advance_disconnect(sc_t *sc, bool expunge, bool *okout){
     return e;
 }
 
+/* a mailbox name becomes a path under the user's mail directory, so only names
+   which stay within that directory can be used */
+static derr_t require_name(
+    sc_t *sc, ie_dstr_t **tagp, const ie_mailbox_t *m, bool *valid
+){
+    derr_t e = E_OK;
+
+    *valid = dirmgr_name_valid(ie_mailbox_name(m));
+    if(*valid) return e;
+
+    PROP(&e, RESP_NO(tagp, "mailbox name not supported", &sc->resps) );
+
+    return e;
+}
+
 static derr_t advance_select(
     sc_t *sc,
     ie_dstr_t **tagp,
@@ -314,6 +329,15 @@ static derr_t advance_select(
     }
 
     ONCE(sc->select_connected){
+        bool valid;
+        PROP(&e, require_name(sc, tagp, *mp, &valid) );
+        if(!valid){
+            sc->select_disconnected = false;
+            sc->select_connected = false;
+            *ok = true;
+            return e;
+        }
+
         // connect our dn_t first, to pick the initial SELECT/EXAMINE correctly
         derr_t e2 = dirmgr_open_dn(
             sc->dirmgr,
@@ -515,6 +539,16 @@ static derr_t check_lsub(
     return e;
 }
 
+static derr_t pre_status(
+    sc_t *sc, ie_dstr_t **cmdtagp, imap_cmd_arg_t *argp, bool *valid
+){
+    derr_t e = E_OK;
+
+    PROP(&e, require_name(sc, cmdtagp, argp->status->m, valid) );
+
+    return e;
+}
+
 static derr_t check_status(
     sc_t *sc, ie_dstr_t **cmdtagp, imap_resp_t **respp, bool *ok
 ){
@@ -550,6 +584,9 @@ static derr_t pre_delete(
 ){
     derr_t e = E_OK;
 
+    PROP(&e, require_name(sc, cmdtagp, argp->delete, valid) );
+    if(!*valid) return e;
+
     *valid = false;
 
     const dstr_t deleting = *ie_mailbox_name(argp->delete);
@@ -606,6 +643,11 @@ static derr_t pre_rename(
 ){
     derr_t e = E_OK;
 
+    PROP(&e, require_name(sc, cmdtagp, argp->rename->old, valid) );
+    if(!*valid) return e;
+    PROP(&e, require_name(sc, cmdtagp, argp->rename->new, valid) );
+    if(!*valid) return e;
+
     *valid = false;
 
     const dstr_t old = *ie_mailbox_name(argp->rename->old);
@@ -678,11 +720,11 @@ static derr_t pre_append(
 ){
     derr_t e = E_OK;
 
-    (void)cmdtagp;
-    *valid = true;
-
     ie_append_cmd_t *append = argp->append;
 
+    PROP(&e, require_name(sc, cmdtagp, append->m, valid) );
+    if(!*valid) return e;
+
     // step 1: write the unencrypted text to a file for saving
     sc->append_tmp_id = dirmgr_new_tmp_id(sc->dirmgr);
     string_builder_t tmp_path = sb_append(&sc->dirmgr->path, SBS("tmp"));
@@ -858,7 +900,7 @@ static derr_t handle_cmd(sc_t *sc, bool *ok){
         case IMAP_CMD_CREATE: PASSTHRU(NULL, check_passthru_simple); break;
         case IMAP_CMD_LIST:   PASSTHRU(NULL, check_list); break;
         case IMAP_CMD_LSUB:   PASSTHRU(NULL, check_lsub); break;
-        case IMAP_CMD_STATUS: PASSTHRU(NULL, check_status); break;
+        case IMAP_CMD_STATUS: PASSTHRU(pre_status, check_status); break;
         case IMAP_CMD_DELETE: PASSTHRU(pre_delete, check_delete); break;
         case IMAP_CMD_RENAME: PASSTHRU(pre_rename, check_rename); break;
         case IMAP_CMD_APPEND: PASSTHRU(pre_append, check_append); break;
@@ -934,6 +976,8 @@ static derr_t handle_cmd(sc_t *sc, bool *ok){
         case IMAP_CMD_COPY:
             PROP(&e, require_selected(sc, tagp, &valid) );
             if(!valid) break;
+            PROP(&e, require_name(sc, tagp, arg->copy->m, &valid) );
+            if(!valid) break;
             PROP(&e, dn_copy(&sc->dn, tagp, arg->copy, out, ok) );
             break;
         case IMAP_CMD_FETCH:
diff --git a/libimaildir/dirmgr.c b/libimaildir/dirmgr.c
index 00a730a..fb30086 100644
--- a/libimaildir/dirmgr.c
+++ b/libimaildir/dirmgr.c
@@ -323,6 +323,7 @@ void dirmgr_close_dn(dirmgr_t *dm, dn_t *dn){
 
 /* check for invald names, including:
    - sections named any of: . .. cur tmp new
+   - sections named any of: .cache .cache.tmp .invalid
    - empty sections
    - names starting or ending with /
    - names containing newlines */
@@ -348,6 +349,9 @@ bool dirmgr_name_valid(const dstr_t *name){
         if(!dstr_cmp(&elem, &DSTR_LIT("cur"))) return false;
         if(!dstr_cmp(&elem, &DSTR_LIT("tmp"))) return false;
         if(!dstr_cmp(&elem, &DSTR_LIT("new"))) return false;
+        if(!dstr_cmp(&elem, &DSTR_LIT(".cache"))) return false;
+        if(!dstr_cmp(&elem, &DSTR_LIT(".cache.tmp"))) return false;
+        if(!dstr_cmp(&elem, &DSTR_LIT(".invalid"))) return false;
     } while(split.len > 1);
 
     return true;
-- 
2.43.0


From 7f4eb3a09a8708eb57b10a3b1c434b725d585bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:38 +0000
Subject: [PATCH 25/28] fix: imaildir: fail accessors which wait for their
 views too

---
 libimaildir/imaildir.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 72fc52f..c1dd3db 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -225,6 +225,11 @@ static void do_fail(imaildir_t *m){
         dn_t *dn = CONTAINER_OF(link, dn_t, link);
         dn_imaildir_failed(dn);
     }
+    // including those which are still waiting for their views
+    while((link = link_list_pop_first(&m->predns)) != NULL){
+        dn_t *dn = CONTAINER_OF(link, dn_t, link);
+        dn_imaildir_failed(dn);
+    }
 }
 
 /* imaildir_maybe_fail detects errors and broadcasts to all accessors.  Each
-- 
2.43.0


From bae89c64df36f45264828be4affd59208789e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:23 +0000
Subject: [PATCH 26/28] fix: acme_manager: want a certificate when only the
 account is missing

---
 libcitm/acme_manager.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcitm/acme_manager.c b/libcitm/acme_manager.c
index b9b6cf2..52cf1f2 100644
--- a/libcitm/acme_manager.c
+++ b/libcitm/acme_manager.c
@@ -1192,6 +1192,7 @@ derr_t acme_manager_init(
     if(!ok){
         am->maj = STATUS_MAJ_TLS_FIRST;
         am->min = STATUS_MIN_CREATE_ACCOUNT;
+        am->want_cert = true;
         goto done;
     }
 
-- 
2.43.0


From 07001621ae3ae9d413dcd4aeb1e5f03b4147f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:23 +0000
Subject: [PATCH 27/28] fix: acme_manager: never start a second keygen while
 one is in flight

---
 libcitm/acme_manager.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcitm/acme_manager.c b/libcitm/acme_manager.c
index 52cf1f2..c79a210 100644
--- a/libcitm/acme_manager.c
+++ b/libcitm/acme_manager.c
@@ -679,6 +679,7 @@ static derr_t advance_new_cert(acme_manager_t *am, bool *new_cert_ready){
 
     *new_cert_ready = false;
     bool ok;
+    bool keygen_in_flight;
 
     // temporary errors in new cert efforts are reraised at this point
     PROP_VAR_GO(&e, &nc->e, cu);
@@ -846,7 +847,10 @@ static derr_t advance_new_cert(acme_manager_t *am, bool *new_cert_ready){
     *new_cert_ready = true;
 
 cu:
+    // a keygen that is still in flight will serve the next attempt
+    keygen_in_flight = nc->keygen_started && !nc->keygen_done;
     new_cert_free(nc);
+    nc->keygen_started = keygen_in_flight;
 
     return e;
 }
-- 
2.43.0


From 9a311a3cf52b6373cd352f088a59c42efaff8ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:23 +0000
Subject: [PATCH 28/28] fix: acme_manager: put only a usable certificate in
 place

A certificate which does not go with its key, or is already expired, was
renamed into place before it was looked at.  Check it first, replace the
file atomically, and drop the order of an unusable one so that the retry
starts over instead of downloading the same certificate again.
---
 libcitm/acme_manager.c | 97 +++++++++++++++++++++++++++++++-----------
 1 file changed, 72 insertions(+), 25 deletions(-)

diff --git a/libcitm/acme_manager.c b/libcitm/acme_manager.c
index c79a210..6a16de7 100644
--- a/libcitm/acme_manager.c
+++ b/libcitm/acme_manager.c
@@ -13,6 +13,9 @@ static string_builder_t am_cert(acme_manager_t *am){
 static string_builder_t am_certnew(acme_manager_t *am){
     return sb_append(&am->acme_dir, SBS("certnew.pem"));
 }
+static string_builder_t am_certtmp(acme_manager_t *am){
+    return sb_append(&am->acme_dir, SBS("certtmp.pem"));
+}
 static string_builder_t am_key(acme_manager_t *am){
     return sb_append(&am->acme_dir, SBS("key.pem"));
 }
@@ -631,43 +634,79 @@ void am_close_done(acme_manager_t *am){
     am->close_done = true;
 }
 
-static derr_t rename_new_key_and_cert(acme_manager_t *am, bool check){
+// can this cert and this key be used together, for our domain?
+static derr_t check_pair(
+    acme_manager_t *am, string_builder_t cert, string_builder_t key, bool *ok
+){
     derr_t e = E_OK;
 
+    *ok = false;
+
+    bool exists;
+    PROP(&e, exists_path(&key, &exists) );
+    if(!exists) return e;
+
+    ssl_context_t ctx = {0};
+    time_t issue, expiry;
+    bool ours;
+    PROP_GO(&e, ssl_context_new_server_path(&ctx, cert, key), done);
+    PROP_GO(&e,
+        check_cert(cert, &issue, &expiry, am->fulldomain, &ours),
+    done);
+    *ok = ours && am->ami->now(am->ami) < expiry;
+
+done:
+    ssl_context_free(&ctx);
+    if(is_error(e)){
+        LOG_DEBUG(
+            "unable to use cert %x with key %x:\n%x",
+            FSB(cert),
+            FSB(key),
+            FD(e.msg)
+        );
+        DROP_VAR(&e);
+    }
+    return e;
+}
+
+// put a new cert (and its key) in place, but only if they are usable
+static derr_t rename_new_key_and_cert(
+    acme_manager_t *am, bool restart, bool *ok
+){
+    derr_t e = E_OK;
+
+    *ok = false;
+
     string_builder_t key = am_key(am);
     string_builder_t keynew = am_keynew(am);
     string_builder_t cert = am_cert(am);
     string_builder_t certnew = am_certnew(am);
 
     // does cert.pem.new exist?
-    bool ok;
-    PROP(&e, exists_path(&certnew, &ok) );
-    if(!ok) return e;
-
-    if(check){
-        // load the cert to make sure we didn't crash mid-write
-        IF_PROP(&e, check_cert(certnew, NULL, NULL, (dstr_t){0}, NULL) ){
-            // read existing key
-            LOG_DEBUG(
-                "failed loading certnew @%x, will recreate; error:\n%x",
-                FSB(certnew),
-                FD(e.msg)
-            );
-            DROP_VAR(&e);
-            return e;
-        }
-    }
+    bool exists;
+    PROP(&e, exists_path(&certnew, &exists) );
+    if(!exists) return e;
 
-    // does key.pem.new exist?
-    PROP(&e, exists_path(&keynew, &ok) );
-    if(ok){
+    // does it belong to key.pem.new?
+    bool match;
+    PROP(&e, check_pair(am, certnew, keynew, &match) );
+    if(match){
         // rename key
         PROP(&e, drename_atomic_path(&keynew, &key) );
+    }else{
+        // maybe we crashed after renaming the key
+        if(restart) PROP(&e, check_pair(am, certnew, key, &match) );
+        if(!match){
+            LOG_DEBUG("ignoring unusable certnew @%x\n", FSB(certnew));
+            return e;
+        }
     }
 
     // rename cert
     PROP(&e, drename_atomic_path(&certnew, &cert) );
 
+    *ok = true;
+
     return e;
 }
 
@@ -833,17 +872,24 @@ static derr_t advance_new_cert(acme_manager_t *am, bool *new_cert_ready){
         return e;
     }
 
-    // write the cert to file
+    // write the cert to file; a half-written cert is never called certnew
+    string_builder_t certtmp = am_certtmp(am);
     string_builder_t certnew = am_certnew(am);
-    PROP_GO(&e, dstr_write_path(&certnew, &nc->cert), cu);
+    PROP_GO(&e, dstr_write_path(&certtmp, &nc->cert), cu);
+    PROP_GO(&e, drename_atomic_path(&certtmp, &certnew), cu);
 
     // overwrite cert and key
-    PROP_GO(&e, rename_new_key_and_cert(am, false), cu);
+    PROP_GO(&e, rename_new_key_and_cert(am, false, &ok), cu);
 
     // delete the order object we cached
     string_builder_t ordr = am_ordr(am);
     PROP_GO(&e, dunlink_path(&ordr), cu);
 
+    if(!ok){
+        // we can't use this cert; start over with a new order
+        ORIG_GO(&e, E_RESPONSE, "obtained an unusable cert", cu);
+    }
+
     *new_cert_ready = true;
 
 cu:
@@ -1210,7 +1256,8 @@ derr_t acme_manager_init(
         order_ok ? STATUS_MIN_RELOAD : STATUS_MIN_CREATE_ORDER;
 
     // finish renaming if we crashed mid-rename
-    PROP_GO(&e, rename_new_key_and_cert(am, true), fail);
+    bool renamed;
+    PROP_GO(&e, rename_new_key_and_cert(am, true, &renamed), fail);
 
     // do we have cert and key yet?
     string_builder_t cert = am_cert(am);
-- 
2.43.0

