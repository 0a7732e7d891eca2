From 5c8c9417612b6cc225a81da41dff79f42e0c5084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 01/67] fix: MDBX_TO_EXACT_KEY_VALUE_*/MDBX_TO_PAIR_* must
 return the found multi-value

---
 mdbx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index fb8a379..a565da3 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16542,6 +16542,8 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
           MDBX_cursor *const mx = &mc->subcur->cursor;
           csr = cursor_seek(mx, &save_data, nullptr, MDBX_SET_RANGE);
           rc = csr.err;
+          if (likely(rc == MDBX_SUCCESS))
+            *data = save_data;
           if (csr.exact) {
             cASSERT0(mc, csr.err == MDBX_SUCCESS);
             if (op == MDBX_TO_EXACT_KEY_VALUE_LESSER_THAN)
@@ -16595,6 +16597,8 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
           MDBX_cursor *const mx = &mc->subcur->cursor;
           csr = cursor_seek(mx, &save_data, nullptr, MDBX_SET_RANGE);
           rc = csr.err;
+          if (likely(rc == MDBX_SUCCESS))
+            *data = save_data;
           if (csr.exact) {
             cASSERT0(mc, csr.err == MDBX_SUCCESS);
             if (op == MDBX_TO_PAIR_LESSER_THAN)
-- 
2.43.0


From 448b80fdff1e429cd7519fe6df55109fc098f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 02/67] fix: put with MDBX_ALLDUPS must re-seek after removing
 multi-values

---
 mdbx.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index a565da3..90443a1 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15126,14 +15126,20 @@ __hot int cursor_put(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *data, unsig
         /* nested subtree of DUPSORT-database with the same key, nothing to update */
         return (flags & MDBX_NODUPDATA) ? MDBX_KEYEXIST : MDBX_SUCCESS;
       }
-      if (inner_pointed(mc)) {
+      if (inner_pointed(mc) || (mc->subcur && (flags & MDBX_ALLDUPS))) {
         if (unlikely(flags & MDBX_ALLDUPS)) {
           rc = cursor_del(mc, MDBX_ALLDUPS);
           if (unlikely(rc != MDBX_SUCCESS))
             return rc;
           flags -= MDBX_ALLDUPS;
           cASSERT0(mc, mc->top + 1 == mc->tree->height);
-          rc = (mc->top >= 0) ? MDBX_NOTFOUND : MDBX_NO_ROOT;
+          rc = MDBX_NO_ROOT;
+          if (mc->tree->height) {
+            /* cursor_del() could move the cursor to the sibling page, so find the insertion point again */
+            rc = cursor_seek(mc, (MDBX_val *)key, nullptr, MDBX_SET).err;
+            if (unlikely(rc != MDBX_NOTFOUND))
+              return rc ? rc : MDBX_PROBLEM;
+          }
         } else if ((flags & (MDBX_RESERVE | MDBX_MULTIPLE)) == 0) {
           old_data = *data;
           csr_t csr = cursor_seek(&mc->subcur->cursor, &old_data, nullptr, MDBX_SET_RANGE);
-- 
2.43.0


From 366ea04dd255f77a46942f17358b6460bc31061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 03/67] fix: keep nested-tree state of other cursors in sync on
 put of multi-values

---
 mdbx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 90443a1..9e80ec4 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15713,6 +15713,12 @@ insert_node:;
         memcpy(db, &mc->subcur->nested_tree, sizeof(tree_t));
       }
       insert_data = (probe != (size_t)mc->subcur->nested_tree.items);
+      /* fix other cursors pointed at the same nested tree/page, otherwise its will use an obsolete nested_tree */
+      for (MDBX_cursor *m2 = mc->txn->cursors[cursor_dbi(mc)]; m2; m2 = m2->next) {
+        if (is_related(mc, m2) && m2->pg[mc->top] == mc->pg[mc->top] && m2->ki[mc->top] == mc->ki[mc->top] &&
+            inner_pointed(m2))
+          m2->subcur->nested_tree = mc->subcur->nested_tree;
+      }
     }
     /* Increment count unless we just replaced an existing item. */
     if (insert_data)
-- 
2.43.0


From d0b684ed652b7001ee4483c4164da48daee0bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 04/67] fix: cursor_del() after the last of multi-values must
 not corrupt the nested tree

---
 mdbx.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 9e80ec4..a30e223 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15839,10 +15839,14 @@ __hot int cursor_put_checklen(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *da
 }
 
 __hot int cursor_del(MDBX_cursor *mc, unsigned flags) {
-  if (unlikely(!is_filled(mc))) {
-    if (!F_ISSET(mc->flags, z_inner | z_eof_hard))
-      return MDBX_ENODATA;
-    if (outer_next(cursor_outer(mc), nullptr, nullptr, MDBX_NEXT) != MDBX_SUCCESS)
+  if (unlikely(!is_filled(mc)))
+    return MDBX_ENODATA;
+
+  if (inner_pointed(mc) && unlikely(!is_filled(&mc->subcur->cursor)) &&
+      !(flags & (MDBX_ALLDUPS | /* for compatibility */ MDBX_NODUPDATA))) {
+    /* The last of multi-values was deleted, so the cursor is logically at the next key. The outer cursor must be moved
+     * there before getting a node, otherwise the nested state of next key will be written into the current one. */
+    if (outer_next(mc, nullptr, nullptr, MDBX_NEXT) != MDBX_SUCCESS)
       return MDBX_ENODATA;
   }
 
-- 
2.43.0


From ca1aa9548b2a5c452ebdfffabde7a58aa3e3ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 05/67] fix: page_split() must update whole cursor stack after
 pure-right split of parent

---
 mdbx.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index a30e223..051307a 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -34055,8 +34055,11 @@ __hot int page_split(MDBX_cursor *mc, const MDBX_val *const newkey, MDBX_val *co
       goto done;
 
     if (pure_right) {
-      for (intptr_t i = 0; i < mc->top; i++)
+      /* the parent page(s) could be split and then the sister may have a different parent than the original page */
+      for (intptr_t i = 0; i < mc->top; i++) {
+        mc->pg[i] = mn->pg[i];
         mc->ki[i] = mn->ki[i];
+      }
     } else if (mc->ki[mc->top - 1] == 0) {
       for (intptr_t i = 2; i <= mc->top; ++i)
         if (mc->ki[mc->top - i]) {
-- 
2.43.0


From 86f63f0e06c2516efb06f4ee0eb492485be309ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 06/67] fix: an unused damaged meta-page must be re-shaped
 while opening

---
 mdbx.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 051307a..fe82aa7 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -20630,11 +20630,15 @@ __cold int dxb_setup(MDBX_env *env, const int lck_rc, const mdbx_mode_t mode_bit
         meta_t *const meta = METAPAGE(env, n);
         if (unlikely(unaligned_peek_u64(4, &meta->magic_and_version) != MDBX_DATA_MAGIC) ||
             (meta->dxbid.x | meta->dxbid.y) == 0 || (meta->gc_flags & ~DB_PERSISTENT_FLAGS)) {
-          const txnid_t txnid = meta_is_used(&troika, n) ? constmeta_txnid(meta) : 0;
+          const bool used = meta_is_used(&troika, n);
+          const txnid_t txnid = used ? constmeta_txnid(meta) : 0;
           NOTICE("%s %s"
                  "meta[%u], txnid %" PRIaTXN,
                  "updating db-format/guid signature for", meta_is_steady(meta) ? "stead-" : "weak-", n, txnid);
-          err = meta_override(env, n, txnid, meta);
+          /* An unused meta-page may be damaged entirely, including the page header and/or signature, e.g. lost during
+           * a power failure at a DB creation. It must be made well-formed using the recent one as a shape, since
+           * subsequent commits will update only the payload of meta-pages, i.e. don't fix the rest. */
+          err = meta_override(env, n, txnid, used ? meta : meta_recent(env, &troika).ptr_c);
           if (unlikely(err != MDBX_SUCCESS) &&
               /* Just ignore the MDBX_PROBLEM error, since here it is
                * returned only in case of the attempt to upgrade an obsolete
-- 
2.43.0


From 8dbaf1895e8617e88bb5c9405cc93a8284cc7666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 07/67] fix: dbi_open() by a cached handle must fail if the
 table is absent

---
 mdbx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index fe82aa7..85972dd 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17728,7 +17728,11 @@ int dbi_open(MDBX_txn *txn, const MDBX_val *const name, unsigned user_flags, MDB
     if (txn->dbi_state[slot] & DBI_STALE) {
       rc = tbl_fetch(txn, &cx.outer, fastpath_slot = slot, name, user_flags);
       if (unlikely(rc != MDBX_SUCCESS)) {
-        /* таблица отсутствует, её нужно создавать (если запрос с MDBX_CREATE), либо освобождать слот. */
+        if (!(user_flags & MDBX_CREATE))
+          return rc;
+        /* таблица отсутствует, её нужно создавать.
+         * Сбрасываем fastpath_slot, поскольку проверка наличия таблицы НЕ завершилась успешно. */
+        fastpath_slot = 0;
         goto slowpath_locking;
       }
       txn->dbi_state[slot] -= DBI_STALE;
-- 
2.43.0


From f95169ce3920c22d5a563e9e76a2aa973319fd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 08/67] fix: renaming a table must invalidate obsolete handles
 and cached state

---
 mdbx.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 85972dd..f621d76 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6775,8 +6775,6 @@ __cold int mdbx_dbi_rename2(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *new_nam
   rc = osal_fastmutex_acquire(&txn->env->dbi_lock);
   if (likely(rc == MDBX_SUCCESS)) {
     struct dbi_rename_result pair = dbi_rename_locked(txn, dbi, *new_name);
-    if (pair.defer)
-      pair.defer->next = nullptr;
     dbi_defer_release(txn->env, pair.defer);
     rc = pair.err;
   }
@@ -17804,10 +17802,26 @@ __cold struct dbi_rename_result dbi_rename_locked(MDBX_txn *txn, MDBX_dbi dbi, M
       pair.err = cursor_del(&cx.outer, N_TREE);
     if (likely(pair.err == MDBX_SUCCESS)) {
       pair.defer = env->kvs[dbi].name.iov_base;
+      pair.defer->next = nullptr;
       env->kvs[dbi].name = new_name;
+      /* Хендл больше не соответствует таблице с прежним именем, поэтому закэшированное состояние таблицы
+       * в других транзакциях (в том числе читающих более старые MVCC-снимки) должно стать недействительным. */
+      txn->dbi_seqs[dbi] = atomic_store32(&env->dbi_seqs[dbi], dbi_seq_next(env, dbi), mo_AcquireRelease);
+      /* Таблицы с новым именем не было, но могли остаться открытые ранее хендлы с таким именем. Их необходимо закрыть,
+       * иначе на одну таблицу будут ссылаться несколько хендлов. */
+      for (size_t i = env->n_dbi; --i >= CORE_DBS;)
+        if (i != dbi && env->kvs[i].name.iov_base && env->kvs[MAIN_DBI].clc.k.cmp(&new_name, &env->kvs[i].name) == 0) {
+          defer_free_item_t *const obsolete = dbi_close_locked(env, (MDBX_dbi)i);
+          if (obsolete) {
+            obsolete->next = pair.defer;
+            pair.defer = obsolete;
+          }
+        }
     } else
       txn->flags |= MDBX_TXN_ERROR;
   }
+  if (unlikely(pair.err != MDBX_SUCCESS))
+    pair.defer->next = nullptr;
 
   txn->cursors[MAIN_DBI] = cx.outer.next;
   return pair;
-- 
2.43.0


From 426cf6f70dc842390b2968c331d4aba634a74d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 09/67] fix: a read transaction must not close handle of a
 table absent in its snapshot

---
 mdbx.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index f621d76..59b27c2 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17534,7 +17534,10 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
       }
 
     gone:
-      *defer_chain = dbi_close_locked(env, slot);
+      /* Absence of a table in the MVCC-snapshot of a read transaction is not a reason to close the handle,
+       * which may be in use by other transactions, including the write one. */
+      if (!(txn->flags & MDBX_TXN_RDONLY))
+        *defer_chain = dbi_close_locked(env, slot);
       return rc;
     }
   }
-- 
2.43.0


From ed93ae3556e44395ca706e9c0492405e9f691867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 10/67] fix: publish DBI-sequence before the handle becomes
 visible for lock-free open

---
 mdbx.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 59b27c2..5253ad6 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17400,8 +17400,9 @@ int dbi_bind(MDBX_txn *txn, const size_t dbi, unsigned user_flags, MDBX_cmp_func
         return MDBX_PROBLEM;
       }
 
-      env->dbs_flags[dbi] = db_flags | DB_VALID;
       atomic_store32(&env->dbi_seqs[dbi], seq, mo_AcquireRelease);
+      osal_memory_fence(mo_AcquireRelease, true);
+      env->dbs_flags[dbi] = db_flags | DB_VALID;
       txn->dbi_seqs[dbi] = seq;
       txn->dbi_state[dbi] = DBI_LINDO | DBI_VALID | DBI_CREAT | DBI_DIRTY;
       txn->flags |= MDBX_TXN_DIRTY;
@@ -17603,8 +17604,11 @@ create:
       goto bailout;
 
     env->kvs[slot].name = name;
-    env->dbs_flags[slot] = txn->dbs[slot].flags | DB_VALID;
+    /* The sequence must be updated before the handle becomes visible for the lock-free path of dbi_open(),
+     * otherwise it could be imported into a concurrent transaction with an obsolete sequence. */
     txn->dbi_seqs[slot] = atomic_store32(&env->dbi_seqs[slot], seq, mo_AcquireRelease);
+    osal_memory_fence(mo_AcquireRelease, true);
+    env->dbs_flags[slot] = txn->dbs[slot].flags | DB_VALID;
   } else {
     eASSERT0(env, env->dbs_flags[slot] == (DB_VALID | (user_flags & DB_PERSISTENT_FLAGS)) &&
                       env->dbs_flags[slot] == (DB_VALID | txn->dbs[slot].flags) &&
-- 
2.43.0


From 8c1df56b9c5d9da172609a9f5b523f2731d254d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 11/67] fix: re-shape a damaged unused meta-page before
 updating the geometry of DB

---
 mdbx.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 5253ad6..32ab8fd 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -20597,6 +20597,22 @@ __cold int dxb_setup(MDBX_env *env, const int lck_rc, const mdbx_mode_t mode_bit
              header.geometry.now);
     }
 
+    if ((env->flags & MDBX_RDONLY) == 0 && env->stuck_meta < 0) {
+      /* An unused meta-page may be damaged entirely, including the page header, e.g. lost during a power failure at
+       * a DB creation. It must be made well-formed before it will be chosen as the target for updating meta.geo. */
+      for (unsigned n = 0; n < NUM_METAS; ++n) {
+        if (unlikely(!meta_is_used(&troika, n) &&
+                     unaligned_peek_u64(4, &METAPAGE(env, n)->magic_and_version) != MDBX_DATA_MAGIC)) {
+          err = meta_override(env, n, 0, meta_recent(env, &troika).ptr_c);
+          if (unlikely(err != MDBX_SUCCESS)) {
+            ERROR("reshape damaged meta[%u], error %d", n, err);
+            return err;
+          }
+          troika = meta_tap(env);
+        }
+      }
+    }
+
     const meta_ptr_t recent = meta_recent(env, &troika);
     if (/* не учитываем различия в geo.first_unallocated */
         header.geometry.grow_pv != recent.ptr_c->geometry.grow_pv ||
-- 
2.43.0


From b8bb9848507856220fb1dfbceb17457a02a12aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 12/67] fix: recover a lock of a dead process during
 mdbx_env_close()

---
 mdbx.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 32ab8fd..c96aaeb 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8403,6 +8403,10 @@ __cold int mdbx_reader_list(const MDBX_env *env, MDBX_reader_list_func func, voi
 __cold int mdbx_reader_check(MDBX_env *env, int *dead) {
   if (dead)
     *dead = 0;
+  int rc = check_env(env, true);
+  if (unlikely(rc != MDBX_SUCCESS))
+    return LOG_IFERR(rc);
+
   return LOG_IFERR(mvcc_cleanup_dead(env, false, dead));
 }
 
@@ -28218,7 +28222,9 @@ static bool pid_insert(mdbx_pid_t *list, mdbx_pid_t pid) {
 }
 
 __cold int mvcc_cleanup_dead(MDBX_env *env, int rdt_locked, int *dead) {
-  int rc = check_env(env, true);
+  /* The signature and the activity of env are checked by API-functions, but not here, since the cleanup is also needed
+   * while a lock of a dead process is recovered during closing of env, i.e. by the final sync in mdbx_env_close(). */
+  int rc = (env->flags & ENV_FATAL_ERROR) ? MDBX_PANIC : MDBX_SUCCESS;
   if (unlikely(rc != MDBX_SUCCESS))
     return rc;
 
-- 
2.43.0


From edbf045d6bb3e102c1bb76d887a4a6c99c0a9b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 13/67] fix: as-is copying must put the snapshot's geometry and
 trees into meta-pages, and not repeat them to a pipe

---
 mdbx.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index c96aaeb..20969ce 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5204,6 +5204,11 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
   meta_t *const meta = meta_init_triplet(env, buffer);
   meta_set_txnid(env, meta, txn->txnid);
 
+  /* the copy has the same geometry and trees as the snapshot */
+  meta->geometry = txn->geo;
+  meta->trees.gc = txn->dbs[FREE_DBI];
+  meta->trees.main = txn->dbs[MAIN_DBI];
+
   if (flags & MDBX_CP_FORCE_DYNAMIC_SIZE)
     meta_make_sizeable(meta);
 
@@ -5213,6 +5218,9 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
     meta->canary.v = constmeta_txnid(meta);
   }
 
+  /* Update signature */
+  meta_sign_as_steady(meta);
+
   int rc = MDBX_SUCCESS;
   if (flags & MDBX_CP_THROTTLE_MVCC) {
     rc = mdbx_txn_park(txn, false);
@@ -5226,7 +5234,6 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
     rc = osal_write(fd, buffer, meta_bytes);
     if (unlikely(rc != MDBX_SUCCESS))
       return rc;
-    offset = 0;
   }
 
 #if MDBX_USE_COPYFILERANGE
-- 
2.43.0


From 24aacaff36fe2e9a86d6ab9e3857be148c9a8c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:06 +0000
Subject: [PATCH 14/67] fix: compacting copy to a pipe must write meta-pages
 with the root of the copy

---
 mdbx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 20969ce..e676d03 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5125,11 +5125,15 @@ __cold static int copy_with_compacting(MDBX_env *env, MDBX_txn *txn, mdbx_fileha
         if (!meta->trees.main.mod_txnid)
           meta->trees.main.mod_txnid = txn->txnid;
         compacting_fixup_meta(env, meta);
+        /* meta-pages can't be rewritten within a pipe, so the place of the root
+         * must be known beforehand: it is always put last during the walk */
+        meta->trees.main.root = meta->geometry.first_unallocated - 1;
         if (flags & MDBX_CP_THROTTLE_MVCC)
           mdbx_txn_park(txn, false);
         rc = osal_write(fd, buffer, meta_bytes);
         if (likely(rc == MDBX_SUCCESS) && (flags & MDBX_CP_THROTTLE_MVCC) != 0)
           rc = mdbx_txn_unpark(txn, false);
+        meta->trees.main.root = txn->dbs[MAIN_DBI].root;
       }
       if (likely(rc == MDBX_SUCCESS))
         rc = compacting_walk_tree(&ctx, &meta->trees.main);
-- 
2.43.0


From 29bb2bda3638621a3963f966df11e1518449ad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:06 +0000
Subject: [PATCH 15/67] fix: writer thread of compacting copy must wake up the
 main one in case of an error

---
 mdbx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index e676d03..4c6279f 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -4770,6 +4770,8 @@ __cold static THREAD_RESULT THREAD_CALL compacting_write_thread(void *arg) {
     osal_condpair_signal(&ctx->condpair, false);
   }
 bailout:
+  /* wake up the main thread, which may be waiting for a buffer */
+  osal_condpair_signal(&ctx->condpair, false);
   osal_condpair_unlock(&ctx->condpair);
   return (THREAD_RESULT)0;
 }
-- 
2.43.0


From 94e25469b81efc8a78d891aa6c4b7883c4404090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 16/67] fix: clone of a parked read transaction must be able to
 hold and to restore the snapshot

---
 mdbx.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 4c6279f..665579a 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40767,7 +40767,10 @@ int txn_ro_clone(const MDBX_txn *const origin, MDBX_txn *const clone) {
       const uint64_t pages_retired = origin->ro.slot ? origin->ro.slot->snapshot_pages_retired.weak : 0;
       atomic_store32(&clone->ro.slot->snapshot_pages_used, pages_used, mo_Relaxed);
       atomic_store64(&clone->ro.slot->snapshot_pages_retired, pages_retired, mo_Relaxed);
-      safe64_write(&clone->ro.slot->txnid, (clone->flags & MDBX_TXN_PARKED) ? MDBX_TID_TXN_PARKED : clone->txnid);
+      if (clone->flags & MDBX_TXN_PARKED)
+        atomic_store64(&clone->ro.slot->tid, MDBX_TID_TXN_PARKED, mo_AcquireRelease);
+      safe64_write(&clone->ro.slot->txnid, clone->txnid);
+      atomic_store32(&env->lck->rdt_refresh_flag, true, mo_AcquireRelease);
     } else {
       /* exclusive mode without lck */
       eASSERT0(env, !env->lck_mmap.lck && env->lck == lckless_stub(env));
@@ -40797,13 +40800,20 @@ int txn_ro_clone(const MDBX_txn *const origin, MDBX_txn *const clone) {
     clone->dbi_seqs[FREE_DBI] = origin->dbi_seqs[FREE_DBI];
     clone->dbi_seqs[MAIN_DBI] = origin->dbi_seqs[MAIN_DBI];
 
+    err = MDBX_SUCCESS;
     if (!(clone->flags & MDBX_TXN_PARKED)) {
       if (likely(clone->ro.slot) && unlikely(clone->txnid != atomic_load64(&clone->ro.slot->txnid, mo_Relaxed)))
-        return MDBX_OUSTED;
-      if (unlikely(clone->txnid < atomic_load64(&env->lck->cached_oldest_txnid, mo_AcquireRelease)))
-        return MDBX_MVCC_RETARDED;
-    }
-    return MDBX_SUCCESS;
+        err = MDBX_OUSTED;
+      else if (unlikely(clone->txnid < atomic_load64(&env->lck->cached_oldest_txnid, mo_AcquireRelease)))
+        err = MDBX_MVCC_RETARDED;
+    } else if (likely(origin->ro.slot) && unlikely(safe64_read(&origin->ro.slot->tid) == MDBX_TID_TXN_OUSTED ||
+                                                   safe64_read(&origin->ro.slot->txnid) != clone->txnid))
+      /* the parked origin was ousted before the slot of the clone began to hold the snapshot */
+      err = MDBX_OUSTED;
+    if (unlikely(err != MDBX_SUCCESS))
+      /* to release the slot by ro_slot_clean() without ENSURE-fail */
+      clone->flags = (clone->flags | MDBX_TXN_PARKED) & ~MDBX_TXN_FINISHED;
+    return err;
   }
 
   return ro_seize(clone);
-- 
2.43.0


From 9758aad691bad6d97b97f3dbad67bd4eaf53ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 17/67] fix: mdbx_txn_amend() must not leave the read
 transaction parked when it fails

---
 mdbx.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 665579a..08cd946 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -11767,24 +11767,35 @@ int mdbx_txn_amend(MDBX_txn *rtxn, MDBX_txn **ptxn, MDBX_txn_flags_t flags, void
     return LOG_IFERR(MDBX_RESULT_TRUE);
 
   STATIC_ASSERT(MDBX_TXN_TRY != MDBX_TXN_PARKED);
+  bool parked_here = false;
   if ((uint32_t)(flags & MDBX_TXN_TRY) == (uint32_t)(rtxn->flags & MDBX_TXN_PARKED)) {
     rc = txn_ro_park(rtxn, true);
     if (unlikely(rc != MDBX_SUCCESS))
       return LOG_IFERR(rc);
+    parked_here = true;
   }
   rc = lck_txn_lock(env, (flags & MDBX_TXN_TRY) != 0);
-  if (unlikely(rc != MDBX_SUCCESS))
+  if (unlikely(rc != MDBX_SUCCESS)) {
+    if (parked_here)
+      txn_ro_unpark(rtxn);
     return LOG_IFERR(rc);
+  }
 
   /* after the lock was acuired we re-check that there were no new commits */
   if (recent_committed_txnid(env) != rtxn->txnid) {
     lck_txn_unlock(env);
+    /* return the reading transaction to the original state, unless it was ousted during the waiting */
+    if (parked_here)
+      txn_ro_unpark(rtxn);
     return LOG_IFERR(MDBX_RESULT_TRUE);
   }
 
   rc = txn_basal_start(env->basal_txn, (flags & ~MDBX_TXN_RDONLY_PREPARE) | txn_rw_already_locked);
-  if (unlikely(rc != MDBX_SUCCESS))
+  if (unlikely(rc != MDBX_SUCCESS)) {
+    if (parked_here)
+      txn_ro_unpark(rtxn);
     return LOG_IFERR(rc);
+  }
 
   /* A paranoid check that changes will be made on top of the desired data snapshot */
   rc = MDBX_RESULT_TRUE;
-- 
2.43.0


From e04b257f38bec2a811474e299b75cc7e64d3a737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 18/67] fix: copying must use the geometry of the snapshot, but
 not the changeable environment's one

---
 mdbx.c | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 08cd946..7180118 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -3404,7 +3404,7 @@ static inline bool meta_choice_steady(txnid_t a_txnid, bool a_steady, txnid_t b_
   return meta_cmp2steady(meta_cmp2int(a_txnid, b_txnid, 1), a_steady, b_steady);
 }
 
-MDBX_INTERNAL meta_t *meta_init_triplet(const MDBX_env *env, void *buffer);
+MDBX_INTERNAL meta_t *meta_init_triplet(const MDBX_env *env, void *buffer, const geo_t *geo);
 
 MDBX_INTERNAL int meta_validate(MDBX_env *env, meta_t *const meta, const page_t *const page, const unsigned meta_number,
                                 unsigned *guess_pagesize);
@@ -5051,7 +5051,7 @@ __cold static int copy_with_compacting(MDBX_env *env, MDBX_txn *txn, mdbx_fileha
                                        const bool dest_is_pipe, const MDBX_copy_flags_t flags) {
   const size_t meta_bytes = pgno2bytes(env, NUM_METAS);
   uint8_t *const data_buffer = buffer + ceil_powerof2(meta_bytes, globals.sys_pagesize);
-  meta_t *const meta = meta_init_triplet(env, buffer);
+  meta_t *const meta = meta_init_triplet(env, buffer, &txn->geo);
   meta_set_txnid(env, meta, txn->txnid);
 
   if (flags & MDBX_CP_FORCE_DYNAMIC_SIZE)
@@ -5207,7 +5207,7 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
                             const bool dest_is_pipe, const MDBX_copy_flags_t flags) {
   const size_t meta_bytes = pgno2bytes(env, NUM_METAS);
   uint8_t *const data_buffer = buffer + ceil_powerof2(meta_bytes, globals.sys_pagesize);
-  meta_t *const meta = meta_init_triplet(env, buffer);
+  meta_t *const meta = meta_init_triplet(env, buffer, &txn->geo);
   meta_set_txnid(env, meta, txn->txnid);
 
   /* the copy has the same geometry and trees as the snapshot */
@@ -20297,7 +20297,7 @@ __cold int dxb_setup(MDBX_env *env, const int lck_rc, const mdbx_mode_t mode_bit
     if (unlikely(err != MDBX_SUCCESS))
       return err;
 
-    header = *meta_init_triplet(env, env->page_auxbuf);
+    header = *meta_init_triplet(env, env->page_auxbuf, nullptr);
     err = osal_pwrite(env->lazy_fd, env->page_auxbuf, env->ps * (size_t)NUM_METAS, 0);
     if (unlikely(err != MDBX_SUCCESS))
       return err;
@@ -27632,14 +27632,11 @@ int meta_sync(const MDBX_env *env, const meta_ptr_t head) {
   return rc;
 }
 
-__cold static page_t *meta_model(const MDBX_env *env, page_t *model, size_t num, const bin128_t *guid) {
+__cold static page_t *meta_model(const MDBX_env *env, page_t *model, size_t num, const bin128_t *guid,
+                                 const geo_t *geo) {
   ENSURE_OBJ(env, is_powerof2(env->ps));
   ENSURE_OBJ(env, env->ps >= MDBX_MIN_PAGESIZE);
   ENSURE_OBJ(env, env->ps <= MDBX_MAX_PAGESIZE);
-  ENSURE_OBJ(env, env->geo_in_bytes.lower >= MIN_MAPSIZE);
-  ENSURE_OBJ(env, env->geo_in_bytes.upper <= MAX_MAPSIZE);
-  ENSURE_OBJ(env, env->geo_in_bytes.now >= env->geo_in_bytes.lower);
-  ENSURE_OBJ(env, env->geo_in_bytes.now <= env->geo_in_bytes.upper);
 
   memset(model, 0, env->ps);
   model->pgno = (pgno_t)num;
@@ -27647,11 +27644,20 @@ __cold static page_t *meta_model(const MDBX_env *env, page_t *model, size_t num,
   meta_t *const model_meta = page_meta(model);
   unaligned_poke_u64(4, model_meta->magic_and_version, MDBX_DATA_MAGIC);
 
-  model_meta->geometry.lower = bytes2pgno(env, env->geo_in_bytes.lower);
-  model_meta->geometry.upper = bytes2pgno(env, env->geo_in_bytes.upper);
-  model_meta->geometry.grow_pv = pages2pv(bytes2pgno(env, env->geo_in_bytes.grow));
-  model_meta->geometry.shrink_pv = pages2pv(bytes2pgno(env, env->geo_in_bytes.shrink));
-  model_meta->geometry.now = bytes2pgno(env, env->geo_in_bytes.now);
+  if (geo)
+    /* the geometry of an MVCC-snapshot, since the environment's one could be changed by another thread right now */
+    model_meta->geometry = *geo;
+  else {
+    ENSURE_OBJ(env, env->geo_in_bytes.lower >= MIN_MAPSIZE);
+    ENSURE_OBJ(env, env->geo_in_bytes.upper <= MAX_MAPSIZE);
+    ENSURE_OBJ(env, env->geo_in_bytes.now >= env->geo_in_bytes.lower);
+    ENSURE_OBJ(env, env->geo_in_bytes.now <= env->geo_in_bytes.upper);
+    model_meta->geometry.lower = bytes2pgno(env, env->geo_in_bytes.lower);
+    model_meta->geometry.upper = bytes2pgno(env, env->geo_in_bytes.upper);
+    model_meta->geometry.grow_pv = pages2pv(bytes2pgno(env, env->geo_in_bytes.grow));
+    model_meta->geometry.shrink_pv = pages2pv(bytes2pgno(env, env->geo_in_bytes.shrink));
+    model_meta->geometry.now = bytes2pgno(env, env->geo_in_bytes.now);
+  }
   model_meta->geometry.first_unallocated = NUM_METAS;
 
   ENSURE_OBJ(env, model_meta->geometry.lower >= MIN_PAGENO);
@@ -27674,18 +27680,18 @@ __cold static page_t *meta_model(const MDBX_env *env, page_t *model, size_t num,
   return ptr_disp(model, env->ps);
 }
 
-__cold meta_t *meta_init_triplet(const MDBX_env *env, void *buffer) {
+__cold meta_t *meta_init_triplet(const MDBX_env *env, void *buffer, const geo_t *geo) {
   const bin128_t guid = osal_guid(env);
   page_t *page0 = (page_t *)buffer;
-  page_t *page1 = meta_model(env, page0, 0, &guid);
-  page_t *page2 = meta_model(env, page1, 1, &guid);
-  meta_model(env, page2, 2, &guid);
+  page_t *page1 = meta_model(env, page0, 0, &guid, geo);
+  page_t *page2 = meta_model(env, page1, 1, &guid, geo);
+  meta_model(env, page2, 2, &guid, geo);
   return page_meta(page2);
 }
 
 __cold int __must_check_result meta_override(MDBX_env *env, size_t target, txnid_t txnid, const meta_t *shape) {
   page_t *const page = env->page_auxbuf;
-  meta_model(env, page, target, &((target == 0 && shape) ? shape : METAPAGE(env, 0))->dxbid);
+  meta_model(env, page, target, &((target == 0 && shape) ? shape : METAPAGE(env, 0))->dxbid, nullptr);
   meta_t *const model = page_meta(page);
   meta_set_txnid(env, model, txnid);
   if (txnid)
-- 
2.43.0


From baf99b55fc4d1781be1c5f616979fd9b07f5a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 19/67] fix: defragmentation must not ignore failures and
 partial success of copy_file_range()

---
 mdbx.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 7180118..186864c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -18431,13 +18431,16 @@ static int defrag_move(dfc_t *dfc, da_t *arc) {
         }
       } else {
 #if MDBX_USE_COPYFILERANGE
-        const ssize_t remainted = pgno2bytes(env, npages - i);
-        const ssize_t copied = copy_file_range(env->dxb_mmap.fd, &off_src, env->dxb_mmap.fd, &off_dst, remainted, 0);
-        err = MDBX_SUCCESS;
-        if (unlikely(copied != remainted))
-          err = (copied < 0) ? errno : MDBX_EIO;
-        break;
-#else
+        size_t remainted = pgno2bytes(env, npages - i);
+        off_t in_offset = off_src, out_offset = off_dst;
+        ssize_t copied;
+        do
+          copied = copy_file_range(env->dxb_mmap.fd, &in_offset, env->dxb_mmap.fd, &out_offset, remainted, 0);
+        while (copied > 0 && (remainted -= copied) > 0);
+        if (likely(remainted == 0))
+          break;
+        /* fallback to portable for the page, regardless of the reason why copy_file_range() fails or stops */
+#endif /* MDBX_USE_COPYFILERANGE */
 #if MDBX_CHECKING > 1
         ASSERT(!pnl_contains(dfc->repnl_clone, bytes2pgno(env, off_src)));
 #endif /* MDBX_CHECKING > 1 */
@@ -18450,7 +18453,6 @@ static int defrag_move(dfc_t *dfc, da_t *arc) {
         err = osal_pwrite(txn->env->dxb_mmap.fd, txn->env->page_auxbuf, env->ps, off_dst);
         if (unlikely(err != MDBX_SUCCESS))
           return err;
-#endif /* MDBX_USE_COPYFILERANGE */
       }
     }
   }
-- 
2.43.0


From 5702daa57e0d80570935b937d4bc425054197ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 20/67] fix: mdbx_env_chk() must not report a problem nor
 change the environment when the DB is resized concurrently

---
 mdbx.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 186864c..2641acd 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -13331,18 +13331,19 @@ __cold static int env_chk(MDBX_chk_scope_t *const scope) {
                         chk->envinfo.mi_sys_upcblk, "");
   chk_line_end(line);
 
-  env->dxb_mmap.filesize = chk->envinfo.mi_dxb_fsize;
+  /* without an exclusive access the DB may be grown or shrunk by a writer right now */
+  const bool may_be_resized = (env->flags & MDBX_EXCLUSIVE) == 0 && (txn->flags & txn_ro_both) != 0;
+  if (!may_be_resized)
+    env->dxb_mmap.filesize = chk->envinfo.mi_dxb_fsize;
 
   //--------------------------------------------------------------------------
 
   err = chk_scope_begin(chk, 1, MDBX_chk_meta, nullptr, &usr->result.problems_meta, "Peek the meta-pages...");
   if (likely(!err)) {
     MDBX_chk_scope_t *const inner = usr->scope;
-    const uint64_t dxbfile_pages = env->dxb_mmap.filesize >> env->ps2ln;
+    const uint64_t dxbfile_pages = chk->envinfo.mi_dxb_fsize >> env->ps2ln;
     usr->result.alloc_pages = txn->geo.first_unallocated;
     usr->result.backed_pages = bytes2pgno(env, env->dxb_mmap.current);
-    if (unlikely(usr->result.backed_pages > dxbfile_pages))
-      chk_scope_issue(inner, "backed-pages %zu > file-pages %" PRIu64, usr->result.backed_pages, dxbfile_pages);
     if (unlikely(dxbfile_pages < NUM_METAS))
       chk_scope_issue(inner, "file-pages %" PRIu64 " < %u", dxbfile_pages, NUM_METAS);
     if (unlikely(usr->result.backed_pages < NUM_METAS))
@@ -13360,7 +13361,7 @@ __cold static int env_chk(MDBX_chk_scope_t *const scope) {
       usr->result.backed_pages = MAX_PAGENO + 1;
     }
 
-    if ((env->flags & (MDBX_EXCLUSIVE | MDBX_RDONLY)) != MDBX_RDONLY) {
+    if (!may_be_resized) {
       if (unlikely(usr->result.backed_pages > dxbfile_pages)) {
         chk_scope_issue(inner, "backed-pages %zu > file-pages %" PRIu64, usr->result.backed_pages, dxbfile_pages);
         usr->result.backed_pages = (size_t)dxbfile_pages;
-- 
2.43.0


From 2716b39359a68b7f49cba227143ce3c2c7ba2935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 21/67] fix: serialize processes opening the same DB, so
 killing of the initialising one can't leave others with an uninitialised
 lck-file

---
 mdbx.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 2641acd..2c1753a 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -25438,6 +25438,10 @@ __cold MDBX_chk_line_t *histogram_print(MDBX_chk_scope_t *scope, MDBX_chk_line_t
  * Не-операционный режим на время пере-инициализации и разрушении lck-файла:
  *   = F_WRLCK блокировка первого байта lck-файла, другие процессы ждут её
  *     снятия при получении F_RDLCK через F_SETLKW.
+ *   = F_WRLCK блокировка последнего байта lck-файла, другие открывающие БД
+ *     процессы ждут её снятия прежде получения остальных блокировок. Поэтому
+ *     если инициализирующий процесс будет прерван, то инициализация всегда
+ *     будет выполнена заново следующим из ожидающих.
  *   - блокировки dxb-файла могут меняться до снятие эксклюзивной блокировки
  *     lck-файла:
  *       + для НЕ-эксклюзивного режима блокировка pid-байта в dxb-файле
@@ -25666,6 +25670,12 @@ static int check_fstat(MDBX_env *env) {
   return rc;
 }
 
+/* Serializes processes opening the same DB, until the one of these
+ * either joins to others or completes the initialization of the lck-file. */
+static int lck_opening_lock(MDBX_env *env) { return lck_op(env->lck_mmap.fd, op_setlkw, F_WRLCK, OFF_T_MAX - 1, 1); }
+
+static int lck_opening_unlock(MDBX_env *env) { return lck_op(env->lck_mmap.fd, op_setlk, F_UNLCK, OFF_T_MAX - 1, 1); }
+
 __cold int lck_seize(MDBX_env *env) {
   ASSERT(env->lazy_fd != INVALID_HANDLE_VALUE);
   if (unlikely(osal_getpid() != env->pid))
@@ -25699,6 +25709,13 @@ __cold int lck_seize(MDBX_env *env) {
     return MDBX_RESULT_TRUE /* Done: return with exclusive locking. */;
   }
 
+  rc = lck_opening_lock(env);
+  if (rc != MDBX_SUCCESS) {
+    ERROR("%s, err %u", "opening-lock", rc);
+    eASSERT0(env, MDBX_IS_ERROR(rc));
+    return rc;
+  }
+
 retry:
   if (rc == MDBX_RESULT_TRUE) {
     rc = lck_op(env->lck_mmap.fd, op_setlk, F_UNLCK, 0, 1);
@@ -25783,6 +25800,13 @@ retry:
     return rc;
   }
 
+  rc = lck_opening_unlock(env);
+  if (rc != MDBX_SUCCESS) {
+    ERROR("%s, err %u", "opening-unlock", rc);
+    eASSERT0(env, MDBX_IS_ERROR(rc));
+    return rc;
+  }
+
   /* Done: return with shared locking. */
   return MDBX_RESULT_FALSE;
 }
@@ -25800,6 +25824,8 @@ int lck_downgrade(MDBX_env *env) {
   }
   if (rc == MDBX_SUCCESS)
     rc = lck_setlk_with3retries(env->lck_mmap.fd, F_RDLCK, 0, 1);
+  if (rc == MDBX_SUCCESS)
+    rc = lck_opening_unlock(env);
   if (unlikely(rc != 0)) {
     ERROR("%s, err %u", "lck", rc);
     ASSERT(MDBX_IS_ERROR(rc));
-- 
2.43.0


From ff0eb1ab4f89d5536684dc347eacd98a0448c7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 22/67] fix: pages of the last snapshot flushed to the disk
 must not be reused nor left unsynced in NOMETASYNC and SAFE_NOSYNC modes

---
 mdbx.c | 79 +++++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 61 insertions(+), 18 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 2c1753a..ba6a236 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -3289,6 +3289,7 @@ MDBX_INTERNAL meta_ptr_t meta_ptr(const MDBX_env *env, unsigned n);
 MDBX_INTERNAL txnid_t meta_txnid(const volatile meta_t *meta);
 MDBX_INTERNAL txnid_t recent_committed_txnid(const MDBX_env *env);
 MDBX_INTERNAL int meta_sync(const MDBX_env *env, const meta_ptr_t head);
+MDBX_INTERNAL int meta_make_rollback_point(MDBX_txn *txn, const meta_ptr_t recent);
 
 MDBX_INTERNAL const char *durable_caption(const meta_t *const meta);
 MDBX_INTERNAL void meta_troika_dump(const MDBX_env *env, const troika_t *troika);
@@ -3312,6 +3313,25 @@ static inline meta_ptr_t meta_prefer_steady(const MDBX_env *env, const troika_t
   return r;
 }
 
+/* Returns the meta-page of the newest snapshot which is certainly on the disk and thus must be kept untouched for
+ * a rollback after a system crash, i.e. the last steady one. However, the last steady meta-page may not be flushed
+ * to the disk yet (because of MDBX_NOMETASYNC), then such snapshot is determined by the previous steady meta-page. */
+static inline meta_ptr_t meta_rollback_point(const MDBX_env *env, const troika_t *troika) {
+  meta_ptr_t r = meta_prefer_steady(env, troika);
+  if (troika->recent == troika->prefer_steady && r.is_steady &&
+      unlikely(atomic_load32(&env->lck->meta_sync_txnid, mo_Relaxed) != (uint32_t)r.txnid)) {
+    int prev = -1;
+    for (int n = 0; n < NUM_METAS; ++n)
+      if (n != troika->prefer_steady && ((troika->fsm >> n) & 1) && (prev < 0 || troika->txnid[prev] < troika->txnid[n]))
+        prev = n;
+    if (prev >= 0) {
+      r.txnid = troika->txnid[prev];
+      r.ptr_v = METAPAGE(env, prev);
+    }
+  }
+  return r;
+}
+
 static inline meta_ptr_t meta_tail(const MDBX_env *env, const troika_t *troika) {
   const uint8_t tail = troika->tail_and_flags & 3;
   MDBX_ANALYSIS_ASSUME(tail < NUM_METAS);
@@ -18055,15 +18075,14 @@ static int defrag_load_gc(dfc_t *dfc) {
     if (id > txn->env->gc.detent) {
       if (!dfc->stopor) {
         if (id <= txn_basis_snapshot(txn)) {
-          if (meta_prefer_steady(txn->env, &txn->wr.troika).txnid == txn->env->gc.detent) {
+          if (meta_rollback_point(txn->env, &txn->wr.troika).txnid == txn->env->gc.detent) {
             /* make steady checkpoint. */
 #if MDBX_ENABLE_PROFGC
             txn->env->lck->pgops.gc_prof.flushes += 1;
 #endif /* MDBX_ENABLE_PROFGC */
             const meta_ptr_t recent = meta_recent(txn->env, &txn->wr.troika);
             ASSERT(recent.txnid > txn->env->gc.detent);
-            meta_t meta = *recent.ptr_c;
-            rc = dxb_sync_locked(txn->env, txn->env->flags & (MDBX_WRITEMAP | MDBX_NOMETASYNC), &meta, &txn->wr.troika);
+            rc = meta_make_rollback_point(txn, recent);
             if (unlikely(rc != MDBX_SUCCESS))
               break;
           }
@@ -20904,9 +20923,6 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
   rc = MDBX_RESULT_FALSE /* carry steady */;
   const uint64_t snap_unsynced_pages = atomic_load64(&env->lck->unsynced_pages, mo_Relaxed);
   if (snap_unsynced_pages) {
-    if (snap_unsynced_pages == 1 && (flags & MDBX_NOMETASYNC))
-      goto skip_lastmeta_sync;
-
     eASSERT0(env, ((flags ^ env->flags) & MDBX_WRITEMAP) == 0);
     enum osal_syncmode_bits mode_bits = MDBX_SYNC_NONE;
     if ((flags & MDBX_SAFE_NOSYNC) == 0) {
@@ -20915,8 +20931,17 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
         mode_bits |= MDBX_SYNC_SIZE;
       if (flags & MDBX_NOMETASYNC)
         mode_bits |= MDBX_SYNC_IODQ;
-    } else if (unlikely(env->incore))
-      goto skip_incore_sync;
+    } else {
+      if (head.is_steady && head.txnid != pending->unsafe_txnid &&
+          unlikely(atomic_load32(&env->lck->meta_sync_txnid, mo_Relaxed) != (uint32_t)head.txnid)) {
+        /* the weak commit relies on the last steady one, so it must be on the disk */
+        rc = meta_sync(env, head);
+        if (unlikely(rc != MDBX_SUCCESS))
+          goto fail;
+      }
+      if (unlikely(env->incore))
+        goto skip_incore_sync;
+    }
 
     if (flags & MDBX_WRITEMAP)
       rc = dxb_msync(env, pending->geometry.first_unallocated, mode_bits);
@@ -20941,7 +20966,6 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
     /* Может быть нулевым если unsynced_pages > 0 в результате спиллинга.
      * eASSERT0(env, env->lck->eoos_timestamp.weak != 0); */
     unaligned_poke_u64(4, pending->sign, DATASIGN_WEAK);
-  skip_lastmeta_sync:;
   }
 
   const bool legal4overwrite = head.txnid == pending->unsafe_txnid &&
@@ -21032,10 +21056,12 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
     osal_flush_incoherent_cpu_writeback();
     jitter4testing(true);
     if (!env->incore) {
-      if (!MDBX_AVOID_MSYNC)
+      if (!MDBX_AVOID_MSYNC) {
         /* sync meta-pages */
+        if (flags & MDBX_NOMETASYNC)
+          env->lck->unsynced_pages.weak += 1;
         rc = dxb_msync(env, NUM_METAS, (flags & MDBX_NOMETASYNC) ? MDBX_SYNC_NONE : MDBX_SYNC_DATA | MDBX_SYNC_IODQ);
-      else {
+      } else {
         if (MDBX_ENABLE_PGOP_STAT)
           env->lck->pgops.wops.weak += 1;
         const page_t *page = payload2page(target);
@@ -21589,7 +21615,9 @@ __cold int env_open(MDBX_env *env, mdbx_mode_t mode) {
   env->flags |= ENV_ACTIVE;
   if (!lck || lck_rc == MDBX_RESULT_TRUE) {
     env->lck->envmode.weak = env->flags & mode_flags;
-    env->lck->meta_sync_txnid.weak = (uint32_t)recent_committed_txnid(env);
+    /* The last meta-page may be not flushed to the disk by a killed process which used MDBX_NOMETASYNC. */
+    env->lck->meta_sync_txnid.weak =
+        (uint32_t)recent_committed_txnid(env) - ((env->flags & MDBX_RDONLY) ? 0 : MDBX_NOMETASYNC_LAZY_UNK);
     env->lck->readers_check_timestamp.weak = osal_monotime();
   }
   if (lck) {
@@ -22951,7 +22979,7 @@ depleted_gc:
 
   /* Does reclaiming stopped at the last steady point? */
   const meta_ptr_t recent = meta_recent(env, &txn->wr.troika);
-  const meta_ptr_t prefer_steady = meta_prefer_steady(env, &txn->wr.troika);
+  const meta_ptr_t prefer_steady = meta_rollback_point(env, &txn->wr.troika);
   if ((flags & ALLOC_UNIMPORTANT) == 0 && recent.ptr_c != prefer_steady.ptr_c && prefer_steady.is_steady &&
       txn->env->gc.detent == prefer_steady.txnid) {
     DEBUG("gc-kick-steady: recent %" PRIaTXN "-%s, steady %" PRIaTXN "-%s", recent.txnid, durable_caption(recent.ptr_c),
@@ -22978,7 +23006,7 @@ depleted_gc:
       DEBUG("gc-wipe-steady, rc %d", ret.err);
       if (unlikely(ret.err != MDBX_SUCCESS))
         goto fail;
-      eASSERT0(env, prefer_steady.ptr_c != meta_prefer_steady(env, &txn->wr.troika).ptr_c);
+      eASSERT0(env, prefer_steady.ptr_c != meta_rollback_point(env, &txn->wr.troika).ptr_c);
       goto retry_gc_refresh_detent;
     }
     if ((autosync_threshold && atomic_load64(&env->lck->unsynced_pages, mo_Relaxed) >= autosync_threshold) ||
@@ -22990,13 +23018,12 @@ depleted_gc:
 #if MDBX_ENABLE_PROFGC
       env->lck->pgops.gc_prof.flushes += 1;
 #endif /* MDBX_ENABLE_PROFGC */
-      meta_t meta = *recent.ptr_c;
-      ret.err = dxb_sync_locked(env, env->flags & (MDBX_WRITEMAP | MDBX_NOMETASYNC), &meta, &txn->wr.troika);
+      ret.err = meta_make_rollback_point(txn, recent);
       DEBUG("gc-make-steady, rc %d", ret.err);
       eASSERT0(env, ret.err != MDBX_RESULT_TRUE);
       if (unlikely(ret.err != MDBX_SUCCESS))
         goto fail;
-      if (prefer_steady.ptr_c != meta_prefer_steady(env, &txn->wr.troika).ptr_c)
+      if (prefer_steady.ptr_c != meta_rollback_point(env, &txn->wr.troika).ptr_c)
         goto retry_gc_refresh_detent;
       eASSERT0(env, env->incore);
     }
@@ -27661,6 +27688,22 @@ int meta_sync(const MDBX_env *env, const meta_ptr_t head) {
   return rc;
 }
 
+/* Flushes the recent committed snapshot to the disk entirely, including the meta-page regardless of MDBX_NOMETASYNC,
+ * since after that the pages of the previous ones could be reused. */
+int meta_make_rollback_point(MDBX_txn *txn, const meta_ptr_t recent) {
+  MDBX_env *const env = txn->env;
+  int rc;
+  if (recent.is_steady)
+    rc = meta_sync(env, recent);
+  else {
+    meta_t meta = *recent.ptr_c;
+    rc = dxb_sync_locked(env, env->flags & MDBX_WRITEMAP, &meta, &txn->wr.troika);
+  }
+  /* force oldest refresh */
+  atomic_store32(&env->lck->rdt_refresh_flag, true, mo_Relaxed);
+  return rc;
+}
+
 __cold static page_t *meta_model(const MDBX_env *env, page_t *model, size_t num, const bin128_t *guid,
                                  const geo_t *geo) {
   ENSURE_OBJ(env, is_powerof2(env->ps));
@@ -28139,7 +28182,7 @@ __hot orsi_rw_t mvcc_shapshot_oldest_rw(const MDBX_txn *const txn) {
   lck_t *const lck = txn->env->lck;
   uint64_t oldest_retired_pages = lck->cached_oldest_retired.weak;
   const txnid_t prev_oldest = atomic_load64(&lck->cached_oldest_txnid, mo_AcquireRelease);
-  const meta_ptr_t steady = meta_prefer_steady(txn->env, &txn->wr.troika);
+  const meta_ptr_t steady = meta_rollback_point(txn->env, &txn->wr.troika);
   orsi_rw_t result = {.steady_txnid = steady.txnid, .oldest_txnid = prev_oldest};
   cASSERT0(txn, steady.txnid <= txn->env->basal_txn->txnid);
   cASSERT0(txn, steady.txnid >= prev_oldest);
-- 
2.43.0


From 02b0e029b83905b80dc21ec04b5cb2e4ac412a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 23/67] fix: mdbx_replace() must preserve old value of a
 spilled page since it may reside in a dirty large-page

---
 mdbx.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index ba6a236..8fa03cf 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10990,8 +10990,10 @@ int mdbx_replace_ex(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *
         }
       }
 
-      if (is_modifable(txn, page)) {
-        if (new_data && eq_fast(&present_data, new_data)) {
+      if (!is_frozen(txn, page)) {
+        /* страница модифицирована в этой либо в родительской транзакции (в том числе могла быть вытолкнута на диск),
+         * поэтому данные могут быть в буфере "грязной" large-страницы, который будет освобожден или переиспользован */
+        if (is_modifable(txn, page) && new_data && eq_fast(&present_data, new_data)) {
           /* если данные совпадают, то ничего делать не надо */
           *old_data = *new_data;
           goto bailout;
-- 
2.43.0


From f8abca09a9bdd375099c96a8f5d000af97be31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 24/67] fix: must not spill dirty pages while allocating a
 page, i.e. in the middle of operations

---
 mdbx.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 8fa03cf..5d0b50c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -3510,6 +3510,14 @@ static inline bool spill_intersect(const MDBX_txn *txn, pgno_t pgno, size_t npag
   return rc;
 }
 
+MDBX_NOTHROW_PURE_FUNCTION static inline bool txn_spill_required(const MDBX_txn *const txn, const size_t need) {
+  const intptr_t wanna_spill_entries = txn->wr.dirtylist ? (need - txn->wr.dirtyroom - txn->wr.loose_count) : 0;
+  const intptr_t wanna_spill_npages =
+      need + (txn->wr.dirtylist ? txn->wr.dirtylist->pages_including_loose : txn->wr.writemap_dirty_npages) -
+      txn->wr.loose_count - txn->env->options.dp_limit;
+  return wanna_spill_npages > 0 || wanna_spill_entries > 0;
+}
+
 static inline int txn_spill(MDBX_txn *const txn, MDBX_cursor *const m0, const size_t need) {
   cASSERT0(txn, (txn->flags & txn_ro_both) == 0);
   tASSERT1(txn, !m0 || cursor_is_tracked(m0));
@@ -22899,7 +22907,10 @@ next_gc:
   eASSERT0(env, op == MDBX_PREV || op == MDBX_NEXT);
   rkl_t *rkl = &txn->wr.gc.reclaimed;
   const char *rkl_name = "reclaimed";
-  if (mc->dbi_state != txn->dbi_state && (MDBX_DEBUG > 0 || gc_may_clean_reclaimed(txn))) {
+  if (mc->dbi_state != txn->dbi_state && (MDBX_DEBUG > 0 || gc_may_clean_reclaimed(txn)) &&
+      /* Внутри выделения страниц недопустимо выталкивание (spilling), поскольку в середине операции стеки курсоров
+       * могут быть не полными, а страницы используются по указателям в том числе помимо курсоров. */
+      ((txn->flags & MDBX_WRITEMAP) || !txn_spill_required(txn, (CURSOR_STACK_SIZE + 4) * 2))) {
     gc->next = txn->cursors[FREE_DBI];
     txn->cursors[FREE_DBI] = gc;
     ret.err = cursor_del(gc, 0);
-- 
2.43.0


From 74d91dbd328e92a55b8ab87e88357a674502330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 25/67] fix: failed or repeated resizing must not leave the DB
 file smaller than the geometry says

---
 mdbx.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 5d0b50c..64e027f 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -19959,6 +19959,11 @@ __cold int dxb_resize(MDBX_env *const env, const pgno_t allocated_pgno, const pg
   if (mode >= impilict_shrink)
     mresize_flags |= txn_shrink_allowed;
 
+  /* The file might be resized by another process, so the cached size may be obsolete. */
+  rc = osal_filesize(env->dxb_mmap.fd, &env->dxb_mmap.filesize);
+  if (unlikely(rc != MDBX_SUCCESS))
+    goto bailout;
+
   if (limit_bytes == env->dxb_mmap.limit && size_bytes == env->dxb_mmap.current && size_bytes == env->dxb_mmap.filesize)
     goto bailout;
 
@@ -31235,18 +31240,15 @@ retry_mapview:;
       rc = MDBX_EPERM;
     map->current = (map->filesize > limit) ? limit : (size_t)map->filesize;
   } else {
-    if (map->filesize != size) {
-      if (size > map->filesize) {
-        rc = osal_fsetsize(map->fd, size);
-        VERBOSE("osal_fsetsize-%s %zu, err %d", "extend", size, rc);
-      } else if (flags & txn_shrink_allowed) {
-        rc = osal_fsetsize(map->fd, size);
-        VERBOSE("osal_fsetsize-%s %zu, err %d", "shrink", size, rc);
-      }
+    if (size > map->filesize) {
+      rc = osal_fsetsize(map->fd, size);
+      VERBOSE("osal_fsetsize-%s %zu, err %d", "extend", size, rc);
       if (unlikely(rc != MDBX_SUCCESS))
         return rc;
       map->filesize = size;
     }
+    /* The file will be shrunk at the end, i.e. only if the mapping is changed successfully. Otherwise the file would
+     * become less than the size in the actual meta-page, which leads to SIGBUS in other processes. */
 
     if (map->current > size) {
       /* Clearing asan's bitmask for the region which released in shrinking,
@@ -31262,7 +31264,7 @@ retry_mapview:;
   }
 
   if (limit == map->limit)
-    return rc;
+    goto shrink_file;
 
   if (limit < map->limit) {
     /* unmap an excess at end of mapping. */
@@ -31272,7 +31274,7 @@ retry_mapview:;
       return errno;
     }
     map->limit = limit;
-    return rc;
+    goto shrink_file;
   }
 
   int err = check_mmap_limit(limit);
@@ -31419,6 +31421,14 @@ retry_mapview:;
   (void)madvise(map->base, map->limit, MADV_NOHUGEPAGE);
 #endif /* MADV_NOHUGEPAGE */
 
+shrink_file:
+  if (rc == MDBX_SUCCESS && size < map->filesize && (flags & txn_shrink_allowed) && !(flags & MDBX_RDONLY)) {
+    rc = osal_fsetsize(map->fd, size);
+    VERBOSE("osal_fsetsize-%s %zu, err %d", "shrink", size, rc);
+    if (likely(rc == MDBX_SUCCESS))
+      map->filesize = size;
+  }
+
 #endif /* POSIX / Windows */
 
   /* Zap: Redundant code */
-- 
2.43.0


From ea7aee1d4de330ac444aabb90e1ec2529e49e10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 26/67] fix: a short read while opening must not be treated as
 an empty DB file, which was re-created with the loss of all data

---
 mdbx.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 64e027f..e918737 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -30212,11 +30212,20 @@ int osal_pread(mdbx_filehandle_t fd, void *buf, size_t bytes, uint64_t offset) {
   }
 #else
   STATIC_ASSERT_MSG(sizeof(off_t) >= sizeof(size_t), "libmdbx requires 64-bit file I/O on 64-bit systems");
-  intptr_t read = pread(fd, buf, bytes, offset);
-  if (read < 0) {
-    int rc = errno;
-    return (rc == MDBX_SUCCESS) ? /* paranoia */ MDBX_EIO : rc;
-  }
+  size_t read = 0;
+  do {
+    /* a short read is not the end-of-file, therefore it must not be reported as MDBX_ENODATA */
+    const intptr_t chunk = pread(fd, ptr_disp(buf, read), bytes - read, offset + read);
+    if (chunk < 0) {
+      const int rc = errno;
+      if (rc == EINTR)
+        continue;
+      return (rc == MDBX_SUCCESS) ? /* paranoia */ MDBX_EIO : rc;
+    }
+    if (chunk == 0)
+      break;
+    read += chunk;
+  } while (read < bytes);
 #endif
   return (bytes == (size_t)read) ? MDBX_SUCCESS : MDBX_ENODATA;
 }
-- 
2.43.0


From c0855a42d731cf57bf78a52d87f7c29a4900efe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 27/67] fix: slots of a dead process with the same pid must not
 be treated as own live readers

---
 mdbx.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index e918737..5227965 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -28118,6 +28118,15 @@ bsr_t mvcc_bind_slot(MDBX_env *env) {
       lck_rdt_unlock(env);
       return result;
     }
+    if ((globals.runtime_flags & MDBX_DBG_LEGACY_MULTIOPEN) == 0) {
+      /* The slots with the own pid can't be in use yet, i.e. ones were left by a dead process with the same pid. */
+      for (size_t i = 0; i < env->lck->rdt_length.weak; i++)
+        if (unlikely(atomic_load_pid(&env->lck->rdt[i].pid, mo_Relaxed) == env->pid)) {
+          NOTICE("clear stale reader of a dead process with the same pid %" PRIuPTR, (size_t)env->pid);
+          atomic_store32(&env->lck->rdt[i].pid, 0, mo_Relaxed);
+          atomic_store32(&env->lck->rdt_refresh_flag, true, mo_AcquireRelease);
+        }
+    }
     env->registered_reader_pid = env->pid;
   }
 
-- 
2.43.0


From 27e80c24b4fec6737c49d3d732dba19f5fca5126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 28/67] fix: starting a reader must succeed if slots of dead
 processes were freed, instead of returning MDBX_READERS_FULL

---
 mdbx.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 5227965..0221ad1 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -28141,10 +28141,11 @@ bsr_t mvcc_bind_slot(MDBX_env *env) {
     if (likely(slot < env->max_readers))
       break;
 
-    result.err = mvcc_cleanup_dead(env, true, nullptr);
-    if (result.err != MDBX_RESULT_TRUE) {
+    int dead = 0;
+    result.err = mvcc_cleanup_dead(env, true, &dead);
+    if (MDBX_IS_ERROR(result.err) || !dead) {
       lck_rdt_unlock(env);
-      result.err = (result.err == MDBX_SUCCESS) ? MDBX_READERS_FULL : result.err;
+      result.err = MDBX_IS_ERROR(result.err) ? result.err : MDBX_READERS_FULL;
       return result;
     }
   }
-- 
2.43.0


From 133c19c87eea43f31398030ec4f7bf2b08364c47 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 29/67] fix: don't leave the write transaction running if the
 defragmentation fails to start

---
 mdbx.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 0221ad1..a079df9 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8707,8 +8707,15 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
                                                                                      : txn->env->maxgc_large1page;
 
   rc = defrag_init(&dfc, txn, defrag_atleast, time_atleast_dot16, defrag_enough, time_limit_dot16, preferred_batch);
-  if (unlikely(rc != MDBX_SUCCESS))
+  if (unlikely(rc != MDBX_SUCCESS)) {
+    defrag_destroy(&dfc);
+    if (txn->userctx == &dfc) {
+      /* don't leave the internally started transaction running and the lock held */
+      int err = txn_basal_end(txn, true);
+      rc = (err != MDBX_SUCCESS && !MDBX_IS_ERROR(rc)) ? err : rc;
+    }
     return LOG_IFERR(rc);
+  }
 
   dfc.user_ctx = ctx;
   dfc.user_callback = progress_callback;
-- 
2.43.0


From 9d3edc7530f4a54fed5924b59c71a6cda816c6b7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 30/67] fix: flush pages moved by the defragmentation before
 updating the meta-page

---
 mdbx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index a079df9..2ff55dd 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -18453,6 +18453,8 @@ static int defrag_move(dfc_t *dfc, da_t *arc) {
 
   DEBUG("moved %u pages %u -> %u", arc->npages, arc->key_or_pgno, arc->mapped);
   dfc->cycle_pages_moved += npages;
+  /* the moved pages are written directly and must be flushed to the disk before the meta-page */
+  txn->env->lck->unsynced_pages.weak += npages;
   if (unlikely(npages > 1)) {
     MDBX_env *env = txn->env;
     for (pgno_t i = 1; i < npages; ++i) {
-- 
2.43.0


From fe729fa507305700828d3f497fc6da65118d5c96 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:37:40 +0000
Subject: [PATCH 31/67] fix: don't loop the defragmentation forever when
 nothing could be moved nor released

---
 mdbx.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 2ff55dd..ff98913 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8720,8 +8720,10 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
   dfc.user_ctx = ctx;
   dfc.user_callback = progress_callback;
 
+  unsigned idle_retry = 0;
   while ((size_t)acceptable_backlash + dfc.payload_pages < txn->geo.first_unallocated && !defrag_discontinued(&dfc)) {
     const pgno_t prev_stumble = dfc.stumble_pgno;
+    const pgno_t prev_allocated = txn->geo.first_unallocated;
     rc = defrag_cycle(&dfc);
 
 #if MDBX_CHECKING > 1
@@ -8742,6 +8744,14 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
       break;
     }
 
+    idle_retry = (dfc.cycle_pages_moved || txn->geo.first_unallocated < prev_allocated) ? 0 : idle_retry + 1;
+    if (idle_retry > 3) {
+      NOTICE("bailout since no progress (nothing moved nor released, %u pages allocated) in a few retries",
+             txn->geo.first_unallocated);
+      rc = MDBX_RESULT_TRUE;
+      break;
+    }
+
     if ((dfc.stopping_reasons & MDBX_defrag_laggard_reader) != 0 && txn_gc_detent(txn))
       dfc.stopping_reasons -= MDBX_defrag_laggard_reader;
 
-- 
2.43.0


From 3505de06c8133d39e6e5472bd458f25665abaf2b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 32/67] fix: mdbx_gc_info() must skip an already reclaimed row
 instead of looping on it forever

---
 mdbx.c | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index ff98913..24613aa 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8632,25 +8632,25 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
       }
 
       const txnid_t id = unaligned_peek_u64(4, gc_key.iov_base);
-      if ((txn->flags & txn_ro_flat) == 0 && gc_is_reclaimed(txn, id))
-        continue;
-
-      const size_t len = pnl_size(glr.pnl);
-      const bool is_reclaimable = id <= reclaiming_detent;
-      info->pages_gc += len;
-      if (is_reclaimable)
-        info->gc_reclaimable.pages += len;
-      for (size_t span, i = 1; i <= len; i += span) {
-        span = pnl_scan_span(glr.pnl, i);
-        const size_t pgno = glr.pnl[i];
-        if (is_reclaimable) {
-          histogram_acc(span, &info->gc_reclaimable.span_histogram);
-          histogram_acc(pgno, &info->gc_reclaimable.pgno_distribution);
-        }
-        if (iter_func) {
-          rc = iter_func(iter_ctx, txn, id, pgno, span, is_reclaimable);
-          if (rc != MDBX_RESULT_FALSE)
-            break;
+      /* rows already loaded into the working set of the write transaction must be skipped */
+      if ((txn->flags & txn_ro_flat) != 0 || !gc_is_reclaimed(txn, id)) {
+        const size_t len = pnl_size(glr.pnl);
+        const bool is_reclaimable = id <= reclaiming_detent;
+        info->pages_gc += len;
+        if (is_reclaimable)
+          info->gc_reclaimable.pages += len;
+        for (size_t span, i = 1; i <= len; i += span) {
+          span = pnl_scan_span(glr.pnl, i);
+          const size_t pgno = glr.pnl[i];
+          if (is_reclaimable) {
+            histogram_acc(span, &info->gc_reclaimable.span_histogram);
+            histogram_acc(pgno, &info->gc_reclaimable.pgno_distribution);
+          }
+          if (iter_func) {
+            rc = iter_func(iter_ctx, txn, id, pgno, span, is_reclaimable);
+            if (rc != MDBX_RESULT_FALSE)
+              break;
+          }
         }
       }
 
-- 
2.43.0


From 0280610dd1aa92d58dfee37039ba2e56c15939af Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 33/67] fix: mdbx_gc_info() must stop at once and return the
 result of the visitor

---
 mdbx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 24613aa..126aa31 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8649,7 +8649,7 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
           if (iter_func) {
             rc = iter_func(iter_ctx, txn, id, pgno, span, is_reclaimable);
             if (rc != MDBX_RESULT_FALSE)
-              break;
+              goto stopped;
           }
         }
       }
@@ -8660,6 +8660,7 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
         break;
       }
     }
+  stopped:
     txn->cursors[FREE_DBI] = cx.outer.next;
   }
   return LOG_IFERR(rc);
-- 
2.43.0


From f1594a2472296010715a8d4ae1fd352bed01e273 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 34/67] fix: mdbx_gc_info() must give the first page of a span
 instead of the last one

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 126aa31..d06b833 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8641,7 +8641,7 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
           info->gc_reclaimable.pages += len;
         for (size_t span, i = 1; i <= len; i += span) {
           span = pnl_scan_span(glr.pnl, i);
-          const size_t pgno = glr.pnl[i];
+          const size_t pgno = MDBX_PNL_ASCENDING ? glr.pnl[i] : glr.pnl[i + span - 1];
           if (is_reclaimable) {
             histogram_acc(span, &info->gc_reclaimable.span_histogram);
             histogram_acc(pgno, &info->gc_reclaimable.pgno_distribution);
-- 
2.43.0


From 6eae7d8367751b9b5790a4ac418644936a9346e9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 35/67] fix: mdbx_cursor_scroll() must count a step onto a
 multi-value once

---
 mdbx.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index d06b833..c5c55f1 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17008,9 +17008,9 @@ int cursor_scroll_forward(MDBX_cursor *mc, intptr_t amount, int level) {
   if (inner_pointed(mc)) {
     cdr_t tdr = cursor_forward_at(&mc->subcur->cursor, amount, level - mc->tree->height);
     err = tdr.err;
-    amount = tdr.distance;
     if (unlikely(err != MDBX_NOTFOUND))
       return err;
+    amount = tdr.distance + /* the step out of the multi-value */ 1;
     mc->subcur->nested_tree.root = 0;
     mc->subcur->cursor.top_and_flags = z_inner | z_poor_mark;
   }
@@ -17032,9 +17032,9 @@ int cursor_scroll_forward(MDBX_cursor *mc, intptr_t amount, int level) {
     err = cursor_dupsort_setup(mc, node, mc->pg[mc->top]);
     if (unlikely(err != MDBX_SUCCESS))
       return err;
-    if ((size_t)amount < mc->subcur->nested_tree.items) {
+    if ((size_t)amount <= mc->subcur->nested_tree.items) {
       err = inner_first(&mc->subcur->cursor, nullptr);
-      if (unlikely(err != MDBX_SUCCESS))
+      if (unlikely(err != MDBX_SUCCESS || /* the step into the multi-value */ --amount == 0))
         return err;
       return cursor_forward_at(&mc->subcur->cursor, amount, level - mc->tree->height).err;
     }
@@ -17054,9 +17054,9 @@ int cursor_scroll_backward(MDBX_cursor *mc, intptr_t amount, int level) {
   if (inner_pointed(mc)) {
     cdr_t tdr = cursor_backward_at(&mc->subcur->cursor, amount, level - mc->tree->height);
     err = tdr.err;
-    amount = tdr.distance;
     if (unlikely(err != MDBX_NOTFOUND))
       return err;
+    amount = tdr.distance + /* the step out of the multi-value */ 1;
     mc->subcur->nested_tree.root = 0;
     mc->subcur->cursor.top_and_flags = z_inner | z_poor_mark;
   }
@@ -17078,9 +17078,9 @@ int cursor_scroll_backward(MDBX_cursor *mc, intptr_t amount, int level) {
     err = cursor_dupsort_setup(mc, node, mc->pg[mc->top]);
     if (unlikely(err != MDBX_SUCCESS))
       return err;
-    if ((size_t)amount < mc->subcur->nested_tree.items) {
+    if ((size_t)amount <= mc->subcur->nested_tree.items) {
       err = inner_last(&mc->subcur->cursor, nullptr);
-      if (unlikely(err != MDBX_SUCCESS))
+      if (unlikely(err != MDBX_SUCCESS || /* the step into the multi-value */ --amount == 0))
         return err;
       return cursor_backward_at(&mc->subcur->cursor, amount, level - mc->tree->height).err;
     }
-- 
2.43.0


From 0c0cfe8aea989e148ce9fccb8c16369d90234a23 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 36/67] fix: mdbx_cursor_distance() must account the position
 inside of the first multi-value

---
 mdbx.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index c5c55f1..fb95481 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16882,6 +16882,21 @@ cdr_t cursor_distance(MDBX_cursor *iter, const MDBX_cursor *end, int level) {
     }
   }
 
+  size_t head = 0;
+  if (inner_pointed(iter)) {
+    /* values of the first multi-value in front of the starting position */
+    cursor_couple_t couple;
+    MDBX_cursor *const first = cursor_clone_complete(iter, &couple);
+    tdr.err = inner_first(&first->subcur->cursor, nullptr);
+    if (unlikely(tdr.err != MDBX_SUCCESS))
+      return tdr;
+    cdr_t head_tdr = cursor_distance_at(&first->subcur->cursor, &iter->subcur->cursor, level - iter->tree->height);
+    tdr.err = head_tdr.err;
+    if (unlikely(tdr.err != MDBX_SUCCESS))
+      return tdr;
+    head = head_tdr.distance;
+  }
+
   /* запрошенный уровень предполагает учет mutivalues/дубликатов */
   while (iter->pg[iter->top] != end->pg[iter->top]) {
     cdr_t leaf_tdr = cursor_leaf_amount(iter->pg[iter->top], iter->ki[iter->top], page_numkeys(iter->pg[iter->top]));
@@ -16917,6 +16932,7 @@ cdr_t cursor_distance(MDBX_cursor *iter, const MDBX_cursor *end, int level) {
     tdr.err = subtree_tdr.err;
   }
 
+  tdr.distance -= head;
   return tdr;
 }
 
-- 
2.43.0


From 6c87e9805e232360b748df8b695b8595914d0ad0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 37/67] fix: deletion of a range must not reset the sequence of
 the table, even if all items were deleted

---
 mdbx.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index fb95481..61d1beb 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -37463,9 +37463,13 @@ int tree_curoff_range(MDBX_cursor *begin, MDBX_cursor *end, bool end_including)
     if (is_inner(begin))
       /* специфический случай когда функция была вызвана для вложенного dupsort-дерева */
       return cutoff_leaf(cursor_outer(begin), MDBX_ALLDUPS);
-    else if (!begin->subcur || (cursor_on_first(&begin->subcur->cursor) && cursor_on_last(&end->subcur->cursor)))
-      /* удаляем дерево целиком */
-      return tbl_purge(begin);
+    else if (!begin->subcur || (cursor_on_first(&begin->subcur->cursor) && cursor_on_last(&end->subcur->cursor))) {
+      /* удаляем дерево целиком, но не сбрасываем sequence таблицы */
+      const uint64_t sequence = begin->tree->sequence;
+      const int err = tbl_purge(begin);
+      begin->tree->sequence = sequence;
+      return err;
+    }
   }
 
   intptr_t cmp = -1;
-- 
2.43.0


From 1498e57e0b1d95e50a08308108418288cc3657a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:32 +0000
Subject: [PATCH 38/67] fix: mdbx_txn_refresh() and mdbx_txn_amend() could miss
 a newer commit due to non-atomic reading of the meta-pages

---
 mdbx.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 61d1beb..2d9b037 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -27618,10 +27618,12 @@ __hot troika_t meta_tap(const MDBX_env *env) {
 }
 
 txnid_t recent_committed_txnid(const MDBX_env *env) {
-  const txnid_t m0 = meta_txnid(METAPAGE(env, 0));
-  const txnid_t m1 = meta_txnid(METAPAGE(env, 1));
-  const txnid_t m2 = meta_txnid(METAPAGE(env, 2));
-  return (m0 > m1) ? ((m0 > m2) ? m0 : m2) : ((m1 > m2) ? m1 : m2);
+  /* collect until a pair of identical ones, since otherwise a meta-page with the most recent txnid
+   * could be overwritten (i.e. looks as unused) while the others has been already read with stale values */
+  troika_t troika = meta_tap(env);
+  while (unlikely(meta_should_retry(env, &troika)))
+    ;
+  return troika.txnid[troika.recent];
 }
 
 static inline bool meta_eq(const troika_t *troika, size_t a, size_t b) {
-- 
2.43.0


From bd6e61dcc215a7823d3356af885c8d8f5797d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 39/67] fix: a writer must not rely on the size of the DB file
 after recovering the lock of a dead one, which could have shrunk the file

---
 mdbx.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 2d9b037..7c7c572 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -26187,6 +26187,14 @@ __cold static int osal_ipclock_failed(MDBX_env *env, osal_ipclock_t *ipc, const
         env->txn = nullptr;
         rc = MDBX_PANIC;
       }
+      /* The dead owner could have shrunk the DB file without committing the corresponding geometry, so the actual
+       * size should be taken into account to extend the file back at the start of a write transaction. */
+      if (osal_fastmutex_acquire(&env->remap_lock) == MDBX_SUCCESS) {
+        uint64_t filesize;
+        if (osal_filesize(env->dxb_mmap.fd, &filesize) == MDBX_SUCCESS && filesize < env->dxb_mmap.current)
+          env->dxb_mmap.current = (size_t)(env->dxb_mmap.filesize = filesize);
+        ENSURE_OBJ(env, osal_fastmutex_release(&env->remap_lock) == MDBX_SUCCESS);
+      }
     }
     WARNING("%clock owner died, %s", (rlocked ? 'r' : 'w'), (rc ? "this process' env is hosed" : "recovering"));
 
-- 
2.43.0


From 8c02c7596c73ec13b8c340b6974204e39b93dd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 40/67] fix: mdbx_env_info() and mdbx_env_sync() must not touch
 meta-pages while another thread of the process is remapping the DB

---
 mdbx.c | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 7c7c572..15035b8 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -7880,7 +7880,25 @@ __cold int mdbx_env_info_ex(const MDBX_env *env, const MDBX_txn *txn, MDBX_envin
   }
 
   troika_t troika;
-  return LOG_IFERR(env_info(env, txn, arg, &troika));
+  if (txn || !env->dxb_mmap.base)
+    return LOG_IFERR(env_info(env, txn, arg, &troika));
+
+  /* Without a transaction the mapping could be moved by another thread, which changes the upper limit of the geometry */
+  MDBX_env *const guard = (MDBX_env *)env;
+#if defined(_WIN32) || defined(_WIN64)
+  imports.srwl_AcquireShared(&guard->remap_lock);
+#else
+  int rc = osal_fastmutex_acquire(&guard->remap_lock);
+  if (unlikely(rc != MDBX_SUCCESS))
+    return LOG_IFERR(rc);
+#endif
+  int err = env_info(env, txn, arg, &troika);
+#if defined(_WIN32) || defined(_WIN64)
+  imports.srwl_ReleaseShared(&guard->remap_lock);
+#else
+  ENSURE_OBJ(env, osal_fastmutex_release(&guard->remap_lock) == MDBX_SUCCESS);
+#endif
+  return LOG_IFERR(err);
 }
 
 __cold int mdbx_preopen_snapinfo(const char *pathname, MDBX_envinfo *out, size_t bytes) {
@@ -21270,7 +21288,25 @@ retry:;
     goto bailout;
   }
 
-  const troika_t troika = (txn_owned || should_unlock) ? env->basal_txn->wr.troika : meta_tap(env);
+  troika_t troika;
+  if (txn_owned || should_unlock)
+    troika = env->basal_txn->wr.troika;
+  else {
+    /* Acquire guard to avoid collision with remap */
+#if defined(_WIN32) || defined(_WIN64)
+    imports.srwl_AcquireShared(&env->remap_lock);
+#else
+    int err = osal_fastmutex_acquire(&env->remap_lock);
+    if (unlikely(err != MDBX_SUCCESS))
+      return err;
+#endif
+    troika = meta_tap(env);
+#if defined(_WIN32) || defined(_WIN64)
+    imports.srwl_ReleaseShared(&env->remap_lock);
+#else
+    ENSURE_OBJ(env, osal_fastmutex_release(&env->remap_lock) == MDBX_SUCCESS);
+#endif
+  }
   const meta_ptr_t head = meta_recent(env, &troika);
   const uint64_t unsynced_pages = atomic_load64(&env->lck->unsynced_pages, mo_Relaxed);
   if (unsynced_pages == 0) {
@@ -21320,7 +21356,7 @@ retry:;
           if (unlikely(err != MDBX_SUCCESS))
             return err;
 #endif
-          err = dxb_msync(env, head.ptr_c->geometry.first_unallocated, MDBX_SYNC_DATA);
+          err = dxb_msync(env, meta_recent(env, &troika).ptr_c->geometry.first_unallocated, MDBX_SYNC_DATA);
 #if defined(_WIN32) || defined(_WIN64)
           imports.srwl_ReleaseShared(&env->remap_lock);
 #else
-- 
2.43.0


From aa60afcac9db17566cdd05c602a98db24cdfccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 41/67] fix: mdbx_gc_info() must not treat reclaimed rows as
 corrupted ones after refunding of pages

---
 mdbx.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 15035b8..d2785a3 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8643,15 +8643,16 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
         break;
       }
 
-      const glr_t glr = gc_row_pnl(txn, gc_data);
-      if (unlikely(glr.err != MDBX_SUCCESS)) {
-        ERROR("%s/%d: %s", "corrupted GC-record", rc = glr.err, glr.reason);
-        break;
-      }
-
       const txnid_t id = unaligned_peek_u64(4, gc_key.iov_base);
-      /* rows already loaded into the working set of the write transaction must be skipped */
+      /* rows already loaded into the working set of the write transaction must be skipped,
+       * including a check of content, since some of the listed pages could be already refunded */
       if ((txn->flags & txn_ro_flat) != 0 || !gc_is_reclaimed(txn, id)) {
+        const glr_t glr = gc_row_pnl(txn, gc_data);
+        if (unlikely(glr.err != MDBX_SUCCESS)) {
+          ERROR("%s/%d: %s", "corrupted GC-record", rc = glr.err, glr.reason);
+          break;
+        }
+
         const size_t len = pnl_size(glr.pnl);
         const bool is_reclaimable = id <= reclaiming_detent;
         info->pages_gc += len;
-- 
2.43.0


From 351024aeec0e84f134501330870c3a306d3e190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 42/67] fix: a write transaction must be ended and the lock
 released by mdbx_txn_abort() even after a fatal error, otherwise all other
 writers hang

---
 mdbx.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index d2785a3..9e02c82 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -11201,7 +11201,9 @@ int mdbx_txn_abort_ex(MDBX_txn *txn, MDBX_commit_latency *latency) {
     return LOG_IFERR(rc);
 
   rc = check_env(txn->env, true);
-  if (unlikely(rc != MDBX_SUCCESS))
+  if (unlikely(rc != MDBX_SUCCESS) &&
+      /* the transaction must be ended to release the locks even after a fatal error, but not in a child after fork() */
+      (rc != MDBX_PANIC || txn->env->pid != osal_getpid()))
     return LOG_IFERR(rc);
 
 #if MDBX_TXN_CHECKOWNER
@@ -11218,9 +11220,9 @@ int mdbx_txn_abort_ex(MDBX_txn *txn, MDBX_commit_latency *latency) {
     cASSERT0(txn, !txn->nested);
   }
 
-  rc = txn_abort(txn, latency);
+  int err = txn_abort(txn, latency);
   txn_latency_done(latency, &ts);
-  return LOG_IFERR(rc);
+  return LOG_IFERR(rc ? rc : err);
 }
 
 int mdbx_txn_park(MDBX_txn *txn, bool autounpark) {
-- 
2.43.0


From e081954e8542a426078a0faffb52657f7f085a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 43/67] fix: a crash of mdbx_env_close() if a nested
 transaction was not completed

---
 mdbx.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 9e02c82..2698363 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -7630,8 +7630,16 @@ __cold int mdbx_env_close_ex(MDBX_env *env, bool dont_sync) {
 #endif /* Windows */
   }
 
-  if (env->basal_txn && (MDBX_TXN_CHECKOWNER ? env->basal_txn->owner == osal_thread_self() : !!env->basal_txn->owner))
+  if (env->basal_txn && (MDBX_TXN_CHECKOWNER ? env->basal_txn->owner == osal_thread_self() : !!env->basal_txn->owner)) {
+    /* abort nested transactions, since they borrow resources of the parent one */
+    while (env->basal_txn->nested) {
+      MDBX_txn *nested = env->basal_txn->nested;
+      while (nested->nested)
+        nested = nested->nested;
+      txn_abort(nested, nullptr);
+    }
     lck_txn_unlock(env);
+  }
 
   eASSERT0(env, env->signature.weak == 0);
   rc = env_close(env, false) ? MDBX_PANIC : rc;
-- 
2.43.0


From cb57eb3d6809c2c55d0ee8f525c1db9fdc9a7660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:46 +0000
Subject: [PATCH 44/67] fix: mdbx_enumerate_tables() must not give statistics
 of another table which used the same handle before

---
 mdbx.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 2698363..5d45a37 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6983,7 +6983,10 @@ __cold int mdbx_enumerate_tables(const MDBX_txn *txn, MDBX_table_enum_func func,
       if (env->kvs[MAIN_DBI].clc.k.cmp(&name, &env->kvs[i].name))
         continue;
 
-      tree = dbi_dig(txn, i, &reside);
+      /* the state within the transaction may belong to another table, which used this slot before */
+      if ((dbi_state(txn, i) & DBI_OLDEN) == 0 &&
+          atomic_load32(&env->dbi_seqs[i], mo_AcquireRelease) == txn->dbi_seqs[i])
+        tree = dbi_dig(txn, i, &reside);
       dbi = (MDBX_dbi)i;
       break;
     }
-- 
2.43.0


From 11b449c81e148bd90e873e633f0d2e9d884e79fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 45/67] fix: mdbx_dbi_rename() must not write an unfetched
 description of the tree if the handle was not used in the transaction yet

---
 mdbx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 5d45a37..8102c87 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17898,6 +17898,9 @@ __cold struct dbi_rename_result dbi_rename_locked(MDBX_txn *txn, MDBX_dbi dbi, M
   struct dbi_rename_result pair;
   pair.defer = nullptr;
   pair.err = dbi_check(txn, dbi);
+  if (likely(pair.err == MDBX_SUCCESS) && unlikely(txn->dbi_state[dbi] & DBI_STALE))
+    /* the handle wasn't used within the transaction yet, so the tree's description should be fetched */
+    pair.err = tbl_refresh_absent2baddbi(txn, dbi);
   if (unlikely(pair.err != MDBX_SUCCESS))
     return pair;
 
-- 
2.43.0


From d6167e2b3b96479a3f088e07b303e0209da212d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 46/67] fix: a failure of mdbx_dbi_open() must not close the
 handle of a table with uncommitted changes

---
 mdbx.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 8102c87..3136502 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17560,6 +17560,16 @@ static inline size_t dbi_namelen(const MDBX_val name) {
   return (name.iov_len > sizeof(defer_free_item_t)) ? name.iov_len : sizeof(defer_free_item_t);
 }
 
+/* Checks whether there are changes of the table, which are not reflected in MainDB yet
+ * and will be lost if the handle is closed before completion of the transaction(s). */
+static bool dbi_is_pending(const MDBX_txn *txn, const size_t dbi) {
+  do
+    if (dbi_state(txn, dbi) & (DBI_DIRTY | DBI_CREAT))
+      return true;
+  while (unlikely((txn = txn->parent) != nullptr));
+  return false;
+}
+
 static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned user_flags, MDBX_cmp_func keycmp,
                            MDBX_cmp_func datacmp, MDBX_val name, const size_t fastpath_slot,
                            defer_free_item_t **defer_chain) {
@@ -17662,7 +17672,7 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
     gone:
       /* Absence of a table in the MVCC-snapshot of a read transaction is not a reason to close the handle,
        * which may be in use by other transactions, including the write one. */
-      if (!(txn->flags & MDBX_TXN_RDONLY))
+      if (!(txn->flags & MDBX_TXN_RDONLY) && !dbi_is_pending(txn, slot))
         *defer_chain = dbi_close_locked(env, slot);
       return rc;
     }
-- 
2.43.0


From 0e2fdd8a73dd43605e1276a4a1675eef25dc7d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 47/67] fix: a handle of an existing table opened in a nested
 transaction must stay available in the parent one after abort

---
 mdbx.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 3136502..e637f2d 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40346,6 +40346,14 @@ static int nested_undo(MDBX_txn *nested) {
     dbi_update(nested, false);
 
   MDBX_txn *const parent = nested->parent;
+  TXN_FOREACH_DBI_USER(nested, dbi) {
+    if (parent->dbi_state[dbi] == DBI_LINDO && (nested->dbi_state[dbi] & (DBI_VALID | DBI_CREAT)) == DBI_VALID) {
+      /* The handle of an existing table was opened in the nested transaction and stays available for the parent one. */
+      parent->dbs[dbi].flags = nested->dbs[dbi].flags;
+      parent->dbi_state[dbi] = DBI_LINDO | DBI_VALID | DBI_STALE;
+    }
+  }
+
   if (nested->wr.retired_pages) {
     cASSERT0(parent, pnl_size(nested->wr.retired_pages) >= (uintptr_t)parent->wr.retired_pages);
     pnl_setsize(nested->wr.retired_pages, (uintptr_t)parent->wr.retired_pages);
-- 
2.43.0


From 02271995a3ba3dc459b75ac987278126dd781d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 48/67] fix: mdbx_dbi_open() must not leak a slot nor return
 MDBX_PROBLEM if the free slot is still tracked by a cursor

---
 mdbx.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index e637f2d..81264d3 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17693,9 +17693,11 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
   eASSERT0(env, slot < env->n_dbi);
 
   rc = dbi_check(txn, slot);
-  eASSERT0(env, rc == MDBX_BAD_DBI);
-  if (unlikely(rc != MDBX_BAD_DBI))
-    return MDBX_PROBLEM;
+  eASSERT0(env, rc == MDBX_BAD_DBI || rc == MDBX_DANGLING_DBI);
+  if (unlikely(rc != MDBX_BAD_DBI)) {
+    env->dbs_flags[slot] = 0;
+    return (rc == MDBX_DANGLING_DBI) ? rc : MDBX_PROBLEM;
+  }
 
   /* Find the DB info */
 #if defined(ENABLE_MEMCHECK) || defined(__SANITIZE_ADDRESS__)
-- 
2.43.0


From b142210051100618bdb84abcf10e047a1b6a0f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 49/67] fix: a cursor closed inside a nested transaction must
 not keep its position after abort of the nested one

---
 mdbx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 81264d3..d1d6d1c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -14572,6 +14572,10 @@ MDBX_cursor *cursor_eot(MDBX_cursor *cursor, MDBX_txn *txn) {
       cursor->signature = stage /* Promote (cur_signature_wait4eot) state to parent txn */;
       if (subcur)
         *subcur = *(subcur_t *)(shadow + 1);
+      if (stage == cur_signature_wait4eot)
+        /* The cursor is closed already and it will not be tracked by subsequent nested transactions,
+         * so its position must not be kept. */
+        cursor_reset((cursor_couple_t *)cursor);
     }
     shadow->signature = 0;
     osal_free(shadow);
-- 
2.43.0


From 204f19e3cbdb277732ad837d2f91908d4ab55cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:00 +0000
Subject: [PATCH 50/67] fix: mdbx_txn_commit() must end the transaction and
 release the lock even after a fatal error

---
 mdbx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index d1d6d1c..26e40c6 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -11566,8 +11566,12 @@ int mdbx_txn_commit_ex(MDBX_txn *txn, MDBX_commit_latency *latency) {
 
   MDBX_env *const env = txn->env;
   rc = check_env(env, true);
-  if (unlikely(rc != MDBX_SUCCESS))
+  if (unlikely(rc != MDBX_SUCCESS)) {
+    if (rc == MDBX_PANIC && env->pid == osal_getpid())
+      /* the transaction must be ended to release the locks even after a fatal error, but not in a child after fork() */
+      mdbx_txn_abort(txn);
     return LOG_IFERR(rc);
+  }
 
 #if MDBX_TXN_CHECKOWNER
   if ((txn->flags & MDBX_NOSTICKYTHREADS) && txn == env->basal_txn && unlikely(txn->owner != osal_thread_self())) {
-- 
2.43.0


From 19d45757ac4dc3b31d0d1ed0e4d90e4ae79152c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:08 +0000
Subject: [PATCH 51/67] fix: a commit crashed writing into a record reserved in
 GC if its page had been spilled meanwhile

---
 mdbx.c | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 26e40c6..a427361 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -24579,6 +24579,31 @@ static int gc_rerere(MDBX_txn *txn, gcu_t *ctx) {
   return gc_reserve4return(txn, ctx, chunk_lo, chunk_hi);
 }
 
+/* Обеспечивает возможность записи в найденную зарезервированную запись GC, страница которой могла быть вытеснена
+ * (spilled) при резервировании последующих записей. */
+static int gc_unspill_reserved(MDBX_txn *txn, gcu_t *ctx, const MDBX_val *key, MDBX_val *data) {
+  if (likely((txn->flags & MDBX_TXN_SPILLS) == 0))
+    return MDBX_SUCCESS;
+
+  MDBX_cursor *const mc = &ctx->cursor;
+  int err = cursor_touch(mc, key, data);
+  if (unlikely(err != MDBX_SUCCESS))
+    return err;
+
+  node_t *const node = page_node(mc->pg[mc->top], mc->ki[mc->top]);
+  if ((node_flags(node) & N_BIG) == 0)
+    data->iov_base = node_data(node);
+  else {
+    pgr_t lp = page_get_large(mc, node_largedata_pgno(node), mc->pg[mc->top]->txnid);
+    if (likely(lp.err == MDBX_SUCCESS) && !is_modifable(txn, lp.page))
+      lp = page_unspill(txn, lp.page);
+    if (unlikely(lp.err != MDBX_SUCCESS))
+      return lp.err;
+    data->iov_base = page2payload(lp.page);
+  }
+  return MDBX_SUCCESS;
+}
+
 /* Заполняет зарезервированные записи номерами возвращаемых в GC страниц. */
 static int gc_fill_returned(MDBX_txn *txn, gcu_t *ctx) {
   tASSERT1(txn, pnl_check_allocated(txn->wr.repnl, txn->geo.first_unallocated - MDBX_ENABLE_REFUND));
@@ -24624,6 +24649,10 @@ static int gc_fill_returned(MDBX_txn *txn, gcu_t *ctx) {
                gc_chunk_bytes(pnl_size(txn->wr.repnl)));
         return MDBX_RESULT_TRUE;
       }
+      err = gc_unspill_reserved(txn, ctx, &key, &data);
+      if (unlikely(err != MDBX_SUCCESS))
+        return err;
+
       /* coverity[var_deref_model] */
       memcpy(data.iov_base, txn->wr.repnl, gc_chunk_bytes(pnl_size(txn->wr.repnl)));
     }
@@ -24656,7 +24685,7 @@ static int gc_fill_returned(MDBX_txn *txn, gcu_t *ctx) {
     key.iov_len = sizeof(id);
 #endif
     MDBX_val data = {.iov_base = nullptr, .iov_len = 0};
-    const int err = cursor_seek(&ctx->cursor, &key, &data, MDBX_SET_KEY).err;
+    int err = cursor_seek(&ctx->cursor, &key, &data, MDBX_SET_KEY).err;
     if (unlikely(err != MDBX_SUCCESS))
       return err;
 
@@ -24681,7 +24710,6 @@ static int gc_fill_returned(MDBX_txn *txn, gcu_t *ctx) {
     }
     surplus -= chunk_hi - chunk;
 
-    pgno_t *const dst = data.iov_base;
     pgno_t *const src = MDBX_PNL_BEGIN(txn->wr.repnl) + left - chunk;
     pgno_t *const from = src, *const to = src + chunk;
     TRACE("%s: fill +%zu (surplus %zu) [ %zu:%" PRIaPGNO "...%zu:%" PRIaPGNO "] @%" PRIaTXN " (%s)", dbg_prefix(ctx),
@@ -24695,7 +24723,12 @@ static int gc_fill_returned(MDBX_txn *txn, gcu_t *ctx) {
       return MDBX_RESULT_TRUE;
     }
 
+    err = gc_unspill_reserved(txn, ctx, &key, &data);
+    if (unlikely(err != MDBX_SUCCESS))
+      return err;
+
     /* coverity[var_deref_op] */
+    pgno_t *const dst = data.iov_base;
     *dst = (pgno_t)chunk;
     memcpy(dst + 1, src, chunk * sizeof(pgno_t));
     stored += chunk;
-- 
2.43.0


From 46f3d396024ddce1d4f51151f68d5ac0eb04bf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:13 +0000
Subject: [PATCH 52/67] fix: allocation of pages failed with MDBX_ENODATA when
 looking through an empty GC again in LIFO mode

---
 mdbx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index a427361..0c5583f 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -22883,7 +22883,8 @@ next_gc:
   /* Seek first/next GC record */
   ret.err = cursor_ops(gc, &key, nullptr, op);
   if (unlikely(ret.err != MDBX_SUCCESS)) {
-    if (unlikely(ret.err != MDBX_NOTFOUND))
+    /* The MDBX_ENODATA is returned when stepping over an empty GC by a cursor which isn't fresh, i.e. after a retry */
+    if (unlikely(ret.err != MDBX_NOTFOUND && ret.err != MDBX_ENODATA))
       goto fail;
     if ((flags & ALLOC_LIFO) && op == MDBX_SET_RANGE) {
       op = MDBX_PREV;
-- 
2.43.0


From 59e6a38c9c00bff60224de25b2248c48c9a05e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:00 +0000
Subject: [PATCH 53/67] fix: shrinking a DB must not cut off pages of the last
 committed and the last steady snapshots

---
 mdbx.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 0c5583f..1ad3ff0 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8043,7 +8043,17 @@ __cold int mdbx_env_set_geometry(MDBX_env *env, intptr_t size_lower, intptr_t si
     if (shrink_threshold < 0)
       shrink_threshold = pgno2bytes(env, pv2pages(geo->shrink_pv));
 
-    const size_t usedbytes = pgno_ceil2os_bytes(env, mvcc_snapshot_largest(env, geo->first_unallocated));
+    /* pages of the last committed snapshot and of the last one flushed to the disk must not be cut off,
+     * since these could be needed in case of abort, crash or power failure. */
+    const meta_ptr_t recent = meta_recent(env, &env->basal_txn->wr.troika);
+    const meta_ptr_t rollback_point = meta_rollback_point(env, &env->basal_txn->wr.troika);
+    pgno_t used_pgno = geo->first_unallocated;
+    if (used_pgno < recent.ptr_c->geometry.first_unallocated)
+      used_pgno = recent.ptr_c->geometry.first_unallocated;
+    if (rollback_point.is_steady && used_pgno < rollback_point.ptr_c->geometry.first_unallocated)
+      used_pgno = rollback_point.ptr_c->geometry.first_unallocated;
+
+    const size_t usedbytes = pgno_ceil2os_bytes(env, mvcc_snapshot_largest(env, used_pgno));
     if ((size_t)size_upper < usedbytes) {
       rc = MDBX_MAP_FULL;
       goto bailout;
@@ -20490,6 +20500,15 @@ __cold int dxb_setup(MDBX_env *env, const int lck_rc, const mdbx_mode_t mode_bit
     if (env->geo_in_bytes.upper < allocated_aligned2os_bytes)
       env->geo_in_bytes.upper = allocated_aligned2os_bytes;
 
+    if (!meta_is_steady(&header)) {
+      /* avoid shrinking, since pages of the last steady snapshot may be located beyond the last used page */
+      const size_t unsteady_now = pgno_ceil2os_bytes(env, header.geometry.now);
+      if (env->geo_in_bytes.now < unsteady_now)
+        env->geo_in_bytes.now = unsteady_now;
+      if (env->geo_in_bytes.upper < unsteady_now)
+        env->geo_in_bytes.upper = unsteady_now;
+    }
+
     /* apply preconfigured params, but only if substantial changes:
      *  - upper or lower limit changes
      *  - shrink threshold or growth step
@@ -20499,7 +20518,7 @@ __cold int dxb_setup(MDBX_env *env, const int lck_rc, const mdbx_mode_t mode_bit
         bytes_ceil2os_bytes(env, env->geo_in_bytes.shrink) != pgno2bytes(env, pv2pages(header.geometry.shrink_pv)) ||
         bytes_ceil2os_bytes(env, env->geo_in_bytes.grow) != pgno2bytes(env, pv2pages(header.geometry.grow_pv))) {
 
-      if (env->geo_in_bytes.shrink && env->geo_in_bytes.now > allocated_bytes)
+      if (env->geo_in_bytes.shrink && env->geo_in_bytes.now > allocated_bytes && meta_is_steady(&header))
         /* pre-shrink if enabled */
         env->geo_in_bytes.now = allocated_bytes + env->geo_in_bytes.shrink - allocated_bytes % env->geo_in_bytes.shrink;
 
-- 
2.43.0


From 2783e7718fed761ff087a4bbcb02c19738afa159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:00 +0000
Subject: [PATCH 54/67] fix: a commit must re-shape a meta-page damaged during
 a DB creation

---
 mdbx.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 1ad3ff0..a0bf48e 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -21143,6 +21143,35 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
 
   eASSERT0(env, ((env->flags ^ flags) & MDBX_WRITEMAP) == 0);
   ENSURE_OBJ(env, target == head.ptr_c || constmeta_txnid(target) < pending->unsafe_txnid);
+  page_t *const target_page = payload2page(target);
+  const pgno_t target_pgno = bytes2pgno(env, ptr_dist(target_page, env->dxb_mmap.base));
+  if (unlikely(target_page->pgno != target_pgno || target_page->flags != P_META ||
+               (unaligned_peek_u64(4, target->magic_and_version) >> 8) != MDBX_MAGIC) &&
+      likely(target != head.ptr_c)) {
+    /* The target is damaged entirely, e.g. lost due to a failure during a DB creation, and was not re-shaped on opening
+     * since another process had opened the DB in the read-only mode before. */
+    NOTICE("reshape damaged meta[%" PRIaPGNO "]", target_pgno);
+    if (flags & MDBX_WRITEMAP) {
+      target_page->txnid = 0;
+      target_page->dupfix_ksize = 0;
+      target_page->flags = P_META;
+      target_page->pgno = target_pgno;
+      target_page->pages = 0;
+      memcpy(target->magic_and_version, pending->magic_and_version, 8);
+      target->reserve16 = pending->reserve16;
+      target->validator_id = pending->validator_id;
+      target->extra_pagehdr = pending->extra_pagehdr;
+      memcpy(&target->dxbid, &pending->dxbid, sizeof(target->dxbid));
+    } else {
+      page_t shape;
+      memset(&shape, 0, PAGEHDRSZ);
+      shape.flags = P_META;
+      shape.pgno = target_pgno;
+      rc = osal_pwrite(env->fd4meta, &shape, PAGEHDRSZ, ptr_dist(target_page, env->dxb_mmap.base));
+      if (unlikely(rc != MDBX_SUCCESS))
+        goto fail;
+    }
+  }
   if (flags & MDBX_WRITEMAP) {
     jitter4testing(true);
     if (likely(target != head.ptr_c)) {
-- 
2.43.0


From dcbfb0365d7367003e2d21dfc5ad7613db831736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:05 +0000
Subject: [PATCH 55/67] fix: mdbx_enumerate_tables() inside a nested
 transaction used an obsolete description of another table

---
 mdbx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index a0bf48e..24704f4 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6984,7 +6984,11 @@ __cold int mdbx_enumerate_tables(const MDBX_txn *txn, MDBX_table_enum_func func,
         continue;
 
       /* the state within the transaction may belong to another table, which used this slot before */
-      if ((dbi_state(txn, i) & DBI_OLDEN) == 0 &&
+      const MDBX_txn *scan = txn;
+      while (scan->parent && (dbi_state(scan, i) & DBI_OLDEN) == 0 &&
+             (dbi_state(scan, i) & (DBI_VALID | DBI_STALE)) != DBI_VALID)
+        scan = scan->parent;
+      if ((dbi_state(scan, i) & DBI_OLDEN) == 0 &&
           atomic_load32(&env->dbi_seqs[i], mo_AcquireRelease) == txn->dbi_seqs[i])
         tree = dbi_dig(txn, i, &reside);
       dbi = (MDBX_dbi)i;
-- 
2.43.0


From df513344a62e2a63242dbb2bed6e8c502acf7141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:34 +0000
Subject: [PATCH 56/67] fix: auto-sync of an unsteady commit could be missed if
 a process was killed while making a steady one

---
 mdbx.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 24704f4..96f5d16 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -21086,8 +21086,6 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
   /* Steady or Weak */
   if (rc == MDBX_RESULT_FALSE /* carry steady */) {
     meta_sign_as_steady(pending);
-    atomic_store64(&env->lck->eoos_timestamp, 0, mo_Relaxed);
-    atomic_store64(&env->lck->unsynced_pages, 0, mo_Relaxed);
   } else {
     ASSERT(rc == MDBX_RESULT_TRUE /* carry non-steady */);
   skip_incore_sync:
@@ -21109,6 +21107,10 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
     else {
       NOTICE("skip update meta%" PRIaPGNO " for txn#%" PRIaTXN ", since it is already steady",
              payload2page(head.ptr_c)->pgno, head.txnid);
+      if (meta_is_steady(pending)) {
+        atomic_store64(&env->lck->eoos_timestamp, 0, mo_Relaxed);
+        atomic_store64(&env->lck->unsynced_pages, 0, mo_Relaxed);
+      }
       return MDBX_SUCCESS;
     }
   } else {
@@ -21213,6 +21215,12 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
     memcpy(target->sign, pending->sign, 8);
     osal_flush_incoherent_cpu_writeback();
     jitter4testing(true);
+    if (meta_is_steady(pending)) {
+      /* Must be done after updating the meta-page, otherwise in case the process will be killed
+       * the auto-sync of an unsteady commit could be missed. */
+      atomic_store64(&env->lck->eoos_timestamp, 0, mo_Relaxed);
+      atomic_store64(&env->lck->unsynced_pages, 0, mo_Relaxed);
+    }
     if (!env->incore) {
       if (!MDBX_AVOID_MSYNC) {
         /* sync meta-pages */
@@ -21249,6 +21257,10 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
       goto fail;
     }
     osal_flush_incoherent_mmap(target, sizeof(meta_t), globals.sys_pagesize);
+    if (meta_is_steady(pending)) {
+      atomic_store64(&env->lck->eoos_timestamp, 0, mo_Relaxed);
+      atomic_store64(&env->lck->unsynced_pages, 0, mo_Relaxed);
+    }
     /* sync meta-pages */
     if (env->fd4meta == env->lazy_fd && !env->incore) {
       if (flags & MDBX_NOMETASYNC)
-- 
2.43.0


From 275df93642ddd01e44b356676ee8d3b6967bef92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:24 +0000
Subject: [PATCH 57/67] fix: a nested transaction went on after a failure to
 shadow cursors had broken its parent

---
 mdbx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 96f5d16..9a3d50f 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17347,6 +17347,9 @@ __noinline int dbi_import(MDBX_txn *txn, const size_t dbi) {
       if (likely(rc == MDBX_SUCCESS)) {
         txn->dbs[dbi] = parent->dbs[dbi];
         rc = txn_shadow_cursors(parent, dbi);
+      } else {
+        /* A failure to shadow cursors of the outer transaction breaks the parent, so the nested one must not go on. */
+        txn->flags |= parent->flags & MDBX_TXN_ERROR;
       }
       return rc;
     }
-- 
2.43.0


From 61fd2dde19a2039d7d37b85fa81ee6db652b0c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:24 +0000
Subject: [PATCH 58/67] fix: two threads which open the same DB at a second
 time deadlocked, since a refused opening held the lock

---
 mdbx.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 9a3d50f..f5f2e98 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -25931,7 +25931,7 @@ static int lck_opening_lock(MDBX_env *env) { return lck_op(env->lck_mmap.fd, op_
 
 static int lck_opening_unlock(MDBX_env *env) { return lck_op(env->lck_mmap.fd, op_setlk, F_UNLCK, OFF_T_MAX - 1, 1); }
 
-__cold int lck_seize(MDBX_env *env) {
+__cold static int lck_seize_posix(MDBX_env *env) {
   ASSERT(env->lazy_fd != INVALID_HANDLE_VALUE);
   if (unlikely(osal_getpid() != env->pid))
     return MDBX_PANIC;
@@ -26066,6 +26066,18 @@ retry:
   return MDBX_RESULT_FALSE;
 }
 
+__cold int lck_seize(MDBX_env *env) {
+  const int rc = lck_seize_posix(env);
+  if (unlikely(MDBX_IS_ERROR(rc)) && env->lck_mmap.fd != INVALID_HANDLE_VALUE && osal_getpid() == env->pid) {
+    /* Don't hold the lock while waiting for the rthc-lock to close the environment,
+     * since another thread may hold the rthc-lock while opening the same DB. */
+    int err = lck_opening_unlock(env);
+    if (unlikely(err != MDBX_SUCCESS))
+      ERROR("%s, err %u", "opening-unlock", err);
+  }
+  return rc;
+}
+
 int lck_downgrade(MDBX_env *env) {
   ASSERT(env->lck_mmap.fd != INVALID_HANDLE_VALUE);
   if (unlikely(osal_getpid() != env->pid))
-- 
2.43.0


From fd4f10bb588921251f4ef306cb56f4d5baa59884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:25 +0000
Subject: [PATCH 59/67] fix: a second opening of the same DB in exclusive
 no-lck mode must fail with MDBX_BUSY, but not EAGAIN

---
 mdbx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index f5f2e98..f9fff5c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -26052,7 +26052,8 @@ retry:
   if (rc != MDBX_SUCCESS) {
     ERROR("%s, err %u", "lock-against-without-lck", rc);
     eASSERT0(env, MDBX_IS_ERROR(rc));
-    return rc;
+    /* the DB is already opened by this process, or used exclusively by another one */
+    return (rc == EAGAIN || rc == EACCES || rc == EBUSY || rc == EWOULDBLOCK) ? MDBX_BUSY : rc;
   }
 
   rc = lck_opening_unlock(env);
-- 
2.43.0


From 85104b690467d13a54c9e2d4f7ca249c21b16d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:25 +0000
Subject: [PATCH 60/67] fix: a refused mdbx_dbi_open() closed the handle which
 is in use by others

---
 mdbx.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index f9fff5c..f42171c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17663,11 +17663,19 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
         rc = dbi_import(txn, slot);
       }
       if (unlikely(rc != MDBX_SUCCESS))
-        goto gone;
+        return rc;
 
       rc = dbi_bind(txn, slot, user_flags, keycmp, datacmp);
-      if (unlikely(rc != MDBX_SUCCESS))
-        goto gone;
+      if (unlikely(rc != MDBX_SUCCESS)) {
+        /* A refused call is not a reason to close the handle, which is in use by others,
+         * unless the table was dropped or re-created with other flags by another process. */
+        if (rc == MDBX_INCOMPATIBLE && (txn->dbi_state[slot] & DBI_STALE)) {
+          const int err = tbl_fetch(txn, &maindb_cx->outer, slot, &name, env->dbs_flags[slot] & DB_PERSISTENT_FLAGS);
+          if (err == MDBX_NOTFOUND || err == MDBX_INCOMPATIBLE)
+            goto gone;
+        }
+        return rc;
+      }
 
       if (unlikely((txn->dbi_state[slot] & DBI_STALE) == 0))
         goto done;
@@ -17694,6 +17702,9 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
         goto create;
       }
 
+      if (rc != MDBX_NOTFOUND && rc != MDBX_INCOMPATIBLE)
+        return rc;
+
     gone:
       /* Absence of a table in the MVCC-snapshot of a read transaction is not a reason to close the handle,
        * which may be in use by other transactions, including the write one. */
-- 
2.43.0


From 6a66508392db2482b08b634749db7243bf548276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:25 +0000
Subject: [PATCH 61/67] fix: a value of wrong size was accepted or reported as
 a corruption if a DUPFIXED table became non-empty after opening

---
 mdbx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index f42171c..8a64591 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15909,6 +15909,10 @@ __hot int cursor_put_checklen(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *da
     return MDBX_BAD_VALSIZE;
   if (unlikely(data->iov_len > mc->clc->v.lmax || data->iov_len < mc->clc->v.lmin))
     return MDBX_BAD_VALSIZE;
+  if ((mc->tree->flags & MDBX_DUPFIXED) && mc->tree->items && mc->tree->dupfix_size &&
+      unlikely(data->iov_len != mc->tree->dupfix_size))
+    /* the table was empty when opened, but then another process put values of other size */
+    return MDBX_BAD_VALSIZE;
 
   uint64_t aligned_keybytes, aligned_databytes;
   MDBX_val aligned_key, aligned_data;
-- 
2.43.0


From 82823be6197fa6a7c87ab5c34575500122cf3cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:25 +0000
Subject: [PATCH 62/67] fix: mdbx_env_defrag() reported 4294967295 instead of
 -1 page when a DB has grown

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 8a64591..dfa8e46 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -18074,7 +18074,7 @@ uint64_t defrag_result(dfc_t *dfc, MDBX_defrag_result_t *out, uint64_t now_cache
   memset(out, 0, sizeof(*out));
   if (dfc->txn)
     dfc->last_allocated = dfc->txn->geo.first_unallocated;
-  out->pages_shrinked = dfc->before_defrag - dfc->last_allocated;
+  out->pages_shrinked = (intptr_t)dfc->before_defrag - (intptr_t)dfc->last_allocated;
   out->pages_moved = dfc->cycle_pages_moved;
   out->pages_scheduled = dfc->cycle_pages_scheduled;
   out->pages_retained = dfc->gc_retained_pages;
-- 
2.43.0


From a9fb3984197e9c4524c9a019d1d1bde43cbcdc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:52 +0000
Subject: [PATCH 63/67] fix: mdbx_env_warmup() could get SIGBUS while touching
 pages, if the DB file was shrunk concurrently

The touching was performed without holding any MVCC-snapshot when no transaction was given.
---
 mdbx.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index dfa8e46..76b465e 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -4363,6 +4363,16 @@ __cold int mdbx_env_warmup(const MDBX_env *env, const MDBX_txn *txn, MDBX_warmup
   if (flags & MDBX_warmup_release)
     munlock_all(env);
 
+  MDBX_txn *guard = nullptr;
+  if (!txn && (flags & MDBX_warmup_force)) {
+    /* Prevent shrinking of the DB file while touching pages, since otherwise SIGBUS is possible.
+     * There is no need in this if the current thread runs a write transaction. */
+    const int err = mdbx_txn_begin((MDBX_env *)env, nullptr, MDBX_TXN_RDONLY, &guard);
+    if (unlikely(err != MDBX_SUCCESS && err != MDBX_TXN_OVERLAPPING))
+      return LOG_IFERR(err);
+    txn = guard;
+  }
+
   pgno_t used_pgno;
   if (txn) {
     used_pgno = txn->geo.first_unallocated;
@@ -4515,6 +4525,11 @@ __cold int mdbx_env_warmup(const MDBX_env *env, const MDBX_txn *txn, MDBX_warmup
 #endif
   }
 
+  if (guard) {
+    err = mdbx_txn_abort(guard);
+    if (unlikely(err != MDBX_SUCCESS) && rc == MDBX_SUCCESS)
+      rc = err;
+  }
   return LOG_IFERR(rc);
 }
 
-- 
2.43.0


From 258ad972a7ce5749f9aa64fe0ef903ed0754530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:20 +0000
Subject: [PATCH 64/67] fix: a copy of an early snapshot of an incompletely
 created DB had clashed meta-pages, i.e. was corrupted

If just a part of the initial meta-pages was written, the id of the first transactions is less than ones
in the initial meta-pages of the copy.
---
 mdbx.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 76b465e..3a73969 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5052,6 +5052,13 @@ __cold static int compacting_walk_tree(ctx_t *ctx, tree_t *tree) {
   return compacting_walk(ctx, &couple.outer, &tree->root, tree->mod_txnid);
 }
 
+/* The snapshot may be older than the initial meta-pages of the copy if a creation of the DB was interrupted,
+ * i.e. when just a part of its meta-pages was written. */
+static inline txnid_t copy_txnid(const MDBX_txn *txn) {
+  const txnid_t initial = MIN_TXNID + NUM_METAS - 1;
+  return (txn->txnid > initial) ? txn->txnid : initial;
+}
+
 __cold static void compacting_fixup_meta(MDBX_env *env, meta_t *meta) {
   eASSERT0(env, meta->trees.gc.mod_txnid || meta->trees.gc.root == P_INVALID);
   eASSERT0(env, meta->trees.main.mod_txnid || meta->trees.main.root == P_INVALID);
@@ -5095,7 +5102,7 @@ __cold static int copy_with_compacting(MDBX_env *env, MDBX_txn *txn, mdbx_fileha
   const size_t meta_bytes = pgno2bytes(env, NUM_METAS);
   uint8_t *const data_buffer = buffer + ceil_powerof2(meta_bytes, globals.sys_pagesize);
   meta_t *const meta = meta_init_triplet(env, buffer, &txn->geo);
-  meta_set_txnid(env, meta, txn->txnid);
+  meta_set_txnid(env, meta, copy_txnid(txn));
 
   if (flags & MDBX_CP_FORCE_DYNAMIC_SIZE)
     meta_make_sizeable(meta);
@@ -5251,7 +5258,7 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
   const size_t meta_bytes = pgno2bytes(env, NUM_METAS);
   uint8_t *const data_buffer = buffer + ceil_powerof2(meta_bytes, globals.sys_pagesize);
   meta_t *const meta = meta_init_triplet(env, buffer, &txn->geo);
-  meta_set_txnid(env, meta, txn->txnid);
+  meta_set_txnid(env, meta, copy_txnid(txn));
 
   /* the copy has the same geometry and trees as the snapshot */
   meta->geometry = txn->geo;
-- 
2.43.0


From 3e97542969cc6ed497b71e7aa57701d6c02d4f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:39 +0000
Subject: [PATCH 65/67] fix: mdbx_txn_commit_embark_read() crashed (nullptr) if
 the commit failed or there was not enough memory

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 3a73969..353b2bd 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -11516,7 +11516,7 @@ int mdbx_txn_commit_embark_read(MDBX_txn **ptxn, MDBX_commit_latency *latency) {
     if (likely(rc == MDBX_SUCCESS)) {
       rtxn->userctx = preserved_context;
       rtxn->signature = txn_signature;
-    } else {
+    } else if (rtxn) {
       txn_ro_free(rtxn);
       rtxn = nullptr;
     }
-- 
2.43.0


From cbfaf0ab3628c3921d093924adc9e397bf40f793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:44 +0000
Subject: [PATCH 66/67] fix: commit failed by MDBX_PROBLEM if there was no any
 id in GC to return unused pages

If a creation of a DB was interrupted after writing the first meta-page, the oldest snapshot has the minimal
txnid and so there are no ids less than it to store a rest of reclaimed or reused pages.
---
 mdbx.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 353b2bd..1863c1d 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -24542,6 +24542,15 @@ static int gc_handle_dense(MDBX_txn *txn, gcu_t *ctx, size_t left_min, size_t le
     size_t amount = pnl_size(txn->wr.repnl);
     do {
       if (rkl_empty(&txn->wr.gc.ready4reuse)) {
+        if (rkl_empty(&txn->wr.gc.comeback)) {
+          /* There are no any identifiers of past transactions at all, i.e. a repetition will not help, for instance
+           * if a creation of the DB was interrupted and only the first meta-page was written. Nonetheless, the rest
+           * of pages could be stored with the identifier of the current transaction. */
+          err = pnl_append_pnl(&txn->wr.retired_pages, txn->wr.repnl);
+          if (unlikely(err != MDBX_SUCCESS))
+            return err;
+          pnl_setsize(txn->wr.repnl, 0);
+        }
         NOTICE("%s: restart since no slot(s) available (reserved %zu...%zu of %zu)", dbg_prefix(ctx),
                ctx->return_reserved_lo, ctx->return_reserved_hi, amount);
         return MDBX_RESULT_TRUE;
-- 
2.43.0


From ed9c9b93da2a3b766c4ee6f8f8bb5c11f0aabd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:21 +0000
Subject: [PATCH 67/67] fix: pages spilled of a parent at start of a nested
 transaction were not found by the next nested ones

---
 mdbx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdbx.c b/mdbx.c
index 1863c1d..ec324b5 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40493,6 +40493,7 @@ int txn_nested_create(MDBX_txn *parent, bool readonly) {
         txn_spill(parent, nullptr, parent->wr.dirtylist->length / parent->env->options.spill_parent4child_denominator);
     if (unlikely(err != MDBX_SUCCESS))
       return LOG_IFERR(err);
+    flags |= parent->flags & MDBX_TXN_SPILLS;
   }
   tASSERT2(parent, audit_ex(parent, 0, false) == 0);
 
-- 
2.43.0

