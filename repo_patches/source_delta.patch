From 7efe61032e498296067ca97c7935a129ce97ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:20 +0000
Subject: [PATCH 01/28] fix: event wait reports success whenever the event is
 set

A timed wait could return a timeout although the event had been set before
the deadline, and any wait could return the dead-owner status of the mutex
while the event was not set.
---
 src/event.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index af52d7b..979dcb1 100644
--- a/src/event.c
+++ b/src/event.c
@@ -37,9 +37,13 @@ a0_err_t a0_event_timedwait(a0_event_t* e, a0_time_mono_t* timeout) {
   }
   err = A0_OK;
 
-  while (!err && !e->_val) {
+  while (!e->_val && a0_mtx_lock_successful(err)) {
     err = a0_cnd_timedwait(&e->_cnd, &e->_mtx, timeout);
   }
+  // The wait may time out, or report a dead user of the mutex, after the event was set.
+  if (e->_val) {
+    err = A0_OK;
+  }
   a0_mtx_unlock(&e->_mtx);
   return err;
 }
-- 
2.43.0


From a805783bf554ffe3657de379b889b41e72a08b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:24 +0000
Subject: [PATCH 02/28] fix: deadman mutex loses wakeups and shows stale tokens

A locker that lost the race for a free deadman could sleep although the
winner was already gone. It now retries.

The kernel wakes one waiter when the owner dies. That waiter passes the
wake on, and those waiting for the deadman to be taken use a futex of
their own (the low half of the token), so they cannot swallow it.

The token was incremented after the deadman looked locked, so an observer
could get the token of the previous owner. The owner-died bit now stays
set until the token is in place.
---
 src/deadman_mtx.c | 90 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 65 insertions(+), 25 deletions(-)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index adda50b..a92dc47 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -23,12 +23,26 @@ a0_err_t a0_deadman_mtx_init(a0_deadman_mtx_t* d, a0_deadman_mtx_shared_token_t*
   return A0_OK;
 }
 
+// Futex of those waiting for the deadman to be taken: the low half of the token.
+//
+// They must not share a futex with those waiting for the deadman to be free,
+// since the kernel wakes a single waiter when the owner dies.
+A0_STATIC_INLINE
+a0_ftx_t* a0_deadman_mtx_taken_ftx(a0_deadman_mtx_t* d) {
+#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
+  return (a0_ftx_t*)&d->_stkn->_tkn + 1;
+#else
+  return (a0_ftx_t*)&d->_stkn->_tkn;
+#endif
+}
+
 a0_err_t a0_deadman_mtx_shutdown(a0_deadman_mtx_t* d) {
   A0_TSAN_HAPPENS_BEFORE(&d->_shutdown);
   a0_atomic_store(&d->_shutdown, true);
   while (a0_atomic_load(&d->_inop)) {
     // Yes, this is awful. Find a better way to do this.
     a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+    a0_ftx_broadcast(a0_deadman_mtx_taken_ftx(d));
   }
   return A0_OK;
 }
@@ -45,12 +59,16 @@ a0_err_t a0_deadman_mtx_trylock_impl(a0_deadman_mtx_t* d) {
   uint32_t tid = a0_tid();
   uint32_t old = a0_atomic_load(&d->_stkn->_mtx.ftx);
   if (!a0_ftx_tid(old)) {
-    uint32_t new = (old | tid) & (~FUTEX_OWNER_DIED);
+    // Until the new token is in place, others must not see the deadman as locked.
+    uint32_t new = old | tid | FUTEX_OWNER_DIED;
     if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
       err = a0_ftx_owner_died(old) ? A0_MAKE_SYSERR(EOWNERDEAD) : A0_OK;
+      a0_atomic_add_fetch(&d->_stkn->_tkn, 1);
+      a0_barrier();
+      a0_atomic_and_fetch(&d->_stkn->_mtx.ftx, ~FUTEX_OWNER_DIED);
       d->_is_owner = true;
-      d->_stkn->_tkn++;
       a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+      a0_ftx_broadcast(a0_deadman_mtx_taken_ftx(d));
     }
   } else if (a0_ftx_tid(old) == tid) {
     err = A0_MAKE_SYSERR(EDEADLK);
@@ -90,6 +108,11 @@ a0_err_t a0_deadman_mtx_timedlock_impl(a0_deadman_mtx_t* d, a0_time_mono_t* time
     }
     err = A0_OK;
 
+    // Somebody else was faster, and may be gone by now.
+    if (!a0_ftx_tid(old)) {
+      continue;
+    }
+
     uint32_t new = old | FUTEX_WAITERS;
     if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
       err = a0_ftx_wait(&d->_stkn->_mtx.ftx, new, timeout);
@@ -111,6 +134,9 @@ a0_err_t a0_deadman_mtx_timedlock(a0_deadman_mtx_t* d, a0_time_mono_t* timeout)
     __tsan_mutex_pre_lock(&d->_stkn->_mtx, 0);
     a0_robust_op_add(&d->_stkn->_mtx);
     __tsan_mutex_post_lock(&d->_stkn->_mtx, 0, 0);
+  } else {
+    // The kernel wakes a single waiter when the owner dies. Pass it on.
+    a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
   }
   a0_robust_op_end(&d->_stkn->_mtx);
 
@@ -130,11 +156,11 @@ a0_err_t a0_deadman_mtx_unlock(a0_deadman_mtx_t* d) {
 
   a0_atomic_and_fetch(&d->_stkn->_mtx.ftx, FUTEX_WAITERS);
 
-  a0_robust_op_end(&d->_stkn->_mtx);
-  __tsan_mutex_post_unlock(&d->_stkn->_mtx, 0);
-
   d->_is_owner = false;
   a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+
+  a0_robust_op_end(&d->_stkn->_mtx);
+  __tsan_mutex_post_unlock(&d->_stkn->_mtx, 0);
   return A0_OK;
 }
 
@@ -144,29 +170,39 @@ a0_err_t a0_deadman_mtx_wait_locked(a0_deadman_mtx_t* d, uint64_t* out_tkn) {
 
 A0_STATIC_INLINE
 a0_err_t a0_deadman_mtx_timedwait_locked_impl(a0_deadman_mtx_t* d, a0_time_mono_t* timeout, uint64_t* out_tkn) {
-  uint32_t old = a0_atomic_load(&d->_stkn->_mtx.ftx);
-  while (!a0_ftx_tid(old) || a0_ftx_owner_died(old)) {
+  while (true) {
+    uint64_t tkn = a0_atomic_load(&d->_stkn->_tkn);
+    a0_barrier();
+    uint32_t old = a0_atomic_load(&d->_stkn->_mtx.ftx);
+    a0_barrier();
+
+    if (a0_ftx_tid(old) && !a0_ftx_owner_died(old)) {
+      // The token only belongs to the observed owner if it did not change meanwhile.
+      if (tkn == a0_atomic_load(&d->_stkn->_tkn)) {
+        *out_tkn = tkn;
+        A0_TSAN_HAPPENS_AFTER(&d->_stkn->_mtx.ftx);
+        return A0_OK;
+      }
+      continue;
+    }
+
     if (a0_atomic_load(&d->_shutdown)) {
       A0_TSAN_HAPPENS_AFTER(&d->_shutdown);
       return A0_MAKE_SYSERR(ESHUTDOWN);
     }
 
-    uint32_t new = old | FUTEX_WAITERS;
-    if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
-      a0_err_t err = a0_ftx_wait(&d->_stkn->_mtx.ftx, new, timeout);
-      if (err && A0_SYSERR(err) != EAGAIN) {
-        return err;
-      }
+    a0_err_t err = A0_OK;
+    if (!a0_ftx_tid(old)) {
+      err = a0_ftx_wait(a0_deadman_mtx_taken_ftx(d), (uint32_t)tkn, timeout);
+    } else if (a0_cas(&d->_stkn->_mtx.ftx, old, old | FUTEX_WAITERS)) {
+      // Being taken. The token may already be in place, so wait for the taker to be done.
+      err = a0_ftx_wait(&d->_stkn->_mtx.ftx, old | FUTEX_WAITERS, timeout);
+      a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+    }
+    if (err && A0_SYSERR(err) != EAGAIN) {
+      return err;
     }
-
-    old = a0_atomic_load(&d->_stkn->_mtx.ftx);
   }
-
-  __tsan_mutex_pre_lock(&d->_stkn->_tkn, __tsan_mutex_try_lock);
-  *out_tkn = a0_atomic_load(&d->_stkn->_tkn);
-  __tsan_mutex_post_lock(&d->_stkn->_tkn, __tsan_mutex_try_lock | __tsan_mutex_try_lock_failed, 0);
-  A0_TSAN_HAPPENS_AFTER(&d->_stkn->_mtx.ftx);
-  return A0_OK;
 }
 
 a0_err_t a0_deadman_mtx_timedwait_locked(a0_deadman_mtx_t* d, a0_time_mono_t* timeout, uint64_t* out_tkn) {
@@ -176,7 +212,9 @@ a0_err_t a0_deadman_mtx_timedwait_locked(a0_deadman_mtx_t* d, a0_time_mono_t* ti
   }
 
   a0_atomic_store(&d->_inop, true);
+  a0_robust_op_start(&d->_stkn->_mtx);
   a0_err_t err = a0_deadman_mtx_timedwait_locked_impl(d, timeout, out_tkn);
+  a0_robust_op_end(&d->_stkn->_mtx);
   a0_atomic_store(&d->_inop, false);
   return err;
 }
@@ -209,7 +247,11 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked_impl(a0_deadman_mtx_t* d, a0_time_mon
 
 a0_err_t a0_deadman_mtx_timedwait_unlocked(a0_deadman_mtx_t* d, a0_time_mono_t* timeout, uint64_t tkn) {
   a0_atomic_store(&d->_inop, true);
+  a0_robust_op_start(&d->_stkn->_mtx);
   a0_err_t err = a0_deadman_mtx_timedwait_unlocked_impl(d, timeout, tkn);
+  // The kernel wakes a single waiter when the owner dies. Pass it on.
+  a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+  a0_robust_op_end(&d->_stkn->_mtx);
   a0_atomic_store(&d->_inop, false);
   return err;
 }
@@ -217,10 +259,8 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked(a0_deadman_mtx_t* d, a0_time_mono_t*
 A0_NO_TSAN
 a0_err_t a0_deadman_mtx_state(a0_deadman_mtx_t* d, a0_deadman_mtx_state_t* out_state) {
   out_state->is_owner = a0_atomic_load(&d->_is_owner);
-  out_state->owner_tid = a0_ftx_tid(a0_atomic_load(&d->_stkn->_mtx.ftx));
-  if (a0_ftx_owner_died(out_state->owner_tid)) {
-    out_state->owner_tid = 0;
-  }
+  const uint32_t val = a0_atomic_load(&d->_stkn->_mtx.ftx);
+  out_state->owner_tid = a0_ftx_owner_died(val) ? 0 : a0_ftx_tid(val);
   out_state->is_locked = out_state->owner_tid != 0;
   out_state->tkn = out_state->is_locked ? a0_atomic_load(&d->_stkn->_tkn) : 0;
   return A0_OK;
-- 
2.43.0


From e5cad61acba7bb4bb1e0e227ae96646260824f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:06 +0000
Subject: [PATCH 03/28] fix: waiting on a transport exposes changes that were
 never committed

The working page was only reset when locking and unlocking. A wait also
gives up and retakes the lock, so a user that died in between left its
unfinished changes visible to the waiter.
---
 src/transport.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index af9b36a..59181e5 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -132,6 +132,12 @@ static void a0_backward_compatiblility_update_from_0_2(a0_arena_t arena) {
   hdr->initialized = true;
 }
 
+// Drops changes that were not committed, by this user or by one that died.
+A0_STATIC_INLINE
+void a0_transport_reset_working_page(a0_transport_locked_t lk) {
+  *a0_transport_working_page(lk) = *a0_transport_committed_page(lk);
+}
+
 a0_err_t a0_transport_init(a0_transport_t* transport, a0_arena_t arena) {
   a0_backward_compatiblility_update_from_0_2(arena);
   // The arena is expected to be either:
@@ -176,6 +182,7 @@ a0_err_t a0_transport_shutdown(a0_transport_locked_t lk) {
 
   while (lk.transport->_wait_cnt) {
     a0_cnd_wait(&hdr->cnd, &hdr->mtx);
+    a0_transport_reset_working_page(lk);
   }
   return A0_OK;
 }
@@ -198,7 +205,7 @@ a0_err_t a0_transport_lock(a0_transport_t* transport, a0_transport_locked_t* lk_
   A0_MAYBE_UNUSED(prior_owner_died);
 
   // Clear any incomplete changes.
-  *a0_transport_working_page(*lk_out) = *a0_transport_committed_page(*lk_out);
+  a0_transport_reset_working_page(*lk_out);
 
   return A0_OK;
 }
@@ -208,7 +215,7 @@ a0_err_t a0_transport_unlock(a0_transport_locked_t lk) {
     return A0_OK;
   }
 
-  *a0_transport_working_page(lk) = *a0_transport_committed_page(lk);
+  a0_transport_reset_working_page(lk);
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
   a0_mtx_unlock(&hdr->mtx);
   return A0_OK;
@@ -367,6 +374,8 @@ a0_err_t a0_transport_timedwait(a0_transport_locked_t lk, a0_predicate_t pred, a
 
   while (!lk.transport->_shutdown) {
     err = a0_cnd_timedwait(&hdr->cnd, &hdr->mtx, timeout);
+    // The lock was released meanwhile.
+    a0_transport_reset_working_page(lk);
     if (A0_SYSERR(err) == ETIMEDOUT) {
       break;
     }
-- 
2.43.0


From 76c8d2c0d50fb45202cde39c8ede8ce100ef81c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:49 +0000
Subject: [PATCH 04/28] fix: transport jump refuses a frame that ends at the
 end of the arena

It also accepted offsets so large that the range check wrapped around.
---
 src/transport.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index 59181e5..e725589 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -246,12 +246,17 @@ a0_err_t a0_transport_jump(a0_transport_locked_t lk, size_t off) {
   }
 
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
-  if (off + sizeof(a0_transport_frame_hdr_t) >= hdr->arena_size) {
+  if (off > hdr->arena_size || hdr->arena_size - off < sizeof(a0_transport_frame_hdr_t)) {
     return A0_ERR_RANGE;
   }
 
   a0_transport_frame_hdr_t* frame_hdr = a0_transport_frame_header(lk, off);
-  if (off + sizeof(a0_transport_frame_hdr_t) + frame_hdr->data_size >= hdr->arena_size) {
+  size_t max_data_size = hdr->arena_size - off - sizeof(a0_transport_frame_hdr_t);
+  if (frame_hdr->data_size > max_data_size) {
+    return A0_ERR_RANGE;
+  }
+  // A frame may end exactly where the arena ends.
+  if (frame_hdr->data_size == max_data_size && frame_hdr->off != off) {
     return A0_ERR_RANGE;
   }
 
-- 
2.43.0


From 9eaf6bece7daedc12c2a5a18631d8acb8141ed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:00 +0000
Subject: [PATCH 05/28] fix: transport alloc accepts sizes that wrap around

A request close to SIZE_MAX was granted a frame of a few bytes.
---
 src/transport.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transport.c b/src/transport.c
index e725589..212e048 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -525,6 +525,11 @@ a0_err_t a0_transport_find_slot(a0_transport_locked_t lk, size_t frame_size, siz
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
   a0_transport_state_t* state = a0_transport_working_page(lk);
 
+  // The frame_size wraps around if the requested size is absurd.
+  if (frame_size < sizeof(a0_transport_frame_hdr_t) || frame_size > hdr->arena_size) {
+    return A0_ERR_FRAME_LARGE;
+  }
+
   bool empty;
   A0_RETURN_ERR_ON_ERR(a0_transport_empty(lk, &empty));
 
-- 
2.43.0


From 06f6f30cabeab81238d072f723f56d273b649b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:10 +0000
Subject: [PATCH 06/28] fix: transport hands out its header as a frame while it
 is empty

A user that never stepped has sequence number zero, which an empty
transport took for a valid position.
---
 src/transport.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index 212e048..69b5ffb 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -234,8 +234,12 @@ a0_err_t a0_transport_nonempty(a0_transport_locked_t lk, bool* out) {
 }
 
 a0_err_t a0_transport_iter_valid(a0_transport_locked_t lk, bool* out) {
+  bool empty;
+  A0_RETURN_ERR_ON_ERR(a0_transport_empty(lk, &empty));
+
   a0_transport_state_t* working_page = a0_transport_working_page(lk);
-  *out = (working_page->seq_low <= lk.transport->_seq) &&
+  *out = !empty &&
+         (working_page->seq_low <= lk.transport->_seq) &&
          (lk.transport->_seq <= working_page->seq_high);
   return A0_OK;
 }
@@ -455,7 +459,9 @@ a0_err_t a0_transport_seq_high(a0_transport_locked_t lk, uint64_t* out) {
 a0_err_t a0_transport_frame(a0_transport_locked_t lk, a0_transport_frame_t** frame_out) {
   a0_transport_state_t* state = a0_transport_working_page(lk);
 
-  if (lk.transport->_seq < state->seq_low) {
+  bool empty;
+  A0_RETURN_ERR_ON_ERR(a0_transport_empty(lk, &empty));
+  if (empty || lk.transport->_seq < state->seq_low) {
     return A0_MAKE_SYSERR(ESPIPE);
   }
 
-- 
2.43.0


From 55776dc965af4e1308b1636d729bdee8e132000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:22 +0000
Subject: [PATCH 07/28] fix: read-only and exclusive transports show
 uncommitted changes

Locking only reset the working page in shared mode, so an allocation left
behind by a writer that died, or dropped by an exclusive user, stayed
visible.
---
 src/transport.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index 69b5ffb..ff47987 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -73,6 +73,11 @@ a0_transport_state_t* a0_transport_committed_page(a0_transport_locked_t lk) {
 A0_STATIC_INLINE
 a0_transport_state_t* a0_transport_working_page(a0_transport_locked_t lk) {
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
+  // A read-only user has no working page of its own, and must not see one that
+  // another user left behind.
+  if (lk.transport->_arena.mode == A0_ARENA_MODE_READONLY) {
+    return &hdr->state_pages[hdr->committed_page_idx];
+  }
   return &hdr->state_pages[!hdr->committed_page_idx];
 }
 
@@ -195,14 +200,16 @@ a0_err_t a0_transport_shutdown_requested(a0_transport_locked_t lk, bool* out) {
 a0_err_t a0_transport_lock(a0_transport_t* transport, a0_transport_locked_t* lk_out) {
   lk_out->transport = transport;
 
-  if (transport->_arena.mode != A0_ARENA_MODE_SHARED) {
+  if (transport->_arena.mode == A0_ARENA_MODE_READONLY) {
     return A0_OK;
   }
 
-  a0_transport_hdr_t* hdr = a0_transport_header(*lk_out);
+  if (transport->_arena.mode == A0_ARENA_MODE_SHARED) {
+    a0_transport_hdr_t* hdr = a0_transport_header(*lk_out);
 
-  a0_err_t prior_owner_died = a0_mtx_lock(&hdr->mtx);
-  A0_MAYBE_UNUSED(prior_owner_died);
+    a0_err_t prior_owner_died = a0_mtx_lock(&hdr->mtx);
+    A0_MAYBE_UNUSED(prior_owner_died);
+  }
 
   // Clear any incomplete changes.
   a0_transport_reset_working_page(*lk_out);
@@ -211,13 +218,16 @@ a0_err_t a0_transport_lock(a0_transport_t* transport, a0_transport_locked_t* lk_
 }
 
 a0_err_t a0_transport_unlock(a0_transport_locked_t lk) {
-  if (lk.transport->_arena.mode != A0_ARENA_MODE_SHARED) {
+  if (lk.transport->_arena.mode == A0_ARENA_MODE_READONLY) {
     return A0_OK;
   }
 
   a0_transport_reset_working_page(lk);
-  a0_transport_hdr_t* hdr = a0_transport_header(lk);
-  a0_mtx_unlock(&hdr->mtx);
+
+  if (lk.transport->_arena.mode == A0_ARENA_MODE_SHARED) {
+    a0_transport_hdr_t* hdr = a0_transport_header(lk);
+    a0_mtx_unlock(&hdr->mtx);
+  }
   return A0_OK;
 }
 
-- 
2.43.0


From c69a8ab1a485a4efa2af43798292aab583ad432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:32 +0000
Subject: [PATCH 08/28] fix: read-only transports write to the arena

Init, commit, resize and clear are now refused if they would have to
modify the arena.
---
 src/transport.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/transport.c b/src/transport.c
index ff47987..5574bc9 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -144,6 +144,12 @@ void a0_transport_reset_working_page(a0_transport_locked_t lk) {
 }
 
 a0_err_t a0_transport_init(a0_transport_t* transport, a0_arena_t arena) {
+  // A read-only user cannot initialize or upgrade the arena.
+  if (arena.mode == A0_ARENA_MODE_READONLY &&
+      (*(uint16_t*)arena.buf.data == 0x0101 || !((a0_transport_hdr_t*)arena.buf.data)->initialized)) {
+    return A0_MAKE_SYSERR(EPERM);
+  }
+
   a0_backward_compatiblility_update_from_0_2(arena);
   // The arena is expected to be either:
   // 1) all null bytes.
@@ -702,6 +708,9 @@ a0_err_t a0_transport_allocator(a0_transport_locked_t* lk, a0_alloc_t* alloc_out
 }
 
 a0_err_t a0_transport_commit(a0_transport_locked_t lk) {
+  if (lk.transport->_arena.mode == A0_ARENA_MODE_READONLY) {
+    return A0_MAKE_SYSERR(EPERM);
+  }
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
   // Assume page A was the previously committed page and page B is the working
   // page that is ready to be committed. Both represent a valid state for the
@@ -723,6 +732,10 @@ a0_err_t a0_transport_used_space(a0_transport_locked_t lk, size_t* out) {
 }
 
 a0_err_t a0_transport_resize(a0_transport_locked_t lk, size_t arena_size) {
+  if (lk.transport->_arena.mode == A0_ARENA_MODE_READONLY) {
+    return A0_MAKE_SYSERR(EPERM);
+  }
+
   size_t used_space;
   A0_RETURN_ERR_ON_ERR(a0_transport_used_space(lk, &used_space));
   if (arena_size < used_space) {
@@ -735,6 +748,10 @@ a0_err_t a0_transport_resize(a0_transport_locked_t lk, size_t arena_size) {
 }
 
 a0_err_t a0_transport_clear(a0_transport_locked_t lk) {
+  if (lk.transport->_arena.mode == A0_ARENA_MODE_READONLY) {
+    return A0_MAKE_SYSERR(EPERM);
+  }
+
   a0_transport_state_t* state = a0_transport_working_page(lk);
   state->seq_low = state->seq_high + 1;
   state->off_head = 0;
-- 
2.43.0


From 95af68677954725b2877eed864facb081d40aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:02 +0000
Subject: [PATCH 09/28] fix: random access reads of a removed frame return an
 error instead of crashing

---
 src/reader.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 5bcd239..e08ed51 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -479,7 +479,11 @@ a0_err_t a0_read_random_access(a0_arena_t arena, size_t off, a0_zero_copy_callba
     return err;
   }
   a0_transport_frame_t* frame;
-  a0_transport_frame(tlk, &frame);
+  err = a0_transport_frame(tlk, &frame);
+  if (err) {
+    a0_transport_unlock(tlk);
+    return err;
+  }
 
   cb.fn(cb.user_data, tlk, (a0_flat_packet_t){{frame->data, frame->hdr.data_size}});
 
-- 
2.43.0


From e5c234e0cae23a8c6d115fd7cfa755221049f230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:12 +0000
Subject: [PATCH 10/28] fix: closing a reader from its own callback reports a
 deadlock instead of hanging

---
 src/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index e08ed51..5db9e23 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -413,7 +413,7 @@ a0_err_t a0_reader_zc_init(a0_reader_zc_t* reader_zc,
 
 a0_err_t a0_reader_zc_close(a0_reader_zc_t* reader_zc) {
   a0_event_wait(&reader_zc->_thread_start_event);
-  if (pthread_equal(pthread_self(), reader_zc->_thread_id)) {
+  if (a0_tid() == reader_zc->_thread_id) {
     return A0_MAKE_SYSERR(EDEADLK);
   }
 #ifdef DEBUG
-- 
2.43.0


From b4596d56896220f60b07ce63cc515e1f1687921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:54 +0000
Subject: [PATCH 11/28] fix: compare pointers and buffer sizes without
 truncation

The difference was cut down to an int, so pointers that differ only in
their upper half compared as equal and large differences could come out
with the wrong sign.
---
 src/cmp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cmp.c b/src/cmp.c
index 76d9f77..db1ac60 100644
--- a/src/cmp.c
+++ b/src/cmp.c
@@ -58,7 +58,9 @@ const a0_hash_t A0_HASH_PTR = {
 
 a0_err_t a0_cmp_ptr_fn(void* user_data, const void* lhs, const void* rhs, int* out) {
   A0_MAYBE_UNUSED(user_data);
-  *out = (int)(*(uintptr_t*)lhs - *(uintptr_t*)rhs);
+  uintptr_t lhs_ptr = *(uintptr_t*)lhs;
+  uintptr_t rhs_ptr = *(uintptr_t*)rhs;
+  *out = (lhs_ptr > rhs_ptr) - (lhs_ptr < rhs_ptr);
   return A0_OK;
 }
 
@@ -93,7 +95,7 @@ a0_err_t a0_cmp_buf_fn(void* user_data, const void* lhs, const void* rhs, int* o
   a0_buf_t* lhs_buf = (a0_buf_t*)lhs;
   a0_buf_t* rhs_buf = (a0_buf_t*)rhs;
   if (lhs_buf->size != rhs_buf->size) {
-    *out = (int)(lhs_buf->size) - (int)(rhs_buf->size);
+    *out = lhs_buf->size < rhs_buf->size ? -1 : 1;
   } else {
     *out = memcmp(lhs_buf->data, rhs_buf->data, lhs_buf->size);
   }
-- 
2.43.0


From 37869cb7d2a52a72c86240a24724bd9f093018b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:54 +0000
Subject: [PATCH 12/28] fix: report failed packet allocations

Serializing, deserializing and copying a packet ignored the result of the
allocation and wrote through an unset pointer.  Writing a packet that is
too large for the file crashed with the file locked.  Report the error,
and do not commit the packet.
---
 src/packet.c | 11 ++++++-----
 src/writer.c |  9 +++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/packet.c b/src/packet.c
index eb14424..459dd81 100644
--- a/src/packet.c
+++ b/src/packet.c
@@ -85,7 +85,7 @@ a0_err_t a0_packet_serialize(a0_packet_t pkt, a0_alloc_t alloc, a0_flat_packet_t
   a0_packet_stats_t stats;
   A0_RETURN_ERR_ON_ERR(a0_packet_stats(pkt, &stats));
 
-  a0_alloc(alloc, stats.serial_size, out);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(alloc, stats.serial_size, out));
 
   // Write pointer into index.
   size_t idx_off = 0;
@@ -147,7 +147,7 @@ a0_err_t a0_packet_deserialize(a0_flat_packet_t fpkt, a0_alloc_t alloc, a0_packe
   a0_packet_stats_t stats;
   a0_flat_packet_stats(fpkt, &stats);
 
-  a0_alloc(alloc, stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size, out_buf);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(alloc, stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size, out_buf));
 
   uint8_t* write_ptr = out_buf->data;
   out_pkt->headers_block.headers = (a0_packet_header_t*)write_ptr;
@@ -193,9 +193,10 @@ a0_err_t a0_packet_deep_copy(a0_packet_t in, a0_alloc_t alloc, a0_packet_t* out_
   a0_packet_stats_t stats;
   A0_RETURN_ERR_ON_ERR(a0_packet_stats(in, &stats));
 
-  a0_alloc(alloc,
-           stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size,
-           out_buf);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(
+      alloc,
+      stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size,
+      out_buf));
 
   out_pkt->headers_block.headers = (a0_packet_header_t*)out_buf->data;
   out_pkt->headers_block.size = stats.num_hdrs;
diff --git a/src/writer.c b/src/writer.c
index d539303..46ca1e0 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -95,12 +95,13 @@ a0_err_t a0_write_action_process_locked(void* user_data, a0_transport_locked_t t
 
   a0_alloc_t alloc;
   a0_transport_allocator(&tlk, &alloc);
-  a0_packet_serialize(*pkt, alloc, NULL);
-
-  a0_transport_commit(tlk);
+  a0_err_t err = a0_packet_serialize(*pkt, alloc, NULL);
+  if (!err) {
+    err = a0_transport_commit(tlk);
+  }
   a0_transport_unlock(tlk);
 
-  return A0_OK;
+  return err;
 }
 
 a0_err_t a0_writer_init(a0_writer_t* w, a0_arena_t arena) {
-- 
2.43.0


From 761393106bbb0d99ea8cc4bcae2419d870f677d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:09 +0000
Subject: [PATCH 13/28] fix: refuse paths with more than A0_PATHGLOB_MAX_DEPTH
 parts

The parts of a deeper path were written past the end of the array.
---
 src/pathglob.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pathglob.c b/src/pathglob.c
index 3bc738a..0071f89 100644
--- a/src/pathglob.c
+++ b/src/pathglob.c
@@ -35,6 +35,11 @@ a0_err_t a0_pathglob_init(a0_pathglob_t* glob, const char* path_pattern) {
           type = A0_PATHGLOB_PART_TYPE_RECURSIVE;
         }
       }
+      // The last part is added after the loop.
+      if (glob->depth + 1 == A0_PATHGLOB_MAX_DEPTH) {
+        a0_pathglob_close(glob);
+        return A0_ERR_BAD_PATH;
+      }
       glob->parts[glob->depth++] = (a0_pathglob_part_t){
           (a0_buf_t){recent_slash + 1, iter - recent_slash - 1},
           type,
-- 
2.43.0


From 88ffdb62cd1097bdcd06e88e87ab721447cf6846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:09 +0000
Subject: [PATCH 14/28] fix: parsing a short time string reads past its end

TimeMono::parse and TimeWall::parse passed the data of a string view to
the C parsers, which read a fixed number of characters.
---
 src/time.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/time.cpp b/src/time.cpp
index 9357c75..87843c9 100644
--- a/src/time.cpp
+++ b/src/time.cpp
@@ -1,3 +1,4 @@
+#include <a0/err.h>
 #include <a0/string_view.hpp>
 #include <a0/time.h>
 #include <a0/time.hpp>
@@ -32,6 +33,10 @@ std::string TimeMono::to_string() {
 TimeMono TimeMono::parse(string_view str) {
   return make_cpp<TimeMono>(
       [&](a0_time_mono_t* c) {
+        // The string view is not necessarily null-terminated.
+        if (str.size() < 19) {
+          return A0_ERR_INVALID_ARG;
+        }
         return a0_time_mono_parse(str.data(), c);
       });
 }
@@ -103,6 +108,10 @@ std::string TimeWall::to_string() {
 TimeWall TimeWall::parse(string_view str) {
   return make_cpp<TimeWall>(
       [&](a0_time_wall_t* c) {
+        // The string view is not necessarily null-terminated.
+        if (str.size() < 35) {
+          return A0_ERR_INVALID_ARG;
+        }
         return a0_time_wall_parse(str.data(), c);
       });
 }
-- 
2.43.0


From 05c89c84a4dc2c0f80a293a6e661b7326b8702a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:21 +0000
Subject: [PATCH 15/28] fix: a forked child generates the same UUIDs as its
 parent

The state of the generator is copied by fork, so both processes continued
with the same values.  Seed it anew in the child.
---
 src/rand.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/rand.c b/src/rand.c
index b269f7b..2706533 100644
--- a/src/rand.c
+++ b/src/rand.c
@@ -1,9 +1,12 @@
 #include "rand.h"
 
+#include <a0/inline.h>
 #include <a0/thread_local.h>
 
 #include <fcntl.h>
+#include <pthread.h>
 #include <stdbool.h>
+#include <stddef.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <unistd.h>
@@ -11,6 +14,18 @@
 A0_THREAD_LOCAL uint16_t a0_xsubi[3];
 A0_THREAD_LOCAL bool a0_xsubi_init = false;
 
+static pthread_once_t a0_rand_reset_atfork_once = PTHREAD_ONCE_INIT;
+
+A0_STATIC_INLINE
+void a0_rand_reset() {
+  a0_xsubi_init = false;
+}
+
+A0_STATIC_INLINE
+void a0_rand_reset_atfork() {
+  pthread_atfork(NULL, NULL, &a0_rand_reset);
+}
+
 uint32_t a0_mrand48() {
   if (!a0_xsubi_init) {
     // TODO(lshamis): error handling.
@@ -19,6 +34,8 @@ uint32_t a0_mrand48() {
     (void)todo_use_this;
     close(fd);
     a0_xsubi_init = true;
+    // Without a new seed, a forked child repeats the values of its parent.
+    pthread_once(&a0_rand_reset_atfork_once, a0_rand_reset_atfork);
   }
   return jrand48(a0_xsubi);
 }
-- 
2.43.0


From 8e994ecc7c8df4237cc96c0dbe5699410ec872d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:38 +0000
Subject: [PATCH 16/28] fix: ids repeat when the random device cannot be read

Without a file descriptor for /dev/urandom the generator kept its zero
state, and every thread and process generated the same ids.  Ask the
kernel directly.
---
 src/rand.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/rand.c b/src/rand.c
index 2706533..8615bba 100644
--- a/src/rand.c
+++ b/src/rand.c
@@ -3,12 +3,12 @@
 #include <a0/inline.h>
 #include <a0/thread_local.h>
 
-#include <fcntl.h>
 #include <pthread.h>
 #include <stdbool.h>
 #include <stddef.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <syscall.h>
 #include <unistd.h>
 
 A0_THREAD_LOCAL uint16_t a0_xsubi[3];
@@ -28,11 +28,8 @@ void a0_rand_reset_atfork() {
 
 uint32_t a0_mrand48() {
   if (!a0_xsubi_init) {
-    // TODO(lshamis): error handling.
-    int fd = open("/dev/urandom", O_RDONLY);
-    ssize_t todo_use_this = read(fd, a0_xsubi, sizeof(a0_xsubi));
-    (void)todo_use_this;
-    close(fd);
+    // Needs no file descriptor, and a read this small is neither short nor interrupted.
+    syscall(SYS_getrandom, a0_xsubi, sizeof(a0_xsubi), 0);
     a0_xsubi_init = true;
     // Without a new seed, a forked child repeats the values of its parent.
     pthread_once(&a0_rand_reset_atfork_once, a0_rand_reset_atfork);
-- 
2.43.0


From ab1d227770995e37b724fa3b22b028343d91102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:25 +0000
Subject: [PATCH 17/28] fix: locking a transport reports a failed lock instead
 of ignoring it

---
 src/transport.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index 5574bc9..58b9874 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -213,8 +213,10 @@ a0_err_t a0_transport_lock(a0_transport_t* transport, a0_transport_locked_t* lk_
   if (transport->_arena.mode == A0_ARENA_MODE_SHARED) {
     a0_transport_hdr_t* hdr = a0_transport_header(*lk_out);
 
-    a0_err_t prior_owner_died = a0_mtx_lock(&hdr->mtx);
-    A0_MAYBE_UNUSED(prior_owner_died);
+    a0_err_t err = a0_mtx_lock(&hdr->mtx);
+    if (err && !a0_mtx_previous_owner_died(err)) {
+      return err;
+    }
   }
 
   // Clear any incomplete changes.
-- 
2.43.0


From 673e0e7bfec3ab06b9aee0953a5ed7875ee89a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:10 +0000
Subject: [PATCH 18/28] fix: closing a subscriber, listener, watcher, server or
 client from its own callback reports the error

The reader refuses to be closed from its own thread, but the callers ignored
that and closed the file the reader was still using.
---
 src/cfg.c    | 2 +-
 src/log.c    | 2 +-
 src/prpc.c   | 4 ++--
 src/pubsub.c | 4 ++--
 src/rpc.c    | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cfg.c b/src/cfg.c
index ea96204..53935f6 100644
--- a/src/cfg.c
+++ b/src/cfg.c
@@ -127,7 +127,7 @@ a0_err_t a0_cfg_watcher_init(a0_cfg_watcher_t* cw,
 }
 
 a0_err_t a0_cfg_watcher_close(a0_cfg_watcher_t* cw) {
-  a0_reader_close(&cw->_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&cw->_reader));
   a0_file_close(&cw->_file);
   return A0_OK;
 }
diff --git a/src/log.c b/src/log.c
index 0923f8b..4b31f25 100644
--- a/src/log.c
+++ b/src/log.c
@@ -164,7 +164,7 @@ a0_err_t a0_log_listener_init(a0_log_listener_t* log_list,
 }
 
 a0_err_t a0_log_listener_close(a0_log_listener_t* log_list) {
-  a0_reader_close(&log_list->_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&log_list->_reader));
   a0_file_close(&log_list->_file);
   return A0_OK;
 }
diff --git a/src/prpc.c b/src/prpc.c
index 67b73ec..c21d0aa 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -105,7 +105,7 @@ a0_err_t a0_prpc_server_init(a0_prpc_server_t* server,
 }
 
 a0_err_t a0_prpc_server_close(a0_prpc_server_t* server) {
-  a0_reader_close(&server->_connection_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&server->_connection_reader));
   a0_writer_close(&server->_progress_writer);
   a0_file_close(&server->_file);
   return A0_OK;
@@ -230,7 +230,7 @@ a0_err_t a0_prpc_client_init(a0_prpc_client_t* client,
 }
 
 a0_err_t a0_prpc_client_close(a0_prpc_client_t* client) {
-  a0_reader_close(&client->_progress_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&client->_progress_reader));
   a0_writer_close(&client->_connection_writer);
   a0_file_close(&client->_file);
   a0_map_close(&client->_outstanding_connections);
diff --git a/src/pubsub.c b/src/pubsub.c
index fd959dd..035af30 100644
--- a/src/pubsub.c
+++ b/src/pubsub.c
@@ -168,7 +168,7 @@ a0_err_t a0_subscriber_zc_init(a0_subscriber_zc_t* sub_zc,
 }
 
 a0_err_t a0_subscriber_zc_close(a0_subscriber_zc_t* sub_zc) {
-  a0_reader_zc_close(&sub_zc->_reader_zc);
+  A0_RETURN_ERR_ON_ERR(a0_reader_zc_close(&sub_zc->_reader_zc));
   a0_file_close(&sub_zc->_file);
   return A0_OK;
 }
@@ -197,7 +197,7 @@ a0_err_t a0_subscriber_init(a0_subscriber_t* sub,
 }
 
 a0_err_t a0_subscriber_close(a0_subscriber_t* sub) {
-  a0_reader_close(&sub->_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&sub->_reader));
   a0_file_close(&sub->_file);
   return A0_OK;
 }
diff --git a/src/rpc.c b/src/rpc.c
index 148cb0b..783d6e2 100644
--- a/src/rpc.c
+++ b/src/rpc.c
@@ -105,7 +105,7 @@ a0_err_t a0_rpc_server_init(a0_rpc_server_t* server,
 }
 
 a0_err_t a0_rpc_server_close(a0_rpc_server_t* server) {
-  a0_reader_close(&server->_request_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&server->_request_reader));
   a0_writer_close(&server->_response_writer);
   a0_file_close(&server->_file);
   return A0_OK;
@@ -237,7 +237,7 @@ a0_err_t a0_rpc_client_init(a0_rpc_client_t* client,
 }
 
 a0_err_t a0_rpc_client_close(a0_rpc_client_t* client) {
-  a0_reader_close(&client->_response_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&client->_response_reader));
   a0_writer_close(&client->_request_writer);
   a0_file_close(&client->_file);
   a0_map_close(&client->_outstanding_requests);
-- 
2.43.0


From c18f688890fb1856e05feab08dbc28127992e524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:10 +0000
Subject: [PATCH 19/28] fix: progress on a connection made without a callback
 is dropped instead of crashing

---
 src/prpc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prpc.c b/src/prpc.c
index c21d0aa..effa864 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -167,7 +167,7 @@ void a0_prpc_client_onpacket(void* user_data, a0_packet_t pkt) {
   }
   pthread_mutex_unlock(&client->_outstanding_connections_mu);
 
-  if (!err) {
+  if (!err && cb.fn) {
     cb.fn(cb.user_data, pkt, is_complete);
   }
 }
-- 
2.43.0


From b55fc5047d7889f67f8e164c74f92c3d3f0be6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:10 +0000
Subject: [PATCH 20/28] fix: another client's cancellation is not delivered as
 progress

---
 src/prpc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/prpc.c b/src/prpc.c
index effa864..673e422 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -152,6 +152,9 @@ void a0_prpc_client_onpacket(void* user_data, a0_packet_t pkt) {
   }
 
   bool is_complete = !strcmp(type_hdr.val, PRPC_TYPE_COMPLETE);
+  if (!is_complete && strcmp(type_hdr.val, PRPC_TYPE_PROGRESS) != 0) {
+    return;
+  }
 
   a0_err_t err;
   a0_prpc_progress_callback_t cb;
-- 
2.43.0


From 1b49910fcee2c134aaeaade309b289c20435eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:19 +0000
Subject: [PATCH 21/28] fix: unmap the temporary file when another process
 creates the file first

---
 src/file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/file.c b/src/file.c
index 17e4b34..d30cec6 100644
--- a/src/file.c
+++ b/src/file.c
@@ -259,6 +259,7 @@ a0_err_t a0_do_open(
 
     err = a0_tmp_move(file, path);
     if (err) {
+      a0_munmap(file);
       close(file->fd);
       file->fd = 0;
       file->path = NULL;
-- 
2.43.0


From 9e97d7602a5becef76b5f3ff7b65a9bf8cbaf34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:19 +0000
Subject: [PATCH 22/28] fix: do not leave the temporary file behind when
 creating a file fails

---
 src/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/file.c b/src/file.c
index d30cec6..bf1e06c 100644
--- a/src/file.c
+++ b/src/file.c
@@ -144,6 +144,7 @@ a0_err_t a0_mktmp(const char* dir, a0_file_create_options_t opts, a0_file_t* fil
     close(file->fd);
     file->fd = -1;
 
+    unlink(path);
     free(path);
     file->path = NULL;
 
@@ -251,6 +252,7 @@ a0_err_t a0_do_open(
     err = a0_mmap(file, &opts->open_options);
     if (err) {
       close(file->fd);
+      unlink(file->path);
       free((void*)file->path);
       file->fd = 0;
       file->path = NULL;
-- 
2.43.0


From cee783720f3b725e9e72a5ce2b143bc7b4d38264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:19 +0000
Subject: [PATCH 23/28] fix: list and remove trees given by relative names
 where opening puts them

---
 src/file.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/file.c b/src/file.c
index bf1e06c..c084875 100644
--- a/src/file.c
+++ b/src/file.c
@@ -347,25 +347,26 @@ a0_err_t a0_file_iter_init(a0_file_iter_t* iter, const char* path) {
   }
 
   memcpy(iter->_path, abspath, iter->_path_len + 1);
-  free(abspath);
 
   if (iter->_path[iter->_path_len - 1] != '/') {
     iter->_path[iter->_path_len] = '/';
     iter->_path_len++;
   }
 
+  a0_err_t err = A0_OK;
   stat_t stat;
-  A0_RETURN_SYSERR_ON_MINUS_ONE(lstat(path, &stat));
-
-  if (!S_ISDIR(stat.st_mode)) {
-    return A0_MAKE_SYSERR(ENOTDIR);
-  }
-
-  iter->_dir = opendir(path);
-  if (!iter->_dir) {
-    return A0_MAKE_SYSERR(errno);
+  if (lstat(abspath, &stat) == -1) {
+    err = A0_MAKE_SYSERR(errno);
+  } else if (!S_ISDIR(stat.st_mode)) {
+    err = A0_MAKE_SYSERR(ENOTDIR);
+  } else {
+    iter->_dir = opendir(abspath);
+    if (!iter->_dir) {
+      err = A0_MAKE_SYSERR(errno);
+    }
   }
-  return A0_OK;
+  free(abspath);
+  return err;
 }
 
 a0_err_t a0_file_iter_next(a0_file_iter_t* iter, a0_file_iter_entry_t* entry) {
-- 
2.43.0


From 6e636c49060819203b2bda536fe3d4dddb787bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:19 +0000
Subject: [PATCH 24/28] fix: refuse directory entries whose path does not fit
 the iterator's buffer

---
 src/file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file.c b/src/file.c
index c084875..694a178 100644
--- a/src/file.c
+++ b/src/file.c
@@ -378,6 +378,9 @@ a0_err_t a0_file_iter_next(a0_file_iter_t* iter, a0_file_iter_entry_t* entry) {
   }
 
   size_t len = strlen(dir_entity->d_name);
+  if (iter->_path_len + len > PATH_MAX) {
+    return A0_MAKE_SYSERR(ENAMETOOLONG);
+  }
 
   entry->filename = dir_entity->d_name;
   entry->fullpath = iter->_path;
-- 
2.43.0


From 55a09ab97a62233b45544a1e31ce9b26c9854020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:15 +0000
Subject: [PATCH 25/28] fix: discovery does not read a directory that is
 already gone

---
 src/discovery.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/discovery.c b/src/discovery.c
index ddd1fe7..0fec867 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -90,7 +90,10 @@ void a0_discovery_watch_recursive(a0_discovery_t* d, const char* path) {
 
   a0_file_iter_t iter;
   a0_file_iter_entry_t entry;
-  a0_file_iter_init(&iter, path);
+  if (a0_file_iter_init(&iter, path)) {
+    // The directory may already be gone.
+    return;
+  }
   while (!a0_file_iter_next(&iter, &entry)) {
     if (entry.d_type == DT_DIR) {
       a0_discovery_watch_recursive(d, entry.fullpath);
-- 
2.43.0


From 072c1b01e8ce5379838b6aa2621d75b54caa595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:15 +0000
Subject: [PATCH 26/28] fix: discovery announces files that are moved into
 place

---
 src/discovery.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/discovery.c b/src/discovery.c
index 0fec867..8489a5f 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -62,7 +62,7 @@ void a0_discovery_watch_path(a0_discovery_t* d, const char* path) {
     return;
   }
 
-  int wd = inotify_add_watch(d->_inotify_fd, path, IN_CREATE);
+  int wd = inotify_add_watch(d->_inotify_fd, path, IN_CREATE | IN_MOVED_TO);
   if (wd < 0) {
     return;
   }
-- 
2.43.0


From fadc0b7a896044ccb3049a555bfed313b0a44dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:15 +0000
Subject: [PATCH 27/28] fix: discovery watches a directory again after it was
 removed and made anew

---
 include/a0/discovery.h |  5 ++---
 src/discovery.c        | 29 ++++++-----------------------
 2 files changed, 8 insertions(+), 26 deletions(-)

diff --git a/include/a0/discovery.h b/include/a0/discovery.h
index 43eeb1e..00331d6 100644
--- a/include/a0/discovery.h
+++ b/include/a0/discovery.h
@@ -21,9 +21,8 @@ typedef struct a0_discovery_s {
   a0_discovery_callback_t _callback;
   pthread_t _thread;
 
-  a0_map_t _watch_map;          // inotify watch descriptor -> absolute dir path
-  a0_map_t _reverse_watch_map;  // absolute dir path -> nothing
-  a0_map_t _discovered_map;     // absolute file path -> nothing
+  a0_map_t _watch_map;       // inotify watch descriptor -> absolute dir path
+  a0_map_t _discovered_map;  // absolute file path -> nothing
   int _epoll_fd;
   int _inotify_fd;
   int _close_fd;
diff --git a/src/discovery.c b/src/discovery.c
index 8489a5f..bebc164 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -56,20 +56,18 @@ size_t a0_discovery_rootlen(a0_discovery_t* d) {
 
 A0_STATIC_INLINE
 void a0_discovery_watch_path(a0_discovery_t* d, const char* path) {
-  bool already_watching;
-  a0_map_has(&d->_reverse_watch_map, &path, &already_watching);
-  if (already_watching) {
-    return;
-  }
-
   int wd = inotify_add_watch(d->_inotify_fd, path, IN_CREATE | IN_MOVED_TO);
   if (wd < 0) {
     return;
   }
+  // A directory that was removed and made again has a new watch descriptor.
+  bool already_watching;
+  a0_map_has(&d->_watch_map, &wd, &already_watching);
+  if (already_watching) {
+    return;
+  }
   char* dup = strdup(path);
   a0_map_put(&d->_watch_map, &wd, &dup);
-  int unused = 0;
-  a0_map_put(&d->_reverse_watch_map, &dup, &unused);
 }
 
 A0_STATIC_INLINE
@@ -257,18 +255,6 @@ a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_disco
     return err;
   }
 
-  err = a0_map_init(
-      &d->_reverse_watch_map,
-      sizeof(char*),
-      sizeof(int),
-      A0_HASH_STR,
-      A0_CMP_STR);
-  if (err) {
-    a0_map_close(&d->_watch_map);
-    a0_pathglob_close(&d->_pathglob);
-    return err;
-  }
-
   err = a0_map_init(
       &d->_discovered_map,
       sizeof(char*),
@@ -276,7 +262,6 @@ a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_disco
       A0_HASH_STR,
       A0_CMP_STR);
   if (err) {
-    a0_map_close(&d->_reverse_watch_map);
     a0_map_close(&d->_watch_map);
     a0_pathglob_close(&d->_pathglob);
     return err;
@@ -306,8 +291,6 @@ a0_err_t a0_discovery_close(a0_discovery_t* d) {
     free(*(void**)val);
   }
   a0_map_close(&d->_watch_map);
-  // Note: _reverse_watch_map doesn't own any memory.
-  a0_map_close(&d->_reverse_watch_map);
 
   a0_map_iterator_init(&iter, &d->_discovered_map);
   while (!a0_map_iterator_next(&iter, &key, &val)) {
-- 
2.43.0


From 30b5582c062b437929454c0cc49c752f5145376e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:32 +0000
Subject: [PATCH 28/28] fix: report a deadman's token together with its owner

a0_deadman_mtx_state read the owner and the token one after the other. If the
switch changed hands in between, it returned the old owner with the token of
the new one. Read both again until the token stays the same, as waiting for the
switch to be taken already does.
---
 src/deadman_mtx.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index a92dc47..56815a9 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -259,9 +259,17 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked(a0_deadman_mtx_t* d, a0_time_mono_t*
 A0_NO_TSAN
 a0_err_t a0_deadman_mtx_state(a0_deadman_mtx_t* d, a0_deadman_mtx_state_t* out_state) {
   out_state->is_owner = a0_atomic_load(&d->_is_owner);
-  const uint32_t val = a0_atomic_load(&d->_stkn->_mtx.ftx);
-  out_state->owner_tid = a0_ftx_owner_died(val) ? 0 : a0_ftx_tid(val);
-  out_state->is_locked = out_state->owner_tid != 0;
-  out_state->tkn = out_state->is_locked ? a0_atomic_load(&d->_stkn->_tkn) : 0;
-  return A0_OK;
+  while (true) {
+    const uint64_t tkn = a0_atomic_load(&d->_stkn->_tkn);
+    a0_barrier();
+    const uint32_t val = a0_atomic_load(&d->_stkn->_mtx.ftx);
+    a0_barrier();
+    out_state->owner_tid = a0_ftx_owner_died(val) ? 0 : a0_ftx_tid(val);
+    out_state->is_locked = out_state->owner_tid != 0;
+    out_state->tkn = out_state->is_locked ? tkn : 0;
+    // The token only belongs to the observed owner if it did not change meanwhile.
+    if (!out_state->is_locked || tkn == a0_atomic_load(&d->_stkn->_tkn)) {
+      return A0_OK;
+    }
+  }
 }
-- 
2.43.0

