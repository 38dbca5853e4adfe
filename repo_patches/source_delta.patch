From 1df2ef493064e1b2432ef69eca70fce211177a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:29 +0000
Subject: [PATCH 01/95] fix: Copy from load to store address in loadstore_tx()

The operation copied the content of the store address over the
transaction-local copy of the load address, and used the load page's
length for advancing both addresses.
---
 modules/tm/src/vmem_tx.c | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 0575110..d3be0b5 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -293,43 +293,42 @@ tm_vmem_tx_ldst(struct tm_vmem_tx* vmem_tx, uintptr_t laddr, uintptr_t saddr,
 {
     while (siz) {
 
+        /* Stay within the boundaries of both, the loaded and the
+         * stored page.
+         */
+        size_t diff = ulmin(siz, ulmin(TM_BLOCK_SIZE - laddr % TM_BLOCK_SIZE,
+                                       TM_BLOCK_SIZE - saddr % TM_BLOCK_SIZE));
+
         /* released as part of apply() or undo() */
         struct tm_page* lpage = acquire_page_by_address(vmem_tx, laddr, error);
         if (picotm_error_is_set(error)) {
             return;
         }
-        prepare_page_ld(lpage, laddr, siz, vmem_tx->vmem, error);
+        prepare_page_ld(lpage, laddr, diff, vmem_tx->vmem, error);
         if (picotm_error_is_set(error)) {
             return;
         }
 
-        uintptr_t lpage_addr = tm_page_address(lpage);
-        size_t lpage_head = laddr - lpage_addr;
-        size_t lpage_tail = TM_BLOCK_SIZE - lpage_head;
-        size_t lpage_diff = siz < lpage_tail ? siz : lpage_tail;
-
         /* released as part of apply() or undo() */
         struct tm_page* spage = acquire_page_by_address(vmem_tx, saddr, error);
         if (picotm_error_is_set(error)) {
             return;
         }
-        prepare_page_st(spage, saddr, siz, vmem_tx->vmem, error);
+        prepare_page_st(spage, saddr, diff, vmem_tx->vmem, error);
         if (picotm_error_is_set(error)) {
             return;
         }
 
-        uintptr_t spage_addr = tm_page_address(spage);
-        size_t spage_head = saddr - spage_addr;
-        size_t spage_tail = TM_BLOCK_SIZE - spage_head;
-        size_t spage_diff = siz < spage_tail ? siz : spage_tail;
+        size_t lpage_head = laddr - tm_page_address(lpage);
+        size_t spage_head = saddr - tm_page_address(spage);
 
-        uint8_t* lmem = tm_page_buffer(lpage);
+        const uint8_t* lmem = tm_page_buffer(lpage);
         uint8_t* smem = tm_page_buffer(spage);
-        memcpy(lmem + lpage_head, smem + spage_head, lpage_diff);
+        memmove(smem + spage_head, lmem + lpage_head, diff);
 
-        laddr += lpage_diff;
-        saddr += spage_diff;
-        siz   -= lpage_diff;
+        laddr += diff;
+        saddr += diff;
+        siz   -= diff;
     }
 }
 
-- 
2.43.0


From a904d3e531a9ab793d6ce446f99897f658324c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 02/95] fix: Keep stored values when privatizing a buffered
 page

Privatizing memory switches its page to write-through mode. Values that
the transaction had stored before remained in the page's buffer, where
they were lost on commit and written to memory on abort. Exchange buffer
and memory when switching modes.
---
 modules/tm/src/vmem_tx.c | 41 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index d3be0b5..0cc89c5 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -332,6 +332,27 @@ tm_vmem_tx_ldst(struct tm_vmem_tx* vmem_tx, uintptr_t laddr, uintptr_t saddr,
     }
 }
 
+/* Privatized pages use write-through semantics, so that all stores are
+ * immediately visible in the region's memory. Values that have been stored
+ * in the page's buffer move to memory; the original values move into the
+ * buffer, so that they can be restored during a roll-back.
+ */
+static void
+make_page_write_through(struct tm_page* page, struct tm_vmem* vmem,
+                        struct picotm_error* error)
+{
+    if (page->flags & TM_PAGE_FLAG_WRITE_THROUGH) {
+        return;
+    }
+    if (tm_page_has_wrlocked_frame(page)) {
+        tm_page_xchg(page, copy_all_bits(), vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
+    }
+    page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+}
+
 static void
 prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                        struct tm_vmem* vmem,
@@ -358,7 +379,10 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                 return;
             }
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+        make_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
 
     } else if (flags & PICOTM_TM_PRIVATIZE_LOAD) {
 
@@ -376,7 +400,10 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                 return;
             }
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+        make_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
 
     } else if (!flags) {
 
@@ -454,12 +481,15 @@ prepare_page_privatize_c(struct tm_page* page,
             }
         }
 
+        make_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
         found_c = tm_page_ld_c(page, copy_bits(addr, page_diff), c, vmem,
                                error);
         if (picotm_error_is_set(error)) {
             return false;
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
 
     } else if (flags & PICOTM_TM_PRIVATIZE_LOAD) {
 
@@ -471,12 +501,15 @@ prepare_page_privatize_c(struct tm_page* page,
                 return false;
             }
         }
+        make_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
         found_c = tm_page_ld_c(page, copy_bits(addr, page_diff), c, vmem,
                                error);
         if (picotm_error_is_set(error)) {
             return false;
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
 
     } else if (!flags) {
 
-- 
2.43.0


From 43804ad0e6e67b6c80a6ce9b4d1034455548930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 03/95] fix: Only search the requested bytes in
 privatize_c_tx()

The search also considered bytes in front of the requested address, if
they had been accessed before; and never found character values that are
negative or exceed the range of a byte.
---
 modules/tm/src/page.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/modules/tm/src/page.c b/modules/tm/src/page.c
index 2841bd8..33cd289 100644
--- a/modules/tm/src/page.c
+++ b/modules/tm/src/page.c
@@ -116,14 +116,15 @@ tm_page_ld_c(struct tm_page* page, unsigned long bits, int c, struct tm_vmem* vm
     unsigned long bit = 1ul;
 
     for (buf = buf_beg; buf < buf_end; ++buf, ++mem, bit <<= 1) {
-        if ((bits & bit) && !(page->buf_bits & bit)) {
+        if (!(bits & bit)) {
+            continue;
+        }
+        if (!(page->buf_bits & bit)) {
             *buf = *mem;
             page->buf_bits |= bit;
         }
-        if (page->buf_bits & bit) {
-            if (*mem == c) {
-                break;
-            }
+        if (*mem == (uint8_t)c) {
+            break;
         }
     }
 
-- 
2.43.0


From de6d7f757a7659a1aaf8c6197c4563a06ebf65b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 04/95] fix: Discard memory by bytes and restore it on abort

Discarding memory affected complete blocks. Stores to neighboring bytes
within the same block were lost on commit, and accesses to these bytes
failed. An aborting transaction did not restore the memory's content, if
it had been privatized before being discarded.
---
 modules/tm/src/page.c    |  1 +
 modules/tm/src/page.h    | 18 +++++++++++++++--
 modules/tm/src/vmem_tx.c | 42 +++++++++++++++++++++++++---------------
 3 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/modules/tm/src/page.c b/modules/tm/src/page.c
index 33cd289..b79ca64 100644
--- a/modules/tm/src/page.c
+++ b/modules/tm/src/page.c
@@ -31,6 +31,7 @@ tm_page_init(struct tm_page* page, size_t block_index)
     page->flags = block_index << TM_BLOCK_SIZE_BITS;
     picotm_rwstate_init(&page->rwstate);
     page->buf_bits = 0;
+    page->discarded_bits = 0;
     picotm_slist_init_item(&page->list);
 }
 
diff --git a/modules/tm/src/page.h b/modules/tm/src/page.h
index aa5a12f..e427cdd 100644
--- a/modules/tm/src/page.h
+++ b/modules/tm/src/page.h
@@ -30,8 +30,7 @@
 struct tm_vmem;
 
 enum {
-    TM_PAGE_FLAG_WRITE_THROUGH = 1 << 0,
-    TM_PAGE_FLAG_DISCARDED     = 1 << 1
+    TM_PAGE_FLAG_WRITE_THROUGH = 1 << 0
 };
 
 /**
@@ -51,6 +50,9 @@ struct tm_page {
     /** Bitmap of the valid fields in buf. */
     uint8_t buf_bits;
 
+    /** Bitmap of the page's discarded bytes. */
+    uint8_t discarded_bits;
+
     /** Entry into allocator lists */
     struct picotm_slist list;
 };
@@ -91,6 +93,18 @@ tm_page_address(const struct tm_page* page)
 void*
 tm_page_buffer(struct tm_page* page);
 
+static inline bool
+tm_page_is_discarded(const struct tm_page* page, unsigned long bits)
+{
+    return page->discarded_bits & bits;
+}
+
+static inline void
+tm_page_discard(struct tm_page* page, unsigned long bits)
+{
+    page->discarded_bits |= bits;
+}
+
 void
 tm_page_ld(struct tm_page* page, unsigned long bits, struct tm_vmem* vmem,
            struct picotm_error* error);
diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 0cc89c5..705bc0d 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -179,7 +179,7 @@ prepare_page_ld(struct tm_page* page, uintptr_t addr, size_t siz,
                 struct tm_vmem* vmem,
                 struct picotm_error* error)
 {
-    if (page->flags & TM_PAGE_FLAG_DISCARDED) {
+    if (tm_page_is_discarded(page, copy_bits(addr, siz))) {
         picotm_error_set_error_code(error, PICOTM_OUT_OF_BOUNDS);
         return;
     } else if (!tm_page_has_rdlocked_frame(page)) {
@@ -235,7 +235,7 @@ prepare_page_st(struct tm_page* page, uintptr_t addr, size_t siz,
                 struct tm_vmem* vmem,
                 struct picotm_error* error)
 {
-    if (page->flags & TM_PAGE_FLAG_DISCARDED) {
+    if (tm_page_is_discarded(page, copy_bits(addr, siz))) {
         picotm_error_set_error_code(error, PICOTM_OUT_OF_BOUNDS);
         return;
     } else if (!tm_page_has_wrlocked_frame(page)) {
@@ -358,7 +358,7 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                        struct tm_vmem* vmem,
                        unsigned long flags, struct picotm_error* error)
 {
-    if (page->flags & TM_PAGE_FLAG_DISCARDED) {
+    if (tm_page_is_discarded(page, copy_bits(addr, siz))) {
         picotm_error_set_error_code(error, PICOTM_OUT_OF_BOUNDS);
         return;
     }
@@ -407,7 +407,7 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
 
     } else if (!flags) {
 
-        /* Not setting any flags marks the page as discarded.
+        /* Not setting any flags marks the bytes as discarded.
          * Page requires a writer lock. */
 
         if (!tm_page_has_wrlocked_frame(page)) {
@@ -416,7 +416,7 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                 return;
             }
         }
-        page->flags |= TM_PAGE_FLAG_DISCARDED;
+        tm_page_discard(page, copy_bits(addr, siz));
 
     } else if (!(page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
 
@@ -513,7 +513,7 @@ prepare_page_privatize_c(struct tm_page* page,
 
     } else if (!flags) {
 
-        /* Not setting any flags marks the page as discarded.
+        /* Not setting any flags marks the bytes as discarded.
          * Page requires a writer lock. */
 
         if (!tm_page_has_wrlocked_frame(page)) {
@@ -523,12 +523,24 @@ prepare_page_privatize_c(struct tm_page* page,
             }
         }
 
-        uintptr_t page_addr = tm_page_address(page);
-        size_t page_head = addr - page_addr;
-        const uint8_t* mem = tm_page_buffer(page);
-        found_c = !!memchr(mem + page_head, c, page_diff);
+        /* Loading gives the bytes' current values, up to and
+         * including the character 'c'.
+         */
+        make_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
+        found_c = tm_page_ld_c(page, copy_bits(addr, page_diff), c, vmem,
+                               error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
 
-        page->flags |= TM_PAGE_FLAG_DISCARDED;
+        const uint8_t* mem = (const uint8_t*)addr;
+        if (found_c) {
+            page_diff = (const uint8_t*)memchr(mem, c, page_diff) - mem + 1;
+        }
+        tm_page_discard(page, copy_bits(addr, page_diff));
 
     } else if (!(page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
 
@@ -598,9 +610,8 @@ static size_t
 apply_page(struct tm_page* page, struct tm_vmem* vmem, struct picotm_error* error)
 {
     if (tm_page_has_wrlocked_frame(page) &&
-        !(page->flags & TM_PAGE_FLAG_WRITE_THROUGH) &&
-        !(page->flags & TM_PAGE_FLAG_DISCARDED)) {
-        tm_page_st(page, copy_all_bits(), vmem, error);
+        !(page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
+        tm_page_st(page, copy_all_bits() & ~page->discarded_bits, vmem, error);
         if (picotm_error_is_set(error)) {
             return 0;
         }
@@ -626,8 +637,7 @@ undo_page(struct tm_page* page, struct tm_vmem* vmem,
           struct picotm_error* error)
 {
     if (tm_page_has_wrlocked_frame(page) &&
-        (page->flags & TM_PAGE_FLAG_WRITE_THROUGH) &&
-        !(page->flags & TM_PAGE_FLAG_DISCARDED)) {
+        (page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
         tm_page_st(page, copy_all_bits(), vmem, error);
         if (picotm_error_is_set(error)) {
             return 0;
-- 
2.43.0


From f835ac519f57dbe0782fd207792872eddc982a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:22 +0000
Subject: [PATCH 05/95] fix: Don't queue lock owners whose index doesn't fit
 into the lock

A reader/writer lock stores 4 bits of the first waiter's index. The index
of the sixteenth and later lock owners was truncated, so that waking up or
removing the waiter accessed a different lock owner or none at all.
---
 src/picotm-lib-rwlock.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/picotm-lib-rwlock.c b/src/picotm-lib-rwlock.c
index 75be7b1..482badf 100644
--- a/src/picotm-lib-rwlock.c
+++ b/src/picotm-lib-rwlock.c
@@ -38,6 +38,9 @@ enum {
 /** \brief Bitmask of the waiter index in 'struct picotm_rwlock::n' */
 static const uint8_t INDEX_BIT_MASK = ~COUNTER_BIT_MASK;
 
+/** \brief Maximum waiter index that fits into 'struct picotm_rwlock::n' */
+static const unsigned long MAX_WAITER_INDEX = UINT8_MAX >> INDEX_BIT_SHIFT;
+
 /** \brief Writer is present if this counter value is set. */
 static const uint8_t WRITER_COUNTER = COUNTER_BIT_MASK;
 
@@ -153,6 +156,13 @@ try_lock_or_wait(struct picotm_rwlock* self,
 
             waiter = picotm_lock_owner_get_thread_local_instance();
 
+            if (picotm_lock_owner_get_index(waiter) > MAX_WAITER_INDEX) {
+                /* The lock cannot store this waiter's index. We signal
+                 * a conflict without waiting. */
+                picotm_error_set_conflicting(error, self);
+                return;
+            }
+
             struct picotm_lock_manager* lmanager =
                 picotm_lock_owner_get_lock_manager(waiter);
 
-- 
2.43.0


From a8437bfc5c88371d45c12206c3e013456bde42e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:22 +0000
Subject: [PATCH 06/95] fix: Subtract the carry in picotm_os_sub_timespec()

---
 src/picotm_os_timespec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picotm_os_timespec.c b/src/picotm_os_timespec.c
index d1e06ab..10c6a01 100644
--- a/src/picotm_os_timespec.c
+++ b/src/picotm_os_timespec.c
@@ -90,7 +90,7 @@ picotm_os_sub_timespec(struct timespec* lhs,
 
     time_t carry = rhs->tv_nsec > lhs->tv_nsec;
 
-    lhs->tv_sec -= rhs->tv_sec - carry;
+    lhs->tv_sec -= rhs->tv_sec + carry;
     lhs->tv_nsec -= rhs->tv_nsec;
     lhs->tv_nsec += (MAX_NSEC + 1) * !!carry;
 
-- 
2.43.0


From e0efa4c17a95b035c180da55d00f60773795b917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:22 +0000
Subject: [PATCH 07/95] fix: Keep transactions irrevocable beyond the retry
 limit

A transaction that restarted after reaching the retry limit became
revocable again and could be re-executed an unlimited number of times.
---
 src/picotm_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picotm_tx.c b/src/picotm_tx.c
index 479202c..50de527 100644
--- a/src/picotm_tx.c
+++ b/src/picotm_tx.c
@@ -187,7 +187,7 @@ picotm_tx_begin(struct picotm_tx* self, enum picotm_tx_mode mode,
 
     unsigned long nretries = is_retry ? self->nretries + 1 : 0;
 
-    if (nretries == TX_NRETRIES_LIMIT) {
+    if (nretries >= TX_NRETRIES_LIMIT) {
         mode = TX_MODE_IRREVOCABLE;
     }
 
-- 
2.43.0


From 393b7cb8f82f3fd81eb587c18b17fd0b05ab6226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 08/95] fix: Don't restart irrevocable transactions in
 picotm_irrevocable()

dup2_tx(), which becomes irrevocable first, never returned because of
this, and every transaction that asked for irrevocability on its own
was executed for ever.
---
 src/picotm.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/picotm.c b/src/picotm.c
index 0138805..bdd8c03 100644
--- a/src/picotm.c
+++ b/src/picotm.c
@@ -323,7 +323,13 @@ PICOTM_EXPORT
 void
 picotm_irrevocable()
 {
-    restart_tx(get_non_null_tx(), PICOTM_MODE_IRREVOCABLE);
+    struct picotm_tx* tx = get_non_null_tx();
+
+    if (picotm_tx_is_irrevocable(tx)) {
+        return; /* nothing to do; don't restart over and over again */
+    }
+
+    restart_tx(tx, PICOTM_MODE_IRREVOCABLE);
 }
 
 PICOTM_EXPORT
-- 
2.43.0


From 37de66e8a4fa76e8fe1a9fedbb082f71de8dacff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 09/95] fix: Report errors of dup2() from dup2_tx()

---
 modules/libc/src/unistd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index 085004a..e0be001 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -116,9 +116,10 @@ dup2_tx(int fildes, int fildes2)
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         int res = dup2(fildes, fildes2);
-        if (!picotm_error_is_set(&error)) {
+        if (res >= 0) {
             return res;
         }
+        picotm_error_set_errno(&error, errno);
         picotm_recover_from_error(&error);
     } while (true);
 }
-- 
2.43.0


From d194f461468beeec9a2337acfb1faab66d2d847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 10/95] fix: Recover and restart when a thread's state cannot
 be acquired

If setting up the thread's transaction state failed, restarting from
the recovery phase jumped to an uninitialized environment, and
registering a module recursed until the stack overflowed.
---
 src/picotm.c | 57 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/picotm.c b/src/picotm.c
index bdd8c03..e339c82 100644
--- a/src/picotm.c
+++ b/src/picotm.c
@@ -175,6 +175,23 @@ get_non_null_error(void)
     return &error;
 }
 
+/*
+ * Thread-local execution environment
+ */
+
+static __picotm_jmp_buf**
+get_env(void)
+{
+    /**
+     * The environment of the thread's current transaction. It's not part
+     * of the transaction state, such that recovery and restarting work for
+     * transactions that failed to acquire their state.
+     */
+    static __thread __picotm_jmp_buf* env = NULL;
+
+    return &env;
+}
+
 /*
  * Lock-owner look-up functions
  */
@@ -213,6 +230,8 @@ __picotm_begin(enum __picotm_mode mode, __picotm_jmp_buf* env)
         TX_MODE_REVOCABLE
     };
 
+    *get_env() = env;
+
     switch (mode) {
     case PICOTM_MODE_RECOVERY: {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
@@ -268,33 +287,33 @@ __picotm_begin(enum __picotm_mode mode, __picotm_jmp_buf* env)
 }
 
 static void
-restart_tx(struct picotm_tx* tx, enum __picotm_mode mode)
+restart_tx(enum __picotm_mode mode)
 {
-    assert(tx);
+    assert(*get_env());
 
     /* Restarting the transaction here transfers control
      * to __picotm_begin(). */
-    __picotm_longjmp(*(tx->env), (int)mode);
+    __picotm_longjmp(**get_env(), (int)mode);
 }
 
 static void
-restart_tx_from_error(struct picotm_tx* tx, const struct picotm_error* error)
+restart_tx_from_error(const struct picotm_error* error)
 {
     assert(error);
     assert(picotm_error_is_set(error));
 
     switch (error->status) {
     case PICOTM_CONFLICTING:
-        restart_tx(tx, PICOTM_MODE_RETRY);
+        restart_tx(PICOTM_MODE_RETRY);
         break;
     case PICOTM_REVOCABLE:
-        restart_tx(tx, PICOTM_MODE_IRREVOCABLE);
+        restart_tx(PICOTM_MODE_IRREVOCABLE);
         break;
     case PICOTM_ERROR_CODE:     /* fall through */
     case PICOTM_ERRNO:          /* fall through */
     case PICOTM_KERN_RETURN_T:  /* fall through */
     case PICOTM_SIGINFO_T:
-        restart_tx(tx, PICOTM_MODE_RECOVERY);
+        restart_tx(PICOTM_MODE_RECOVERY);
         break;
     }
 }
@@ -308,7 +327,7 @@ __picotm_commit()
     struct picotm_error* error = get_non_null_error();
     picotm_tx_commit(tx, error);
     if (picotm_error_is_set(error)) {
-        restart_tx_from_error(tx, error);
+        restart_tx_from_error(error);
     }
 }
 
@@ -316,7 +335,7 @@ PICOTM_EXPORT
 void
 picotm_restart()
 {
-    restart_tx(get_non_null_tx(), PICOTM_MODE_RESTART);
+    restart_tx(PICOTM_MODE_RESTART);
 }
 
 PICOTM_EXPORT
@@ -329,7 +348,7 @@ picotm_irrevocable()
         return; /* nothing to do; don't restart over and over again */
     }
 
-    restart_tx(tx, PICOTM_MODE_IRREVOCABLE);
+    restart_tx(PICOTM_MODE_IRREVOCABLE);
 }
 
 PICOTM_EXPORT
@@ -416,7 +435,11 @@ unsigned long
 picotm_register_module(const struct picotm_module_ops* ops, void* data,
                        struct picotm_error* error)
 {
-    return picotm_tx_register_module(get_non_null_tx(), ops, data, error);
+    struct picotm_tx* tx = get_tx(true, error);
+    if (picotm_error_is_set(error)) {
+        return 0;
+    }
+    return picotm_tx_register_module(tx, ops, data, error);
 }
 
 PICOTM_EXPORT
@@ -433,7 +456,7 @@ picotm_resolve_conflict(struct picotm_rwlock* conflicting_lock)
 {
     picotm_error_set_conflicting(get_non_null_error(), conflicting_lock);
 
-    restart_tx(get_non_null_tx(), PICOTM_MODE_RETRY);
+    restart_tx(PICOTM_MODE_RETRY);
 }
 
 PICOTM_EXPORT
@@ -443,7 +466,7 @@ picotm_recover_from_error_code(enum picotm_error_code error_hint)
     picotm_error_set_error_code(get_non_null_error(), error_hint);
 
     /* Nothing we can do on errors; let's try to recover. */
-    restart_tx(get_non_null_tx(), PICOTM_MODE_RECOVERY);
+    restart_tx(PICOTM_MODE_RECOVERY);
 }
 
 PICOTM_EXPORT
@@ -453,7 +476,7 @@ picotm_recover_from_errno(int errno_hint)
     picotm_error_set_errno(get_non_null_error(), errno_hint);
 
     /* Nothing we can do on errors; let's try to recover. */
-    restart_tx(get_non_null_tx(), PICOTM_MODE_RECOVERY);
+    restart_tx(PICOTM_MODE_RECOVERY);
 }
 
 #if defined(PICOTM_HAVE_TYPE_KERN_RETURN_T) && PICOTM_HAVE_TYPE_KERN_RETURN_T
@@ -464,7 +487,7 @@ picotm_recover_from_kern_return_t(kern_return_t value)
     picotm_error_set_kern_return_t(get_non_null_error(), value);
 
     /* Nothing we can do on errors; let's try to recover. */
-    restart_tx(get_non_null_tx(), PICOTM_MODE_RECOVERY);
+    restart_tx(PICOTM_MODE_RECOVERY);
 }
 #endif
 
@@ -476,7 +499,7 @@ picotm_recover_from_siginfo_t(const siginfo_t* info)
     picotm_error_set_siginfo_t(get_non_null_error(), info);
 
     /* Nothing we can do on errors; let's try to recover. */
-    restart_tx(get_non_null_tx(), PICOTM_MODE_RECOVERY);
+    restart_tx(PICOTM_MODE_RECOVERY);
 }
 #endif
 
@@ -488,5 +511,5 @@ picotm_recover_from_error(const struct picotm_error* error)
 
     memcpy(get_non_null_error(), error, sizeof(*error));
 
-    restart_tx_from_error(get_non_null_tx(), error);
+    restart_tx_from_error(error);
 }
-- 
2.43.0


From 9c7dc2b5525ef96dcc4c86bc95f2ccfb8cf4cc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 11/95] fix: Report an error if there are too many lock owners

Lock owners store their index in 10 bits.
---
 src/picotm_lock_manager.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/picotm_lock_manager.c b/src/picotm_lock_manager.c
index 172e817..738167c 100644
--- a/src/picotm_lock_manager.c
+++ b/src/picotm_lock_manager.c
@@ -30,6 +30,10 @@
 #include "picotm/picotm-module.h"
 #include "table.h"
 
+/** \brief Maximum length of the lock-owner array; limited by the number of
+ * index bits in the lock owner's flags. */
+static const size_t MAX_NLOS = 1ul << 10;
+
 void
 picotm_lock_manager_init(struct picotm_lock_manager* self,
                          struct picotm_error* error)
@@ -81,6 +85,12 @@ grow_lo_array(struct picotm_lock_manager* self, struct picotm_error* error)
      * lock owners. */
     size_t new_nlos = !(self->nlos) + self->nlos + 1;
 
+    if (new_nlos > MAX_NLOS) {
+        /* A lock owner cannot store its index. */
+        picotm_error_set_error_code(error, PICOTM_OUT_OF_MEMORY);
+        return;
+    }
+
     struct picotm_lock_owner** new_lo = tabresize(self->lo, self->nlos,
                                                   new_nlos, sizeof(self->lo),
                                                   error);
-- 
2.43.0


From 1ec554b6ab409003b0f946d3b1e4069aef11d928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 12/95] fix: Don't truncate sizes of large memory allocations

Sizes were masked with 32 bits, so that allocations of 4 GiB and more
returned far too little memory.
---
 modules/libc/src/allocator/allocator_tx.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/allocator/allocator_tx.c b/modules/libc/src/allocator/allocator_tx.c
index fc9c5c8..6b1e4e8 100644
--- a/modules/libc/src/allocator/allocator_tx.c
+++ b/modules/libc/src/allocator/allocator_tx.c
@@ -22,17 +22,22 @@
 #include "picotm/picotm-error.h"
 #include <assert.h>
 #include <errno.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include "allocator_log.h"
 
 /**
- * Round size up to next multiple of word size.
+ * Round size up to next multiple of word size. Sizes that cannot be
+ * rounded up are left to the allocator to refuse.
  */
 static size_t
 rnd2wb(size_t size)
 {
-    const unsigned int mask = sizeof(void*) - 1;
+    const size_t mask = sizeof(void*) - 1;
 
+    if (size > SIZE_MAX - mask) {
+        return SIZE_MAX;
+    }
     return (size + mask) & ~mask;
 }
 
-- 
2.43.0


From ca30d42dae36a606b6a7fd6b42a229e2794da3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:04 +0000
Subject: [PATCH 13/95] fix: Detect overflows in calloc_tx()

---
 modules/libc/src/stdlib.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index 18949e6..7bfe0de 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -72,6 +72,14 @@ calloc_tx(size_t nmemb, size_t size)
 
     size_t alloc_size = nmemb * size;
 
+    if (size && (alloc_size / size != nmemb)) {
+        do {
+            struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+            picotm_error_set_errno(&error, ENOMEM);
+            picotm_recover_from_error(&error);
+        } while (true);
+    }
+
     do {
         void* mem;
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
-- 
2.43.0


From 8de20cd1483e39efd68ae970c34920fafd7c79fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:04 +0000
Subject: [PATCH 14/95] fix: Privatize the result of posix_memalign_tx()
 instead of its value

---
 modules/libc/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index 7bfe0de..bc5172a 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -174,7 +174,7 @@ PICOTM_EXPORT
 int
 posix_memalign_tx(void** memptr, size_t alignment, size_t size)
 {
-    privatize_tx(*memptr, sizeof(*memptr), PICOTM_TM_PRIVATIZE_STORE);
+    privatize_tx(memptr, sizeof(*memptr), PICOTM_TM_PRIVATIZE_STORE);
     return posix_memalign_tm(memptr, alignment, size);
 }
 #endif
-- 
2.43.0


From ab9984e7ff414fdab47bf747a75bdb87a2a3f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:04 +0000
Subject: [PATCH 15/95] fix: Preserve stored data in realloc_tx()

The memory region was discarded before its content was copied, so
the copy missed the transaction's stores.
---
 modules/libc/src/stdlib.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index bc5172a..2037341 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -207,7 +207,8 @@ realloc_tx(void* ptr, size_t size)
 {
     size_t usiz = malloc_usable_size(ptr);
     if (usiz) {
-        privatize_tx(ptr, usiz, 0); /* discard memory region */
+        /* Include the transaction's stores in the old memory region. */
+        privatize_tx(ptr, usiz, PICOTM_TM_PRIVATIZE_LOADSTORE);
     }
 
     do {
@@ -244,6 +245,9 @@ realloc_tx(void* ptr, size_t size)
     }
 
     if (ptr) {
+        if (usiz) {
+            privatize_tx(ptr, usiz, 0); /* discard memory region */
+        }
         do {
             struct picotm_error error = PICOTM_ERROR_INITIALIZER;
             allocator_module_free(ptr, usiz, &error);
-- 
2.43.0


From bcdd419ecec33d7ab24c09f66626835de9e8cb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 16/95] fix: Evaluate open flags instead of the file mode in
 open_tx()

The transactional open() looked for O_TRUNC, O_CREAT and O_EXCL in the
file mode. A transaction therefore never became irrevocable for O_TRUNC
and exclusively created files weren't removed during an abort, or if the
call fails.
---
 modules/libc/src/fildes/fildes_tx.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 9a3cbfc..dcf5047 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2376,8 +2376,8 @@ undo_mkstemp(struct fildes_tx* self, int fildes, int cookie,
  * open()
  */
 
-#define DO_UNLINK(mode_) \
-    ( ( (mode_)&(O_CREAT|O_EXCL) ) == (O_CREAT|O_EXCL) )
+#define DO_UNLINK(oflag_) \
+    ( ( (oflag_)&(O_CREAT|O_EXCL) ) == (O_CREAT|O_EXCL) )
 
 int
 fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
@@ -2385,7 +2385,7 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
 {
     /* O_TRUNC needs irrevocability */
 
-    if ((mode&O_TRUNC) && !isnoundo) {
+    if ((oflag&O_TRUNC) && !isnoundo) {
         picotm_error_set_revocable(error);
         return -1;
     }
@@ -2417,7 +2417,7 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
     }
 
     int cookie = openoptab_append(&self->openoptab,
-                                  &self->openoptablen, DO_UNLINK(mode),
+                                  &self->openoptablen, DO_UNLINK(oflag),
                                   error);
     if (picotm_error_is_set(error)) {
         goto err_openoptab_append;
@@ -2438,6 +2438,9 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
 err_fildes_log_append:
 err_openoptab_append:
 err_add_new_fd_tx_with_ref:
+    if (DO_UNLINK(oflag)) {
+        unlink(abs_path);
+    }
     TEMP_FAILURE_RETRY(close(fildes));
 err_open:
     free(abs_path);
-- 
2.43.0


From 8e936041dd5539a5f8ea75741649a9c2d9f9226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 17/95] fix: Move left-hand-side branch when inserting equal
 keys into txmultiset

Inserting an entry with an existing key left the existing entry's 'lt'
branch in place, so the branch was part of the tree twice, and its parent
pointer was out-dated.
---
 modules/txlib/src/txmultiset_entry.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/txlib/src/txmultiset_entry.c b/modules/txlib/src/txmultiset_entry.c
index f23cdcf..1a70064 100644
--- a/modules/txlib/src/txmultiset_entry.c
+++ b/modules/txlib/src/txmultiset_entry.c
@@ -212,6 +212,12 @@ insert_at(struct txmultiset_entry* entry, struct txmultiset_entry* position)
         position->internal.parent->internal.ge = entry;
     }
 
+    /* The left-hand-side branch moved from 'position' to 'entry'. */
+    if (entry->internal.lt) {
+        entry->internal.lt->internal.parent = entry;
+    }
+
+    position->internal.lt = NULL;
     position->internal.parent = entry;
 }
 
-- 
2.43.0


From 53fd12eb9876cf4b7e621f42ba80f7432e88e117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 18/95] fix: Return documented entries from txmultiset's lower
 and upper bound

The lower bound is the first entry with the key, not the one in front of
it. The upper bound is the entry after the final entry with the key, or the
terminator entry.
---
 modules/txlib/src/txmultiset_state.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/modules/txlib/src/txmultiset_state.c b/modules/txlib/src/txmultiset_state.c
index e732820..8017550 100644
--- a/modules/txlib/src/txmultiset_state.c
+++ b/modules/txlib/src/txmultiset_state.c
@@ -163,7 +163,7 @@ txmultiset_state_lower_bound(struct txmultiset_state* self, const void* key)
 
         int cmp = self->internal.compare(key, self->internal.key(pos));
         if (cmp) {
-            return pos;
+            break;
         }
 
         entry = pos;
@@ -186,7 +186,7 @@ txmultiset_state_upper_bound(struct txmultiset_state* self, const void* key)
         return entry;
     }
 
-    /* iterate to the last entry with the key */
+    /* iterate past the last entry with the key */
 
     struct txmultiset_entry* pos = txmultiset_entry_next(entry);
 
@@ -194,13 +194,11 @@ txmultiset_state_upper_bound(struct txmultiset_state* self, const void* key)
 
         int cmp = self->internal.compare(key, self->internal.key(pos));
         if (cmp) {
-            return pos;
+            break;
         }
-
-        entry = pos;
     }
 
-    return entry;
+    return pos;
 }
 
 size_t
-- 
2.43.0


From 5ee7c1dec418b53e9cb3c9a199a7a3f48f688ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 19/95] fix: Undo container operations that could not be logged

---
 modules/txlib/src/txlib_tx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/txlib/src/txlib_tx.c b/modules/txlib/src/txlib_tx.c
index d8c5e89..2fb1784 100644
--- a/modules/txlib/src/txlib_tx.c
+++ b/modules/txlib/src/txlib_tx.c
@@ -301,6 +301,10 @@ txlib_tx_append_events3(struct txlib_tx* self, size_t nevents,
 
         picotm_append_event(self->module, 0, beg - self->event, error);
         if (picotm_error_is_set(error)) {
+            /* The operation has already been executed, but it's not
+             * part of the log. It has to be undone here. */
+            struct picotm_error ignored_error = PICOTM_ERROR_INITIALIZER;
+            txlib_event_undo(beg, &ignored_error);
             return;
         }
     }
-- 
2.43.0


From 14f9d78d97968b69c3376b924d85090674a85382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 20/95] fix: Lock lists and multisets when returning their
 terminator entry

The terminator entry refers to the final entry. Without lock, iterating
from the end read state of concurrent transactions.
---
 modules/txlib/src/txlist.c        | 14 +++++++++++++-
 modules/txlib/src/txlist_tx.c     | 10 +++++++++-
 modules/txlib/src/txlist_tx.h     |  2 +-
 modules/txlib/src/txmultiset.c    | 14 +++++++++++++-
 modules/txlib/src/txmultiset_tx.c | 10 +++++++++-
 modules/txlib/src/txmultiset_tx.h |  2 +-
 6 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/modules/txlib/src/txlist.c b/modules/txlib/src/txlist.c
index 79acb72..145400f 100644
--- a/modules/txlib/src/txlist.c
+++ b/modules/txlib/src/txlist.c
@@ -94,7 +94,19 @@ PICOTM_EXPORT
 struct txlist_entry*
 txlist_end_tx(struct txlist* self)
 {
-    return txlist_tx_exec_end(list_tx_of_list(self));
+    struct txlist_tx* list_tx = list_tx_of_list(self);
+
+retry:
+    {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        struct txlist_entry* end =
+            txlist_tx_exec_end(list_tx, &error);
+        if (picotm_error_is_set(&error)) {
+            picotm_recover_from_error(&error);
+            goto retry;
+        }
+        return end;
+    }
 }
 
 /*
diff --git a/modules/txlib/src/txlist_tx.c b/modules/txlib/src/txlist_tx.c
index 04be843..8b41c75 100644
--- a/modules/txlib/src/txlist_tx.c
+++ b/modules/txlib/src/txlist_tx.c
@@ -71,10 +71,18 @@ txlist_tx_exec_begin(struct txlist_tx* self, struct picotm_error* error)
  */
 
 struct txlist_entry*
-txlist_tx_exec_end(struct txlist_tx* self)
+txlist_tx_exec_end(struct txlist_tx* self, struct picotm_error* error)
 {
     assert(self);
 
+    /* The terminator entry leads to the final entry. */
+    picotm_rwstate_try_rdlock(&self->state,
+                              &self->list_state->internal.lock,
+                              error);
+    if (picotm_error_is_set(error)) {
+        return NULL;
+    }
+
     return txlist_state_end(self->list_state);
 }
 
diff --git a/modules/txlib/src/txlist_tx.h b/modules/txlib/src/txlist_tx.h
index 44082f4..78f9aa4 100644
--- a/modules/txlib/src/txlist_tx.h
+++ b/modules/txlib/src/txlist_tx.h
@@ -64,7 +64,7 @@ txlist_tx_exec_begin(struct txlist_tx* self, struct picotm_error* error);
  */
 
 struct txlist_entry*
-txlist_tx_exec_end(struct txlist_tx* self);
+txlist_tx_exec_end(struct txlist_tx* self, struct picotm_error* error);
 
 /*
  * Test for list emptiness
diff --git a/modules/txlib/src/txmultiset.c b/modules/txlib/src/txmultiset.c
index d11b1e1..3eefc5a 100644
--- a/modules/txlib/src/txmultiset.c
+++ b/modules/txlib/src/txmultiset.c
@@ -94,7 +94,19 @@ PICOTM_EXPORT
 struct txmultiset_entry*
 txmultiset_end_tx(struct txmultiset* self)
 {
-    return txmultiset_tx_exec_end(multiset_tx_of_multiset(self));
+    struct txmultiset_tx* multiset_tx = multiset_tx_of_multiset(self);
+
+retry:
+    {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        struct txmultiset_entry* end =
+            txmultiset_tx_exec_end(multiset_tx, &error);
+        if (picotm_error_is_set(&error)) {
+            picotm_recover_from_error(&error);
+            goto retry;
+        }
+        return end;
+    }
 }
 
 /*
diff --git a/modules/txlib/src/txmultiset_tx.c b/modules/txlib/src/txmultiset_tx.c
index 1724807..5dc5b62 100644
--- a/modules/txlib/src/txmultiset_tx.c
+++ b/modules/txlib/src/txmultiset_tx.c
@@ -73,10 +73,18 @@ txmultiset_tx_exec_begin(struct txmultiset_tx* self,
  */
 
 struct txmultiset_entry*
-txmultiset_tx_exec_end(struct txmultiset_tx* self)
+txmultiset_tx_exec_end(struct txmultiset_tx* self, struct picotm_error* error)
 {
     assert(self);
 
+    /* The terminator entry leads to the final entry. */
+    picotm_rwstate_try_rdlock(&self->state,
+                              &self->multiset_state->internal.lock,
+                              error);
+    if (picotm_error_is_set(error)) {
+        return NULL;
+    }
+
     return txmultiset_state_end(self->multiset_state);
 }
 
diff --git a/modules/txlib/src/txmultiset_tx.h b/modules/txlib/src/txmultiset_tx.h
index e12a2f1..1a3abe3 100644
--- a/modules/txlib/src/txmultiset_tx.h
+++ b/modules/txlib/src/txmultiset_tx.h
@@ -66,7 +66,7 @@ txmultiset_tx_exec_begin(struct txmultiset_tx* self,
  */
 
 struct txmultiset_entry*
-txmultiset_tx_exec_end(struct txmultiset_tx* self);
+txmultiset_tx_exec_end(struct txmultiset_tx* self, struct picotm_error* error);
 
 /*
  * Test for multiset emptiness
-- 
2.43.0


From 6dbb8668d2726b2d660f81dd2a50b000e874b651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:07 +0000
Subject: [PATCH 21/95] fix: Don't shift keys by more than their size in
 picotm_treemap

With a tree that covers all bits of a key, the look-up shifted the key by
64 or more bits and extended the tree again, so that values got lost.
---
 src/picotm-lib-treemap.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/picotm-lib-treemap.c b/src/picotm-lib-treemap.c
index 16318d5..b7f4574 100644
--- a/src/picotm-lib-treemap.c
+++ b/src/picotm-lib-treemap.c
@@ -225,7 +225,13 @@ static unsigned long long
 key_depth_prefix(unsigned long long key, unsigned long depth,
                  unsigned long level_nbits)
 {
-    return key >> (depth * level_nbits);
+    unsigned long nbits = depth * level_nbits;
+
+    if (nbits >= (sizeof(key) * CHAR_BIT)) {
+        return 0; /* no bits left in key */
+    }
+
+    return key >> nbits;
 }
 
 static unsigned long
-- 
2.43.0


From 407849ff7b56cec81e0449f75c74c91d7967ff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 22/95] fix: Don't declare interfaces as leaf functions

On glibc, __THROW contains the attribute 'leaf'. Functions that invoke
call-backs or restart transactions are not leaf functions; compilers may
otherwise keep variables of the caller's file in registers during calls.
---
 include/picotm/compiler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/picotm/compiler.h b/include/picotm/compiler.h
index 632934c..420ace1 100644
--- a/include/picotm/compiler.h
+++ b/include/picotm/compiler.h
@@ -71,7 +71,9 @@
  * \def PICOTM_NOTHROW
  * Exported function does not throw exceptions.
  */
-#ifdef __THROW
+#if defined(__THROWNL) /* nothrow, but not a 'leaf' function */
+    #define PICOTM_NOTHROW  __THROWNL
+#elif defined(__THROW)
     #define PICOTM_NOTHROW  __THROW
 #else
     #define PICOTM_NOTHROW
-- 
2.43.0


From bf740a1c9b88b39e4d48aed1df7870ce8bd895f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 23/95] fix: Stop memccpy_tx() behind the searched character

---
 modules/libc/src/string.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 54a854a..7b30c66 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -46,12 +46,13 @@ memccpy_tx(void* restrict dest, const void* restrict src, int c, size_t n)
 
         size_t siz = n > sizeof(buf) ? sizeof(buf) : n;
 
-        load_tx(src8, buf, siz);
-
+        /* Memory behind 'c' is not part of the copied memory */
         for (size_t i = 0; i < siz; ++i) {
-            if (buf[i] == c) {
+            load_tx(src8 + i, buf + i, 1);
+            if (buf[i] == (uint8_t)c) {
                 dest = dest8 + i + 1; /* Return the location after 'c' */
-                siz = i; /* Stop looping */
+                siz = i + 1; /* 'c' is part of the copied memory */
+                n = siz; /* Stop looping */
             }
         }
 
-- 
2.43.0


From 9fa89073498014f0f3e0abe4ad50c7f491803645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 24/95] fix: Support overlapping memory in memmove_tx()

---
 modules/libc/src/string.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 7b30c66..831db48 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -105,6 +105,23 @@ memmove_tx(void* dest, const void* src, size_t n)
     uint8_t* dest8 = dest;
     const uint8_t* src8 = src;
 
+    if ((uintptr_t)dest8 > (uintptr_t)src8) {
+
+        /* Copy backwards to not overwrite the source memory */
+        while (n) {
+
+            uint8_t buf[32];
+
+            size_t siz = n > sizeof(buf) ? sizeof(buf) : n;
+
+            n -= siz;
+
+            load_tx(src8 + n, buf, siz);
+            store_tx(dest8 + n, buf, siz);
+        }
+        return dest;
+    }
+
     while (n) {
 
         uint8_t buf[32];
-- 
2.43.0


From 540a55f5b28d548b17adfefc8245c543bb335cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 25/95] fix: Terminate strings and return their end in
 stpcpy_tx() and stpncpy_tx()

---
 modules/libc/src/string.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 831db48..84105fa 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -184,14 +184,31 @@ rawmemchr_tx(const void* s, int c)
  * String functions
  */
 
+/* Privatizes a string of at most n characters for loading. Memory behind
+ * the n-th character or the terminating '\0' is not touched. Returns the
+ * string's length, or n if there is no terminating '\0'.
+ */
+static size_t
+privatize_strn(const char* s, size_t n)
+{
+    for (size_t len = 0; len < n; ++len) {
+        privatize_tx(s + len, sizeof(*s), PICOTM_TM_PRIVATIZE_LOAD);
+        if (!s[len]) {
+            return len;
+        }
+    }
+    return n;
+}
+
 #if defined(PICOTM_LIBC_HAVE_STPCPY) && PICOTM_LIBC_HAVE_STPCPY
 PICOTM_EXPORT
 char*
 stpcpy_tx(char* restrict dest, const char* restrict src)
 {
     privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    store_tx(dest, src, strlen(src));
-    return dest;
+    size_t len = strlen(src);
+    store_tx(dest, src, len + 1);
+    return dest + len;
 }
 #endif
 
@@ -200,15 +217,10 @@ PICOTM_EXPORT
 char*
 stpncpy_tx(char* restrict dest, const char* restrict src, size_t n)
 {
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    size_t len = strlen(src) + 1;
-    if (len < n) {
-        store_tx(dest, src, len);
-        memset_tx(dest + len, 0, n - len);
-    } else {
-        store_tx(dest, src, n);
-    }
-    return dest;
+    size_t len = privatize_strn(src, n);
+    store_tx(dest, src, len);
+    memset_tx(dest + len, 0, n - len);
+    return dest + len;
 }
 #endif
 
-- 
2.43.0


From b1634bdfb89431b4685088a78d6533f648fc3788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 26/95] fix: Only privatize the string in strchr_tx()

---
 modules/libc/src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 84105fa..5964526 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -243,7 +243,7 @@ PICOTM_EXPORT
 char*
 strchr_tx(const char* s, int c)
 {
-    privatize_c_tx(s, c, PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     return strchr_tm(s, c);
 }
 #endif
-- 
2.43.0


From 557c7c4ba02ccc6348115142a7ac4943d0e9c0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 27/95] fix: Privatize the rejected characters in strcspn_tx()

---
 modules/libc/src/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 5964526..9d55b09 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -287,6 +287,7 @@ size_t
 strcspn_tx(const char* s, const char* reject)
 {
     privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_tx(reject, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     return strcspn(s, reject);
 }
 #endif
-- 
2.43.0


From 2d880b69be71998bb10c50fc35c0c7f4ea7926fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 28/95] fix: Respect the maximum length in strn*_tx() and pad
 strncpy_tx()

---
 modules/libc/src/string.c | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 9d55b09..b76350c 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -336,15 +336,10 @@ char*
 strncat_tx(char* restrict dest, const char* restrict src, size_t n)
 {
     privatize_c_tx(dest, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     size_t dlen = strlen(dest);
-    size_t slen = strlen(src) + 1;
-    if (n < slen) {
-        store_tx(dest + dlen, src, n);
-        memset_tx(dest + dlen + n, '\0', 1);
-    } else {
-        store_tx(dest + dlen, src, slen);
-    }
+    size_t slen = privatize_strn(src, n);
+    store_tx(dest + dlen, src, slen);
+    memset_tx(dest + dlen + slen, '\0', 1);
     return dest;
 }
 #endif
@@ -354,8 +349,8 @@ PICOTM_EXPORT
 int
 strncmp_tx(const char* s1, const char* s2, size_t n)
 {
-    privatize_c_tx(s1, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    privatize_c_tx(s2, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_strn(s1, n);
+    privatize_strn(s2, n);
     return strncmp(s1, s2, n);
 }
 #endif
@@ -365,13 +360,9 @@ PICOTM_EXPORT
 char*
 strncpy_tx(char* restrict dest, const char* restrict src, size_t n)
 {
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    size_t len = strlen(src) + 1;
-    if (len < n) {
-        store_tx(dest, src, len);
-    } else {
-        store_tx(dest, src, n);
-    }
+    size_t len = privatize_strn(src, n);
+    store_tx(dest, src, len);
+    memset_tx(dest + len, '\0', n - len);
     return dest;
 }
 #endif
@@ -381,7 +372,7 @@ PICOTM_EXPORT
 char*
 strndup_tx(const char* s, size_t n)
 {
-    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_strn(s, n);
     return strndup_tm(s, n);
 }
 #endif
@@ -391,8 +382,7 @@ PICOTM_EXPORT
 size_t
 strnlen_tx(const char* s, size_t maxlen)
 {
-    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    return strnlen(s, maxlen);
+    return privatize_strn(s, maxlen);
 }
 #endif
 
-- 
2.43.0


From cffa0aa4f69f50f8b6c2c152e0234299583ba71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 29/95] fix: Terminate the result of strndup_tx() within its
 bounds

---
 modules/libc/src/string-tm.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/modules/libc/src/string-tm.c b/modules/libc/src/string-tm.c
index b93d483..cb83b00 100644
--- a/modules/libc/src/string-tm.c
+++ b/modules/libc/src/string-tm.c
@@ -357,16 +357,14 @@ strndup_tm(const char* s, size_t n)
         picotm_recover_from_error(&error);
     } while (true);
 
-    size_t len = strlen(s) + sizeof(*s);
-    if (n < len) {
-        len = n + sizeof(*s);
-    }
+    size_t len = strnlen(s, n);
 
     void* mem;
 
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_posix_memalign(&mem, 2 * sizeof(void*), len, &error);
+        allocator_module_posix_memalign(&mem, 2 * sizeof(void*),
+                                        len + sizeof(*s), &error);
         if (!picotm_error_is_set(&error)) {
             break;
         }
@@ -374,9 +372,7 @@ strndup_tm(const char* s, size_t n)
     } while (true);
 
     char* s2 = memcpy(mem, s, len);
-    if (n < len) {
-        s2[n + 1] = '\0';
-    }
+    s2[len] = '\0';
     return s2;
 }
 #endif
-- 
2.43.0


From a967c7e0d7b9bb23b0b0d505976b04c33e8a2fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 30/95] fix: Continue in and write to the string in
 strtok_r_tx()

---
 modules/libc/src/string.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index b76350c..53d4858 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -435,12 +435,16 @@ char*
 strtok_r_tx(char* restrict str, const char* restrict delim,
             char** restrict saveptr)
 {
-    privatize_c_tx(str, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    char* ptr = load_ptr_tx(saveptr);
+
+    /* The string is stored in saveptr if str is NULL */
+    if (str || ptr) {
+        privatize_c_tx(str ? str : ptr, '\0', PICOTM_TM_PRIVATIZE_LOADSTORE);
+    }
     privatize_c_tx(delim, '\0', PICOTM_TM_PRIVATIZE_LOAD);
 
-    char* ptr = load_ptr_tx(saveptr);
     char* tok = strtok_r(str, delim, &ptr);
-    store_ptr_tx(saveptr, &ptr);
+    store_ptr_tx(saveptr, ptr);
 
     return tok;
 }
-- 
2.43.0


From e023ebd1aade31f6f5d1cc88f3e7842344ae54a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 31/95] fix: Fetch all arguments of printf formats in
 vsnprintf_tx()

---
 modules/libc/src/stdio.c | 271 ++++++++++++++++++++++++++++-----------
 1 file changed, 198 insertions(+), 73 deletions(-)

diff --git a/modules/libc/src/stdio.c b/modules/libc/src/stdio.c
index 3796e4c..758ee54 100644
--- a/modules/libc/src/stdio.c
+++ b/modules/libc/src/stdio.c
@@ -23,7 +23,11 @@
 #include "picotm/picotm-tm.h"
 #include "picotm/stdio-tm.h"
 #include <errno.h>
+#include <stdbool.h>
+#include <stddef.h>
+#include <stdint.h>
 #include <string.h>
+#include <wchar.h>
 #include "error/module.h"
 
 #if defined(PICOTM_LIBC_HAVE_SNPRINTF) && PICOTM_LIBC_HAVE_SNPRINTF
@@ -56,111 +60,232 @@ sscanf_tx(const char* s, const char* format, ...)
 }
 #endif
 
+enum length_modifier {
+    LENGTH_NONE,
+    LENGTH_HH,
+    LENGTH_H,
+    LENGTH_L,
+    LENGTH_LL,
+    LENGTH_J,
+    LENGTH_Z,
+    LENGTH_T,
+    LENGTH_LONG_DOUBLE
+};
+
+/* Parses the length modifier at the beginning of 'pos' and returns the
+ * position behind it. */
+static const char*
+parse_length_modifier(const char* pos, enum length_modifier* length)
+{
+    switch (*pos) {
+        case 'h':
+            if (pos[1] == 'h') {
+                *length = LENGTH_HH;
+                return pos + 2;
+            }
+            *length = LENGTH_H;
+            return pos + 1;
+        case 'l':
+            if (pos[1] == 'l') {
+                *length = LENGTH_LL;
+                return pos + 2;
+            }
+            *length = LENGTH_L;
+            return pos + 1;
+        case 'j':
+            *length = LENGTH_J;
+            return pos + 1;
+        case 'z':
+            *length = LENGTH_Z;
+            return pos + 1;
+        case 't':
+            *length = LENGTH_T;
+            return pos + 1;
+        case 'L':
+            *length = LENGTH_LONG_DOUBLE;
+            return pos + 1;
+        default:
+            *length = LENGTH_NONE;
+            return pos;
+    }
+}
+
+static size_t
+size_of_integer(enum length_modifier length)
+{
+    switch (length) {
+        case LENGTH_HH:
+            return sizeof(char);
+        case LENGTH_H:
+            return sizeof(short);
+        case LENGTH_L:
+            return sizeof(long);
+        case LENGTH_LL: case LENGTH_LONG_DOUBLE:
+            return sizeof(long long);
+        case LENGTH_J:
+            return sizeof(intmax_t);
+        case LENGTH_Z:
+            return sizeof(size_t);
+        case LENGTH_T:
+            return sizeof(ptrdiff_t);
+        default:
+            return sizeof(int);
+    }
+}
+
+static void
+privatize_str(const char* s, bool has_maxlen, size_t maxlen)
+{
+    if (!s) {
+        return;
+    } else if (!has_maxlen) {
+        privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+        return;
+    }
+    for (; maxlen; --maxlen, ++s) {
+        privatize_tx(s, sizeof(*s), PICOTM_TM_PRIVATIZE_LOAD);
+        if (!*s) {
+            return;
+        }
+    }
+}
+
+static void
+privatize_wstr(const wchar_t* s, bool has_maxlen, size_t maxlen)
+{
+    if (!s) {
+        return;
+    }
+    for (; !has_maxlen || maxlen; --maxlen, ++s) {
+        privatize_tx(s, sizeof(*s), PICOTM_TM_PRIVATIZE_LOAD);
+        if (!*s) {
+            return;
+        }
+    }
+}
+
+/* Privatizes the arguments' memory. Has to fetch all arguments to find
+ * the correct ones. */
 static void
 privatize_printf_args(const char* format, va_list arg)
 {
-    while (format) {
+    while (true) {
 
         const char* pos = strchr(format, '%');
         if (!pos) {
             return;
         }
+        ++pos;
 
-        switch (pos[1]) {
+        /* flags */
+        pos += strspn(pos, "-+ #0'I");
 
-            case '%':
-                break;
+        /* field width */
+        if (*pos == '*') {
+            va_arg(arg, int);
+            ++pos;
+        } else {
+            pos += strspn(pos, "0123456789");
+        }
 
-            /*
-             * Conversion specifiers
-             */
+        /* precision */
+        bool has_prec = false;
+        size_t prec = 0;
+
+        if (*pos == '.') {
+            ++pos;
+            has_prec = true;
+            if (*pos == '*') {
+                int value = va_arg(arg, int);
+                has_prec = value >= 0;
+                prec = value >= 0 ? value : 0;
+                ++pos;
+            } else {
+                for (; *pos >= '0' && *pos <= '9'; ++pos) {
+                    prec = (prec * 10) + (*pos - '0');
+                }
+            }
+        }
 
-            case 'd': case 'i': case 'o': case 'u':
-            case 'x': case 'a': case 'e': case 'f':
-            case 'g':
-                break;
-            case 's':
-                privatize_c_tx(va_arg(arg, void**), '\0',
-                               PICOTM_TM_PRIVATIZE_LOAD);
-                break;
-            case 'n':
-                privatize_tx(va_arg(arg, int*), sizeof(int),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
+        enum length_modifier length;
+        pos = parse_length_modifier(pos, &length);
 
-            /*
-             * Length modifiers
-             */
+        switch (*pos) {
 
-            case 'l':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n': case 'a':
-                    case 'A': case 'e': case 'E': case 'f':
-                    case 'F': case 'g': case 'G': case 'c':
-                    case '[': case 'm':
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
-                }
-                ++pos;
+            case '%': case 'm':
                 break;
 
-            case 'j':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
+            case 'd': case 'i': case 'o': case 'u':
+            case 'x': case 'X':
+                switch (length) {
+                    case LENGTH_L:
+                        va_arg(arg, long);
+                        break;
+                    case LENGTH_LL: case LENGTH_LONG_DOUBLE:
+                        va_arg(arg, long long);
+                        break;
+                    case LENGTH_J:
+                        va_arg(arg, intmax_t);
+                        break;
+                    case LENGTH_Z:
+                        va_arg(arg, size_t);
+                        break;
+                    case LENGTH_T:
+                        va_arg(arg, ptrdiff_t);
                         break;
                     default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+                        va_arg(arg, int);
+                        break;
                 }
-                ++pos;
                 break;
 
-            case 'z':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case 'a': case 'A': case 'e': case 'E':
+            case 'f': case 'F': case 'g': case 'G':
+                if (length == LENGTH_LONG_DOUBLE) {
+                    va_arg(arg, long double);
+                } else {
+                    va_arg(arg, double);
                 }
-                ++pos;
                 break;
 
-            case 't':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case 'c':
+                if (length == LENGTH_L) {
+                    va_arg(arg, wint_t);
+                } else {
+                    va_arg(arg, int);
                 }
-                ++pos;
+                break;
+            case 'C':
+                va_arg(arg, wint_t);
                 break;
 
-            case 'L':
-                switch (pos[2]) {
-                    case 'a': case 'A': case 'e': case 'E':
-                    case 'f': case 'F': case 'g': case 'G':
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case 's':
+                if (length == LENGTH_L) {
+                    privatize_wstr(va_arg(arg, const wchar_t*), has_prec,
+                                   prec);
+                } else {
+                    privatize_str(va_arg(arg, const char*), has_prec, prec);
                 }
-                ++pos;
+                break;
+            case 'S':
+                privatize_wstr(va_arg(arg, const wchar_t*), has_prec, prec);
+                break;
+
+            case 'p':
+                va_arg(arg, void*);
+                break;
+
+            case 'n':
+                privatize_tx(va_arg(arg, void*), size_of_integer(length),
+                             PICOTM_TM_PRIVATIZE_STORE);
                 break;
 
             default:
                 picotm_recover_from_errno(EINVAL);
-                continue;
+                return;
         }
 
-        format = pos + 2;
+        format = pos + 1;
     }
 }
 
@@ -169,15 +294,15 @@ PICOTM_EXPORT
 int
 vsnprintf_tx(char* s, size_t n, const char* format, va_list ap)
 {
-    privatize_c_tx(s, n, PICOTM_TM_PRIVATIZE_STORE);
+    privatize_tx(s, n, PICOTM_TM_PRIVATIZE_STORE);
     privatize_c_tx(format, '\0', PICOTM_TM_PRIVATIZE_LOAD);
 
     va_list ap_copy;
     va_copy(ap_copy, ap);
     privatize_printf_args(format, ap_copy);
+    va_end(ap_copy);
 
     return vsnprintf_tm(s, n, format, ap);
-
 }
 #endif
 
-- 
2.43.0


From a0636ec824401659c48d807388901584d4c48b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 32/95] fix: Support field widths and length modifiers in
 vsscanf_tx()

---
 modules/libc/src/stdio.c | 192 +++++++++++++++------------------------
 1 file changed, 74 insertions(+), 118 deletions(-)

diff --git a/modules/libc/src/stdio.c b/modules/libc/src/stdio.c
index 758ee54..bc40810 100644
--- a/modules/libc/src/stdio.c
+++ b/modules/libc/src/stdio.c
@@ -306,155 +306,110 @@ vsnprintf_tx(char* s, size_t n, const char* format, va_list ap)
 }
 #endif
 
+/* Privatizes the arguments' memory. 'maxlen' is the length of the input. */
 static void
-privatize_scanf_args(const char* format, va_list arg)
+privatize_scanf_args(const char* format, size_t maxlen, va_list arg)
 {
-    while (format) {
+    while (true) {
 
         const char* pos = strchr(format, '%');
         if (!pos) {
             return;
         }
+        ++pos;
 
-        switch (pos[1]) {
+        /* assignment suppression */
+        bool suppress = false;
 
-            case '%':
-                break;
+        if (*pos == '*') {
+            suppress = true;
+            ++pos;
+        }
 
-            /*
-             * Conversion specifiers
-             */
+        /* field width, limited by the length of the input */
+        bool has_width = false;
+        size_t width = 0;
 
-            case 'd':
-                privatize_tx(va_arg(arg, int*), sizeof(int),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'i':
-                privatize_tx(va_arg(arg, int*), sizeof(int),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'o':
-                privatize_tx(va_arg(arg, unsigned*), sizeof(unsigned),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'u':
-                privatize_tx(va_arg(arg, unsigned*), sizeof(unsigned),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'x':
-                privatize_tx(va_arg(arg, unsigned*), sizeof(unsigned),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'a': case 'e': case 'f':
-                /* fall through */
-            case 'g':
-                privatize_tx(va_arg(arg, float*), sizeof(float),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'p':
-                privatize_tx(va_arg(arg, void**), sizeof(void*),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'n':
-                privatize_tx(va_arg(arg, int*), sizeof(int),
-                             PICOTM_TM_PRIVATIZE_STORE);
+        for (; *pos >= '0' && *pos <= '9'; ++pos) {
+            has_width = true;
+            width = (width * 10) + (*pos - '0');
+            if (width > maxlen) {
+                width = maxlen;
+            }
+        }
+
+        enum length_modifier length;
+        pos = parse_length_modifier(pos, &length);
+
+        size_t siz = 0;
+
+        switch (*pos) {
+
+            case '%':
+                suppress = true;
                 break;
 
-            /*
-             * Length modifiers
-             */
+            case 'd': case 'i': case 'o': case 'u':
+            case 'x': case 'X': case 'n':
+                siz = size_of_integer(length);
+                break;
 
-            case 'l':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        privatize_tx(va_arg(arg, long*), sizeof(long),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    case 'a': case 'A': case 'e': case 'E':
-                    case 'f': case 'F': case 'g': case 'G':
-                        privatize_tx(va_arg(arg, double*), sizeof(double),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    case 'c': case 's': case '[':
-                        privatize_tx(va_arg(arg, wchar_t*), sizeof(wchar_t),
-                                     PICOTM_TM_PRIVATIZE_STORE);
+            case 'a': case 'A': case 'e': case 'E':
+            case 'f': case 'F': case 'g': case 'G':
+                switch (length) {
+                    case LENGTH_LONG_DOUBLE:
+                        siz = sizeof(long double);
                         break;
-                    case 'm':
-                        privatize_tx(va_arg(arg, wchar_t**), sizeof(wchar_t*),
-                                     PICOTM_TM_PRIVATIZE_STORE);
+                    case LENGTH_L:
+                        siz = sizeof(double);
                         break;
                     default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
-                }
-                ++pos;
-                break;
-
-            case 'j':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        privatize_tx(va_arg(arg, intmax_t*), sizeof(intmax_t),
-                                     PICOTM_TM_PRIVATIZE_STORE);
+                        siz = sizeof(float);
                         break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
                 }
-                ++pos;
                 break;
 
-            case 'z':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        privatize_tx(va_arg(arg, size_t*), sizeof(size_t),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
-                }
-                ++pos;
+            case 'p':
+                siz = sizeof(void*);
                 break;
 
-            case 't':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        privatize_tx(va_arg(arg, ptrdiff_t*),
-                                     sizeof(ptrdiff_t),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
-                }
-                ++pos;
+            case 'c':
+                siz = has_width ? width : 1;
+                siz *= length == LENGTH_L ? sizeof(wchar_t) : sizeof(char);
                 break;
 
-            case 'L':
-                switch (pos[2]) {
-                    case 'a': case 'A': case 'e': case 'E':
-                    case 'f': case 'F': case 'g': case 'G':
-                        privatize_tx(va_arg(arg, long double*),
-                                     sizeof(long double),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
-                }
+            case '[':
                 ++pos;
+                if (*pos == '^') {
+                    ++pos;
+                }
+                /* A leading ']' is part of the set. */
+                pos = *pos ? strchr(pos + 1, ']') : NULL;
+                if (!pos) {
+                    picotm_recover_from_errno(EINVAL);
+                    return;
+                }
+                /* fall through */
+            case 's':
+                /* The output's size is unknown without field width. */
+                if (!has_width && !suppress) {
+                    picotm_recover_from_errno(EINVAL);
+                    return;
+                }
+                siz = width + 1;
+                siz *= length == LENGTH_L ? sizeof(wchar_t) : sizeof(char);
                 break;
 
             default:
                 picotm_recover_from_errno(EINVAL);
-                continue;
+                return;
+        }
+
+        if (!suppress) {
+            privatize_tx(va_arg(arg, void*), siz, PICOTM_TM_PRIVATIZE_STORE);
         }
 
-        format = pos + 2;
+        format = pos + 1;
     }
 }
 
@@ -468,7 +423,8 @@ vsscanf_tx(const char* s, const char* format, va_list arg)
 
     va_list arg_copy;
     va_copy(arg_copy, arg);
-    privatize_scanf_args(format, arg_copy);
+    privatize_scanf_args(format, strlen(s), arg_copy);
+    va_end(arg_copy);
 
     return vsscanf_tm(s, format, arg);
 }
-- 
2.43.0


From 33fe20da15515fdd57bb63cb48ef8b0f30b355ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 33/95] fix: Return EOF at the end of the input in vsscanf_tm()

---
 modules/libc/src/stdio-tm.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/stdio-tm.c b/modules/libc/src/stdio-tm.c
index f70919a..8f8caf8 100644
--- a/modules/libc/src/stdio-tm.c
+++ b/modules/libc/src/stdio-tm.c
@@ -93,11 +93,17 @@ vsscanf_tm(const char* s, const char* format, va_list arg)
     } while (true);
 
     do {
+        int saved_errno = errno;
+        errno = 0;
         int res = vsscanf(s, format, arg);
-        if (res < 0) {
+        /* Reaching the end of the input is not an error. */
+        if (res < 0 && errno) {
             picotm_recover_from_errno(errno);
             continue;
         }
+        if (!errno) {
+            errno = saved_errno;
+        }
         return res;
     } while (true);
 }
-- 
2.43.0


From 40b820b7cc7b09bee1124312df40af204cd76e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:11 +0000
Subject: [PATCH 34/95] fix: Declare strcat_tx() and strncat_tm() if they are
 available

---
 modules/libc/include/picotm/string-tm.h | 2 +-
 modules/libc/include/picotm/string.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/libc/include/picotm/string-tm.h b/modules/libc/include/picotm/string-tm.h
index a63c8e3..1dd8bad 100644
--- a/modules/libc/include/picotm/string-tm.h
+++ b/modules/libc/include/picotm/string-tm.h
@@ -264,7 +264,7 @@ size_t
 strlen_tm(const char* s);
 #endif
 
-#if defined(PICOTM_LIBC_HAVE_STRCAT) && PICOTM_LIBC_HAVE_STRCAT || \
+#if defined(PICOTM_LIBC_HAVE_STRNCAT) && PICOTM_LIBC_HAVE_STRNCAT || \
     defined(__PICOTM_DOXYGEN)
 PICOTM_NOTHROW
 /**
diff --git a/modules/libc/include/picotm/string.h b/modules/libc/include/picotm/string.h
index 4c01ad1..3b21988 100644
--- a/modules/libc/include/picotm/string.h
+++ b/modules/libc/include/picotm/string.h
@@ -181,7 +181,7 @@ char*
 stpncpy_tx(char* restrict dest, const char* restrict src, size_t n);
 #endif
 
-#if defined(PICOTM_LIBC_HAVE_STPCAT) && PICOTM_LIBC_HAVE_STPCAT || \
+#if defined(PICOTM_LIBC_HAVE_STRCAT) && PICOTM_LIBC_HAVE_STRCAT || \
     defined(__PICOTM_DOXYGEN)
 PICOTM_NOTHROW
 /**
-- 
2.43.0


From 09a219d6d047109905399b2f39da1bd018a54712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 35/95] fix: Preserve the error that a file operation reports

The file operations replaced conflicts by the current value of errno, so
that the transaction entered recovery instead of restarting. Record the
old file mode before changing it, so that each change can be undone.
---
 modules/libc/src/fildes/chrdev_tx_ops.c  |  1 -
 modules/libc/src/fildes/dir_tx_ops.c     | 18 +++++++++---------
 modules/libc/src/fildes/fifo_tx_ops.c    |  1 -
 modules/libc/src/fildes/regfile_tx_ops.c | 19 +++++++++----------
 modules/libc/src/fildes/socket_tx_ops.c  |  1 -
 5 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index 2d57a8a..7198936 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -164,7 +164,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     chrdev_tx_try_rdlock_field(self, CHRDEV_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/dir_tx_ops.c b/modules/libc/src/fildes/dir_tx_ops.c
index c6816bf..fb512ee 100644
--- a/modules/libc/src/fildes/dir_tx_ops.c
+++ b/modules/libc/src/fildes/dir_tx_ops.c
@@ -82,7 +82,6 @@ fchmod_exec(struct file_tx* base,
     /* Acquire file-mode lock. */
     dir_tx_try_wrlock_field(self, DIR_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
@@ -95,20 +94,22 @@ fchmod_exec(struct file_tx* base,
 
     mode_t old_mode = buf.st_mode & ~S_IFMT;
 
-    res = fchmod(fildes, mode);
-    if (res < 0) {
-        picotm_error_set_errno(error, errno);
-        return res;
-    }
-
-    *cookie = fchmodoptab_append(&self->fchmodtab,
+    int pos = fchmodoptab_append(&self->fchmodtab,
                                  &self->fchmodtablen,
                                  mode, old_mode,
                                  error);
     if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
+    res = fchmod(fildes, mode);
+    if (res < 0) {
         picotm_error_set_errno(error, errno);
+        return res;
     }
 
+    *cookie = pos;
+
     return res;
 }
 
@@ -223,7 +224,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     dir_tx_try_rdlock_field(self, DIR_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 4ae4b53..0579b76 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -163,7 +163,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     fifo_tx_try_rdlock_field(self, FIFO_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 0a3edda..77e3860 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -86,7 +86,6 @@ fchmod_exec(struct file_tx* base,
     /* Acquire file-mode lock. */
     regfile_tx_try_wrlock_field(self, REGFILE_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
@@ -99,20 +98,22 @@ fchmod_exec(struct file_tx* base,
 
     mode_t old_mode = buf.st_mode & ~S_IFMT;
 
-    res = fchmod(fildes, mode);
-    if (res < 0) {
-        picotm_error_set_errno(error, errno);
-        return res;
-    }
-
-    *cookie = fchmodoptab_append(&self->fchmodtab,
+    int pos = fchmodoptab_append(&self->fchmodtab,
                                  &self->fchmodtablen,
                                  mode, old_mode,
                                  error);
     if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
+    res = fchmod(fildes, mode);
+    if (res < 0) {
         picotm_error_set_errno(error, errno);
+        return res;
     }
 
+    *cookie = pos;
+
     return res;
 }
 
@@ -231,7 +232,6 @@ fstat_exec(struct file_tx* base,
 
     regfile_tx_try_rdlock_field(self, REGFILE_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
     seekbuf_tx_try_rdlock_field(seekbuf_tx, SEEKBUF_FIELD_FILE_SIZE, error);
@@ -725,7 +725,6 @@ read_exec(struct file_tx* base,
 
     ssize_t res = do_pread(fildes, buf, nbyte, offset, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return res;
     }
     size_t len = res;
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 60b73ac..92e460a 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -226,7 +226,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     socket_tx_try_rdlock_field(self, SOCKET_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
-- 
2.43.0


From f99c60135141b424ac66a8f98f9213663d60e7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 36/95] fix: Return the file size from fstat_tx()

The size was read-locked before it was loaded, so fstat_tx() considered it
as loaded and returned 0.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 77e3860..18a81f0 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -234,12 +234,8 @@ fstat_exec(struct file_tx* base,
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    seekbuf_tx_try_rdlock_field(seekbuf_tx, SEEKBUF_FIELD_FILE_SIZE, error);
-    if (picotm_error_is_set(error)) {
-        return -1;
-    }
 
-    /* get transaction-local file size */
+    /* read-lock and get transaction-local file size */
     off_t file_size = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
     if (picotm_error_is_set(error)) {
         return -1;
-- 
2.43.0


From 8600ff3b4dad5dbceb384ef8c0b7b7d47c3df562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 37/95] fix: Move the file offset to the result of lseek_tx()

During commit, lseek_tx() repeated the original call, which gives a
different offset if the file's offset or size has changed since.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 18a81f0..310d2f5 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -394,7 +394,7 @@ lseek_exec(struct file_tx* base,
     if (cookie) {
         *cookie = seekoptab_append(&self->seektab,
                                    &self->seektablen,
-                                   from, offset, whence,
+                                   from, to, SEEK_SET,
                                    error);
         if (picotm_error_is_set(error)) {
             return (off_t)-1;
-- 
2.43.0


From dc4d8eb52271ad197fa2816dc09ac20f15012a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 38/95] fix: Advance the file offset by the number of bytes
 read

A short read moved the file offset by the number of requested bytes at
commit.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 310d2f5..8a67534 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -741,7 +741,7 @@ read_exec(struct file_tx* base,
     }
 
     /* add buf to write set */
-    *cookie = seekbuf_tx_append_to_readset(seekbuf_tx, nbyte, offset, buf,
+    *cookie = seekbuf_tx_append_to_readset(seekbuf_tx, res, offset, buf,
                                            error);
     if (picotm_error_is_set(error)) {
         return -1;
-- 
2.43.0


From f73e02904a959aa027886875aa4ce2e85b5281a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 39/95] fix: Don't extend files in writes of zero bytes

---
 modules/libc/src/fildes/regfile_tx_ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 8a67534..410fc55 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -662,7 +662,7 @@ pwrite_exec(struct file_tx* base,
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    if (file_size < (off_t)(offset + len)) {
+    if (len && (file_size < (off_t)(offset + len))) {
         seekbuf_tx_set_file_size(seekbuf_tx, offset + len, error);
         if (picotm_error_is_set(error)) {
             return -1;
@@ -847,7 +847,7 @@ write_exec(struct file_tx* base,
         return -1;
     }
 
-    if (file_size < (off_t)(offset + len)) {
+    if (len && (file_size < (off_t)(offset + len))) {
         seekbuf_tx_set_file_size(seekbuf_tx, offset + len, error);
         if (picotm_error_is_set(error)) {
             return -1;
-- 
2.43.0


From e457feffff317d40c0b8eb5f32a573ff0b910393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:04 +0000
Subject: [PATCH 40/95] fix: Consider the file size in reads at the end of the
 file

Bytes between the end of the file and the transaction's own writes were
not set to zero, and the file could grow between two short reads.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 75 ++++++++++++++++--------
 1 file changed, 50 insertions(+), 25 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 410fc55..10af125 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -519,6 +519,54 @@ do_pread(int fildes, void* buf, size_t nbyte, off_t offset,
     return pos - beg;
 }
 
+static ssize_t
+read_region(struct regfile_tx* self, int fildes, void* buf, size_t nbyte,
+            off_t offset, struct picotm_error* error)
+{
+    struct seekbuf_tx* seekbuf_tx = self->seekbuf_tx;
+
+    /* read from file */
+
+    ssize_t len = do_pread(fildes, buf, nbyte, offset, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
+    if (len < (ssize_t)nbyte) {
+
+        /* The end of the file is within the region, so the result depends
+         * on the file size. Read again, as the file could have grown until
+         * we acquired the lock. */
+
+        off_t file_size = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
+        if (picotm_error_is_set(error)) {
+            return -1;
+        }
+
+        len = do_pread(fildes, buf, nbyte, offset, error);
+        if (picotm_error_is_set(error)) {
+            return -1;
+        }
+
+        /* Our own writes could have extended the file beyond its end;
+         * anything in between reads as zero. */
+
+        ssize_t avail = llclamp(0, file_size - offset, nbyte);
+
+        if (len < avail) {
+            memset((uint8_t*)buf + len, 0, avail - len);
+            len = avail;
+        }
+    }
+
+    /* read from local write set */
+
+    ssize_t len2 = iooptab_read(seekbuf_tx->wrtab, seekbuf_tx->wrtablen,
+                                buf, nbyte, offset, seekbuf_tx->wrbuf);
+
+    return llmax(len, len2);
+}
+
 static ssize_t
 pread_exec(struct file_tx* base,
            int fildes, void* buf, size_t nbyte, off_t offset,
@@ -533,19 +581,7 @@ pread_exec(struct file_tx* base,
         return -1;
     }
 
-    /* read from file */
-    ssize_t res = do_pread(fildes, buf, nbyte, offset, error);
-    if (picotm_error_is_set(error)) {
-        return res;
-    }
-    size_t len = res;
-
-    /* read from local write set */
-    size_t len2 = iooptab_read(seekbuf_tx->wrtab,
-                               seekbuf_tx->wrtablen,
-                               buf, nbyte, offset, seekbuf_tx->wrbuf);
-
-    return llmax(len, len2);
+    return read_region(self, fildes, buf, nbyte, offset, error);
 }
 
 /*
@@ -717,21 +753,10 @@ read_exec(struct file_tx* base,
         return -1;
     }
 
-    /* read from file */
-
-    ssize_t res = do_pread(fildes, buf, nbyte, offset, error);
+    ssize_t res = read_region(self, fildes, buf, nbyte, offset, error);
     if (picotm_error_is_set(error)) {
         return res;
     }
-    size_t len = res;
-
-    /* read from local write set */
-
-    ssize_t len2 = iooptab_read(seekbuf_tx->wrtab,
-                                seekbuf_tx->wrtablen, buf, nbyte, offset,
-                                seekbuf_tx->wrbuf);
-
-    res = llmax(len, len2);
 
     /* update file offset */
 
-- 
2.43.0


From b84eb9c65b0f5e786116ee73e8e1c9eba835435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:22 +0000
Subject: [PATCH 41/95] fix: Report errors of writes to regular files when they
 happen

Writing to a descriptor that is not open for writing, or at a negative
offset, failed during the commit. Writes to descriptors with O_APPEND
went to the file offset in the transaction's view of the file.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 51 ++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 10af125..d2f364c 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -24,6 +24,7 @@
 #include "picotm/picotm-lib-ptr.h"
 #include <assert.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <stdlib.h>
 #include <string.h>
 #include <sys/stat.h>
@@ -496,7 +497,9 @@ do_pread(int fildes, void* buf, size_t nbyte, off_t offset,
     const uint8_t* end = beg + nbyte;
     off_t off = offset;
 
-    while (pos < end) {
+    /* Even reading zero bytes reports errors. */
+
+    do {
 
         ssize_t res = TEMP_FAILURE_RETRY(pread(fildes, pos, end - pos, off));
         if (res < 0) {
@@ -514,7 +517,8 @@ do_pread(int fildes, void* buf, size_t nbyte, off_t offset,
 
         off += res;
         pos += res;
-    }
+
+    } while (pos < end);
 
     return pos - beg;
 }
@@ -575,6 +579,11 @@ pread_exec(struct file_tx* base,
     struct regfile_tx* self = regfile_tx_of_file_tx(base);
     struct seekbuf_tx* seekbuf_tx = self->seekbuf_tx;
 
+    if (offset < 0) {
+        picotm_error_set_errno(error, EINVAL);
+        return -1;
+    }
+
     /* lock region */
     seekbuf_tx_try_rdlock_region(seekbuf_tx, nbyte, offset, error);
     if (picotm_error_is_set(error)) {
@@ -623,6 +632,21 @@ pwrite_wait(int fildes, const void *buf, size_t nbyte, off_t off)
     return nbyte;
 }*/
 
+static int
+get_status_flags_for_write(int fildes, struct picotm_error* error)
+{
+    int flags = TEMP_FAILURE_RETRY(fcntl(fildes, F_GETFL));
+    if (flags < 0) {
+        picotm_error_set_errno(error, errno);
+        return -1;
+    }
+    if ((flags & O_ACCMODE) == O_RDONLY) {
+        picotm_error_set_errno(error, EBADF);
+        return -1;
+    }
+    return flags;
+}
+
 static ssize_t
 do_pwrite(int fildes, const void* buf, size_t nbyte, off_t offset,
           struct picotm_error* error)
@@ -668,6 +692,16 @@ pwrite_exec(struct file_tx* base,
         return -1;
     }
 
+    if (offset < 0) {
+        picotm_error_set_errno(error, EINVAL);
+        return -1;
+    }
+
+    get_status_flags_for_write(fildes, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
     /* lock region */
     seekbuf_tx_try_wrlock_region(seekbuf_tx, nbyte, offset, error);
     if (picotm_error_is_set(error)) {
@@ -830,7 +864,18 @@ write_exec(struct file_tx* base,
         return -1;
     }
 
-    off_t offset = regfile_tx_get_file_offset(self, fildes, error);
+    int flags = get_status_flags_for_write(fildes, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
+    off_t offset;
+
+    if ((flags & O_APPEND) && nbyte) {
+        offset = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
+    } else {
+        offset = regfile_tx_get_file_offset(self, fildes, error);
+    }
     if (picotm_error_is_set(error)) {
         return -1;
     }
-- 
2.43.0


From c0f5e9fb9a6e8ea0e92798ece4bd86170ddfc85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:13 +0000
Subject: [PATCH 42/95] fix: Return the results of F_GETFD, F_GETFL and F_GETLK
 from fcntl_tx()

Commands without argument stored their result through a NULL pointer;
F_GETLK did not return the lock to the caller.
---
 modules/libc/src/fcntl-tm.c | 25 ++++++++++++++++++++++---
 modules/libc/src/fcntl.c    | 27 ++++++++++++++++++++++++---
 2 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/modules/libc/src/fcntl-tm.c b/modules/libc/src/fcntl-tm.c
index fa1ac7f..bd7f1eb 100644
--- a/modules/libc/src/fcntl-tm.c
+++ b/modules/libc/src/fcntl-tm.c
@@ -78,7 +78,22 @@ fcntl_tm(int fildes, int cmd, ...)
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
             }
-            case F_GETLK:
+            case F_GETLK: {
+                union fcntl_arg val;
+                struct flock* f;
+                va_list arg;
+                va_start(arg, cmd);
+                f = va_arg(arg, struct flock*);
+                va_end(arg);
+
+                memcpy(&val.arg1, f, sizeof(val.arg1));
+
+                res = fildes_module_fcntl(fildes, cmd, &val, &error);
+                if (!picotm_error_is_set(&error)) {
+                    memcpy(f, &val.arg1, sizeof(val.arg1));
+                }
+                break;
+            }
             case F_SETLK:
             case F_SETLKW: {
                 union fcntl_arg val;
@@ -93,9 +108,13 @@ fcntl_tm(int fildes, int cmd, ...)
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
             }
-            default:
-                res = fildes_module_fcntl(fildes, cmd, NULL, &error);
+            default: {
+                union fcntl_arg val;
+                memset(&val, 0, sizeof(val));
+
+                res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
+            }
         }
         if (!picotm_error_is_set(&error)) {
             return res;
diff --git a/modules/libc/src/fcntl.c b/modules/libc/src/fcntl.c
index 6185624..14774df 100644
--- a/modules/libc/src/fcntl.c
+++ b/modules/libc/src/fcntl.c
@@ -80,7 +80,24 @@ fcntl_tx(int fildes, int cmd, ...)
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
             }
-            case F_GETLK:
+            case F_GETLK: {
+                union fcntl_arg val;
+                struct flock* f;
+                va_list arg;
+                va_start(arg, cmd);
+                f = va_arg(arg, struct flock*);
+                va_end(arg);
+
+                privatize_tx(f, sizeof(val.arg1),
+                             PICOTM_TM_PRIVATIZE_LOADSTORE);
+                memcpy(&val.arg1, f, sizeof(val.arg1));
+
+                res = fildes_module_fcntl(fildes, cmd, &val, &error);
+                if (!picotm_error_is_set(&error)) {
+                    memcpy(f, &val.arg1, sizeof(val.arg1));
+                }
+                break;
+            }
             case F_SETLK:
             case F_SETLKW: {
                 union fcntl_arg val;
@@ -96,9 +113,13 @@ fcntl_tx(int fildes, int cmd, ...)
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
             }
-            default:
-                res = fildes_module_fcntl(fildes, cmd, NULL, &error);
+            default: {
+                union fcntl_arg val;
+                memset(&val, 0, sizeof(val));
+
+                res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
+            }
         }
         if (!picotm_error_is_set(&error)) {
             return res;
-- 
2.43.0


From 666ddeeb0e37e3102fcbe0171900cf99538695d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:52 +0000
Subject: [PATCH 43/95] fix: Respect the argument of F_DUPFD in fcntl_tx()

---
 modules/libc/src/fcntl-tm.c         | 22 ++++++++++++++++++----
 modules/libc/src/fcntl.c            | 22 ++++++++++++++++++----
 modules/libc/src/fildes/fd_tx.c     |  6 ++----
 modules/libc/src/fildes/fd_tx.h     |  2 +-
 modules/libc/src/fildes/fildes_tx.c |  4 +++-
 modules/libc/src/fildes/fildes_tx.h |  1 +
 modules/libc/src/fildes/module.c    |  7 ++++---
 modules/libc/src/fildes/module.h    |  2 +-
 8 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/modules/libc/src/fcntl-tm.c b/modules/libc/src/fcntl-tm.c
index bd7f1eb..dbed02a 100644
--- a/modules/libc/src/fcntl-tm.c
+++ b/modules/libc/src/fcntl-tm.c
@@ -56,15 +56,29 @@ fcntl_tm(int fildes, int cmd, ...)
         int res;
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         switch (cmd) {
-            case F_DUPFD:
+            case F_DUPFD: {
                 /* Handle like dup() */
-                res = fildes_module_dup_internal(fildes, false, &error);
+                va_list arg;
+                va_start(arg, cmd);
+                int min_fildes = va_arg(arg, int);
+                va_end(arg);
+
+                res = fildes_module_dup_internal(fildes, false,
+                                                 min_fildes, &error);
                 break;
+            }
 #if defined(F_DUPFD_CLOEXEC)
-            case F_DUPFD_CLOEXEC:
+            case F_DUPFD_CLOEXEC: {
                 /* Handle like dup() with CLOEXEC */
-                res = fildes_module_dup_internal(fildes, true, &error);
+                va_list arg;
+                va_start(arg, cmd);
+                int min_fildes = va_arg(arg, int);
+                va_end(arg);
+
+                res = fildes_module_dup_internal(fildes, true,
+                                                 min_fildes, &error);
                 break;
+            }
 #endif
             case F_SETFD:
             case F_SETFL:
diff --git a/modules/libc/src/fcntl.c b/modules/libc/src/fcntl.c
index 14774df..5f3b71a 100644
--- a/modules/libc/src/fcntl.c
+++ b/modules/libc/src/fcntl.c
@@ -58,15 +58,29 @@ fcntl_tx(int fildes, int cmd, ...)
         int res;
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         switch (cmd) {
-            case F_DUPFD:
+            case F_DUPFD: {
                 /* Handle like dup() */
-                res = fildes_module_dup_internal(fildes, false, &error);
+                va_list arg;
+                va_start(arg, cmd);
+                int min_fildes = va_arg(arg, int);
+                va_end(arg);
+
+                res = fildes_module_dup_internal(fildes, false,
+                                                 min_fildes, &error);
                 break;
+            }
 #if defined(F_DUPFD_CLOEXEC)
-            case F_DUPFD_CLOEXEC:
+            case F_DUPFD_CLOEXEC: {
                 /* Handle like dup() with CLOEXEC */
-                res = fildes_module_dup_internal(fildes, true, &error);
+                va_list arg;
+                va_start(arg, cmd);
+                int min_fildes = va_arg(arg, int);
+                va_end(arg);
+
+                res = fildes_module_dup_internal(fildes, true,
+                                                 min_fildes, &error);
                 break;
+            }
 #endif
             case F_SETFD:
             case F_SETFL:
diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index e063034..576e99e 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -444,7 +444,7 @@ fd_tx_connect_undo(struct fd_tx* self, int sockfd, int cookie,
 
 int
 fd_tx_dup_exec(struct fd_tx* self,
-               int fildes, bool cloexec,
+               int fildes, bool cloexec, int min_fildes,
                bool isnoundo, int* cookie, struct picotm_error* error)
 {
     static const int fcntl_cmd[] = {
@@ -456,10 +456,8 @@ fd_tx_dup_exec(struct fd_tx* self,
 #endif
     };
 
-    static const int start_fildes = 0;
-
     int res = TEMP_FAILURE_RETRY(fcntl(fildes, fcntl_cmd[cloexec],
-                                       start_fildes));
+                                       min_fildes));
     if (res < 0) {
         picotm_error_set_errno(error, errno);
         return -1;
diff --git a/modules/libc/src/fildes/fd_tx.h b/modules/libc/src/fildes/fd_tx.h
index 0d45853..cccfb1e 100644
--- a/modules/libc/src/fildes/fd_tx.h
+++ b/modules/libc/src/fildes/fd_tx.h
@@ -213,7 +213,7 @@ fd_tx_connect_undo(struct fd_tx* self, int sockfd, int cookie,
 
 int
 fd_tx_dup_exec(struct fd_tx* self,
-               int fildes, bool cloexec,
+               int fildes, bool cloexec, int min_fildes,
                bool isnoundo, int* cookie, struct picotm_error* error);
 
 void
diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index dcf5047..8871579 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1602,6 +1602,7 @@ undo_connect(struct fildes_tx* self, int fildes, int cookie,
 
 int
 fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int cloexec,
+                   int min_fildes,
                    int isnoundo, struct picotm_error* error)
 {
     assert(self);
@@ -1623,7 +1624,8 @@ fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int cloexec,
 
     int cookie = -1;
 
-    int res = fd_tx_dup_exec(fd_tx, fildes, cloexec, isnoundo, &cookie,
+    int res = fd_tx_dup_exec(fd_tx, fildes, cloexec, min_fildes,
+                             isnoundo, &cookie,
                              error);
     if (picotm_error_is_set(error)) {
         return -1;
diff --git a/modules/libc/src/fildes/fildes_tx.h b/modules/libc/src/fildes/fildes_tx.h
index c5db04c..ed8a2e2 100644
--- a/modules/libc/src/fildes/fildes_tx.h
+++ b/modules/libc/src/fildes/fildes_tx.h
@@ -116,6 +116,7 @@ fildes_tx_exec_connect(struct fildes_tx* self, int sockfd,
 
 int
 fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int cloexec,
+                   int min_fildes,
                    int isnoundo, struct picotm_error* error);
 
 int
diff --git a/modules/libc/src/fildes/module.c b/modules/libc/src/fildes/module.c
index b78e396..e179a8d 100644
--- a/modules/libc/src/fildes/module.c
+++ b/modules/libc/src/fildes/module.c
@@ -290,13 +290,14 @@ fildes_module_connect(int sockfd, const struct sockaddr* serv_addr,
 }
 
 int
-fildes_module_dup_internal(int fildes, int cloexec, struct picotm_error* error)
+fildes_module_dup_internal(int fildes, int cloexec, int min_fildes,
+                           struct picotm_error* error)
 {
     struct fildes_tx* fildes_tx = get_fildes_tx(error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    return fildes_tx_exec_dup(fildes_tx, fildes, cloexec,
+    return fildes_tx_exec_dup(fildes_tx, fildes, cloexec, min_fildes,
                               picotm_is_irrevocable(),
                               error);
 }
@@ -304,7 +305,7 @@ fildes_module_dup_internal(int fildes, int cloexec, struct picotm_error* error)
 int
 fildes_module_dup(int fildes, struct picotm_error* error)
 {
-    return fildes_module_dup_internal(fildes, 0, error);
+    return fildes_module_dup_internal(fildes, 0, 0, error);
 }
 
 int
diff --git a/modules/libc/src/fildes/module.h b/modules/libc/src/fildes/module.h
index 63da5cb..235b0fe 100644
--- a/modules/libc/src/fildes/module.h
+++ b/modules/libc/src/fildes/module.h
@@ -60,7 +60,7 @@ int
 fildes_module_dup(int fildes, struct picotm_error* error);
 
 int
-fildes_module_dup_internal(int fildes, int cloexec,
+fildes_module_dup_internal(int fildes, int cloexec, int min_fildes,
                            struct picotm_error* error);
 
 int
-- 
2.43.0


From a1de107b5274f1fe897f5154ab9b35ab6b148f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:39 +0000
Subject: [PATCH 44/95] fix: Look up socket buffers in the list of socket
 buffers

---
 modules/libc/src/fildes/fildes_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 8871579..e1bfa00 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -571,7 +571,7 @@ get_sockbuf_tx(struct fildes_tx* self, const struct filebuf_id* id,
 {
     /* Let's see if we already have the sockbuf in use.*/
 
-    struct picotm_slist* pos = picotm_slist_find_1(&self->pipebuf_tx_active_list,
+    struct picotm_slist* pos = picotm_slist_find_1(&self->sockbuf_tx_active_list,
                                                    true_if_eq_sockbuf_id_cb,
                                                    (void*)id);
     if (pos != picotm_slist_end(&self->sockbuf_tx_active_list)) {
-- 
2.43.0


From 15aaa08c101bdfb9b59862873308383a644026b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:58 +0000
Subject: [PATCH 45/95] fix: Don't lose transaction-local file state on errors

State that had been taken from the list of allocated entries, or newly
allocated, was lost if acquiring its file or buffer failed.
---
 modules/libc/src/fildes/fildes_tx.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index e1bfa00..3ca9369 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -383,7 +383,6 @@ get_pipebuf_tx(struct fildes_tx* self, const struct filebuf_id* id,
 
     pos = picotm_slist_front(&self->pipebuf_tx_alloced_list);
     if (pos) {
-        picotm_slist_dequeue_front(&self->pipebuf_tx_alloced_list);
         return pipebuf_tx_of_list_entry(pos);
     }
 
@@ -392,6 +391,9 @@ get_pipebuf_tx(struct fildes_tx* self, const struct filebuf_id* id,
         return NULL;
     }
 
+    picotm_slist_enqueue_front(&self->pipebuf_tx_alloced_list,
+                               &pipebuf_tx->list_entry);
+
     return pipebuf_tx;
 }
 
@@ -425,6 +427,7 @@ get_pipebuf_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
         goto err_pipebuf_tx_ref_or_set_up;
     }
 
+    picotm_slist_dequeue_front(&self->pipebuf_tx_alloced_list);
     picotm_slist_enqueue_front(&self->pipebuf_tx_active_list,
                                &pipebuf_tx->list_entry);
 
@@ -477,7 +480,6 @@ get_seekbuf_tx(struct fildes_tx* self, const struct filebuf_id* id,
 
     pos = picotm_slist_front(&self->seekbuf_tx_alloced_list);
     if (pos) {
-        picotm_slist_dequeue_front(&self->seekbuf_tx_alloced_list);
         return seekbuf_tx_of_list_entry(pos);
     }
 
@@ -486,6 +488,9 @@ get_seekbuf_tx(struct fildes_tx* self, const struct filebuf_id* id,
         return NULL;
     }
 
+    picotm_slist_enqueue_front(&self->seekbuf_tx_alloced_list,
+                               &seekbuf_tx->list_entry);
+
     return seekbuf_tx;
 }
 
@@ -519,6 +524,7 @@ get_seekbuf_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
         goto err_seekbuf_tx_ref_or_set_up;
     }
 
+    picotm_slist_dequeue_front(&self->seekbuf_tx_alloced_list);
     picotm_slist_enqueue_front(&self->seekbuf_tx_active_list,
                                &seekbuf_tx->list_entry);
 
@@ -585,7 +591,6 @@ get_sockbuf_tx(struct fildes_tx* self, const struct filebuf_id* id,
 
     pos = picotm_slist_front(&self->sockbuf_tx_alloced_list);
     if (pos) {
-        picotm_slist_dequeue_front(&self->sockbuf_tx_alloced_list);
         return sockbuf_tx_of_list_entry(pos);
     }
 
@@ -594,6 +599,9 @@ get_sockbuf_tx(struct fildes_tx* self, const struct filebuf_id* id,
         return NULL;
     }
 
+    picotm_slist_enqueue_front(&self->sockbuf_tx_alloced_list,
+                               &sockbuf_tx->list_entry);
+
     return sockbuf_tx;
 }
 
@@ -627,6 +635,7 @@ get_sockbuf_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
         goto err_sockbuf_tx_ref_or_set_up;
     }
 
+    picotm_slist_dequeue_front(&self->sockbuf_tx_alloced_list);
     picotm_slist_enqueue_front(&self->sockbuf_tx_active_list,
                                &sockbuf_tx->list_entry);
 
@@ -674,7 +683,6 @@ get_file_tx(struct fildes_tx* self, int fildes,
 
     pos = picotm_slist_front(&self->file_tx_alloced_list);
     if (pos) {
-        picotm_slist_dequeue_front(&self->file_tx_alloced_list);
         file_tx = file_tx_of_list_entry(pos);
         file_tx_retype(file_tx, type);
     } else {
@@ -682,6 +690,8 @@ get_file_tx(struct fildes_tx* self, int fildes,
         if (picotm_error_is_set(error)) {
             return NULL;
         }
+        picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                                   &file_tx->list_entry);
     }
 
     return file_tx;
@@ -725,6 +735,7 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
         goto err_file_tx_ref_or_set_up;
     }
 
+    picotm_slist_dequeue_front(&self->file_tx_alloced_list);
     picotm_slist_enqueue_front(&self->file_tx_active_list,
                                &chrdev_tx->base.list_entry);
 
@@ -784,6 +795,7 @@ get_fifo_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     }
     fifo_tx->pipebuf_tx = pipebuf_tx;
 
+    picotm_slist_dequeue_front(&self->file_tx_alloced_list);
     picotm_slist_enqueue_front(&self->file_tx_active_list,
                                &fifo_tx->base.list_entry);
 
@@ -842,6 +854,7 @@ get_regfile_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     }
     regfile_tx->seekbuf_tx = seekbuf_tx;
 
+    picotm_slist_dequeue_front(&self->file_tx_alloced_list);
     picotm_slist_enqueue_front(&self->file_tx_active_list,
                                &regfile_tx->base.list_entry);
 
@@ -892,6 +905,7 @@ get_dir_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
         goto err_file_tx_ref_or_set_up;
     }
 
+    picotm_slist_dequeue_front(&self->file_tx_alloced_list);
     picotm_slist_enqueue_front(&self->file_tx_active_list,
                                &dir_tx->base.list_entry);
 
@@ -949,6 +963,7 @@ get_socket_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     }
     socket_tx->sockbuf_tx = sockbuf_tx;
 
+    picotm_slist_dequeue_front(&self->file_tx_alloced_list);
     picotm_slist_enqueue_front(&self->file_tx_active_list,
                                &socket_tx->base.list_entry);
 
-- 
2.43.0


From 1fc70bd509a7fdf56e904e42e4dd9a65d160080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:29 +0000
Subject: [PATCH 46/95] fix: Return EBADF for file descriptors that are out of
 range

The transaction-local table was accessed out of bounds.
---
 modules/libc/src/fildes/fildes_tx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 3ca9369..40eaf4e 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1074,6 +1074,12 @@ static struct fd_tx*
 find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
                     bool new_file, struct picotm_error* error)
 {
+    /* We only keep state for the first file descriptors. */
+    if ((fildes < 0) || ((size_t)fildes >= picotm_arraylen(self->fd_tx))) {
+        picotm_error_set_errno(error, EBADF);
+        return NULL;
+    }
+
     struct fd_tx* fd_tx = get_fd_tx(self, fildes);
 
     /* In |struct fildes_tx| we hold at most one reference to the
-- 
2.43.0


From cf0cff5edc0a580b66345cf842a4460a0a81397c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:29 +0000
Subject: [PATCH 47/95] fix: Don't release references on files twice if setting
 up a descriptor fails

---
 modules/libc/src/fildes/fildes_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 40eaf4e..e6dc8b9 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1120,7 +1120,7 @@ find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
     return fd_tx;
 
 err_fd_tx_ref:
-    file_tx_unref(file_tx);
+    /* The reference on file_tx is released in fildes_tx_finish(). */
 err_get_file_tx_with_ref:
     fd_unref(fd);
     return NULL;
-- 
2.43.0


From ce8d00fc7cf2b90b2a4f5e09488a09c09d8655f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:29 +0000
Subject: [PATCH 48/95] fix: Return EBADF for file descriptors that the
 transaction closed

---
 modules/libc/src/fildes/fd_tx.c     | 14 ++++++++++++++
 modules/libc/src/fildes/fd_tx.h     |  9 +++++++++
 modules/libc/src/fildes/fildes_tx.c |  5 +++++
 3 files changed, 28 insertions(+)

diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index 576e99e..2782191 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -99,6 +99,7 @@ fd_tx_init(struct fd_tx* self)
     self->fd = NULL;
     self->file_tx = NULL;
     self->cc_mode = PICOTM_LIBC_CC_MODE_2PL;
+    self->closed = false;
 
     init_rwstates(picotm_arraybeg(self->rwstate),
                   picotm_arrayend(self->rwstate));
@@ -142,6 +143,7 @@ fd_tx_ref_or_set_up(struct fd_tx* self, struct fd* fd, struct file_tx* file_tx,
 
     self->fd = fd;
     self->file_tx = file_tx;
+    self->closed = false;
 
     return;
 
@@ -181,6 +183,14 @@ fd_tx_holds_ref(const struct fd_tx* self)
     return picotm_ref_count(&self->ref) > 0;
 }
 
+bool
+fd_tx_is_closed(const struct fd_tx* self)
+{
+    assert(self);
+
+    return self->closed;
+}
+
 void
 fd_tx_signal_close(struct fd_tx* self)
 {
@@ -313,6 +323,8 @@ close_exec_noundo(struct fd_tx* self,
         return -1;
     }
 
+    self->closed = true;
+
     *cookie = 0; /* injects event */
     return 0;
 }
@@ -328,6 +340,8 @@ close_exec_ts(struct fd_tx* self,
         return -1;
     }
 
+    self->closed = true;
+
     *cookie = 0; /* injects event */
     return 0;
 }
diff --git a/modules/libc/src/fildes/fd_tx.h b/modules/libc/src/fildes/fd_tx.h
index cccfb1e..a6b3adf 100644
--- a/modules/libc/src/fildes/fd_tx.h
+++ b/modules/libc/src/fildes/fd_tx.h
@@ -67,6 +67,9 @@ struct fd_tx {
     /** Reader/writer state for file descriptor */
     struct picotm_rwstate   rwstate[NUMBER_OF_FD_FIELDS];
 
+    /** True if the transaction closed the file descriptor */
+    bool closed;
+
     struct fcntlop* fcntltab;
     size_t          fcntltablen;
 };
@@ -130,6 +133,12 @@ fd_tx_unref(struct fd_tx* self);
 bool
 fd_tx_holds_ref(const struct fd_tx* self);
 
+/**
+ * Returns true if the transaction closed the file descriptor.
+ */
+bool
+fd_tx_is_closed(const struct fd_tx* self);
+
 /**
  * Set file descriptor to CLOSING
  */
diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index e6dc8b9..a99572a 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1094,6 +1094,11 @@ find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
             return NULL;
         }
 
+        if (fd_tx_is_closed(fd_tx)) {
+            picotm_error_set_errno(error, EBADF);
+            return NULL;
+        }
+
         return fd_tx;
     }
 
-- 
2.43.0


From 8683e78d8da8dcdffe559a12d7e8f975c733a1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:29 +0000
Subject: [PATCH 49/95] fix: Don't accumulate the log of fcntl_tx(), open_tx()
 and pipe_tx()

The tables of arguments grew with each transaction; the one of fcntl_tx()
was never freed.
---
 modules/libc/src/fildes/fd_tx.c     | 3 +++
 modules/libc/src/fildes/fildes_tx.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index 2782191..fd9b64f 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -113,6 +113,8 @@ fd_tx_uninit(struct fd_tx* self)
 {
     assert(self);
 
+    fcntloptab_clear(&self->fcntltab, &self->fcntltablen);
+
     uninit_rwstates(picotm_arraybeg(self->rwstate),
                     picotm_arrayend(self->rwstate));
 
@@ -144,6 +146,7 @@ fd_tx_ref_or_set_up(struct fd_tx* self, struct fd* fd, struct file_tx* file_tx,
     self->fd = fd;
     self->file_tx = file_tx;
     self->closed = false;
+    self->fcntltablen = 0;
 
     return;
 
diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index a99572a..20fd316 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -3518,4 +3518,7 @@ fildes_tx_finish(struct fildes_tx* self, struct picotm_error* error)
 
     /* Clear concurrency control on file-descriptor table */
     fdtab_tx_finish(&self->fdtab_tx);
+
+    self->openoptablen = 0;
+    self->pipeoptablen = 0;
 }
-- 
2.43.0


From aa5b1c5f3b715793d6c875630a4d0e087c7ddf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:29 +0000
Subject: [PATCH 50/95] fix: Close new file descriptors if their transaction
 runs out of memory

---
 modules/libc/src/fildes/fildes_tx.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 20fd316..208ff9f 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1344,11 +1344,12 @@ fildes_tx_exec_accept(struct fildes_tx* self, int sockfd,
     /* Inject event */
     fildes_log_append(self->log, FILDES_OP_ACCEPT, connfd, cookie, error);
     if (picotm_error_is_set(error)) {
-        return -1;
+        goto err_fildes_log_append;
     }
 
     return connfd;
 
+err_fildes_log_append:
 err_add_new_fd_tx_with_ref:
     if (TEMP_FAILURE_RETRY(close(connfd)) < 0) {
         perror("close");
@@ -2372,6 +2373,7 @@ fildes_tx_exec_mkstemp(struct fildes_tx* self, char* pathname,
 
 err_fildes_log_append:
     unlink(abs_path);
+    TEMP_FAILURE_RETRY(close(fildes));
 err_mkstemp:
     free(abs_path);
     return -1;
@@ -2554,6 +2556,12 @@ fildes_tx_exec_pipe(struct fildes_tx* self, int pipefd[2],
                                   &self->pipeoptablen, pipefd,
                                   error);
     if (picotm_error_is_set(error)) {
+        if (TEMP_FAILURE_RETRY(close(pipefd[0])) < 0) {
+            perror("close");
+        }
+        if (TEMP_FAILURE_RETRY(close(pipefd[1])) < 0) {
+            perror("close");
+        }
         return -1;
     }
 
-- 
2.43.0


From 89ce559d6614a8a754ce140405cbb6a17e80515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:16 +0000
Subject: [PATCH 51/95] fix: Keep file state in the list of allocated entries
 when changing its type

Re-initializing the state for another type of file reset its list entry
and cut the list.
---
 modules/libc/src/fildes/fildes_tx.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 208ff9f..e671623 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -683,6 +683,10 @@ get_file_tx(struct fildes_tx* self, int fildes,
 
     pos = picotm_slist_front(&self->file_tx_alloced_list);
     if (pos) {
+        /* Changing the type resets the list entry, so the file has
+         * to leave the list in between.
+         */
+        picotm_slist_dequeue_front(&self->file_tx_alloced_list);
         file_tx = file_tx_of_list_entry(pos);
         file_tx_retype(file_tx, type);
     } else {
@@ -690,10 +694,11 @@ get_file_tx(struct fildes_tx* self, int fildes,
         if (picotm_error_is_set(error)) {
             return NULL;
         }
-        picotm_slist_enqueue_front(&self->file_tx_alloced_list,
-                                   &file_tx->list_entry);
     }
 
+    picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                               &file_tx->list_entry);
+
     return file_tx;
 }
 
-- 
2.43.0


From ba203b290609eb246bdcec56b8a3ad6fe8cebab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:41 +0000
Subject: [PATCH 52/95] fix: Support duplicates of duplicated file descriptors
 within a transaction

dup() of a descriptor that the transaction itself had duplicated looked
up the file by the duplicate's number and failed with EBADF.
---
 modules/libc/src/fildes/fildes_tx.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index e671623..c73be91 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1112,10 +1112,19 @@ find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
         return NULL;
     }
 
-    struct file_tx* file_tx = get_file_tx_with_ref(self, old_fildes,
-                                                   new_file, error);
-    if (picotm_error_is_set(error)) {
-        goto err_get_file_tx_with_ref;
+    struct file_tx* file_tx = NULL;
+
+    if (old_fildes != fildes) {
+        /* A duplicate shares the file with the original descriptor,
+         * which might itself be a duplicate.
+         */
+        file_tx = get_fd_tx(self, old_fildes)->file_tx;
+    }
+    if (!file_tx) {
+        file_tx = get_file_tx_with_ref(self, old_fildes, new_file, error);
+        if (picotm_error_is_set(error)) {
+            goto err_get_file_tx_with_ref;
+        }
     }
 
     fd_tx_ref_or_set_up(fd_tx, fd, file_tx, error);
-- 
2.43.0


From e722e9a5e8c98ff74a05b68272ad874959aeed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:57 +0000
Subject: [PATCH 53/95] fix: Lock the last record of regions that don't start
 at a record

The number of records was computed from the length alone. If a region
crossed one more record boundary than an aligned region of the same length,
its last record remained unprotected.
---
 modules/libc/src/fildes/seekbuf.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/modules/libc/src/fildes/seekbuf.c b/modules/libc/src/fildes/seekbuf.c
index 0980d2b..e46a106 100644
--- a/modules/libc/src/fildes/seekbuf.c
+++ b/modules/libc/src/fildes/seekbuf.c
@@ -30,10 +30,16 @@ recoffset(off_t off)
     return off/RECSIZE;
 }
 
-static size_t
-reccount(size_t len)
+static unsigned long long
+reccount(off_t off, size_t len)
 {
-    return 1 + len/RECSIZE;
+    if (!len) {
+        return 0;
+    }
+
+    unsigned long long last = (unsigned long long)off + len - 1;
+
+    return 1 + last/RECSIZE - recoffset(off);
 }
 
 static size_t
@@ -120,7 +126,7 @@ seekbuf_try_rdlock_region(struct seekbuf self[static 1],
                           struct rwcountermap rwcountermap[static 1],
                           struct picotm_error error[static 1])
 {
-    rwcountermap_rdlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_rdlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap, error);
 }
 
@@ -130,7 +136,7 @@ seekbuf_try_wrlock_region(struct seekbuf self[static 1],
                           struct rwcountermap rwcountermap[static 1],
                           struct picotm_error error[static 1])
 {
-    rwcountermap_wrlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_wrlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap, error);
 }
 
@@ -138,6 +144,6 @@ void
 seekbuf_unlock_region(struct seekbuf self[static 1], off_t off, size_t nbyte,
                       struct rwcountermap rwcountermap[static 1])
 {
-    rwcountermap_unlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_unlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap);
 }
-- 
2.43.0


From f0b83fe0594ff925e17c270cd0c06c61b1aac214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:57 +0000
Subject: [PATCH 54/95] fix: Look up the record locks of the file that is being
 accessed

The per-transaction record counters cached the page of record locks of the
first file they were used with. When the transaction state was re-used for
another file, it locked records of the wrong file.
---
 modules/libc/src/fildes/rwcountermap.c | 34 ++++++--------------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/modules/libc/src/fildes/rwcountermap.c b/modules/libc/src/fildes/rwcountermap.c
index fbd5413..4cf11c9 100644
--- a/modules/libc/src/fildes/rwcountermap.c
+++ b/modules/libc/src/fildes/rwcountermap.c
@@ -35,8 +35,7 @@
  */
 
 struct rwcountermap_page {
-    struct rwlockmap_page* lockpg;
-    struct rwcounter       counter[RWLOCKMAP_PAGE_NENTRIES];
+    struct rwcounter counter[RWLOCKMAP_PAGE_NENTRIES];
 };
 
 static void
@@ -44,8 +43,6 @@ rwcountermap_page_init(struct rwcountermap_page* self)
 {
     assert(self);
 
-    self->lockpg = NULL;
-
     struct rwcounter* counter_beg = picotm_arraybeg(self->counter);
     struct rwcounter* counter_end = picotm_arrayend(self->counter);
 
@@ -61,26 +58,6 @@ rwcountermap_page_uninit(struct rwcountermap_page* self)
     assert(self);
 }
 
-static struct rwlockmap_page*
-rwcountermap_page_get_rwlockmap_page(struct rwcountermap_page* self,
-                                     unsigned long long offset,
-                                     struct rwlockmap* rwlockmap,
-                                     struct picotm_error* error)
-{
-    assert(self);
-
-    if (self->lockpg) {
-        return self->lockpg;
-    }
-
-    self->lockpg = rwlockmap_find_page(rwlockmap, offset, error);
-    if (picotm_error_is_set(error)) {
-        return NULL;
-    }
-
-    return self->lockpg;
-}
-
 static struct rwcounter*
 call_records(struct rwcounter* counter_beg,
              const struct rwcounter* counter_end,
@@ -109,9 +86,12 @@ rwcountermap_page_for_each_record_in_range(
                                                      struct picotm_error*),
     struct picotm_error* error)
 {
-    struct rwlockmap_page* lockpg =
-        rwcountermap_page_get_rwlockmap_page(self, record_offset,
-                                             rwlockmap, error);
+    /* The counters are re-used for other files; look up the locks
+     * each time.
+     */
+    struct rwlockmap_page* lockpg = rwlockmap_find_page(rwlockmap,
+                                                        record_offset,
+                                                        error);
     if (picotm_error_is_set(error)) {
         return 0;
     }
-- 
2.43.0


From 3c7ab9836eb1c6f774743b7aac8b0047dad61072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:05 +0000
Subject: [PATCH 55/95] fix: Release the record locks of regions that could not
 be locked completely

If a record of a region was locked by another transaction, or the region
could not be added to the table of locked regions, the records that had
already been locked were never released.
---
 modules/libc/src/fildes/rwcountermap.c | 25 ++++++++++++++++++-------
 modules/libc/src/fildes/seekbuf_tx.c   |  4 ++++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/modules/libc/src/fildes/rwcountermap.c b/modules/libc/src/fildes/rwcountermap.c
index 4cf11c9..c67d713 100644
--- a/modules/libc/src/fildes/rwcountermap.c
+++ b/modules/libc/src/fildes/rwcountermap.c
@@ -166,7 +166,7 @@ key_bits(unsigned long long offset, unsigned long page_nbits)
     return offset >> page_nbits;
 }
 
-void
+static unsigned long long
 rwcountermap_for_each_record_in_range(
     struct rwcountermap* self,
     unsigned long long record_length, unsigned long long record_offset,
@@ -177,13 +177,15 @@ rwcountermap_for_each_record_in_range(
 {
     assert(self);
 
+    unsigned long long ndone = 0;
+
     while (record_length) {
 
         uintptr_t value = picotm_treemap_find_value(
             &self->map, key_bits(record_offset, RWLOCKMAP_PAGE_NBITS),
             rwcountermap_create_page_fn, error);
         if (picotm_error_is_set(error)) {
-            return;
+            return ndone;
         }
         struct rwcountermap_page* statepg = (struct rwcountermap_page*)value;
 
@@ -194,13 +196,16 @@ rwcountermap_for_each_record_in_range(
                                                        rwlockmap,
                                                        call_record,
                                                        error);
+        ndone += diff;
         if (picotm_error_is_set(error)) {
-            return;
+            return ndone;
         }
 
         record_length -= diff;
         record_offset += diff;
     }
+
+    return ndone;
 }
 
 static void
@@ -216,8 +221,11 @@ rwcountermap_rdlock(struct rwcountermap* self,
                   unsigned long long record_offset,
                   struct rwlockmap* rwlockmap, struct picotm_error* error)
 {
-    rwcountermap_for_each_record_in_range(self, record_length, record_offset,
-                                          rwlockmap, rdlock_record, error);
+    unsigned long long ndone = rwcountermap_for_each_record_in_range(
+        self, record_length, record_offset, rwlockmap, rdlock_record, error);
+    if (picotm_error_is_set(error)) {
+        rwcountermap_unlock(self, ndone, record_offset, rwlockmap);
+    }
 }
 
 static void
@@ -233,8 +241,11 @@ rwcountermap_wrlock(struct rwcountermap* self,
                     unsigned long long record_offset,
                     struct rwlockmap* rwlockmap, struct picotm_error* error)
 {
-    rwcountermap_for_each_record_in_range(self, record_length, record_offset,
-                                          rwlockmap, wrlock_record, error);
+    unsigned long long ndone = rwcountermap_for_each_record_in_range(
+        self, record_length, record_offset, rwlockmap, wrlock_record, error);
+    if (picotm_error_is_set(error)) {
+        rwcountermap_unlock(self, ndone, record_offset, rwlockmap);
+    }
 }
 
 static void
diff --git a/modules/libc/src/fildes/seekbuf_tx.c b/modules/libc/src/fildes/seekbuf_tx.c
index 0aa6a27..ea89284 100644
--- a/modules/libc/src/fildes/seekbuf_tx.c
+++ b/modules/libc/src/fildes/seekbuf_tx.c
@@ -276,6 +276,8 @@ seekbuf_tx_try_rdlock_region(struct seekbuf_tx* self, size_t nbyte,
                                nbyte, offset,
                                error);
     if (picotm_error_is_set(error)) {
+        seekbuf_unlock_region(self->seekbuf, offset, nbyte,
+                              &self->rwcountermap);
         return -1;
     }
 
@@ -300,6 +302,8 @@ seekbuf_tx_try_wrlock_region(struct seekbuf_tx* self, size_t nbyte,
                                nbyte, offset,
                                error);
     if (picotm_error_is_set(error)) {
+        seekbuf_unlock_region(self->seekbuf, offset, nbyte,
+                              &self->rwcountermap);
         return -1;
     }
 
-- 
2.43.0


From 8178fe36e3e7a6fd80fed0522bc4a19b7aa345e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 56/95] fix: Allow multiple file descriptors of the same FIFO
 or socket

Both ends of a pipe have the same inode, but different file descriptors.
Transactions that used both ends, or concurrent transactions that used
one end each, got EBADF for the second file descriptor.
---
 modules/libc/src/fildes/chrdevtab.c  |  1 +
 modules/libc/src/fildes/dirtab.c     |  1 +
 modules/libc/src/fildes/fifotab.c    |  1 +
 modules/libc/src/fildes/filetab.c    | 10 ++++++----
 modules/libc/src/fildes/filetab.h    |  5 +++++
 modules/libc/src/fildes/regfiletab.c |  1 +
 modules/libc/src/fildes/sockettab.c  |  1 +
 7 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fildes/chrdevtab.c b/modules/libc/src/fildes/chrdevtab.c
index 4f024a3..46dfb4f 100644
--- a/modules/libc/src/fildes/chrdevtab.c
+++ b/modules/libc/src/fildes/chrdevtab.c
@@ -37,6 +37,7 @@ chrdevtab_uninit_file(struct file file[static 1])
 static const struct fildes_filetab_ops chrdevtab_ops = {
     chrdevtab_init_file,
     chrdevtab_uninit_file,
+    false,
 };
 
 void
diff --git a/modules/libc/src/fildes/dirtab.c b/modules/libc/src/fildes/dirtab.c
index e8ed41b..760217e 100644
--- a/modules/libc/src/fildes/dirtab.c
+++ b/modules/libc/src/fildes/dirtab.c
@@ -37,6 +37,7 @@ dirtab_uninit_file(struct file file[static 1])
 static const struct fildes_filetab_ops dirtab_ops = {
     dirtab_init_file,
     dirtab_uninit_file,
+    false,
 };
 
 void
diff --git a/modules/libc/src/fildes/fifotab.c b/modules/libc/src/fildes/fifotab.c
index 3d6151b..e4e61f2 100644
--- a/modules/libc/src/fildes/fifotab.c
+++ b/modules/libc/src/fildes/fifotab.c
@@ -37,6 +37,7 @@ fifotab_uninit_file(struct file file[static 1])
 static const struct fildes_filetab_ops fifotab_ops = {
     fifotab_init_file,
     fifotab_uninit_file,
+    true,
 };
 
 void
diff --git a/modules/libc/src/fildes/filetab.c b/modules/libc/src/fildes/filetab.c
index 3c8d370..3beaca5 100644
--- a/modules/libc/src/fildes/filetab.c
+++ b/modules/libc/src/fildes/filetab.c
@@ -210,9 +210,9 @@ search_by_id(struct fildes_filetab filetab[static 1],
 }
 
 static bool
-error_ne_fildes(bool new_file)
+error_ne_fildes(const struct fildes_filetab filetab[static 1], bool new_file)
 {
-    return !new_file;
+    return !new_file && !filetab->ops->allow_ne_fildes;
 }
 
 struct file*
@@ -235,7 +235,8 @@ fildes_filetab_ref_fildes(struct fildes_filetab self[static 1], int fildes,
         if (picotm_error_is_set(error))
             return NULL;
 
-        file = find_by_id(self, &id, error_ne_fildes(new_file), error);
+        file = find_by_id(self, &id, error_ne_fildes(self, new_file),
+                          error);
         if (picotm_error_is_set(error))
             goto err_unlock_filetab;
         else if (file)
@@ -253,7 +254,8 @@ fildes_filetab_ref_fildes(struct fildes_filetab self[static 1], int fildes,
 
     if (!new_file) {
         /* Re-try find operation; maybe element was added meanwhile. */
-        file = find_by_id(self, &id, error_ne_fildes(new_file), error);
+        file = find_by_id(self, &id, error_ne_fildes(self, new_file),
+                          error);
         if (picotm_error_is_set(error))
             goto err_unlock_filetab;
         else if (file)
diff --git a/modules/libc/src/fildes/filetab.h b/modules/libc/src/fildes/filetab.h
index 1b9c4d7..6830f42 100644
--- a/modules/libc/src/fildes/filetab.h
+++ b/modules/libc/src/fildes/filetab.h
@@ -29,6 +29,11 @@ struct fildes_filetab_ops {
     void (*init_file)(struct file[static 1],
                       struct picotm_error[static 1]);
     void (*uninit_file)(struct file[static 1]);
+
+    /* True iff the files of the table don't share state among different
+     * file descriptors. Otherwise, it's an error to refer to a file by
+     * more than one file descriptor. */
+    bool allow_ne_fildes;
 };
 
 struct fildes_filetab {
diff --git a/modules/libc/src/fildes/regfiletab.c b/modules/libc/src/fildes/regfiletab.c
index 5e697d7..3c3da6a 100644
--- a/modules/libc/src/fildes/regfiletab.c
+++ b/modules/libc/src/fildes/regfiletab.c
@@ -37,6 +37,7 @@ regfiletab_uninit_file(struct file file[static 1])
 static const struct fildes_filetab_ops regfiletab_ops = {
     regfiletab_init_file,
     regfiletab_uninit_file,
+    false,
 };
 
 void
diff --git a/modules/libc/src/fildes/sockettab.c b/modules/libc/src/fildes/sockettab.c
index a3da56f..5ecfb2f 100644
--- a/modules/libc/src/fildes/sockettab.c
+++ b/modules/libc/src/fildes/sockettab.c
@@ -37,6 +37,7 @@ sockettab_uninit_file(struct file file[static 1])
 static const struct fildes_filetab_ops sockettab_ops = {
     sockettab_init_file,
     sockettab_uninit_file,
+    true,
 };
 
 void
-- 
2.43.0


From 0b2b11631ee90b0d59ff00e2f9437cc2230a2d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 57/95] fix: Return available data from reads of FIFOs, sockets
 and character devices

A single read() or recv() returns the data that is available. Continuing
until the buffer is full blocks although there is data, merges datagrams
and returns MSG_PEEK'ed data multiple times.
---
 modules/libc/src/fildes/chrdev_tx_ops.c | 29 ++++---------
 modules/libc/src/fildes/fifo_tx_ops.c   | 29 ++++---------
 modules/libc/src/fildes/socket_tx_ops.c | 58 +++++++------------------
 3 files changed, 32 insertions(+), 84 deletions(-)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index 7198936..c66cf50 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -188,30 +188,17 @@ errno_signals_blocking_io(int errno_code)
 static ssize_t
 do_read(int fildes, void* buf, size_t nbyte, struct picotm_error* error)
 {
-    uint8_t* pos = buf;
-    const uint8_t* beg = pos;
-    const uint8_t* end = beg + nbyte;
-
-    while (pos < end) {
-
-        ssize_t res = TEMP_FAILURE_RETRY(read(fildes, pos, end - pos));
-        if (res < 0) {
-            if (pos != beg) {
-                break; /* return read data */
-            } else if (errno_signals_blocking_io(errno)) {
-                return -1; /* error for non-blocking I/O */
-            } else {
-                picotm_error_set_errno(error, errno);
-                return res;
-            }
-        } else if (!res) {
-            break; /* EOF reached */
+    ssize_t res = TEMP_FAILURE_RETRY(read(fildes, buf, nbyte));
+    if (res < 0) {
+        if (errno_signals_blocking_io(errno)) {
+            return -1; /* error for non-blocking I/O */
+        } else {
+            picotm_error_set_errno(error, errno);
+            return res;
         }
-
-        pos += res;
     }
 
-    return pos - beg;
+    return res;
 }
 
 static ssize_t
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 0579b76..a141c53 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -187,30 +187,17 @@ errno_signals_blocking_io(int errno_code)
 static ssize_t
 do_read(int fildes, void* buf, size_t nbyte, struct picotm_error* error)
 {
-    uint8_t* pos = buf;
-    const uint8_t* beg = pos;
-    const uint8_t* end = beg + nbyte;
-
-    while (pos < end) {
-
-        ssize_t res = TEMP_FAILURE_RETRY(read(fildes, pos, end - pos));
-        if (res < 0) {
-            if (pos != beg) {
-                break; /* return read data */
-            } else if (errno_signals_blocking_io(errno)) {
-                return -1; /* error for non-blocking I/O */
-            } else {
-                picotm_error_set_errno(error, errno);
-                return res;
-            }
-        } else if (!res) {
-            break; /* EOF reached */
+    ssize_t res = TEMP_FAILURE_RETRY(read(fildes, buf, nbyte));
+    if (res < 0) {
+        if (errno_signals_blocking_io(errno)) {
+            return -1; /* error for non-blocking I/O */
+        } else {
+            picotm_error_set_errno(error, errno);
+            return res;
         }
-
-        pos += res;
     }
 
-    return pos - beg;
+    return res;
 }
 
 static ssize_t
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 92e460a..dbc74e4 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -272,30 +272,17 @@ errno_signals_blocking_io(int errno_code)
 static ssize_t
 do_read(int fildes, void* buf, size_t nbyte, struct picotm_error* error)
 {
-    uint8_t* pos = buf;
-    const uint8_t* beg = pos;
-    const uint8_t* end = beg + nbyte;
-
-    while (pos < end) {
-
-        ssize_t res = TEMP_FAILURE_RETRY(read(fildes, pos, end - pos));
-        if (res < 0) {
-            if (pos != beg) {
-                break; /* return read data */
-            } else if (errno_signals_blocking_io(errno)) {
-                return -1; /* error for non-blocking I/O */
-            } else {
-                picotm_error_set_errno(error, errno);
-                return res;
-            }
-        } else if (!res) {
-            break; /* EOF reached */
+    ssize_t res = TEMP_FAILURE_RETRY(read(fildes, buf, nbyte));
+    if (res < 0) {
+        if (errno_signals_blocking_io(errno)) {
+            return -1; /* error for non-blocking I/O */
+        } else {
+            picotm_error_set_errno(error, errno);
+            return res;
         }
-
-        pos += res;
     }
 
-    return pos - beg;
+    return res;
 }
 
 static ssize_t
@@ -331,30 +318,17 @@ static ssize_t
 do_recv(int sockfd, void* buffer, size_t length, int flags,
         struct picotm_error* error)
 {
-    uint8_t* pos = buffer;
-    const uint8_t* beg = pos;
-    const uint8_t* end = beg + length;
-
-    while (pos < end) {
-
-        ssize_t res = TEMP_FAILURE_RETRY(recv(sockfd, pos, end - pos, flags));
-        if (res < 0) {
-            if (pos != beg) {
-                break; /* return read data */
-            } else if (errno_signals_blocking_io(errno)) {
-                return -1; /* error for non-blocking I/O */
-            } else {
-                picotm_error_set_errno(error, errno);
-                return res;
-            }
-        } else if (!res) {
-            break; /* EOF reached */
+    ssize_t res = TEMP_FAILURE_RETRY(recv(sockfd, buffer, length, flags));
+    if (res < 0) {
+        if (errno_signals_blocking_io(errno)) {
+            return -1; /* error for non-blocking I/O */
+        } else {
+            picotm_error_set_errno(error, errno);
+            return res;
         }
-
-        pos += res;
     }
 
-    return pos - beg;
+    return res;
 }
 
 static ssize_t
-- 
2.43.0


From c8d48f067ed5dc551fb4aa512fe845fe804ba0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 58/95] fix: Report errors of writes to FIFOs, sockets and
 character devices when they happen

Writes to descriptors without write access, and writes to non-blocking
descriptors that cannot take the data, failed during the commit after
having reported success to the transaction. The data was lost.
---
 modules/libc/src/fildes/chrdev_tx_ops.c | 25 +++++++++++++++++++
 modules/libc/src/fildes/fifo_tx_ops.c   | 25 +++++++++++++++++++
 modules/libc/src/fildes/socket_tx_ops.c | 32 +++++++++++++++++++++++++
 3 files changed, 82 insertions(+)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index c66cf50..1c9ab94 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -257,6 +257,21 @@ do_write(int fildes, const void* buf, size_t nbyte,
     return pos - beg;
 }
 
+static int
+get_status_flags_for_write(int fildes, struct picotm_error* error)
+{
+    int flags = TEMP_FAILURE_RETRY(fcntl(fildes, F_GETFL));
+    if (flags < 0) {
+        picotm_error_set_errno(error, errno);
+        return -1;
+    }
+    if ((flags & O_ACCMODE) == O_RDONLY) {
+        picotm_error_set_errno(error, EBADF);
+        return -1;
+    }
+    return flags;
+}
+
 static ssize_t
 write_exec(struct file_tx* base,
            int fildes, const void* buf, size_t nbyte,
@@ -272,6 +287,16 @@ write_exec(struct file_tx* base,
         return -1;
     }
 
+    int flags = get_status_flags_for_write(fildes, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+    if ((flags & O_NONBLOCK) && !isnoundo) {
+        /* The write might fail later; report the result immediately. */
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
     /* Write-lock character device, because we change the file position */
     /* TODO: wrlock write */
     chrdev_tx_try_wrlock_field(self, CHRDEV_FIELD_STATE, error);
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index a141c53..42d67c5 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -258,6 +258,21 @@ do_write(int fildes, const void* buf, size_t nbyte,
     return pos - beg;
 }
 
+static int
+get_status_flags_for_write(int fildes, struct picotm_error* error)
+{
+    int flags = TEMP_FAILURE_RETRY(fcntl(fildes, F_GETFL));
+    if (flags < 0) {
+        picotm_error_set_errno(error, errno);
+        return -1;
+    }
+    if ((flags & O_ACCMODE) == O_RDONLY) {
+        picotm_error_set_errno(error, EBADF);
+        return -1;
+    }
+    return flags;
+}
+
 static ssize_t
 write_exec(struct file_tx* base,
            int fildes, const void* buf, size_t nbyte,
@@ -273,6 +288,16 @@ write_exec(struct file_tx* base,
         return -1;
     }
 
+    int flags = get_status_flags_for_write(fildes, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+    if ((flags & O_NONBLOCK) && !isnoundo) {
+        /* The write might fail later; report the result immediately. */
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
     /* Write-lock FIFO write end */
     pipebuf_tx_try_wrlock_field(pipebuf_tx, PIPEBUF_FIELD_WRITE_END,
                                 error);
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index dbc74e4..c98a701 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -24,6 +24,7 @@
 #include "picotm/picotm-lib-ptr.h"
 #include <assert.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -360,6 +361,17 @@ recv_exec(struct file_tx* base,
  * send()
  */
 
+static bool
+is_nonblocking(int fildes, struct picotm_error* error)
+{
+    int flags = TEMP_FAILURE_RETRY(fcntl(fildes, F_GETFL));
+    if (flags < 0) {
+        picotm_error_set_errno(error, errno);
+        return false;
+    }
+    return !!(flags & O_NONBLOCK);
+}
+
 static ssize_t
 do_send(int sockfd, const void* buffer, size_t length, int flags,
         struct picotm_error* error)
@@ -413,6 +425,16 @@ send_exec(struct file_tx* base,
         }
     }
 
+    bool nonblocking = is_nonblocking(sockfd, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+    if (nonblocking && !isnoundo) {
+        /* The operation might fail later; report the result immediately. */
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
     /* Write-lock socket write end */
     sockbuf_tx_try_wrlock_field(sockbuf_tx, SOCKBUF_FIELD_SEND_END, error);
     if (picotm_error_is_set(error)) {
@@ -528,6 +550,16 @@ write_exec(struct file_tx* base,
         return -1;
     }
 
+    bool nonblocking = is_nonblocking(fildes, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+    if (nonblocking && !isnoundo) {
+        /* The operation might fail later; report the result immediately. */
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
     /* Write-lock socket write end */
     sockbuf_tx_try_wrlock_field(sockbuf_tx, SOCKBUF_FIELD_SEND_END, error);
     if (picotm_error_is_set(error)) {
-- 
2.43.0


From 5fa1966802f3f6ac1d3880ad09f1c4c2cdd7f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 59/95] fix: Send zero-length datagrams

---
 modules/libc/src/fildes/socket_tx_ops.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index c98a701..13bc069 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -380,7 +380,7 @@ do_send(int sockfd, const void* buffer, size_t length, int flags,
     const uint8_t* beg = pos;
     const uint8_t* end = beg + length;
 
-    while (pos < end) {
+    do {
 
         ssize_t res = TEMP_FAILURE_RETRY(send(sockfd, pos, end - pos, flags));
         if (res < 0) {
@@ -395,7 +395,8 @@ do_send(int sockfd, const void* buffer, size_t length, int flags,
         }
 
         pos += res;
-    }
+
+    } while (pos < end);
 
     return pos - beg;
 }
@@ -515,7 +516,7 @@ do_write(int fildes, const void* buf, size_t nbyte,
     const uint8_t* beg = pos;
     const uint8_t* end = beg + nbyte;
 
-    while (pos < end) {
+    do {
 
         ssize_t res = TEMP_FAILURE_RETRY(write(fildes, pos, end - pos));
         if (res < 0) {
@@ -530,7 +531,8 @@ do_write(int fildes, const void* buf, size_t nbyte,
         }
 
         pos += res;
-    }
+
+    } while (pos < end);
 
     return pos - beg;
 }
-- 
2.43.0


From f5e8bbfb4b06ec8cabf8fb4844b6899c419e5a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 60/95] fix: Set up the buffer of character devices

Writing to a character device or reading its locks dereferenced a
NULL pointer.
---
 modules/libc/src/fildes/fildes_tx.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index c73be91..aa25722 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -735,10 +735,17 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
         return NULL;
     }
 
+    struct seekbuf_tx* seekbuf_tx = get_seekbuf_tx_with_ref(self, fildes,
+                                                            new_file, error);
+    if (picotm_error_is_set(error)) {
+        goto err_get_seekbuf_tx_with_ref;
+    }
+
     file_tx_ref_or_set_up(&chrdev_tx->base, &chrdev->base, NULL, error);
     if (picotm_error_is_set(error)) {
         goto err_file_tx_ref_or_set_up;
     }
+    chrdev_tx->seekbuf_tx = seekbuf_tx;
 
     picotm_slist_dequeue_front(&self->file_tx_alloced_list);
     picotm_slist_enqueue_front(&self->file_tx_active_list,
@@ -749,6 +756,7 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     return chrdev_tx;
 
 err_file_tx_ref_or_set_up:
+err_get_seekbuf_tx_with_ref:
     file_unref(&chrdev->base);
     return NULL;
 }
-- 
2.43.0


From 28597c9f5541a0d7f45ecbb805efff33a1ca6d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 61/95] fix: Restore getcwd()'s output buffer during rollback

The buffer of getcwd_tx() is written, not read. It was privatized for
loads, so that an aborting transaction left its changes in the buffer.
---
 modules/libc/src/unistd.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index e0be001..d4194ee 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -180,7 +180,10 @@ PICOTM_EXPORT
 char*
 getcwd_tx(char* buf, size_t size)
 {
-    privatize_tx(buf, size, PICOTM_TM_PRIVATIZE_LOAD);
+    if (buf) {
+        /* buf is NULL when getcwd() allocates the buffer */
+        privatize_tx(buf, size, PICOTM_TM_PRIVATIZE_STORE);
+    }
     return getcwd_tm(buf, size);
 }
 #endif
-- 
2.43.0


From 137dd8dcfdc7999831ea6e975b0c7805277afc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 62/95] fix: Don't follow symbolic links in lstat() and
 unlink()

Both calls operate on the link itself. Resolving the path first returned
the status of the link's target, or removed the target.
---
 modules/libc/src/fildes/fildes_tx.c | 39 ++++++-----------------------
 1 file changed, 8 insertions(+), 31 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index aa25722..121f3f1 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2231,35 +2231,23 @@ int
 fildes_tx_exec_lstat(struct fildes_tx* self, const char* path, struct stat* buf,
                      struct picotm_error* error)
 {
-    char* real_path = cwd_module_realpath(path, NULL, error);
+    char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
 
-    int res = lstat(real_path, buf);
+    int res = lstat(abs_path, buf);
     if (res < 0) {
         picotm_error_set_errno(error, errno);
         goto err_lstat;
     }
 
-    allocator_module_free(real_path, strlen(real_path), error);
-    if (picotm_error_is_set(error)) {
-        goto err_allocator_module_free;
-    }
+    free(abs_path);
 
     return res;
 
-err_allocator_module_free:
-    picotm_error_mark_as_non_recoverable(error);
-    return -1;
 err_lstat:
-    {
-        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_free(real_path, strlen(real_path), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
-    }
+    free(abs_path);
     return -1;
 }
 
@@ -3244,34 +3232,23 @@ int
 fildes_tx_exec_unlink(struct fildes_tx* self, const char* path,
                       struct picotm_error* error)
 {
-    char* real_path = cwd_module_realpath(path, NULL, error);
+    char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
 
-    int res = unlink(real_path);
+    int res = unlink(abs_path);
     if (res < 0) {
         picotm_error_set_errno(error, errno);
         goto err_unlink;
     }
 
-    allocator_module_free(real_path, strlen(real_path), error);
-    if (picotm_error_is_set(error)) {
-        picotm_error_mark_as_non_recoverable(error);
-        goto err;
-    }
+    free(abs_path);
 
     return res;
 
 err_unlink:
-    {
-        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_free(real_path, strlen(real_path), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
-    }
-err:
+    free(abs_path);
     return -1;
 }
 
-- 
2.43.0


From be0c58ff14dc10703587fac39e5df80fd658bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 63/95] fix: Report ENOENT for empty paths

An empty path was turned into the path of the working directory.
---
 modules/libc/src/fildes/fildes_tx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 121f3f1..7d00845 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1211,6 +1211,12 @@ absolute_path(const char* path, struct picotm_error* error)
 {
     assert(path);
 
+    if (!path[0]) {
+        /* an empty path never refers to the working directory */
+        picotm_error_set_errno(error, ENOENT);
+        return NULL;
+    }
+
     if (is_absolute_path(path)) {
         char* abs_path = strdup(path);
         if (!abs_path) {
-- 
2.43.0


From 1a533062a989d3f2d2b404e66900ef5b0ede9e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 64/95] fix: Preserve newlocale()'s base object until commit

A call to newlocale() modifies or releases its base object. After a
rollback, the base object was gone.
---
 modules/libc/src/locale/locale_event.h |  1 +
 modules/libc/src/locale/locale_tx.c    | 31 ++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/locale/locale_event.h b/modules/libc/src/locale/locale_event.h
index a9e7718..74ba012 100644
--- a/modules/libc/src/locale/locale_event.h
+++ b/modules/libc/src/locale/locale_event.h
@@ -69,6 +69,7 @@ struct locale_event {
 #if defined(PICOTM_LIBC_HAVE_NEWLOCALE) && PICOTM_LIBC_HAVE_NEWLOCALE
         struct {
             locale_t result;
+            locale_t base;
         } newlocale;
 #endif
         struct {
diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 156ba61..6b8468d 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -400,7 +400,7 @@ locale_tx_duplocale_exec(struct locale_tx* self, locale_t locobj,
     }
 
     struct locale_event arg;
-    arg.arg.newlocale.result = newlocobj;
+    arg.arg.duplocale.result = newlocobj;
 
     locale_log_append(self->log, LOCALE_OP_DUPLOCALE, &arg, error);
     if (picotm_error_is_set(error)) {
@@ -530,14 +530,26 @@ locale_tx_newlocale_exec(struct locale_tx* self, int category_mask,
 
     /* create a new locale */
 
-    locale_t locobj = newlocale(category_mask, locale, base);
+    /* A call to newlocale() modifies or releases the base object. We work
+     * on a duplicate, so that the base can be restored on a rollback. */
+    locale_t dupbase = (locale_t)0;
+    if (base != (locale_t)0) {
+        dupbase = duplocale(base);
+        if (dupbase == (locale_t)0) {
+            picotm_error_set_errno(error, errno);
+            return (locale_t)0;
+        }
+    }
+
+    locale_t locobj = newlocale(category_mask, locale, dupbase);
     if (locobj == (locale_t)0) {
         picotm_error_set_errno(error, errno);
-        return (locale_t)0;
+        goto err_newlocale;
     }
 
     struct locale_event arg;
     arg.arg.newlocale.result = locobj;
+    arg.arg.newlocale.base = base;
 
     locale_log_append(self->log, LOCALE_OP_NEWLOCALE, &arg, error);
     if (picotm_error_is_set(error)) {
@@ -549,12 +561,23 @@ locale_tx_newlocale_exec(struct locale_tx* self, int category_mask,
 err_locale_log_append:
     freelocale(locobj);
     return NULL;
+err_newlocale:
+    if (dupbase != (locale_t)0) {
+        freelocale(dupbase);
+    }
+    return NULL;
 }
 
 static void
 apply_newlocale(struct locale_tx* self, const struct locale_event* arg,
                 struct picotm_error* error)
-{ }
+{
+    assert(arg);
+
+    if (arg->arg.newlocale.base != (locale_t)0) {
+        freelocale(arg->arg.newlocale.base);
+    }
+}
 
 static void
 undo_newlocale(struct locale_tx* self, const struct locale_event* arg,
-- 
2.43.0


From bf87515d48bc0f03c5506334a61c0b033e0c206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:30 +0000
Subject: [PATCH 65/95] fix: Restore errno after undoing events

The value of errno is restored before the transaction's events are
undone. The undo operations can change it again.
---
 modules/libc/src/error/error_tx.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/error/error_tx.c b/modules/libc/src/error/error_tx.c
index 37dd582..5312c9d 100644
--- a/modules/libc/src/error/error_tx.c
+++ b/modules/libc/src/error/error_tx.c
@@ -22,7 +22,8 @@
 #include <errno.h>
 
 enum {
-    ERROR_TX_FLAG_ERRNO_SAVED = 1 << 0
+    ERROR_TX_FLAG_ERRNO_SAVED = 1 << 0,
+    ERROR_TX_FLAG_UNDO = 1 << 1
 };
 
 void
@@ -73,11 +74,17 @@ error_tx_undo(struct error_tx* self, struct picotm_error* error)
 {
     if (self->flags & ERROR_TX_FLAG_ERRNO_SAVED) {
         errno = self->saved_errno;
+        self->flags |= ERROR_TX_FLAG_UNDO;
     }
 }
 
 void
 error_tx_finish(struct error_tx* self, struct picotm_error* error)
 {
+    if (self->flags & ERROR_TX_FLAG_UNDO) {
+        /* The undo operations of other modules might have modified
+         * errno since we restored it. */
+        errno = self->saved_errno;
+    }
     self->flags = 0; /* marks errno as 'not saved' */
 }
-- 
2.43.0


From 843036b21ac7b9485c6743d7351f5883c9d86799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 66/95] fix: Resolve mkdtemp()'s template against the
 transaction's directory

A relative template was resolved without acquiring the current working
directory; thus depending on uncommitted changes of other transactions.
---
 modules/libc/src/fildes/fildes_tx.c | 34 +++++++++++++++++++++++++++++
 modules/libc/src/fildes/fildes_tx.h |  4 ++++
 modules/libc/src/fildes/module.c    | 10 +++++++++
 modules/libc/src/fildes/module.h    |  3 +++
 modules/libc/src/stdlib-tm.c        | 14 +++++-------
 modules/libc/src/unistd-tm.c        | 14 +++++-------
 6 files changed, 63 insertions(+), 16 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 7d00845..18bfff7 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2341,6 +2341,40 @@ err_mknod:
     return -1;
 }
 
+/*
+ * mkdtemp()
+ */
+
+char*
+fildes_tx_exec_mkdtemp(struct fildes_tx* self, char* pathname,
+                       struct picotm_error* error)
+{
+    assert(self);
+    assert(pathname);
+
+    char* abs_path = absolute_path(pathname, error);
+    if (picotm_error_is_set(error)) {
+        return NULL;
+    }
+
+    if (!mkdtemp(abs_path)) {
+        picotm_error_set_errno(error, errno);
+        goto err_mkdtemp;
+    }
+
+    /* Copy trailing filled XXXXXX back to pathname */
+    memcpy(pathname + strlen(pathname) - 6,
+           abs_path + strlen(abs_path) - 6, 6);
+
+    free(abs_path);
+
+    return pathname;
+
+err_mkdtemp:
+    free(abs_path);
+    return NULL;
+}
+
 /*
  * mkstemp()
  */
diff --git a/modules/libc/src/fildes/fildes_tx.h b/modules/libc/src/fildes/fildes_tx.h
index ed8a2e2..ef04620 100644
--- a/modules/libc/src/fildes/fildes_tx.h
+++ b/modules/libc/src/fildes/fildes_tx.h
@@ -168,6 +168,10 @@ int
 fildes_tx_exec_mknod(struct fildes_tx* self, const char* path, mode_t mode,
                      dev_t dev, struct picotm_error* error);
 
+char*
+fildes_tx_exec_mkdtemp(struct fildes_tx* self, char* pathname,
+                       struct picotm_error* error);
+
 int
 fildes_tx_exec_mkstemp(struct fildes_tx* self, char* pathname,
                        struct picotm_error* error);
diff --git a/modules/libc/src/fildes/module.c b/modules/libc/src/fildes/module.c
index e179a8d..0f7a31b 100644
--- a/modules/libc/src/fildes/module.c
+++ b/modules/libc/src/fildes/module.c
@@ -442,6 +442,16 @@ fildes_module_mknod(const char* path, mode_t mode, dev_t dev,
     return fildes_tx_exec_mknod(fildes_tx, path, mode, dev, error);
 }
 
+char*
+fildes_module_mkdtemp(char* template, struct picotm_error* error)
+{
+    struct fildes_tx* fildes_tx = get_fildes_tx(error);
+    if (picotm_error_is_set(error)) {
+        return NULL;
+    }
+    return fildes_tx_exec_mkdtemp(fildes_tx, template, error);
+}
+
 int
 fildes_module_mkstemp(char* template, struct picotm_error* error)
 {
diff --git a/modules/libc/src/fildes/module.h b/modules/libc/src/fildes/module.h
index 235b0fe..9e9df1a 100644
--- a/modules/libc/src/fildes/module.h
+++ b/modules/libc/src/fildes/module.h
@@ -106,6 +106,9 @@ int
 fildes_module_mknod(const char* path, mode_t mode, dev_t dev,
                     struct picotm_error* error);
 
+char*
+fildes_module_mkdtemp(char* template, struct picotm_error* error);
+
 int
 fildes_module_mkstemp(char* template, struct picotm_error* error);
 
diff --git a/modules/libc/src/stdlib-tm.c b/modules/libc/src/stdlib-tm.c
index 0dfeffc..4032616 100644
--- a/modules/libc/src/stdlib-tm.c
+++ b/modules/libc/src/stdlib-tm.c
@@ -67,16 +67,14 @@ mkdtemp_tm(char* template)
         picotm_recover_from_error(&error);
     } while (true);
 
-    char* str;
-
     do {
-        str = mkdtemp(template);
-        if (!str) {
-            picotm_recover_from_errno(errno);
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        char* res = fildes_module_mkdtemp(template, &error);
+        if (!picotm_error_is_set(&error)) {
+            return res;
         }
-    } while (!str);
-
-    return str;
+        picotm_recover_from_error(&error);
+    } while (true);
 }
 #endif
 
diff --git a/modules/libc/src/unistd-tm.c b/modules/libc/src/unistd-tm.c
index abfd79b..74c242c 100644
--- a/modules/libc/src/unistd-tm.c
+++ b/modules/libc/src/unistd-tm.c
@@ -116,16 +116,14 @@ mkdtemp_tm(char* template)
         picotm_recover_from_error(&error);
     } while (true);
 
-    char* str;
-
     do {
-        str = mkdtemp(template);
-        if (!str) {
-            picotm_recover_from_errno(errno);
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        char* res = fildes_module_mkdtemp(template, &error);
+        if (!picotm_error_is_set(&error)) {
+            return res;
         }
-    } while (!str);
-
-    return str;
+        picotm_recover_from_error(&error);
+    } while (true);
 }
 #endif
 
-- 
2.43.0


From e1c306307e6c4e58087cffe5ccf0e40a7441b810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 67/95] fix: Save errno before calling setlocale()

A failing setlocale() changes errno, which has to be restored when the
transaction aborts.
---
 modules/libc/src/locale-tm.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/libc/src/locale-tm.c b/modules/libc/src/locale-tm.c
index 18d9dd8..f29d30b 100644
--- a/modules/libc/src/locale-tm.c
+++ b/modules/libc/src/locale-tm.c
@@ -54,6 +54,15 @@ PICOTM_EXPORT
 char*
 setlocale_tm(int category, const char* locale)
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         char* res = locale_module_setlocale(category, locale, &error);
-- 
2.43.0


From 265c0251269d3fd58b98bb2e196d1f26d053f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 68/95] fix: Detect range errors when multiplying by negative
 integers

For negative right-hand sides, the check in PICOTM_ARITHMETIC_MUL_S_TX()
compared in the wrong direction. Products in range, such as -2 * -3, were
reported as errors, and products out of range were returned. Negating the
minimum value additionally overflowed.
---
 modules/arithmetic/include/picotm/picotm-arithmetic.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index 8b753dc..46a9c5c 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -430,13 +430,11 @@ __picotm_arithmetic_error_underflow_tx(void);
             if (lhs == idtval) {                                            \
                 return rhs;                                                 \
             } else if (lhs > idtval) {                                      \
-                if (__div(-maxval, -rhs) < -lhs) {                          \
+                if (__div(minval, lhs) > rhs) {                             \
                     __picotm_arithmetic_error_underflow_tx();               \
                 }                                                           \
             } else /* (lhs < idtval) */ {                                   \
-                if (lhs == minval) {                                        \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                } else if (__div(maxval, rhs) < lhs) {                      \
+                if (__div(maxval, lhs) > rhs) {                             \
                     __picotm_arithmetic_error_overflow_tx();                \
                 }                                                           \
             }                                                               \
-- 
2.43.0


From 2ea9cf0e304648d601a7037ef4d9de8ec77ae500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 69/95] fix: Detect overflows when subtracting from zero

Subtracting the minimum value of a signed integer type from zero
overflows. PICOTM_ARITHMETIC_SUB_S_TX() returned the difference from
zero without testing for overflows.
---
 modules/arithmetic/include/picotm/picotm-arithmetic.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index 46a9c5c..397272c 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -267,12 +267,8 @@ __picotm_arithmetic_error_underflow_tx(void);
                 __picotm_arithmetic_error_underflow_tx();                   \
             }                                                               \
         } else /* (rhs < idtval) */ {                                       \
-            if (lhs == idtval) {                                            \
-                return __sub(idtval, rhs);                                  \
-            } else /* (lhs > idtval) || (lhs < idtval) */ {                 \
-                if (__add(maxval, rhs) < lhs) {                             \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
+            if (__add(maxval, rhs) < lhs) {                                 \
+                __picotm_arithmetic_error_overflow_tx();                    \
             }                                                               \
         }                                                                   \
         return __sub(lhs, rhs);                                             \
-- 
2.43.0


From 2e3d2c4ff78d04bdef4ebc6e79152390b398ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 70/95] fix: Test floating-point results for range errors

The tests for floating-point range errors compared the operands with
limits that are subject to rounding themselves. Multiplying by values
between 1 and -1 reported errors for most of the products in range, and
all operations returned infinity for some of the results out of range. Now
the result is tested instead.
---
 .../include/picotm/picotm-arithmetic.h        | 111 ++++++------------
 1 file changed, 36 insertions(+), 75 deletions(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index 397272c..454f11e 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -205,20 +205,16 @@ __picotm_arithmetic_error_underflow_tx(void);
         static const __type idtval =  (__idt);                              \
         if (rhs == idtval) {                                                \
             return lhs;                                                     \
-        } else if (rhs > idtval) {                                          \
-            if (__sub(maxval, rhs) < lhs) {                                 \
-                __picotm_arithmetic_error_overflow_tx();                    \
-            }                                                               \
-        } else /* (rhs < idtval) */ {                                       \
-            if (lhs == idtval) {                                            \
-                return rhs;                                                 \
-            } else /* (lhs > idtval) || (lhs < idtval) */ {                 \
-                if (__sub(minval, rhs) > lhs) {                             \
-                    __picotm_arithmetic_error_underflow_tx();               \
-                }                                                           \
-            }                                                               \
         }                                                                   \
-        return __add(lhs, rhs);                                             \
+        /* Out-of-range results compare correctly, even if they round to    \
+         * infinity. */                                                     \
+        const __type res = __add(lhs, rhs);                                 \
+        if (res > maxval) {                                                 \
+            __picotm_arithmetic_error_overflow_tx();                        \
+        } else if (res < minval) {                                          \
+            __picotm_arithmetic_error_underflow_tx();                       \
+        }                                                                   \
+        return res;                                                         \
     }
 
 /*
@@ -348,20 +344,16 @@ __picotm_arithmetic_error_underflow_tx(void);
         static const __type idtval =  (__idt);                              \
         if (rhs == idtval) {                                                \
             return lhs;                                                     \
-        } else if (rhs > idtval) {                                          \
-            if (__add(minval, rhs) > lhs) {                                 \
-                __picotm_arithmetic_error_underflow_tx();                   \
-            }                                                               \
-        } else /* (rhs < idtval) */ {                                       \
-            if (lhs == idtval) {                                            \
-                return __sub(idtval, rhs);                                  \
-            } else /* (lhs > idtval) || (lhs < idtval) */ {                 \
-                if (__add(maxval, rhs) < lhs) {                             \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
-            }                                                               \
         }                                                                   \
-        return __sub(lhs, rhs);                                             \
+        /* Out-of-range results compare correctly, even if they round to    \
+         * infinity. */                                                     \
+        const __type res = __sub(lhs, rhs);                                 \
+        if (res > maxval) {                                                 \
+            __picotm_arithmetic_error_overflow_tx();                        \
+        } else if (res < minval) {                                          \
+            __picotm_arithmetic_error_underflow_tx();                       \
+        }                                                                   \
+        return res;                                                         \
     }
 
 /*
@@ -522,28 +514,16 @@ __picotm_arithmetic_error_underflow_tx(void);
             return asbval;                                                  \
         } else if (rhs == idtval) {                                         \
             return lhs;                                                     \
-        } else if (rhs > idtval) {                                          \
-            if (lhs > asbval) {                                             \
-                if (__div(maxval, rhs) < lhs) {                             \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
-            } else /* (lhs < absval) */ {                                   \
-                if (__div(minval, rhs) > lhs) {                             \
-                    __picotm_arithmetic_error_underflow_tx();               \
-                }                                                           \
-            }                                                               \
-        } else /* (rhs < -idtval) */ {                                      \
-            if (lhs > asbval) {                                             \
-                if (__div(minval, rhs) < lhs) {                             \
-                    __picotm_arithmetic_error_underflow_tx();               \
-                }                                                           \
-            } else /* (lhs < absval) */ {                                   \
-                if (__div(maxval, rhs) > lhs) {                             \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
-            }                                                               \
         }                                                                   \
-        return __mul(lhs, rhs);                                             \
+        /* Out-of-range results compare correctly, even if they round to    \
+         * infinity. */                                                     \
+        const __type res = __mul(lhs, rhs);                                 \
+        if (res > maxval) {                                                 \
+            __picotm_arithmetic_error_overflow_tx();                        \
+        } else if (res < minval) {                                          \
+            __picotm_arithmetic_error_underflow_tx();                       \
+        }                                                                   \
+        return res;                                                         \
     }
 
 /*
@@ -673,39 +653,20 @@ __picotm_arithmetic_error_underflow_tx(void);
         /* Instanciating constants avoids compiler warnings. */             \
         static const __type minval = -(__ext);                              \
         static const __type maxval =  (__ext);                              \
-        static const __type idtval =  (__idt);                              \
         static const __type asbval =  (__asb);                              \
         if (rhs == asbval) {                                                \
             /* Dividing by 0 is an error. */                                \
             __picotm_arithmetic_error_divbyzero_tx();                       \
-        } else if ((rhs > asbval) && (rhs < idtval)) {                      \
-            /* Dividing without integral part is a multiplication. */       \
-            if (lhs > asbval) {                                             \
-                const __type limit = __mul(maxval, rhs);                    \
-                if (lhs > limit) {                                          \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
-            } else if (lhs < asbval) {                                      \
-                const __type limit = __mul(minval, rhs);                    \
-                if (lhs < limit) {                                          \
-                    __picotm_arithmetic_error_underflow_tx();               \
-                }                                                           \
-            }                                                               \
-        } else if ((rhs < asbval) && (rhs > -idtval)) {                     \
-            /* Division without integral part is a multiplication. */       \
-            if (lhs > asbval) {                                             \
-                const __type limit = __mul(minval, rhs);                    \
-                if (lhs > limit) {                                          \
-                    __picotm_arithmetic_error_underflow_tx();               \
-                }                                                           \
-            } else if (lhs < asbval) {                                      \
-                const __type limit = __mul(maxval, rhs);                    \
-                if (lhs < limit) {                                          \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
-            }                                                               \
         }                                                                   \
-        return __div(lhs, rhs);                                             \
+        /* Out-of-range results compare correctly, even if they round to    \
+         * infinity. */                                                     \
+        const __type res = __div(lhs, rhs);                                 \
+        if (res > maxval) {                                                 \
+            __picotm_arithmetic_error_overflow_tx();                        \
+        } else if (res < minval) {                                          \
+            __picotm_arithmetic_error_underflow_tx();                       \
+        }                                                                   \
+        return res;                                                         \
     }
 
 PICOTM_END_DECLS
-- 
2.43.0


From 05b9a46bba414b58acab95977654697a96a0a9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 71/95] fix: Detect overflows when casting to negative ranges

The maximum value of the destination type got converted to an unsigned
type if the source type was unsigned. Casting to a type with a negative
maximum didn't detect overflows.
---
 modules/cast/include/picotm/picotm-cast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/cast/include/picotm/picotm-cast.h b/modules/cast/include/picotm/picotm-cast.h
index 6af9df9..0c84983 100644
--- a/modules/cast/include/picotm/picotm-cast.h
+++ b/modules/cast/include/picotm/picotm-cast.h
@@ -118,7 +118,7 @@ __picotm_cast_error_underflow_tx(void);
              * Destination minimal and maximal values might be bit-         \
              * wise converted to 'unsigned' type during compare             \
              * operations. */                                               \
-            if (value > dmax) {                                             \
+            if ((dmax < 0) || (value > dmax)) {                             \
                 __picotm_cast_error_overflow_tx();                          \
             } else if ((dmin > 0) && (value < dmin)) {                      \
                 /* Can only underflow in the rare case that the             \
-- 
2.43.0


From 756cafa6aadf0ba9a6967f9a915811748e4bfe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 72/95] fix: Clear exception flags before calling math
 functions

matherr_save_and_clear() returned before clearing the exception flags, so
flags from earlier operations made succeeding functions fail. With the
flags cleared, restore flags and errno of earlier operations if the
function succeeds.
---
 modules/libm/src/matherr.c | 18 +++++++++++++++---
 modules/libm/src/matherr.h | 24 ++++++++++++++++++------
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/modules/libm/src/matherr.c b/modules/libm/src/matherr.c
index a3a0508..49873c8 100644
--- a/modules/libm/src/matherr.c
+++ b/modules/libm/src/matherr.c
@@ -32,10 +32,11 @@
 #endif
 
 void
-matherr_save_and_clear(int except)
+matherr_save_and_clear(struct matherr* self, int except)
 {
     if (math_errhandling & MATH_ERRNO) {
         picotm_libc_save_errno();
+        self->saved_errno = errno;
         errno = 0;
     }
     if (math_errhandling & MATH_ERREXCEPT) {
@@ -43,16 +44,18 @@ matherr_save_and_clear(int except)
             struct picotm_error error = PICOTM_ERROR_INITIALIZER;
             fpu_module_save_fexcept(&error);
             if (!picotm_error_is_set(&error)) {
-                return;
+                break;
             }
             picotm_recover_from_error(&error);
         } while (true);
+        self->set_except = fetestexcept(except);
+        fegetexceptflag(&self->saved_except, self->set_except);
         feclearexcept(except);
     }
 }
 
 void
-matherr_test_and_resolve(int except)
+matherr_test_and_resolve(const struct matherr* self, int except)
 {
     if (math_errhandling & MATH_ERRNO) {
         if (errno) {
@@ -71,4 +74,13 @@ matherr_test_and_resolve(int except)
             picotm_recover_from_errno(ERANGE);
         }
     }
+
+    /* No errors; restore the state of earlier operations. Math
+     * functions only add to it. */
+    if (math_errhandling & MATH_ERREXCEPT) {
+        fesetexceptflag(&self->saved_except, self->set_except);
+    }
+    if (math_errhandling & MATH_ERRNO) {
+        errno = self->saved_errno;
+    }
 }
diff --git a/modules/libm/src/matherr.h b/modules/libm/src/matherr.h
index d0dd787..bc64964 100644
--- a/modules/libm/src/matherr.h
+++ b/modules/libm/src/matherr.h
@@ -27,16 +27,28 @@
  * \endcond
  */
 
+#include <fenv.h>
+
+/**
+ * The state before a call to a math function.
+ */
+struct matherr {
+    int       saved_errno;
+    int       set_except;
+    fexcept_t saved_except;
+};
+
 /**
  * Wraps math functions in error-handling helpers.
  */
-#define MATHERR(type_, res_, func_ , except_)   \
-    matherr_save_and_clear((except_));          \
-    type_ res_ = (func_);                       \
-    matherr_test_and_resolve((except_));
+#define MATHERR(type_, res_, func_ , except_)           \
+    struct matherr matherr_;                            \
+    matherr_save_and_clear(&matherr_, (except_));       \
+    type_ res_ = (func_);                               \
+    matherr_test_and_resolve(&matherr_, (except_));
 
 void
-matherr_save_and_clear(int except);
+matherr_save_and_clear(struct matherr* self, int except);
 
 void
-matherr_test_and_resolve(int except);
+matherr_test_and_resolve(const struct matherr* self, int except);
-- 
2.43.0


From 394c4ba3f921455aafb83cabb0ed450c85c25edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 73/95] fix: Don't save exception flags after the
 floating-point environment

The environment contains the flags. If they are saved later on, rolling
back restores the state at that point instead of the transaction's begin.
---
 modules/libm/src/fpu_tx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/libm/src/fpu_tx.c b/modules/libm/src/fpu_tx.c
index 9fa8dd4..23e4f70 100644
--- a/modules/libm/src/fpu_tx.c
+++ b/modules/libm/src/fpu_tx.c
@@ -95,7 +95,8 @@ fpu_tx_save_fenv(struct fpu_tx* self, struct picotm_error* error)
 void
 fpu_tx_save_fexcept(struct fpu_tx* self, struct picotm_error* error)
 {
-    if (self->flags & FPU_TX_FLAG_FEXCEPT_SAVED) {
+    /* The saved environment includes the exception flags. */
+    if (self->flags & (FPU_TX_FLAG_FENV_SAVED | FPU_TX_FLAG_FEXCEPT_SAVED)) {
         return;
     }
 
-- 
2.43.0


From 77826dfa4d6bf49feb2f9a1fa932e9d77e2652ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:27 +0000
Subject: [PATCH 74/95] fix: Export frexp_tm(), pthread_equal_tx() and
 pthread_self_tx()

---
 modules/libm/src/math-tm.c       | 1 +
 modules/libpthread/src/pthread.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/modules/libm/src/math-tm.c b/modules/libm/src/math-tm.c
index 888f88c..f85525c 100644
--- a/modules/libm/src/math-tm.c
+++ b/modules/libm/src/math-tm.c
@@ -24,6 +24,7 @@
 #include "matherr.h"
 
 #if defined(PICOTM_LIBM_HAVE_FREXP) && PICOTM_LIBM_HAVE_FREXP
+PICOTM_EXPORT
 double
 frexp_tm(double num, int* exp)
 {
diff --git a/modules/libpthread/src/pthread.c b/modules/libpthread/src/pthread.c
index bd72f06..6f5a0a7 100644
--- a/modules/libpthread/src/pthread.c
+++ b/modules/libpthread/src/pthread.c
@@ -22,6 +22,7 @@
 
 #if defined(PICOTM_LIBPTHREAD_HAVE_PTHREAD_EQUAL) && \
         PICOTM_LIBPTHREAD_HAVE_PTHREAD_EQUAL
+PICOTM_EXPORT
 int
 pthread_equal_tx(pthread_t t1, pthread_t t2)
 {
@@ -31,6 +32,7 @@ pthread_equal_tx(pthread_t t1, pthread_t t2)
 
 #if defined(PICOTM_LIBPTHREAD_HAVE_PTHREAD_SELF) && \
         PICOTM_LIBPTHREAD_HAVE_PTHREAD_SELF
+PICOTM_EXPORT
 pthread_t
 pthread_self_tx()
 {
-- 
2.43.0


From fc67f2f1eada3bc4c4e44ac8cdbfd5596c8cddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 75/95] fix: Access shared data from threads without pointer
 data

ptr_get_shared_data() and ptr_clear_shared_data() ignored data of other
threads if the calling thread had not yet set any data.
---
 modules/ptrdata/src/module.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/ptrdata/src/module.c b/modules/ptrdata/src/module.c
index b0c1c6e..a4d2fd4 100644
--- a/modules/ptrdata/src/module.c
+++ b/modules/ptrdata/src/module.c
@@ -169,11 +169,9 @@ void
 ptrdata_module_clear_shared_data(const void* ptr, struct picotm_error* error)
 {
     struct ptrdata_module* module =
-        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, false, error);
+        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, true, error);
     if (picotm_error_is_set(error)) {
         return;
-    } else if (!module) {
-        return;
     }
     ptrdata_clear_shared_data(module->global, ptr, error);
 }
@@ -182,11 +180,9 @@ void*
 ptrdata_module_get_shared_data(const void* ptr, struct picotm_error* error)
 {
     struct ptrdata_module* module =
-        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, false, error);
+        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, true, error);
     if (picotm_error_is_set(error)) {
         return NULL;
-    } else if (!module) {
-        return NULL;
     }
     return ptrdata_get_shared_data(module->global, ptr, error);
 }
-- 
2.43.0


From 0f2af54bd8cb6760b063ed4bf43f3855c13cda12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 76/95] fix: Recover from failed clean-up of path buffers

Path operations on file descriptors marked errors as non-recoverable if
the logging of the path buffer's release failed. The buffer is allocated
by the transaction's allocator and released during the rollback.
---
 modules/libc/src/fildes/fildes_tx.c | 50 +++++++----------------------
 1 file changed, 11 insertions(+), 39 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 18bfff7..87e2103 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1256,18 +1256,11 @@ absolute_path(const char* path, struct picotm_error* error)
 
     return abs_path;
 
+    /* The transaction allocated cwd; the rollback releases it. */
+
 err_allocator_module_free:
     free(abs_path);
-    picotm_error_mark_as_non_recoverable(error);
-    return NULL;
 err_malloc:
-    {
-        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_free(cwd, cwdlen, &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
-    }
     return NULL;
 }
 
@@ -1507,17 +1500,10 @@ fildes_tx_exec_chmod(struct fildes_tx* self, const char* path, mode_t mode,
 
     return res;
 
-err_allocator_module_free:
-    picotm_error_mark_as_non_recoverable(error);
-    return -1;
+    /* The transaction allocated real_path; the rollback releases it. */
+
 err_chmod:
-    {
-        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_free(real_path, strlen(real_path), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
-    }
+err_allocator_module_free:
     return -1;
 }
 
@@ -2085,19 +2071,12 @@ fildes_tx_exec_link(struct fildes_tx* self, const char* path1, const char* path2
 
     return res;
 
-err_allocator_module_free:
-    picotm_error_mark_as_non_recoverable(error);
-    return -1;
+    /* The transaction allocated real_path1; the rollback releases it. */
+
 err_link:
     free(abs_path2);
 err_absolute_path:
-    {
-        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_free(real_path1, strlen(real_path1), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
-    }
+err_allocator_module_free:
     return -1;
 }
 
@@ -3217,17 +3196,10 @@ fildes_tx_exec_stat(struct fildes_tx* self, const char* path,
 
     return res;
 
-err_allocator_module_free:
-    picotm_error_mark_as_non_recoverable(error);
-    return -1;
+    /* The transaction allocated real_path; the rollback releases it. */
+
 err_stat:
-    {
-        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_free(real_path, strlen(real_path), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
-    }
+err_allocator_module_free:
     return -1;
 }
 
-- 
2.43.0


From 916d0e170b7febe18414f052b40e3980c96a30b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 77/95] fix: Handle errors while acquiring locale state

Failing to store the shared state of a locale object released state with
references; which asserts. Errors during the look-up were ignored. Failed
logging of uselocale() left the new locale installed.
---
 modules/libc/src/locale/locale_tx.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 6b8468d..696f46b 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -179,7 +179,10 @@ acquire_locale_state(locale_t locobj, struct locale* global,
     do {
         picotm_spinlock_lock(&global->locale_state_lock);
         lstate = ptr_get_shared_data(locobj, error);
-        if (lstate) {
+        if (picotm_error_is_set(error)) {
+            picotm_spinlock_unlock(&global->locale_state_lock);
+            return NULL;
+        } else if (lstate) {
             ++lstate->ref_count;
             picotm_spinlock_unlock(&global->locale_state_lock);
             return lstate;
@@ -208,6 +211,7 @@ acquire_locale_state(locale_t locobj, struct locale* global,
     /* not reachable */
 
 err_ptr_test_and_set_shared_data:
+    --lstate->ref_count;
     locale_state_uninit(lstate);
     free(lstate);
     return NULL;
@@ -785,10 +789,19 @@ uselocale_wr_exec(struct locale_tx* self, locale_t newloc,
 
     locale_log_append(self->log, LOCALE_OP_USELOCALE, &arg, error);
     if (picotm_error_is_set(error)) {
-        return (locale_t)0;
+        goto err_locale_log_append;
     }
 
     return oldloc;
+
+err_locale_log_append:
+    if (uselocale(oldloc) == (locale_t)0) {
+        /* We keep the original error code. We mark the error
+         * as non-recoverable, because the function's clean-up
+         * block failed. */
+        picotm_error_mark_as_non_recoverable(error);
+    }
+    return (locale_t)0;
 }
 
 locale_t
-- 
2.43.0


From 56602db6208f18df76208e5e4a02c601b6be2604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 78/95] fix: Undo creation of files without memory allocation

The rollback of open() with O_CREAT|O_EXCL and of mkstemp() allocated the
path of the file to unlink. If that failed, the file remained.
---
 modules/libc/src/fildes/fildes_tx.c | 32 ++++++++++++-----------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 87e2103..b925000 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -24,6 +24,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -1179,7 +1180,7 @@ add_dup_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
  * Unix systems might use different techniques.
  */
 static char*
-fildes_path(int fildes, struct picotm_error* error)
+fildes_path(int fildes, char* resolved_path, struct picotm_error* error)
 {
     char symlink[40];
     int res = snprintf(symlink, sizeof(symlink), "/proc/self/fd/%d", fildes);
@@ -1191,7 +1192,7 @@ fildes_path(int fildes, struct picotm_error* error)
         return NULL;
     }
 
-    char* path = realpath(symlink, NULL);
+    char* path = realpath(symlink, resolved_path);
     if (!path) {
         picotm_error_set_errno(error, errno);
         return NULL;
@@ -1276,7 +1277,10 @@ unlink_fildes(int fildes, struct picotm_error* error)
 {
     struct stat buf[2];
 
-    char* path = fildes_path(fildes, error);
+    /* This function is part of the rollback, which shall
+     * succeed if the system is out of memory. */
+    char path[PATH_MAX];
+    fildes_path(fildes, path, error);
     if (picotm_error_is_set(error)) {
         return;
     }
@@ -1286,22 +1290,22 @@ unlink_fildes(int fildes, struct picotm_error* error)
     int res = fstat(fildes, buf + 0);
     if (res < 0) {
         picotm_error_set_errno(error, errno);
-        goto err_fstat;
+        return;
     }
 
     res = stat(path, buf + 1);
     if (res < 0) {
         picotm_error_set_errno(error, errno);
-        goto err_stat;
+        return;
     }
 
     /* Check if file descriptor and path refer to the same file */
 
     if (buf[0].st_dev != buf[1].st_dev) {
-        goto out;
+        return;
     }
     if (buf[0].st_ino != buf[1].st_ino) {
-        goto out;
+        return;
     }
 
     /* Unlink file */
@@ -1309,18 +1313,8 @@ unlink_fildes(int fildes, struct picotm_error* error)
     res = unlink(path);
     if (res < 0) {
         picotm_error_set_errno(error, errno);
-        goto err_unlink;
+        return;
     }
-
-out:
-    free(path);
-
-    return;
-
-err_unlink:
-err_stat:
-err_fstat:
-    free(path);
 }
 
 /*
@@ -1758,7 +1752,7 @@ fildes_tx_exec_fchdir(struct fildes_tx* self, int fildes,
         return -1;
     }
 
-    char* path = fildes_path(fildes, error);
+    char* path = fildes_path(fildes, NULL, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
-- 
2.43.0


From 10ad78715c7c4081930d80588c8a7685a2606cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 79/95] fix: Undo fchmod() if logging the operation failed

---
 modules/libc/src/fildes/fildes_tx.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index b925000..03c880b 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1797,11 +1797,21 @@ fildes_tx_exec_fchmod(struct fildes_tx* self, int fildes, mode_t mode,
     if (cookie >= 0) {
         fildes_log_append(self->log, FILDES_OP_FCHMOD, fildes, cookie, error);
         if (picotm_error_is_set(error)) {
-            return -1;
+            goto err_fildes_log_append;
         }
     }
 
     return res;
+
+err_fildes_log_append:
+    {
+        struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
+        fd_tx_fchmod_undo(fd_tx, fildes, cookie, &tmp_error);
+        if (picotm_error_is_set(&tmp_error)) {
+            picotm_error_mark_as_non_recoverable(error);
+        }
+    }
+    return -1;
 }
 
 static void
-- 
2.43.0


From 178c4536855c38fae28a342b24c3b698515ab0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 80/95] fix: Restore flags of file descriptors on rollback

The undo of F_SETFD set the flags from an uninitialised value.
---
 modules/libc/src/fildes/fd_tx.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index fd9b64f..8095aba 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -541,7 +541,9 @@ fd_tx_fcntl_exec(struct fd_tx* self,
         return -1;
     }
 
-    union fcntl_arg oldvalue;
+    union fcntl_arg oldvalue = {
+        .arg0 = 0
+    };
 
     int res = -1;
 
@@ -551,6 +553,10 @@ fd_tx_fcntl_exec(struct fd_tx* self,
                 picotm_error_set_revocable(error);
                 break;
             }
+            oldvalue.arg0 = fd_getfd(self->fd, error);
+            if (picotm_error_is_set(error)) {
+                break;
+            }
             res = fd_setfd(self->fd, arg->arg0, error);
             if (picotm_error_is_set(error)) {
                 break;
-- 
2.43.0


From 89d6b62896c8de53afcd9df95269a64019c164c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:40 +0000
Subject: [PATCH 81/95] fix: Make headers compile if they come first

Without a C library header in front of picotm's, the declarations of
__BEGIN_DECLS and __END_DECLS are missing and PICOTM_BEGIN_DECLS expanded
to C++ code (with 'export' instead of 'extern') even in C programs.
---
 include/picotm/compiler.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/picotm/compiler.h b/include/picotm/compiler.h
index 420ace1..75ea6db 100644
--- a/include/picotm/compiler.h
+++ b/include/picotm/compiler.h
@@ -40,8 +40,10 @@
  */
 #ifdef __BEGIN_DECLS
     #define PICOTM_BEGIN_DECLS  __BEGIN_DECLS
+#elif defined(__cplusplus)
+    #define PICOTM_BEGIN_DECLS  extern "C" {
 #else
-    #define PICOTM_BEGIN_DECLS  export "C" {
+    #define PICOTM_BEGIN_DECLS
 #endif
 
 /**
@@ -51,8 +53,10 @@
  */
 #ifdef __END_DECLS
     #define PICOTM_END_DECLS    __END_DECLS
-#else
+#elif defined(__cplusplus)
     #define PICOTM_END_DECLS    }
+#else
+    #define PICOTM_END_DECLS
 #endif
 
 /**
-- 
2.43.0


From 1b80c26c9a1a27c2be73d91727b7ecaed494499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 82/95] fix: Pass record locks to fcntl() by reference

F_GETLK, F_SETLK and F_SETLKW expect a pointer to the structure.
---
 modules/libc/src/fildes/chrdev_tx_ops.c  | 4 ++--
 modules/libc/src/fildes/dir_tx_ops.c     | 4 ++--
 modules/libc/src/fildes/fifo_tx_ops.c    | 4 ++--
 modules/libc/src/fildes/regfile_tx_ops.c | 4 ++--
 modules/libc/src/fildes/socket_tx_ops.c  | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index 1c9ab94..66e078c 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -106,7 +106,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -137,7 +137,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/dir_tx_ops.c b/modules/libc/src/fildes/dir_tx_ops.c
index fb512ee..f11b303 100644
--- a/modules/libc/src/fildes/dir_tx_ops.c
+++ b/modules/libc/src/fildes/dir_tx_ops.c
@@ -166,7 +166,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -197,7 +197,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 42d67c5..78c6a95 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -105,7 +105,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -136,7 +136,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index d2f364c..d53bc3f 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -173,7 +173,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -204,7 +204,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 13bc069..2705530 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -169,7 +169,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -200,7 +200,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
-- 
2.43.0


From 766d4fdb395d4e84926b40c17a56a478198aa6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 83/95] fix: Correct the name of the initializer macro in
 picotm_slist's interfaces

---
 include/picotm/picotm-lib-slist.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/picotm/picotm-lib-slist.h b/include/picotm/picotm-lib-slist.h
index 2217016..2c65071 100644
--- a/include/picotm/picotm-lib-slist.h
+++ b/include/picotm/picotm-lib-slist.h
@@ -260,7 +260,7 @@ struct picotm_slist {
  * Static-initializer macro for singly-linked list items.
  */
 #define PICOTM_SLIST_ITEM_INITIALIZER   \
-    __PIOTM_SLIST_INITIALIZER(NULL)
+    __PICOTM_SLIST_INITIALIZER(NULL)
 
 /**
  * \ingroup group_lib
@@ -268,7 +268,7 @@ struct picotm_slist {
  * \param   head_   The singly-linked list's head entry.
  */
 #define PICOTM_SLIST_HEAD_INITIALIZER(head_)    \
-    __PIOTM_SLIST_INITIALIZER(head_)
+    __PICOTM_SLIST_INITIALIZER(head_)
 
 /**
  * \ingroup group_lib
-- 
2.43.0


From 230b58520c0ee6b74f91f553797c6656453524f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 84/95] fix: Don't walk backwards over empty tables

Without memory, the address of the last element of an empty table wraps
around and the call-back function was invoked with an invalid pointer.
---
 src/table.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/table.c b/src/table.c
index 0503a6d..8519bf9 100644
--- a/src/table.c
+++ b/src/table.c
@@ -167,10 +167,8 @@ tabrwalk_1(void* restrict base, size_t nelems, size_t siz,
     const unsigned char* beg = base;
     unsigned char* end = base + nelems * siz;
 
-    end -= siz;
-
-    while (end >= beg) {
-        size_t dec = walk(end, error);
+    while (end > beg) {
+        size_t dec = walk(end - siz, error);
 
         if (picotm_error_is_set(error)) {
             return pos;
@@ -193,10 +191,8 @@ tabrwalk_2(void* restrict base, size_t nelems, size_t siz,
     const unsigned char* beg = base;
     unsigned char* end = base + nelems * siz;
 
-    end -= siz;
-
-    while (end >= beg) {
-        size_t dec = walk(end, data, error);
+    while (end > beg) {
+        size_t dec = walk(end - siz, data, error);
 
         if (picotm_error_is_set(error)) {
             return pos;
-- 
2.43.0


From d5099c379a8533cb9e6955f8cbca1f1ece56c7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 85/95] fix: Call remainderf() from remainderf_tx()

---
 modules/libm/src/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libm/src/math.c b/modules/libm/src/math.c
index 4eb9bd2..c0b733f 100644
--- a/modules/libm/src/math.c
+++ b/modules/libm/src/math.c
@@ -1377,7 +1377,7 @@ PICOTM_EXPORT
 float
 remainderf_tx(float x, float y)
 {
-    MATHERR(float, res, remainderl(x, y), FE_INVALID);
+    MATHERR(float, res, remainderf(x, y), FE_INVALID);
     return res;
 }
 #endif
-- 
2.43.0


From 36c17cd06383e1e43872e9d18fb15c300e6f4993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 86/95] fix: Let PICOTM_SHARED_REF16_INITIALIZER compile

The macro's parameter had the name of the structure's field, so that
its expansion replaced the field's name in the designated initializer
and did not compile.
---
 include/picotm/picotm-lib-ref.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/picotm/picotm-lib-ref.h b/include/picotm/picotm-lib-ref.h
index 1999523..577de28 100644
--- a/include/picotm/picotm-lib-ref.h
+++ b/include/picotm/picotm-lib-ref.h
@@ -106,11 +106,11 @@ struct picotm_shared_ref16 {
 /**
  * \ingroup group_lib
  * Initializes a static reference counter with the given value.
- * \param   count   The initial reference count
+ * \param   __count   The initial reference count
  */
-#define PICOTM_SHARED_REF16_INITIALIZER(count)  \
-{                                               \
-    .count = ATOMIC_VAR_INIT(count)             \
+#define PICOTM_SHARED_REF16_INITIALIZER(__count)    \
+{                                                   \
+    .count = ATOMIC_VAR_INIT(__count)               \
 }
 
 /**
-- 
2.43.0


From c9dcf89d1ea11df36afbd06d19404862b7c2bc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:15 +0000
Subject: [PATCH 87/95] fix: Declare load, store and privatize functions of
 libm's types

---
 modules/libm/include/picotm/complex.h | 12 ++++++------
 modules/libm/include/picotm/math.h    |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/libm/include/picotm/complex.h b/modules/libm/include/picotm/complex.h
index 5332a36..9bed9bf 100644
--- a/modules/libm/include/picotm/complex.h
+++ b/modules/libm/include/picotm/complex.h
@@ -34,8 +34,8 @@ PICOTM_BEGIN_DECLS
  * \brief Transactional wrappers for interfaces of <complex.h>.
  */
 
-#if defined(PICOTM_LIBC_HAVE_TYPE_DOUBLE__COMPLEX) && \
-            PICOTM_LIBC_HAVE_TYPE_DOUBLE__COMPLEX || \
+#if defined(PICOTM_LIBM_HAVE_TYPE_DOUBLE__COMPLEX) && \
+            PICOTM_LIBM_HAVE_TYPE_DOUBLE__COMPLEX || \
     defined(__PICOTM_DOXYGEN)
 /** \addtogroup group_libm
  * \{ */
@@ -45,8 +45,8 @@ PICOTM_TM_PRIVATIZE_TX(cdouble, double _Complex);
 /** \} */
 #endif
 
-#if defined(PICOTM_LIBC_HAVE_TYPE_FLOAT__COMPLEX) && \
-            PICOTM_LIBC_HAVE_TYPE_FLOAT__COMPLEX || \
+#if defined(PICOTM_LIBM_HAVE_TYPE_FLOAT__COMPLEX) && \
+            PICOTM_LIBM_HAVE_TYPE_FLOAT__COMPLEX || \
     defined(__PICOTM_DOXYGEN)
 /** \addtogroup group_libm
  * \{ */
@@ -56,8 +56,8 @@ PICOTM_TM_PRIVATIZE_TX(cfloat, float _Complex);
 /** \} */
 #endif
 
-#if defined(PICOTM_LIBC_HAVE_TYPE_LONG_DOUBLE__COMPLEX) && \
-            PICOTM_LIBC_HAVE_TYPE_LONG_DOUBLE__COMPLEX || \
+#if defined(PICOTM_LIBM_HAVE_TYPE_LONG_DOUBLE__COMPLEX) && \
+            PICOTM_LIBM_HAVE_TYPE_LONG_DOUBLE__COMPLEX || \
     defined(__PICOTM_DOXYGEN)
 /** \addtogroup group_libm
  * \{ */
diff --git a/modules/libm/include/picotm/math.h b/modules/libm/include/picotm/math.h
index fff70e8..386f315 100644
--- a/modules/libm/include/picotm/math.h
+++ b/modules/libm/include/picotm/math.h
@@ -34,8 +34,8 @@ PICOTM_BEGIN_DECLS
  * \brief Transactional wrappers for interfaces of <math.h>.
  */
 
-#if defined(PICOTM_LIBC_HAVE_TYPE_DOUBLE_T) && \
-            PICOTM_LIBC_HAVE_TYPE_DOUBLE_T || \
+#if defined(PICOTM_LIBM_HAVE_TYPE_DOUBLE_T) && \
+            PICOTM_LIBM_HAVE_TYPE_DOUBLE_T || \
     defined(__PICOTM_DOXYGEN)
 /** \addtogroup group_libm
  * \{ */
@@ -45,8 +45,8 @@ PICOTM_TM_PRIVATIZE_TX(double_t, double_t);
 /** \} */
 #endif
 
-#if defined(PICOTM_LIBC_HAVE_TYPE_FLOAT_T) && \
-            PICOTM_LIBC_HAVE_TYPE_FLOAT_T || \
+#if defined(PICOTM_LIBM_HAVE_TYPE_FLOAT_T) && \
+            PICOTM_LIBM_HAVE_TYPE_FLOAT_T || \
     defined(__PICOTM_DOXYGEN)
 /** \addtogroup group_libm
  * \{ */
-- 
2.43.0


From 6fa47a358857ce9e7ad9a22a17dfde5fd9bf9fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:15 +0000
Subject: [PATCH 88/95] fix: Return int from ilogb_tx() and its variants

---
 modules/libm/include/picotm/math.h |  6 +++---
 modules/libm/src/math.c            | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/modules/libm/include/picotm/math.h b/modules/libm/include/picotm/math.h
index 386f315..1dfa2ab 100644
--- a/modules/libm/include/picotm/math.h
+++ b/modules/libm/include/picotm/math.h
@@ -1158,7 +1158,7 @@ PICOTM_NOTHROW
  * [posix::ilogb]:
  *  http://pubs.opengroup.org/onlinepubs/9699919799/functions/ilogb.html
  */
-double
+int
 ilogb_tx(double x);
 #endif
 
@@ -1172,7 +1172,7 @@ PICOTM_NOTHROW
  * [posix::ilogbf]:
  *  http://pubs.opengroup.org/onlinepubs/9699919799/functions/ilogbf.html
  */
-float
+int
 ilogbf_tx(float x);
 #endif
 
@@ -1186,7 +1186,7 @@ PICOTM_NOTHROW
  * [posix::ilogbl]:
  *  http://pubs.opengroup.org/onlinepubs/9699919799/functions/ilogbl.html
  */
-long double
+int
 ilogbl_tx(long double x);
 #endif
 
diff --git a/modules/libm/src/math.c b/modules/libm/src/math.c
index c0b733f..2849ca5 100644
--- a/modules/libm/src/math.c
+++ b/modules/libm/src/math.c
@@ -790,30 +790,30 @@ hypotl_tx(long double x, long double y)
 
 #if defined(PICOTM_LIBM_HAVE_ILOGB) && PICOTM_LIBM_HAVE_ILOGB
 PICOTM_EXPORT
-double
+int
 ilogb_tx(double x)
 {
-    MATHERR(double, res, ilogb(x), FE_INVALID);
+    MATHERR(int, res, ilogb(x), FE_INVALID);
     return res;
 }
 #endif
 
 #if defined(PICOTM_LIBM_HAVE_ILOGBF) && PICOTM_LIBM_HAVE_ILOGBF
 PICOTM_EXPORT
-float
+int
 ilogbf_tx(float x)
 {
-    MATHERR(float, res, ilogbf(x), FE_INVALID);
+    MATHERR(int, res, ilogbf(x), FE_INVALID);
     return res;
 }
 #endif
 
 #if defined(PICOTM_LIBM_HAVE_ILOGBL) && PICOTM_LIBM_HAVE_ILOGBL
 PICOTM_EXPORT
-long double
+int
 ilogbl_tx(long double x)
 {
-    MATHERR(long double, res, ilogbl(x), FE_INVALID);
+    MATHERR(int, res, ilogbl(x), FE_INVALID);
     return res;
 }
 #endif
-- 
2.43.0


From f029a7b13e78cb2490c0384befe70fe0633fa7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:15 +0000
Subject: [PATCH 89/95] fix: Declare strcpy_tx() and strcpy_tm()

---
 modules/libc/include/picotm/config/picotm-libc-config.h.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/libc/include/picotm/config/picotm-libc-config.h.in b/modules/libc/include/picotm/config/picotm-libc-config.h.in
index fc4c6d2..62a1f2a 100644
--- a/modules/libc/include/picotm/config/picotm-libc-config.h.in
+++ b/modules/libc/include/picotm/config/picotm-libc-config.h.in
@@ -544,6 +544,10 @@
 #undef PICOTM_LIBC_HAVE_STRCMP
 #endif
 
+#ifndef PICOTM_LIBC_HAVE_STRCPY
+#undef PICOTM_LIBC_HAVE_STRCPY
+#endif
+
 #ifndef PICOTM_LIBC_HAVE_STRCSPN
 #undef PICOTM_LIBC_HAVE_STRCSPN
 #endif
-- 
2.43.0


From ff8afd1260402533ea73690d30e93e00520d645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:15 +0000
Subject: [PATCH 90/95] fix: Declare asinl_tx()

---
 modules/libm/include/picotm/config/picotm-libm-config.h.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/libm/include/picotm/config/picotm-libm-config.h.in b/modules/libm/include/picotm/config/picotm-libm-config.h.in
index b9a6e1f..3d94c12 100644
--- a/modules/libm/include/picotm/config/picotm-libm-config.h.in
+++ b/modules/libm/include/picotm/config/picotm-libm-config.h.in
@@ -92,8 +92,8 @@
 #undef PICOTM_LIBM_HAVE_ASINHL
 #endif
 
-#ifndef PICOTM_LIBM_HAVE_ASINH
-#undef PICOTM_LIBM_HAVE_ASINH
+#ifndef PICOTM_LIBM_HAVE_ASINL
+#undef PICOTM_LIBM_HAVE_ASINL
 #endif
 
 #ifndef PICOTM_LIBM_HAVE_ATAN
-- 
2.43.0


From 58948e0077d6490f02c0b0e6498b520162cf345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:15 +0000
Subject: [PATCH 91/95] fix: Define strerror_r_tm() with GNU semantics

---
 modules/libc/include/picotm/string-tm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/libc/include/picotm/string-tm.h b/modules/libc/include/picotm/string-tm.h
index 1dd8bad..fd5418a 100644
--- a/modules/libc/include/picotm/string-tm.h
+++ b/modules/libc/include/picotm/string-tm.h
@@ -247,9 +247,9 @@ __strerror_r_posix_tm(int errnum, char* buf, size_t buflen);
 #if defined(__GNU_LIBRARY__) && \
         (defined(_GNU_SOURCE) || (_POSIX_C_SOURCE < 200112L)) || \
     defined(__CYGWIN__) && (__GNU_VISIBLE)
-#define strerror_r_tx   __strerror_r_gnu_tx
+#define strerror_r_tm   __strerror_r_gnu_tm
 #else
-#define strerror_r_tx   __strerror_r_posix_tx
+#define strerror_r_tm   __strerror_r_posix_tm
 #endif
 #endif
 
-- 
2.43.0


From 027d9ddb674117d7274ae919edb60339caa88126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:15 +0000
Subject: [PATCH 92/95] fix: Don't lock the spinlock of an acquired signal
 again

---
 modules/libc/src/signal/sigstate.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/signal/sigstate.c b/modules/libc/src/signal/sigstate.c
index 8ab1391..a3c65f6 100644
--- a/modules/libc/src/signal/sigstate.c
+++ b/modules/libc/src/signal/sigstate.c
@@ -52,13 +52,15 @@ sigstate_entry_acquire(struct sigstate_entry* self, int signum,
         return;
     }
 
-    picotm_spinlock_lock(&self->lock);
-
+    /* If the signal has been acquired before, the signal handler can run
+     * on this thread and lock at any time. So don't lock here. No other
+     * thread modifies the field concurrently. */
     if (self->acquired) {
-        picotm_spinlock_unlock(&self->lock);
         return;
     }
 
+    picotm_spinlock_lock(&self->lock);
+
     /* We set-up the fields *before* acquiring the signal. The
      * call to sigaction() acts as 'atomic' state change. */
     self->nontx_sigaction = nontx_sigaction;
-- 
2.43.0


From f86e639aada9d1bdb08ccfd88692611444f67b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:15 +0000
Subject: [PATCH 93/95] fix: Save errno in time functions and sleep_tx()

---
 modules/libc/src/time.c   | 33 +++++++++++++++++++++++++++++++++
 modules/libc/src/unistd.c |  9 +++++++++
 2 files changed, 42 insertions(+)

diff --git a/modules/libc/src/time.c b/modules/libc/src/time.c
index ee377b5..558c4aa 100644
--- a/modules/libc/src/time.c
+++ b/modules/libc/src/time.c
@@ -19,6 +19,12 @@
  */
 
 #include "picotm/time.h"
+#include "picotm/picotm.h"
+#include "picotm/picotm-error.h"
+#include "picotm/picotm-module.h"
+#include "picotm/picotm-tm.h"
+#include <stdbool.h>
+#include "error/module.h"
 
 #if defined(PICOTM_LIBC_HAVE_STRFTIME) && \
             PICOTM_LIBC_HAVE_STRFTIME
@@ -27,6 +33,15 @@ size_t
 strftime_tx(char* restrict s, size_t maxsize, const char* restrict format,
             const struct tm* restrict timeptr)
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     privatize_tx(s, maxsize, PICOTM_TM_PRIVATIZE_STORE);
     privatize_c_tx(format, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     privatize_struct_tm_tx(timeptr, PICOTM_TM_PRIVATIZE_LOAD);
@@ -41,6 +56,15 @@ size_t
 strftime_l_tx(char* restrict s, size_t maxsize, const char* restrict format,
               const struct tm* restrict timeptr, locale_t locale)
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     privatize_tx(s, maxsize, PICOTM_TM_PRIVATIZE_STORE);
     privatize_c_tx(format, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     privatize_struct_tm_tx(timeptr, PICOTM_TM_PRIVATIZE_LOAD);
@@ -55,6 +79,15 @@ char*
 strptime_tx(const char* restrict buf, const char* restrict format,
             struct tm* restrict tm)
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     privatize_c_tx(buf, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     privatize_c_tx(format, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     privatize_struct_tm_tx(tm, PICOTM_TM_PRIVATIZE_STORE);
diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index d4194ee..2ec811b 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -280,6 +280,15 @@ PICOTM_EXPORT
 unsigned
 sleep_tx(unsigned seconds)
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     do {
         seconds = sleep(seconds);
     } while (seconds);
-- 
2.43.0


From 195d19137fbbdbab183150210ffd0a3c53b4f651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 94/95] fix: Save errno and status flags in all math functions

Complex functions and math functions without error reporting changed
errno and the floating-point status flags, but didn't save them. So the
changes remained after the transaction aborted.
---
 modules/libm/src/complex.c | 55 ++++++++++++++++++++++++++++++++++++++
 modules/libm/src/math-tm.c |  6 +++++
 modules/libm/src/math.c    | 27 +++++++++++++++++++
 modules/libm/src/matherr.c | 17 +++++++++---
 modules/libm/src/matherr.h |  7 +++++
 5 files changed, 109 insertions(+), 3 deletions(-)

diff --git a/modules/libm/src/complex.c b/modules/libm/src/complex.c
index eeb4942..163b1f9 100644
--- a/modules/libm/src/complex.c
+++ b/modules/libm/src/complex.c
@@ -19,12 +19,14 @@
  */
 
 #include "picotm/complex.h"
+#include "matherr.h"
 
 #if defined(PICOTM_LIBM_HAVE_CABS) && PICOTM_LIBM_HAVE_CABS
 PICOTM_EXPORT
 double
 cabs_tx(double complex z)
 {
+    matherr_save();
     return cabs(z);
 }
 #endif
@@ -34,6 +36,7 @@ PICOTM_EXPORT
 float
 cabsf_tx(float complex z)
 {
+    matherr_save();
     return cabsf(z);
 }
 #endif
@@ -43,6 +46,7 @@ PICOTM_EXPORT
 long double
 cabsl_tx(long double complex z)
 {
+    matherr_save();
     return cabsl(z);
 }
 #endif
@@ -52,6 +56,7 @@ PICOTM_EXPORT
 double complex
 cacos_tx(double complex z)
 {
+    matherr_save();
     return cacos(z);
 }
 #endif
@@ -61,6 +66,7 @@ PICOTM_EXPORT
 float complex
 cacosf_tx(float complex z)
 {
+    matherr_save();
     return cacosf(z);
 }
 #endif
@@ -70,6 +76,7 @@ PICOTM_EXPORT
 double complex
 cacosh_tx(double complex z)
 {
+    matherr_save();
     return cacosh(z);
 }
 #endif
@@ -79,6 +86,7 @@ PICOTM_EXPORT
 float complex
 cacoshf_tx(float complex z)
 {
+    matherr_save();
     return cacoshf(z);
 }
 #endif
@@ -88,6 +96,7 @@ PICOTM_EXPORT
 long double complex
 cacoshl_tx(long double complex z)
 {
+    matherr_save();
     return cacoshl(z);
 }
 #endif
@@ -97,6 +106,7 @@ PICOTM_EXPORT
 long double complex
 cacosl_tx(long double complex z)
 {
+    matherr_save();
     return cacosl(z);
 }
 #endif
@@ -106,6 +116,7 @@ PICOTM_EXPORT
 double
 carg_tx(double complex z)
 {
+    matherr_save();
     return carg(z);
 }
 #endif
@@ -115,6 +126,7 @@ PICOTM_EXPORT
 float
 cargf_tx(float complex z)
 {
+    matherr_save();
     return cargf(z);
 }
 #endif
@@ -124,6 +136,7 @@ PICOTM_EXPORT
 long double
 cargl_tx(long double complex z)
 {
+    matherr_save();
     return cargl(z);
 }
 #endif
@@ -133,6 +146,7 @@ PICOTM_EXPORT
 double complex
 casin_tx(double complex z)
 {
+    matherr_save();
     return casin(z);
 }
 #endif
@@ -142,6 +156,7 @@ PICOTM_EXPORT
 float complex
 casinf_tx(float complex z)
 {
+    matherr_save();
     return casinf(z);
 }
 #endif
@@ -151,6 +166,7 @@ PICOTM_EXPORT
 double complex
 casinh_tx(double complex z)
 {
+    matherr_save();
     return casinh(z);
 }
 #endif
@@ -160,6 +176,7 @@ PICOTM_EXPORT
 float complex
 casinhf_tx(float complex z)
 {
+    matherr_save();
     return casinhf(z);
 }
 #endif
@@ -169,6 +186,7 @@ PICOTM_EXPORT
 long double complex
 casinhl_tx(long double complex z)
 {
+    matherr_save();
     return casinhl(z);
 }
 #endif
@@ -178,6 +196,7 @@ PICOTM_EXPORT
 long double complex
 casinl_tx(long double complex z)
 {
+    matherr_save();
     return casinl(z);
 }
 #endif
@@ -187,6 +206,7 @@ PICOTM_EXPORT
 double complex
 catan_tx(double complex z)
 {
+    matherr_save();
     return catan(z);
 }
 #endif
@@ -196,6 +216,7 @@ PICOTM_EXPORT
 float complex
 catanf_tx(float complex z)
 {
+    matherr_save();
     return catanf(z);
 }
 #endif
@@ -205,6 +226,7 @@ PICOTM_EXPORT
 double complex
 catanh_tx(double complex z)
 {
+    matherr_save();
     return catanh(z);
 }
 #endif
@@ -214,6 +236,7 @@ PICOTM_EXPORT
 float complex
 catanhf_tx(float complex z)
 {
+    matherr_save();
     return catanhf(z);
 }
 #endif
@@ -223,6 +246,7 @@ PICOTM_EXPORT
 long double complex
 catanhl_tx(long double complex z)
 {
+    matherr_save();
     return catanhl(z);
 }
 #endif
@@ -232,6 +256,7 @@ PICOTM_EXPORT
 long double complex
 catanl_tx(long double complex z)
 {
+    matherr_save();
     return catanl(z);
 }
 #endif
@@ -241,6 +266,7 @@ PICOTM_EXPORT
 double complex
 ccos_tx(double complex z)
 {
+    matherr_save();
     return ccos(z);
 }
 #endif
@@ -250,6 +276,7 @@ PICOTM_EXPORT
 float complex
 ccosf_tx(float complex z)
 {
+    matherr_save();
     return ccosf(z);
 }
 #endif
@@ -259,6 +286,7 @@ PICOTM_EXPORT
 double complex
 ccosh_tx(double complex z)
 {
+    matherr_save();
     return ccosh(z);
 }
 #endif
@@ -268,6 +296,7 @@ PICOTM_EXPORT
 float complex
 ccoshf_tx(float complex z)
 {
+    matherr_save();
     return ccoshf(z);
 }
 #endif
@@ -277,6 +306,7 @@ PICOTM_EXPORT
 long double complex
 ccoshl_tx(long double complex z)
 {
+    matherr_save();
     return ccoshl(z);
 }
 #endif
@@ -286,6 +316,7 @@ PICOTM_EXPORT
 long double complex
 ccosl_tx(long double complex z)
 {
+    matherr_save();
     return ccosl(z);
 }
 #endif
@@ -295,6 +326,7 @@ PICOTM_EXPORT
 double complex
 cexp_tx(double complex z)
 {
+    matherr_save();
     return cexp(z);
 }
 #endif
@@ -304,6 +336,7 @@ PICOTM_EXPORT
 float complex
 cexpf_tx(float complex z)
 {
+    matherr_save();
     return cexpf(z);
 }
 #endif
@@ -313,6 +346,7 @@ PICOTM_EXPORT
 long double complex
 cexpl_tx(long double complex z)
 {
+    matherr_save();
     return cexpl(z);
 }
 #endif
@@ -349,6 +383,7 @@ PICOTM_EXPORT
 double complex
 clog_tx(double complex z)
 {
+    matherr_save();
     return clog(z);
 }
 #endif
@@ -358,6 +393,7 @@ PICOTM_EXPORT
 float complex
 clogf_tx(float complex z)
 {
+    matherr_save();
     return clogf(z);
 }
 #endif
@@ -367,6 +403,7 @@ PICOTM_EXPORT
 long double complex
 clogl_tx(long double complex z)
 {
+    matherr_save();
     return clogl(z);
 }
 #endif
@@ -403,6 +440,7 @@ PICOTM_EXPORT
 double complex
 cpow_tx(double complex x, double complex y)
 {
+    matherr_save();
     return cpow(x, y);
 }
 #endif
@@ -412,6 +450,7 @@ PICOTM_EXPORT
 float complex
 cpowf_tx(float complex x, float complex y)
 {
+    matherr_save();
     return cpowf(x, y);
 }
 #endif
@@ -421,6 +460,7 @@ PICOTM_EXPORT
 long double complex
 cpowl_tx(long double complex x, long double complex y)
 {
+    matherr_save();
     return cpowl(x, y);
 }
 #endif
@@ -484,6 +524,7 @@ PICOTM_EXPORT
 double complex
 csin_tx(double complex z)
 {
+    matherr_save();
     return csin(z);
 }
 #endif
@@ -493,6 +534,7 @@ PICOTM_EXPORT
 float complex
 csinf_tx(float complex z)
 {
+    matherr_save();
     return csinf(z);
 }
 #endif
@@ -502,6 +544,7 @@ PICOTM_EXPORT
 double complex
 csinh_tx(double complex z)
 {
+    matherr_save();
     return csinh(z);
 }
 #endif
@@ -511,6 +554,7 @@ PICOTM_EXPORT
 float complex
 csinhf_tx(float complex z)
 {
+    matherr_save();
     return csinhf(z);
 }
 #endif
@@ -520,6 +564,7 @@ PICOTM_EXPORT
 long double complex
 csinhl_tx(long double complex z)
 {
+    matherr_save();
     return csinhl(z);
 }
 #endif
@@ -529,6 +574,7 @@ PICOTM_EXPORT
 long double complex
 csinl_tx(long double complex z)
 {
+    matherr_save();
     return csinl(z);
 }
 #endif
@@ -538,6 +584,7 @@ PICOTM_EXPORT
 double complex
 csqrt_tx(double complex z)
 {
+    matherr_save();
     return csqrt(z);
 }
 #endif
@@ -547,6 +594,7 @@ PICOTM_EXPORT
 float complex
 csqrtf_tx(float complex z)
 {
+    matherr_save();
     return csqrtf(z);
 }
 #endif
@@ -556,6 +604,7 @@ PICOTM_EXPORT
 long double complex
 csqrtl_tx(long double complex z)
 {
+    matherr_save();
     return csqrtl(z);
 }
 #endif
@@ -565,6 +614,7 @@ PICOTM_EXPORT
 double complex
 ctan_tx(double complex z)
 {
+    matherr_save();
     return ctan(z);
 }
 #endif
@@ -574,6 +624,7 @@ PICOTM_EXPORT
 float complex
 ctanf_tx(float complex z)
 {
+    matherr_save();
     return ctanf(z);
 }
 #endif
@@ -583,6 +634,7 @@ PICOTM_EXPORT
 double complex
 ctanh_tx(double complex z)
 {
+    matherr_save();
     return ctanh(z);
 }
 #endif
@@ -592,6 +644,7 @@ PICOTM_EXPORT
 float complex
 ctanhf_tx(float complex z)
 {
+    matherr_save();
     return ctanhf(z);
 }
 #endif
@@ -601,6 +654,7 @@ PICOTM_EXPORT
 long double complex
 ctanhl_tx(long double complex z)
 {
+    matherr_save();
     return ctanhl(z);
 }
 #endif
@@ -610,6 +664,7 @@ PICOTM_EXPORT
 long double complex
 ctanl_tx(long double complex z)
 {
+    matherr_save();
     return ctanl(z);
 }
 #endif
diff --git a/modules/libm/src/math-tm.c b/modules/libm/src/math-tm.c
index f85525c..c311fe6 100644
--- a/modules/libm/src/math-tm.c
+++ b/modules/libm/src/math-tm.c
@@ -28,6 +28,7 @@ PICOTM_EXPORT
 double
 frexp_tm(double num, int* exp)
 {
+    matherr_save();
     return frexp(num, exp);
 }
 #endif
@@ -37,6 +38,7 @@ PICOTM_EXPORT
 float
 frexpf_tm(float num, int* exp)
 {
+    matherr_save();
     return frexpf(num, exp);
 }
 #endif
@@ -46,6 +48,7 @@ PICOTM_EXPORT
 long double
 frexpl_tm(long double num, int* exp)
 {
+    matherr_save();
     return frexpl(num, exp);
 }
 #endif
@@ -55,6 +58,7 @@ PICOTM_EXPORT
 double
 modf_tm(double x, double* iptr)
 {
+    matherr_save();
     return modf(x, iptr);
 }
 #endif
@@ -64,6 +68,7 @@ PICOTM_EXPORT
 float
 modff_tm(float x, float* iptr)
 {
+    matherr_save();
     return modff(x, iptr);
 }
 #endif
@@ -73,6 +78,7 @@ PICOTM_EXPORT
 long double
 modfl_tm(long double x, long double* iptr)
 {
+    matherr_save();
     return modfl(x, iptr);
 }
 #endif
diff --git a/modules/libm/src/math.c b/modules/libm/src/math.c
index 2849ca5..122f124 100644
--- a/modules/libm/src/math.c
+++ b/modules/libm/src/math.c
@@ -241,6 +241,7 @@ PICOTM_EXPORT
 double
 cbrt_tx(double x)
 {
+    matherr_save();
     return cbrt(x);
 }
 #endif
@@ -250,6 +251,7 @@ PICOTM_EXPORT
 float
 cbrtf_tx(float x)
 {
+    matherr_save();
     return cbrtf(x);
 }
 #endif
@@ -259,6 +261,7 @@ PICOTM_EXPORT
 long double
 cbrtl_tx(long double x)
 {
+    matherr_save();
     return cbrtl(x);
 }
 #endif
@@ -268,6 +271,7 @@ PICOTM_EXPORT
 double
 ceil_tx(double x)
 {
+    matherr_save();
     return ceil(x);
 }
 #endif
@@ -277,6 +281,7 @@ PICOTM_EXPORT
 float
 ceilf_tx(float x)
 {
+    matherr_save();
     return ceilf(x);
 }
 #endif
@@ -286,6 +291,7 @@ PICOTM_EXPORT
 long double
 ceill_tx(long double x)
 {
+    matherr_save();
     return ceill(x);
 }
 #endif
@@ -589,6 +595,7 @@ PICOTM_EXPORT
 double
 floor_tx(double x)
 {
+    matherr_save();
     return floor(x);
 }
 #endif
@@ -598,6 +605,7 @@ PICOTM_EXPORT
 float
 floorf_tx(float x)
 {
+    matherr_save();
     return floorf(x);
 }
 #endif
@@ -607,6 +615,7 @@ PICOTM_EXPORT
 long double
 floorl_tx(long double x)
 {
+    matherr_save();
     return floorl(x);
 }
 #endif
@@ -649,6 +658,7 @@ PICOTM_EXPORT
 double
 fmax_tx(double x, double y)
 {
+    matherr_save();
     return fmax(x, y);
 }
 #endif
@@ -658,6 +668,7 @@ PICOTM_EXPORT
 float
 fmaxf_tx(float x, float y)
 {
+    matherr_save();
     return fmaxf(x, y);
 }
 #endif
@@ -667,6 +678,7 @@ PICOTM_EXPORT
 long double
 fmaxl_tx(long double x, long double y)
 {
+    matherr_save();
     return fmaxl(x, y);
 }
 #endif
@@ -676,6 +688,7 @@ PICOTM_EXPORT
 double
 fmin_tx(double x, double y)
 {
+    matherr_save();
     return fmin(x, y);
 }
 #endif
@@ -685,6 +698,7 @@ PICOTM_EXPORT
 float
 fminf_tx(float x, float y)
 {
+    matherr_save();
     return fminf(x, y);
 }
 #endif
@@ -694,6 +708,7 @@ PICOTM_EXPORT
 long double
 fminl_tx(long double x, long double y)
 {
+    matherr_save();
     return fminl(x, y);
 }
 #endif
@@ -1247,6 +1262,7 @@ PICOTM_EXPORT
 double
 nearbyint_tx(double x)
 {
+    matherr_save();
     return nearbyint(x);
 }
 #endif
@@ -1256,6 +1272,7 @@ PICOTM_EXPORT
 float
 nearbyintf_tx(float x)
 {
+    matherr_save();
     return nearbyintf(x);
 }
 #endif
@@ -1265,6 +1282,7 @@ PICOTM_EXPORT
 long double
 nearbyintl_tx(long double x)
 {
+    matherr_save();
     return nearbyintl(x);
 }
 #endif
@@ -1427,6 +1445,7 @@ PICOTM_EXPORT
 double
 rint_tx(double x)
 {
+    matherr_save();
     return rint(x);
 }
 #endif
@@ -1436,6 +1455,7 @@ PICOTM_EXPORT
 float
 rintf_tx(float x)
 {
+    matherr_save();
     return rintf(x);
 }
 #endif
@@ -1445,6 +1465,7 @@ PICOTM_EXPORT
 long double
 rintl_tx(long double x)
 {
+    matherr_save();
     return rintl(x);
 }
 #endif
@@ -1454,6 +1475,7 @@ PICOTM_EXPORT
 double
 round_tx(double x)
 {
+    matherr_save();
     return round(x);
 }
 #endif
@@ -1463,6 +1485,7 @@ PICOTM_EXPORT
 float
 roundf_tx(float x)
 {
+    matherr_save();
     return roundf(x);
 }
 #endif
@@ -1472,6 +1495,7 @@ PICOTM_EXPORT
 long double
 roundl_tx(long double x)
 {
+    matherr_save();
     return roundl(x);
 }
 #endif
@@ -1724,6 +1748,7 @@ PICOTM_EXPORT
 double
 trunc_tx(double x)
 {
+    matherr_save();
     return trunc(x);
 }
 #endif
@@ -1733,6 +1758,7 @@ PICOTM_EXPORT
 float
 truncf_tx(float x)
 {
+    matherr_save();
     return truncf(x);
 }
 #endif
@@ -1742,6 +1768,7 @@ PICOTM_EXPORT
 long double
 truncl_tx(long double x)
 {
+    matherr_save();
     return truncl(x);
 }
 #endif
diff --git a/modules/libm/src/matherr.c b/modules/libm/src/matherr.c
index 49873c8..36f4eb6 100644
--- a/modules/libm/src/matherr.c
+++ b/modules/libm/src/matherr.c
@@ -32,12 +32,10 @@
 #endif
 
 void
-matherr_save_and_clear(struct matherr* self, int except)
+matherr_save(void)
 {
     if (math_errhandling & MATH_ERRNO) {
         picotm_libc_save_errno();
-        self->saved_errno = errno;
-        errno = 0;
     }
     if (math_errhandling & MATH_ERREXCEPT) {
         do {
@@ -48,6 +46,19 @@ matherr_save_and_clear(struct matherr* self, int except)
             }
             picotm_recover_from_error(&error);
         } while (true);
+    }
+}
+
+void
+matherr_save_and_clear(struct matherr* self, int except)
+{
+    matherr_save();
+
+    if (math_errhandling & MATH_ERRNO) {
+        self->saved_errno = errno;
+        errno = 0;
+    }
+    if (math_errhandling & MATH_ERREXCEPT) {
         self->set_except = fetestexcept(except);
         fegetexceptflag(&self->saved_except, self->set_except);
         feclearexcept(except);
diff --git a/modules/libm/src/matherr.h b/modules/libm/src/matherr.h
index bc64964..afa9a8d 100644
--- a/modules/libm/src/matherr.h
+++ b/modules/libm/src/matherr.h
@@ -47,6 +47,13 @@ struct matherr {
     type_ res_ = (func_);                               \
     matherr_test_and_resolve(&matherr_, (except_));
 
+/**
+ * Saves errno and the floating-point status flags for functions that
+ * don't report errors, but may modify this state.
+ */
+void
+matherr_save(void);
+
 void
 matherr_save_and_clear(struct matherr* self, int except);
 
-- 
2.43.0


From 5834734bf238718fbaf5d73a95a5d2f667ad6e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:18 +0000
Subject: [PATCH 95/95] fix: Save errno in posix_memalign_tm()

A failing posix_memalign_tm() can change errno. Save errno before the call,
so that an abort restores it.
---
 modules/libc/src/stdlib-tm.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/libc/src/stdlib-tm.c b/modules/libc/src/stdlib-tm.c
index 4032616..433b56c 100644
--- a/modules/libc/src/stdlib-tm.c
+++ b/modules/libc/src/stdlib-tm.c
@@ -109,6 +109,15 @@ PICOTM_EXPORT
 int
 posix_memalign_tm(void** memptr, size_t alignment, size_t size)
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         int res = allocator_module_posix_memalign(memptr, alignment, size,
-- 
2.43.0

