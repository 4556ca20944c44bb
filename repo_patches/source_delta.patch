From 04aca61b2033d6225fa7829a81d9dceb483a3c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:23 +0000
Subject: [PATCH 01/44] fix: evaluate element expressions of table.init in
 their own context

---
 lib/exec_insn_subr.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 1ce6f5d..78ae100 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -274,8 +274,17 @@ table_init(struct exec_context *ectx, uint32_t tableidx, uint32_t elemidx,
                         val.u.funcref.func =
                                 VEC_ELEM(inst->funcs, elem->funcs[s + i]);
                 } else {
+                        /*
+                         * Use a separate context because we can be in the
+                         * middle of an execution on ectx, where it isn't
+                         * safe to run another expression.
+                         */
+                        struct exec_context cctx;
+                        exec_context_init(&cctx, ectx->instance,
+                                          exec_mctx(ectx));
                         ret = exec_const_expr(&elem->init_exprs[s + i],
-                                              elem->type, &val, ectx);
+                                              elem->type, &val, &cctx);
+                        exec_context_clear(&cctx);
                         if (ret != 0) {
                                 goto fail;
                         }
-- 
2.43.0


From 3635972ec612f71915dc68cefe526ef2ce3cbeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:58 +0000
Subject: [PATCH 02/44] fix: bounds check of accesses to the last byte of the
 address space with 1-byte pages

---
 lib/exec_insn_subr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 78ae100..d6f40bf 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -74,8 +74,7 @@ memory_instance_getptr2(struct meminst *meminst, uint32_t ptr, uint32_t offset,
         }
         if (__predict_false(last_byte >= meminst->allocated)) {
                 const uint32_t page_shift = memtype_page_shift(meminst->type);
-                uint32_t need_in_pages = (last_byte >> page_shift) + 1;
-                if (need_in_pages > meminst->size_in_pages) {
+                if (last_byte >> page_shift >= meminst->size_in_pages) {
 do_trap:
                         return ETOYWASMTRAP;
                 }
-- 
2.43.0


From 80c47001aae4a8728e8dd02d61f32d8b7728edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:09 +0000
Subject: [PATCH 03/44] fix: overflow in the size of a shared memory of 4 GiB

---
 lib/instance.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/instance.c b/lib/instance.c
index 4d9ff3c..1b314b4 100644
--- a/lib/instance.c
+++ b/lib/instance.c
@@ -185,7 +185,8 @@ memory_instance_create(struct mem_context *mctx, struct meminst **mip,
                 uint32_t need_in_pages = mt->lim.min;
 #endif /* defined(TOYWASM_PREALLOC_SHARED_MEMORY) */
                 uint32_t page_shift = memtype_page_shift(mt);
-                uint64_t need_in_bytes = need_in_pages << page_shift;
+                uint64_t need_in_bytes = (uint64_t)need_in_pages
+                                         << page_shift;
                 if (need_in_bytes > SIZE_MAX) {
                         ret = EOVERFLOW;
                         goto fail1;
-- 
2.43.0


From dd0ad03aa8691e7b9c33d9a50228816b64288c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:58 +0000
Subject: [PATCH 04/44] fix: bounds check of preallocated shared memories

---
 lib/exec_insn_subr.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index d6f40bf..ebcb099 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -44,9 +44,19 @@ int
 memory_instance_getptr2(struct meminst *meminst, uint32_t ptr, uint32_t offset,
                         uint32_t size, void **pp, bool *movedp)
 {
-        assert(meminst->allocated <=
-               (uint64_t)meminst->size_in_pages
-                       << memtype_page_shift(meminst->type));
+#if defined(TOYWASM_PREALLOC_SHARED_MEMORY)
+        /*
+         * Note: a preallocated shared memory has its max size allocated
+         * from the beginning.
+         */
+        const bool prealloc = meminst->shared != NULL;
+#else
+        const bool prealloc = false;
+#endif
+        assert(prealloc ||
+               meminst->allocated <=
+                       (uint64_t)meminst->size_in_pages
+                               << memtype_page_shift(meminst->type));
         uint32_t ea;
         if (ADD_U32_OVERFLOW(ptr, offset, &ea)) {
                 /*
@@ -72,12 +82,15 @@ memory_instance_getptr2(struct meminst *meminst, uint32_t ptr, uint32_t offset,
         if (ADD_U32_OVERFLOW(ea, size - 1, &last_byte)) {
                 goto do_trap;
         }
-        if (__predict_false(last_byte >= meminst->allocated)) {
+        if (__predict_false(last_byte >= meminst->allocated || prealloc)) {
                 const uint32_t page_shift = memtype_page_shift(meminst->type);
                 if (last_byte >> page_shift >= meminst->size_in_pages) {
 do_trap:
                         return ETOYWASMTRAP;
                 }
+                if (prealloc) {
+                        goto success;
+                }
                 /*
                  * Note: shared memories do never come here because
                  * we handle their growth in memory_grow.
-- 
2.43.0


From b6cb812bd60f94b225ede50ba6a92048d97da273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:22 +0000
Subject: [PATCH 05/44] fix: subsections of dylink.0 after an unimplemented one
 were rejected

---
 lib/module.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/module.c b/lib/module.c
index 3dcc019..c67fc6d 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -2087,7 +2087,6 @@ read_dylink_0_section(const uint8_t **pp, const uint8_t *ep,
                         xlog_trace("skipping unimplemented subsection (%u)",
                                    (unsigned int)type);
                         p = sep;
-                        break;
                 }
         } while (p < ep);
         ret = 0;
-- 
2.43.0


From 53791a7f74156e7759b26b00c302442dec9dbd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:22 +0000
Subject: [PATCH 06/44] fix: trailing bytes in the datacount section were
 accepted

---
 lib/module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/module.c b/lib/module.c
index c67fc6d..6cbe22a 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -1797,7 +1797,7 @@ read_datacount_section(const uint8_t **pp, const uint8_t *ep,
         ctx->has_datacount = true;
         ctx->ndatas_in_datacount = count;
         ret = 0;
-        *pp = ep;
+        *pp = p;
 fail:
         return ret;
 }
-- 
2.43.0


From 9f81c056f3b8006734239ca025fd7c6d5ee4a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:22 +0000
Subject: [PATCH 07/44] fix: null dereference when the allocation for dylink.0
 fails

---
 lib/module.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/module.c b/lib/module.c
index 6cbe22a..b7b2636 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -2042,8 +2042,7 @@ read_dylink_0_section(const uint8_t **pp, const uint8_t *ep,
         }
         m->dylink = mem_zalloc(mctx, sizeof(*m->dylink));
         if (m->dylink == NULL) {
-                ret = ENOMEM;
-                goto fail;
+                return ENOMEM;
         }
         uint32_t subsections = 0;
         do {
-- 
2.43.0


From 8226711bbcc5dc7ebf50ffc79d1adcc344f12724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:43 +0000
Subject: [PATCH 08/44] fix: overflow in the number of locals including
 parameters

---
 lib/expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/expr.c b/lib/expr.c
index d1363bb..b985a20 100644
--- a/lib/expr.c
+++ b/lib/expr.c
@@ -60,6 +60,10 @@ read_expr_common(const uint8_t **pp, const uint8_t *ep, struct expr *expr,
         vctx->ei = ei = &expr->ei;
         memset(ei, 0, sizeof(*ei));
 
+        if (UINT32_MAX - parameter_types->ntypes < nlocals) {
+                ret = E2BIG;
+                goto fail;
+        }
         uint32_t lsize = parameter_types->ntypes + nlocals;
         ret = VEC_PREALLOC(vctx->mctx, vctx->locals, lsize);
         if (ret != 0) {
-- 
2.43.0


From 2c13b8fb0986cb477dd77dc6fefdd8c1335f8847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:29 +0000
Subject: [PATCH 09/44] fix: double free of the reference bitmap when its
 reallocation fails

read_function_section frees the bitmap allocated for imported functions and
allocates a larger one. If that allocation failed, load_context_clear freed
the old one again.
---
 lib/bitmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bitmap.c b/lib/bitmap.c
index 0c788ad..fcf98db 100644
--- a/lib/bitmap.c
+++ b/lib/bitmap.c
@@ -23,6 +23,7 @@ void
 bitmap_free(struct mem_context *mctx, struct bitmap *b, uint32_t n)
 {
         mem_free(mctx, b->data, HOWMANY(n, 32) * sizeof(uint32_t));
+        b->data = NULL;
 }
 
 void
-- 
2.43.0


From c2976f8f0714870a6ff20d05ca5f4cc7235a6233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:33 +0000
Subject: [PATCH 10/44] fix: writing modules with element expressions or empty
 element segments

The cases for element expressions ran into an assertion, and so did segments
without any elements.
---
 lib/module_writer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 9244cf7..63f4481 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -298,7 +298,7 @@ write_element(struct writer *w, const struct element *e)
                         break;
                 }
         } else {
-                assert(e->init_exprs != NULL);
+                assert(e->init_size == 0 || e->init_exprs != NULL);
                 /* 4, 5, 6, 7 */
                 switch (e->mode) {
                 case ELEM_MODE_ACTIVE: /* 4, 6 */
@@ -378,6 +378,7 @@ write_element(struct writer *w, const struct element *e)
                 for (i = 0; i < e->init_size; i++) {
                         write_expr(w, &e->init_exprs[i]);
                 }
+                break;
         default:
                 assert(0);
         }
-- 
2.43.0


From 31f330fa67b61f746a1d93b93e482248a54e7a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:33 +0000
Subject: [PATCH 11/44] fix: writing modules with imported or exported tags

---
 lib/module_writer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 63f4481..162d10a 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -217,6 +217,11 @@ write_importdesc(struct writer *w, const struct importdesc *desc)
         case 0x03:
                 write_globaltype(w, &desc->u.globaltype);
                 break;
+#if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
+        case 0x04:
+                write_tagtype(w, &desc->u.tagtype);
+                break;
+#endif
         default:
                 assert(0);
         }
@@ -259,6 +264,11 @@ write_exportdesc(struct writer *w, const struct exportdesc *desc)
         case EXTERNTYPE_GLOBAL:
                 WRITE_U8(0x03);
                 break;
+#if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
+        case EXTERNTYPE_TAG:
+                WRITE_U8(0x04);
+                break;
+#endif
         default:
                 assert(0);
         }
-- 
2.43.0


From 2d9d411b86e7b413a26f7374e71acf1448b867bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:33 +0000
Subject: [PATCH 12/44] fix: writing modules with empty names or empty data
 segments

fwrite of zero bytes returns 0, which was taken for an error.
---
 lib/module_writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 162d10a..462f7ee 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -47,6 +47,9 @@ write_to_file(struct writer *w, const void *p, size_t sz)
         if (w->error != 0) {
                 return;
         }
+        if (sz == 0) {
+                return;
+        }
         if (UINT32_MAX - w->size < sz) {
                 w->error = EOVERFLOW;
         }
-- 
2.43.0


From b39c4df221f8c391df0f4fc190b5f2ebaded7223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:49 +0000
Subject: [PATCH 13/44] fix: writing functions with empty groups of locals

They were written with an invalid type and the result could not be loaded.
---
 lib/module_writer.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 462f7ee..cce63aa 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -400,9 +400,14 @@ write_element(struct writer *w, const struct element *e)
 static void
 write_locals(struct writer *w, const struct localtype *lt)
 {
-        WRITE_LEB_U32(lt->nlocalchunks);
+        /* chunks without any locals are left empty at the end. */
+        uint32_t n = 0;
+        while (n < lt->nlocalchunks && lt->localchunks[n].n > 0) {
+                n++;
+        }
+        WRITE_LEB_U32(n);
         uint32_t i;
-        for (i = 0; i < lt->nlocalchunks; i++) {
+        for (i = 0; i < n; i++) {
                 const struct localchunk *chunk = &lt->localchunks[i];
                 WRITE_LEB_U32(chunk->n);
                 WRITE_U8(chunk->type);
-- 
2.43.0


From 45b91841db40aae57cd4d6bc2855ad176d5b1ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:49 +0000
Subject: [PATCH 14/44] fix: writing shared memories with the largest possible
 maximum

The maximum was omitted, which is invalid for a shared memory.
---
 lib/module_writer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index cce63aa..637fd1a 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -144,7 +144,8 @@ static void
 write_limits(struct writer *w, const struct limits *lim, uint8_t extra_flags,
              uint8_t shift)
 {
-        if (lim->max == UINT32_MAX) {
+        if (lim->max == UINT32_MAX &&
+            (extra_flags & MEMTYPE_FLAG_SHARED) == 0) {
                 WRITE_U8(0x00 | extra_flags);
                 WRITE_LEB_U32(lim->min);
         } else {
-- 
2.43.0


From 08044af9b635df753f0910b196091063a9ea9a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:03 +0000
Subject: [PATCH 15/44] fix: deadlock of concurrent memory.grow on a shared
 memory

A thread which found, after suspending the others, that the memory had been
grown by someone else started over without resuming them, and parked itself
for its own suspend request.
---
 lib/exec_insn_subr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index ebcb099..4c0c0ca 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -511,6 +511,7 @@ retry:
                         suspend_threads(c);
                         memory_lock(mi);
                         if (mi->size_in_pages != orig_size) {
+                                resume_threads(c);
                                 goto retry;
                         }
                         assert((mi->allocated % (1 << page_shift)) == 0);
-- 
2.43.0


From 022cf1fc51fefda37932d07b563d2f8ef4f4d366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:37 +0000
Subject: [PATCH 16/44] fix: size of a growing shared memory visible only after
 other threads resumed

The other threads could use the memory between resume_threads and the update
of size_in_pages, and found more memory allocated than its size says.
---
 lib/exec_insn_subr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 4c0c0ca..9402d33 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -533,6 +533,7 @@ retry:
                                 mi->data = np;
                                 assert(new_size_in_bytes > mi->allocated);
                                 mi->allocated = new_size_in_bytes;
+                                mi->size_in_pages = new_size;
                         }
                 }
 #if defined(TOYWASM_ENABLE_WASM_THREADS)
-- 
2.43.0


From ecb60c0881c7f9b9feef2b588fa850b675833020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:53 +0000
Subject: [PATCH 17/44] fix: wrong assertions on resumed threads

The thread which has resumed the others, and threads which have been resumed
earlier, can exit before the rest gets to run.
---
 lib/suspend.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/suspend.c b/lib/suspend.c
index 8eb4d4a..046e400 100644
--- a/lib/suspend.c
+++ b/lib/suspend.c
@@ -24,9 +24,8 @@ parked(struct cluster *c) REQUIRES(c->lock)
         xlog_trace("%s: parked %" PRIu32 " / %" PRIu32, __func__, c->nparked,
                    c->nrunners);
         assert(c->nparked > 0);
-        assert(c->nrunners > c->nparked);
+        assert(c->nrunners >= c->nparked);
         c->nparked--;
-        assert(c->nrunners != c->nparked + 1);
         assert(c->suspend_state == SUSPEND_STATE_RESUMING);
         if (c->nparked == 0) {
                 c->suspend_state = SUSPEND_STATE_NONE;
-- 
2.43.0


From 7d624da0dca71cd103024d167cb59b3206551d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:53 +0000
Subject: [PATCH 18/44] fix: parking for a suspend request which is already
 over

suspend_parked looked at the state without the lock and then parked
unconditionally, which fails assertions if the threads have been resumed in
the meantime.
---
 lib/suspend.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/suspend.c b/lib/suspend.c
index 046e400..3585323 100644
--- a/lib/suspend.c
+++ b/lib/suspend.c
@@ -59,7 +59,9 @@ suspend_parked(struct cluster *c)
         }
         xlog_trace("%s: parked", __func__);
         toywasm_mutex_lock(&c->lock);
-        parked(c);
+        if (c->suspend_state == SUSPEND_STATE_STOPPING) {
+                parked(c);
+        }
         toywasm_mutex_unlock(&c->lock);
 #endif /* !defined(TOYWASM_USE_USER_SCHED) */
 }
-- 
2.43.0


From ee617bca7f72ab8660ebbfcfdd4203d583cc2c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:44 +0000
Subject: [PATCH 19/44] fix: thread spawn of an instance whose start function
 traps

wasi_convert_errno doesn't accept ETOYWASMTRAP.
---
 libwasi_threads/wasi_threads.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libwasi_threads/wasi_threads.c b/libwasi_threads/wasi_threads.c
index 2035a46..305731f 100644
--- a/libwasi_threads/wasi_threads.c
+++ b/libwasi_threads/wasi_threads.c
@@ -446,6 +446,10 @@ wasi_thread_spawn_common(struct exec_context *ctx,
                 xlog_trace("%s: instance_create failed with %d: %s", __func__,
                            ret, report_getmessage(&report));
                 report_clear(&report);
+                if (ret < 0) {
+                        /* eg. ETOYWASMTRAP, which is not an errno */
+                        ret = EPROTO;
+                }
                 goto fail;
         }
         report_clear(&report);
-- 
2.43.0


From dcfbf69831f748cd5efd6a5c62b499f72bf6a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:44 +0000
Subject: [PATCH 20/44] fix: use of an uninitialized fdinfo in fd_advise and
 friends

When the lookup failed, the uninitialized pointer was released.
---
 libwasi/wasi_abi_fd.c | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index fa59864..fb2c98a 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -29,11 +29,8 @@ wasi_fd_advise(struct exec_context *ctx, struct host_instance *hi,
         uint64_t len = HOST_FUNC_PARAM(ft, params, 2, i64);
         uint32_t adv = HOST_FUNC_PARAM(ft, params, 3, i32);
 #endif
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
-#if defined(__GNUC__) && !defined(__clang__)
-        fdinfo = NULL;
-#endif
         ret = wasi_userfd_lookup(wasi, wasifd, &fdinfo);
         if (ret != 0) {
                 goto fail;
@@ -58,11 +55,8 @@ wasi_fd_allocate(struct exec_context *ctx, struct host_instance *hi,
         uint32_t wasifd = HOST_FUNC_PARAM(ft, params, 0, i32);
         uint64_t offset = HOST_FUNC_PARAM(ft, params, 1, i64);
         uint64_t len = HOST_FUNC_PARAM(ft, params, 2, i64);
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
-#if defined(__GNUC__) && !defined(__clang__)
-        fdinfo = NULL;
-#endif
         ret = wasi_userfd_lookup(wasi, wasifd, &fdinfo);
         if (ret != 0) {
                 goto fail;
@@ -85,11 +79,8 @@ wasi_fd_filestat_set_size(struct exec_context *ctx, struct host_instance *hi,
         HOST_FUNC_CONVERT_PARAMS(ft, params);
         uint32_t wasifd = HOST_FUNC_PARAM(ft, params, 0, i32);
         uint64_t size = HOST_FUNC_PARAM(ft, params, 1, i64);
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
-#if defined(__GNUC__) && !defined(__clang__)
-        fdinfo = NULL;
-#endif
         ret = wasi_userfd_lookup(wasi, wasifd, &fdinfo);
         if (ret != 0) {
                 goto fail;
-- 
2.43.0


From cd2fb08178944c6bd577df6a58ada375577ed7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:44 +0000
Subject: [PATCH 21/44] fix: fd_renumber growing the table for an invalid
 descriptor

The target has to be an open descriptor anyway.
---
 libwasi/wasi_abi_fd.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index fb2c98a..0341fbc 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -881,12 +881,6 @@ wasi_fd_renumber(struct exec_context *ctx, struct host_instance *hi,
 
         toywasm_mutex_lock(&wasi->lock);
 
-        /* ensure the table size is big enough */
-        ret = wasi_table_expand(wasi, tblidx, wasifd_to);
-        if (ret != 0) {
-                goto fail_locked;
-        }
-
         /* Note: we check "to" first because it can involve a restart */
 
         /*
-- 
2.43.0


From 259646582029c0e4f9a83104017e46f407805945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:44 +0000
Subject: [PATCH 22/44] fix: fd_renumber of a descriptor to itself

It closed the descriptor.
---
 libwasi/wasi_abi_fd.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index 0341fbc..72cc7cf 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -881,6 +881,13 @@ wasi_fd_renumber(struct exec_context *ctx, struct host_instance *hi,
 
         toywasm_mutex_lock(&wasi->lock);
 
+        if (wasifd_from == wasifd_to) {
+                /* no-op as far as it is an open descriptor */
+                ret = wasi_table_lookup_locked(wasi, tblidx, wasifd_from,
+                                               &fdinfo_from);
+                goto fail_locked;
+        }
+
         /* Note: we check "to" first because it can involve a restart */
 
         /*
@@ -907,11 +914,11 @@ wasi_fd_renumber(struct exec_context *ctx, struct host_instance *hi,
         fdinfo_to->refcount--;
         struct wasi_fdinfo **to_slot =
                 wasi_table_slot_ptr(wasi, tblidx, wasifd_to);
-        assert(*to_slot = fdinfo_to);
+        assert(*to_slot == fdinfo_to);
         *to_slot = fdinfo_from;
         struct wasi_fdinfo **from_slot =
                 wasi_table_slot_ptr(wasi, tblidx, wasifd_from);
-        assert(*from_slot = fdinfo_from);
+        assert(*from_slot == fdinfo_from);
         *from_slot = NULL;
 
         toywasm_mutex_unlock(&wasi->lock);
-- 
2.43.0


From e21976b66f873041f0732cc53edcca6a72ec0c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:44 +0000
Subject: [PATCH 23/44] fix: double close of directories

fdopendir takes the ownership of the descriptor.  Closing it separately
can close a descriptor another thread got in the meantime.
---
 libwasi/wasi_host_fdop.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libwasi/wasi_host_fdop.c b/libwasi/wasi_host_fdop.c
index 5ddfad0..edb882e 100644
--- a/libwasi/wasi_host_fdop.c
+++ b/libwasi/wasi_host_fdop.c
@@ -317,16 +317,18 @@ wasi_host_fd_close(struct wasi_fdinfo *fdinfo)
 #else
         if (hostfd != -1) {
 #endif
-                ret = close(hostfd);
-                ret = handle_errno(ret);
+                if (fdinfo_host->dir != NULL) {
+                        /* Note: closedir closes the hostfd as well */
+                        ret = wasi_host_dir_close(fdinfo);
+                } else {
+                        ret = close(hostfd);
+                        ret = handle_errno(ret);
+                }
                 if (ret != 0) {
                         xlog_trace("failed to close: host fd %d with errno %d",
                                    hostfd, ret);
                 }
         }
-        if (fdinfo_host->dir != NULL) {
-                wasi_host_dir_close(fdinfo);
-        }
         fdinfo_host->hostfd = -1;
         fdinfo_host->dir = NULL;
         return ret;
-- 
2.43.0


From 96ac533129728ee4899df51864e9c95d59616ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:44 +0000
Subject: [PATCH 24/44] fix: integer overflow with the largest path length

---
 libwasi/wasi_abi_path.c  | 2 +-
 libwasi/wasi_path_subr.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index ef4b558..57df18d 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -202,7 +202,7 @@ wasi_path_symlink(struct exec_context *ctx, struct host_instance *hi,
         struct path_info pi = PATH_INITIALIZER;
         int host_ret = 0;
         int ret = 0;
-        target_buf = malloc(targetlen + 1);
+        target_buf = malloc((size_t)targetlen + 1);
         if (target_buf == NULL) {
                 ret = ENOMEM;
                 goto fail;
diff --git a/libwasi/wasi_path_subr.c b/libwasi/wasi_path_subr.c
index 9bab4b2..9838970 100644
--- a/libwasi/wasi_path_subr.c
+++ b/libwasi/wasi_path_subr.c
@@ -39,7 +39,7 @@ wasi_copyin_and_convert_path(struct exec_context *ctx,
         struct wasi_fdinfo *dirfdinfo = NULL;
         int host_ret = 0;
         int ret = 0;
-        wasmpath = malloc(pathlen + 1);
+        wasmpath = malloc((size_t)pathlen + 1);
         if (wasmpath == NULL) {
                 ret = ENOMEM;
                 goto fail;
-- 
2.43.0


From 717231c3144294ea3a9be2a2312ec75515fff06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:44 +0000
Subject: [PATCH 25/44] fix: empty paths in path operations

An empty path meant the directory itself.  E.g. path_remove_directory
removed it.
---
 libwasi/wasi_path_subr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libwasi/wasi_path_subr.c b/libwasi/wasi_path_subr.c
index 9838970..78982bc 100644
--- a/libwasi/wasi_path_subr.c
+++ b/libwasi/wasi_path_subr.c
@@ -55,6 +55,11 @@ wasi_copyin_and_convert_path(struct exec_context *ctx,
                 ret = EINVAL;
                 goto fail;
         }
+        if (pathlen == 0) {
+                /* do not mistake it for the directory itself */
+                ret = ENOENT;
+                goto fail;
+        }
         if (wasmpath[0] == '/') {
                 ret = EPERM;
                 goto fail;
-- 
2.43.0


From 81e1e7d9d897c9e861ed715c14a6274974bc8251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:44 +0000
Subject: [PATCH 26/44] fix: path_create_directory freeing garbage when it
 fails early

---
 libwasi/wasi_abi_path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index 57df18d..0fc750f 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -138,7 +138,7 @@ wasi_path_create_directory(struct exec_context *ctx, struct host_instance *hi,
         uint32_t pathlen = HOST_FUNC_PARAM(ft, params, 2, i32);
         int host_ret;
         int ret = 0;
-        struct path_info pi;
+        struct path_info pi = PATH_INITIALIZER;
         host_ret = wasi_copyin_and_convert_path(ctx, wasi, dirwasifd, path,
                                                 pathlen, &pi, &ret);
         if (host_ret != 0 || ret != 0) {
-- 
2.43.0


From e207a6232a1794969ae4661bc1a10d4701be8a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:44 +0000
Subject: [PATCH 27/44] fix: path_symlink with a NUL in the target

It made a link to the part before the NUL.
---
 libwasi/wasi_abi_path.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index 0fc750f..4513e5d 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -213,6 +213,10 @@ wasi_path_symlink(struct exec_context *ctx, struct host_instance *hi,
                 goto fail;
         }
         target_buf[targetlen] = 0;
+        if (strlen(target_buf) != targetlen) {
+                ret = EINVAL;
+                goto fail;
+        }
         host_ret = wasi_copyin_and_convert_path(ctx, wasi, dirwasifd, path,
                                                 pathlen, &pi, &ret);
         if (host_ret != 0 || ret != 0) {
-- 
2.43.0


From 3bdf29e82859fad27e55b2f43048808735df2a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:44 +0000
Subject: [PATCH 28/44] fix: uninitialized address length in sock_accept

---
 libwasi/wasi_host_sockop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libwasi/wasi_host_sockop.c b/libwasi/wasi_host_sockop.c
index 26d3abd..10cef29 100644
--- a/libwasi/wasi_host_sockop.c
+++ b/libwasi/wasi_host_sockop.c
@@ -43,7 +43,7 @@ wasi_host_sock_accept(struct wasi_fdinfo *fdinfo, uint16_t fdflags,
 #if !defined(TOYWASM_OLD_WASI_LIBC)
         struct sockaddr_storage ss;
         struct sockaddr *sa = (void *)&ss;
-        socklen_t salen;
+        socklen_t salen = sizeof(ss);
 #endif
 #if defined(TOYWASM_OLD_WASI_LIBC)
         errno = ENOSYS;
-- 
2.43.0


From 4fba044e6a8fd4793cfb462722b65cfd62cd4984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:44 +0000
Subject: [PATCH 29/44] fix: alignment of the second result of args_sizes_get

---
 libwasi/wasi_abi_environ.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libwasi/wasi_abi_environ.c b/libwasi/wasi_abi_environ.c
index 61f6204..c1269cd 100644
--- a/libwasi/wasi_abi_environ.c
+++ b/libwasi/wasi_abi_environ.c
@@ -40,7 +40,8 @@ args_environ_sizes_get(struct exec_context *ctx, struct wasi_instance *wasi,
         }
         argv_buf_size = host_to_le32(argv_buf_size);
         host_ret = wasi_copyout(ctx, wasi_memory(wasi), &argv_buf_size,
-                                argv_buf_sizep, sizeof(argv_buf_size), 1);
+                                argv_buf_sizep, sizeof(argv_buf_size),
+                                WASI_U32_ALIGN);
 fail:
         if (host_ret == 0) {
                 HOST_FUNC_RESULT_SET(ft, results, 0, i32,
-- 
2.43.0


From 6a56fb9c3b0edac77e07feecb6e113412cb192b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:44 +0000
Subject: [PATCH 30/44] fix: conversion of past times between clocks

poll_oneoff with a monotonic timeout that has already passed failed with
EOVERFLOW.
---
 lib/timeutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/timeutil.c b/lib/timeutil.c
index cea79cf..0d22a67 100644
--- a/lib/timeutil.c
+++ b/lib/timeutil.c
@@ -228,7 +228,7 @@ convert_timespec(clockid_t from_id, clockid_t to_id,
         } else {
                 struct timespec t;
                 timespec_sub(&from_now, from_ts, &t);
-                if (timespec_cmp(&to_now, &t) > 0) {
+                if (timespec_cmp(&to_now, &t) < 0) {
                         ret = EOVERFLOW;
                         goto fail;
                 }
-- 
2.43.0


From e3e583899cea1fe49a3cc1a9302bda2e3b7848cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:44 +0000
Subject: [PATCH 31/44] fix: path_link with WASI_LOOKUPFLAG_SYMLINK_FOLLOW on
 linux

---
 libwasi/wasi_host_pathop.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libwasi/wasi_host_pathop.c b/libwasi/wasi_host_pathop.c
index f587e17..dff48c3 100644
--- a/libwasi/wasi_host_pathop.c
+++ b/libwasi/wasi_host_pathop.c
@@ -190,7 +190,13 @@ wasi_host_path_readlink(const struct path_info *pi, char *buf, size_t buflen,
 int
 wasi_host_path_link(const struct path_info *pi1, const struct path_info *pi2)
 {
+#if defined(__linux__)
+        /* Note: on linux, link() doesn't follow symlinks */
+        int ret = linkat(AT_FDCWD, pi1->hostpath, AT_FDCWD, pi2->hostpath,
+                         AT_SYMLINK_FOLLOW);
+#else
         int ret = link(pi1->hostpath, pi2->hostpath);
+#endif
         return handle_errno(ret);
 }
 
-- 
2.43.0


From 18ffe14c973b050c580fcf38af36fd20a4a9e461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:44 +0000
Subject: [PATCH 32/44] fix: errnos reported as EIO

Map the ones file operations commonly fail with.
---
 libwasi/wasi_host_subr.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/libwasi/wasi_host_subr.c b/libwasi/wasi_host_subr.c
index a49987a..0e9d1e1 100644
--- a/libwasi/wasi_host_subr.c
+++ b/libwasi/wasi_host_subr.c
@@ -191,12 +191,18 @@ wasi_convert_errno(int host_errno)
         case EBADF:
                 wasmerrno = 8;
                 break;
+        case EBUSY:
+                wasmerrno = 10;
+                break;
         case ECONNRESET:
                 wasmerrno = 15;
                 break;
         case EEXIST:
                 wasmerrno = 20;
                 break;
+        case EFBIG:
+                wasmerrno = 22;
+                break;
         case EINTR:
                 wasmerrno = 27;
                 break;
@@ -212,6 +218,21 @@ wasi_convert_errno(int host_errno)
         case ELOOP:
                 wasmerrno = 32;
                 break;
+        case EMFILE:
+                wasmerrno = 33;
+                break;
+        case EMLINK:
+                wasmerrno = 34;
+                break;
+        case ENAMETOOLONG:
+                wasmerrno = 37;
+                break;
+        case ENFILE:
+                wasmerrno = 41;
+                break;
+        case ENODEV:
+                wasmerrno = 43;
+                break;
         case ENOENT:
                 wasmerrno = 44;
                 break;
@@ -221,6 +242,9 @@ wasi_convert_errno(int host_errno)
         case ENOSPC:
                 wasmerrno = 51;
                 break;
+        case ENOTCONN:
+                wasmerrno = 53;
+                break;
         case ENOTDIR:
                 wasmerrno = 54;
                 break;
@@ -233,6 +257,9 @@ wasi_convert_errno(int host_errno)
         case ENOTSUP:
                 wasmerrno = 58;
                 break;
+        case ENXIO:
+                wasmerrno = 60;
+                break;
         case EOVERFLOW:
                 wasmerrno = 61;
                 break;
@@ -245,9 +272,18 @@ wasi_convert_errno(int host_errno)
         case ERANGE:
                 wasmerrno = 68;
                 break;
+        case EROFS:
+                wasmerrno = 69;
+                break;
         case ESPIPE:
                 wasmerrno = 70;
                 break;
+        case ETXTBSY:
+                wasmerrno = 74;
+                break;
+        case EXDEV:
+                wasmerrno = 75;
+                break;
 #if defined(ENOTCAPABLE)
         case ENOTCAPABLE:
                 wasmerrno = 76;
-- 
2.43.0


From 2b561316fd49d372abd717d958cc09d4014d6757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:43 +0000
Subject: [PATCH 33/44] fix: reject arguments that are out of range

They were silently taken as zero.
---
 cli/repl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cli/repl.c b/cli/repl.c
index bffcc89..164c470 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -927,6 +927,7 @@ arg_conv(enum valtype type, const char *s, struct val *result)
                 ret = str_to_uint(s, 0, &u);
                 if (ret == 0) {
                         if (u > UINT32_MAX) {
+                                ret = EOVERFLOW;
                                 break;
                         }
                         result->u.i32 = (uint32_t)u;
@@ -937,6 +938,7 @@ arg_conv(enum valtype type, const char *s, struct val *result)
                 ret = str_to_uint(s, 0, &u);
                 if (ret == 0) {
                         if (u > UINT64_MAX) {
+                                ret = EOVERFLOW;
                                 break;
                         }
                         result->u.i64 = (uint64_t)u;
-- 
2.43.0


From 9b8de8bff6f544fc79729999ceebb622476aa0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:43 +0000
Subject: [PATCH 34/44] fix: reject v128 arguments with anything but
 hexadecimal digits

---
 cli/repl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/repl.c b/cli/repl.c
index 164c470..71c4258 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -899,7 +899,7 @@ parse_v128(const char *s, struct val *result)
         uint64_t upper;
         uint64_t lower;
         int ret;
-        if (strlen(s) != 32) {
+        if (strlen(s) != 32 || strspn(s, "0123456789abcdefABCDEF") != 32) {
                 return EINVAL;
         }
         ret = sscanf(s, "%016" SCNx64 "%016" SCNx64, &upper, &lower);
-- 
2.43.0


From 6caa5f91c9d388276acd0e6d3340043319c76798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:43 +0000
Subject: [PATCH 35/44] fix: REPL leaked a line buffer with every command

---
 cli/repl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/repl.c b/cli/repl.c
index 71c4258..4e1854f 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -1537,12 +1537,12 @@ int
 toywasm_repl(struct repl_state *state)
 {
         char *line = NULL;
+        size_t linecap = 0;
         while (true) {
                 int ret;
 
                 nbio_printf("%s> ", state->opts.prompt);
                 fflush(stdout);
-                size_t linecap = 0;
                 ssize_t ssz = nbio_getline(&line, &linecap, stdin);
                 if (ssz == -1) {
                         break;
-- 
2.43.0


From 34ecc32b0d9a910685a6eb650bbc500fba764ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:43 +0000
Subject: [PATCH 36/44] fix: --allow-unresolved-functions with modules that
 import no function

A zero-sized allocation failed an assertion.
---
 lib/dummy_host_func.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/dummy_host_func.c b/lib/dummy_host_func.c
index 5310083..9bbf28e 100644
--- a/lib/dummy_host_func.c
+++ b/lib/dummy_host_func.c
@@ -60,10 +60,12 @@ create_satisfying_functions(struct mem_context *mctx, const struct module *m,
         if (ret != 0) {
                 goto fail;
         }
-        fis = mem_zalloc(mctx, nfuncs * sizeof(*fis));
-        if (fis == NULL) {
-                ret = ENOMEM;
-                goto fail;
+        if (nfuncs > 0) {
+                fis = mem_zalloc(mctx, nfuncs * sizeof(*fis));
+                if (fis == NULL) {
+                        ret = ENOMEM;
+                        goto fail;
+                }
         }
         imo->dtor = _dtor;
         imo->dtor_arg = fis;
-- 
2.43.0


From fd682f0df516c88748bc636ad82234ac5640b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:52 +0000
Subject: [PATCH 37/44] fix: accept the --register option

Its handler could not be reached.
---
 cli/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cli/main.c b/cli/main.c
index 37a5366..c349d20 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -154,6 +154,12 @@ static const struct option longopts[] = {
                 NULL,
                 opt_max_stack_cells,
         },
+        {
+                "register",
+                required_argument,
+                NULL,
+                opt_register,
+        },
         {
                 "repl",
                 no_argument,
@@ -266,6 +272,7 @@ static const char *opt_metavars[] = {
 #if defined(TOYWASM_ENABLE_TRACING)
         [opt_trace] = "LEVEL",
 #endif
+        [opt_register] = "NAME",
         [opt_repl_prompt] = "STRING",
         [opt_max_frames] = "NUMBER_OF_FRAMES",
         [opt_max_stack_cells] = "NUMBER_OF_CELLS",
-- 
2.43.0


From 08ab7dbc837541ced7429d3f61a7e88f08da7859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:49:27 +0000
Subject: [PATCH 38/44] fix: dyld: load objects after the program has grown
 memory or table

Places for objects loaded at run time were computed as if only the linker ever
grew the memory and the table.  They overlapped with what the program had
obtained for itself.
---
 libdyld/dyld.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 28546de..7e97a50 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -523,10 +523,18 @@ dyld_allocate_memory(struct dyld *d, uint32_t align, uint32_t sz,
                      uint32_t *resultp)
 {
         uint32_t oldbase = d->memory_base;
+        const uint32_t page_shift = memtype_page_shift(d->meminst->type);
+        const uint32_t page_size = 1 << page_shift;
+        if (howmany(oldbase, page_size) != d->meminst->size_in_pages) {
+                /*
+                 * the program has grown the memory by itself.
+                 * do not touch what it got.
+                 */
+                oldbase = d->meminst->size_in_pages << page_shift;
+        }
         uint32_t aligned = align_up_log(oldbase, align);
         uint32_t newbase = aligned + sz;
         assert(newbase >= oldbase);
-        const uint32_t page_size = 1 << memtype_page_shift(d->meminst->type);
         uint32_t oldnpg = howmany(oldbase, page_size);
         uint32_t newnpg = howmany(newbase, page_size);
         assert(newnpg >= oldnpg);
@@ -546,7 +554,8 @@ static int
 dyld_allocate_table(struct dyld *d, uint32_t align, uint32_t sz,
                     uint32_t *resultp)
 {
-        uint32_t oldbase = d->table_base;
+        /* Note: the program might have grown the table by itself */
+        uint32_t oldbase = d->tableinst->size;
         uint32_t aligned = align_up_log(oldbase, align);
         uint32_t newbase = aligned + sz;
         assert(newbase >= oldbase);
-- 
2.43.0


From 7b185ba2c3a605d43c87c87d11792ba6920bbe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:49:27 +0000
Subject: [PATCH 39/44] fix: dyld: reject objects with sizes or alignments that
 do not fit

The sums wrapped around.
---
 libdyld/dyld.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 7e97a50..c011795 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -153,17 +153,23 @@ align_up(uint32_t v, uint32_t align)
         return (v + mask) & ~mask;
 }
 
+static uint32_t
+align_mask(uint32_t palign)
+{
+        return ((uint32_t)1 << palign) - 1;
+}
+
 static uint32_t
 align_up_log(uint32_t v, uint32_t palign)
 {
-        uint32_t align = 1 << palign;
+        uint32_t align = (uint32_t)1 << palign;
         return align_up(v, align);
 }
 
 static uint32_t
 howmany(uint32_t a, uint32_t b)
 {
-        return (a + b - 1) / b;
+        return a / b + (a % b != 0);
 }
 
 static uint32_t
@@ -532,6 +538,10 @@ dyld_allocate_memory(struct dyld *d, uint32_t align, uint32_t sz,
                  */
                 oldbase = d->meminst->size_in_pages << page_shift;
         }
+        if (align >= 32 || UINT32_MAX - oldbase < align_mask(align) ||
+            UINT32_MAX - align_up_log(oldbase, align) < sz) {
+                return ENOMEM;
+        }
         uint32_t aligned = align_up_log(oldbase, align);
         uint32_t newbase = aligned + sz;
         assert(newbase >= oldbase);
@@ -556,6 +566,10 @@ dyld_allocate_table(struct dyld *d, uint32_t align, uint32_t sz,
 {
         /* Note: the program might have grown the table by itself */
         uint32_t oldbase = d->tableinst->size;
+        if (align >= 32 || UINT32_MAX - oldbase < align_mask(align) ||
+            UINT32_MAX - align_up_log(oldbase, align) < sz) {
+                return ENOMEM;
+        }
         uint32_t aligned = align_up_log(oldbase, align);
         uint32_t newbase = aligned + sz;
         assert(newbase >= oldbase);
-- 
2.43.0


From 864184347f8522a6ef9deac80f001b8317f8718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:49:28 +0000
Subject: [PATCH 40/44] fix: dyld: report init functions that fail with ENOENT

A call of an unresolved symbol in an init function fails with ENOENT.  It was
taken for the absence of the init function.
---
 libdyld/dyld.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index c011795..a1e6619 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -734,15 +734,10 @@ dyld_object_destroy(struct dyld_object *obj)
 }
 
 static int
-dyld_execute_obj_init_func1(struct dyld_object *obj, const struct name *name)
+dyld_execute_obj_init_func1(struct dyld_object *obj, uint32_t funcidx)
 {
         struct module *m = obj->module;
-        uint32_t funcidx;
         int ret;
-        ret = module_find_export(m, name, EXTERNTYPE_FUNC, &funcidx);
-        if (ret != 0) {
-                return ret;
-        }
         const struct functype *ft = module_functype(m, funcidx);
         const struct resulttype *pt = &ft->parameter;
         const struct resulttype *rt = &ft->result;
@@ -777,12 +772,15 @@ dyld_execute_obj_init_func(struct dyld_object *obj, const struct name *names,
         unsigned int i;
         for (i = 0; i < nnames; i++) {
                 const struct name *funcname = &names[i];
-                int ret = dyld_execute_obj_init_func1(obj, funcname);
-                if (ret == ENOENT) {
+                uint32_t funcidx;
+                int ret = module_find_export(obj->module, funcname,
+                                             EXTERNTYPE_FUNC, &funcidx);
+                if (ret != 0) {
                         xlog_trace("dyld: %.*s doesn't have %.*s",
                                    CSTR(obj->name), CSTR(funcname));
                         continue;
                 }
+                ret = dyld_execute_obj_init_func1(obj, funcidx);
                 if (ret != 0) {
                         xlog_error("dyld: %.*s %.*s failed with %d",
                                    CSTR(obj->name), CSTR(funcname), ret);
-- 
2.43.0


From 418fa111bfb557303bf9d1c281da23417f2a7872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:49:28 +0000
Subject: [PATCH 41/44] fix: dyld: give functions in the elements of their
 object one address

A function which its own object had put into the table got a second entry when
another object referred to it by name.  C function pointers to it did not
compare equal.
---
 libdyld/dyld.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index a1e6619..7ace496 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -1214,6 +1214,23 @@ dyld_register_funcinst(struct dyld *d, struct dyld_object *obj,
         xlog_trace("dyld: registering obj %.*s finst %p", CSTR(obj->name),
                    (void *)fi);
         uint32_t end = obj->table_export_base + obj->nexports;
+        uint32_t i;
+        /*
+         * the function might be among the elements of the object itself.
+         */
+        uint32_t own_end = obj->table_base;
+        if (is_main_object(obj) && !d->pie) {
+                own_end = ti->type->lim.min;
+        } else {
+                own_end += obj->module->dylink->mem_info.tablesize;
+        }
+        for (i = obj->table_base; i < own_end; i++) {
+                struct val val;
+                table_get(ti, i, &val);
+                if (val.u.funcref.func == fi) {
+                        return i;
+                }
+        }
         /*
          * note that we should avoid creating multiple entries for
          * a single funcinst. otherwise, it would break C function
@@ -1221,7 +1238,6 @@ dyld_register_funcinst(struct dyld *d, struct dyld_object *obj,
          *
          * XXX dumb linear search
          */
-        uint32_t i;
         for (i = obj->table_export_base; i < end; i++) {
                 struct val val;
                 table_get(ti, i, &val);
-- 
2.43.0


From 84688d631b7e68828f0ec6f7229d24c7aa693392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:49:28 +0000
Subject: [PATCH 42/44] fix: dyld: names and failures of objects loaded at run
 time

The names of such objects moved or were freed while the objects still referred
to them.  A load from an init function of another object overwrote its entry.
An object which could not be loaded was left visible to later loads.
---
 libdyld/dyld.c       | 10 +++++++---
 libdyld/dyld_dlfcn.c | 47 +++++++++++++++++++++++++++++++++-----------
 libdyld/dyld_impl.h  |  4 ++++
 3 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 7ace496..0d5714d 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -306,7 +306,7 @@ dyld_find_object_by_name(struct dyld *d, const struct name *name)
 {
         struct dyld_object *obj;
         SLIST_FOREACH(obj, &d->objs, q) {
-                if (is_main_object(obj)) {
+                if (is_main_object(obj) || obj->failed) {
                         continue;
                 }
                 if (!compare_name(obj->name, name)) {
@@ -863,7 +863,8 @@ dyld_load_object_from_file(struct dyld *d, const struct name *name,
         mem_context_init(&obj->instance_mctx);
         obj->instance_mctx.parent = d->mctx;
         obj->dyld = d;
-        obj->name = name;
+        obj->name0 = *name;
+        obj->name = &obj->name0;
         ret = map_file(filename, (void *)&obj->bin, &obj->binsz);
         if (ret != 0) {
                 goto fail;
@@ -1324,6 +1325,9 @@ dyld_resolve_symbol(struct dyld_object *refobj, enum symtype symtype,
         struct dyld *d = refobj->dyld;
         struct dyld_object *obj;
         SLIST_FOREACH(obj, &d->objs, q) {
+                if (obj->failed) {
+                        continue;
+                }
                 int ret = dyld_resolve_symbol_in_obj(refobj, obj, symtype, sym,
                                                      resultp);
                 if (ret == 0) {
@@ -1544,7 +1548,7 @@ dyld_clear(struct dyld *d)
 #if defined(TOYWASM_ENABLE_DYLD_DLFCN)
         struct dyld_dynamic_object *it;
         VEC_FOREACH(it, d->dynobjs) {
-                size_t sz = strlen(it->name.data) + 1;
+                size_t sz = (size_t)it->name.nbytes + 1;
                 mem_free(mctx, (void *)it->name.data, sz); /* discard const */
         }
         VEC_FREE(mctx, d->dynobjs);
diff --git a/libdyld/dyld_dlfcn.c b/libdyld/dyld_dlfcn.c
index a1ffb62..8f0656f 100644
--- a/libdyld/dyld_dlfcn.c
+++ b/libdyld/dyld_dlfcn.c
@@ -25,24 +25,34 @@ dyld_dynamic_load_object_by_name(struct dyld *d, const struct name *name,
                                  bool bindnow, struct dyld_object **objp)
 {
         struct dyld_object *obj = NULL;
+        struct dyld_object *last = NULL;
         int ret;
         ret = dyld_search_and_load_object_from_file(d, name, &obj);
         if (ret != 0) {
                 goto fail;
         }
+        *objp = obj;
         ret = dyld_resolve_dependencies(d, obj, bindnow);
         if (ret != 0) {
                 goto fail;
         }
+        last = SLIST_LAST(&d->objs, struct dyld_object, q);
         ret = dyld_execute_all_init_funcs(d, obj);
         if (ret != 0) {
                 goto fail;
         }
-        *objp = obj;
         return 0;
 fail:
-        if (obj != NULL) {
-                /* TODO: implement cleanup */
+        /*
+         * hide the objects. they can not be destroyed here because they
+         * might have left references in the table.
+         */
+        while (obj != NULL) {
+                obj->failed = true;
+                if (obj == last) {
+                        break;
+                }
+                obj = SLIST_NEXT(obj, q);
         }
         return ret;
 }
@@ -86,10 +96,8 @@ dyld_dlfcn_load_object(struct exec_context *ctx, struct host_instance *hi,
                 user_ret = 1;
                 goto fail;
         }
-        struct dyld_dynamic_object *dobj = &VEC_ELEM(d->dynobjs, idx);
-        memset(dobj, 0, sizeof(*dobj));
-
-        char *name_data = mem_alloc(d->mctx, namelen + 1);
+        size_t name_size = (size_t)namelen + 1;
+        char *name_data = mem_alloc(d->mctx, name_size);
         if (name_data == NULL) {
                 xlog_error("%s: malloc failed", __func__);
                 user_ret = 1;
@@ -98,18 +106,31 @@ dyld_dlfcn_load_object(struct exec_context *ctx, struct host_instance *hi,
         memcpy(name_data, vp, namelen);
         name_data[namelen] = 0;
 
-        struct name *name = &dobj->name;
+        struct name name0;
+        struct name *name = &name0;
         name->data = name_data;
         name->nbytes = namelen;
-        ret = dyld_dynamic_load_object_by_name(d, name, false, &dobj->obj);
+        struct dyld_object *obj = NULL;
+        /*
+         * Note: init functions of the object can load other objects.
+         * reserve our entry here.
+         */
+        VEC_ELEM(d->dynobjs, idx).name = *name;
+        VEC_ELEM(d->dynobjs, idx).obj = NULL;
+        d->dynobjs.lsize++;
+        ret = dyld_dynamic_load_object_by_name(d, name, false, &obj);
         if (ret != 0) {
                 xlog_error("%s: dyld_dynamic_load_object_by_name failed",
                            __func__);
-                mem_free(d->mctx, name_data, namelen + 1);
+                if (obj == NULL) {
+                        assert(d->dynobjs.lsize == idx + 1);
+                        d->dynobjs.lsize--;
+                        mem_free(d->mctx, name_data, name_size);
+                }
                 user_ret = 1;
                 goto fail;
         }
-        d->dynobjs.lsize++;
+        VEC_ELEM(d->dynobjs, idx).obj = obj;
         uint32_t handle = idx + 1;
         xlog_trace(
                 "dyld: dyld:load_object succeeded for %.*s, handle %" PRIu32,
@@ -165,6 +186,10 @@ dyld_dlfcn_resolve_symbol(struct exec_context *ctx, struct host_instance *hi,
                 goto fail;
         }
         const struct dyld_dynamic_object *dobj = &VEC_ELEM(d->dynobjs, idx);
+        if (dobj->obj == NULL) {
+                user_ret = 1;
+                goto fail;
+        }
 
         void *vp;
         host_ret = host_func_getptr(ctx, dyld_memory(d), namep, namelen, &vp);
diff --git a/libdyld/dyld_impl.h b/libdyld/dyld_impl.h
index f40922f..5a93aea 100644
--- a/libdyld/dyld_impl.h
+++ b/libdyld/dyld_impl.h
@@ -19,6 +19,7 @@ struct dyld_plt {
 };
 
 struct dyld_object {
+        struct name name0;
         const struct name *name;
 
         uint32_t memory_base;
@@ -47,6 +48,9 @@ struct dyld_object {
         struct dyld *dyld;
         SLIST_ENTRY(struct dyld_object) q;
 
+        /* failed to load at run time. not visible to others */
+        bool failed;
+
         /* for tsort */
         bool visited;
         SLIST_ENTRY(struct dyld_object) tq;
-- 
2.43.0


From c550bc7238114bb05487c1c555027c33441f2a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:51:29 +0000
Subject: [PATCH 43/44] fix: dyld: do not load an object again at run time

Loading an object which is there already made a second copy of it, with data
of its own.  Objects whose init functions load each other recursed forever.
---
 libdyld/dyld.c       | 2 +-
 libdyld/dyld_dlfcn.c | 5 +++++
 libdyld/dyld_impl.h  | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 0d5714d..4e128cb 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -301,7 +301,7 @@ dyld_init(struct dyld *d, struct mem_context *mctx)
         d->mctx = mctx;
 }
 
-static struct dyld_object *
+struct dyld_object *
 dyld_find_object_by_name(struct dyld *d, const struct name *name)
 {
         struct dyld_object *obj;
diff --git a/libdyld/dyld_dlfcn.c b/libdyld/dyld_dlfcn.c
index 8f0656f..1b56442 100644
--- a/libdyld/dyld_dlfcn.c
+++ b/libdyld/dyld_dlfcn.c
@@ -27,6 +27,11 @@ dyld_dynamic_load_object_by_name(struct dyld *d, const struct name *name,
         struct dyld_object *obj = NULL;
         struct dyld_object *last = NULL;
         int ret;
+        obj = dyld_find_object_by_name(d, name);
+        if (obj != NULL) {
+                *objp = obj;
+                return 0;
+        }
         ret = dyld_search_and_load_object_from_file(d, name, &obj);
         if (ret != 0) {
                 goto fail;
diff --git a/libdyld/dyld_impl.h b/libdyld/dyld_impl.h
index 5a93aea..c65353d 100644
--- a/libdyld/dyld_impl.h
+++ b/libdyld/dyld_impl.h
@@ -61,6 +61,8 @@ struct dyld_dynamic_object {
         struct dyld_object *obj;
 };
 
+struct dyld_object *dyld_find_object_by_name(struct dyld *d,
+                                             const struct name *name);
 int dyld_resolve_dependencies(struct dyld *d, struct dyld_object *obj,
                               bool bindnow);
 int dyld_execute_all_init_funcs(struct dyld *d, struct dyld_object *start);
-- 
2.43.0


From e482490b0772da3492c2cc709faa0332a18ea3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:59:11 +0000
Subject: [PATCH 44/44] fix: load-hex with input that arrives late

With --wasi, stdin is non-blocking. Reading the module failed when the other
end had not written all of it yet, and the rest of it was taken for commands.
---
 cli/repl.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cli/repl.c b/cli/repl.c
index 4e1854f..d2758d3 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -801,7 +801,21 @@ toywasm_repl_load_hex(struct repl_state *state, const char *modname,
         }
         mod->buf_mapped = false;
         xlog_printf("reading %zu bytes from stdin\n", mod->bufsize);
+#if !defined(_WIN32)
+        /* wasi makes stdin non-blocking */
+        bool orig;
+        ret = set_nonblocking(fileno(stdin), false, &orig);
+        if (ret != 0) {
+                goto fail;
+        }
+#endif
         ret = read_hex_from_stdin(mod->buf, mod->bufsize);
+#if !defined(_WIN32)
+        int restore_ret = set_nonblocking(fileno(stdin), orig, NULL);
+        if (ret == 0) {
+                ret = restore_ret;
+        }
+#endif
         if (ret != 0) {
                 xlog_printf("failed to read module from stdin\n");
                 goto fail;
-- 
2.43.0

