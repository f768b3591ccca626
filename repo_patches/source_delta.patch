From f57ef61c43947438f7a5fa59d8fec7f80799eccb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:45 +0000
Subject: [PATCH 001/132] fix: FQ_DYN_INIT named a non-existent element-type
 macro and never compiled

---
 inc/fast/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/queue.h b/inc/fast/queue.h
index 0c33251..68a6a05 100644
--- a/inc/fast/queue.h
+++ b/inc/fast/queue.h
@@ -122,7 +122,7 @@ typedef struct __fast_queue __fast_queue;
                                 __fast_queue * _q = &(q_)->q;  \
                                 _q->rd = _q->wr = 0;    \
                                 _q->sz = sz_;               \
-                                (q_)->elem = NEWZA(__qetype(q_), sz_);\
+                                (q_)->elem = NEWZA(__qetyp(q_), sz_);\
                             } while (0)
 
 
-- 
2.43.0


From e2650205b5827ab5b7dd1a48cf6f30e8718faceb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:10 +0000
Subject: [PATCH 002/132] fix: MPMC_QUEUE_RESET used undeclared names and never
 compiled

---
 inc/fast/mpmc_bounded_queue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/fast/mpmc_bounded_queue.h b/inc/fast/mpmc_bounded_queue.h
index 2a4ce03..924add0 100644
--- a/inc/fast/mpmc_bounded_queue.h
+++ b/inc/fast/mpmc_bounded_queue.h
@@ -225,12 +225,12 @@ __alloc(size_t n)
 // multi-threaded context.
 #define MPMC_QUEUE_RESET(q_)    do {                                \
         typeof(q_) _qc = (q_);                                      \
-        __mpmc_slot_ty(qc) *_p   = &qc->slot[0],                    \
-                           *_end = p + qc->q.sz;                    \
+        __mpmc_slot_ty(_qc) *_p   = &_qc->slot[0],                  \
+                            *_end = _p + _qc->q.sz;                 \
                                                                     \
         for (; _p < _end; _p++) {                                   \
             atomic_store(&_p->turn, 0);                             \
-            memset(_p->data, 0, sizeof _p->data);                   \
+            memset(&_p->data, 0, sizeof _p->data);                  \
         }                                                           \
         __mpmc_q_reset(&_qc->q);                                    \
 } while (0)
-- 
2.43.0


From ba871a4e3dd33538ca3fe66c6f558c2b2777cd5c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:10 +0000
Subject: [PATCH 003/132] fix: MPMC_QUEUE_CAP named a non-existent member and
 never compiled

---
 inc/fast/mpmc_bounded_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/mpmc_bounded_queue.h b/inc/fast/mpmc_bounded_queue.h
index 924add0..54db710 100644
--- a/inc/fast/mpmc_bounded_queue.h
+++ b/inc/fast/mpmc_bounded_queue.h
@@ -345,7 +345,7 @@ __alloc(size_t n)
 #define MPMC_QUEUE_SIZE(q_)     ((size_t)__mpmc_q_len(&(q_)->q))
 
 // Return the capacity of the mpmc queue
-#define MPMC_QUEUE_CAP(q_)      ((size_t)((q_)->sz))
+#define MPMC_QUEUE_CAP(q_)      ((size_t)((q_)->q.sz))
 
 // Return true if the queue is full, false otherwise. Note that this
 // is best effort when we have concurrent readers/writers.
-- 
2.43.0


From e440683047e1a51683e2bedfd15277bbfe63472c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:12 +0000
Subject: [PATCH 004/132] fix: hash table insert kept the bucket locked when
 the key exists or memory runs out

---
 src/hashtable/hashtab.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 6ec93b6..3fa913b 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -412,6 +412,7 @@ insert_internal(hash_table * tab, void ** p_data, int op)
                 break;
         }
 
+        lockmgr_unlock(&b->lock);
         goto _done;
     }
 
@@ -422,7 +423,10 @@ insert_internal(hash_table * tab, void ** p_data, int op)
      */
 
     e = tNEW(hash_node, tab);
-    if (!e) goto _done;
+    if (!e) {
+        lockmgr_unlock(&b->lock);
+        goto _done;
+    }
 
     retval  = 0;
     e->data = data;
-- 
2.43.0


From eb72091a2c97729281fcaa195c5f4273c7a3a6e4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:12 +0000
Subject: [PATCH 005/132] fix: hash table operations used the bucket array and
 statistics while a resize replaced them

---
 src/hashtable/hashtab.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 3fa913b..1c3da7e 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -208,9 +208,12 @@ hash_table_lookup(hash_table * tab, const void * key, void** p_ret)
     if (!(tab && key)) return -EINVAL;
 
     hash  = hashfunc(tab, key);
-    b     = &tab->buckets[hash & (tab->size -1)];
     cmp   = tab->cmp;
 
+    // keeps resize() from replacing the bucket array under us
+    lockmgr_lock(&tab->lock);
+    b     = &tab->buckets[hash & (tab->size -1)];
+
     lockmgr_lock(&b->lock);
 
     SL_FOREACH(p, &b->head, link) {
@@ -226,6 +229,8 @@ hash_table_lookup(hash_table * tab, const void * key, void** p_ret)
     lockmgr_unlock(&b->lock);
 
     if (!ret) ++tab->stats.failed_lookups;
+    lockmgr_unlock(&tab->lock);
+
     if (p_ret) *p_ret = ret;
 
     return retval;
@@ -249,9 +254,11 @@ hash_table_remove(hash_table * tab, const void * key, void** p_val)
 
     retval = -ENOENT;
     hash   = hashfunc(tab, key);
-    b      = &tab->buckets[hash & (tab->size -1)];
     cmp    = tab->cmp;
 
+    lockmgr_lock(&tab->lock);
+    b      = &tab->buckets[hash & (tab->size -1)];
+
     lockmgr_lock(&b->lock);
 
     p_next = &SL_FIRST(&b->head);
@@ -269,6 +276,7 @@ hash_table_remove(hash_table * tab, const void * key, void** p_val)
     }
 
     lockmgr_unlock(&b->lock);
+    lockmgr_unlock(&tab->lock);
 
     return retval;
 }
@@ -380,6 +388,8 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     int (*cmp)(const void*, const void*) = tab->cmp;
 
     uint32_t hash  = hashfunc(tab, data);
+
+    lockmgr_lock(&tab->lock);
     hash_bucket* b = &tab->buckets[hash & (tab->size-1)];
 
     lockmgr_lock(&b->lock);
@@ -438,8 +448,6 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     /*
      * Update statistics and see if table needs to grow.
      */
-    lockmgr_lock(&tab->lock);
-
     ++tab->stats.inserts;
     ++tab->stats.nodes;
     ++b->count;
@@ -458,9 +466,8 @@ insert_internal(hash_table * tab, void ** p_data, int op)
             retval = resize(tab);
     }
 
-    lockmgr_unlock(&tab->lock);
-
 _done:
+    lockmgr_unlock(&tab->lock);
     return retval;
 }
 
-- 
2.43.0


From 85b4bd785fdf8c50ac253d82aafa87bf025281e4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:12 +0000
Subject: [PATCH 006/132] fix: sorted hash table iterator locked the table lock
 it already holds

---
 src/hashtable/hashtab_iter.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 71900be..cf73a37 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -334,7 +334,7 @@ sorted_iter_init(hash_table_iter * it, const void * param)
 
     USEARG(param);
 
-    lockmgr_lock(&tab->lock);
+    // our caller holds the table lock
     sorted->max = tab->stats.nodes;
     if (sorted->max == 0) goto _done;
 
@@ -366,7 +366,6 @@ sorted_iter_init(hash_table_iter * it, const void * param)
     ok = 0;
 
 _done:
-    lockmgr_unlock(&tab->lock);
     return ok;
 }
 
-- 
2.43.0


From 86e8cd194bb2d286ca2345ffcb0598838ebba2ef Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:12 +0000
Subject: [PATCH 007/132] fix: sorted hash table iterator compared pointers to
 the items instead of the items

---
 src/hashtable/hashtab_iter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index cf73a37..04b96a2 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -315,7 +315,7 @@ qsort_cmp(const void * a, const void * b)
     indir_node * p = (indir_node *)a,
                * q = (indir_node *)b;
 
-    return (*p->cmp)(&p->node->data, &q->node->data);
+    return (*p->cmp)(p->node->data, q->node->data);
 }
 
 
-- 
2.43.0


From 2610bcb7bea6ba726b88c5736b7d5187137fca0d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:12 +0000
Subject: [PATCH 008/132] fix: bucket iterator ignored the table's hash
 randomizer and visited the wrong bucket

---
 src/hashtable/hashtab_iter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 04b96a2..c99beef 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -442,7 +442,7 @@ static int
 bucket_iter_init(hash_table_iter * it, const void * key)
 {
     hash_table * tab = it->table;
-    uint32_t  hash  = (*tab->hash)(key);
+    uint32_t  hash  = tab->random ^ (*tab->hash)(key);
     hash_bucket * b  = &tab->buckets[hash & (tab->size -1)];
 
     it->un.bucket.bucket = b;
-- 
2.43.0


From 5a54342032e51bef58f49b7fab73b092468e8b8d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:12 +0000
Subject: [PATCH 009/132] fix: bucket iterator dereferenced NULL when advanced
 past its end

---
 src/hashtable/hashtab_iter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index c99beef..bf703f8 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -478,7 +478,7 @@ bucket_iter_end(hash_table_iter * it)
 static int
 bucket_iter_next(hash_table_iter * it)
 {
-    it->cur = SL_NEXT(it->cur, link);
+    if (it->cur) it->cur = SL_NEXT(it->cur, link);
     return it->cur ? 0 : EOF;
 }
 
-- 
2.43.0


From 74b9aafed4795a36aaea17336bea71378a5cd028 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:12 +0000
Subject: [PATCH 010/132] fix: hash_table_remove_if passed the address of the
 item pointer instead of the item

---
 src/hashtable/hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 1c3da7e..cced22b 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -311,7 +311,7 @@ hash_table_remove_if(hash_table * tab,
         lockmgr_lock(&b->lock);
         p_next = &SL_FIRST(&b->head);
         while ((p = *p_next)) {
-            if ((*pred)(cookie, &p->data)) {
+            if ((*pred)(cookie, p->data)) {
                 ++retval;
                 *p_next = SL_NEXT(p, link);
                 remove_node(tab, b, p);
-- 
2.43.0


From 296365ecbb1e68a47a226f632c8a1d5f7167478b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:14 +0000
Subject: [PATCH 011/132] fix: ht_remove never gave back emptied buckets in the
 fill count, so churn doubled the table without bound

---
 src/hashtable/fast-ht.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/fast-ht.c b/src/hashtable/fast-ht.c
index 6ecf888..fedbb63 100644
--- a/src/hashtable/fast-ht.c
+++ b/src/hashtable/fast-ht.c
@@ -579,8 +579,8 @@ ht_remove(ht* h, uint64_t k, void** p_ret)
         g->fp = __clear_fp(g->fp, slot);
         g->hk[slot] = 0;
         g->hv[slot] = 0;
-        b->nodes--;
         h->nodes--;
+        if (--b->nodes == 0) h->fill--;
         return 1;
     }
 
-- 
2.43.0


From e73c9bb1d8e987462bed608ffcb42ad84a71f6b7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:47 +0000
Subject: [PATCH 012/132] fix: mempool refused (assertion) pools of exactly one
 block

---
 src/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mempool.c b/src/mempool.c
index 54c4331..0f6cc65 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -230,7 +230,7 @@ new_chunk(mempool* a)
     uint64_t alloc_size = sizeof(memchunk) + chunk_size + MINALIGNMENT;
 
     /* Guard against arithmetic overflow */
-    assert(chunk_size > a->block_size && chunk_size > a->min_units);
+    assert(chunk_size >= a->block_size && chunk_size > a->min_units);
     assert(alloc_size > chunk_size);
 
     memchunk *ch = (memchunk *) (*a->traits.alloc)(a->traits.context, alloc_size);
-- 
2.43.0


From c3ffae5b003b4e845e7ad447e499b1b81d445fe9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:47 +0000
Subject: [PATCH 013/132] fix: mempool on caller memory wrapped around on
 regions too small for its bookkeeping and wrote past them

---
 src/mempool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mempool.c b/src/mempool.c
index 0f6cc65..07950e5 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -429,6 +429,7 @@ mempool_init_from_mem(mempool* a, uint_t block_size,
      * will be.
      */
     ptr       = _Align(uint8_t *, pool);
+    if (poolsize < (uint64_t)(ptr - pUCHAR(pool))) return -ENOMEM;
     poolsize -= (ptr - pUCHAR(pool));
 
     /*
@@ -484,6 +485,7 @@ mempool_new_from_mem(mempool** p_a, uint_t block_size,
      * will be.
      */
     ptr       = _Align(uint8_t *, pool);
+    if (poolsize <= (uint_t)(ptr - pUCHAR(pool)) + sizeof *a) return -ENOMEM;
     poolsize -= ptr - pUCHAR(pool);
     a         = (mempool* )ptr;
     ptr      += sizeof *a;
-- 
2.43.0


From a8c33f430e25d69e7ccb57a348054f7998e70de2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:47 +0000
Subject: [PATCH 014/132] fix: arena_alloc size computation wrapped around for
 huge requests and returned too little memory

---
 src/arena.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arena.c b/src/arena.c
index 3d9bbff..a8e3f41 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -30,6 +30,7 @@
  */
 
 #include <errno.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include "utils/arena.h"
 #include "utils/utils.h"
@@ -128,6 +129,9 @@ arena_alloc(arena_t a, size_t nbytes)
 
     if (!a) return 0;
 
+    /* No room for the alignment, the node and the slack asked for below */
+    if (nbytes > (SIZE_MAX / 16) - sizeof *n - SYS_ALIGNMENT) return 0;
+
     /* Account for system alignment */
     nbytes = _ALIGN_UP(nbytes, SYS_ALIGNMENT);
 
-- 
2.43.0


From 38549cb8083aa59d889c9eaae23542bfc3dcf6e0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:19 +0000
Subject: [PATCH 015/132] fix: scalable bloom filter used an uninitialized
 element count beyond its eighth filter

---
 src/hashtable/bloom.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index f852be1..b2a3d98 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -350,6 +350,7 @@ standard_bloom_init(bloom* b, size_t n, double e)
     b->k = k;
     b->m = msub;
     b->e = e;
+    b->size = 0;    // 'b' may be fresh memory from a grown array
 
     b->bmsize  = bytes;
     b->flags   = 0;
-- 
2.43.0


From d598de31375691b35d357f968365bc6c2d2733fb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:19 +0000
Subject: [PATCH 016/132] fix: counting bloom filter counters wrapped around
 and removing an absent element damaged others

---
 src/hashtable/bloom.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index b2a3d98..cc14092 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -249,13 +249,15 @@ counting_bloom_probe(bloom* b, uint64_t val)
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
 
-        b->bitmap[j]++;
+        if (b->bitmap[j] < UINT8_MAX) b->bitmap[j]++;   // saturate
     }
 
     b->size++;
 }
 
 
+static int counting_bloom_find(bloom* b, uint64_t val);
+
 /*
  * Return False if element was not found, True otherwise.
  */
@@ -266,19 +268,19 @@ counting_bloom_remove(bloom* b, uint64_t val)
     uint64_t h1 = z & 0xffffffff;
     uint64_t h2 = z >> 32;
     uint64_t i;
-    uint64_t r = 0;
+
+    // removing what isn't there would damage other elements
+    if (!counting_bloom_find(b, val)) return 0;
 
     for (i = 0; i < b->k; ++i) {
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
-        if (b->bitmap[j]) {
-            b->bitmap[j] -= 1;
-            r = 1;
-        }
+        // a saturated counter has lost count; it must stay put
+        if (b->bitmap[j] < UINT8_MAX) b->bitmap[j] -= 1;
     }
 
     b->size--;
-    return r;
+    return 1;
 }
 
 
-- 
2.43.0


From f6db81ac7c1184b4cdfe982f1dc8904b32e2c37d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:18 +0000
Subject: [PATCH 017/132] fix: xor filter fingerprints were allocated by key
 count instead of filter size, overflowing for small sets

---
 src/hashtable/xorfilter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/xorfilter.c b/src/hashtable/xorfilter.c
index 079476c..e874185 100644
--- a/src/hashtable/xorfilter.c
+++ b/src/hashtable/xorfilter.c
@@ -281,7 +281,7 @@ Xorfilter_new8(uint64_t *keys, size_t n)
         return 0;
     }
 
-    x->fp8 = NEWZA(uint8_t, VECT_LEN(&stack) * 3);
+    x->fp8 = NEWZA(uint8_t, (size_t)x->size * 3);
     while (VECT_LEN(&stack) > 0) {
         keyidx  ki = VECT_POP_BACK(&stack);
         uint8_t fp = __xfp8(ki.hash);
@@ -305,7 +305,7 @@ Xorfilter_new16(uint64_t *keys, size_t n)
         return 0;
     }
 
-    x->fp16  = NEWZA(uint16_t, VECT_LEN(&stack) * 3);
+    x->fp16  = NEWZA(uint16_t, (size_t)x->size * 3);
     x->is_16 = 1;
     while (VECT_LEN(&stack) > 0) {
         keyidx   ki = VECT_POP_BACK(&stack);
-- 
2.43.0


From a85c7c7d7be6cf54f77ee34106e6437ca342377b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:37 +0000
Subject: [PATCH 018/132] fix: loading a bloom filter did not restore the error
 rates its filters were created with

---
 src/hashtable/bloom_marshal.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index 1e94bd3..e6df59a 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -370,7 +370,7 @@ wrfilter(uint8_t * start, offpair *o, bloom *b)
 
 // Read filter data from offset pair 'o' into bloom 'b'.
 static int
-rdfilter(uint8_t *start, offpair *o, bloom *b, int dommap)
+rdfilter(uint8_t *start, offpair *o, bloom *b, double e, int dommap)
 {
     uint8_t * h = start + o->hdroff;
     uint8_t * d = start + o->dataoff;
@@ -383,7 +383,7 @@ rdfilter(uint8_t *start, offpair *o, bloom *b, int dommap)
     b->salt   = dec_LE_u64(h); h += 8;
     b->size   = dec_LE_u64(h); h += 8;
     b->bmsize = dec_LE_u64(h); h += 8;
-    b->e      = make_e(b->k);
+    b->e      = e;
 
     assert((h - z) == FILT_HDRSIZ);
 
@@ -690,11 +690,14 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
         scalable_bloom *sb = m.b->filter;
         offpair *o;
         uint32_t i;
+        double e = m.b->e;
 
+        // each successive filter was made with a tighter error rate
         VECT_FOR_EACHi(&m.offs, i, o) {
             bloom *f = &sb->bfa[i];
 
-            r = rdfilter(start, o, f, do_mmap);
+            r  = rdfilter(start, o, f, e, do_mmap);
+            e *= sb->r;
             if (r < 0) {
                 errno = -r;
                 goto fail0;
@@ -704,7 +707,7 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
         bloom   *f = m.b->filter;
         offpair *o = &VECT_ELEM(&m.offs, 0);
 
-        rdfilter(start, o, f, do_mmap);
+        rdfilter(start, o, f, m.b->e, do_mmap);
     }
 
     VECT_FINI(&m.offs);
-- 
2.43.0


From 2359bc5c6a917fb0454dce2e225a571734a71e96 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:37 +0000
Subject: [PATCH 019/132] fix: saving a filter ignored failures to write it to
 disk

---
 src/hashtable/bloom_marshal.c     | 12 +++++++++---
 src/hashtable/xorfilter_marshal.c | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index e6df59a..aced945 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -601,9 +601,15 @@ Bloom_marshal(Bloom *b, const char *fname)
     cksum(&m.ck, start+m.datasize, start, m.datasize);
     VECT_FINI(&m.offs);
     munmap(mptr, sz);
-    fsync(fd);
-    fdatasync(fd);
-    close(fd);
+    if (fsync(fd) < 0 || fdatasync(fd) < 0) {
+        r = errno;
+        goto fail;
+    }
+    if (close(fd) < 0) {
+        r = errno;
+        unlink(file);
+        return -r;
+    }
     if (rename(file, fname) < 0) {
         r = -errno;
         unlink(file);
diff --git a/src/hashtable/xorfilter_marshal.c b/src/hashtable/xorfilter_marshal.c
index ea78a5c..d05def1 100644
--- a/src/hashtable/xorfilter_marshal.c
+++ b/src/hashtable/xorfilter_marshal.c
@@ -167,9 +167,15 @@ Xorfilter_marshal(Xorfilter *x, const char *fname)
     crypto_hash_sha256_final(&h, st);
 
     munmap(mptr, filesz);
-    fsync(fd);
-    fdatasync(fd);
-    close(fd);
+    if (fsync(fd) < 0 || fdatasync(fd) < 0) {
+        r = errno;
+        goto fail;
+    }
+    if (close(fd) < 0) {
+        r = errno;
+        unlink(file);
+        return -r;
+    }
 
     if (rename(file, fname) < 0) {
         r = errno;
-- 
2.43.0


From 6ce503fa879625efb1fc67d3c80176cd4b9265e4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:37 +0000
Subject: [PATCH 020/132] fix: Xorfilter_marshal returned a positive value when
 mmap failed

---
 src/hashtable/xorfilter_marshal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/xorfilter_marshal.c b/src/hashtable/xorfilter_marshal.c
index d05def1..59f9377 100644
--- a/src/hashtable/xorfilter_marshal.c
+++ b/src/hashtable/xorfilter_marshal.c
@@ -148,7 +148,7 @@ Xorfilter_marshal(Xorfilter *x, const char *fname)
 
     void *mptr = mmap(0, filesz, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
     if (mptr == ((void *)-1)) {
-        r = -errno;
+        r = errno;
         goto fail;
     }
 
-- 
2.43.0


From 375556b7f1b1d23d4b7b778592e86421c4eea5d8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:35 +0000
Subject: [PATCH 021/132] fix: vector initialized from an empty one had no
 capacity and hung on its first growth

---
 inc/fast/vect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 87e3ae8..22fa10c 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -72,9 +72,9 @@ extern "C" {
                                     typeof(v) _v = (v);                                         \
                                     typeof(w) _w = (w);                                         \
                                     assert(sizeof(_v->arr[0]) == sizeof(_w->arr[0]));           \
-                                    _v->arr  = NEWZA(typeof(_v->arr[0]), _w->size);             \
+                                    VECT_INIT(_v, _w->size);                                    \
                                     memcpy(_v->arr, _w->arr, _w->size * sizeof(_w->arr[0]));    \
-                                    _v->cap  = _v->size = _w->size;                             \
+                                    _v->size = _w->size;                                        \
                                 } while (0)
 
 
-- 
2.43.0


From cb4a05aa7e25e6abae158ccf58ba212a0d7cd84f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:35 +0000
Subject: [PATCH 022/132] fix: VECT_PUSH_FRONT moved elements by the size of
 the pushed expression's type instead of the vector's

---
 inc/fast/vect.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 22fa10c..8825711 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -176,12 +176,13 @@ extern "C" {
  */
 #define VECT_PUSH_FRONT(v,e)         do {                             \
                                             typeof(v) v_ = v;         \
+                                            typeof(v_->arr[0]) x_ = (e);            \
                                             __vect_RESERVE(v_, v_->size+1);         \
-                                            typeof(e) * start_ = v_->arr;         \
-                                            typeof(e) * p_     = start_ + v_->size; \
+                                            typeof(v_->arr) start_ = v_->arr;       \
+                                            typeof(v_->arr) p_     = start_ + v_->size; \
                                             for (; p_ > start_; p_--)   \
                                                 *p_ = *(p_ - 1);         \
-                                            *p_ = (e);                   \
+                                            *p_ = x_;                    \
                                             v_->size++;                  \
                                       } while (0)
 
-- 
2.43.0


From 4eb119e0db98682c1986b0430cb49e9e951ef450 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:35 +0000
Subject: [PATCH 023/132] fix: VECT_SAMPLE wrote through the destination's
 array as it was before growing it

---
 inc/fast/vect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 8825711..a78bbd9 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -284,10 +284,10 @@ extern "C" {
                                         typeof(s) b_ = (s);                     \
                                         if (k_ <  b_->size) {                   \
                                             typeof(d) a_ = (d);                 \
-                                            typeof(a_->arr) x_ = a_->arr;       \
-                                            typeof(a_->arr) y_ = b_->arr;       \
                                             size_t i_;                          \
                                             __vect_RESERVE(a_, k_);             \
+                                            typeof(a_->arr) x_ = a_->arr;       \
+                                            typeof(a_->arr) y_ = b_->arr;       \
                                             a_->size = k_;                      \
                                             for (i_=0; i_ < k_; i_++)           \
                                                 x_[i_] = y_[i_];                \
-- 
2.43.0


From f21d830458600a38890684f49354f0f2f77b77e6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:35 +0000
Subject: [PATCH 024/132] fix: list operations that reinitialize an entry used
 the undefined INIT_LIST_HEAD and never linked

---
 inc/fast/llist.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/fast/llist.h b/inc/fast/llist.h
index 2027868..3085640 100644
--- a/inc/fast/llist.h
+++ b/inc/fast/llist.h
@@ -69,6 +69,7 @@ static inline void list_init(list_head* l)
 {
     l->next = l->prev = l;
 }
+#define INIT_LIST_HEAD(l)   list_init(l)
 
 /*
  * Insert a new entry between two known consecutive entries.
-- 
2.43.0


From 8dbd779d595b054259caccd894eabd531a22b4b0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:35 +0000
Subject: [PATCH 025/132] fix: fast_buf used an undefined allocation macro and
 never compiled

---
 inc/fast/buf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/fast/buf.h b/inc/fast/buf.h
index d55a019..aebf917 100644
--- a/inc/fast/buf.h
+++ b/inc/fast/buf.h
@@ -24,6 +24,7 @@ extern "C" {
 
 #include <stdlib.h>
 #include <stdint.h>
+#include <string.h>
 #include "utils/new.h"
 
 
@@ -76,7 +77,7 @@ fast_buf_reserve(fast_buf *b, size_t want)
     if (want >= b->cap) {
         do { b->cap *= 2; } while (b->cap < want);
 
-        b->buf = RENEW(uint8_t, b->buf, b->cap);
+        b->buf = RENEWA(uint8_t, b->buf, b->cap);
     }
 }
 
-- 
2.43.0


From cb7eab34bd4c65d7a360dcdaa3ac55e02a08a979 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:35 +0000
Subject: [PATCH 026/132] fix: minheap used an undeclared function to exchange
 elements and never compiled

---
 inc/utils/minheap.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inc/utils/minheap.h b/inc/utils/minheap.h
index 380be13..87acf2d 100644
--- a/inc/utils/minheap.h
+++ b/inc/utils/minheap.h
@@ -23,6 +23,12 @@ private:
     int size;     // Maximum size of the heap
     int n;      // Number of elements now in the heap
     void siftdown (int);  // Put element in its correct place
+    static void swap (Elem * h, int i, int j)   // Exchange two elements
+    {
+        Elem tmp = h[i];
+        h[i] = h[j];
+        h[j] = tmp;
+    }
 
 public:
     minheap (Elem * h, int num, int max) // Constructor
-- 
2.43.0


From 4699c0f1e80f55e767c87f662f65c701ed687cd0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:35 +0000
Subject: [PATCH 027/132] fix: minheap removal at a position never moved past
 the first exchange and ran off the heap for the last position

---
 inc/utils/minheap.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/inc/utils/minheap.h b/inc/utils/minheap.h
index 87acf2d..40db6b8 100644
--- a/inc/utils/minheap.h
+++ b/inc/utils/minheap.h
@@ -141,10 +141,16 @@ bool minheap < Elem, Comp >::remove (int pos, Elem & it)
 
     swap (Heap, pos, --n);         // Swap with last value
 
-    while ((pos != 0) && (Comp::lt (Heap[pos], Heap[parent (pos)])))
-        swap (Heap, pos, parent (pos));      // Push up if large key
+    if (pos < n)
+    {
+        while ((pos != 0) && (Comp::lt (Heap[pos], Heap[parent (pos)])))
+        {
+            swap (Heap, pos, parent (pos));      // Push up if large key
+            pos = parent (pos);
+        }
 
-    siftdown (pos);           // Push down if small key
+        siftdown (pos);           // Push down if small key
+    }
 
     it = Heap[n];
 
-- 
2.43.0


From 5231d364865bc96602662ef948f02d7e0c4df909 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:08 +0000
Subject: [PATCH 028/132] fix: strsplit_quick: an array of zero slots is not
 growable

---
 src/strsplit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strsplit.c b/src/strsplit.c
index 3cd3137..4f15de9 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -111,7 +111,7 @@ static inline int
 _stra_resize_if(stra* a, int n)
 {
     int want = a->size + n;
-    if (a->cap < 0)
+    if (a->cap <= 0)
         return want <= -a->cap;
 
     if (want >= a->cap)
-- 
2.43.0


From de61ea2164b6ba10cf7645301e215cadb89f1ddc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:08 +0000
Subject: [PATCH 029/132] fix: strsplit_csv: bytes >= 0x80 index outside the
 delimiter set; report every unterminated quote

---
 src/strsplit_csv.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/strsplit_csv.c b/src/strsplit_csv.c
index 78c5e24..1047806 100644
--- a/src/strsplit_csv.c
+++ b/src/strsplit_csv.c
@@ -75,12 +75,12 @@ strsplit_csv(char *sv[], int sv_size, char *str, const char *sep)
      */
 
     if (!sep) sep = ",";
-    for (; (c = *sep); sep++) {
+    for (; (c = 0xff & *sep); sep++) {
         __add_delim(&v, c);
         assert(__is_delim(&v, c));
     }
 
-    while ((c = *str)) {
+    while ((c = 0xff & *str)) {
         switch (c) {
             case '\'': case '"':
                 if (q == c) {
@@ -126,8 +126,9 @@ strsplit_csv(char *sv[], int sv_size, char *str, const char *sep)
         }
     }
 
+    if (q) return -EINVAL;
+
     if (sub != p) {
-        if (q)            return -EINVAL;
         if (k == sv_size) return -ENOSPC;
 
         *p++ = 0;
-- 
2.43.0


From 8dd0856925917b2605ccb27fe8f7c3900222c12b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:08 +0000
Subject: [PATCH 030/132] fix: strsplitargs: quotes inside or next to words;
 keep empty and space-only quoted arguments

---
 src/splitargs.c | 49 +++++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/splitargs.c b/src/splitargs.c
index 8449d1f..4bad0e1 100644
--- a/src/splitargs.c
+++ b/src/splitargs.c
@@ -54,11 +54,12 @@ strsplitargs(char **args, size_t n, char *s)
 {
     int c;
     int i = 0;
-    int k = n;
+    size_t k = n;
     int inquote = 0;
-    int eow = 0;
+    int inword  = 0;
 
-    char *p = s;    // start of substring
+    char *p = s,    // start of current word
+         *w = s;    // where the next char of the current word goes
 
 #define ADDARG(z)   do {\
                         if (k == 0) return -ENOSPC;\
@@ -66,41 +67,41 @@ strsplitargs(char **args, size_t n, char *s)
                         k--;             \
                     } while (0)
 
-    for (; (c = *s); s++) {
+    for (; (c = 0xff & *s); s++) {
         if (inquote) {
-            if (c == inquote) { // quote ended
-                *s = 0;
-                ADDARG(p+1);    // +1 to skip the starting quote.
-                p       = s+1;  // +1 to skip the ending quote
-                inquote = 0;
-            }
-
-            // regardless, we consume everything inside the quotes.
+            // we consume everything inside the quotes.
+            if (c == inquote) inquote = 0;
+            else              *w++ = c;
             continue;
         }
 
         if (isspace(c)) {
-            *s  = 0;
-            eow = 1;
+            if (inword) {
+                *w++ = 0;
+                ADDARG(p);
+                inword = 0;
+            }
             continue;
         }
 
-        if (c == '"' || c == '\'') {
-            inquote = c;
-        }
-
         // either c is a quote-char or a non-ws char. In either
-        // case, we terminate the previous word (if there is one).
-        if (eow) {
-            if (*p) ADDARG(p);
-            p   = s;
-            eow = 0;
+        // case, it is part of a word. Quotes are removed; so 'w'
+        // never gets ahead of 's'.
+        if (!inword) {
+            p = w;
+            inword = 1;
         }
+
+        if (c == '"' || c == '\'') inquote = c;
+        else                       *w++ = c;
     }
 
     if (inquote) return -EINVAL;    // no ending quote
 
-    if (*p) ADDARG(p);
+    if (inword) {
+        *w = 0;
+        ADDARG(p);
+    }
 
     return i;   // total number of arguments
 }
-- 
2.43.0


From 6fcd3f3f570348a4f26cbb7d9d53e76c92078ac9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:38 +0000
Subject: [PATCH 031/132] fix: gstr_escape: bytes >= 0x80 index outside the
 escape set

---
 src/escape.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/escape.c b/src/escape.c
index ebc2993..e8c3534 100644
--- a/src/escape.c
+++ b/src/escape.c
@@ -34,8 +34,9 @@ gstr_escape(gstr *g, const char *escset, int esc_char)
     delim d;
     int c;
 
+    esc_char &= 0xff;
     __init_delim(&d);
-    for (; (c = *escset); escset++) {
+    for (; (c = 0xff & *escset); escset++) {
         __add_delim(&d, c);
     }
 
@@ -51,7 +52,7 @@ gstr_escape(gstr *g, const char *escset, int esc_char)
 
     assert(g->str);
 
-    while ((c = *ptr++)) {
+    while ((c = 0xff & *ptr++)) {
         if (c == esc_char) {
             gstr_append_ch(g, c);
             gstr_append_ch(g, c);
-- 
2.43.0


From 1f5c6f885e5f7ce4eadda6c55d987036b3373fce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:38 +0000
Subject: [PATCH 032/132] fix: gstr_unescape: hex letters, hex escape without
 digits, escape chars >= 0x80

---
 src/unescape.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/unescape.c b/src/unescape.c
index 1262574..c3cab46 100644
--- a/src/unescape.c
+++ b/src/unescape.c
@@ -47,8 +47,10 @@ gstr_unescape(gstr *g, int esc_char)
                *end = src + g->len;
     char *out       = g->str;
 
+    esc_char &= 0xff;
+
     while (ptr < end) {
-        int c = *ptr;
+        int c = 0xff & *ptr;
         assert(c);
         if (c == esc_char) {
             ptr = parse_esc(&out, ptr+1, esc_char);
@@ -162,7 +164,7 @@ parse_esc(char **p_out, const char *src, int esc_char)
             *out++ = esc_char;
             *out++ = c;
             *p_out = out;
-            return src + 2;
+            return src + 1;
         }
     }
 
@@ -219,6 +221,7 @@ extract_hex(int *p_val, const char *ptr)
 {
     int n   = 2;
     int val = 0;
+    const char *start = ptr;
 
     while (n-- > 0) {
         int c = *ptr;
@@ -234,12 +237,12 @@ extract_hex(int *p_val, const char *ptr)
 
             case 'a': case 'b': case 'c':
             case 'd': case 'e': case 'f':
-                z = c - 'a';
+                z = c - 'a' + 10;
                 break;
 
             case 'A': case 'B': case 'C':
             case 'D': case 'E': case 'F':
-                z = c - 'A';
+                z = c - 'A' + 10;
                 break;
 
             case 0:
@@ -253,7 +256,7 @@ extract_hex(int *p_val, const char *ptr)
 
 out:
     *p_val = val & 0xff;
-    return ptr;
+    return ptr == start ? 0 : ptr;
 }
 
 /* EOF */
-- 
2.43.0


From 16039396c1327a4f7eeb1464caec9f4eaf82762b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:38 +0000
Subject: [PATCH 033/132] fix: strtosize: detect every overflow, accept the B
 suffix, reject text after the suffix

---
 src/strtosize.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/strtosize.c b/src/strtosize.c
index baa6d0c..4656e0f 100644
--- a/src/strtosize.c
+++ b/src/strtosize.c
@@ -140,6 +140,10 @@ strtosize(const char* str, int base, uint64_t* ret)
             case ' ':
                 break;
 
+            case 'B':
+                endptr--;   // plain bytes; handled below.
+                break;
+
             case 'k': case 'K':
                 mult = KB_;
                 break;
@@ -170,19 +174,25 @@ strtosize(const char* str, int base, uint64_t* ret)
 
         switch (*endptr) {
             case 0:
+                break;
             case 'B':
+                endptr++;
                 break;
             case 'b':
+                endptr++;
                 mult /= 8;
                 break;
             default:
-                if (!isspace(*endptr)) return -EINVAL;
+                break;
         }
+
+        // nothing but white space can follow the suffix
+        if (*endptr && !isspace(0xff & *endptr)) return -EINVAL;
     }
 
     uint64_t res = v * mult;
 
-    if (v > 0 && (res < v || res < mult)) return -ERANGE;
+    if (v > (~0ULL) / mult) return -ERANGE;
 
     if (ret) *ret = res;
     return 0;
-- 
2.43.0


From d08461a86e6dcb51ae6c888fce374fb20cc4756b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:08 +0000
Subject: [PATCH 034/132] fix: base64: output bounds of the buffer variants,
 decode table bound, no write past the decoded bytes

---
 src/b64_decode.c | 32 ++++++++++++++++++--------------
 src/b64_encode.c |  6 ++++--
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/b64_decode.c b/src/b64_decode.c
index 0abcc94..3c86f2e 100644
--- a/src/b64_decode.c
+++ b/src/b64_decode.c
@@ -22,7 +22,7 @@ base64_decode_value(int value_in)
     };
 	static const int decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[value_in];
 }
 
@@ -40,8 +40,7 @@ base64_decode_block(base64_decode_state* state_in, const char* code_in,
     const char* codechar = code_in;
     char* plainchar      = plaintext_out;
     char fragment;
-
-    *plainchar = state_in->plainchar;
+    char cur = state_in->plainchar; // partially decoded byte
 
     switch (state_in->step)
     {
@@ -52,47 +51,47 @@ base64_decode_block(base64_decode_state* state_in, const char* code_in,
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_a;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = cur;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
                 } while (fragment < 0);
-                *plainchar    = (fragment & 0x03f) << 2; // fallthrough
+                cur           = (fragment & 0x03f) << 2; // fallthrough
             case step_b:
                 do {
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_b;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = cur;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
                 } while (fragment < 0);
-                *plainchar++ |= (fragment & 0x030) >> 4;
-                *plainchar    = (fragment & 0x00f) << 4; // fallthrough
+                *plainchar++  = cur | (fragment & 0x030) >> 4;
+                cur           = (fragment & 0x00f) << 4; // fallthrough
             case step_c:
                 do {
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_c;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = cur;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
                 } while (fragment < 0);
-                *plainchar++ |= (fragment & 0x03c) >> 2;
-                *plainchar    = (fragment & 0x003) << 6; // fallthrough
+                *plainchar++  = cur | (fragment & 0x03c) >> 2;
+                cur           = (fragment & 0x003) << 6; // fallthrough
             case step_d:
                 do {
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_d;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = cur;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
                 } while (fragment < 0);
-                *plainchar++   |= (fragment & 0x03f);
+                *plainchar++  = cur | (fragment & 0x03f);
         }
     }
     /* control should not reach here */
@@ -105,8 +104,13 @@ base64_decode_buf(void* buf, int destlen, char* src, int srclen)
 {
     char* dest = (char*)buf;
     base64_decode_state state;
+    int i, q = 0;
 
-    if (destlen < (srclen/2)) return -ENOMEM;
+    // Each valid char decodes to 6 bits; others are skipped.
+    for (i = 0; i < srclen; i++) {
+        if (base64_decode_value(src[i]) >= 0) q++;
+    }
+    if (destlen < ((q / 4) * 3 + ((q % 4) * 6) / 8)) return -ENOMEM;
 
     base64_decode_init(&state);
 
diff --git a/src/b64_encode.c b/src/b64_encode.c
index 891f309..c88c611 100644
--- a/src/b64_encode.c
+++ b/src/b64_encode.c
@@ -125,12 +125,14 @@ base64_encode_buf(char* dest, int destlen, void* src, int srclen)
     base64_encode_state state;
     int n;
 
-    if (destlen < (2*srclen))
+    // 4 chars for every 3 bytes, a newline for every 54 bytes and the
+    // final newline and NUL.
+    if (destlen < (((srclen+2)/3)*4 + srclen/54 + 2))
         return -ENOMEM;
 
     base64_encode_init(&state);
     n = base64_encode_block(&state, (char*)src, srclen, dest);
-    assert(n < (destlen+5));
+    assert(n < destlen);
     return n + base64_encode_finish(&state, dest+n);
 }
 
-- 
2.43.0


From 88271be6b9fb19083952ba6ba56be937ecf420f3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:26 +0000
Subject: [PATCH 035/132] fix: gstring: length after copy and unquote,
 appending a string to itself, readline terminator past the buffer

---
 src/gstring.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/gstring.c b/src/gstring.c
index 123a43c..e95a6e4 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -120,9 +120,14 @@ gstr_fini(gstr *g)
 static size_t
 __append(gstr* g, const char* str, size_t len)
 {
+    // 'str' can be a part of 'g' itself; growing 'g' moves it.
+    int    self = str >= g->str && str <= (g->str + g->len);
+    size_t off  = self ? str - g->str : 0;
+
     g = grow_if(g, len+1);
-    memcpy(g->str + g->len, str, len+1);
+    memmove(g->str + g->len, self ? g->str + off : str, len);
     g->len += len;
+    g->str[g->len] = 0;
     return g->len;
 }
 
@@ -257,7 +262,9 @@ gstr_copy(gstr * dest, const gstr* src)
     dest->len = 0;
 
     dest = grow_if(dest, len+1);
-    memcpy(dest->str, src->str, len+1);
+    memmove(dest->str, src->str, len);
+    dest->len      = len;
+    dest->str[len] = 0;
     return dest;
 }
 
@@ -349,10 +356,11 @@ gstr_unquote(gstr* g)
     int q = g->str[0];
     if (q != '"' && q != '\'')  return 0;
 
-    if (g->str[g->len-1] != q) return -1;
+    if (g->len < 2 || g->str[g->len-1] != q) return -1;
 
-    g->str[--g->len] = 0;
+    g->len -= 2;
     memmove(g->str, g->str+1, g->len);
+    g->str[g->len] = 0;
     return q;
 }
 
@@ -380,13 +388,13 @@ gstr_readline(gstr * g, FILE * fp, const char * tok)
     assert(tok);
 
     __init_delim(&d);
-    for (; (c = *tok); tok++)
+    for (; (c = 0xff & *tok); tok++)
         __add_delim(&d, c);
 
     str = g->str;
     len = g->len = 0;
     while ((c = fgetc(fp)) != EOF) {
-        if (len >= g->cap) {
+        if (len + 1 >= g->cap) {    // room for the trailing null
             size_t newcap = g->cap * 2;
             str = (char *) realloc(g->str, newcap);
             if (!str)
-- 
2.43.0


From ab311b8ce94fc3a70a5d8d56e82d80231383117f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:26 +0000
Subject: [PATCH 036/132] fix: freadline: terminator past the end of a full
 buffer, last line without line break, read errors

---
 src/freadline.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/freadline.c b/src/freadline.c
index bd74ac3..eed02e8 100644
--- a/src/freadline.c
+++ b/src/freadline.c
@@ -30,16 +30,23 @@
 int
 freadline(FILE* fp, unsigned char * str, int n)
 {
-    unsigned char * end = str + n;
+    unsigned char * start = str,
+                  * end   = str + n;
+
+    if (n <= 0)
+        return -ENOSPC;
 
     while (1)
     {
         int c = fgetc(fp);
         if (c == EOF)
-            return 0;
+        {
+            if (ferror(fp))
+                return -errno;
 
-        if (ferror(fp))
-            return -errno;
+            // maybe a last line without a line break
+            break;
+        }
 
         if (c == '\r')
         {
@@ -52,13 +59,14 @@ freadline(FILE* fp, unsigned char * str, int n)
         else if (c == '\n')
             break;
 
-        if (str == end)
+        // leave room for the trailing null
+        if (str + 1 == end)
             return -ENOSPC;
 
         *str++ = c;
     }
 
     *str = 0;
-    return str - (end - n);
+    return str - start;
 }
 
-- 
2.43.0


From bfa6b0f04d16827832643ea9d33f29ddbc7a620a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:26 +0000
Subject: [PATCH 037/132] fix: strunquote: look for the closing quote at the
 end of the string

---
 src/strunquote.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strunquote.c b/src/strunquote.c
index 86759df..96d38da 100644
--- a/src/strunquote.c
+++ b/src/strunquote.c
@@ -42,9 +42,9 @@ strunquote(char* s, char** p_ret)
     if (q != '"' && q != '\'') return 0;
 
     int n = strlen(s+1);
-    if (s[n-1] != q) return -1;
+    if (n == 0 || s[n] != q) return -1;
 
-    s[--n] = 0;
+    s[n] = 0;
     if (p_ret)  *p_ret = s + 1;
     return q;
 }
-- 
2.43.0


From cf6e2f15e3c5de2f4b9208551e0c066fccff7539 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:48 +0000
Subject: [PATCH 038/132] fix: dirname: an empty path with a one byte buffer

---
 src/dirname.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dirname.c b/src/dirname.c
index 09a8695..0c42f31 100644
--- a/src/dirname.c
+++ b/src/dirname.c
@@ -25,6 +25,11 @@ dirname(char *buf, size_t bsize, const char *p)
     memcpy(buf, p, n);
     buf[n] = 0;
 
+    if (n == 0) {
+        if (bsize < 2) return 0;
+        goto slash;
+    }
+
     char *s = buf + n - 1;
 
     // skip trailing '/'
-- 
2.43.0


From b564ef9cea4cc6a39b9ca78d4b4a0e3ab070c166 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:48 +0000
Subject: [PATCH 039/132] fix: string matching: table index for bytes >= 0x80,
 Rabin-Karp reads past the text and overflows

---
 inc/utils/strmatch.h | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index d8cc873..3a6cdaf 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -40,6 +40,8 @@
 #include <algorithm>
 #include <stdexcept>
 #include <string>
+#include <type_traits>
+#include <string.h>
 
 
 // Template class that defines a KMP search algorithm instance
@@ -188,6 +190,7 @@ template<typename T> class boyer_moore_search
 public:
     typedef std::char_traits<T>             traits_type;
     typedef typename traits_type::char_type char_type;
+    typedef typename std::make_unsigned<T>::type uchar_type;  // for table lookups
 #define _bm_alphabet_size       (1 << (sizeof(char_type) * 8))
 
     boyer_moore_search(const T * pat, int patlen);
@@ -240,7 +243,7 @@ template<typename T> void boyer_moore_search<T>::calc_bad_char()
         m_bad_char[i] = m_patlen;
 
     for (i = 0; i < m1; i++)
-        m_bad_char[m_pat[i]] = m1 - i;
+        m_bad_char[uchar_type(m_pat[i])] = m1 - i;
 }
 
 template<typename T> void boyer_moore_search<T>::calc_suffixes(std::vector<int>& suff)
@@ -347,7 +350,7 @@ boyer_moore_search<T>::matchall(const T * text, int textlen)
             j += m_good_shift[0];
         }
         else
-            j += std::max(m_good_shift[i], m_bad_char[text[i+j]] - m_patlen + 1 + i);
+            j += std::max(m_good_shift[i], m_bad_char[uchar_type(text[i+j])] - m_patlen + 1 + i);
     }
 
     return r;
@@ -390,7 +393,7 @@ boyer_moore_search<T>::turbo_matchall(const T * text, int textlen)
         {
             v           = m_patlen - 1 - i;
             turbo_shift = u - v;
-            bc_shift    = m_bad_char[text[i+j]] - m_patlen + 1 + i;
+            bc_shift    = m_bad_char[uchar_type(text[i+j])] - m_patlen + 1 + i;
             shift       = std::max(turbo_shift, bc_shift);
             shift       = std::max(shift, m_good_shift[i]);
             if (shift == m_good_shift[i])
@@ -466,14 +469,19 @@ template<typename T> std::vector<int>
 rabin_karp_search<T>::matchall(const T * text, int textlen)
 {
 #define _rehash(a,b,h)   ((((h) - ((a) * d)) << 1) + (b))
-    int d, i, j, q,
-        h_pat, h_txt;
+    int i, j, q;
+    unsigned int d, h_pat, h_txt;   // modulo 2^32
 
 
     std::vector<int> r;
 
+    if (textlen < m_patlen)
+        return r;
+
     // compute d = 2^(m-1)
-    d = 1 << (m_patlen-1);
+    for (d = 1, i = 1; i < m_patlen; ++i)
+        d <<= 1;
+
     for (h_pat = h_txt = i = 0; i < m_patlen; ++i)
     {
         h_pat = (h_pat << 1) + m_pat[i];
@@ -488,7 +496,8 @@ rabin_karp_search<T>::matchall(const T * text, int textlen)
         {
             r.push_back(j);
         }
-        h_txt = _rehash(text[j], text[j+m_patlen], h_txt);
+        if (j < q)
+            h_txt = _rehash(text[j], text[j+m_patlen], h_txt);
         ++j;
     }
 
-- 
2.43.0


From bdff84efeda00ae3d91b48ca98cbfb6b52ae62b7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:21 +0000
Subject: [PATCH 040/132] fix: strtoi: report values that do not fit the
 requested type

---
 inc/utils/strutils.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/inc/utils/strutils.h b/inc/utils/strutils.h
index d96dd49..3796f87 100644
--- a/inc/utils/strutils.h
+++ b/inc/utils/strutils.h
@@ -214,6 +214,7 @@ extern ssize_t str2hex(uint8_t* out, size_t outlen, const char* str);
 
 #include <vector>
 #include <string>
+#include <type_traits>
 
 namespace putils {
 
@@ -223,7 +224,14 @@ template<typename T> std::pair<T, bool> strtoi(const std::string& s, int base=0)
     uint64_t v = 0;
     int      r = strtosize(s.c_str(), base, &v);
 
-    return std::pair<T, bool>{T(v), r == 0 ? true : false};
+    // The value must be representable in T (negative text wraps around
+    // for unsigned T of 64 bits just as in strtou64()).
+    T      t   = T(v);
+    size_t k   = s.find_first_not_of(" \t\n\v\f\r");
+    bool   neg = k != std::string::npos && s[k] == '-';
+    bool   fit = uint64_t(t) == v && (std::is_unsigned<T>::value || t == 0 || neg == (t < 0));
+
+    return std::pair<T, bool>{t, r == 0 && fit};
 }
 
 } // namespace putils
-- 
2.43.0


From ff44c701ec8223509d68cc8c1d8d3ebcdf4b9774 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:32 +0000
Subject: [PATCH 041/132] fix: gstr_escape: octal escapes carried the escape
 char twice

---
 src/escape.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/escape.c b/src/escape.c
index e8c3534..7947d51 100644
--- a/src/escape.c
+++ b/src/escape.c
@@ -81,7 +81,7 @@ gstr_escape(gstr *g, const char *escset, int esc_char)
                     gstr_append_ch(g, 'v');
                     break;
                 default:
-                    snprintf(buf, sizeof buf, "%c0%3.3o", esc_char, c);
+                    snprintf(buf, sizeof buf, "0%3.3o", c);
                     gstr_append_str(g, buf);
             }
         } else {
-- 
2.43.0


From aa0e4f1f7ecd60688bc51741b920ea52547ce2dc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:50 +0000
Subject: [PATCH 042/132] fix: Pack/Unpack looked up unknown template
 characters outside the table

---
 src/pack.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index c7ced90..ccb87ce 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -859,6 +859,9 @@ z_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
 static const packer*
 getpacker(int c, const packer* pp)
 {
+    // the tables end at 'z'
+    if (c <= 0 || c > 'z') return 0;
+
     const packer *p = &pp[c];
 
     return p->typ == c ? p : 0;
-- 
2.43.0


From c86c5b71fbdd22fcc14786ec802c685af899988f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:50 +0000
Subject: [PATCH 043/132] fix: Pack encoded the pointer instead of the element
 of a variable length array of one

---
 src/pack.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index ccb87ce..6988a78 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -293,6 +293,25 @@ pack(const char *fmt, pdata *pd, va_list ap)
         if (p->size > 0 && ((pd->ptr + (num * p->size)) > pd->end))
            return -ENOSPC;
 
+        // A lone element is packed by value; a VLA of one is still
+        // passed as a pointer.
+        if (have_vnum && num == 1) {
+            switch (c) {
+                case 'b': case 'B':
+                    arg = (void *)(uintptr_t)*(uint8_t *)arg;
+                    break;
+                case 's': case 'S':
+                    arg = (void *)(uintptr_t)*(uint16_t *)arg;
+                    break;
+                case 'i': case 'I': case 'f':
+                    arg = (void *)(uintptr_t)*(uint32_t *)arg;
+                    break;
+                case 'l': case 'L': case 'D':
+                    arg = (void *)(uintptr_t)*(uint64_t *)arg;
+                    break;
+            }
+        }
+
         c = p->pack(p, pd, num, arg);
         if (c < 0) return c;
 
-- 
2.43.0


From c8e32c28fbbeb47bcb2757afe8dd34c7272f4570 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:50 +0000
Subject: [PATCH 044/132] fix: Pack/Unpack bounds checks overflowed for large
 repeat counts

---
 src/pack.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index 6988a78..d84f7ec 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -222,7 +222,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
              * actual entity.
              */
 
-            if ((pd->ptr + p->size) > pd->end)
+            if (p->size > (pd->end - pd->ptr))
                return -ENOSPC;
 
             c = p->pack(p, pd, 1, (void *)(ptrdiff_t)vnum);
@@ -290,7 +290,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
 
         // pad and strings get extra validations. Most other types
         // are easy to validate.
-        if (p->size > 0 && ((pd->ptr + (num * p->size)) > pd->end))
+        if (p->size > 0 && (num > ((size_t)(pd->end - pd->ptr) / p->size)))
            return -ENOSPC;
 
         // A lone element is packed by value; a VLA of one is still
@@ -360,7 +360,7 @@ unpack(const char *fmt, pdata *pd, va_list ap)
             uint32_t *pv = va_arg(ap, uint32_t*);
 
             if (!pv) return -EINVAL;
-            if ((pd->ptr + p->size) > pd->end) return -ENOSPC;
+            if (p->size > (pd->end - pd->ptr)) return -ENOSPC;
 
 
             c = p->unpack(p, pd, 1, pv, 0);
@@ -408,7 +408,7 @@ unpack(const char *fmt, pdata *pd, va_list ap)
 
         // pad and strings get extra validations. Most other types
         // are easy to validate.
-        if (p->size > 0 && ((pd->ptr + (num * p->size)) > pd->end))
+        if (p->size > 0 && (num > ((size_t)(pd->end - pd->ptr) / p->size)))
            return -ENOSPC;
 
         c = p->unpack(p, pd, num, arg, have_vnum == 1);
@@ -750,7 +750,7 @@ x_pack(const packer *p, pdata *pd, size_t num, void *arg)
     USEARG(p);
     USEARG(arg);
 
-    if ((pd->ptr + num) > pd->end) return -EINVAL;
+    if (num > (size_t)(pd->end - pd->ptr)) return -EINVAL;
 
     memset(pd->ptr, 0, num);
     pd->ptr += num;
@@ -764,7 +764,7 @@ x_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
     USEARG(arg);
     USEARG(alloc);
 
-    if ((pd->ptr + num) > pd->end) return -EINVAL;
+    if (num > (size_t)(pd->end - pd->ptr)) return -EINVAL;
 
     pd->ptr += num;
     return num;
@@ -788,7 +788,7 @@ z_pack(const packer *p, pdata *pd, size_t n, void *arg)
     // we are _never_ sent zero sized requests
     assert(n > 0);
 
-    if ((pd->ptr + n) > pd->end) return -ENOSPC;
+    if (n > (size_t)(pd->end - pd->ptr)) return -ENOSPC;
 
     if (s) {
         size_t m = strlen(s);
-- 
2.43.0


From 4054c535c1fa8acaf3c1d3e71af9148e86d59e1c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:50 +0000
Subject: [PATCH 045/132] fix: Unpack of a string read past the end of an
 exhausted buffer

---
 src/pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index d84f7ec..bd4a4d1 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -838,9 +838,9 @@ z_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
     if (num == 0) {
         // We encode the trailing '\0' for 'Z'
         // And it's an error to _not_ have a trailing '\0'
-        while (*s++) {
+        do {
             if (s == pd->end) return -EINVAL;
-        }
+        } while (*s++);
     } else {
         // Exact length for either "*" or "nnZ" formats
         const size_t max = pd->end - s;
-- 
2.43.0


From 597823ce7f8866dadef4c95027ebc47b0ad7f043 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:50 +0000
Subject: [PATCH 046/132] fix: Unpack of big-endian 32-bit arrays did not check
 its allocation

---
 src/pack.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pack.c b/src/pack.c
index bd4a4d1..0941458 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -640,6 +640,7 @@ be_i_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
         uint32_t **p_x = arg;
 
         x = NEWZA(uint32_t, num);
+        if (!x) return -ENOMEM;
         *p_x = x;
     }
 
-- 
2.43.0


From 030fa0b888ec8648758c8ff2e402034fbebb6790 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:50 +0000
Subject: [PATCH 047/132] fix: the pad template character without a count
 produced no pad byte and ignored '*'

---
 src/pack.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index 0941458..ac62560 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -260,8 +260,10 @@ pack(const char *fmt, pdata *pd, va_list ap)
         void *arg = 0;
 
         switch (c) {
-            case 'x':
-                break;  // do NOT consume an arg!
+            case 'x':   // do NOT consume an arg!
+                if (have_vnum) num = vnum;
+                else if (0 == num) num = 1;
+                break;
 
             case 'z':   // fallthrough
             case 'Z':
@@ -388,6 +390,8 @@ unpack(const char *fmt, pdata *pd, va_list ap)
         // '\0'
         switch (c) {
             case 'x':   // we don't consume an arg!
+                if (have_vnum) num = vnum;
+                else if (0 == num) num = 1;
                 break;
 
             default:
-- 
2.43.0


From 4af68f9e57e39b95ea3bf3291052311910ac6d73 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:50 +0000
Subject: [PATCH 048/132] fix: Pack asserted on a null string although it is
 documented as empty

---
 src/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack.c b/src/pack.c
index ac62560..5e1a314 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -273,7 +273,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
                     if (0 == num) goto next;
                 } else {
                     // default is to copy everything include trailing '\0'
-                    if (num == 0 && arg) num = 1+strlen((const char*)arg);
+                    if (num == 0) num = arg ? 1+strlen((const char*)arg) : 1;
                 }
                 break;
 
-- 
2.43.0


From b7c016c4bf4191298946286951c4018bcfc94f03 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:50 +0000
Subject: [PATCH 049/132] fix: Pack accepted a template that ends in '*'

---
 src/pack.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index 5e1a314..ae7d4a6 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -322,6 +322,9 @@ next:
         vnum = 0;
     }
 
+    // missing type descriptor after '*'
+    if (have_vnum) return -EINVAL;
+
     return 0;
 }
 
-- 
2.43.0


From 8074dc093182c649a2b7d73a4a999d49d7c828d1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:50 +0000
Subject: [PATCH 050/132] fix: Pack fetched lone float and double arguments as
 pointers and lacked the documented 'd'

---
 src/pack.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index ae7d4a6..d92d40b 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -31,7 +31,7 @@
  *       i, I:    signed, unsigned 32-bit integer
  *       l, L:    signed, unsigned 64-bit integer
  *       f:       32-bit IEEE float
- *       D:       64-bit IEEE float
+ *       d, D:    64-bit IEEE float
  *       x:       padding (adds/consumes 0x0 bytes) without
  *                consuming input args.
  *       z, Z:    null-terminated string
@@ -277,6 +277,24 @@ pack(const char *fmt, pdata *pd, va_list ap)
                 }
                 break;
 
+            case 'f':
+            case 'd':
+            case 'D':
+                // a lone float arrives as a double, not as a pointer
+                if (!have_vnum && num <= 1) {
+                    double   d = va_arg(ap, double);
+                    float    f = d;
+                    uint32_t u;
+                    uint64_t v;
+
+                    memcpy(&u, &f, sizeof u);
+                    memcpy(&v, &d, sizeof v);
+                    arg = (void *)(uintptr_t)(c == 'f' ? u : v);
+                    num = 1;
+                    break;
+                }
+                // fallthrough
+
             default:
                 arg = va_arg(ap, void *);
                 if (have_vnum) {
@@ -308,7 +326,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
                 case 'i': case 'I': case 'f':
                     arg = (void *)(uintptr_t)*(uint32_t *)arg;
                     break;
-                case 'l': case 'L': case 'D':
+                case 'l': case 'L': case 'd': case 'D':
                     arg = (void *)(uintptr_t)*(uint64_t *)arg;
                     break;
             }
@@ -932,6 +950,7 @@ static const packer le_packers[] = {
     _x('L', 8, le_l_pack, le_l_unpack),
 
     _x('f', 4, le_i_pack, le_i_unpack),
+    _x('d', 8, le_l_pack, le_l_unpack),
     _x('D', 8, le_l_pack, le_l_unpack),
 
     _x(0, 0, 0, 0)  // always in the end
@@ -956,6 +975,7 @@ static const packer be_packers[] = {
     _x('L', 8, be_l_pack, be_l_unpack),
 
     _x('f', 4, be_i_pack, be_i_unpack),
+    _x('d', 8, be_l_pack, be_l_unpack),
     _x('D', 8, be_l_pack, be_l_unpack),
 
     _x(0, 0, 0, 0)  // always in the end
-- 
2.43.0


From bb15e53546115fcddc690dfe438d2ea2a886ebae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:23 +0000
Subject: [PATCH 051/132] fix: repeat counts of more than one digit in
 Pack/Unpack templates were never parsed

---
 src/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack.c b/src/pack.c
index d92d40b..8271ce6 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -165,7 +165,7 @@ Unpack(uint8_t *buf, size_t bufsize, const char *fmt, ...)
 #define __len_prefix(c, fmt) ({\
                                 const size_t max = ~((size_t)0) / 10;       \
                                       size_t nn  = c - '0';                 \
-                                for (++fmt, c = *fmt; c; ++fmt) {           \
+                                for (++fmt; (c = *fmt); ++fmt) {            \
                                     if (!isdigit(c)) break;                 \
                                     const size_t v = c - '0';               \
                                     if (nn > max ||                         \
-- 
2.43.0


From 8c46975a8ee5aa3615b9077185dd9454074ea256 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:36 +0000
Subject: [PATCH 052/132] fix: ulid_generate used && for & and stored only
 whether each time byte is non-zero

---
 src/ulid.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ulid.c b/src/ulid.c
index f1d91d9..8fb0904 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -46,12 +46,12 @@ ulid_generate(uint8_t *buf, size_t bsiz)
 
     ms &= ~(((uint64_t)0xffff) << 48);   // clear top 16 bits;
 
-    *buf++ = 0xff && (ms >> 40);
-    *buf++ = 0xff && (ms >> 32);
-    *buf++ = 0xff && (ms >> 24);
-    *buf++ = 0xff && (ms >> 16);
-    *buf++ = 0xff && (ms >>  8);
-    *buf++ = 0xff && ms;
+    *buf++ = 0xff & (ms >> 40);
+    *buf++ = 0xff & (ms >> 32);
+    *buf++ = 0xff & (ms >> 24);
+    *buf++ = 0xff & (ms >> 16);
+    *buf++ = 0xff & (ms >>  8);
+    *buf++ = 0xff & ms;
 
     getentropy(buf, 10);
     return 16;
-- 
2.43.0


From a3c3db39ef8cce6e80bfbb5b9dd7a00f6e849984 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:36 +0000
Subject: [PATCH 053/132] fix: ulid_tostring took the lowest bit of the third
 byte from the fourth

---
 src/ulid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ulid.c b/src/ulid.c
index 8fb0904..89ccd34 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -146,7 +146,7 @@ ulid_tostring(char *s, size_t bsiz, const uint8_t *id)
     *p++ = b32[ ((id[ 1] &   7) << 2) | ((id[ 2] & 192) >> 6)];
 
     *p++ = b32[ ( id[ 2] &  62) >> 1];
-    *p++ = b32[ ((id[ 3] &   1) << 4) | ((id[ 3] & 240) >> 4)];
+    *p++ = b32[ ((id[ 2] &   1) << 4) | ((id[ 3] & 240) >> 4)];
     *p++ = b32[ ((id[ 3] &  15) << 1) | ((id[ 4] & 128) >> 7)];
     *p++ = b32[ ( id[ 4] & 124) >> 2];
 
-- 
2.43.0


From 5c218d4e4800fd064733c7feeb78ec569cdcc693 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:36 +0000
Subject: [PATCH 054/132] fix: ulid_fromstring silently wrapped text that
 denotes more than 128 bits

---
 src/ulid.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ulid.c b/src/ulid.c
index 89ccd34..4dacae4 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -104,6 +104,9 @@ ulid_fromstring(uint8_t *buf, size_t bsiz, const char *str)
         if (0xff == z) return -EINVAL;  \
         z; })
 
+    // 26 chars hold 130 bits; the top two must be zero
+    if (v(0) > 7) return -EINVAL;
+
 	*buf++   = ((v(0) << 5) |  v(1));
 	*buf++   = ((v(2) << 3) | (v(3) >> 2));
 	*buf++   = ((v(3) << 6) | (v(4) << 1) | (v(5) >> 4));
-- 
2.43.0


From 9bb89beb2d4ce6088af6f6133f988425b4f1709d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:36 +0000
Subject: [PATCH 055/132] fix: uuid_fromstring wrote past the 16-byte result
 for text with too few dashes

---
 src/uuid.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uuid.c b/src/uuid.c
index 514f48f..7296c5e 100644
--- a/src/uuid.c
+++ b/src/uuid.c
@@ -70,6 +70,7 @@ uuid_fromstring(uint8_t *buf, size_t bsiz, const char *str)
                 byte |= (c - 'A' + 10) << shift;
                 break;
         }
+        if (bsiz == 0) return -EINVAL;  // too many digits
         if ((shift -= 4) < 0) {
             *buf++ = byte;
             byte   = 0;
-- 
2.43.0


From c6ce4e81776ddc935fba6587ca1f19493b6e5365 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 056/132] fix: parse_ipv4 accepted empty fields, a trailing dot
 and a four-digit last field

---
 src/parse-ip.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index ab304b3..3af8b6e 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -99,6 +99,9 @@ parse_ipv4(uint32_t* p_z, const char* sx)
             continue;
         }
 
+        // every field must have at least one digit
+        if (m == 0) return 0;
+
         x[m] = 0;
         z    = 0;
         r    = dtoi(&z, x);
@@ -110,18 +113,19 @@ parse_ipv4(uint32_t* p_z, const char* sx)
         m      = 0;
     }
 
-    if (m > 0) {
-        x[m] = 0;
-        z    = 0;
-        r    = dtoi(&z, x);
+    // exactly three dots, and a non-empty last field
+    if (n != 3)         return 0;
+    if (m == 0)         return 0;
+    if (m > 3)          return 0;
 
-        if (!r)      return 0;
-        if (z > 255) return 0;
+    x[m] = 0;
+    z    = 0;
+    r    = dtoi(&z, x);
 
-        p[n++] = z & 0xff;
-    }
+    if (!r)      return 0;
+    if (z > 255) return 0;
 
-    if (n < 4) return 0;
+    p[n++] = z & 0xff;
 
     *p_z = dec_BE_u32(p);
     return 1;
-- 
2.43.0


From 9f0086cfcaeea83da39d459d9e44ca7a4c5e28a4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 057/132] fix: parse_ipv4_and_mask gave the full mask for
 prefix length 0 (shift by 32)

---
 src/parse-ip.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index 3af8b6e..0604dab 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -173,7 +173,8 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
             if (z > 32)               return 0;
         }
 
-        *p_m = 0xffffffff << (32 - (uint32_t)z);
+        // shifting a 32-bit value by 32 is undefined
+        *p_m = z > 0 ? 0xffffffff << (32 - (uint32_t)z) : 0;
     }
 
     return 1;
-- 
2.43.0


From aab0a81635e04da18e6d1874743616f7558ddf9b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 058/132] fix: parse_ipv4_and_mask accepted prefix lengths that
 wrap around or are cut off

---
 src/parse-ip.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index 0604dab..7b62bd6 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -56,6 +56,9 @@ dtoi(size_t* pn, const char* s)
     for (; (c = *s); ++s) {
         if (!isdigit(c)) return 0;
 
+        // no field of an address has a value this large; don't wrap around.
+        if (n > 100000) return 0;
+
         n = n * 10 + (c - '0');
     }
 
@@ -156,7 +159,7 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
         memcpy(as, str, n);
         as[n] = 0;
 
-        safe_strcpy(ms, sizeof ms, sl+1);
+        if (safe_strcpy(ms, sizeof ms, sl+1) < 0)   return 0;
     }
 
     // Now, as has the address part, ms has the mask part.
-- 
2.43.0


From 700c14f8b5664ea8102051498aaf8da4e9dc2838 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 059/132] fix: parse_ipv4_and_mask took a slash with nothing
 after it as a full mask

---
 src/parse-ip.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index 7b62bd6..e9eb9db 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -160,6 +160,7 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
         as[n] = 0;
 
         if (safe_strcpy(ms, sizeof ms, sl+1) < 0)   return 0;
+        if (ms[0] == 0)     return 0;
     }
 
     // Now, as has the address part, ms has the mask part.
-- 
2.43.0


From 6a02479a1a7bbe11a757eb383036fb7e0c12a713 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 060/132] fix: a request larger than the reseed budget wrapped
 the budget around and the generator was never reseeded

---
 src/arc4random.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/arc4random.c b/src/arc4random.c
index 7a17ae2..a747cc4 100644
--- a/src/arc4random.c
+++ b/src/arc4random.c
@@ -143,7 +143,14 @@ _rs_stir_if_needed(rand_state* st, size_t len)
     if (st->rs_count <= len)
         _rs_stir(st);
 
-    st->rs_count -= len;
+    /*
+     * A single request can be larger than what is left even after
+     * stirring; the next request must then stir again.
+     */
+    if (st->rs_count <= len)
+        st->rs_count  = 0;
+    else
+        st->rs_count -= len;
 }
 
 // consume 'n' random btyes from the entropy buffer. Return total
-- 
2.43.0


From c0c015563d8b9dbfe804030465e10f4b25d52932 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 061/132] fix: a grand-child whose recycled PID matches
 continued the random stream of its grand-parent

---
 src/arc4random.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/arc4random.c b/src/arc4random.c
index a747cc4..4c47e51 100644
--- a/src/arc4random.c
+++ b/src/arc4random.c
@@ -278,12 +278,34 @@ sget()
  *
  */
 static __thread rand_state st = { .rs_count = 0, .rs_pid = -1, .rs_have = 0 };
+
+/*
+ * Process IDs are recycled: a grand-child may have the same PID as the
+ * process that last used the state it inherited. So, in addition to
+ * comparing PIDs, forget the state of the forking thread - it is the
+ * only one that survives in the child.
+ */
+static pthread_once_t Ronce = PTHREAD_ONCE_INIT;
+
+static void
+atfork(void)
+{
+    st.rs_pid = -1;
+}
+
+static void
+screate(void)
+{
+    pthread_atfork(0, 0, atfork);
+}
+
 static inline rand_state*
 sget()
 {
     rand_state* s = &st;
 
     if (s->rs_count == 0 || getpid() != s->rs_pid) {
+        pthread_once(&Ronce, screate);
         _rs_setup(s);
         s->rs_pid = getpid();
     }
-- 
2.43.0


From a8a688791ebd6281b89beda848ffa8fd4c85c32e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:08 +0000
Subject: [PATCH 062/132] fix: rotate_filename_by_size did not rotate files
 that exceed the limit by less than 1MB

---
 src/rotatefile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotatefile.c b/src/rotatefile.c
index d4e0af1..231d84f 100644
--- a/src/rotatefile.c
+++ b/src/rotatefile.c
@@ -85,8 +85,10 @@ rotate_filename_by_size(const char *filename, int nsaved,
     }
     if (!S_ISREG(st.st_mode)) return -EINVAL;
 
+    // Don't lose the bytes beyond the last full MB
     uint64_t actual_size = st.st_size / 1048576;
-    if (actual_size > size_mb)
+    uint64_t extra       = st.st_size % 1048576;
+    if (actual_size > size_mb || (actual_size == size_mb && extra > 0))
         return rotate_filename(filename, nsaved, flags);
 
     return 0;
-- 
2.43.0


From 08281f0a328556838503d967204d01bf2d744c09 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:08 +0000
Subject: [PATCH 063/132] fix: mkdirhier failed for paths ending in '/' or '/.'
 and when someone else made a component

---
 src/mkdirhier.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/mkdirhier.c b/src/mkdirhier.c
index 6085679..ebb2ab8 100644
--- a/src/mkdirhier.c
+++ b/src/mkdirhier.c
@@ -34,6 +34,26 @@ sep(const char* p)
 }
 
 
+// Make one directory; it is not an error if it exists by now - either
+// because 'path' ends in '/' or "/." (and we made it a moment ago) or
+// because someone else just made it.
+static int
+mkone(const char* path, mode_t mode)
+{
+    struct stat st;
+    int r;
+
+    if (mkdir(path, mode) == 0)
+        return 0;
+
+    r = -errno;
+    if (r == -EEXIST && 0 == stat(path, &st) && S_ISDIR(st.st_mode))
+        return 0;
+
+    return r;
+}
+
+
 int
 mkdirhier(const char* path, mode_t mode)
 {
@@ -68,19 +88,16 @@ mkdirhier(const char* path, mode_t mode)
             if (errno != ENOENT)
                 return -errno;
 
-            r = mkdir(z, mode);
+            r = mkone(z, mode);
             if (r < 0)
-                return -errno;
+                return r;
         }
 
         prev = next+1;
     }
 
     // Make the last and final part
-    if (mkdir(path, mode) < 0)
-        return -errno;
-
-    return 0;
+    return mkone(path, mode);
 }
 
 /* EOF */
-- 
2.43.0


From 39793f3e5aaa349fdaab443fb5c919dc63b1cef0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:47 +0000
Subject: [PATCH 064/132] fix: rotate_filename removed and overwrote the wrong
 copies when the names of copies did not fit PATH_MAX

---
 src/rotatefile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rotatefile.c b/src/rotatefile.c
index 231d84f..ec9083a 100644
--- a/src/rotatefile.c
+++ b/src/rotatefile.c
@@ -14,6 +14,7 @@
  * suitability for any purpose.
  */
 #include <stdio.h>
+#include <string.h>
 #include <errno.h>
 #include <limits.h>
 #include <unistd.h>
@@ -38,6 +39,9 @@ rotate_filename(const char *filename, int nsaved, unsigned int flags)
 
     (void)flags;
 
+    // Truncated names would refer to other copies: "x.1" for "x.10".
+    if (strlen(filename) + 12 >= PATH_MAX) return -ENAMETOOLONG;
+
     // Delete older files upto a max of 100 extra files
     delete_old(filename, nsaved, nsaved+100);
 
-- 
2.43.0


From 33ec3dd2583ff34711e0aa3a831e0163c0aa726e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:09 +0000
Subject: [PATCH 065/132] fix: fts: leave an empty directory that was reached
 through a symlink by the saved descriptor, not by ".."

---
 src/fts.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fts.c b/src/fts.c
index 8de5281..4258490 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -885,6 +885,8 @@ mem1:				saved_errno = errno;
 	if (descend && (type == BCHILD || !nitems) &&
 	    (cur->fts_level == FTS_ROOTLEVEL ?
 	    FCHDIR(sp, sp->fts_rfd) :
+	    (cur->fts_flags & FTS_SYMFOLLOW) ?
+	    FCHDIR(sp, cur->fts_symfd) :
 	    fts_safe_changedir(sp, cur->fts_parent, -1, ".."))) {
 		cur->fts_info = FTS_ERR;
 		SET(FTS_STOP);
-- 
2.43.0


From b682539ead8e2ace01e1e1b1cce00d27d7be42f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:09 +0000
Subject: [PATCH 066/132] fix: fts: close the descriptor of a followed symlink
 exactly once

---
 src/fts.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 4258490..00c5f67 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -71,6 +71,7 @@ static FTSENT	*fts_build(FTS *, int);
 static void	 fts_free(FTSENT *);
 static void	 fts_lfree(FTSENT *);
 static void	 fts_load(FTS *, FTSENT *);
+static void	 fts_symclose(FTSENT *);
 static size_t	 fts_maxarglen(char * const *);
 static size_t	 fts_pow2(size_t);
 static int	 fts_palloc(FTS *, size_t);
@@ -263,8 +264,6 @@ fts_close(FTS *sp)
 	 * list which has a valid parent pointer.
 	 */
 	if (sp->fts_cur) {
-		if (sp->fts_cur->fts_flags & FTS_SYMFOLLOW)
-			(void)close(sp->fts_cur->fts_symfd);
 		for (p = sp->fts_cur; p->fts_level >= FTS_ROOTLEVEL;) {
 			freep = p;
 			p = p->fts_link ? p->fts_link : p->fts_parent;
@@ -377,8 +376,7 @@ fts_read(FTS *sp)
 		/* If skipped or crossed mount point, do post-order visit. */
 		if (instr == FTS_SKIP ||
 		    (ISSET(FTS_XDEV) && p->fts_dev != sp->fts_dev)) {
-			if (p->fts_flags & FTS_SYMFOLLOW)
-				(void)close(p->fts_symfd);
+			fts_symclose(p);
 			if (sp->fts_child) {
 				fts_lfree(sp->fts_child);
 				sp->fts_child = NULL;
@@ -502,17 +500,17 @@ name:		t = sp->fts_path + NAPPEND(p->fts_parent);
 	} else if (p->fts_flags & FTS_SYMFOLLOW) {
 		if (FCHDIR(sp, p->fts_symfd)) {
 			saved_errno = errno;
-			(void)close(p->fts_symfd);
+			fts_symclose(p);
 			errno = saved_errno;
 			SET(FTS_STOP);
 			return (NULL);
 		}
-		(void)close(p->fts_symfd);
 	} else if (!(p->fts_flags & FTS_DONTCHDIR) &&
 	    fts_safe_changedir(sp, p->fts_parent, -1, "..")) {
 		SET(FTS_STOP);
 		return (NULL);
 	}
+	fts_symclose(p);
 	p->fts_info = p->fts_errno ? FTS_ERR : FTS_DP;
 	return (sp->fts_cur = p);
 }
@@ -895,8 +893,10 @@ mem1:				saved_errno = errno;
 
 	/* If didn't find anything, return NULL. */
 	if (!nitems) {
-		if (type == BREAD)
+		if (type == BREAD) {
+			fts_symclose(cur);
 			cur->fts_info = FTS_DP;
+		}
 		return (NULL);
 	}
 
@@ -1079,9 +1079,23 @@ fts_alloc(FTS *sp, const char *name, size_t namelen)
 	return (p);
 }
 
+/*
+ * Close the descriptor kept to come back from a followed symlink, if there
+ * is one.
+ */
+static void
+fts_symclose(FTSENT *p)
+{
+	if (p->fts_flags & FTS_SYMFOLLOW) {
+		(void)close(p->fts_symfd);
+		p->fts_flags &= ~FTS_SYMFOLLOW;
+	}
+}
+
 static void
 fts_free(FTSENT *p)
 {
+	fts_symclose(p);
 #if !defined(FTS_ALLOC_ALIGNED)
 	if (p->fts_statp)
 		free(p->fts_statp);
-- 
2.43.0


From 96022a12e492ba440be36f794bc492948768b0b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:09 +0000
Subject: [PATCH 067/132] fix: fts_open: initialise the dummy entry, so that an
 unread or empty walk can be read and closed

---
 src/fts.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 00c5f67..0bd5d7d 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -192,6 +192,8 @@ fts_open(char * const *argv, int options,
 	 */
 	if ((sp->fts_cur = fts_alloc(sp, "", 0)) == NULL)
 		goto mem3;
+	sp->fts_cur->fts_level = FTS_ROOTLEVEL;
+	sp->fts_cur->fts_parent = parent;
 	sp->fts_cur->fts_link = root;
 	sp->fts_cur->fts_info = FTS_INIT;
 
@@ -211,9 +213,6 @@ fts_open(char * const *argv, int options,
 		}
 	}
 
-	if (nitems == 0)
-		fts_free(parent);
-
 	return (sp);
 
 mem3:	fts_lfree(root);
-- 
2.43.0


From 35282a7955a00feb4849e0c237c0c5232b6ab98f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:09 +0000
Subject: [PATCH 068/132] fix: fts_build: an entry made before the path buffer
 grew must not keep the old buffer

---
 src/fts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fts.c b/src/fts.c
index 0bd5d7d..aa81081 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -780,6 +780,7 @@ mem1:				saved_errno = errno;
 				if (ISSET(FTS_NOCHDIR))
 					cp = sp->fts_path + len;
 			}
+			p->fts_path = sp->fts_path;
 			maxlen = sp->fts_pathlen - len;
 		}
 
-- 
2.43.0


From fcc1c75216252e25e10b354b82a70bb61859baac Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:09 +0000
Subject: [PATCH 069/132] fix: fts_children: a full list replaces an earlier
 list of names only

---
 src/fts.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fts.c b/src/fts.c
index aa81081..5bd2cf3 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -582,8 +582,10 @@ fts_children(FTS *sp, int instr)
 	if (instr == FTS_NAMEONLY) {
 		SET(FTS_NAMEONLY);
 		instr = BNAMES;
-	} else
+	} else {
+		CLR(FTS_NAMEONLY);
 		instr = BCHILD;
+	}
 
 	/*
 	 * If using chdir on a relative path and called BEFORE fts_read does
-- 
2.43.0


From edc32c420f3be45a37ae5d9f724c036364a7096d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:09 +0000
Subject: [PATCH 070/132] fix: fts_read: do not leave the current entry freed
 when the way back is gone

---
 src/fts.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fts.c b/src/fts.c
index 5bd2cf3..47a2a95 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -424,6 +424,7 @@ fts_read(FTS *sp)
 	/* Move to the next node on this level. */
 next:	tmp = p;
 	if ((p = p->fts_link) != NULL) {
+		sp->fts_cur = p;
 		fts_free(tmp);
 
 		/*
@@ -471,6 +472,7 @@ name:		t = sp->fts_path + NAPPEND(p->fts_parent);
 
 	/* Move up to the parent node. */
 	p = tmp->fts_parent;
+	sp->fts_cur = p;
 	fts_free(tmp);
 
 	if (p->fts_level == FTS_ROOTPARENTLEVEL) {
-- 
2.43.0


From 9eadc5339409d2ccc34da3ea4ac09c8860e787dd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 071/132] fix: fts_read: a root named "." is still a directory
 when it is looked at again

---
 src/fts.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fts.c b/src/fts.c
index 47a2a95..bdb5577 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -344,6 +344,9 @@ fts_read(FTS *sp)
 	/* Any type of file may be re-visited; re-stat and re-turn. */
 	if (instr == FTS_AGAIN) {
 		p->fts_info = fts_stat(sp, p, 0);
+		/* As in fts_open(). */
+		if (p->fts_level == FTS_ROOTLEVEL && p->fts_info == FTS_DOT)
+			p->fts_info = FTS_D;
 		return (p);
 	}
 
-- 
2.43.0


From 0baf01f4a76234b3749779216c2f9f7db43d7c1a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 072/132] fix: fts_children: leave the path of the current
 entry as it was, without a slash added

---
 src/fts.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index bdb5577..6a28d96 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -874,11 +874,8 @@ mem1:				saved_errno = errno;
 	 * If not changing directories, reset the path back to original
 	 * state.
 	 */
-	if (ISSET(FTS_NOCHDIR)) {
-		if (len == sp->fts_pathlen || nitems == 0)
-			--cp;
-		*cp = '\0';
-	}
+	if (ISSET(FTS_NOCHDIR))
+		sp->fts_path[cur->fts_pathlen] = '\0';
 
 	/*
 	 * If descended after called from fts_children or after called from
-- 
2.43.0


From 04dc29160494ca48cd16930720317e88bcf47c98 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 073/132] fix: fts_read: a child marked FTS_FOLLOW must be
 looked up by its own path, not its predecessor's

---
 src/fts.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fts.c b/src/fts.c
index 6a28d96..1d488cd 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -451,6 +451,10 @@ next:	tmp = p;
 		if (p->fts_instr == FTS_SKIP)
 			goto next;
 		if (p->fts_instr == FTS_FOLLOW) {
+			/* Without chdir the access path is this path. */
+			t = sp->fts_path + NAPPEND(p->fts_parent);
+			*t++ = '/';
+			memmove(t, p->fts_name, (size_t)(p->fts_namelen + 1));
 			p->fts_info = fts_stat(sp, p, 1);
 			if (p->fts_info == FTS_D && !ISSET(FTS_NOCHDIR)) {
 				if ((p->fts_symfd =
-- 
2.43.0


From b72f27f5d4ec8cddbca9d2c1a144cdaae66d5053 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 074/132] fix: hash_table_insert: do not report an insert that
 is done as failed when the table cannot grow

---
 src/hashtable/hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index cced22b..e25fde3 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -463,7 +463,7 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     if (b->count == 1) {
         ++tab->stats.fill;
         if ( ((tab->stats.fill * 100) / (tab->size + 1)) > tab->fillmax )
-            retval = resize(tab);
+            resize(tab);    // the insert is done; not growing is harmless
     }
 
 _done:
-- 
2.43.0


From 58561ac58746a7b94f02f3cc4ce2b6968c63dead Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 075/132] fix: hash_table_iter_new: report -ENOMEM instead of
 writing through a null node array

---
 src/hashtable/hashtab_iter.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index bf703f8..deb4c48 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -234,8 +234,11 @@ _mk_iter(hash_table_iter_t* p_ret,
     it->table = tab;
     it->op    = Iter_tab[type];
 
-    if (it->op->init)
-        (*it->op->init)(it, param);
+    if (it->op->init && (*it->op->init)(it, param) == -ENOMEM) {
+        tFREE(tab, it);
+        it     = 0;
+        retval = -ENOMEM;
+    }
 
 _done:
     lockmgr_unlock(&tab->lock);
@@ -340,6 +343,7 @@ sorted_iter_init(hash_table_iter * it, const void * param)
 
     cmp         = tab->cmp;
     sorted->nodes = tNEWA(indir_node, tab, sorted->max);
+    if (!sorted->nodes) return -ENOMEM;
 
     nodes = sorted->nodes;
     n     = tab->size;
-- 
2.43.0


From c649e4841cd67aa3dc591459edf2846fb8cc7a8f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:13 +0000
Subject: [PATCH 076/132] fix: SYNCQ_ENQ/SYNCQ_DEQ: a wait interrupted by a
 signal handler must be resumed, not taken as success

---
 inc/fast/syncq.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/inc/fast/syncq.h b/inc/fast/syncq.h
index b5c1f52..0578b89 100644
--- a/inc/fast/syncq.h
+++ b/inc/fast/syncq.h
@@ -25,6 +25,7 @@ extern "C" {
 #endif /* __cplusplus */
 
 #include <stdint.h>
+#include <errno.h>
 #include <assert.h>
 #include <semaphore.h>
 #include <pthread.h>
@@ -82,6 +83,16 @@ __syncobj_init(__syncobj* s, size_t n)
 }
 
 
+// Internal function to wait for a semaphore; a signal handler that
+// interrupts the wait doesn't end it.
+static inline void
+__syncobj_wait(sem_t* s)
+{
+    while (sem_wait(s) < 0 && errno == EINTR)
+        ;
+}
+
+
 /**
  * Initialize a SyncQ 'q0'.
  */
@@ -109,7 +120,7 @@ __syncobj_init(__syncobj* s, size_t n)
 #define SYNCQ_ENQ(q0, obj)      do { \
                                     typeof(q0)  q_ = q0; \
                                     __syncobj*  s_ = &q_->s; \
-                                    sem_wait(&s_->notfull); \
+                                    __syncobj_wait(&s_->notfull); \
                                     pthread_mutex_lock(&s_->lock); \
                                     uint32_t w_ = s_->wr++; \
                                     if (s_->wr == s_->sz) s_->wr = 0;\
@@ -126,7 +137,7 @@ __syncobj_init(__syncobj* s, size_t n)
 #define SYNCQ_DEQ(q0)      ({\
                                     typeof(q0)  q_ = q0; \
                                     __syncobj*  s_ = &q_->s; \
-                                    sem_wait(&s_->notempty); \
+                                    __syncobj_wait(&s_->notempty); \
                                     pthread_mutex_lock(&s_->lock); \
                                     uint32_t r_ = s_->rd++;\
                                     if (s_->rd == s_->sz) s_->rd = 0;\
-- 
2.43.0


From 8bf812a3a006916cdc522e04d812dae47d948a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:14 +0000
Subject: [PATCH 077/132] fix: splitmix64: mix before multiplying, as published

---
 inc/utils/splitmix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/utils/splitmix.h b/inc/utils/splitmix.h
index abca409..dad3497 100644
--- a/inc/utils/splitmix.h
+++ b/inc/utils/splitmix.h
@@ -36,8 +36,8 @@ splitmix64(uint64_t *x)
     *x += 0x9E3779B97F4A7C15;
 
     uint64_t z = *x;
-    z = (z ^ (z >> 30) * 0xBF58476D1CE4E5B9);
-    z = (z ^ (z >> 27) * 0x94D049BB133111EB);
+    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9;
+    z = (z ^ (z >> 27)) * 0x94D049BB133111EB;
 
     return z ^ (z >> 31);
 }
-- 
2.43.0


From b9dd8698fe8a0b9dd07a72287990d2314b0668e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:15 +0000
Subject: [PATCH 078/132] fix: xs64star_u64: the third shift of xorshift64* is
 to the right

---
 src/prng/xorshift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prng/xorshift.c b/src/prng/xorshift.c
index 952891a..96fc13e 100644
--- a/src/prng/xorshift.c
+++ b/src/prng/xorshift.c
@@ -37,7 +37,7 @@ xs64star_u64(xs64star* s)
 {
     s->v ^= s->v >> 12;
     s->v ^= s->v << 25;
-    s->v ^= s->v << 27;
+    s->v ^= s->v >> 27;
     return s->v * 2685821657736338717uLL;
 }
 
-- 
2.43.0


From cd970f60f174ad7755a361ca9451dc1d6fee7e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:35 +0000
Subject: [PATCH 079/132] fix: murmur3: the last, partial block must not
 contain bits of the block before it

---
 src/hashfunc/murmur3_hash.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hashfunc/murmur3_hash.c b/src/hashfunc/murmur3_hash.c
index 3d6e225..e6e86c4 100644
--- a/src/hashfunc/murmur3_hash.c
+++ b/src/hashfunc/murmur3_hash.c
@@ -158,6 +158,7 @@ murmur3_hash_32(const void* key, size_t len, uint32_t seed)
 
   /* tail */
 
+  k1 = 0;
 
   switch(len & 3)
   {
@@ -231,6 +232,7 @@ murmur3_hash_128(const void* key, const size_t len, uint32_t seed)
 
     /* tail */
 
+    k1 = k2 = k3 = k4 = 0;
 
     switch(len & 15)
     {
@@ -323,6 +325,8 @@ murmur3_hash64_128(const void* key, size_t len, uint32_t seed)
 
     /* tail */
 
+    k1 = k2 = 0;
+
     switch(len & 15)
     {
         case 15: k2 ^= ((uint64_t)(tail[14])) << 48; // fallthrough
-- 
2.43.0


From 0d5def8a8081dfb397244247c5a5d4e19105b2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:36 +0000
Subject: [PATCH 080/132] fix: murmur3_hash_128: return all 128 bits of the
 hash, not the first 64 twice

---
 src/hashfunc/murmur3_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashfunc/murmur3_hash.c b/src/hashfunc/murmur3_hash.c
index e6e86c4..5a2d581 100644
--- a/src/hashfunc/murmur3_hash.c
+++ b/src/hashfunc/murmur3_hash.c
@@ -279,7 +279,7 @@ murmur3_hash_128(const void* key, const size_t len, uint32_t seed)
         uint_128_t r;
 
         r.v[0] = h1; r.v[0] <<= 32; r.v[0] |= h2;
-        r.v[1] = h1; r.v[1] <<= 32; r.v[1] |= h2;
+        r.v[1] = h3; r.v[1] <<= 32; r.v[1] |= h4;
         return r;
     }
 }
-- 
2.43.0


From 4caf19110f0eb6e3c177bf73e58dfff2f6e17717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:29 +0000
Subject: [PATCH 081/132] fix: yorrike_hash32: hash every byte of the input;
 the words of FNV1A-Yorikke have 16 bits

---
 src/hashfunc/yorrike.c | 48 ++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/src/hashfunc/yorrike.c b/src/hashfunc/yorrike.c
index ef0bb46..179076b 100644
--- a/src/hashfunc/yorrike.c
+++ b/src/hashfunc/yorrike.c
@@ -11,28 +11,16 @@
 #define _YP32  709607
 
 
-#define WORDSZ      4
-#define D_WORDSZ    (WORDSZ << 1)       // 8
-#define DD_WORDSZ   (WORDSZ << 2)       // 16
-#define DDD_WORDSZ  (WORDSZ << 3)       // 32
+#define WORDSZ      2
+#define D_WORDSZ    (WORDSZ << 1)       // 4
+#define DD_WORDSZ   (WORDSZ << 2)       // 8
+#define DDD_WORDSZ  (WORDSZ << 3)       // 16
 
 /*
- * Needed for unaligned u64 decode.
+ * Needed for unaligned decode.
  */
 #define _u64(x) ((uint64_t)x)
-#define _u32(x) ((uint64_t)x)
-static inline uint64_t
-dec_LE_u64(const uint8_t * p) {
-    return         p[0]
-           | (_u64(p[1]) << 8)
-           | (_u64(p[2]) << 16)
-           | (_u64(p[3]) << 24)
-           | (_u64(p[4]) << 32)
-           | (_u64(p[5]) << 40)
-           | (_u64(p[6]) << 48)
-           | (_u64(p[7]) << 56);
-}
-
+#define _u32(x) ((uint32_t)x)
 static inline uint32_t
 dec_LE_u32(const uint8_t * p) {
     return         p[0]
@@ -41,6 +29,12 @@ dec_LE_u32(const uint8_t * p) {
            | (_u32(p[3]) << 24);
 }
 
+static inline uint32_t
+dec_LE_u16(const uint8_t * p) {
+    return         p[0]
+           | (_u32(p[1]) << 8);
+}
+
 uint32_t
 yorrike_hash32(const void* x, size_t n, uint32_t seed)
 {
@@ -50,12 +44,12 @@ yorrike_hash32(const void* x, size_t n, uint32_t seed)
     uint64_t k1, k2;
 
     while (n >= DDD_WORDSZ) {
-        k1   = dec_LE_u64(buf);
-        k2   = dec_LE_u64(buf+4);
+        k1   = dec_LE_u32(buf);
+        k2   = dec_LE_u32(buf+4);
         h32  = _u32((_u64(h32) ^ ((k1<<5 | k1>>27) ^ k2)) * _YP32);
 
-        k1   = dec_LE_u64(buf+8);
-        k2   = dec_LE_u64(buf+12);
+        k1   = dec_LE_u32(buf+8);
+        k2   = dec_LE_u32(buf+12);
         h32b = _u32((_u64(h32b) ^ ((k1<<5 | k1>>27) ^ k2)) * _YP32);
 
         buf += DDD_WORDSZ;
@@ -64,8 +58,8 @@ yorrike_hash32(const void* x, size_t n, uint32_t seed)
 
 
     if ((n & DD_WORDSZ) > 0) {
-        k1   = dec_LE_u64(buf);
-        k2   = dec_LE_u64(buf+4);
+        k1   = dec_LE_u32(buf);
+        k2   = dec_LE_u32(buf+4);
         h32  = _u32((_u64(h32)  ^ k1) * _YP32);
         h32b = _u32((_u64(h32b) ^ k2) * _YP32);
 
@@ -75,8 +69,8 @@ yorrike_hash32(const void* x, size_t n, uint32_t seed)
 
     if ((n & D_WORDSZ) > 0) {
         uint32_t w1, w2;
-        w1   = dec_LE_u32(buf);
-        w2   = dec_LE_u32(buf+2);
+        w1   = dec_LE_u16(buf);
+        w2   = dec_LE_u16(buf+2);
         h32  = (h32  ^ w1) * _YP32;
         h32b = (h32b ^ w2) * _YP32;
 
@@ -86,7 +80,7 @@ yorrike_hash32(const void* x, size_t n, uint32_t seed)
 
     if ((n & WORDSZ) > 0) {
         uint32_t w1;
-        w1   = dec_LE_u32(buf);
+        w1   = dec_LE_u16(buf);
         h32  = (h32  ^ w1) * _YP32;
 
         buf += WORDSZ;
-- 
2.43.0


From 0642d857e076084f56cb127a34db7061943a2086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:04 +0000
Subject: [PATCH 082/132] fix: siphash24_update: pieces of a message must hash
 like the whole message

---
 inc/utils/siphash.h      |  2 +
 src/hashfunc/siphash24.c | 85 ++++++++++++++++++++++++++--------------
 2 files changed, 58 insertions(+), 29 deletions(-)

diff --git a/inc/utils/siphash.h b/inc/utils/siphash.h
index 7905c10..e041e00 100644
--- a/inc/utils/siphash.h
+++ b/inc/utils/siphash.h
@@ -29,6 +29,8 @@ extern "C" {
 struct siphash24_state
 {
     uint64_t v0, v1, v2, v3;
+    uint64_t len;       // total number of bytes hashed so far
+    uint8_t  buf[8];    // bytes that don't yet make a full word
 };
 typedef struct siphash24_state siphash24_state;
 
diff --git a/src/hashfunc/siphash24.c b/src/hashfunc/siphash24.c
index 7ebdeeb..ad7f22e 100644
--- a/src/hashfunc/siphash24.c
+++ b/src/hashfunc/siphash24.c
@@ -48,6 +48,7 @@
 */
 
 #include <stdint.h>
+#include <string.h>
 #include "utils/siphash.h"
 
 #if defined(__BYTE_ORDER__) && defined(__ORDER_LITTLE_ENDIAN__) && \
@@ -166,61 +167,87 @@ siphash24_init(siphash24_state* st, const uint64_t* key)
     st->v1 = k1 ^ 0x646f72616e646f6dULL;
     st->v2 = k0 ^ 0x6c7967656e657261ULL;
     st->v3 = k1 ^ 0x7465646279746573ULL;
+    st->len = 0;
 }
 
-void
-siphash24_update(siphash24_state* st, const void* src, size_t src_sz)
-{
-    uint64_t b = ((uint64_t)src_sz) << 56;
-    const uint64_t *in = (uint64_t*)src;
 
+static inline void
+siphash24_block(siphash24_state* st, const uint8_t* p)
+{
     uint64_t v0 = st->v0;
     uint64_t v1 = st->v1;
     uint64_t v2 = st->v2;
     uint64_t v3 = st->v3;
+    uint64_t mi;
 
+    memcpy(&mi, p, sizeof mi);
+    mi  = _le64toh(mi);
+    v3 ^= mi;
+    DOUBLE_ROUND(v0,v1,v2,v3);
+    v0 ^= mi;
 
-    while (src_sz >= 8)
+    st->v0 = v0;
+    st->v1 = v1;
+    st->v2 = v2;
+    st->v3 = v3;
+}
+
+
+void
+siphash24_update(siphash24_state* st, const void* src, size_t src_sz)
+{
+    const uint8_t *in = (const uint8_t *)src;
+    size_t have = st->len & 7;
+
+    st->len += src_sz;
+
+    // complete the word left over from the previous update
+    if (have > 0)
     {
-        uint64_t mi = _le64toh(*in);
-        in += 1; src_sz -= 8;
-        v3 ^= mi;
-        DOUBLE_ROUND(v0,v1,v2,v3);
-        v0 ^= mi;
+        while (have < 8 && src_sz > 0)
+        {
+            st->buf[have++] = *in++;
+            src_sz--;
+        }
+        if (have < 8)
+            return;
+
+        siphash24_block(st, st->buf);
+        have = 0;
     }
 
-    uint64_t t = 0; uint8_t *pt = (uint8_t *)&t; uint8_t *m = (uint8_t *)in;
-    switch (src_sz)
+    while (src_sz >= 8)
     {
-        case 7: pt[6] = m[6]; // fallthrough
-        case 6: pt[5] = m[5]; // fallthrough
-        case 5: pt[4] = m[4]; // fallthrough
-        case 4: *((uint32_t*)&pt[0]) = *((uint32_t*)&m[0]); break;
-        case 3: pt[2] = m[2]; // fallthrough
-        case 2: pt[1] = m[1]; // fallthrough
-        case 1: pt[0] = m[0]; // fallthrough
+        siphash24_block(st, in);
+        in += 8; src_sz -= 8;
     }
-    b |= _le64toh(t);
 
-    v3 ^= b;
-    DOUBLE_ROUND(v0,v1,v2,v3);
-    v0 ^= b;
-
-    st->v0 = v0;
-    st->v1 = v1;
-    st->v2 = v2;
-    st->v3 = v3;
+    while (src_sz > 0)
+    {
+        st->buf[have++] = *in++;
+        src_sz--;
+    }
 }
 
 
 uint64_t
 siphash24_finish(siphash24_state* st)
 {
+    uint64_t b = st->len << 56;
+    size_t i, n = st->len & 7;
+
     uint64_t v0 = st->v0;
     uint64_t v1 = st->v1;
     uint64_t v2 = st->v2;
     uint64_t v3 = st->v3;
 
+    for (i = 0; i < n; i++)
+        b |= ((uint64_t)st->buf[i]) << (8 * i);
+
+    v3 ^= b;
+    DOUBLE_ROUND(v0,v1,v2,v3);
+    v0 ^= b;
+
     v2 ^= 0xff;
     DOUBLE_ROUND(v0,v1,v2,v3);
     DOUBLE_ROUND(v0,v1,v2,v3);
-- 
2.43.0


From 3858f6441fabfab44f53c9a3d8869a1c0ab854eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:24 +0000
Subject: [PATCH 083/132] fix: humanize_size: the digits after the point are a
 decimal fraction, not the first digits of the remainder

---
 src/humanize.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/humanize.c b/src/humanize.c
index d2eebd0..a14bbc0 100644
--- a/src/humanize.c
+++ b/src/humanize.c
@@ -70,9 +70,11 @@ humanize_size(char * buf, size_t bufsize, uint64_t nbytes)
             uint64_t m = (nbytes % p->sz);
 
             if (m > 0) {
-                char frac[64];
-                snprintf(frac, sizeof frac, "%" PRIu64, m);
-                snprintf(buf, bufsize, "%" PRIu64 ".%2.2s %s", n, frac, p->suffix);
+                // two decimal digits; 10 * remainder fits even for EB
+                unsigned int d1 = (10 * m) / p->sz;
+                unsigned int d2 = (10 * ((10 * m) % p->sz)) / p->sz;
+
+                snprintf(buf, bufsize, "%" PRIu64 ".%u%u %s", n, d1, d2, p->suffix);
             } else {
                 snprintf(buf, bufsize, "%" PRIu64 " %s", n, p->suffix);
             }
-- 
2.43.0


From 3db3f32fa139b2924659409396bf037af79e817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:24 +0000
Subject: [PATCH 084/132] fix: fhexdump: report a write error as a negative
 errno instead of ignoring it

---
 src/hexdump.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hexdump.c b/src/hexdump.c
index c39354f..c1c3cf8 100644
--- a/src/hexdump.c
+++ b/src/hexdump.c
@@ -62,9 +62,10 @@ static int
 __fp_writer(void *ctx, const char *buf, size_t n)
 {
     FILE *fp = ctx;
+    errno    = 0;
     size_t m = fwrite(buf, n, 1, fp);
     if (m != 1) {
-        return feof(fp) ? -EOF : ferror(fp);
+        return errno > 0 ? -errno : -EIO;
     }
     return 0;
 }
-- 
2.43.0


From db879d5060d8f41f6d6cc29299ea0aa2f695cbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 085/132] fix: progressbar: do not divide by zero or abort on
 terminals of unknown or small width, nor wrap with large totals

---
 src/progbar.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/progbar.c b/src/progbar.c
index 9545c45..8383795 100644
--- a/src/progbar.c
+++ b/src/progbar.c
@@ -39,21 +39,31 @@
 static void
 update_total_progress(char *buf, size_t bsize, progress *p)
 {
-    char fill[p->width*2];
-    char blank[p->width*2];
+    char fill[p->width+1];
+    char blank[p->width+1];
     char cur[32];
     char tot[32];
     char pref[64];
 
-    uint64_t pct = (100 * p->cur) / p->total;
+    uint64_t pct = 100;
 
-    if (pct > 100) pct = 100;
+    if (p->cur < p->total) {
+        uint64_t n = p->cur;
+        uint64_t d = p->total;
 
-    uint64_t done = pct / p->step;
+        // 100 * n must fit into 64 bits
+        while (n > UINT64_MAX / 100) {
+            n >>= 1;
+            d >>= 1;
+        }
+        pct = (100 * n) / d;
+    }
+
+    uint64_t done = (pct * p->width) / 100;
     uint64_t rem  = p->width - done;
 
-    assert(done < (sizeof fill)-1);
-    assert(rem  < (sizeof blank)-1);
+    assert(done < sizeof fill);
+    assert(rem  < sizeof blank);
 
     memset(fill, 'o', done); fill[done] = 0;
     memset(blank, '.', rem); blank[rem] = 0;
@@ -106,13 +116,13 @@ progressbar_init(progress *p, int fd, uint64_t total, uint32_t flags)
     struct winsize w;
 
     // try to get the actual width, else punt.
-    if (ioctl(fd, TIOCGWINSZ, &w) != 0) w.ws_col = 80;
+    if (ioctl(fd, TIOCGWINSZ, &w) != 0 || w.ws_col == 0) w.ws_col = 80;
 
     p->total = total;
     p->fd    = fd;
     p->cur   = 0;
     p->flags = flags;
-    p->width = w.ws_col > 50 ? 50 : w.ws_col / 2;
+    p->width = w.ws_col > 50 ? 50 : (w.ws_col + 1) / 2;
     p->step  = 100 / p->width;
 
     return 0;
-- 
2.43.0


From 8580b6730041c32a4d54d2b4118cc0846efcbd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 086/132] fix: configfile: the node made for every key-value
 pair was never freed

---
 src/configfile.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/configfile.c b/src/configfile.c
index 5d60404..d719621 100644
--- a/src/configfile.c
+++ b/src/configfile.c
@@ -90,21 +90,24 @@ readline(gstr* g, FILE* fp)
 
 
 
-// Create a new node and add it to 'parent'.
+// Add a new section or a new key-value pair to 'parent'.
+// Return the new section, NULL for a key-value pair.
 static node*
 newnode(node* parent, gstr* g, int col)
 {
-    node* n = NEWZ(node);
+    node* n = 0;
 
-    assert(n);
     assert(parent);
 
     gstr_trim(g);
 
-    n->col    = col;
-    n->master = ':' == gstr_chop_if(g, ":");
+    if (':' == gstr_chop_if(g, ":")) {
+        n = NEWZ(node);
+        assert(n);
+
+        n->col    = col;
+        n->master = 1;
 
-    if (n->master) {
         gstr_init2(&n->name, g);
         VECT_INIT(&n->values, 4);
         DL_INIT(&n->subtree);
@@ -193,7 +196,7 @@ parse(configfile* cf, FILE* fp)
         }
 
         if (c > prevcol) {
-            if (!prev->master)
+            if (!prev)
                 error(1, 0, "%s:%d: Indented node '%12.12s..' has no parent?", cf->name, lineno, gstr_str(&l));
 
             VECT_PUSH_BACK(&st, top);
-- 
2.43.0


From acd86c13eda35e3e9b66693e1bd797721890533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 087/132] fix: configfile: a line of white space only is not an
 entry with an empty name

---
 src/configfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configfile.c b/src/configfile.c
index d719621..eed02e4 100644
--- a/src/configfile.c
+++ b/src/configfile.c
@@ -190,7 +190,7 @@ parse(configfile* cf, FILE* fp)
         int i = 0;
         int c = cols(&l, &i);
 
-        if (gstr_ch(&l, i) == '#') {
+        if (i == (int)gstr_len(&l) || gstr_ch(&l, i) == '#') {
             gstr_reset(&l);
             continue;
         }
-- 
2.43.0


From 0cf16820fab17ef53e57b83e7cc5113522641f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 088/132] fix: config_get_entry: paths like "/a/b/c" never
 matched

---
 src/configfile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configfile.c b/src/configfile.c
index eed02e4..ece2ea8 100644
--- a/src/configfile.c
+++ b/src/configfile.c
@@ -437,6 +437,8 @@ config_section_get_entry(node* start, const char* path)
 const char*
 config_get_entry(configfile* cf, const char* path)
 {
+    if ('/' == *path) path++;
+
     return find_leaf(cf->root, path);
 }
 
-- 
2.43.0


From 6d7c44e59591a96d6c80a53872849450749ca36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 089/132] fix: config_parse_int, config_parse_uint: report text
 that is no number and every value too large

---
 src/configfile.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/configfile.c b/src/configfile.c
index ece2ea8..3641411 100644
--- a/src/configfile.c
+++ b/src/configfile.c
@@ -17,6 +17,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <ctype.h>
 #include <assert.h>
 #include <errno.h>
 
@@ -455,6 +456,14 @@ config_parse_int(const char* s, long* val)
     if (errno != 0)
         return -errno;
 
+    if (e == s)
+        return -EINVAL;
+
+    for (; *e; e++) {
+        if (!isspace(0xff & *e))
+            return -EINVAL;
+    }
+
     *val = z;
     return 0;
 }
@@ -490,6 +499,9 @@ config_parse_uint(const char* s, unsigned long* val)
     if (errno != 0)
         return -errno;
 
+    if (endptr == s)
+        return -EINVAL;
+
     if ( endptr && *endptr )
     {
         switch (*endptr)
@@ -530,7 +542,7 @@ config_parse_uint(const char* s, unsigned long* val)
     }
 
     uint64_t z = v * mult;
-    if (z < v)
+    if (v > (~_ULLCONST(0)) / mult)
         return -EOVERFLOW;
 
     *val = z;
-- 
2.43.0


From 9b1e594cf008f0fb57491b1707da4328e7386495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:52 +0000
Subject: [PATCH 090/132] fix: configfile used the undefined gstr_init2 and
 never linked

---
 src/configfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configfile.c b/src/configfile.c
index 3641411..285cc75 100644
--- a/src/configfile.c
+++ b/src/configfile.c
@@ -109,7 +109,7 @@ newnode(node* parent, gstr* g, int col)
         n->col    = col;
         n->master = 1;
 
-        gstr_init2(&n->name, g);
+        gstr_init_from(&n->name, gstr_str(g));
         VECT_INIT(&n->values, 4);
         DL_INIT(&n->subtree);
 
-- 
2.43.0


From 4aa76d5ad199ae20b7087f2f135042b700a47061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 091/132] fix: zbuf: a negative answer of the output processor
 moved memory outside the buffer

---
 src/zbuf_c.c   | 2 +-
 src/zbuf_unc.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zbuf_c.c b/src/zbuf_c.c
index 003bbcf..3e11522 100644
--- a/src/zbuf_c.c
+++ b/src/zbuf_c.c
@@ -85,7 +85,7 @@ z_buf_compress (z_buf_context * zc, void * data, int len)
              * If the callback-func is unable to consume _any_
              * processed data, we can't proceed any further!
              */
-            if ( used == 0 )
+            if ( used <= 0 )
                 return Z_MEM_ERROR;
 
             zs->next_out  = zc->outbuf;
diff --git a/src/zbuf_unc.c b/src/zbuf_unc.c
index 3364459..a2e4447 100644
--- a/src/zbuf_unc.c
+++ b/src/zbuf_unc.c
@@ -129,7 +129,7 @@ do_uncompress (z_stream * zs, z_buf_context * zc)
              * If the callback-func is unable to consume _any_
              * processed data, we can't proceed any further!
              */
-            if ( used == 0 )
+            if ( used <= 0 )
                 return Z_MEM_ERROR;
 
             zs->next_out  = zc->outbuf;
-- 
2.43.0


From b8ece37777c4a1a8c73923fbdfa1c52347184722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 092/132] fix: z_buf_uncompress: output pending in zlib was
 lost when the input ended with the buffer full, and all output after trailing
 bytes

---
 src/zbuf_unc.c | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/zbuf_unc.c b/src/zbuf_unc.c
index a2e4447..b26b11e 100644
--- a/src/zbuf_unc.c
+++ b/src/zbuf_unc.c
@@ -55,8 +55,6 @@ z_buf_uncompress (z_buf_context * zc, void * data, int len)
 {
     z_stream * zs = &zc->z;
 
-    assert (zs->avail_in == 0);
-
     zs->next_in  = (Bytef *)data;
     zs->avail_in = len;
 
@@ -77,12 +75,10 @@ z_buf_uncompress_end (z_buf_context * zc)
     /*
      * Uncompress any pending data.
      */
-    if ( zs->avail_in > 0 )
-    {
-        err = do_uncompress (zs, zc);
-        if ( err != Z_STREAM_END || err != Z_OK )
-            return err;
-    }
+    err = do_uncompress (zs, zc);
+    if ( err != Z_STREAM_END && err != Z_OK )
+        return err;
+    err = Z_OK;
 
     if ( zs->avail_out < zc->outbuf_size )
     {
@@ -115,9 +111,9 @@ z_buf_uncompress_end (z_buf_context * zc)
 static int
 do_uncompress (z_stream * zs, z_buf_context * zc)
 {
-    int err = Z_OK;
+    int err;
 
-    while ( zs->avail_in > 0 )
+    do
     {
         if ( zs->avail_out == 0 )
         {
@@ -150,14 +146,15 @@ do_uncompress (z_stream * zs, z_buf_context * zc)
         }
 
         err = inflate (zs, Z_NO_FLUSH);
-        if ( err == Z_STREAM_END )
-            break;
-        
-        if ( err != Z_OK )
-            return err;
-    }
 
-    return err;
+        /*
+         * A full output buffer means there may be more output, even
+         * if all the input is used up.
+         */
+    } while ( err == Z_OK && (zs->avail_in > 0 || zs->avail_out == 0) );
+
+    /* Z_BUF_ERROR: nothing left to do until there is more input. */
+    return err == Z_BUF_ERROR ? Z_OK : err;
 }
 
 /* EOF */
-- 
2.43.0


From 38e51afa61ecc86b0f40857961b3df5664a50b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 093/132] fix: z_buf_compress_end, z_buf_uncompress_end: memory
 of the session was leaked on errors

---
 src/zbuf_c.c   | 13 +++++++++----
 src/zbuf_unc.c |  8 ++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/zbuf_c.c b/src/zbuf_c.c
index 3e11522..ad86e3e 100644
--- a/src/zbuf_c.c
+++ b/src/zbuf_c.c
@@ -135,7 +135,7 @@ z_buf_compress_end (z_buf_context * zc)
     {
         err = z_buf_compress (zc, 0, 0);
         if ( err != Z_OK )
-            return err;
+            goto out;
     }
 
 
@@ -165,7 +165,10 @@ z_buf_compress_end (z_buf_context * zc)
                 int used  = (*zc->process_output) (zc->opaq, buf, rem);
 
                 if ( used <= 0 )
-                    return Z_MEM_ERROR;
+                {
+                    err = Z_MEM_ERROR;
+                    goto out;
+                }
 
                 buf  += used;
                 rem  -= used;
@@ -193,14 +196,16 @@ z_buf_compress_end (z_buf_context * zc)
         done = zs->avail_out != 0 || err == Z_STREAM_END;
 
         if ( err != Z_OK && err != Z_STREAM_END )
-            return err;
+            goto out;
 
     } while (1);
 
+    err = Z_OK;
 
+out:
     deflateEnd (zs);
 
-    return 0;
+    return err;
 }
 
 /* EOF */
diff --git a/src/zbuf_unc.c b/src/zbuf_unc.c
index b26b11e..599eb95 100644
--- a/src/zbuf_unc.c
+++ b/src/zbuf_unc.c
@@ -77,7 +77,7 @@ z_buf_uncompress_end (z_buf_context * zc)
      */
     err = do_uncompress (zs, zc);
     if ( err != Z_STREAM_END && err != Z_OK )
-        return err;
+        goto out;
     err = Z_OK;
 
     if ( zs->avail_out < zc->outbuf_size )
@@ -93,13 +93,17 @@ z_buf_uncompress_end (z_buf_context * zc)
             int used  = (*zc->process_output) (zc->opaq, buf, rem);
 
             if ( used <= 0 )
-                return Z_MEM_ERROR;
+            {
+                err = Z_MEM_ERROR;
+                goto out;
+            }
 
             buf  += used;
             rem  -= used;
         }
     }
 
+out:
     inflateEnd (zs);
     return err;
 }
-- 
2.43.0


From 5a042b8082dbfefdbadbb5de009ce2af6a830e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:07 +0000
Subject: [PATCH 094/132] fix: getopt_long: the exact name of an option was
 ambiguous if it began two options listed before it

---
 src/getopt_long.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 36386d2..247cedc 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -355,10 +355,11 @@ getopt_long(int nargc, char * const *nargv, const char *options,
     if ((retval = getopt_internal(nargc, nargv, options)) == -2) {
         char *current_argv, *has_equal;
         size_t current_argv_len;
-        int i, match;
+        int i, match, ambiguous;
 
         current_argv = place;
         match = -1;
+        ambiguous = 0;
 
         optind++;
         place = EMSG;
@@ -391,20 +392,23 @@ getopt_long(int nargc, char * const *nargv, const char *options,
 
             if (strlen(long_options[i].name) ==
                 (unsigned)current_argv_len) {
-                /* exact match */
+                /* exact match; never ambiguous */
                 match = i;
+                ambiguous = 0;
                 break;
             }
             if (match == -1)        /* partial match */
                 match = i;
-            else {
-                /* ambiguous abbreviation */
-                if (PRINT_ERROR)
-                    warnx(ambig, (int)current_argv_len,
-                         current_argv);
-                optopt = 0;
-                return BADCH;
-            }
+            else
+                ambiguous = 1;
+        }
+        if (ambiguous) {
+            /* ambiguous abbreviation */
+            if (PRINT_ERROR)
+                warnx(ambig, (int)current_argv_len,
+                     current_argv);
+            optopt = 0;
+            return BADCH;
         }
         if (match != -1) {          /* option found */
                 if (long_options[match].has_arg == no_argument
-- 
2.43.0


From 2e9cf8af7cb4e9fa4d86c4a4e48fddd4fd8d2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:07 +0000
Subject: [PATCH 095/132] fix: getopt_long: starting over with optind = 0
 continued inside the argument left before

---
 src/getopt_long.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 247cedc..e2c9dc0 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -185,7 +185,7 @@ getopt_internal(int nargc, char * const *nargv, const char *options)
      * XXX properly function again.  Work around this braindamage.
      */
     if (optind == 0)
-        optind = 1;
+        optind = optreset = 1;
 
     if (optreset)
         nonopt_start = nonopt_end = -1;
-- 
2.43.0


From 4ab04faeadd2050a751364cf51f500407b13916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:10 +0000
Subject: [PATCH 096/132] fix: mkgetopt: the NAME_present flag of integer
 options was never set

---
 tools/mkgetopt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 9d2afce..f970624 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -1539,19 +1539,20 @@ grok_int(const char * str, const char * option, char * present, int * err,
         un.l *= -1;
     }
 
+    *present = 1;
     if (has_limit) {
         if (isneg && un.l < lim_neg) {
             *err += 1;
+            *present = 0;
             error(0, 0, "Integer value '-%%s' underflow for option '%%s' (min %%ld)",
                     str, option, lim_neg);
         } else if (!isneg && un.ul > (unsigned long)lim_pos) {
             *err += 1;
+            *present = 0;
             error(0, 0, "Integer value '%%s' overflow for option '%%s' (max %%lu)",
                     str, option, lim_pos);
         }
     }
-    else
-        *present = 1;
 
     return un.ul;
 }
-- 
2.43.0


From 453d01c3c1cf59065f1426b067494a60e903507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:10 +0000
Subject: [PATCH 097/132] fix: mkgetopt: integer options took negative, too
 large and non-numeric arguments for other values

---
 tools/mkgetopt.py | 68 +++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index f970624..0bc4150 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -82,7 +82,7 @@ class opt_int(opt_type):
             {
                 opt->%(varname)s = (%(ctype)s)grok_int(optarg, "%(optname)s",
                                     &opt->%(varname_p)s, &errs,
-                                    %(limit)s, 1);
+                                    %(limit)s, %(signed)d);
             }
 """
 
@@ -118,6 +118,7 @@ class opt_int(opt_type):
             'varname_p': opt.varname_p,
             'ctype':    self.ctype,
             'limit':    limit,
+            'signed':   not self.ctype.startswith('unsigned'),
             'optname':  optname,
             'default':  defval,
         }
@@ -886,7 +887,7 @@ extern const char* %s(void);\n\n""" % self.description_fp
 
 
         if self.needs_int:
-            decls += "static unsigned long grok_int(const char * str, const char * option, char * present, int * err, unsigned long limit, int has_limit);\n"
+            decls += "static unsigned long grok_int(const char * str, const char * option, char * present, int * err, unsigned long limit, int is_signed);\n"
             template += Grok_int_template
 
         if self.needs_size:
@@ -1508,53 +1509,56 @@ Grok_int_template = """
  * @param present Output value -- true if there are no errors, false otherwise
  * @param err     Output value -- incremented on errors
  * @param limit   The maximum permissible limit for this integer
- * @param has_limit   Set if the corresponding option had a size limitation
- *                (e.g., a short integer etc.)
+ * @param is_signed Set if the corresponding option may be negative
  * @return Converted string value.
  */
 static unsigned long
 grok_int(const char * str, const char * option, char * present, int * err,
-            unsigned long limit, int has_limit)
+            unsigned long limit, int is_signed)
 {
+    const char * xxstr = str;
     char * xxend = 0;
-    long lim_pos = (long) limit,
-         lim_neg = -lim_pos - 1;
-    int isneg = 0;
-    union
-    {
-        long l;
-        unsigned long ul;
-    } un;
-
-    if (*str == '-') {
-        ++str;
-        isneg = 1;
+    unsigned long val;
+    int isneg;
+
+    *present = 0;
+
+    while (isspace((unsigned char)*xxstr))
+        ++xxstr;
+
+    isneg = *xxstr == '-';
+    if (*xxstr == '-' || *xxstr == '+')
+        ++xxstr;
+
+    if (!isdigit((unsigned char)*xxstr)) {
+        *err += 1;
+        error(0, 0, "Invalid characters '%%s' for integer value in option '%%s'", str, option);
+        return 0;
     }
 
-    un.ul = strtoul(str, &xxend, 0);
+    errno = 0;
+    val   = strtoul(xxstr, &xxend, 0);
     if (xxend && *xxend)
         error(0, 0, "Ignoring trailing characters '%%s' for option '%%s'", xxend, option);
 
     if (isneg) {
-        un.l *= -1;
-    }
-
-    *present = 1;
-    if (has_limit) {
-        if (isneg && un.l < lim_neg) {
+        unsigned long lim_neg = is_signed ? limit + 1 : 0;
+        if (errno == ERANGE || val > lim_neg) {
             *err += 1;
-            *present = 0;
-            error(0, 0, "Integer value '-%%s' underflow for option '%%s' (min %%ld)",
+            error(0, 0, "Integer value '%%s' underflow for option '%%s' (min -%%lu)",
                     str, option, lim_neg);
-        } else if (!isneg && un.ul > (unsigned long)lim_pos) {
-            *err += 1;
-            *present = 0;
-            error(0, 0, "Integer value '%%s' overflow for option '%%s' (max %%lu)",
-                    str, option, lim_pos);
+            return 0;
         }
+        val = 0 - val;
+    } else if (errno == ERANGE || val > limit) {
+        *err += 1;
+        error(0, 0, "Integer value '%%s' overflow for option '%%s' (max %%lu)",
+                str, option, limit);
+        return 0;
     }
 
-    return un.ul;
+    *present = 1;
+    return val;
 }
 """
 
-- 
2.43.0


From f8e4bc9fd49b1f385757e52c264db7bef5d1371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:10 +0000
Subject: [PATCH 098/132] fix: mkgetopt: size options wrapped around instead of
 reporting overflow, and took text for zero

---
 tools/mkgetopt.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 0bc4150..fc4d6dc 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -1603,6 +1603,18 @@ grok_size(const char * str, const char * option, char * present, int * err)
 #define _PB         (_TB * 1024)
 
     *present = 1;
+
+    while (isspace((unsigned char)*str))
+        ++str;
+
+    if (!isdigit((unsigned char)*str)) {
+        *err += 1;
+        *present = 0;
+        error(0, 0, "Invalid characters '%%s' for size value in option '%%s'", str, option);
+        return 0;
+    }
+
+    errno  = 0;
     xxbase = strtoull(str, &xxend, 0);
 
     if (xxend && *xxend) {
@@ -1632,15 +1644,15 @@ grok_size(const char * str, const char * option, char * present, int * err)
                 break;
         }
 
-        xxval = xxbase * xxmult;
-        if ((xxbase == UL_MAX__ && errno == ERANGE) || (xxval < xxbase)) {
-            errs++;
-            error(0, 0, "Size value overflow for option '%%s' (base %%lu, multiplier %%lu)",
-                    option, xxbase, xxmult);
-            *present = 0;
-        }
-    } else
-        xxval = xxbase;
+    }
+
+    xxval = xxbase * xxmult;
+    if (errno == ERANGE || xxbase > UL_MAX__ / xxmult) {
+        errs++;
+        error(0, 0, "Size value overflow for option '%%s' (base %%lu, multiplier %%lu)",
+                option, xxbase, xxmult);
+        *present = 0;
+    }
 
     *err += errs;
     return xxval;
-- 
2.43.0


From f1cc7de49610fb95dc128b58e505a28e4b8a0a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:10 +0000
Subject: [PATCH 099/132] fix: mkgetopt: floating point options dropped the
 value together with trailing characters

---
 tools/mkgetopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index fc4d6dc..6c24d1e 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -295,10 +295,10 @@ class opt_float(opt_type):
                         ++errs;
                         error(0, 0, "Invalid characters '%%s' for floating point value in option '%(optname)s'", xxptr);
                     }
-                    else if (*xxptr)
-                        error(0, 0, "Ignoring trailing characters '%%s' for option '%(optname)s'", xxptr);
                     else
                     {
+                        if (*xxptr)
+                            error(0, 0, "Ignoring trailing characters '%%s' for option '%(optname)s'", xxptr);
                         opt->%(varname)s = xxdbl;
                         opt->%(varname_p)s = 1;
                     }
-- 
2.43.0


From 4b8b3ef9c2e60649daf4112f2add5d0f9c2f2ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:44 +0000
Subject: [PATCH 100/132] fix: mkgetopt: the code generated without any long
 option did not compile

---
 tools/mkgetopt.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 6c24d1e..16f5fb3 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -643,7 +643,7 @@ class option:
             self.longopt_str = ""
             return
 
-        s = '    , {"' + self.long_opt + '",'
+        s = '    {"' + self.long_opt + '",'
         s += ' ' * (32 - len(self.long_opt))
         if self.hasarg:
             if self.optarg:
@@ -655,7 +655,7 @@ class option:
 
         s += " 0, "
         s += "%d" % self.optnum
-        s += "}\n"
+        s += "},\n"
 
         #print "LONG: |%s|" % s
         self.longopt_str = s
@@ -939,10 +939,6 @@ extern const char* %s(void);\n\n""" % self.description_fp
 
 
 
-        # Erase leading ',' of long-options. This is the first option
-        i = longopt.find(',')
-        longopt = longopt[:i] + ' ' + longopt[i+1:]
-
         # If no permute is given, tell getopt_long() by prefixing with
         # '+'
         if self.nopermute:
@@ -1386,7 +1382,7 @@ C_template = """/*
 static const struct option Long_options[] =
 {
 %(longopt)s
-    , {0, 0, 0, 0}
+    {0, 0, 0, 0}
 };
 
 static const char Short_options[] = "%(shortopt)s";
-- 
2.43.0


From dc0ea8ea47d01bb1f40330cb98c0811a00712a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:44 +0000
Subject: [PATCH 101/132] fix: mkgetopt: place holders without default and
 files without a description crashed it or gave code that did not compile

---
 tools/mkgetopt.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 16f5fb3..5a16f9d 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -314,6 +314,9 @@ class opt_float(opt_type):
         if not optname:
             optname = opt.short_opt
 
+        if not opt.default:
+            opt.default = '0.0'
+
         try:
             dblval = float(opt.default)
         except:
@@ -433,6 +436,9 @@ def groksize(str):
     Peta bytes.
     """
 
+    if not str:
+        return 0
+
     x    = str[-1]
     mult = 1
     if x.isalpha():
@@ -597,13 +603,15 @@ class option:
         if ty is None:
             raise Invalid_Option("Option '%s' has invalid type %s" % (optname, self.type))
 
+        # Strings always have a default value that is duplicated
+        if ty.is_string():
+            self.is_string = True
+
         if not self.placeholder:
             if ty.is_int():
                 self.is_int = True
             elif ty.is_size():
                 self.is_size = True
-            elif ty.is_string():
-                self.is_string = True
 
         if ty.needsarg:
             self.optarg = optarg
@@ -860,7 +868,9 @@ extern const char* %s(void);\n\n""" % self.description_fp
             self.usage     = '""'
             self.usage_decl = ""
 
-        brief = self.description[0]
+        brief = ''
+        if self.description:
+            brief = self.description[0]
         if not brief.endswith('.'):
             brief += '.'
 
-- 
2.43.0


From e43d63984ba87e0b35ff5426ec1a596cb405fecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:44 +0000
Subject: [PATCH 102/132] fix: mkgetopt: callbacks were declared for another
 struct when a prefix was set, and %prefix did not override the command line

---
 tools/mkgetopt.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 5a16f9d..2628fd4 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -758,9 +758,7 @@ class output_state:
 
     def __init__(self, **kwargs):
         self.__dict__.update(kwargs)
-        self.sym_prefix     = "opt"
-        self.typename       = self.sym_prefix + "_option"
-        self.structname     = 'struct %s' % self.typename
+        self.sym_prefix     = None
         self.nopermute      = False
         self.noversion      = False
         self.nohelp         = False
@@ -895,6 +893,11 @@ extern const char* %s(void);\n\n""" % self.description_fp
         template = C_template
         decls    = ""
 
+        # Directives override the command line
+        prefix   = self.sym_prefix or onames.prefix or "opt"
+        typename = "%s_option" % prefix
+        self.structname = 'struct %s' % typename
+
 
         if self.needs_int:
             decls += "static unsigned long grok_int(const char * str, const char * option, char * present, int * err, unsigned long limit, int is_signed);\n"
@@ -957,9 +960,6 @@ extern const char* %s(void);\n\n""" % self.description_fp
         # Fixup help string with program description and such.
         self.format_help()
 
-        prefix   = onames.prefix or self.sym_prefix
-        typename = "%s_option" % prefix
-
         d = {
             'typestr':   typestmt,
             'typestr_p': typestmt_p,
-- 
2.43.0


From 112b6a07f3532d859be77d9cb7c31f104cd98d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:44 +0000
Subject: [PATCH 103/132] fix: mkgetopt: single quotes were not recognized in
 the first field

---
 tools/mkgetopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 2628fd4..4926614 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -1106,7 +1106,7 @@ class line_parser:
         if c.isspace():
             return self.INSPACE
 
-        elif c == '"' or c == '"':
+        elif c == '"' or c == "'":
             self.quotechar = c
             return self.INQUOTE
         else:
-- 
2.43.0


From bf7d97b4341b3a13ce6d48586e57966251d3e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:44 +0000
Subject: [PATCH 104/132] fix: mkgetopt: %nohelp and %noversion kept the names
 of their variables

---
 tools/mkgetopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 4926614..1c96678 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -840,6 +840,7 @@ class output_state:
         self.nohelp = True
         del self.longmap['help']
         del self.shortmap['h']
+        del self.varmap['help']
 
     def del_version(self):
         """Remove the --version option.
@@ -848,6 +849,7 @@ class output_state:
         self.noversion = True
         del self.longmap['version']
         del self.shortmap['V']
+        del self.varmap['version']
 
 
     def format_help(self):
-- 
2.43.0


From 0a888c6c1883ba1cf3789a677f9fbdde5c39142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:22 +0000
Subject: [PATCH 105/132] fix: error: an empty message read the byte before the
 buffer

---
 src/error.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index c0d7174..ee6e1aa 100644
--- a/src/error.c
+++ b/src/error.c
@@ -95,7 +95,7 @@ error(int status, int err, const char *fmt, ...)
     va_end(ap);
 
     // erase the trailing \n; we'll add it back later.
-    if (buf[n-1] == '\n') buf[--n] = 0;
+    if (n > 0 && buf[n-1] == '\n') buf[--n] = 0;
 
     fputs(buf, stderr);
     if (err > 0) fprintf(stderr, ": %s [%d]", errstr, err);
-- 
2.43.0


From 69cfba197477dc5d3fb2905079866bf6ae568c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:23 +0000
Subject: [PATCH 106/132] fix: warn, die: long messages lost their newline,
 empty messages read the byte before the buffer

---
 src/error.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/error.c b/src/error.c
index ee6e1aa..5e0d439 100644
--- a/src/error.c
+++ b/src/error.c
@@ -115,12 +115,12 @@ vprint(FILE *fp, const char *fmt, va_list ap)
 
     int n = vsnprintf(buf, max, fmt, ap);
     if (n < 0 || ((size_t)n) >= max) {
-        // output truncated. Ensure we have a trailing zero!
-        buf[max] = 0;
-        n = max;
+        // output truncated: it ends with the zero vsnprintf() put there.
+        if (n < 0) buf[0] = 0;
+        n = strlen(buf);
     }
 
-    if (buf[n-1] != '\n') {
+    if (n == 0 || buf[n-1] != '\n') {
         buf[n]   = '\n';
         buf[n+1] = '\0';
     }
-- 
2.43.0


From 99915ebf76d3fb94508551907f86f6cf1bb40df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:15 +0000
Subject: [PATCH 107/132] fix: strcasecmp: the sign of the result was reversed

---
 src/strcasecmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strcasecmp.c b/src/strcasecmp.c
index 805a3b8..c8fd7ad 100644
--- a/src/strcasecmp.c
+++ b/src/strcasecmp.c
@@ -66,7 +66,7 @@ strcasecmp(const char *str1, const char *str2)
         if ( !c )
             return 0;
     }
-    return map[*r] - map[*l];
+    return map[*l] - map[*r];
 }
 
 
-- 
2.43.0


From 8608538f992bb769e8b2f5fadcd85d7ab771b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:15 +0000
Subject: [PATCH 108/132] fix: strncasecmp: bytes above 127 indexed the table
 with a negative number

---
 src/strcasecmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strcasecmp.c b/src/strcasecmp.c
index c8fd7ad..e637bbc 100644
--- a/src/strcasecmp.c
+++ b/src/strcasecmp.c
@@ -92,8 +92,8 @@ strncasecmp(const char *str1, const char *str2, size_t length)
 
     for (; length > 0;length--, str1++, str2++)
     {
-        l = map[c1 = *str1];
-        r = map[c2 = *str2];
+        l = map[c1 = (unsigned char)*str1];
+        r = map[c2 = (unsigned char)*str2];
 
         if ( !(c1 && c2) )
             goto _done;
-- 
2.43.0


From af9a056ce4eff401ac8e82cbffaf4736fa4891ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:15 +0000
Subject: [PATCH 109/132] fix: utils.h: an hour had 24 minutes

---
 inc/utils/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/utils/utils.h b/inc/utils/utils.h
index c0bf241..43a90ed 100644
--- a/inc/utils/utils.h
+++ b/inc/utils/utils.h
@@ -116,7 +116,7 @@ typedef uint64_t duration_t;
 #define __Duration       ((duration_t)1000000000)
 #define __dur(a)         ((duration_t)(a))
 
-#define _Hour(n)         (_Minute(n) * 24)
+#define _Hour(n)         (_Minute(n) * 60)
 #define _Minute(n)       (_Second(n) * 60)
 #define _Second(n)       (__dur(n) * __Duration)
 #define _Millisecond(n)  (_Second(n) / 1000)
-- 
2.43.0


From 30fddfaa86dca44d44a43297a450d636c81d757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:41 +0000
Subject: [PATCH 110/132] fix: little-endian.h: __constant_ntohl,
 __constant_htons and __constant_ntohs had unbalanced parentheses

---
 inc/fast/little-endian.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/fast/little-endian.h b/inc/fast/little-endian.h
index 83b93ff..e1eb4c2 100644
--- a/inc/fast/little-endian.h
+++ b/inc/fast/little-endian.h
@@ -31,9 +31,9 @@ extern "C" {
 #define __constant_htonll(x) (__swab64((uint64_t)(x)))
 #define __constant_htonl(x)  (__swab32((uint32_t)(x)))
 #define __constant_ntohll(x) (__swab64((uint64_t)(x)))
-#define __constant_ntohl(x)  (__swab32(((uint32_t)(x)))
-#define __constant_htons(x)  (__swab16(((uint16_t)(x)))
-#define __constant_ntohs(x)  (__swab16(((uint16_t)(x)))
+#define __constant_ntohl(x)  (__swab32((uint32_t)(x)))
+#define __constant_htons(x)  (__swab16((uint16_t)(x)))
+#define __constant_ntohs(x)  (__swab16((uint16_t)(x)))
 
 #define __cpu_to_le16(x)     ((uint16_t)(x))
 #define __cpu_to_le32(x)     ((uint32_t)(x))
-- 
2.43.0


From 5b3028f987577da8514dbba52d33449d8c61d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:41 +0000
Subject: [PATCH 111/132] fix: big-endian.h: the 16 bit conversions of
 little-endian.h were missing

---
 inc/fast/big-endian.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inc/fast/big-endian.h b/inc/fast/big-endian.h
index b355320..781e8c4 100644
--- a/inc/fast/big-endian.h
+++ b/inc/fast/big-endian.h
@@ -34,13 +34,17 @@ extern "C" {
 #define __constant_htons(x)  ((uint16_t)(x))
 #define __constant_ntohs(x)  ((uint16_t)(x))
 
+#define __cpu_to_le16(x)     ((uint16_t)__swab16((x)))
 #define __cpu_to_le32(x)     ((uint32_t)__swab32((x)))
 #define __cpu_to_le64(x)     ((uint64_t)__swab64((x)))
+#define __cpu_to_be16(x)     ((uint16_t)(x))
 #define __cpu_to_be32(x)     ((uint32_t)(x))
 #define __cpu_to_be64(x)     ((uint64_t)(x))
 
+#define __le16_to_cpu(x)     (__swab16((uint16_t)(x)))
 #define __le32_to_cpu(x)     (__swab32((uint32_t)(x)))
 #define __le64_to_cpu(x)     (__swab64((uint64_t)(x)))
+#define __be16_to_cpu(x)     ((uint16_t)(x))
 #define __be32_to_cpu(x)     ((uint32_t)(x))
 #define __be64_to_cpu(x)     ((uint64_t)(x))
 
-- 
2.43.0


From 70d48130894ee27e5a7521bcc84eaba1945c8b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:21 +0000
Subject: [PATCH 112/132] fix: cdb_find: keys with the same hash hid each other

---
 src/cdb_read.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cdb_read.c b/src/cdb_read.c
index efada4e..7b8a7d8 100644
--- a/src/cdb_read.c
+++ b/src/cdb_read.c
@@ -153,19 +153,20 @@ cdb_find(CDB* db, void** p_ret, const void* key, size_t klen)
             uint32_t dklen = __read32(db, off);
             uint32_t dvlen = __read32(db, off+4);
 
-            if (dklen != klen) return -ENOENT;
+            if (dklen != klen) goto next;
 
             // Sanity check
             assert((off+8+dklen+dvlen) <= db->size);
         
             // key + value is at off+8
-            if (0 != memcmp(key, db->mmap+off+8, klen)) return -ENOENT;
+            if (0 != memcmp(key, db->mmap+off+8, klen)) goto next;
 
             // Value is at off+8+dklen
             *p_ret = db->mmap + off + 8 + dklen;
             return dvlen;
         }
 
+next:
         slot = (slot + 1) % ii->len;
     } while (slot != start);
 
-- 
2.43.0


From 0107af9624bb819928cdf0eed6bb824e158d6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:21 +0000
Subject: [PATCH 113/132] fix: cdb_find: keys whose hash is zero were never
 found

---
 src/cdb_read.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cdb_read.c b/src/cdb_read.c
index 7b8a7d8..0e42caa 100644
--- a/src/cdb_read.c
+++ b/src/cdb_read.c
@@ -146,7 +146,8 @@ cdb_find(CDB* db, void** p_ret, const void* key, size_t klen)
         uint32_t slothash = __read32(db, slotoff);
         uint32_t off      = __read32(db, slotoff+4);
 
-        if (slothash == 0) break;
+        // an unused slot has no record; a key's hash can be zero
+        if (off == 0) break;
 
         // Now, check to see if the key matches
         if (slothash == h) {
-- 
2.43.0


From 2a91608e868150e0d20122dc9dce358f7dbf3eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:21 +0000
Subject: [PATCH 114/132] fix: cdb_find: damaged databases aborted the program
 or were read beyond their end

---
 src/cdb_read.c   | 29 ++++++++++++++---------------
 src/cdb_reader.h |  1 +
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/cdb_read.c b/src/cdb_read.c
index 0e42caa..03eca83 100644
--- a/src/cdb_read.c
+++ b/src/cdb_read.c
@@ -36,14 +36,6 @@
 #define _u32(x)     ((uint32_t)(x))
 #define pU32(x)     ((uint32_t*)(x))
 
-#ifdef __little_endian
-
-#define __read32(d, off) ({ \
-        assert(off < (d)->size); \
-        (*pU32((d)->mmap+off));  \
-        })
-#else
-
 static inline uint32_t
 dec_LE_u32(const uint8_t * p) {
     return         p[0]
@@ -52,12 +44,14 @@ dec_LE_u32(const uint8_t * p) {
            | (_u32(p[3]) << 24);
 }
 
-#define __read32(d, off) ({ \
-        assert(off < (d)->size); \
-        dec_LE_u32((d)->mmap+off);     \
-        })
+// Return true if 'n' bytes at 'off' are inside the file
+static inline int
+__inside(const CDB *d, uint64_t off, uint64_t n)
+{
+    return off <= d->size && n <= d->size - off;
+}
 
-#endif /* __little_endian */
+#define __read32(d, off)    dec_LE_u32((d)->mmap+(off))
 
 extern uint64_t fasthash64(const void*, size_t, uint64_t);
 
@@ -142,7 +136,10 @@ cdb_find(CDB* db, void** p_ret, const void* key, size_t klen)
     uint32_t slot  = start;
 
      do {
-        uint32_t slotoff  = ii->off + (8 * slot);
+        uint64_t slotoff  = ii->off + (UINT64_C(8) * slot);
+
+        if (!__inside(db, slotoff, 8)) return -EINVAL;
+
         uint32_t slothash = __read32(db, slotoff);
         uint32_t off      = __read32(db, slotoff+4);
 
@@ -151,13 +148,15 @@ cdb_find(CDB* db, void** p_ret, const void* key, size_t klen)
 
         // Now, check to see if the key matches
         if (slothash == h) {
+            if (!__inside(db, off, 8)) return -EINVAL;
+
             uint32_t dklen = __read32(db, off);
             uint32_t dvlen = __read32(db, off+4);
 
             if (dklen != klen) goto next;
 
             // Sanity check
-            assert((off+8+dklen+dvlen) <= db->size);
+            if (!__inside(db, UINT64_C(8) + off, (uint64_t)dklen + dvlen)) return -EINVAL;
         
             // key + value is at off+8
             if (0 != memcmp(key, db->mmap+off+8, klen)) goto next;
diff --git a/src/cdb_reader.h b/src/cdb_reader.h
index f61c718..e42a355 100644
--- a/src/cdb_reader.h
+++ b/src/cdb_reader.h
@@ -85,6 +85,7 @@ extern int cdb_read_init(CDB* db, const char* fname);
  * Returns:
  *      >= 0     key is found; # of bytes of value
  *      -ENOENT  key is not found
+ *      -EINVAL  the DB is damaged
  */
 extern ssize_t cdb_find(CDB* db, void** p_ret, const void* key, size_t klen);
 
-- 
2.43.0


From ec9158d98682e07947be56579dbce9f9d1796de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:13 +0000
Subject: [PATCH 115/132] fix: readpass: an empty password read and wrote the
 byte before the buffer

---
 src/readpass.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/readpass.c b/src/readpass.c
index f50aeaa..b6a84fc 100644
--- a/src/readpass.c
+++ b/src/readpass.c
@@ -118,7 +118,7 @@ ok:
     n = strlen(passbuf);
     if (n > 0) {
         if (passbuf[n-1] == '\n')  passbuf[--n] = 0;
-        if (passbuf[n-1] == '\r')  passbuf[--n] = 0;
+        if (n > 0 && passbuf[n-1] == '\r')  passbuf[--n] = 0;
     }
 
 
-- 
2.43.0


From dc30d8cd1fa142086947db1c7cf4a14112198685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:13 +0000
Subject: [PATCH 116/132] fix: readpass: end of input at a terminal was
 reported as success without a password

---
 src/readpass.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/readpass.c b/src/readpass.c
index b6a84fc..ce4ca63 100644
--- a/src/readpass.c
+++ b/src/readpass.c
@@ -91,8 +91,9 @@ portable_readpass(char ** passwd, const char * prompt,
     do {
         if (usingtty) fprintf(stderr, "%s: ", prompt);
 
+        errno = 0;
         if (fgets(passbuf, MAXPASSLEN, readfrom) == NULL) {
-            r = -errno;
+            r = errno > 0 ? -errno : -EIO;
             warnp("Cannot read password");
             goto err2;
         }
@@ -100,8 +101,9 @@ portable_readpass(char ** passwd, const char * prompt,
         if (!confirmprompt) goto ok;
 
         if (usingtty) fprintf(stderr, "%s: ", confirmprompt);
+        errno = 0;
         if (fgets(confpassbuf, MAXPASSLEN, readfrom) == NULL) {
-            r = -errno;
+            r = errno > 0 ? -errno : -EIO;
             warnp("Cannot read password");
             goto err2;
         }
-- 
2.43.0


From 14c4b7b35781302b79a58210e10f520385c396f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:13 +0000
Subject: [PATCH 117/132] fix: readpass: a last line without a line end never
 matched its confirmation

---
 src/readpass.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/readpass.c b/src/readpass.c
index ce4ca63..5b648fd 100644
--- a/src/readpass.c
+++ b/src/readpass.c
@@ -36,6 +36,16 @@
 #define MAXPASSLEN 2048
 #define warnp(x) fprintf(stderr, x ": %s (%d)\n", strerror(errno), errno)
 
+// remove the line end, if there is one
+static void
+trim_eol(char *s)
+{
+    size_t n = strlen(s);
+
+    if (n > 0 && s[n-1] == '\n') s[--n] = 0;
+    if (n > 0 && s[n-1] == '\r') s[--n] = 0;
+}
+
 /**
  * portable_getpass(passwd, prompt, confirmprompt, devtty)
  * If ${devtty} is non-zero, read a password from /dev/tty if possible; if
@@ -63,7 +73,6 @@ portable_readpass(char ** passwd, const char * prompt,
     int usingtty = 0,
         tries    = 3,
         r        = -1;
-    size_t n     = 0;
 
     /*
      * If devtty != 0, try to open /dev/tty; if that fails, or if devtty
@@ -98,6 +107,7 @@ portable_readpass(char ** passwd, const char * prompt,
             goto err2;
         }
 
+        trim_eol(passbuf);
         if (!confirmprompt) goto ok;
 
         if (usingtty) fprintf(stderr, "%s: ", confirmprompt);
@@ -107,6 +117,7 @@ portable_readpass(char ** passwd, const char * prompt,
             warnp("Cannot read password");
             goto err2;
         }
+        trim_eol(confpassbuf);
         if (0 == strcmp(passbuf, confpassbuf)) goto ok;
 
         if (--tries > 0) fprintf(stderr, "Passwords mismatch, please restart!\n");
@@ -117,13 +128,6 @@ portable_readpass(char ** passwd, const char * prompt,
 
 
 ok:
-    n = strlen(passbuf);
-    if (n > 0) {
-        if (passbuf[n-1] == '\n')  passbuf[--n] = 0;
-        if (n > 0 && passbuf[n-1] == '\r')  passbuf[--n] = 0;
-    }
-
-
     if ((*passwd = strdup(passbuf)) == NULL) {
         r = -ENOMEM;
         goto err2;
-- 
2.43.0


From 2b48a385b73561b466e614f78d7013fa7d87e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:14 +0000
Subject: [PATCH 118/132] fix: geterror: the error text was empty with the GNU
 strerror_r

---
 src/posix/syserror.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/posix/syserror.cpp b/src/posix/syserror.cpp
index daf6e4f..ac5a5f6 100644
--- a/src/posix/syserror.cpp
+++ b/src/posix/syserror.cpp
@@ -34,19 +34,34 @@ geterrno()
 
 
 
+// There are two variants of strerror_r(): one fills 'buf', the other
+// returns the text and may leave 'buf' alone.
+static inline const char *
+errtext(int, const char * buf)
+{
+    return buf;
+}
+
+static inline const char *
+errtext(const char * s, const char *)
+{
+    return s;
+}
+
+
 syserror
 geterror(int err, const string& prefix)
 {
     //int err       = errno;
     char buf[256] = { 0 };
 
-    strerror_r(err, buf, sizeof buf);
-    
+    const char * s = errtext(strerror_r(err, buf, sizeof buf), buf);
+
     syserror p(err, prefix);
 
     if (prefix.length() > 0)
         p.errstr += ": ";
-    p.errstr.append(buf);
+    p.errstr.append(s);
     return p;
 }
 
-- 
2.43.0


From d8a7f5879b824eab7668327d11311ccf11609256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:14 +0000
Subject: [PATCH 119/132] fix: mmap_file: the file stayed open when its size
 could not be queried

---
 src/posix/mmap.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/posix/mmap.cpp b/src/posix/mmap.cpp
index 0b9bf17..a288c9e 100644
--- a/src/posix/mmap.cpp
+++ b/src/posix/mmap.cpp
@@ -49,8 +49,12 @@ mmap_file::mmap_file(const string& fname, unsigned int flags)
         throw sys_exception(geterror(), "Can't open '%s'", fn());
 
     struct stat st;
-    if ( ::fstat(fd, &st) < 0 )
-        throw sys_exception(geterror(), "Can't query '%s'", fn());
+    if ( ::fstat(fd, &st) < 0 ) {
+        syserror e = geterror();
+
+        ::close(fd);
+        throw sys_exception(e, "Can't query '%s'", fn());
+    }
 
 
     m_filesize = st.st_size;
-- 
2.43.0


From ef5ed9c754bd95292e6c4936d387fb75376528e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:47 +0000
Subject: [PATCH 120/132] fix: sys_exception: a long message aborted the
 program or overran the buffer

---
 src/sysexception.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sysexception.cpp b/src/sysexception.cpp
index 1b34ebf..1a4aa5d 100644
--- a/src/sysexception.cpp
+++ b/src/sysexception.cpp
@@ -51,10 +51,12 @@ sys_exception::sys_exception(const syserror& e, const char * fmt, ...)
 
     va_list ap;
     va_start(ap, fmt);
-    size_t n = vsnprintf(buf, max, fmt, ap);
+    int r = vsnprintf(buf, max, fmt, ap);
     va_end(ap);
 
-    assert(n <= max);
+    // vsnprintf() returns the length of the whole text
+    string::size_type n = r < 0 ? 0 : r;
+    if (n >= max) n = max - 1;
 
     memcpy(m_buf, buf, n);
     m_buf[n++] = ':';
-- 
2.43.0


From 49b1880fdb7ffcabc2f84ee90c4686a36c940990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:29 +0000
Subject: [PATCH 121/132] fix: get_all_if_address: failure leaked memory and
 lost the error number

---
 src/c_resolve.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index a406304..ff06807 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -198,8 +198,11 @@ get_all_if_address(if_address_vect* addrv, unsigned int mask)
         mask = F_INET|F_INET6;
 
     r = getifaddrs(&ifa);
-    if (r < 0)
+    if (r < 0) {
+        r = -errno;
+        VECT_FINI(&av);
         return r;
+    }
 
     for (ifp = ifa; ifp; ifp = ifp->ifa_next) {
         iftmp t;
-- 
2.43.0


From 95ee2c5a2d57ad810da3a186782179ae712bfee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:29 +0000
Subject: [PATCH 122/132] fix: resolve_host_or_ifname: an unknown host was
 reported as success (errno is not set by getaddrinfo)

---
 src/c_resolve.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index ff06807..761869b 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -437,8 +437,13 @@ resolve_host_or_ifname(const char* name, if_addr_vect* addrv, unsigned int mask)
     hints.ai_socktype = SOCK_STREAM;
 
     n = getaddrinfo(name, 0, &hints, &ai);
-    if (n != 0)
-        return -errno;
+    switch (n) {
+        case 0:          break;
+        case EAI_SYSTEM: return -errno;
+        case EAI_MEMORY: return -ENOMEM;
+        case EAI_AGAIN:  return -EAGAIN;
+        default:         return -ENOENT;
+    }
 
     for (ptr = ai; ptr; ptr = ptr->ai_next) {
         struct sockaddr* s = ptr->ai_addr;
-- 
2.43.0


From 5d012a7552ecc0edde3fce5bfecc65c83b657d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:29 +0000
Subject: [PATCH 123/132] fix: resolve: a host name beginning with a long
 interface name was taken for the interface

---
 src/c_resolve.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index 761869b..49288bd 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -106,14 +106,17 @@ hexdump(const char* prefix, const void * buf, size_t bufsiz)
 static int
 is_ifname(const char* name)
 {
-    int fd = socket(AF_INET, SOCK_STREAM, 0);
+    struct ifreq ifr;
+    int fd;
     int r = 0;
 
-    if (fd >= 0) {
-        struct ifreq ifr;
-        memset(&ifr, 0, sizeof ifr);
+    // a name that doesn't fit is not an interface's
+    memset(&ifr, 0, sizeof ifr);
+    if (strcopy(ifr.ifr_name, IFNAMSIZ, name) < 0)
+        return 0;
 
-        strcopy(ifr.ifr_name, IFNAMSIZ, name);
+    fd = socket(AF_INET, SOCK_STREAM, 0);
+    if (fd >= 0) {
         if (ioctl(fd, SIOCGIFMTU, &ifr) == 0)
             r = 1;
 
-- 
2.43.0


From 76c440e8048139901d8115478689fc0cf9a8f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:29 +0000
Subject: [PATCH 124/132] fix: sockaddr_to_string: a link address overran a
 small buffer

---
 src/c_resolve.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index 49288bd..cd4c193 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -142,6 +142,11 @@ sockaddr_to_string(char * buf, size_t bufsiz, const struct sockaddr * sa)
                          * me = m + 6;
             char *p = buf;
 
+            if (bufsiz < 3 * 6) {
+                errno = ENOSPC;
+                return 0;
+            }
+
             //hexdump("macdump", sa, sizeof(struct sockaddr_storage));
 
             for (; m < me; ++m) {
-- 
2.43.0


From 15c0411503d07bf1c3cc606325b21be32ce388b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:17 +0000
Subject: [PATCH 125/132] fix: daemonize: up to three descriptors of /dev/null
 were left open

---
 src/daemon.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/daemon.c b/src/daemon.c
index c7062ef..52a4bdb 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -60,6 +60,10 @@ daemonize(const char* pwd)
     dup2(fd1, 1);
     dup2(fd2, 2);
 
+    if (fd0 > 2) close(fd0);
+    if (fd1 > 2) close(fd1);
+    if (fd2 > 2) close(fd2);
+
     return 0;
 }
 
-- 
2.43.0


From 66fe5a833a5fe2f5c409d468276b4caa476e85a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:34 +0000
Subject: [PATCH 126/132] fix: fts_open: the sort array was leaked when memory
 ran out after sorting the roots

---
 src/fts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fts.c b/src/fts.c
index 1d488cd..c862532 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -216,6 +216,7 @@ fts_open(char * const *argv, int options,
 	return (sp);
 
 mem3:	fts_lfree(root);
+	free(sp->fts_array);
 	fts_free(parent);
 mem2:	free(sp->fts_path);
 mem1:	free(sp);
-- 
2.43.0


From 825971903d0bca42a9d26e206382034ba16d7255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:10 +0000
Subject: [PATCH 127/132] fix: Bloom_unmarshal: running out of memory for the
 bits of a filter was taken for success

---
 src/hashtable/bloom_marshal.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index aced945..2b75f00 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -713,7 +713,11 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
         bloom   *f = m.b->filter;
         offpair *o = &VECT_ELEM(&m.offs, 0);
 
-        rdfilter(start, o, f, m.b->e, do_mmap);
+        r = rdfilter(start, o, f, m.b->e, do_mmap);
+        if (r < 0) {
+            errno = -r;
+            goto fail0;
+        }
     }
 
     VECT_FINI(&m.offs);
-- 
2.43.0


From b943e7e9a90122cd8dfea304aa9e6d368d1bb3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:11 +0000
Subject: [PATCH 128/132] fix: mempool_make_memmgr: requests larger than a
 block got a block that is too small

---
 src/mempool.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mempool.c b/src/mempool.c
index 07950e5..74eb770 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -623,8 +623,12 @@ mempool_total_blocks(mempool* a)
 static void*
 _stacked_alloc(void* x, size_t n)
 {
-    (void)n;
-    return mempool_alloc((mempool* )x);
+    mempool* a = x;
+
+    // blocks of this pool can't hold it
+    if (n > a->block_size) return 0;
+
+    return mempool_alloc(a);
 }
 
 static void
-- 
2.43.0


From f39686d235ec32d71a9752f87a56e9ff12adef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:11 +0000
Subject: [PATCH 129/132] fix: Mempool: the block was lost when the constructor
 of the object threw

---
 inc/utils/mempool.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/inc/utils/mempool.h b/inc/utils/mempool.h
index 66b8bc8..ff6848d 100644
--- a/inc/utils/mempool.h
+++ b/inc/utils/mempool.h
@@ -310,7 +310,12 @@ public:
         void *r = mempool_alloc(&m_pool);
         if (!r) throw std::bad_alloc();
 
-        return new(r) T(std::forward<Args>(a)...);
+        try {
+            return new(r) T(std::forward<Args>(a)...);
+        } catch (...) {
+            mempool_free(&m_pool, r);
+            throw;
+        }
     }
 
     // Deallocate a fixed size block
-- 
2.43.0


From cb0128cd971cf9a3e0777819c31f0a29c43ef5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:39 +0000
Subject: [PATCH 130/132] fix: _SEC and _MSEC overflowed for arguments of type
 int (from 2148 seconds on)

---
 inc/fast/tmutils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/fast/tmutils.h b/inc/fast/tmutils.h
index 535afbc..bab08bf 100644
--- a/inc/fast/tmutils.h
+++ b/inc/fast/tmutils.h
@@ -42,8 +42,8 @@ now(void)
 }
 
 // Express 'n' seconds in our canonical format
-#define _SEC(n)     ((uint64_t)((n) * 1000000))
-#define _MSEC(n)    ((uint64_t)((n) * 1000))
+#define _SEC(n)     ((uint64_t)((n) * 1000000LL))
+#define _MSEC(n)    ((uint64_t)((n) * 1000LL))
 #define _USEC(n)    ((uint64_t)(n))
 
 
-- 
2.43.0


From d60bc9999242a7ff3c1d2edf861e9742b6d3e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:04 +0000
Subject: [PATCH 131/132] fix: uuid_generate and ulid_generate returned
 uninitialized memory as an identifier when no random bytes were available

---
 src/ulid.c | 2 +-
 src/uuid.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ulid.c b/src/ulid.c
index 4dacae4..37cafd2 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -53,7 +53,7 @@ ulid_generate(uint8_t *buf, size_t bsiz)
     *buf++ = 0xff & (ms >>  8);
     *buf++ = 0xff & ms;
 
-    getentropy(buf, 10);
+    if (getentropy(buf, 10) < 0) return -errno;
     return 16;
 }
 
diff --git a/src/uuid.c b/src/uuid.c
index 7296c5e..ff2cb1a 100644
--- a/src/uuid.c
+++ b/src/uuid.c
@@ -29,7 +29,7 @@ uuid_generate(uint8_t *buf, size_t bsiz)
     if (bsiz == 0) return -EINVAL;
     if (bsiz < 16) return -ENOSPC;
 
-    getentropy(buf, 16);
+    if (getentropy(buf, 16) < 0) return -errno;
 
     buf[6] = 0x4f & (buf[6] | 0x40);
     buf[8] = 0xbf & (buf[8] | 0x80);
-- 
2.43.0


From 7b038fcc9dcee633c9e94446b7086bc1fd7800cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:00 +0000
Subject: [PATCH 132/132] fix: mempool_new lost the pool object, and handed it
 to its caller, when there was no memory for the first chunk

---
 src/mempool.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mempool.c b/src/mempool.c
index 74eb770..799497f 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -397,8 +397,14 @@ mempool_new(mempool** p_a, const memmgr* tr, uint_t block_size,
     a = (mempool* )tr->alloc(tr->context, sizeof *a);
     if (!a) return -ENOMEM;
 
+    int r = __real_init(a, tr, block_size, max, min_alloc_units);
+    if (r < 0) {
+        tr->free(tr->context, a);
+        return r;
+    }
+
     *p_a = a;
-    return __real_init(a, tr, block_size, max, min_alloc_units);
+    return 0;
 }
 
 
-- 
2.43.0

