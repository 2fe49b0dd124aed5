From bdebe884b6a19e9fde5559074a98e9eb7987a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 01/50] fix: krw_insert before a partly read head must not
 replay consumed bytes

---
 src/kbuf.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/kbuf.c b/src/kbuf.c
index c839c5b..7909996 100644
--- a/src/kbuf.c
+++ b/src/kbuf.c
@@ -36,6 +36,15 @@ void krw_insert(krw_buffer* rw_buffer, kbuf* buf) {
 		krw_append(rw_buffer, buf);
 		return;
 	}
+	int consumed = (int)(rw_buffer->read_hot - rw_buffer->head->data);
+	if (consumed > 0) {
+		/* the head is already partly read, drop the consumed bytes or they will be read again */
+		rw_buffer->head->used -= consumed;
+		memmove(rw_buffer->head->data, rw_buffer->read_hot, rw_buffer->head->used);
+		if (rw_buffer->head == rw_buffer->write_hot_buf && rw_buffer->write_hot) {
+			rw_buffer->write_hot -= consumed;
+		}
+	}
 	buf->next = rw_buffer->head;
 	rw_buffer->head = buf;
 	rw_buffer->total_len += buf->used;
-- 
2.43.0


From 2c1089b11d6f29d7a86ce0ec0ddb97f76543d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 02/50] loop contract hook points (KASYNC_CONTRACTS), empty in
 normal builds

---
 include/kfeature.h | 7 +++++++
 src/kbuf.c         | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/kfeature.h b/include/kfeature.h
index 1d5785a..c7ccc66 100644
--- a/include/kfeature.h
+++ b/include/kfeature.h
@@ -69,6 +69,13 @@ KBEGIN_DECLS
 #endif
 #define kgl_countof(array) (sizeof(array) / sizeof(array[0]))
 
+/* loop specifications for the contract verifier; expands to nothing in every normal build */
+#ifdef KASYNC_CONTRACTS
+#include "kasync_loop_contracts.h"
+#define KGL_LOOP_CONTRACT(name) KGL_LOOP_CONTRACT_##name
+#else
+#define KGL_LOOP_CONTRACT(name)
+#endif
 #define KBIT_SET(a,b)   ((a)|=(b))
 #define KBIT_CLR(a,b)   ((a)&=~(b))
 #define KBIT_TEST(a,b)  ((a)&(b))
diff --git a/src/kbuf.c b/src/kbuf.c
index 7909996..ad680db 100644
--- a/src/kbuf.c
+++ b/src/kbuf.c
@@ -158,7 +158,7 @@ void krw_write_success(krw_buffer* rw_buffer, int got) {
 	rw_buffer->write_hot += got;
 }
 void krw_write_str(krw_buffer* rw_buffer, const char* buf, int len) {
-	while (len > 0) {
+	while (len > 0) KGL_LOOP_CONTRACT(krw_write_str) {
 		int wlen;
 		char* t = krw_get_write_buffer(rw_buffer, &wlen);
 		kassert(t);
@@ -184,7 +184,7 @@ void krw_write_int64(krw_buffer* rw_buffer, int64_t val) {
 int krw_read(krw_buffer* rw_buffer, char* buf, int len) {
 	char* hot = buf;
 	int got = 0;
-	while (len > 0) {
+	while (len > 0) KGL_LOOP_CONTRACT(krw_read) {
 		int length;
 		char* read_data = krw_get_read_buffer(rw_buffer, &length);
 		if (read_data == NULL) {
-- 
2.43.0


From d0371b2a63a8d931c3dccbcd830617ad37daaab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 03/50] fix: aligned pool allocation must not run past a block
 whose end is unaligned

---
 src/kmalloc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kmalloc.c b/src/kmalloc.c
index beb0b3e..e8fc54d 100644
--- a/src/kmalloc.c
+++ b/src/kmalloc.c
@@ -54,7 +54,8 @@ static INLINE void* kgl_palloc_small(kgl_pool_t* pool, size_t size, size_t align
 			m = (char*)kgl_align_ptr(m, KGL_ALIGNMENT);
 		}
 
-		if ((size_t)(p->d.end - m) >= size) {
+		/* aligning may move m past the end of a block whose size is not a multiple of the alignment */
+		if (m <= p->d.end && (size_t)(p->d.end - m) >= size) {
 			p->d.last = m + size;
 
 			return m;
-- 
2.43.0


From 1395635835c19910f02747a96365a5fa9b1cf071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 04/50] fix: kgl_array_push on an array created with no
 capacity must allocate room

---
 src/kmalloc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kmalloc.c b/src/kmalloc.c
index e8fc54d..333a45b 100644
--- a/src/kmalloc.c
+++ b/src/kmalloc.c
@@ -264,6 +264,7 @@ void kgl_array_destroy(kgl_array_t* a) {
 void* kgl_array_push(kgl_array_t* a) {
 	void* elt, * new_elt;
 	size_t       size;
+	size_t   nalloc;
 	kgl_pool_t* p;
 
 	if (a->nelts == a->nalloc) {
@@ -287,14 +288,16 @@ void* kgl_array_push(kgl_array_t* a) {
 		} else {
 			/* allocate a new array */
 
-			new_elt = kgl_palloc(p, 2 * size);
+			nalloc = a->nalloc ? 2 * a->nalloc : 1;
+
+			new_elt = kgl_palloc(p, nalloc * a->size);
 			if (new_elt == NULL) {
 				return NULL;
 			}
 
 			kgl_memcpy(new_elt, a->elts, size);
 			a->elts = new_elt;
-			a->nalloc *= 2;
+			a->nalloc = nalloc;
 		}
 	}
 
-- 
2.43.0


From d97713f8b9a3fc4e889a06ce3996670f2f45ce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 05/50] loop contract hook points in the red-black tree

---
 src/krbtree.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/krbtree.c b/src/krbtree.c
index cb7c9ea..7a0895e 100644
--- a/src/krbtree.c
+++ b/src/krbtree.c
@@ -125,6 +125,7 @@ void rb_insert_color(struct krb_node *node, struct krb_root *root)
 	struct krb_node *parent, *gparent;
 
 	while ((parent = rb_parent(node)) && rb_is_red(parent))
+	KGL_LOOP_CONTRACT(rb_insert_color)
 	{
 		gparent = rb_parent(parent);
 
@@ -192,6 +193,7 @@ static void __rb_erase_color(struct krb_node *node, struct krb_node *parent,
 	struct krb_node *other;
 
 	while ((!node || rb_is_black(node)) && node != root->rb_node)
+	KGL_LOOP_CONTRACT(rb_erase_color)
 	{
 		if (parent->rb_left == node)
 		{
@@ -525,7 +527,7 @@ struct krb_node *rbtree_find2(const struct krb_tree *rb, const void *key, comprb
 
 	struct krb_node *node = rb->root.rb_node;
 	struct krb_node *last_node = NULL;
-	while (node) {
+	while (node) KGL_LOOP_CONTRACT(rbtree_find2) {
 		last_node = node;
 		*result = c(key, node->data);
 		if (*result < 0)
@@ -565,7 +567,7 @@ struct krb_node *rbtree_find_cover(const struct krb_tree *rb, const void *key, c
 struct krb_node *rbtree_find(const struct krb_tree *rb, const void *key, comprbt c)
 {
 	struct krb_node *node = rb->root.rb_node;
-	while (node) {
+	while (node) KGL_LOOP_CONTRACT(rbtree_find) {
 		int result = c(key, node->data);
 		if (result < 0)
 			node = node->rb_left;
@@ -590,7 +592,7 @@ void rbtree_remove2(struct krb_tree *rb, struct krb_node *node, free_node fn)
 struct krb_node *rbtree_insert(struct krb_tree *rb, const void *key, int *new_flag, comprbt c)
 {
 	struct krb_node **n = &(rb->root.rb_node), *parent = NULL;
-	while (*n) {
+	while (*n) KGL_LOOP_CONTRACT(rbtree_insert) {
 		int result = c(key, (*n)->data);
 		parent = *n;
 		if (result < 0) {
@@ -611,7 +613,7 @@ struct krb_node *rbtree_insert(struct krb_tree *rb, const void *key, int *new_fl
 struct krb_node *rbtree_insert2(struct krb_tree *rb, const void *key, int *new_flag, comprbt c, new_node nn)
 {
 	struct krb_node **n = &(rb->root.rb_node), *parent = NULL;
-	while (*n) {
+	while (*n) KGL_LOOP_CONTRACT(rbtree_insert2) {
 		int result = c(key, (*n)->data);
 		parent = *n;
 		if (result < 0) {
-- 
2.43.0


From 05784ea97a4ef2fead216e083c7bc2bda43cb679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 06/50] fix: rbtree_int_cmp must not overflow for distant keys

---
 src/krbtree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/krbtree.c b/src/krbtree.c
index 7a0895e..d7356ce 100644
--- a/src/krbtree.c
+++ b/src/krbtree.c
@@ -33,7 +33,8 @@ int rbtree_int_cmp(const void *key1, const void *key2)
 {
 	int *k1 = (int *)key1;
 	int *k2 = (int *)key2;
-	return *k1 - *k2;
+	/* a difference may overflow */
+	return (*k1 > *k2) - (*k1 < *k2);
 }
 static inline void rb_set_parent(struct krb_node *rb, struct krb_node *p)
 {
-- 
2.43.0


From 0f068c88fd5cb089758db8d9be7c09f612b37e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 07/50] contract hook for tagged parent pointers (identity in
 normal builds)

---
 include/kfeature.h | 4 ++++
 src/krbtree.c      | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/kfeature.h b/include/kfeature.h
index c7ccc66..7aad161 100644
--- a/include/kfeature.h
+++ b/include/kfeature.h
@@ -73,8 +73,12 @@ KBEGIN_DECLS
 #ifdef KASYNC_CONTRACTS
 #include "kasync_loop_contracts.h"
 #define KGL_LOOP_CONTRACT(name) KGL_LOOP_CONTRACT_##name
+#ifndef KGL_UNTAGGED
+#define KGL_UNTAGGED(type, value) ((type *)(value))
+#endif
 #else
 #define KGL_LOOP_CONTRACT(name)
+#define KGL_UNTAGGED(type, value) ((type *)(value))
 #endif
 #define KBIT_SET(a,b)   ((a)|=(b))
 #define KBIT_CLR(a,b)   ((a)&=~(b))
diff --git a/src/krbtree.c b/src/krbtree.c
index d7356ce..187912b 100644
--- a/src/krbtree.c
+++ b/src/krbtree.c
@@ -5,7 +5,7 @@
 #include <string.h>
 #include "kforwin32.h"
 
-#define rb_parent(r)   ((struct krb_node *)((r)->rb_parent_color & ~3))
+#define rb_parent(r)   KGL_UNTAGGED(struct krb_node, (r)->rb_parent_color & ~3)
 #define rb_color(r)   ((r)->rb_parent_color & 1)
 #define rb_is_red(r)   (!rb_color(r))
 #define rb_is_black(r) rb_color(r)
-- 
2.43.0


From 7da585bd33b97761710317ebe6ebf3219c2c0709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:49 +0000
Subject: [PATCH 08/50] loop contract hook points in the selector core

---
 src/kselector.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/kselector.c b/src/kselector.c
index e48d8d4..6a02ce4 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -56,7 +56,7 @@ static INLINE struct krb_node *kgl_insert_block_queue(struct krb_root *root, kgl
 {
 	struct krb_node **n = &(root->rb_node), *parent = NULL;
 	kgl_block_queue *tmp = NULL;
-	while (*n) {
+	while (*n) KGL_LOOP_CONTRACT(kgl_insert_block_queue) {
 		tmp = (kgl_block_queue *)((*n)->data);
 		int64_t result = brq->active_msec - tmp->active_msec;
 		parent = *n;
@@ -117,7 +117,7 @@ void kselector_adjust_time(kselector *selector, int64_t diff_time)
 		return;
 	}
 	struct krb_node *node = selector->block_first;
-	while (node) {
+	while (node) KGL_LOOP_CONTRACT(adjust_timers) {
 		kgl_block_queue *brq = (kgl_block_queue *)node->data;
 		kassert(brq);
 		brq->active_msec += diff_time;
@@ -125,7 +125,7 @@ void kselector_adjust_time(kselector *selector, int64_t diff_time)
 	}
 	for (int i = 0; i <= KGL_LIST_RW; i++) {
 		kgl_list *pos;
-		klist_foreach (pos, &selector->list[i]) {
+		klist_foreach (pos, &selector->list[i]) KGL_LOOP_CONTRACT(adjust_list) {
 			kselectable *st = kgl_list_data(pos, kselectable, base.queue);
 			st->active_msec += diff_time;
 		}
@@ -157,7 +157,7 @@ int kselector_check_timeout(kselector *selector,int event_number)
 	int min_event_time = SELECTOR_TMO_MSEC;
 	//read write timeout
 	for (int i = 0; i <= KGL_LIST_RW; i++) {
-		for (;;) {
+		for (;;) KGL_LOOP_CONTRACT(check_list) {
 			kgl_list *l = klist_head(&selector->list[i]);
 			if (l == &selector->list[i]) {
 				break;
@@ -198,7 +198,7 @@ int kselector_check_timeout(kselector *selector,int event_number)
 		}
 	}
 
-	while (selector->block_first) {
+	while (selector->block_first) KGL_LOOP_CONTRACT(check_collect) {
 		kgl_block_queue *rq = (kgl_block_queue *)selector->block_first->data;
 		kassert(rq);
 #ifdef MALLOCDEBUG
@@ -221,9 +221,9 @@ int kselector_check_timeout(kselector *selector,int event_number)
 		selector->block_first = next;
 	}
 
-	while (block) {
+	while (block) KGL_LOOP_CONTRACT(check_fire) {
 		kgl_block_queue *rq = (kgl_block_queue *)block->data;
-		while (rq) {
+		while (rq) KGL_LOOP_CONTRACT(check_chain) {
 			kgl_block_queue *rq_next = rq->next;
 			rq->func(rq->data,rq->arg, 0);
 			xfree(rq);
@@ -234,7 +234,7 @@ int kselector_check_timeout(kselector *selector,int event_number)
 		block = last;
 	}
 	//handle ready list
-	for (;;) {
+	for (;;) KGL_LOOP_CONTRACT(check_ready) {
 		kgl_list *l = klist_head(&selector->list[KGL_LIST_READY]);
 		if (l == &selector->list[KGL_LIST_READY]) {
 			break;
@@ -268,7 +268,7 @@ int kselector_check_timeout(kselector *selector,int event_number)
 	}
 	tick_list = klist_head(&selector->tick);
 
-	while (tick_list != &selector->tick) {
+	while (tick_list != &selector->tick) KGL_LOOP_CONTRACT(check_tick) {
 		tick = kgl_list_data(tick_list, kselector_tick, queue);
 		tick_next_list = tick_list->next;
 		int next_event_time = tick->cb(tick->arg, event_number);
-- 
2.43.0


From abf8ad0c2302be61dcf768f40d8a3d9a7ef6ad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:50 +0000
Subject: [PATCH 09/50] fix: kfiber_mutex_lock2 must count its lock and be
 callable from the main fiber

---
 src/kfiber_sync.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 0ab8567..88ba40a 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -10,8 +10,9 @@
 //mutext
 kev_result kfiber_mutex_lock2(kfiber_mutex* mutex, KOPAQUE data, result_callback notice, void* arg)
 {
-	kassert(kfiber_self2() == NULL);
+	kassert(kfiber_is_main());
 	kmutex_lock(&mutex->lock);
+	mutex->count++;
 	if (mutex->worker < mutex->limit) {
 		mutex->worker++;
 		kmutex_unlock(&mutex->lock);
-- 
2.43.0


From c7cc634355df857c1535b87933f03bcaf54c32cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:51 +0000
Subject: [PATCH 10/50] fix: kfiber_rwlock_wunlock must not wake readers while
 holding the lock

---
 include/kfiber_sync.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/kfiber_sync.h b/include/kfiber_sync.h
index 5ee8ea5..605dce4 100644
--- a/include/kfiber_sync.h
+++ b/include/kfiber_sync.h
@@ -195,13 +195,12 @@ INLINE int kfiber_rwlock_wunlock(kfiber_rwlock* mutex) {
 	if (mutex->reader) {
 		kfiber_waiter* waiter = mutex->reader;
 		mutex->reader = NULL;
-		while (waiter) {
+		for (kfiber_waiter* it = waiter; it; it = it->next) {
 			mutex->cnt++;
-			kfiber_waiter* next = waiter->next;
-			kfiber_wakeup_waiter(waiter, 0);
-			waiter = next;
 		}
+		/* a woken reader may run at once, so never wake it while holding the lock */
 		kmutex_unlock(&mutex->lock);
+		kfiber_wakeup_all_waiter(waiter, 0);
 		return 0;
 	}
 	return __kfiber_rwlock_try_wakeup_writer(mutex);
-- 
2.43.0


From f4ec5f3bfaa9cd48fe48fc4506863857e1279d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:55 +0000
Subject: [PATCH 11/50] fix: a kcond wait must not reset a manual-reset event
 nor return on a spurious wakeup

---
 include/ksync.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/ksync.h b/include/ksync.h
index c34a859..f4acf90 100644
--- a/include/ksync.h
+++ b/include/ksync.h
@@ -55,12 +55,9 @@ INLINE void kcond_wait(kcond *cond)
 	WaitForSingleObject(cond, INFINITE);
 #else
 	kmutex_lock(&cond->mutex);
-	if (cond->ev) {
-		cond->ev = false;
-		kmutex_unlock(&cond->mutex);
-		return;
+	while (!cond->ev) {
+		pthread_cond_wait(&cond->cond, &cond->mutex);
 	}
-	pthread_cond_wait(&cond->cond, &cond->mutex);
 	if (cond->auto_reset) {
 		cond->ev = false;
 	}
@@ -73,7 +70,9 @@ INLINE bool kcond_try_wait(kcond* cond, int msec) {
 #else
 	kmutex_lock(&cond->mutex);
 	if (cond->ev) {
-		cond->ev = false;
+		if (cond->auto_reset) {
+			cond->ev = false;
+		}
 		kmutex_unlock(&cond->mutex);
 		return true;
 	}
-- 
2.43.0


From d27959cf55fa1687b6d8c2194a592d23b21db10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:39 +0000
Subject: [PATCH 12/50] loop contract hook points in fiber synchronisation and
 transfer helpers

---
 include/kfiber.h      | 16 ++++++++--------
 include/kfiber_sync.h |  2 +-
 include/ksync.h       | 10 +++++-----
 src/kfiber_sync.c     |  2 +-
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/kfiber.h b/include/kfiber.h
index 27ba431..46d1e6c 100644
--- a/include/kfiber.h
+++ b/include/kfiber.h
@@ -159,7 +159,7 @@ INLINE void kfiber_wakeup_waiter(kfiber_waiter * waiter, int got) {
 	_kfiber_wakeup_waiter(waiter, waiter->wait_obj, got);
 }
 INLINE void kfiber_wakeup_all_waiter(kfiber_waiter * waiter, int got) {
-	while (waiter) {
+	while (waiter) KGL_LOOP_CONTRACT(wakeup_all) {
 		kfiber_waiter* next = waiter->next;
 		kfiber_wakeup_waiter(waiter, got);
 		waiter = next;
@@ -194,7 +194,7 @@ INLINE int kfiber_net_write(kconnection * cn, const char* buf, int len) {
 }
 int kfiber_sendfile(kconnection * cn, kfiber_file * fp, int len);
 INLINE bool kfiber_sendfile_full(kconnection * cn, kfiber_file * fp, int* len) {
-	while (*len > 0) {
+	while (*len > 0) KGL_LOOP_CONTRACT(sendfile_full) {
 		int got = kfiber_sendfile(cn, fp, *len);
 		if (got <= 0) {
 			return false;
@@ -210,13 +210,13 @@ INLINE bool kfiber_sendfile_full(kconnection * cn, kfiber_file * fp, int* len) {
 */
 INLINE size_t kfiber_net_writev_full(kconnection * cn, kgl_iovec * buf, int* bc) {
 	size_t total_length = 0;
-	while (*bc > 0) {
+	while (*bc > 0) KGL_LOOP_CONTRACT(writev_full) {
 		int got = kfiber_net_writev(cn, buf, *bc);
 		if (got <= 0) {
 			return total_length;
 		}
 		total_length += got;
-		while (got > 0) {
+		while (got > 0) KGL_LOOP_CONTRACT(writev_full_skip) {
 			if ((int)buf->iov_len > got) {
 				buf->iov_len -= got;
 				buf->iov_base = (char*)buf->iov_base + got;
@@ -231,7 +231,7 @@ INLINE size_t kfiber_net_writev_full(kconnection * cn, kgl_iovec * buf, int* bc)
 }
 
 INLINE bool kfiber_net_write_full(kconnection * cn, const char* buf, int* len) {
-	while (*len > 0) {
+	while (*len > 0) KGL_LOOP_CONTRACT(net_write_full) {
 		int got = kfiber_net_write(cn, buf, *len);
 		if (got <= 0) {
 			return false;
@@ -267,7 +267,7 @@ INLINE int kfiber_net_read(kconnection * cn, char* buf, int len) {
 	return kfiber_net_readv(cn, &v, 1);
 }
 INLINE bool kfiber_net_read_full(kconnection * cn, char* buf, int* len) {
-	while (*len > 0) {
+	while (*len > 0) KGL_LOOP_CONTRACT(net_read_full) {
 		int got = kfiber_net_read(cn, buf, *len);
 		if (got <= 0) {
 			return false;
@@ -291,7 +291,7 @@ int64_t kfiber_file_size(kfiber_file * fp);
 int kfiber_file_read(kfiber_file * fp, char* buf, int length);
 int kfiber_file_write(kfiber_file * fp, const char* buf, int length);
 INLINE bool kfiber_file_write_full(kfiber_file * fp, const char* buf, int* length) {
-	while (*length > 0) {
+	while (*length > 0) KGL_LOOP_CONTRACT(file_write_full) {
 		int got = kfiber_file_write(fp, buf, *length);
 		if (got <= 0) {
 			return false;
@@ -302,7 +302,7 @@ INLINE bool kfiber_file_write_full(kfiber_file * fp, const char* buf, int* lengt
 	return true;
 }
 INLINE bool kfiber_file_read_full(kfiber_file * file, char* buf, int* length) {
-	while (*length > 0) {
+	while (*length > 0) KGL_LOOP_CONTRACT(file_read_full) {
 		int got = kfiber_file_read(file, buf, *length);
 		if (got <= 0) {
 			return false;
diff --git a/include/kfiber_sync.h b/include/kfiber_sync.h
index 605dce4..87fb354 100644
--- a/include/kfiber_sync.h
+++ b/include/kfiber_sync.h
@@ -195,7 +195,7 @@ INLINE int kfiber_rwlock_wunlock(kfiber_rwlock* mutex) {
 	if (mutex->reader) {
 		kfiber_waiter* waiter = mutex->reader;
 		mutex->reader = NULL;
-		for (kfiber_waiter* it = waiter; it; it = it->next) {
+		for (kfiber_waiter* it = waiter; it; it = it->next) KGL_LOOP_CONTRACT(rwlock_readers) {
 			mutex->cnt++;
 		}
 		/* a woken reader may run at once, so never wake it while holding the lock */
diff --git a/include/ksync.h b/include/ksync.h
index f4acf90..a33d494 100644
--- a/include/ksync.h
+++ b/include/ksync.h
@@ -55,7 +55,7 @@ INLINE void kcond_wait(kcond *cond)
 	WaitForSingleObject(cond, INFINITE);
 #else
 	kmutex_lock(&cond->mutex);
-	while (!cond->ev) {
+	while (!cond->ev) KGL_LOOP_CONTRACT(kcond_wait) {
 		pthread_cond_wait(&cond->cond, &cond->mutex);
 	}
 	if (cond->auto_reset) {
@@ -130,7 +130,7 @@ INLINE void krw_mutex_init(krw_mutex *mutex)
 INLINE void krw_mutex_rlock(krw_mutex *mutex)
 {
 	int32_t x;
-	for (;;) {
+	for (;;) KGL_LOOP_CONTRACT(krw_rlock) {
 		x = *mutex;
 		/* write lock is held */
 		if (x < 0) {
@@ -146,7 +146,7 @@ INLINE void krw_mutex_rlock(krw_mutex *mutex)
 }
 INLINE void krw_mutex_wlock(krw_mutex *mutex)
 {
-	for (;;) {
+	for (;;) KGL_LOOP_CONTRACT(krw_wlock) {
 		/* write lock is held */
 		if (*mutex != 0) {
 			kgl_pause();
@@ -184,14 +184,14 @@ INLINE void kwr_mutex_rlock(kwr_mutex *mutex, bool high_priority)
 		krw_mutex_rlock(&mutex->rw);
 		return;
 	}
-	while (mutex->try_write > 0) {
+	while (mutex->try_write > 0) KGL_LOOP_CONTRACT(kwr_rlock) {
 		kgl_pause();
 	}
 	krw_mutex_rlock(&mutex->rw);
 }
 INLINE void kwr_mutex_wlock(kwr_mutex *mutex)
 {
-	for (;;) {
+	for (;;) KGL_LOOP_CONTRACT(kwr_wlock) {
 		if (mutex->try_write != 0) {
 			kgl_pause();
 			continue;
diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 88ba40a..bbce22b 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -482,7 +482,7 @@ int kfiber_chan_close(kfiber_chan* ch) {
 	kfiber_waiter* waiter = ch->waiter;
 	ch->waiter = NULL;
 	ch->wait_flag = KFIBER_CHAN_NO_WAITER;
-	while (waiter) {
+	while (waiter) KGL_LOOP_CONTRACT(chan_close) {
 		assert(waiter->selector == kfiber_self2()->base.selector);
 		kfiber_waiter* next = waiter->next;
 		waiter->wait_obj = NULL;
-- 
2.43.0


From 5e9c6faea9730f963f22bf42dc9ab594ebbeb31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:47 +0000
Subject: [PATCH 13/50] fix: kfiber_net_writev_full must skip empty segments
 and compare full segment lengths

---
 include/kfiber.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/kfiber.h b/include/kfiber.h
index 46d1e6c..72a5432 100644
--- a/include/kfiber.h
+++ b/include/kfiber.h
@@ -211,13 +211,19 @@ INLINE bool kfiber_sendfile_full(kconnection * cn, kfiber_file * fp, int* len) {
 INLINE size_t kfiber_net_writev_full(kconnection * cn, kgl_iovec * buf, int* bc) {
 	size_t total_length = 0;
 	while (*bc > 0) KGL_LOOP_CONTRACT(writev_full) {
+		if (buf->iov_len == 0) {
+			/* nothing to send, a write of 0 bytes would look like an error */
+			buf++;
+			(*bc)--;
+			continue;
+		}
 		int got = kfiber_net_writev(cn, buf, *bc);
 		if (got <= 0) {
 			return total_length;
 		}
 		total_length += got;
 		while (got > 0) KGL_LOOP_CONTRACT(writev_full_skip) {
-			if ((int)buf->iov_len > got) {
+			if ((size_t)buf->iov_len > (size_t)got) {
 				buf->iov_len -= got;
 				buf->iov_base = (char*)buf->iov_base + got;
 				break;
-- 
2.43.0


From 495b372b2ecbeeb65bd5c42666f96c876417a7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:19 +0000
Subject: [PATCH 14/50] fix: a read after a read timeout must fill the new
 caller's buffer

---
 include/kfiber.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kfiber.h b/include/kfiber.h
index 72a5432..a540d6b 100644
--- a/include/kfiber.h
+++ b/include/kfiber.h
@@ -262,6 +262,8 @@ INLINE int kfiber_net_readv(kconnection * cn, kgl_iovec * buf, int bc) {
 		assert(cn->st.e[OP_READ].result == kfiber_result_callback);
 		//assert(cn->st.e[OP_READ].buffer == kfiber_buffer_callback);
 		assert(cn->st.e[OP_READ].arg == fiber);
+		/* the buffer of the timed out read is gone with its caller, the pending read must fill this one */
+		cn->st.e[OP_READ].buffer = &iovec_buf;
 		return __kfiber_wait(fiber, cn->st.data);
 	}
 	return kfiber_wait_result(fiber, selectable_read(&cn->st, kfiber_result_callback, &iovec_buf, fiber), cn->st.data);
-- 
2.43.0


From f93aeca45b245e461d8f6e7c6c2d8a0d533eed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:19 +0000
Subject: [PATCH 15/50] fix: direct file reads at end of file or with an error
 must not abort

---
 include/kasync_file.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/kasync_file.h b/include/kasync_file.h
index 3146bbb..b66edb5 100644
--- a/include/kasync_file.h
+++ b/include/kasync_file.h
@@ -75,9 +75,12 @@ INLINE int kasync_file_adjust_result(kasync_file *fp,int got)
 	if (!fp->st.direct_io) {
 		return got;
 	}	
-	assert(got>fp->st.direct_io_offset);
-	if (got < fp->st.direct_io_offset) {
-		return -1;
+	if (got < 0) {
+		return got;
+	}
+	if (got <= fp->st.direct_io_offset) {
+		/* nothing at or behind the asked offset */
+		return 0;
 	}
 	got -= fp->st.direct_io_offset;
 	return KGL_MIN(got,fp->st.direct_io_orig_length);
-- 
2.43.0


From 8cc3d52b5423927dc29ffc160ef059841160fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:19 +0000
Subject: [PATCH 16/50] fix: kfiber_file_safe_read must report failure when no
 fiber can be created

---
 src/kfiber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index 84f1c20..a5e6f2d 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -686,7 +686,7 @@ int kfiber_file_safe_read(kfiber_file * fp, char* buf, int length) {
 	kfiber* ret_fiber = NULL;
 	int ret = 0;
 	if (kfiber_create2(selector, kfiber_file_safe_read_func, &param, 0, 0, &ret_fiber) != 0) {
-		return false;
+		return -1;
 	}
 	assert(ret_fiber);
 	kfiber_join(ret_fiber, &ret);
-- 
2.43.0


From ea549fc4ef59b43d72e5c18de80c4899e24447e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:19 +0000
Subject: [PATCH 17/50] loop contract hook points in the aio completion loops,
 drop an uninitialised counter

---
 src/kepoll_selector.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 995c1d6..ad6d9a0 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -66,7 +66,7 @@ static kev_result result_aio_event(KOPAQUE data, void *arg,int got)
 	kepoll_aio_selectable *aio_st = (kepoll_aio_selectable *)arg;
 	kassert(got==0);
 	uint64_t finished_aio;
-	int i,j,r;
+	int j,r;
 	struct timespec tms;
 	if (read(aio_st->st.fd, &finished_aio, sizeof(finished_aio)) != sizeof(finished_aio)) {
 	   perror("read");
@@ -74,7 +74,7 @@ static kev_result result_aio_event(KOPAQUE data, void *arg,int got)
 	}
 	struct io_event events[MAXEVENT];
 
-	while (finished_aio > 0)  {
+	while (finished_aio > 0) KGL_LOOP_CONTRACT(aio_collect) {
 		   tms.tv_sec = 0;
 		   tms.tv_nsec = 0;
 		   int get_events = finished_aio;
@@ -83,11 +83,10 @@ static kev_result result_aio_event(KOPAQUE data, void *arg,int got)
 		   }
 		   r = io_getevents(aio_st->aio_ctx, 1, get_events, events, &tms);
 		   if (r > 0) {
-				   for (j = 0; j < r; ++j) {
+				   for (j = 0; j < r; ++j) KGL_LOOP_CONTRACT(aio_dispatch) {
 						   kasync_file *ctx = (kasync_file *)events[j].data;
 						   aio_result(ctx,(struct iocb *)events[j].obj, events[j].res, events[j].res2);
 				   }
-				   i += r;
 				   finished_aio -= r;
 		   }
 	}
-- 
2.43.0


From 1e115faab9eebe4678b38f27b05d881969f60201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 18/50] fix: a worker thread that cannot be started must be
 uncounted, not the pool pointer moved

---
 src/kasync_worker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kasync_worker.c b/src/kasync_worker.c
index 23b4767..1e0dd8b 100644
--- a/src/kasync_worker.c
+++ b/src/kasync_worker.c
@@ -109,7 +109,7 @@ static void kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bo
 	worker->worker++;
 	kasync_worker_refs(worker);
 	if (!kthread_pool_start(kasync_worker_worker_thread,worker)) {
-		worker--;
+		worker->worker--;
 		kasync_worker_release(worker);
 	}
 	return;
-- 
2.43.0


From 692b75abb43bc0a2aca3c5b4b29f90cdc08e8b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:40 +0000
Subject: [PATCH 19/50] loop contract hook points in the worker and thread
 pools

---
 src/kasync_worker.c | 2 +-
 src/kthread.c       | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kasync_worker.c b/src/kasync_worker.c
index 1e0dd8b..cfc0107 100644
--- a/src/kasync_worker.c
+++ b/src/kasync_worker.c
@@ -31,7 +31,7 @@ static void kasync_worker_param_destroy(kasync_worker_param *param)
 KTHREAD_FUNCTION kasync_worker_worker_thread(void *param)
 {
 	kasync_worker *worker = (kasync_worker *)param;
-	for (;;) {
+	for (;;) KGL_LOOP_CONTRACT(worker_thread) {
 		kasync_worker_param *rq = NULL;
 		kmutex_lock(&worker->lock);
 		if (worker->head == NULL) {
diff --git a/src/kthread.c b/src/kthread.c
index 55d8376..38676ae 100644
--- a/src/kthread.c
+++ b/src/kthread.c
@@ -85,7 +85,7 @@ static KTHREAD_FUNCTION run_thread(void *param) {
 	m_thread->run_count = 0;
 	m_thread->work(m_thread->param);
 
-	for (;;) {
+	for (;;) KGL_LOOP_CONTRACT(thread_run) {
 		m_thread->run_count++;
 		m_thread->end_time = time(NULL);
 #ifndef _WIN32
@@ -117,7 +117,7 @@ void kthread_flush(int min_free_thread) {
 	time_t now_time = time(NULL);
 	kmutex_lock(&thread_lock);
 	kgl_list *l;
-	for (;;) {
+	for (;;) KGL_LOOP_CONTRACT(thread_flush) {
 		if (free_thread_count <= min_free_thread) {
 			break;
 		}
@@ -203,7 +203,7 @@ void kthread_close_all_free()
 {
 	kthread_info *m_thread;
 	kmutex_lock(&thread_lock);
-	while (!klist_empty(&free_threads)) {
+	while (!klist_empty(&free_threads)) KGL_LOOP_CONTRACT(thread_close) {
 		kgl_list *l = klist_head(&free_threads);
 		m_thread = kgl_list_data(l, kthread_info, queue);
 		klist_remove(l);
-- 
2.43.0


From 85729b1266e7f5a306978f1845a8f7a90cd670bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 20/50] fix: a cname lookup must ask for the canonical name

---
 src/kaddr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 69ed9f3..9f0e120 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -108,6 +108,7 @@ bool get_addr(const char *hostname, kgl_addr_type addr_type, struct addrinfo **r
 	case kgl_addr_cname:
 		f.ai_family = PF_INET;
 		f.ai_flags = AI_CANONNAME;
+		break;
 	default:
 		f.ai_family = PF_UNSPEC;
 		f.ai_flags = 0;
-- 
2.43.0


From 7edd67477cf2f56a5d13bc3d7cb06165cfa2b5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 21/50] fix: keep a reference to a looked up address while its
 waiters are answered

---
 src/kaddr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 9f0e120..ccdbf25 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -230,9 +230,14 @@ static void find_addr_result(kgl_addr_node *cn, struct addrinfo *addr, bool succ
 	kgl_addr *addr2 = NULL;
 	if (addr) {
 		addr2 = kgl_addr_new(addr);
+		/* the cache may drop its references as soon as it has them */
+		kgl_addr_refs(addr2);
 	}
 	queue = update_addr_node_cache(cn, addr2);
 	addr_result(queue, addr2);
+	if (addr2) {
+		kgl_addr_release(addr2);
+	}
 }
 
 kev_result async_addr_worker(void *data, int msec)
-- 
2.43.0


From 79926accc97478f027fcb7f1c1a687cd16fa211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 22/50] fix: refreshing an address must leave a lookup in
 progress alone

---
 src/kaddr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index ccdbf25..6341fbc 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -151,6 +151,14 @@ static void update_addr_cache(kgl_addr_key *key, struct addrinfo *addr) {
 		node->data = cn;
 	} else {
 		cn = (kgl_addr_node *)node->data;
+		if (cn->prev == NULL) {
+			/* flushed and being looked up again, it is not listed yet */
+			kmutex_unlock(&addr_lock);
+			if (addr) {
+				freeaddrinfo(addr);
+			}
+			return;
+		}
 		klist_remove(cn);
 	}
 	if (cn->addr != NULL) {
-- 
2.43.0


From 4cddc28b817b005bcff2169fda8d00b894579351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 23/50] loop contract hook points in the address cache

---
 src/kaddr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kaddr.c b/src/kaddr.c
index 6341fbc..6fcda91 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -198,7 +198,7 @@ static kev_result addr_next_call(KOPAQUE data, void *arg, int len)
 }
 static void addr_result(kgl_addr_queue *queue, kgl_addr *addr) {
 	kgl_addr_queue *next;
-	while (queue) {
+	while (queue) KGL_LOOP_CONTRACT(addr_result) {
 		next = queue->next;
 		queue->addr = addr;
 		if (addr) {
@@ -381,7 +381,7 @@ kgl_addr *kgl_find_cache_addr(const char *hostname, kgl_addr_type addr_type)
 void kgl_flush_addr_cache(time_t now_time)
 {
 	kmutex_lock(&addr_lock);
-	for (;;) {
+	for (;;) KGL_LOOP_CONTRACT(addr_flush) {
 		kgl_addr_node *cn = klist_head(&addr_list);
 		if (cn == &addr_list) {
 			break;
-- 
2.43.0


From fd8918bb2e9e63c0a4fbf1a3463fe72ace309245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:13 +0000
Subject: [PATCH 24/50] fix: a socket epoll refused must not stay marked as
 registered

---
 src/kepoll_selector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index ad6d9a0..15fea9e 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -98,7 +98,7 @@ static INLINE bool epoll_add_event(int kdpfd,kselectable *st,uint16_t ev)
 	struct epoll_event event;
 	int op = EPOLL_CTL_ADD;
 	uint32_t events = 0;
-	uint16_t prev_ev = st->base.st_flags;
+	uint32_t prev_ev = st->base.st_flags;
 	if (KBIT_TEST(ev,STF_REV)) {
 		events |= EPOLLIN|EPOLLRDHUP|EPOLLET;
 		if (KBIT_TEST(prev_ev,STF_WEV)) {
@@ -124,6 +124,7 @@ static INLINE bool epoll_add_event(int kdpfd,kselectable *st,uint16_t ev)
 	int ret = epoll_ctl(kdpfd, op, sockfd, &event);
 	if (ret !=0) {
 		klog(KLOG_ERR, "epoll ctl error fd=%d,errno=%d %s\n", sockfd,errno,strerror(errno));
+		st->base.st_flags = prev_ev;
 		return false;
 	}
 	return true;
-- 
2.43.0


From 514f862ed6a7bb307557ba39db97bedcc188a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:13 +0000
Subject: [PATCH 25/50] fix: destroying a selector releases its aio context and
 eventfd

---
 src/kepoll_selector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 15fea9e..45e10ee 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -171,6 +171,8 @@ static void epoll_selector_destroy(kselector *selector)
 	kepoll_selector *es = (kepoll_selector *)selector->ctx;
 	close(es->kdpfd);
 	close(es->notice_st.st.fd);
+	io_destroy(es->aio_st.aio_ctx);
+	close(es->aio_st.st.fd);
 	xfree(es);
 }
 
-- 
2.43.0


From b4201234fa0572c045c4a1cfdd16a6f5542232fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:51 +0000
Subject: [PATCH 26/50] loop contract hook points in the epoll event loop and
 the notice queue

---
 include/kepoll_selector.h | 2 +-
 src/kepoll_selector.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kepoll_selector.h b/include/kepoll_selector.h
index 34ea6fa..521a557 100644
--- a/include/kepoll_selector.h
+++ b/include/kepoll_selector.h
@@ -21,7 +21,7 @@ INLINE void kepoll_notice_event(kepoll_notice_selectable* ast) {
 		perror("read");
 		return;
 	}
-	while (value > 0) {
+	while (value > 0) KGL_LOOP_CONTRACT(notice_drain) {
 		kmutex_lock(&ast->lock);
 		kselector_notice* notice = ast->head;
 		kassert(notice != NULL);
diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 45e10ee..79683d4 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -370,7 +370,7 @@ static int epoll_selector_select(kselector *selector,int tmo) {
 	//if (ret>0) {
 	//	printf("epoll_wait ret=[%d]\n",ret);
 	//}
-	for (int n = 0; n < ret; ++n) {
+	for (int n = 0; n < ret; ++n) KGL_LOOP_CONTRACT(epoll_events) {
 		kselectable *st = ((kselectable *) events[n].data.ptr);
 		ev = events[n].events;
 		bool in_ready_list = false;
-- 
2.43.0


From d843d25300e268e4271e8b821fc65316e3c01b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:51 +0000
Subject: [PATCH 27/50] fix: early data that is not there yet is not the end of
 the stream

---
 src/kselectable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 9c3a704..d7119d1 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -84,7 +84,7 @@ static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 					continue;
 				}
 				if (n != SSL_READ_EARLY_DATA_SUCCESS) {
-					return got;
+					return (got > 0 ? got : -1);
 				}
 				got += (int)read_bytes;
 				len -= (int)read_bytes;
-- 
2.43.0


From 35c177141689b8c8809166448a82b0d99332513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:51 +0000
Subject: [PATCH 28/50] fix: a failed TLS read or write must not be taken for a
 would-block because of an old errno

---
 src/kselectable.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index d7119d1..a90b8b0 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -21,6 +21,8 @@
 static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 {
 	int got = 0;
+	/* SSL_get_error is only reliable if the error queue was empty before */
+	ERR_clear_error();
 	for (int i = 0; i < bc; i++) {
 		char* hot = (char*)buffer[i].iov_base;
 		int len = buffer[i].iov_len;
@@ -62,6 +64,8 @@ static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 {
 	int got = 0;
+	/* SSL_get_error is only reliable if the error queue was empty before */
+	ERR_clear_error();
 	for (int i = 0; i < bc; i++) {
 		u_char* hot = (u_char*)buffer[i].iov_base;
 		int len = buffer[i].iov_len;
@@ -385,13 +389,14 @@ static inline kev_result selectable_event_write(kselectable* st, result_callback
 		kassert(st->ssl);
 		KBIT_CLR(st->base.st_flags, STF_WREADY);
 		int err = SSL_get_error(st->ssl->ssl, got);
-		if (errno == EAGAIN || err == SSL_ERROR_WANT_WRITE) {
+		if (err == SSL_ERROR_WANT_READ || err == SSL_ERROR_WANT_WRITE) {
 #ifdef ENABLE_KSSL_BIO
 			return selectable_ssl_write(st, result, buffer, arg);
 #else
 			return kgl_selector_module.write(st->base.selector, st, result, buffer, arg);
 #endif
 		}
+		return result(st->data, arg, got);
 	}
 #endif
 	if (errno == EAGAIN) {
@@ -439,7 +444,7 @@ kev_result selectable_event_read(kselectable* st, result_callback result, buffer
 		kassert(st->ssl);
 		KBIT_CLR(st->base.st_flags, STF_RREADY);
 		int err = SSL_get_error(st->ssl->ssl, got);
-		if (errno == EAGAIN || err == SSL_ERROR_WANT_READ) {
+		if (err == SSL_ERROR_WANT_READ || err == SSL_ERROR_WANT_WRITE) {
 #ifdef ENABLE_KSSL_BIO
 			return selectable_ssl_read(st, result, buffer, arg);
 #else
-- 
2.43.0


From aa4dac084b3ba6725755403d7c179a9fa1cc0ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:51 +0000
Subject: [PATCH 29/50] fix: a udp socket without packet info has no control
 buffer

---
 src/kselectable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index a90b8b0..0f56e4e 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -174,8 +174,8 @@ int selectable_recvmsg(kselectable* st)
 	msg.msg_namelen = ksocket_addr_len((sockaddr_i *)msg.msg_name);
 	msg.msg_iov = (struct iovec *)st->e[OP_READ].buffer->iov_base;
 	msg.msg_iovlen = st->e[OP_READ].buffer->iov_len;
-	msg.msg_control = c->udp->pktinfo;
 	if (c->udp) {
+		msg.msg_control = c->udp->pktinfo;
 		memset(c->udp, 0, sizeof(kudp_extend));
 		msg.msg_controllen = sizeof(c->udp->pktinfo);
 	}
-- 
2.43.0


From 1f19f720a66bd86a45942298a7e8ff246af66d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:02 +0000
Subject: [PATCH 30/50] revert the TLS would-block change: OpenSSL clears errno
 before each read and write, so errno is reliable here

---
 src/kselectable.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 0f56e4e..b201701 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -21,8 +21,6 @@
 static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 {
 	int got = 0;
-	/* SSL_get_error is only reliable if the error queue was empty before */
-	ERR_clear_error();
 	for (int i = 0; i < bc; i++) {
 		char* hot = (char*)buffer[i].iov_base;
 		int len = buffer[i].iov_len;
@@ -64,8 +62,6 @@ static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 {
 	int got = 0;
-	/* SSL_get_error is only reliable if the error queue was empty before */
-	ERR_clear_error();
 	for (int i = 0; i < bc; i++) {
 		u_char* hot = (u_char*)buffer[i].iov_base;
 		int len = buffer[i].iov_len;
@@ -389,14 +385,13 @@ static inline kev_result selectable_event_write(kselectable* st, result_callback
 		kassert(st->ssl);
 		KBIT_CLR(st->base.st_flags, STF_WREADY);
 		int err = SSL_get_error(st->ssl->ssl, got);
-		if (err == SSL_ERROR_WANT_READ || err == SSL_ERROR_WANT_WRITE) {
+		if (errno == EAGAIN || err == SSL_ERROR_WANT_WRITE) {
 #ifdef ENABLE_KSSL_BIO
 			return selectable_ssl_write(st, result, buffer, arg);
 #else
 			return kgl_selector_module.write(st->base.selector, st, result, buffer, arg);
 #endif
 		}
-		return result(st->data, arg, got);
 	}
 #endif
 	if (errno == EAGAIN) {
@@ -444,7 +439,7 @@ kev_result selectable_event_read(kselectable* st, result_callback result, buffer
 		kassert(st->ssl);
 		KBIT_CLR(st->base.st_flags, STF_RREADY);
 		int err = SSL_get_error(st->ssl->ssl, got);
-		if (err == SSL_ERROR_WANT_READ || err == SSL_ERROR_WANT_WRITE) {
+		if (errno == EAGAIN || err == SSL_ERROR_WANT_READ) {
 #ifdef ENABLE_KSSL_BIO
 			return selectable_ssl_read(st, result, buffer, arg);
 #else
-- 
2.43.0


From 73da442b4643c4fa80c9e41974358ff577667bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:28 +0000
Subject: [PATCH 31/50] loop contract hook points in the TLS transfer loops

---
 src/kselectable.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index b201701..362afce 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -21,10 +21,10 @@
 static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 {
 	int got = 0;
-	for (int i = 0; i < bc; i++) {
+	for (int i = 0; i < bc; i++) KGL_LOOP_CONTRACT(tls_write_seg) {
 		char* hot = (char*)buffer[i].iov_base;
 		int len = buffer[i].iov_len;
-		while (len > 0) {
+		while (len > 0) KGL_LOOP_CONTRACT(tls_write_more) {
 #ifdef ENABLE_KSSL_BIO
 			//ssl bio max write 64KB
 			int left = 65536 - got;
@@ -62,10 +62,10 @@ static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 {
 	int got = 0;
-	for (int i = 0; i < bc; i++) {
+	for (int i = 0; i < bc; i++) KGL_LOOP_CONTRACT(tls_read_seg) {
 		u_char* hot = (u_char*)buffer[i].iov_base;
 		int len = buffer[i].iov_len;
-		while (len > 0) {
+		while (len > 0) KGL_LOOP_CONTRACT(tls_read_more) {
 #ifdef SSL_READ_EARLY_DATA_SUCCESS
 			if (ssl->early_preread) {
 				ssl->early_preread = 0;
-- 
2.43.0


From 2393f5a8bd578143fd2876ed57445b44a30ae874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:30 +0000
Subject: [PATCH 32/50] fix: a thread that leaves its event loop forgets the
 main fiber it frees

---
 src/kfiber.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kfiber.c b/src/kfiber.c
index a5e6f2d..b6dd27b 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -178,6 +178,7 @@ kev_result kfiber_thread_init(KOPAQUE data, void* arg, int got) {
 		//exit
 		kfiber* fiber = kfiber_main();
 		if (fiber) {
+			pthread_setspecific(kgl_main_fiber_key, NULL);
 			xfree(fiber);
 		}
 		return kev_ok;
-- 
2.43.0


From 617e411ca4817f6ab4c069ff47e5b36fe52e040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:30 +0000
Subject: [PATCH 33/50] fix: the end of a fiber reaches every exit callback and
 joiner, not only one

---
 src/kfiber.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index b6dd27b..e2e38d2 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -334,7 +334,7 @@ int kfiber_exit_callback(KOPAQUE data, result_callback notice, void* arg) {
 	kfiber* fiber = kfiber_self2();
 	CHECK_FIBER(fiber);
 	if (fiber->close_cond == NULL) {
-		fiber->close_cond = kfiber_cond_init(true);
+		fiber->close_cond = kfiber_cond_init(false);
 	}
 	return fiber->close_cond->f->wait_callback(fiber->close_cond, data, notice, arg);
 }
@@ -343,9 +343,9 @@ kfiber* kfiber_ref_self(bool thread_safe) {
 	assert(fiber && !kfiber_is_main_fiber(fiber));
 	if (fiber->close_cond == NULL) {
 		if (thread_safe) {
-			fiber->close_cond = kfiber_cond_init_ts(true);
+			fiber->close_cond = kfiber_cond_init_ts(false);
 		} else {
-			fiber->close_cond = kfiber_cond_init(true);
+			fiber->close_cond = kfiber_cond_init(false);
 		}
 	}
 	katom_inc((void*)&fiber->base.ref);
-- 
2.43.0


From 803aca6378c74465c00f7c42d05ce5ba9cf2dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:30 +0000
Subject: [PATCH 34/50] fix: kfiber_join2 reports the return value of a fiber
 that has already ended

---
 src/kfiber.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index e2e38d2..0c3c21d 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -325,7 +325,13 @@ kev_result kfiber_join2(kfiber * fiber, KOPAQUE data, result_callback notice, vo
 		kfiber_release(fiber);
 		return result;
 	}
-	kev_result result = fiber->close_cond->f->wait_callback(fiber->close_cond, data, notice, arg);
+	kev_result result = kev_ok;
+	if (katom_get((void*)&fiber->close_cond->ev) > 0) {
+		/* already ended: the event does not keep the return value, the fiber does */
+		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, fiber->retval);
+	} else {
+		result = fiber->close_cond->f->wait_callback(fiber->close_cond, data, notice, arg);
+	}
 	kfiber_release(fiber);
 	return result;
 }
-- 
2.43.0


From 370cdb38f3bad2e77fa61714bf295c0b2b8d1199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:45 +0000
Subject: [PATCH 35/50] fix: a posted certificate update keeps its listener
 alive until it has run

---
 include/kserver.h |  1 +
 src/kserver.c     | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/kserver.h b/include/kserver.h
index b704511..dc496cb 100644
--- a/include/kserver.h
+++ b/include/kserver.h
@@ -60,6 +60,7 @@ typedef void (*kserver_free_opaque)(KOPAQUE data);
 
 struct kserver_selectable_s{
 	kselectable st;
+	kcountable_t refs;
 	kserver *server;
 #ifdef KSOCKET_SSL
 	kgl_ssl_ctx *ssl_ctx;
diff --git a/src/kserver.c b/src/kserver.c
index d1d2e43..c0a1e57 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -145,6 +145,7 @@ kserver_selectable *kserver_selectable_init(kserver *server, SOCKET sockfd)
 {
 	kserver_selectable *ss = (kserver_selectable *)xmalloc(sizeof(kserver_selectable));
 	memset(ss, 0, sizeof(kserver_selectable));
+	ss->refs = 1;
 	ss->server = server;
 	ss->st.fd = sockfd;
 #ifdef _WIN32
@@ -349,6 +350,14 @@ void kserver_release(kserver *server)
 	return;
 }
 
+static void kserver_selectable_release(kserver_selectable *ss)
+{
+	if (katom_dec((void *)&ss->refs) == 0) {
+		kserver *server = ss->server;
+		kserver_selectable_free(ss);
+		kserver_release(server);
+	}
+}
 void kserver_selectable_destroy(kserver_selectable *ss)
 {
 	if (ksocket_opened(ss->st.fd)) {
@@ -369,8 +378,7 @@ void kserver_selectable_destroy(kserver_selectable *ss)
 		return;
 	}
 #endif
-	kserver_release(ss->server);
-	kserver_selectable_free(ss);
+	kserver_selectable_release(ss);
 }
 #ifdef ACCEPT_SOCKET_SHUTDOWN_NO_EVENT
 kev_result kserver_selectable_next_shutdown(KOPAQUE data, void *arg,int got)
@@ -426,6 +434,7 @@ static kev_result kserver_ssl_ctx_next_update(KOPAQUE data, void *arg, int got)
 {
 	kserver_update_ssl_ctx_param *param = (kserver_update_ssl_ctx_param *)arg;
 	kserver_selectable_update_ssl_ctx(param->ss, param->ssl_ctx);
+	kserver_selectable_release(param->ss);
 	xfree(param);
 	return kev_ok;
 }
@@ -450,6 +459,7 @@ void kserver_set_ssl_ctx(kserver *server, kgl_ssl_ctx *ssl_ctx)
 			kserver_selectable_update_ssl_ctx(ss, ssl_ctx);
 		} else {
 			kserver_update_ssl_ctx_param *param = xmemory_new(kserver_update_ssl_ctx_param);
+			katom_inc((void *)&ss->refs);
 			param->ss = ss;
 			param->ssl_ctx = ssl_ctx;
 			selectable_next(&ss->st, kserver_ssl_ctx_next_update, param, 0);
-- 
2.43.0


From 81f703200643d5f2e99191912855c76728385925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:45 +0000
Subject: [PATCH 36/50] fix: a connection aborted before it is accepted does
 not end the listener

---
 src/kserver.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index c0a1e57..d53a03e 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -33,10 +33,12 @@ kev_result kselector_event_accept(KOPAQUE data, void *arg,int got)
 		//printf("ksocket_accept=[%d]\n",sockfd);
 		return ss->st.e[OP_WRITE].result(data, ss->st.e[OP_WRITE].arg,(int)sockfd);
 	}
-	if (errno==EAGAIN && !KBIT_TEST(ss->st.base.st_flags,STF_ERR)) {
+	if ((errno==EAGAIN || errno==EINTR || errno==ECONNABORTED) && !KBIT_TEST(ss->st.base.st_flags,STF_ERR)) {
 		//printf("try again\n");
 		assert(!KBIT_TEST(ss->st.base.st_flags, STF_RREADY2));
-		KBIT_CLR(ss->st.base.st_flags,STF_RREADY);
+		if (errno==EAGAIN) {
+			KBIT_CLR(ss->st.base.st_flags,STF_RREADY);
+		}
 		if (kgl_selector_module.accept(ss, ss->st.e[OP_WRITE].arg)) {
 			return kev_ok;
 		}
-- 
2.43.0


From 3e029ccedfbe70434ac496a0082b452999a7f469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:45 +0000
Subject: [PATCH 37/50] fix: one connection whose TLS session cannot be made
 does not end the listener

---
 include/kserver.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/kserver.h b/include/kserver.h
index dc496cb..13c6d4a 100644
--- a/include/kserver.h
+++ b/include/kserver.h
@@ -37,14 +37,17 @@ kev_result fn(KOPAQUE data, void *arg, int got) { \
 	assert(ss->st.base.selector == kgl_get_tls_selector());\
 	kconnection *cn = accept_result_new_connection(data,got);\
 	if (cn==NULL) {\
-		kserver_selectable_destroy(ss);\
-		return kev_ok;\
-	}\
-	selectable_bind(&cn->st, kserver_get_perfect_selector(ss));\
-	if (cn->st.base.selector!=ss->st.base.selector) {\
-		kgl_selector_module.next(cn->st.base.selector, data, user_##fn##_callback, cn, got);\
+		if (!IS_VALIDE_CONNECTION(got)) {\
+			kserver_selectable_destroy(ss);\
+			return kev_ok;\
+		}\
 	} else {\
-		user_##fn##_callback(data, cn, got);\
+		selectable_bind(&cn->st, kserver_get_perfect_selector(ss));\
+		if (cn->st.base.selector!=ss->st.base.selector) {\
+			kgl_selector_module.next(cn->st.base.selector, data, user_##fn##_callback, cn, got);\
+		} else {\
+			user_##fn##_callback(data, cn, got);\
+		}\
 	}\
 	if (!KBIT_TEST(ss->server->flags,KGL_SERVER_START) || !kserver_selectable_accept(ss, arg)) {\
 		kserver_selectable_destroy(ss); \
-- 
2.43.0


From ede51d81e895a6b045aa3fefd2d7bc40f25a236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:45 +0000
Subject: [PATCH 38/50] fix: accepting a unix connection does not read past the
 listener's address

---
 include/kserver.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/kserver.h b/include/kserver.h
index 13c6d4a..1dfeaf9 100644
--- a/include/kserver.h
+++ b/include/kserver.h
@@ -72,7 +72,15 @@ struct kserver_selectable_s{
 #ifdef ACCEPT_SOCKET_SHUTDOWN_NO_EVENT
 	volatile int32_t hold_by_next_shutdown_refs;
 #endif
+#ifdef KSOCKET_UNIX
+	//kconnection_new copies a whole struct sockaddr_un from a unix address
+	union {
+		sockaddr_i accept_addr;
+		struct sockaddr_un accept_un_addr;
+	};
+#else
 	sockaddr_i accept_addr;
+#endif
 	socklen_t addr_len;
 #ifdef _WIN32
 	char *tmp_addr_buf;
-- 
2.43.0


From 3d6bfac2f808292d29e67da3baedaa3d767b81ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:45 +0000
Subject: [PATCH 39/50] fix: a failed kserver_bind does not turn the server
 into a TLS server

---
 src/kserver.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index d53a03e..72986c2 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -218,9 +218,6 @@ bool kserver_bind(kserver *server, const char *ip, uint16_t port, kgl_ssl_ctx *s
 	if (KBIT_TEST(server->flags, KGL_SERVER_SSL) && ssl_ctx == NULL) {
 		return false;
 	}
-	if (ssl_ctx) {
-		KBIT_SET(server->flags, KGL_SERVER_SSL);
-	}
 #endif
 	if (*ip=='/') {
 #ifdef KSOCKET_UNIX	
@@ -235,6 +232,9 @@ bool kserver_bind(kserver *server, const char *ip, uint16_t port, kgl_ssl_ctx *s
 		return false;
 	}
 #ifdef KSOCKET_SSL
+	if (ssl_ctx) {
+		KBIT_SET(server->flags, KGL_SERVER_SSL);
+	}
 	kserver_set_ssl_ctx(server, ssl_ctx);
 #endif
 	if (server->addr.v4.sin_family == AF_UNIX) {
-- 
2.43.0


From 40c4d45ae0e11d6eb9c7c5365c99707d3aad17d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:45 +0000
Subject: [PATCH 40/50] fix: the address comparisons are a total order

---
 include/ksocket.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ksocket.h b/include/ksocket.h
index 434bdd2..f3d64b2 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -151,7 +151,7 @@ INLINE int ksocket_addr_compare(const sockaddr_i *a, const sockaddr_i *b)
 	}
 	if (a->v4.sin_family == PF_INET)
 #endif
-	return (int)a->v4.sin_addr.s_addr - (int)b->v4.sin_addr.s_addr;
+	return (a->v4.sin_addr.s_addr > b->v4.sin_addr.s_addr) - (a->v4.sin_addr.s_addr < b->v4.sin_addr.s_addr);
 #ifdef KSOCKET_IPV6
 	return memcmp(&a->v6.sin6_addr, &b->v6.sin6_addr, sizeof(a->v6.sin6_addr));
 #endif
@@ -191,11 +191,11 @@ INLINE int ksocket_ipaddr_compare(ip_addr *a, ip_addr *b)
 		return ret;
 	}
 	if (a->sin_family == PF_INET) {
-		return (int)a->addr32[0] - (int)b->addr32[0];
+		return (a->addr32[0] > b->addr32[0]) - (a->addr32[0] < b->addr32[0]);
 	}
 	return memcmp(a->addr8, b->addr8, sizeof(a->addr8));
 #else
-	return (int)*a - (int)*b;
+	return (*a > *b) - (*a < *b);
 #endif
 }
 INLINE int ksocket_addr_len(const sockaddr_i *addr) {
-- 
2.43.0


From 55ecc1cddfd082b77d885834e0897008693a96be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:09 +0000
Subject: [PATCH 41/50] fix: a long unix path is cut, not left without its end

---
 src/ksocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ksocket.c b/src/ksocket.c
index 3231654..c5dfb47 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -242,7 +242,7 @@ SOCKET ksocket_listen(const sockaddr_i* addr, int flag) {
 int ksocket_unix_addr(const char* path, struct sockaddr_un* addr) {
 	memset(addr, 0, sizeof(struct sockaddr_un));
 	addr->sun_family = AF_UNIX;
-	strncpy(addr->sun_path, path, sizeof(addr->sun_path));
+	strncpy(addr->sun_path, path, sizeof(addr->sun_path) - 1);
 	return 0;
 }
 #endif
-- 
2.43.0


From 9c8c4957185b1e6f726128152c67a05cb3fe8e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:09 +0000
Subject: [PATCH 42/50] fix: ksocket_is_block is true for blocking sockets

---
 include/ksocket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ksocket.h b/include/ksocket.h
index f3d64b2..70d5537 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -267,7 +267,7 @@ INLINE bool ksocket_is_block(SOCKET sockfd) {
 	return false;
 #else
 	int flags = fcntl(sockfd, F_GETFL, 0);
-	return (flags & O_NONBLOCK) > 0;
+	return (flags & O_NONBLOCK) == 0;
 #endif
 }
 void ksocket_startup();
-- 
2.43.0


From a9d5c1608a2be771f19b3447331b2f32884d702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:55 +0000
Subject: [PATCH 43/50] fix: waiting for a socket above FD_SETSIZE does not
 write past an fd_set

---
 src/ksocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ksocket.c b/src/ksocket.c
index c5dfb47..0a952ce 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -307,7 +307,7 @@ bool wait_socket_event(SOCKET sockfd, bool is_write, int tmo) {
 	if (tmo <= 0) {
 		return true;
 	}
-#ifdef HAVE_POLL
+#ifndef _WIN32
 	struct pollfd poll_list;
 	poll_list.fd = sockfd;
 	if (is_write) {
-- 
2.43.0


From c254b8431c272d0fa6d5ee820d4316aa953c1832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:55 +0000
Subject: [PATCH 44/50] hook: loop contracts for the walks over a server's
 listeners (KGL_LOOP_CONTRACTS)

---
 src/kserver.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index 72986c2..f02768a 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -417,7 +417,7 @@ void kserver_close(kserver* server)
 		selectable_next(&ss->st, kserver_selectable_next_shutdown, ss, 0);
 	}
 #else
-	klist_foreach(pos, &server->ss) {
+	klist_foreach(pos, &server->ss) KGL_LOOP_CONTRACT(server_close) {
 		kserver_selectable* ss = kgl_list_data(pos, kserver_selectable, queue);
 		selectable_shutdown(&ss->st);
 	}
@@ -452,7 +452,7 @@ void kserver_set_ssl_ctx(kserver *server, kgl_ssl_ctx *ssl_ctx)
 	server->ssl_ctx = ssl_ctx;
 	kmutex_lock(&server->ss_lock);
 	kgl_list* pos;
-	klist_foreach(pos, &server->ss) {
+	klist_foreach(pos, &server->ss) KGL_LOOP_CONTRACT(server_set_ctx) {
 		kserver_selectable* ss = kgl_list_data(pos, kserver_selectable, queue);	
 		if (ssl_ctx) {
 			kgl_add_ref_ssl_ctx(ssl_ctx);
-- 
2.43.0


From 43502300748060224ffd3cc934e2c02065a79296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:40 +0000
Subject: [PATCH 45/50] fix: the destination of an IPv6 datagram is reported,
 and never from uninitialised memory

---
 src/kselectable.c | 4 ++--
 src/kudp.c        | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 362afce..167bd37 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -171,9 +171,9 @@ int selectable_recvmsg(kselectable* st)
 	msg.msg_iov = (struct iovec *)st->e[OP_READ].buffer->iov_base;
 	msg.msg_iovlen = st->e[OP_READ].buffer->iov_len;
 	if (c->udp) {
-		msg.msg_control = c->udp->pktinfo;
+		msg.msg_control = c->udp->pkt6info;
 		memset(c->udp, 0, sizeof(kudp_extend));
-		msg.msg_controllen = sizeof(c->udp->pktinfo);
+		msg.msg_controllen = sizeof(c->udp->pkt6info);
 	}
 	return recvmsg(st->fd, &msg, 0);
 }
diff --git a/src/kudp.c b/src/kudp.c
index 9502dcf..b4f8b45 100644
--- a/src/kudp.c
+++ b/src/kudp.c
@@ -82,8 +82,14 @@ kconnection* kudp_new2(int flags, kselector* st)
 		setsockopt(uc->st.fd, IPPROTO_IP, IP_SENDSRCADDR, (const char*)&n, sizeof(int));
 #else
 		setsockopt(uc->st.fd, IPPROTO_IP, IP_PKTINFO, (const char*)&n, sizeof(int));
+#endif
+#ifdef IPV6_RECVPKTINFO
+		if (domain == PF_INET6) {
+			setsockopt(uc->st.fd, IPPROTO_IPV6, IPV6_RECVPKTINFO, (const char*)&n, sizeof(int));
+		}
 #endif
 		uc->udp = xmemory_new(kudp_extend);
+		memset(uc->udp, 0, sizeof(kudp_extend));
 	}
 	selectable_bind(&uc->st, st);
 	return uc;
-- 
2.43.0


From 09a284bccc7db1fb0c5ee1779230a626f48aa872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:39 +0000
Subject: [PATCH 46/50] fix: growing the loops before selector_manager_init
 fails instead of crashing

---
 src/kselector_manager.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 34e34fb..2366d51 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -241,7 +241,7 @@ static int kgl_pow2(int size, int max_bits) {
 	return result;
 }
 bool selector_manager_grow(int  new_size) {
-	if (!kgl_selector_module.name) {
+	if (!is_selector_manager_init()) {
 		fprintf(stderr, "call selector_manager_init first.\n");
 		return false;
 	}
-- 
2.43.0


From 9f6d97e7b7305900bea1454e558b843838d740ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:39 +0000
Subject: [PATCH 47/50] fix: added loops have the configured timeouts, as the
 first one

---
 src/kselector_manager.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 2366d51..083194f 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -259,6 +259,8 @@ bool selector_manager_grow(int  new_size) {
 	for (int i = kgl_selector_count; i < new_size; i++) {
 		kgl_selectors[i] = kselector_new(NULL);
 		kgl_selectors[i]->sid = i;
+		kgl_selectors[i]->timeout[KGL_LIST_CONNECT] = kgl_selectors[0]->timeout[KGL_LIST_CONNECT];
+		kgl_selectors[i]->timeout[KGL_LIST_RW] = kgl_selectors[0]->timeout[KGL_LIST_RW];
 		kselector_start(kgl_selectors[i]);
 	}
 	kgl_selector_count = new_size;
-- 
2.43.0


From 7bbb2a3c975c721aacd2954ac3317facb42ea62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:39 +0000
Subject: [PATCH 48/50] fix: closed loops are not handed out after
 selector_manager_close

---
 src/kselector_manager.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 083194f..608b632 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -164,6 +164,9 @@ void selector_manager_close()
 		}
 	}
 	xfree(kgl_selectors);
+	kgl_selectors = NULL;
+	kgl_selector_count = 0;
+	kgl_selector_hash = 0;
 }
 void selector_manager_start(void(*time_hook)(),bool thread)
 {
-- 
2.43.0


From 556e70f4373aaa4cc73f34ed5bd2c795e25aee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:39 +0000
Subject: [PATCH 49/50] fix: the random seed of a loop is computed without
 signed overflow

---
 src/kselector_manager.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 608b632..559d6cf 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -43,7 +43,7 @@ static kgl_selector_manager_callback *thread_init = NULL;
 extern void(*kgl_second_change_hook)();
 void kselector_init(kselector* selector)
 {
-	srand((unsigned)(time(NULL) * (int64_t)pthread_self()));
+	srand((unsigned)time(NULL) * (unsigned)(uintptr_t)pthread_self());
 	pthread_setspecific(kgl_selector_key, selector);
 	selector->thread_id = pthread_self();
 	kgl_selector_manager_callback* cb = thread_init;
-- 
2.43.0


From 03a27f3318f340fd60c2e4d64dcd860faa7acacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:39 +0000
Subject: [PATCH 50/50] hook: loop contracts for the callback lists of the loop
 manager (KGL_LOOP_CONTRACTS)

---
 src/kselector_manager.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 559d6cf..64b68ef 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -47,7 +47,7 @@ void kselector_init(kselector* selector)
 	pthread_setspecific(kgl_selector_key, selector);
 	selector->thread_id = pthread_self();
 	kgl_selector_manager_callback* cb = thread_init;
-	while (cb) {
+	while (cb) KGL_LOOP_CONTRACT(thread_start) {
 		cb->call_back(NULL, cb->arg, 0);
 		cb = cb->next;
 	}
@@ -55,7 +55,7 @@ void kselector_init(kselector* selector)
 void kselector_exit(kselector* selector)
 {
 	kgl_selector_manager_callback* cb = thread_init;
-	while (cb) {
+	while (cb) KGL_LOOP_CONTRACT(thread_end) {
 		cb->call_back(NULL, cb->arg, 1);
 		cb = cb->next;
 	}
@@ -288,7 +288,7 @@ void selector_manager_init(int  size, bool register_thread_timer)
 	}
 	selector_manager_set_timeout(60, 60);
 	//call onReadyList
-	while (on_ready_list) {
+	while (on_ready_list) KGL_LOOP_CONTRACT(on_ready) {
 		kgl_selector_module.next(get_perfect_selector(), NULL, on_ready_list->call_back, on_ready_list->arg, 0);
 		kgl_selector_manager_callback *next = on_ready_list->next;
 		free(on_ready_list);
@@ -335,7 +335,7 @@ kselector *get_selector_by_index(int index)
 kselector *get_perfect_selector()
 {
 	unsigned i = kgl_selector_index;
-	for (int j = 0; j < kgl_selector_count; j++, i++) {
+	for (int j = 0; j < kgl_selector_count; j++, i++) KGL_LOOP_CONTRACT(perfect) {
 		kselector *selector = kgl_selectors[i & kgl_selector_hash];
 		kselector *next_selector = kgl_selectors[(i + 1) & kgl_selector_hash];
 		if (selector->count < next_selector->count + 64) {
-- 
2.43.0

