//@assume malloc/memalign succeed and return fresh storage
//@ob M_push kind=bounded bound="arrays of <=8 elements of 8 bytes" unwind=4 fn=kgl_array_push,kgl_array_push_n calls=kgl_palloc:c_palloc fallback=H_push
//@ob M_push3 kind=bounded bound="arrays of <=8 elements of 3 bytes" unwind=4 fn=kgl_array_push,kgl_array_push_n calls=kgl_palloc:c_palloc fallback=H_push defs=-DES=3
//@ob H_push kind=bounded bound="pools of 1 block, arrays of <=8 elements of 8 bytes" unwind=4 tier=fallback timeout=700 fn=kgl_array_push,kgl_array_push_n
//@ob H_create kind=bounded bound="pools of 1 block, <=8 elements of 8 bytes" unwind=3 fn=kgl_array_create,kgl_array_init
//@ob H_destroy kind=bounded bound="pools of 1 block, <=8 elements of 8 bytes" unwind=3 fn=kgl_array_destroy
#define V_WCOPY_OBJ 1
#include "v.h"
#undef kgl_memcpy
#define CAP 96
#ifndef ES
#define ES 8
#endif
#include "kmalloc.h"
#undef kgl_memcpy
#define kgl_memcpy v_wcopy
#include "pool_common.h"
static kgl_array_t *a; static size_t es, cap, ne; static int where;
/* an arbitrary array in an arbitrary pool; its storage sits at the end of the pool's used space, earlier in it, or in a
 * separate allocation */
#define ROOM 96
static char *data;
static void arr(void) {
	/* the array only sees a pool's header and the window of its first block */
	kgl_pagesize = V_IN(unsigned, 1, 65536);
	P = (kgl_pool_t *)v_alloc(sizeof *P); data = (char *)v_alloc(ROOM + 128);
	size_t used = V_IN(size_t, 0, ROOM), cap0 = V_IN(size_t, 0, ROOM); V_ASSUME(used <= cap0);
	P->d.end = data + cap0; P->d.last = data + used; P->d.next = NULL; P->d.failed = 0;
	P->max = cap0 < kgl_pagesize - 1 ? cap0 : kgl_pagesize - 1; P->current = P; P->large = NULL; P->cleanup = NULL;
	es = ES; cap = V_IN(size_t, 0, 8); ne = V_IN(size_t, 0, 8); V_ASSUME(ne <= cap);
	a = (kgl_array_t *)v_alloc(sizeof *a);
	a->size = es; a->nalloc = cap; a->nelts = ne; a->pool = P;
	where = V_IN(int, 0, 2);
	if (where == 2) a->elts = v_alloc(ES * 8);
	else if (where == 0) { V_ASSUME(es * cap <= used); a->elts = P->d.last - es * cap; }
	else { size_t off = V_IN(size_t, 0, ROOM); V_ASSUME(off <= used && es * cap <= used - off); a->elts = data + off; }
}
/* contract of kgl_palloc, decided in C04: a fresh region, inside a block and accounted for, or a separate allocation */
void *c_palloc(kgl_pool_t *p, size_t size) {
	V_CHECK(p == P, "the array's own pool");
	if (V_BOOL()) {
		char *m = P->d.last + V_IN(size_t, 0, 7);
		V_ASSUME(m <= P->d.end && (size_t)(P->d.end - m) >= size);
		P->d.last = m + size;
		return m;
	}
	V_ASSUME(size <= 256); return v_alloc(256);
}
void M_push(void);
void M_push3(void) { M_push(); }
void H_push(void) { M_push(); }
void M_push(void) {
	arr();
	size_t n = V_IN(size_t, 0, 8); bool one = V_BOOL(); if (one) n = 1;
	size_t K = V_IN(size_t, 0, 127); V_ASSUME(K == 0 || K < ne * es); bool have = K < ne * es;
	if (have) V_WITNESS(0, (char *)a->elts + K);
	char v = have ? ((char *)a->elts)[K] : 0; char *last0 = P->d.last, *elts0 = (char *)a->elts; char *end0 = P->d.end;
	size_t max0 = P->max; (void)max0;
	char *e = (char *)(one ? kgl_array_push(a) : kgl_array_push_n(a, n));
	V_REACH("push");
	V_CHECK(e != NULL, "succeeds");
	V_CHECK(a->nelts == ne + n && a->size == es && a->pool == P && a->nalloc >= a->nelts, "element count grows by exactly the number asked for, capacity covers it");
	V_CHECK(e == (char *)a->elts + ne * es, "the new elements follow the existing ones");
	V_CHECK(!have || ((char *)a->elts)[K] == v, "existing elements are preserved");
	V_CHECK(n == 0 || (V_RW_OK(e, n * es) && (!V_IN_OBJ(e, data, ROOM) || e + n * es <= end0)), "the new elements are usable storage");
	V_CHECK(P->d.last >= last0 && P->d.last <= end0, "pool stays within its block");
	if ((char *)a->elts == elts0) {
		if (where == 1 && ne + n > cap) V_CHECK(elts0 + cap * es == last0, "grown in place only when nothing follows it");
		if (a->nalloc != cap) V_CHECK(P->d.last == elts0 + a->nalloc * es, "space grown into is accounted for");
		else V_CHECK(P->d.last == last0, "no space taken");
	} else {
		if (V_IN_OBJ((char *)a->elts, data, ROOM))
			V_CHECK((char *)a->elts >= last0 && (char *)a->elts + a->nalloc * es <= P->d.last, "moved storage is fresh and accounted for");
	}
	
}
void H_create(void) {
	build(1);
	es = ES; size_t n = V_IN(size_t, 0, 8);
	char *last0 = P->d.last;
	kgl_array_t st; bool ini = V_BOOL();
	if (ini) { V_CHECK(kgl_array_init(&st, P, n, es), "init succeeds"); a = &st; }
	else a = kgl_array_create(P, n, es);
	V_REACH("create");
	V_CHECK(a && a->nelts == 0 && a->nalloc == n && a->size == es && a->pool == P, "an empty array of the capacity asked for");
	V_CHECK(n == 0 || V_RW_OK(a->elts, n * es), "its storage is usable");
	if (n && V_IN_OBJ((char *)a->elts, P, sizeof(blk_t))) V_CHECK((char *)a->elts >= last0 && (char *)a->elts + n * es <= P->d.last && P->d.last <= P->d.end, "its storage is fresh and accounted for");
	if (!ini && V_IN_OBJ((char *)a, P, sizeof(blk_t)) && n && V_IN_OBJ((char *)a->elts, P, sizeof(blk_t)))
		V_CHECK((char *)(a + 1) <= (char *)a->elts || (char *)a->elts + n * es <= (char *)a, "descriptor and storage do not overlap");
}
void H_destroy(void) {
	arr();
	char *last0 = P->d.last, *elts0 = (char *)a->elts; size_t sz = es * cap;
	kgl_array_destroy(a);
	V_REACH("destroy");
	if (sz && where != 2 && elts0 + sz == last0) V_CHECK(P->d.last == elts0, "storage at the end of the pool is handed back");
	else V_CHECK(P->d.last == last0, "other storage is left alone");
}
