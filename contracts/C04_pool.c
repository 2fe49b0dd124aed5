//@assume malloc/memalign succeed and return fresh storage (memalign modelled by malloc, alignment of object bases is given)
//@ob H_create kind=proof unwind=2 fn=kgl_create_pool
//@ob H_palloc kind=bounded bound="pools of <=3 blocks" unwind=5 fn=kgl_palloc,kgl_pnalloc
//@ob H_large kind=bounded bound="pools of 1 block, <=5 large allocations" unwind=7 fn=kgl_palloc,kgl_pmemalign
//@ob H_pfree kind=bounded bound="<=4 large allocations" unwind=7 fn=kgl_pfree
#include "pool_common.h"
void H_create(void) {
	kgl_pagesize = V_IN(unsigned, 1, 65536);
	size_t size = V_IN(size_t, sizeof(kgl_pool_t), sizeof(blk_t)); v_ma_calls = 0;
	kgl_pool_t *p = kgl_create_pool(size);
	V_REACH("create");
	V_CHECK(p->d.last == (char *)p + sizeof(kgl_pool_t) && p->d.end == (char *)p + size && p->d.next == NULL && p->d.failed == 0, "an empty block of the size asked for");
	V_CHECK(p->current == p && p->large == NULL && p->cleanup == NULL, "no large allocation, no cleanup");
	V_CHECK(p->max <= size - sizeof(kgl_pool_t), "small requests fit a block");
	V_CHECK(v_ma_calls == 1 && v_ma_size == size, "storage is really there");
}
void H_palloc(void) {
	build(NB);
	size_t size = V_IN(size_t, 0, sizeof(blk_t)); V_ASSUME(size <= P->max);
	bool al = V_BOOL();
	kgl_pool_t *cur0 = P->current;
	size_t max0 = P->max; char *end0 = P->d.end;
	char *m = (char *)(al ? kgl_palloc(P, size) : kgl_pnalloc(P, size));
	V_REACH("palloc");
	V_CHECK(m != NULL, "allocation succeeds");
	V_CHECK(V_IMPLIES(al, ((uintptr_t)m & (sizeof(unsigned long) - 1)) == 0), "aligned request is aligned");
	V_CHECK(P->max == max0 && P->large == NULL && P->cleanup == NULL && P->d.end == end0, "pool bookkeeping kept");
	bool fresh = true;
	for (int i = 0; i < NB; i++) {
		if (i >= nb) break;
		if (V_IN_OBJ(m, blk[i], sizeof(blk_t))) {
			fresh = false;
			V_CHECK(m >= old_last[i], "region is disjoint from everything handed out before");
			V_CHECK((size_t)((char *)blk[i] + PS - m) >= size, "region ends inside the block");
			V_CHECK(blk[i]->d.last == m + size, "region is accounted for");
		} else V_CHECK(blk[i]->d.last == old_last[i], "other blocks untouched");
		V_CHECK(blk[i]->d.end == (char *)blk[i] + PS, "block end fixed");
		if (i + 1 < nb) V_CHECK(blk[i]->d.next == blk[i + 1], "existing blocks stay linked in order");
	}
	kgl_pool_t *tail = blk[nb - 1]->d.next;
	V_CHECK((tail != NULL) == fresh, "a block is added exactly when none has room");
	if (fresh && tail) {
		V_CHECK(tail->d.end == (char *)tail + PS && tail->d.next == NULL && tail->d.failed == 0, "new block well formed");
		V_CHECK(V_IN_OBJ(m, tail, sizeof(blk_t)) && m >= (char *)tail + sizeof(kgl_pool_data_t) && (size_t)(tail->d.end - m) >= size && tail->d.last == m + size, "region lies in the new block and is accounted for");
		V_CHECK(v_ma_calls == 1 && v_ma_size == PS, "new block has the size its end claims");
	}
	bool curok = false;
	for (int i = 0; i < NB; i++) if (i < nb && P->current == blk[i]) curok = true;
	V_CHECK(curok || P->current == tail, "search start stays in the chain");
	(void)cur0;
}
void H_large(void) {
	build(1);
	/* up to 5 large allocations, some already released */
	kgl_pool_large_t *L[5]; void *A[5]; int nl = V_IN(int, 0, 5);
	for (int i = 4; i >= 0; i--) {
		if (i >= nl) continue;
		L[i] = (kgl_pool_large_t *)v_alloc(sizeof *L[i]); A[i] = V_BOOL() ? v_alloc(1) : NULL;
		L[i]->alloc = A[i]; L[i]->next = P->large; P->large = L[i];
	}
	kgl_pool_large_t *head0 = P->large;
	bool ma = V_BOOL();
	size_t size = V_IN(size_t, 1, 0x100000); V_ASSUME(ma || size > P->max);
	void *m = ma ? kgl_pmemalign(P, size, 512) : V_BOOL() ? kgl_palloc(P, size) : kgl_pnalloc(P, size);
	V_REACH("large");
	V_CHECK(m != NULL && V_RW_OK(m, size), "the whole region is usable");
	int seen = 0;
	if (P->large != head0) { V_CHECK(P->large->alloc == m && P->large->next == head0, "a new record is put in front"); seen++; }
	for (int i = 0; i < 5; i++) {
		if (i >= nl) continue;
		V_CHECK(L[i]->next == (i + 1 < nl ? L[i + 1] : NULL), "records stay linked");
		if (L[i]->alloc == m) { seen++; V_CHECK(A[i] == NULL, "only an unused record is reused"); }
		else V_CHECK(L[i]->alloc == A[i], "other records keep their allocation");
	}
	V_CHECK(seen == 1, "the region is recorded exactly once, so it is released exactly once");
}
void H_pfree(void) {
	build(1);
	kgl_pool_large_t *L[4]; void *A[4]; int nl = V_IN(int, 0, 4);
	for (int i = 3; i >= 0; i--) {
		if (i >= nl) continue;
		L[i] = (kgl_pool_large_t *)v_alloc(sizeof *L[i]); A[i] = V_BOOL() ? v_alloc(1) : NULL;
		L[i]->alloc = A[i]; L[i]->next = P->large; P->large = L[i];
	}
	int w = V_IN(int, 0, 4); char other;
	void *p = w < nl && A[w] ? A[w] : &other;
	bool r = kgl_pfree(P, p);
	V_REACH("pfree");
	V_CHECK(r == (p != &other), "reports whether it was a separately allocated region");
	for (int i = 0; i < 4; i++) if (i < nl) {
		V_CHECK(L[i]->alloc == (A[i] == p ? NULL : A[i]), "only the given region is forgotten");
		if (A[i]) V_CHECK(v_times_freed(A[i]) == (A[i] == p ? 1 : 0), "only the given region is released, once");
	}
}
