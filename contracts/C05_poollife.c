//@assume malloc/memalign succeed and return fresh storage
//@assume a cleanup handler does not itself register handlers or allocate from the dying pool
//@ob H_end kind=bounded bound="<=3 blocks, <=3 large allocations, <=3 cleanup handlers" unwind=5 fn=kgl_destroy_pool,kgl_reset_pool
//@ob H_cleanup_add kind=bounded bound="<=3 handlers already registered" unwind=5 fn=kgl_cleanup_add,kgl_cleanup_insert,kgl_cleanup_set_data,kgl_cleanup_get_data
#include "pool_common.h"
static void *ran[8]; static int nran; static bool freed_before;
static void *A[3];
static void note(void *d) {
	V_CHECK(nran < 8, "handlers run at most once each"); ran[nran++] = d;
	for (int i = 0; i < 3; i++) if (A[i] && v_times_freed(A[i])) freed_before = true;
	for (int i = 0; i < NB; i++) if (i < nb && v_times_freed(blk[i])) freed_before = true;
}
static void h1(void *d) { note(d); }
static void h2(void *d) { note(d); }
static void h3(void *d) { note(d); }
void H_end(void) {
	build(NB); nran = 0; freed_before = false; v_nfreed = 0;
	int nl = V_IN(int, 0, 3), nc = V_IN(int, 0, 3);
	kgl_pool_large_t *L[3]; kgl_cleanup_t *C[3]; bool on[3]; char tag[3];
	for (int i = 2; i >= 0; i--) {
		A[i] = NULL;
		if (i >= nl) continue;
		L[i] = (kgl_pool_large_t *)v_alloc(sizeof *L[i]); A[i] = V_BOOL() ? v_alloc(1) : NULL;
		L[i]->alloc = A[i]; L[i]->next = P->large; P->large = L[i];
	}
	for (int i = 2; i >= 0; i--) {
		if (i >= nc) continue;
		C[i] = (kgl_cleanup_t *)v_alloc(sizeof *C[i]); on[i] = V_BOOL();
		C[i]->handler = on[i] ? h1 : NULL; C[i]->data = &tag[i]; C[i]->next = P->cleanup; P->cleanup = C[i];
	}
	bool reset = V_BOOL();
	if (reset) kgl_reset_pool(P); else kgl_destroy_pool(P);
	V_REACH("end");
	int k = 0;
	for (int i = 0; i < 3; i++) if (i < nc && on[i]) { V_CHECK(k < nran && ran[k] == &tag[i], "handlers run once each, newest first, with their data"); k++; }
	V_CHECK(nran == k, "nothing else is run");
	V_CHECK(!freed_before, "handlers run while all pool memory is still valid");
	for (int i = 0; i < 3; i++) if (A[i]) V_CHECK(v_times_freed(A[i]) == 1, "every separately allocated region is released exactly once");
	for (int i = 0; i < NB; i++) if (i < nb) V_CHECK(v_times_freed(blk[i]) == (reset ? 0 : 1), "destroy releases every block exactly once, reset keeps them");
	int tot = reset ? 0 : nb; for (int i = 0; i < 3; i++) if (A[i]) tot++;
	V_CHECK(v_nfreed == tot, "nothing foreign is released");
	if (reset) {
		V_CHECK(P->cleanup == NULL && P->large == NULL, "nothing is left to clean up a second time");
		bool cur = false;
		for (int i = 0; i < NB; i++) if (i < nb) {
			if (P->current == blk[i]) cur = true;
			V_CHECK(blk[i]->d.next == (i + 1 < nb ? blk[i + 1] : NULL) && blk[i]->d.end == (char *)blk[i] + PS, "blocks stay linked, ends fixed");
			V_CHECK(blk[i]->d.last >= (char *)blk[i] + (i ? sizeof(kgl_pool_data_t) : sizeof(kgl_pool_t)) && blk[i]->d.last <= blk[i]->d.end, "space is reclaimed without eating the block header");
			V_CHECK(blk[i]->d.last <= (char *)blk[i] + sizeof(kgl_pool_t), "space is reclaimed");
		}
		V_CHECK(cur && P->current == P, "allocation restarts at the first block");
		void *m = kgl_pnalloc(P, P->max);
		V_CHECK(m == (char *)P + sizeof(kgl_pool_t), "a reset pool has a whole first block to give");
	}
}
void H_cleanup_add(void) {
	build(1); nran = 0; v_nfreed = 0; for (int i = 0; i < 3; i++) A[i] = NULL;
	int nc = V_IN(int, 0, 3); kgl_cleanup_t *C[3]; int hk[3]; char tag[4];
	kgl_cleanup_f H[3]; H[0] = h1; H[1] = h2; H[2] = h3;
	for (int i = 2; i >= 0; i--) {
		if (i >= nc) continue;
		C[i] = (kgl_cleanup_t *)v_alloc(sizeof *C[i]); hk[i] = V_IN(int, 0, 2);
		C[i]->handler = H[hk[i]]; C[i]->data = &tag[i]; C[i]->next = P->cleanup; P->cleanup = C[i];
	}
	kgl_cleanup_t *head0 = P->cleanup; int w = V_IN(int, 0, 2); bool ins = V_BOOL();
	kgl_cleanup_t *c = ins ? kgl_cleanup_insert(P, H[w]) : kgl_cleanup_add(P, H[w], &tag[3]);
	V_REACH("add");
	int first = -1; for (int i = 2; i >= 0; i--) if (i < nc && hk[i] == w) first = i;
	V_CHECK(c != NULL && c->handler == H[w], "a registration for the handler is returned");
	if (ins && first >= 0) V_CHECK(c == C[first] && P->cleanup == head0, "an already registered handler is not registered twice");
	else {
		V_CHECK(P->cleanup == c && c->next == head0, "a new registration goes in front");
		V_CHECK(kgl_cleanup_get_data(c) == (ins ? NULL : &tag[3]), "with its data");
	}
	for (int i = 0; i < 3; i++) if (i < nc) V_CHECK(C[i]->handler == H[hk[i]] && C[i]->data == &tag[i] && C[i]->next == (i + 1 < nc ? C[i + 1] : NULL), "other registrations kept");
	kgl_cleanup_set_data(c, &tag[0]); V_CHECK(kgl_cleanup_get_data(c) == &tag[0] && c->handler == H[w], "data is replaceable");
}
