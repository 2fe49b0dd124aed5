/* the real pool allocator with its system allocator observed; included by the pool contracts */
#include "v.h"
#include "kmalloc.h"
#ifndef CAP
#define CAP 200
#endif
/* blocks live in objects of constant size CAP+header; the pool is told a size PS <= that, and every region is checked
 * against PS explicitly */
typedef struct { kgl_pool_t h; char data[CAP]; } blk_t;
static size_t v_ma_size, v_ma_align; static int v_ma_calls;
static void *v_memalign(size_t a, size_t n) {
	v_ma_size = n; v_ma_align = a; v_ma_calls++;
	V_CHECK(a != 0 && (a & (a - 1)) == 0, "alignment is a power of two");
	V_ASSUME(n <= sizeof(blk_t));
	return v_alloc(sizeof(blk_t));
}
#undef kgl_memalign
#define kgl_memalign v_memalign
#undef xfree
#define xfree v_free
#define free v_free
#include "src/kmalloc.c"
#define NB 3
static kgl_pool_t *P; static kgl_pool_t *blk[NB]; static int nb; static size_t PS;
static char *old_last[NB]; static unsigned old_failed[NB];
/* an arbitrary pool: nb blocks of PS bytes, arbitrary fill, arbitrary current block */
static void build(int maxb) {
	nb = V_IN(int, 1, maxb);
	PS = V_IN(size_t, sizeof(kgl_pool_t), sizeof(blk_t)); v_ma_calls = 0;
	kgl_pagesize = V_IN(unsigned, 1, 65536);
	for (int i = 0; i < NB; i++) {
		if (i >= nb) break;
		blk[i] = &((blk_t *)v_alloc(sizeof(blk_t)))->h;
		blk[i]->d.end = (char *)blk[i] + PS;
		size_t used = V_IN(size_t, i == 0 ? sizeof(kgl_pool_t) : sizeof(kgl_pool_data_t), sizeof(blk_t)); V_ASSUME(used <= PS);
		blk[i]->d.last = (char *)blk[i] + used;
		blk[i]->d.failed = V_IN(unsigned, 0, 100);
		blk[i]->d.next = NULL;
		if (i) blk[i - 1]->d.next = blk[i];
		old_last[i] = blk[i]->d.last; old_failed[i] = blk[i]->d.failed;
	}
	P = blk[0];
	size_t sz = PS - sizeof(kgl_pool_t);
	P->max = sz < kgl_pagesize - 1 ? sz : kgl_pagesize - 1;
	int c = V_IN(int, 0, NB - 1); V_ASSUME(c < nb);
	P->current = blk[c];
	P->large = NULL; P->cleanup = NULL;
}
