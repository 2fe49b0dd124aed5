//@assume segment lengths and their total stay below 2^30 (lengths are int in this API)
//@ob H_iovec_seek kind=bounded bound="<=4 segments of any length" unwind=6 fn=kgl_iovec_seek
//@ob H_kbuf_seek kind=bounded bound="<=4 segments of any length" unwind=6 fn=kbuf_seek
//@ob H_bufs_size kind=bounded bound="<=4 segments of any length" unwind=6 fn=kgl_get_bufs_size
#include "v.h"
#define N 4
#define BIG 0x10000000
#include "kbuf.h"
#include "klib.h"
static kgl_iovec V[N + 1], O[N + 1]; static int n; static int T;
static int E, In, OFF;      /* the offset lies in segment E, In bytes into it (E == n: at the very end) */
static char *arena;
static void mk(int minn) {
	arena = (char *)v_alloc(8 * 0x20000); n = V_IN(int, minn, N); T = 0; OFF = -1;
	E = V_IN(int, 0, N); V_ASSUME(E <= n);
	In = V_IN(int, 0, 0xffff);
	for (int i = 0; i <= N; i++) {
		int l = V_IN(int, 0, 0x10000); V_ASSUME(i < n || l == 0);
		V[i].iov_len = l; V[i].iov_base = arena + i * 0x20000;
		if (i == E) { OFF = T + In; V_ASSUME(i == n ? In == 0 : In < l); }
		T += l; O[i] = V[i];
	}
}
void H_iovec_seek(void) {
	mk(0);
	int bc = n;
	kgl_iovec *r = kgl_iovec_seek(V, &bc, OFF);
	V_REACH("seek");
	int e = (int)(r - V);
	V_CHECK(e >= 0 && e <= n && bc == n - e, "count matches the segments left");
	V_CHECK(e == E || (e < E && In == 0), "the segment containing the offset comes first");
	for (int i = 0; i <= N; i++) {
		if (i >= e && i < E) V_CHECK(V[i].iov_len == 0, "only empty segments may precede it");
		if (i == E && e <= E) V_CHECK(V[i].iov_base == (char *)O[i].iov_base + In && V[i].iov_len == O[i].iov_len - In, "it starts at the offset and keeps its rest");
		if (i > E) V_CHECK(V[i].iov_base == O[i].iov_base && V[i].iov_len == O[i].iov_len, "later segments are untouched");
	}
}
static kbuf *L[N], LO[N], HB;
void H_kbuf_seek(void) {
	mk(1);
	for (int i = 0; i < N; i++) L[i] = (kbuf *)v_alloc(sizeof(kbuf));
	for (int i = 0; i < N; i++) { L[i]->data = (char *)V[i].iov_base; L[i]->used = (int)V[i].iov_len; L[i]->next = i + 1 < n ? L[i + 1] : NULL; LO[i] = *L[i]; }
	const kbuf *r = kbuf_seek(L[0], OFF, &HB);
	V_REACH("seek");
	for (int i = 0; i < N; i++) if (r && r->used == 0) r = r->next; /* empty segments carry nothing */
	if (E == n) V_CHECK(r == NULL, "nothing is left at the end");
	else {
		V_CHECK(r != NULL && r->data == LO[E].data + In && r->used == LO[E].used - In, "the rest of the segment containing the offset comes first");
		V_CHECK(r == NULL || r->next == LO[E].next, "followed by the later segments");
	}
	for (int i = 0; i < N; i++) V_CHECK(L[i]->data == LO[i].data && L[i]->used == LO[i].used && L[i]->next == LO[i].next, "the caller's list is not modified");
}
void H_bufs_size(void) {
	mk(0);
	int r = kgl_get_bufs_size(V, n);
	V_REACH("size");
	V_CHECK(r == T, "total length of the vector");
}
