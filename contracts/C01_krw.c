//@fn krw_*
//@assume heap allocation succeeds (the code does not handle malloc failure in buffers)
//@assume buffers appended or inserted by the caller are non-empty, heap allocated and not yet linked
//@trust snprintf("%d"/"%ld") renders its integer argument (replaced by a stub that records the argument)
//@ob H_append kind=proof unwind=2 fn=krw_append
//@ob H_insert kind=proof unwind=2 fn=krw_insert
//@ob H_write_buffer kind=proof unwind=2 fn=krw_get_write_buffer,krw_write_success,krw_newbuff
//@ob H_init kind=proof unwind=2 fn=krw_buffer_init,krw_buffer_new
//@ob H_read_bufs kind=bounded bound="<=3 segments of <=3 bytes" unwind=5 defs=-DV_SMALLMEM=6 hunwind=13 fn=krw_get_read_buffers,krw_get_read_buffer
//@ob H_read_success kind=bounded bound="<=3 segments of <=3 bytes" unwind=5 defs=-DV_SMALLMEM=6 hunwind=13 fn=krw_read_success,krw_buffer_init
//@ob H_read tier=fallback kind=bounded bound="<=2 segments of <=3 bytes" unwind=5 defs=-DV_SMALLMEM=6 hunwind=13 fn=krw_read
//@ob H_write tier=fallback kind=bounded bound="<=1 segment of 2 bytes, <=4 bytes written" unwind=8 defs=-DV_SMALLMEM=6 hunwind=13 fn=krw_write_str
//@ob H_insert_content kind=bounded bound="<=3 segments of <=3 bytes" unwind=5 defs=-DV_SMALLMEM=6 hunwind=13 fn=krw_insert,krw_append
//@ob H_write_int tier=fallback kind=bounded bound="<=1 segment of 2 bytes, numeral of <=3 characters" unwind=5 defs=-DV_SMALLMEM=6 hunwind=13 fn=krw_write_int,krw_write_int64
//@ob H_clean kind=bounded bound="<=3 segments" unwind=6 opts="--memory-leak-check" fn=krw_buffer_clean,krw_buffer_destroy
#include "v.h"
#include <stdarg.h>
#ifdef V_SMALLMEM
#include "kmalloc.h"
#undef kgl_memcpy
#define kgl_memcpy v_memmove
#define memmove v_memmove
#define memcpy v_memmove
#endif
#define snprintf v_snprintf
static int v_snprintf(char *s, size_t n, const char *fmt, ...);
#include "src/kbuf.c"
#undef snprintf

#define MAXSEG 3
#define MAXCH 3
#define LIM 8           /* segments walked by the specification */

static krw_buffer B;
static int ML;          /* abstract view: number of unread bytes ... */
static int K;           /* ... and one arbitrary position among them (universally quantified witness) */
static char KB;         /* its value */

/* representation invariant: head..tail chain, read point inside the head, write point at the end of a private tail,
 * total_len = unread bytes */
static int view_len(krw_buffer *b) {
	if (b->head == NULL)
		return b->write_hot_buf == NULL && b->read_hot == NULL && b->total_len == 0 ? 0 : -1;
	if (b->write_hot_buf == NULL || b->read_hot == NULL) return -1;
	int off = (int)(b->read_hot - b->head->data);
	if (off < 0 || off > b->head->used) return -1;
	int n = -off;
	kbuf *s = b->head;
	for (int i = 0; i < LIM; i++) {
		n += s->used;
		if (s->next == NULL) break;
		s = s->next;
	}
	if (s->next != NULL || s != b->write_hot_buf) return -1;
	if (b->write_hot != NULL && (b->write_hot != s->data + s->used || s->used > b->chunk_size)) return -1;
	return n == b->total_len ? n : -1;
}
static char view_at(krw_buffer *b, int k) {
	kbuf *s = b->head;
	k += (int)(b->read_hot - b->head->data);
	for (int i = 0; i < LIM; i++) {
		if (s == NULL) break;
		if (k < s->used) return s->data[k];
		k -= s->used; s = s->next;
	}
	V_CHECK(0, "position within the unread bytes");
	return 0;
}
static kbuf *mkseg(int used, int cap) {
	kbuf *k = (kbuf *)v_alloc(sizeof(kbuf));
	k->flags = 0; k->used = used; k->next = NULL; k->data = (char *)v_alloc(cap);
	return k;
}
static void build_c(int maxseg, int chunk) {
	int n = V_IN(int, 0, maxseg);
	memset(&B, 0, sizeof B);
	B.chunk_size = chunk;
	ML = 0;
	kbuf *prev = NULL;
	for (int i = 0; i < maxseg; i++) {
		if (i >= n) break;
		bool ext = V_BOOL();
		bool last = i == n - 1;
		int used = V_IN(int, (last && !ext) ? 0 : 1, ext ? MAXCH : chunk);
		kbuf *s = mkseg(used, ext ? used : chunk);
		int off = 0;
		if (i == 0) { B.head = s; off = V_IN(int, 0, used); V_ASSUME(off < used || used == 0); B.read_hot = s->data + off; }
		else prev->next = s;
		for (int j = 0; j < MAXCH; j++) if (j < used) s->data[j] = (char)V_U8();
		B.write_hot_buf = s;
		B.write_hot = ext ? NULL : s->data + used;
		prev = s;
		ML += used - off;
	}
	B.total_len = ML;
	K = V_IN(int, 0, MAXSEG * MAXCH - 1);
	if (K < ML) KB = view_at(&B, K);
}
static void build(int maxseg) { build_c(maxseg, V_IN(int, 1, MAXCH)); }
/* the old byte at K is now at position K+shift, and there are n unread bytes */
static void expect(int n, int shift) {
	int v = view_len(&B);
	V_CHECK(v >= 0, "buffer stays well formed and total_len counts the unread bytes");
	V_CHECK(v == n, "number of unread bytes");
	if (v == n && K < ML && K + shift >= 0) V_CHECK(view_at(&B, K + shift) == KB, "unread bytes keep their order and value");
}

static long long g_val; static int g_n; static char g_txt[8]; static int g_snp;
static int v_snprintf(char *s, size_t n, const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	g_snp++;
	if (strcmp(fmt, "%d") == 0) g_val = va_arg(ap, int);
	else { V_CHECK(strcmp(fmt, "%ld") == 0, "integer conversion"); g_val = va_arg(ap, long); }
	va_end(ap);
	V_CHECK(n >= (strcmp(fmt, "%d") == 0 ? 12 : 21), "scratch space holds every integer");
	g_n = V_IN(int, 1, 3);
	for (int i = 0; i < 3; i++) g_txt[i] = (char)V_IN(int, 1, 127);
	for (int i = 0; i < g_n; i++) s[i] = g_txt[i];
	s[g_n] = 0;
	return g_n;
}

/* ---------- loop-free operations: unbounded sizes, arbitrary list length ----------
 * head and last segment are explicit; `mid` stands for everything in between and must not be touched. */
#define BIG 0x100000
static kbuf *hd, *mid, *lst; static kbuf s_hd, s_mid, s_lst; static int s_tot;
static int inv_ends(void) {
	return B.head != NULL && B.write_hot_buf != NULL && B.read_hot != NULL && B.write_hot_buf->next == NULL &&
	       B.read_hot - B.head->data >= 0 && B.read_hot - B.head->data <= B.head->used;
}
static void build_ends(void) {
	memset(&B, 0, sizeof B);
	B.chunk_size = V_IN(int, 1, BIG);
	hd = mid = lst = NULL;
	int shape = V_IN(int, 0, 3);        /* empty / one / two / three or more */
	if (shape == 0) { s_tot = 0; return; }
	bool lext = V_BOOL();
	int lused = V_IN(int, lext ? 1 : 0, lext ? BIG : B.chunk_size);
	lst = mkseg(lused, lext ? lused : B.chunk_size);
	hd = lst;
	if (shape >= 2) { int hu = V_IN(int, 1, BIG); hd = mkseg(hu, hu); hd->next = lst; }
	if (shape == 3) { int mu = V_IN(int, 1, BIG); mid = mkseg(mu, mu); hd->next = mid; mid->next = lst; }
	B.head = hd; B.write_hot_buf = lst;
	int off = V_IN(int, 0, BIG); V_ASSUME(off <= hd->used && (off < hd->used || hd->used == 0));
	B.read_hot = hd->data + off;
	B.write_hot = lext ? NULL : lst->data + lused;
	B.total_len = V_IN(int, 0, 0x10000000); V_ASSUME(B.total_len >= hd->used - off);
	s_tot = B.total_len; s_hd = *hd; s_lst = *lst; if (mid) s_mid = *mid;
}
static void frame_mid(void) {
	if (mid) V_CHECK(mid->next == s_mid.next && mid->data == s_mid.data && mid->used == s_mid.used, "interior segments untouched");
}
void H_append(void) {
	build_ends();
	int u = V_IN(int, 1, BIG); kbuf *k = mkseg(u, u);
	char *ro = B.read_hot;
	krw_append(&B, k);
	V_REACH("append");
	V_CHECK(inv_ends(), "ends well formed");
	V_CHECK(B.write_hot_buf == k && k->next == NULL && k->used == u, "appended buffer is the new tail");
	V_CHECK(B.write_hot == NULL, "caller's buffer is never written into");
	V_CHECK(B.total_len == s_tot + u, "total grows by the appended bytes");
	if (hd) { V_CHECK(B.head == hd && B.read_hot == ro && hd->used == s_hd.used && hd->data == s_hd.data, "head kept");
		V_CHECK(lst->next == k && lst->used == s_lst.used && lst->data == s_lst.data, "old tail linked to it"); 
		if (hd != lst) V_CHECK(hd->next == s_hd.next, "head link kept"); }
	else V_CHECK(B.head == k && B.read_hot == k->data, "first buffer becomes the head");
	frame_mid();
}
void H_insert(void) {
	build_ends();
	int u = V_IN(int, 1, BIG); kbuf *k = mkseg(u, u);
	int rest = hd ? hd->used - (int)(B.read_hot - hd->data) : 0;
	bool wh = B.write_hot != NULL;
	krw_insert(&B, k);
	V_REACH("insert");
	V_CHECK(inv_ends(), "ends well formed");
	V_CHECK(B.head == k && B.read_hot == k->data && k->used == u, "inserted buffer is read first");
	V_CHECK(B.total_len == s_tot + u, "total grows by the inserted bytes");
	if (hd) {
		V_CHECK(k->next == hd, "followed by the old head");
		V_CHECK(hd->used == rest, "old head contributes exactly its unread bytes");
		V_CHECK(B.write_hot_buf == lst, "tail kept");
		if (hd != lst) V_CHECK(hd->next == s_hd.next && lst->used == s_lst.used, "links kept");
		V_CHECK((B.write_hot != NULL) == wh && V_IMPLIES(wh, B.write_hot == lst->data + lst->used), "write position still the end of the tail");
	}
	frame_mid();
}
void H_write_buffer(void) {
	build_ends();
	int len = -1; char *ro = B.read_hot;
	char *w = krw_get_write_buffer(&B, &len);
	V_REACH("get_write_buffer");
	V_CHECK(w != NULL && len > 0 && len <= B.chunk_size, "a non-empty writable window");
	V_CHECK(V_RW_OK(w, len), "the window is inside one allocation");
	V_CHECK(inv_ends(), "ends well formed");
	kbuf *t = B.write_hot_buf;
	V_CHECK(w == t->data + t->used && B.write_hot == w, "window starts at the end of the tail");
	V_CHECK(B.total_len == s_tot, "requesting a window adds no bytes");
	if (lst) {
		V_CHECK(lst->used == s_lst.used && lst->data == s_lst.data, "existing bytes kept");
		V_CHECK(t == lst || (lst->next == t && t->used == 0), "a new tail is empty and linked last");
		V_CHECK(B.head == hd && B.read_hot == ro, "head kept");
		if (hd != lst) V_CHECK(hd->next == s_hd.next, "links kept");
	} else V_CHECK(t == B.head && t->used == 0 && B.read_hot == t->data, "first segment is read from its start");
	int tu = t->used;
	int got = V_IN(int, 0, BIG); V_ASSUME(got <= len);
	krw_write_success(&B, got);
	V_REACH("write_success");
	V_CHECK(B.write_hot_buf == t && t->used == tu + got && B.total_len == s_tot + got, "exactly the committed bytes are added");
	V_CHECK(B.write_hot == t->data + t->used && inv_ends(), "next write continues behind them");
	V_CHECK(t->used <= B.chunk_size, "segment never overfilled");
	frame_mid();
	int len2; char *w2 = krw_get_write_buffer(&B, &len2);
	V_CHECK(V_IMPLIES(got < len, w2 == w + got && len2 == len - got), "remaining room is offered next");
	V_CHECK(V_RW_OK(w2, len2) && len2 > 0, "window valid");
}
void H_init(void) {
	int c = V_IN(int, 1, INT_MAX);
	krw_buffer *b = krw_buffer_new(c);
	V_REACH("new");
	V_CHECK(b->head == NULL && b->write_hot_buf == NULL && b->read_hot == NULL && b->write_hot == NULL && b->total_len == 0 && b->chunk_size == c, "new buffer is empty");
}
void H_read_bufs(void) {
	build(MAXSEG);
	WSABUF v[4]; int bc = V_IN(int, 1, 4);
	for (int i = 0; i < 4; i++) { v[i].iov_base = NULL; v[i].iov_len = 99; }
	int r = krw_get_read_buffers(&B, v, bc);
	V_REACH("get_read_buffers");
	V_CHECK(r >= 0 && r <= bc, "at most the caller's slots are used");
	int pos = 0, segs = 0; kbuf *s = B.head;
	for (int i = 0; i < MAXSEG; i++) if (s) { segs++; s = s->next; }
	V_CHECK(r == KGL_MIN(segs, bc), "as many windows as segments, up to the slots");
	for (int i = 0; i < 4; i++) {
		if (i >= r) { V_CHECK(v[i].iov_base == NULL && v[i].iov_len == 99, "unused slots untouched"); continue; }
		V_CHECK((int)v[i].iov_len <= ML - pos, "windows never exceed the unread bytes");
		if (K < ML && K >= pos && K < pos + (int)v[i].iov_len)
			V_CHECK(((char *)v[i].iov_base)[K - pos] == KB, "windows expose the unread bytes in order");
		pos += (int)v[i].iov_len;
	}
	V_CHECK(V_IMPLIES(r < bc, pos == ML), "with enough slots everything is exposed");
	expect(ML, 0);
	int len = -7; char *p = krw_get_read_buffer(&B, &len);
	if (B.head == NULL) V_CHECK(p == NULL, "nothing to read");
	else V_CHECK(p == B.read_hot && len == B.head->used - (int)(B.read_hot - B.head->data), "first window");
}
void H_read_success(void) {
	build(MAXSEG);
	V_ASSUME(B.head != NULL);
	int got = V_IN(int, 0, MAXSEG * MAXCH); V_ASSUME(got <= ML);
	bool r = krw_read_success(&B, got);
	V_REACH("read_success");
	V_CHECK(V_IMPLIES(got < ML, r), "reports data left when data is left");
	V_CHECK(V_IMPLIES(!r, got == ML && B.head == NULL), "reports empty only when everything was consumed");
	V_CHECK(V_IMPLIES(B.head == NULL, B.total_len == 0), "empty");
	expect(ML - got, -got);
}
void H_read(void) {
	build(2);
	char out[12]; char guard = 0x5a;
	for (int i = 0; i < 12; i++) out[i] = guard;
	int len = V_IN(int, 0, 10);
	int r = krw_read(&B, out, len);
	V_REACH("read");
	V_CHECK(r == KGL_MIN(len, ML), "a read returns as much as is there, up to the request");
	if (K < ML && K < r) V_CHECK(out[K] == KB, "bytes come out in write order");
	int j = V_IN(int, 0, 11);
	if (j >= r) V_CHECK(out[j] == guard, "nothing is stored beyond the returned count");
	expect(ML - r, -r);
}
void H_write(void) {
	build_c(1, 2);
	char in[6];
	int len = V_IN(int, 0, 4);
	for (int i = 0; i < 6; i++) in[i] = (char)V_U8();
	krw_write_str(&B, in, len);
	V_REACH("write");
	expect(ML + len, 0);
	int j = V_IN(int, 0, 5);
	if (j < len) V_CHECK(view_at(&B, ML + j) == in[j], "written bytes follow in order");
}
void H_insert_content(void) {
	build(MAXSEG);
	int u = V_IN(int, 1, 2); kbuf *k = mkseg(u, u); bool app = V_BOOL();
	k->data[0] = (char)V_U8(); if (u > 1) k->data[1] = (char)V_U8();
	int j = V_IN(int, 0, 1); V_ASSUME(j < u); char jb = k->data[j];
	if (app) krw_append(&B, k); else krw_insert(&B, k);
	V_REACH("splice");
	expect(ML + u, app ? 0 : u);
	V_CHECK(view_at(&B, app ? ML + j : j) == jb, "spliced bytes are readable at their place");
	/* a later write still lands at the end */
	char c = (char)V_U8(); int wl; *krw_get_write_buffer(&B, &wl) = c; krw_write_success(&B, 1);
	expect(ML + u + 1, app ? 0 : u);
	V_CHECK(view_at(&B, ML + u) == c, "a later write lands at the end");
}
void H_write_int(void) {
	build_c(1, 2);
	long long val; bool wide = V_BOOL();
	if (wide) { val = V_I64(); krw_write_int64(&B, val); } else { val = V_INT(); krw_write_int(&B, (int)val); }
	V_REACH("write_int");
	V_CHECK(g_snp == 1 && g_val == val, "the numeral rendered is the value given");
	expect(ML + g_n, 0);
	int j = V_IN(int, 0, 2); if (j < g_n) V_CHECK(view_at(&B, ML + j) == g_txt[j], "numeral appended");
}
void H_clean(void) {
	build(MAXSEG);
	krw_buffer *b = (krw_buffer *)v_alloc(sizeof *b);
	*b = B;
	memset(&B, 0, sizeof B);
	if (V_BOOL()) krw_buffer_destroy(b);
	else { krw_buffer_clean(b); V_CHECK(b->head == NULL, "clean leaves no segment"); free(b); }
	V_REACH("destroyed");
}
