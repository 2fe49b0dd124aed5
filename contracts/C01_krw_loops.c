//@ob L_write_str kind=proof loops=1 unwind=2 calls=krw_get_write_buffer:C_get_write_buffer,krw_write_success:C_write_success fallback=H_write fn=krw_write_str
//@ob L_read kind=proof loops=1 unwind=2 calls=krw_get_read_buffer:C_get_read_buffer,krw_read_success:C_read_success fallback=H_read fn=krw_read
//@ob L_write_int kind=proof unwind=2 calls=krw_write_str:C_write_str fallback=H_write_int fn=krw_write_int,krw_write_int64
/* The two transfer loops, for every length: inductive invariants over the callees' contracts.
 * krw_get_write_buffer / krw_write_success: contract discharged by H_write_buffer (C01_krw.c), unbounded.
 * krw_get_read_buffer / krw_read_success: contract discharged by H_read_bufs / H_read_success (bounded list length). */
#include "v.h"
static char *g_win; static int g_winlen;      /* window handed out and not yet committed */
static int g_count;                           /* bytes committed / consumed so far */
static int g_K; static char g_kb;             /* witness position and the byte that went there */
static const char *g_src; static char *g_dst; static int g_len0; static int g_total;
static char g_stream_K;                       /* the stream's byte at position K */
#define KGL_LOOP_CONTRACT_krw_write_str \
	__CPROVER_assigns(buf, len, g_win, g_winlen, g_count, g_kb, v_choice) \
	__CPROVER_loop_invariant(len >= 0 && len <= g_len0 && g_count == g_len0 - len && buf == g_src + g_count && g_winlen == 0) \
	__CPROVER_loop_invariant(g_K < g_count ==> g_kb == g_src[g_K]) \
	__CPROVER_decreases(len)
#define KGL_LOOP_CONTRACT_krw_read \
	__CPROVER_assigns(hot, got, len, g_win, g_winlen, g_count, v_choice, __CPROVER_object_whole(g_dst)) \
	__CPROVER_loop_invariant(len >= 0 && got >= 0 && got <= g_len0 && len == g_len0 - got && hot == g_dst + got && g_count == got && got <= g_total && g_winlen == 0) \
	__CPROVER_loop_invariant(got == 0 || got < g_total) \
	__CPROVER_loop_invariant(g_K < got ==> g_dst[g_K] == g_stream_K) \
	__CPROVER_decreases(len)
#include "kmalloc.h"
#undef kgl_memcpy
#define kgl_memcpy v_copy
#define memcpy v_copy
#define memmove v_copy
/* contract of memmove, weakened to the witness byte */
static void *v_copy(void *d, const void *s, size_t n) {
	V_CHECK(__CPROVER_w_ok(d, n), "copy destination inside its allocation");
	V_CHECK(__CPROVER_r_ok(s, n), "copy source inside its allocation");
	long w = (long)g_K - g_count;
	if (w >= 0 && w < (long)n) ((char *)d)[w] = ((const char *)s)[w];
	return d;
}
#include <stdarg.h>
#define snprintf v_snprintf
static int v_snprintf(char *s, size_t n, const char *fmt, ...);
#include "src/kbuf.c"
#undef snprintf
static krw_buffer B;
char *C_get_write_buffer(krw_buffer *b, int *len) {
	V_CHECK(b == &B, "same buffer"); V_CHECK(g_winlen == 0, "previous window committed");
	int l = V_IN(int, 1, INT_MAX); V_ASSUME(l <= b->chunk_size);
	g_win = (char *)v_alloc(l); g_winlen = l; *len = l;
	return g_win;
}
void C_write_success(krw_buffer *b, int got) {
	V_CHECK(b == &B && got > 0 && got <= g_winlen, "commits no more than the window offered");
	if (g_K >= g_count && g_K < g_count + got) g_kb = g_win[g_K - g_count];
	g_count += got; g_winlen = 0;
}
void L_write_str(void) {
	B.chunk_size = V_IN(int, 1, INT_MAX); g_winlen = 0; g_count = 0;
	int len = V_IN(int, 0, 0x1000000); char *src = (char *)v_alloc(len);
	g_src = src; g_len0 = len; g_K = V_IN(int, 0, 0x1000000);
	krw_write_str(&B, src, len);
	V_REACH("written");
	V_CHECK(g_count == len, "every byte is committed, once");
	if (g_K < len) V_CHECK(g_kb == src[g_K], "each stream position gets its own byte");
}
char *C_get_read_buffer(krw_buffer *b, int *len) {
	V_CHECK(b == &B, "same buffer"); V_CHECK(g_winlen == 0, "previous window consumed");
	int left = g_total - g_count;
	if (left == 0) {
		if (g_count == 0 && V_BOOL()) return NULL;
		*len = 0; g_win = (char *)v_alloc(1); return g_win; }
	int l = V_IN(int, 1, INT_MAX); V_ASSUME(l <= left);
	g_win = (char *)v_alloc(l); g_winlen = l; *len = l;
	if (g_K >= g_count && g_K < g_count + l) V_ASSUME(g_win[g_K - g_count] == g_stream_K);
	return g_win;
}
bool C_read_success(krw_buffer *b, int got) {
	V_CHECK(b == &B && got > 0 && got <= g_winlen, "consumes no more than the window offered");
	g_count += got; g_winlen = 0;
	return g_count < g_total ? true : V_BOOL() ? false : false;
}
void L_read(void) {
	g_winlen = 0; g_count = 0;
	g_total = V_IN(int, 0, 0x1000000);
	int len = V_IN(int, 0, 0x1000000); char *dst = (char *)v_alloc(len);
	g_dst = dst; g_len0 = len; g_K = V_IN(int, 0, 0x1000000); g_stream_K = (char)V_U8();
	int r = krw_read(&B, dst, len);
	V_REACH("read");
	V_CHECK(r == KGL_MIN(len, g_total), "as much as is there, up to the request");
	V_CHECK(g_count == r, "exactly the returned bytes are consumed");
	if (g_K < r) V_CHECK(dst[g_K] == g_stream_K, "each byte lands at its position");
}

/* krw_write_int / krw_write_int64: snprintf and krw_write_str by contract */
static long long g_val; static int g_snp, g_wide, g_len, g_calls; static char *g_txt; static int g_w; static char g_wb;
static int v_snprintf(char *s, size_t n, const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	g_snp++;
	if (fmt[0] == '%' && fmt[1] == 'd' && fmt[2] == 0) { g_val = va_arg(ap, int); g_wide = 0; }
	else { V_CHECK(fmt[0] == '%' && fmt[1] == 'l' && fmt[2] == 'd' && fmt[3] == 0, "integer conversion"); g_val = va_arg(ap, long); g_wide = 1; }
	va_end(ap);
	V_CHECK(n >= (g_wide ? 21 : 12), "scratch space holds every integer");
	V_CHECK(__CPROVER_w_ok(s, n), "scratch space");
	g_len = V_IN(int, 1, 20); V_ASSUME(g_len < (int)n);
	g_w = V_IN(int, 0, 19); V_ASSUME(g_w < g_len);
	g_txt = s; s[g_w] = g_wb;
	return g_len;
}
void C_write_str(krw_buffer *b, const char *buf, int len) {
	V_CHECK(b == &B && g_snp == 1, "after formatting");
	V_CHECK(len == g_len && buf[g_w] == g_wb, "the numeral, and only it, is appended");
	g_calls++;
}
void L_write_int(void) {
	g_snp = 0; g_calls = 0; g_wb = (char)V_U8();
	long long val;
	if (V_BOOL()) { val = V_I64(); krw_write_int64(&B, val); V_CHECK(g_wide || (val >= INT_MIN && val <= INT_MAX), "full width"); }
	else { val = V_INT(); krw_write_int(&B, (int)val); }
	V_REACH("write_int");
	V_CHECK(g_snp == 1 && g_calls == 1 && g_val == val, "the numeral rendered is the value given");
}
