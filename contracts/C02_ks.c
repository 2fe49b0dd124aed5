//@assume heap allocation succeeds; sizes stay below 1 GiB (int arithmetic on sizes does not wrap)
//@assume memcpy/memmove meet their contract (destination bytes equal source bytes), instantiated at witness bytes
//@trust snprintf("%d"/"%ld") renders its integer argument (replaced by a stub that records the argument)
//@ob H_init kind=proof unwind=2 fn=ks_buffer_init,ks_buffer_new,ks_buffer_destroy,ks_buffer_clean
//@ob H_guarantee kind=proof unwind=2 fn=ks_guarantee
//@ob H_write_str kind=proof unwind=2 solver=cadical fn=ks_write_str,ks_guarantee
//@ob H_write_window kind=proof unwind=3 fn=ks_get_write_buffer,ks_get_write_buffers,ks_write_success
//@ob H_save_point kind=proof unwind=2 fn=ks_save_point
//@ob H_read kind=proof unwind=2 fn=ks_buffer_switch_read,ks_get_read_buffer,ks_get_read_buffers,ks_read_success
//@ob H_write_int kind=proof unwind=22 fn=ks_write_int,ks_write_int64,ks_write_str
#include "v.h"
#include "kmalloc.h"
#include <stdarg.h>
#ifdef V_CBMC
#undef kgl_memcpy
#define kgl_memcpy v_wcopy
#define memmove v_wcopy
#define memcpy v_wcopy
#endif
#undef xfree
#define xfree v_free
#define snprintf v_snprintf
static int v_snprintf(char *s, size_t n, const char *fmt, ...);
#include "src/kbuf.c"
#undef snprintf
extern bool ks_guarantee(ks_buffer *buf, int len);
#define BIG 0x100000
static ks_buffer B; static int U, S; static int K; static char KB; static char *OB;
/* an arbitrary buffer: capacity S, U bytes stored, one arbitrary stored position K holding KB */
static void build(void) {
	S = V_IN(int, 1, BIG); U = V_IN(int, 0, BIG); V_ASSUME(U <= S);
	B.buf = (char *)v_alloc(S); B.buf_size = S; B.used = U; OB = B.buf;
	K = V_IN(int, 0, BIG); KB = (char)V_U8();
	if (K < U) { B.buf[K] = KB; V_WITNESS(0, B.buf + K); }
}
static void inv(int used) {
	V_CHECK(B.used == used, "number of stored bytes");
	V_CHECK(B.used >= 0 && B.used <= B.buf_size, "stored bytes fit the capacity");
	V_CHECK(V_RW_OK(B.buf, B.buf_size), "capacity is really allocated");
}
static void kept(void) { if (K < U) V_CHECK(B.buf[K] == KB, "stored bytes are kept"); }
void H_init(void) {
	int n = V_IN(int, 1, BIG);
	ks_buffer *b = ks_buffer_new(n);
	V_REACH("new");
	V_CHECK(b->used == 0 && b->buf_size == n && V_RW_OK(b->buf, n), "new buffer is empty and has the capacity asked for");
	char *d = b->buf; (void)d;
	ks_buffer_destroy(b);
	V_CHECK(v_times_freed(d) == 1 && v_times_freed(b) == 1, "destroy releases both allocations, once");
}
void H_guarantee(void) {
	build();
	int len = V_IN(int, 0, 0x20000000);
	bool r = ks_guarantee(&B, len);
	V_REACH("guarantee");
	V_CHECK(r, "succeeds"); inv(U); kept();
	V_CHECK(B.buf_size - B.used >= len, "room for the bytes asked for");
	V_CHECK(B.buf_size >= S, "capacity never shrinks");
	V_CHECK(v_times_freed(OB) == (B.buf == OB ? 0 : 1), "the old storage is released exactly when it is replaced");
}
void H_write_str(void) {
	build();
	int len = V_IN(int, 0, BIG); char *src = (char *)v_alloc(len);
	int j = V_IN(int, 0, BIG); char jb = (char)V_U8();
	if (j < len) { src[j] = jb; V_WITNESS(1, src + j); }
	bool r = ks_write_str(&B, src, len);
	V_REACH("write_str");
	V_CHECK(r, "succeeds"); inv(U + len); kept();
	if (j < len) { V_CHECK(B.buf[U + j] == jb, "written bytes follow the stored ones"); V_CHECK(src[j] == jb, "source untouched"); }
}
void H_write_window(void) {
	build();
	int len = -1; char *w;
	if (V_BOOL()) w = ks_get_write_buffer(&B, &len);
	else { WSABUF v; v.iov_base = NULL; v.iov_len = 0; int c = ks_get_write_buffers(&B, &v, V_IN(int, 1, 16)); V_CHECK(c == 1, "one window"); w = (char *)v.iov_base; len = (int)v.iov_len; }
	V_REACH("window");
	inv(U); kept();
	V_CHECK(len > 0 && w == B.buf + B.used && len == B.buf_size - B.used, "a non-empty window right behind the stored bytes");
	int got = V_IN(int, 0, 0x7fffffff); V_ASSUME(got <= len);
	int j = V_IN(int, 0, 0x7fffffff); char jb = (char)V_U8();
	if (j < got) w[j] = jb;
	ks_write_success(&B, got);
	inv(U + got); kept();
	if (j < got) V_CHECK(B.buf[U + j] == jb, "committed bytes become part of the content");
}
void H_save_point(void) {
	build();
	int hot = V_IN(int, 0, BIG); V_ASSUME(hot <= U);
	/* a point further on than the start presupposes some content before it */
	ks_save_point(&B, B.buf + hot);
	V_REACH("save_point");
	inv(U - hot);
	if (K < U && K >= hot) V_CHECK(B.buf[K - hot] == KB, "bytes from the save point on are kept, moved to the front");
	V_CHECK(B.buf_size > B.used || B.used == 0, "there is room to read more after a save point");
	V_CHECK(B.buf_size >= S, "capacity never shrinks");
}
void H_read(void) {
	build();
	ks_buffer_switch_read(&B);
	V_REACH("switch_read");
	V_CHECK(B.buf == OB && B.buf_size == U && B.used == 0, "reading starts at the first stored byte and ends at the last");
	int a = V_IN(int, 0, BIG); V_ASSUME(a <= U);
	bool more = ks_read_success(&B, a);
	V_CHECK(more == (a < U), "reports data left exactly when data is left");
	int len = -1; char *p;
	if (V_BOOL()) p = ks_get_read_buffer(&B, &len);
	else { WSABUF v; int c = ks_get_read_buffers(&B, &v, V_IN(int, 1, 16)); V_CHECK(c == 1, "one window"); p = (char *)v.iov_base; len = (int)v.iov_len; }
	V_CHECK(len == U - a && p == OB + a, "the rest is offered in order");
	if (K < U && K >= a) V_CHECK(p[K - a] == KB, "content unchanged");
	bool more2 = ks_read_success(&B, U - a);
	V_CHECK(!more2, "everything consumed");
}
static long long g_val; static int g_n, g_snp, g_w; static char g_wb;
static int v_snprintf(char *s, size_t n, const char *fmt, ...) {
	va_list ap; va_start(ap, fmt); g_snp++;
	int wide = 0;
	if (fmt[0] == '%' && fmt[1] == 'd' && fmt[2] == 0) g_val = va_arg(ap, int);
	else { V_CHECK(fmt[0] == '%' && fmt[1] == 'l' && fmt[2] == 'd' && fmt[3] == 0, "integer conversion"); g_val = va_arg(ap, long); wide = 1; }
	va_end(ap);
	V_CHECK(n >= (wide ? 21 : 12), "scratch space holds every integer");
	g_n = V_IN(int, 1, 20); V_ASSUME(g_n < (int)n && g_n <= (wide ? 20 : 11));
	g_w = V_IN(int, 0, 19); V_ASSUME(g_w < g_n); g_wb = (char)V_U8();
	s[g_w] = g_wb; V_WITNESS(1, s + g_w);
	return g_n;
}
void H_write_int(void) {
	build();
	long long val; g_snp = 0;
	if (V_BOOL()) { val = V_I64(); ks_write_int64(&B, val); } else { val = V_INT(); ks_write_int(&B, (int)val); }
	V_REACH("write_int");
	V_CHECK(g_snp == 1 && g_val == val, "the numeral rendered is the value given");
	inv(U + g_n); kept();
	V_CHECK(B.buf[U + g_w] == g_wb, "the numeral is appended");
}
