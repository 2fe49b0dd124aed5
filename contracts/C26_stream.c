/* TLS transfers over segment lists, on the real kgl_ssl_readv and kgl_ssl_writev of kselectable.c; OpenSSL enters by contract. */
//@assume OpenSSL meets its specification: a read or write transfers between 1 and the asked number of bytes, or none; at most 1024 segments (the system's limit; 256 in the quick tier), all together below 2^28 bytes
//@ob S_read solver=cadical defs="-DCUT -DNSEG=256 -DRD" kind=proof tier=quick unwind=3 hunwind=18 replayable=0 hook=tls_read_seg,tls_read_more fallback=H_read fn=kgl_ssl_readv
//@ob T_read solver=cadical defs="-DCUT -DNSEG=1024 -DRD" kind=proof tier=thorough timeout=600 unwind=3 hunwind=18 replayable=0 hook=tls_read_seg,tls_read_more fallback=H_read fn=kgl_ssl_readv
//@ob S_write solver=cadical defs="-DCUT -DNSEG=256" kind=proof tier=quick unwind=3 hunwind=18 replayable=0 hook=tls_write_seg,tls_write_more fallback=H_write fn=kgl_ssl_writev
//@ob T_write solver=cadical defs="-DCUT -DNSEG=1024" kind=proof tier=thorough timeout=600 unwind=3 hunwind=18 replayable=0 hook=tls_write_seg,tls_write_more fallback=H_write fn=kgl_ssl_writev
//@ob H_read kind=bounded bound="<=2 segments of <=2 bytes" unwind=5 hunwind=18 tier=thorough fn=kgl_ssl_readv
//@ob H_write kind=bounded bound="<=2 segments of <=2 bytes" unwind=5 hunwind=18 tier=thorough fn=kgl_ssl_writev
#include <stddef.h>
static int hd_seg(int *i, int *got, void *ssl), hd_more(int i, void *hot, int *len, int *got, void *ssl);
#ifdef CUT
#define KGL_LOOP_CONTRACT_tls_read_seg if (hd_seg(&i, &got, ssl)) break; else
#define KGL_LOOP_CONTRACT_tls_write_seg if (hd_seg(&i, &got, ssl)) break; else
#define KGL_LOOP_CONTRACT_tls_read_more if (hd_more(i, &hot, &len, &got, ssl)) break; else
#define KGL_LOOP_CONTRACT_tls_write_more if (hd_more(i, &hot, &len, &got, ssl)) break; else
#endif
#include "v.h"
#ifdef RD
#define READS(m) V_REACH(m)
#else
#define READS(m)
#endif
#include <pthread.h>
struct kselector_s;
static struct kselector_s *v_tls; static void *v_tls_get(pthread_key_t k) { return v_tls; }
#define pthread_getspecific v_tls_get
#include "kselector.h"
#include "kselectable.h"
#include "kasync_file.h"
#include "kfiber.h"
#include "kudp.h"
#include "v_memset.h"
#include "src/kselectable.c"
pthread_key_t kgl_selector_key; kselector_module kgl_selector_module; volatile int64_t kgl_current_msec;
#ifdef CUT
#ifndef NSEG
#define NSEG 1024
#endif
#else
#define NSEG 2
#endif
static kgl_iovec SEG[NSEG]; static kssl_session SS; static char ssl_[1], B0[8], B1[8], *bb;
static int L, before, inseg, D; /* length of the segment at hand, bytes before it, bytes in it, all bytes */
static int cur, nseg, heads, mheads, nio, last, i0, gend; static bool wr, fail, finish; static unsigned char pre;
#ifndef CUT
static void place(void) { while (cur < nseg && inseg == (int)SEG[cur].iov_len) { cur++; inseg = 0; } L = cur < nseg ? (int)SEG[cur].iov_len : 0; bb = cur < nseg ? (char *)SEG[cur].iov_base : NULL; }
#else
static void place(void) {}
#endif
static bool pre0;
static void at(const void *p, int n) {
	if (!wr && pre0 && SS.early_preread == 0 && D == 0) { V_CHECK(*(unsigned char *)(bb + inseg) == pre, "the byte read ahead during the handshake comes first"); inseg++; D++; place(); }
	V_CHECK(!fail, "nothing is tried after a failure"); V_CHECK(!SS.early_preread, "the byte read ahead comes before anything else");
	V_CHECK((const char *)p == bb + inseg && n == L - inseg && n > 0, "exactly the rest of the segment at hand");
}
static int moved(int n) {
	nio++; last = V_IN(int, -1, 1 << 28); V_ASSUME(last <= n); if (last <= 0) { fail = true; return last; }
	inseg += last; D += last; place(); return last;
}
int SSL_read(SSL *s, void *b, int n) { V_CHECK(s == SS.ssl && !SS.in_early && !wr, "plain reading after early data"); at(b, n); int r = moved(n); if (r > 0 && r < n) fail = true; return r; }
int SSL_write(SSL *s, const void *b, int n) { V_CHECK(s == SS.ssl && !SS.in_early && wr, "plain writing after early data"); at(b, n); int r = moved(n); if (r > 0 && r < n) fail = true; return r; }
int SSL_read_early_data(SSL *s, void *b, size_t n, size_t *g) { V_CHECK(s == SS.ssl && SS.in_early && !wr, "early reading only during early data"); at(b, n); *g = 0; if (V_BOOL()) { finish = true; return SSL_READ_EARLY_DATA_FINISH; } int r = moved(n); if (r <= 0) { last = -1; return SSL_READ_EARLY_DATA_ERROR; } *g = r; return SSL_READ_EARLY_DATA_SUCCESS; }
int SSL_write_early_data(SSL *s, const void *b, size_t n, size_t *g) { V_CHECK(s == SS.ssl && SS.in_early && wr, "early writing only during early data"); at(b, n); int r = moved(n); if (r <= 0) { last = -1; return 0; } *g = r; return 1; }
int SSL_get_error(const SSL *s, int r) { return 0; } int SSL_pending(const SSL *s) { return 0; } void SSL_free(SSL *s) {} BIO *SSL_get_wbio(const SSL *s) { return NULL; } long BIO_ctrl(BIO *b, int c, long l, void *p) { return 0; } ossl_ssize_t SSL_sendfile(SSL *s, int in, off_t o, size_t n, int fl) { return -1; } bool kgl_ssl_support_sendfile(kssl_session *s) { return true; }
#define M28 (1 << 28)
static int hd_seg(int *i, int *got, void *ssl) {
	if (++heads == 1) {
		V_CHECK(*i == 0 && *got == 0 && nio == 0, "starts with the first segment");
		i0 = V_IN(int, 0, NSEG - 1); V_ASSUME(i0 < nseg); before = V_IN(int, 0, M28); V_ASSUME(V_IMPLIES(i0 == 0, before == 0)); D = before; inseg = 0; *i = cur = i0; *got = (int)before;
		L = V_IN(int, 0, M28); V_ASSUME(before + L <= M28); bb = malloc(L); V_ASSUME(bb != NULL); SEG[i0].iov_base = bb; SEG[i0].iov_len = L; SS.in_early = V_BOOL(); if (D > 0) SS.early_preread = 0; pre0 = SS.early_preread; return 0;
	}
	if (pre0 && !SS.early_preread && D == 0) { V_CHECK(*(unsigned char *)bb == pre, "the byte read ahead during the handshake comes first"); inseg++; D++; }
	V_CHECK(heads == 2 && *i == i0 + 1 && inseg == L && *got == D && D == before + L && !fail, "a segment is left when it is full, everything is counted"); V_REACH("next segment"); V_ASSUME(0); return 1;
}
static int hd_more(int i, void *hp, int *len, int *got, void *ssl) {
	char **hot = (char **)hp;
	if (++mheads == 1) {
		V_CHECK(i == i0 && *hot == bb && *len == L && *got == before && nio == 0, "a segment starts at its beginning");
		inseg = V_IN(int, 0, M28); V_ASSUME(inseg < L); D = before + inseg; *hot = bb + inseg; *len = (int)(L - inseg); *got = (int)D; SS.in_early = V_BOOL(); if (D > 0) SS.early_preread = 0; pre0 = SS.early_preread; return 0;
	}
	if (pre0 && !SS.early_preread && D == 0) { READS("read ahead"); V_CHECK(!wr && *(unsigned char *)(bb + inseg) == pre, "the byte read ahead during the handshake comes first"); inseg++; D++; }
	else if (finish) { READS("end of early data"); }
	else V_CHECK(nio == 1 && last > 0, "one transfer per step");
	V_CHECK(mheads == 2 && i == i0 && inseg <= L && *hot == bb + inseg && *len == (int)(L - inseg) && *got == D && !fail, "everything is counted, the rest of the segment is next"); V_REACH("more"); V_ASSUME(0); return 1;
}
static void base(bool w) { kssl_session z = {0}; SS = z; SS.ssl = (SSL *)ssl_; SS.handshake = 1; SS.in_early = V_BOOL(); SS.early_preread = w ? 0 : V_BOOL(); if (!SS.in_early) SS.early_preread = 0; pre = SS.early_buf = V_U8(); heads = mheads = nio = 0; D = before = inseg = 0; cur = 0; fail = finish = false; wr = w; last = 0; pre0 = SS.early_preread; L = 0; bb = NULL; gend = 0; }
static void ret(int r) {
	V_REACH("returned");
	if (pre0 && !SS.early_preread && D == 0) { D++; inseg++; place(); }
	if (D > 0) { V_REACH("some"); V_CHECK(r == D, "the number of bytes transferred is returned"); }
	else if (fail) { V_REACH("none"); V_CHECK(r == last && r <= 0, "with nothing transferred the result of the failed attempt is returned"); }
	else V_CHECK(r == 0, "nothing asked");
}
static void cut(bool w) {
	base(w); nseg = V_IN(int, 1, NSEG); int r = w ? kgl_ssl_writev(&SS, SEG, nseg) : kgl_ssl_readv(&SS, SEG, nseg);
	V_CHECK(heads == 1, "every list is walked"); ret(r); V_CHECK(fail || (cur + 1 == nseg && inseg == L), "it stops at a failure or when everything is transferred");
}
void S_read(void) { cut(false); }
void S_write(void) { cut(true); }
void T_read(void) { cut(false); }
void T_write(void) { cut(true); }
static void small(bool w) { base(w); nseg = V_IN(int, 1, 2); SEG[0].iov_base = B0; SEG[0].iov_len = V_IN(int, 0, 2); SEG[1].iov_base = B1; SEG[1].iov_len = V_IN(int, 0, 2); place(); int r = w ? kgl_ssl_writev(&SS, SEG, nseg) : kgl_ssl_readv(&SS, SEG, nseg); ret(r); V_CHECK(fail || cur == nseg, "it stops at a failure or when everything is transferred"); }
void H_read(void) { small(false); }
void H_write(void) { small(true); }
