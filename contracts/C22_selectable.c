/* Trying a pending socket operation and reporting it, on the real kselectable.c; the back end's operations enter by contract (C22_epoll.c). */
//@assume recvmsg, readv, writev, sendfile and OpenSSL meet their specification (errno EAGAIN after a TLS operation exactly if it wants to read or write); transfers below 2^28 bytes
//@ob H_read split="TLS:0,1" kind=proof unwind=4 hunwind=18 calls=kgl_ssl_readv:c_ssl_readv,kgl_ssl_writev:c_ssl_writev,kselectable_is_read_ready:c_ready_r,kselectable_is_write_ready:c_ready_w fn=selectable_read_event,selectable_event_read
//@ob H_write split="TLS:0,1" kind=proof unwind=4 hunwind=18 calls=kgl_ssl_readv:c_ssl_readv,kgl_ssl_writev:c_ssl_writev,kselectable_is_read_ready:c_ready_r,kselectable_is_write_ready:c_ready_w fn=selectable_write_event,selectable_event_write
//@ob H_sendfile split="TLS:0,1" kind=proof unwind=4 hunwind=18 calls=kgl_ssl_readv:c_ssl_readv,kgl_ssl_writev:c_ssl_writev,kselectable_is_read_ready:c_ready_r,kselectable_is_write_ready:c_ready_w fn=selectable_write_event,selectable_event_sendfile
//@ob H_udp kind=proof unwind=4 hunwind=18 calls=kgl_ssl_readv:c_ssl_readv,kgl_ssl_writev:c_ssl_writev,kselectable_is_read_ready:c_ready_r,kselectable_is_write_ready:c_ready_w fn=selectable_read_event,selectable_udp_read_event,selectable_recvmsg
//@ob H_next kind=proof unwind=4 hunwind=18 calls=kgl_ssl_readv:c_ssl_readv,kgl_ssl_writev:c_ssl_writev,kselectable_is_read_ready:c_ready_r,kselectable_is_write_ready:c_ready_w fn=selectable_next_read,selectable_next_write,selectable_read,selectable_write
//@ob H_clean kind=proof unwind=4 hunwind=18 calls=kgl_ssl_readv:c_ssl_readv,kgl_ssl_writev:c_ssl_writev,kselectable_is_read_ready:c_ready_r,kselectable_is_write_ready:c_ready_w fn=selectable_clean,selectable_remove
#ifndef TLS
#define TLS 0
#endif
#include "v.h"
#include <pthread.h>
struct kselector_s;
static struct kselector_s *v_tls; static void *v_tls_get(pthread_key_t k) { return v_tls; }
#define pthread_getspecific v_tls_get
static pthread_t v_self(void) { return (pthread_t)77; }
#define pthread_self v_self
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/uio.h>
/* the member of the back end table of the same name is renamed along */
#define sendfile v_sendfile
#include "kselector.h"
#include "kselectable.h"
#include "kasync_file.h"
#include "kfiber.h"
#include "kudp.h"
#include "v_memset.h"
#undef xfree
#define xfree v_free
#undef ksocket_close
#define ksocket_close v_close
int v_close(int f);
#define readv v_readv
#define writev v_writev
#define recvmsg v_recvmsg
#define kselector_add_list c_add_list
static ssize_t v_readv(int fd, const struct iovec *v, int n), v_writev(int fd, const struct iovec *v, int n), v_sendfile(int fd, int in, off_t *o, size_t n), v_recvmsg(int fd, struct msghdr *m, int fl);
static void c_add_list(kselector *s, kselectable *st, int l);
#include "src/kselectable.c"
pthread_key_t kgl_selector_key; kselector_module kgl_selector_module; volatile int64_t kgl_current_msec;
static kconnection CN; static kselector SEL; static kudp_extend UX; static kssl_session SS; static char arg_[4], ssl_[1]; static kgl_iovec IOV, SEG[1]; static kasync_file FILE_;
#define ST (CN.st)
static uint32_t f0, fl_at; static int fd, io_n, ion, iot, gres, nres, narm, armt, n_seg, nadd, addl, nready, readyt; static long long foff, flen; static bool sslhs; static int err_, sslerr;
static bool again;
static kev_result done(KOPAQUE d, void *a, int got) { V_CHECK(d == (void *)&arg_[3] && a == &arg_[0], "the operation's own callback, with its own data and argument"); nres++; gres = got; fl_at = ST.base.st_flags; return kev_destroy; }
static kev_result other(KOPAQUE d, void *a, int got) { V_CHECK(0, "the other direction's callback is not called"); return kev_ok; }
static kev_result rearm(int t, kselectable *st, result_callback r, kgl_iovec *b, void *a) { V_CHECK(st == &ST && r == done && a == &arg_[0] && b == &IOV, "it is put back with the same callback, argument and buffer"); narm++; armt = t; fl_at = st->base.st_flags; return kev_fiber_ok; }
static kev_result m_read(kselector *s, kselectable *st, result_callback r, kgl_iovec *b, void *a) { V_CHECK(s == &SEL, "its own selector"); return rearm(0, st, r, b, a); }
static kev_result m_write(kselector *s, kselectable *st, result_callback r, kgl_iovec *b, void *a) { V_CHECK(s == &SEL, "its own selector"); return rearm(1, st, r, b, a); }
static kev_result m_sendfile(kselectable *st, result_callback r, kgl_iovec *b, void *a) { return rearm(2, st, r, b, a); }
static int io(int t) { V_CHECK(nres == 0 && narm == 0, "tried before anything is reported"); ion++; iot = t; io_n = V_IN(int, -1, 1 << 28); err_ = V_IN(int, 1, 133); errno = err_; sslerr = V_IN(int, 0, 9);
	if (t >= 4) { V_ASSUME((io_n >= 0) == (sslerr == SSL_ERROR_NONE || sslerr == SSL_ERROR_ZERO_RETURN)); V_ASSUME(V_IMPLIES(io_n < 0, (err_ == EAGAIN) == (sslerr == SSL_ERROR_WANT_READ || sslerr == SSL_ERROR_WANT_WRITE))); }
	again = io_n < 0 && err_ == EAGAIN; return io_n; }
static void region(int f, const struct iovec *v, int n) { V_CHECK(f == fd && (void *)v == (void *)SEG && n == n_seg, "exactly the segments asked for, on this socket"); }
static ssize_t v_readv(int f, const struct iovec *v, int n) { region(f, v, n); return io(0); }
static ssize_t v_writev(int f, const struct iovec *v, int n) { region(f, v, n); return io(1); }
static int sf(int in, long long o, long long n) { V_CHECK(in == FILE_.st.fd && o == foff && n == flen, "the file's bytes from its position"); return io(TLS ? 6 : 2); }
static ssize_t v_sendfile(int f, int in, off_t *o, size_t n) { V_CHECK(f == fd && o && o != (off_t *)&FILE_.st.offset, "to this socket, without moving the file's position"); return sf(in, *o, n); }
ossl_ssize_t SSL_sendfile(SSL *s, int in, off_t o, size_t n, int fl) { V_CHECK(s == SS.ssl && fl == 0, "through this session"); return sf(in, o, n); }
int c_ssl_readv(kssl_session *s, kgl_iovec *b, int n) { V_CHECK(s == &SS, "this session"); region(fd, (struct iovec *)b, n); return io(4); }
int c_ssl_writev(kssl_session *s, kgl_iovec *b, int n) { V_CHECK(s == &SS, "this session"); region(fd, (struct iovec *)b, n); return io(5); }
int SSL_get_error(const SSL *s, int r) { V_CHECK(s == SS.ssl && ion && r == io_n, "the error of the last operation"); return sslerr; }
static bool ktls; static int spend; static int nfree, nshut, ncl, nrem;
long BIO_ctrl(BIO *b, int c, long l, void *p) { return ktls; }
BIO *SSL_get_wbio(const SSL *s) { return NULL; }
int SSL_pending(const SSL *s) { V_CHECK(s == SS.ssl, "this session"); return spend; }
void SSL_free(SSL *s) { V_CHECK(s == (SSL *)ssl_, "this session"); nfree++; }
bool kgl_ssl_support_sendfile(kssl_session *s) { return true; }
int SSL_read(SSL *s, void *b, int n) { return -1; } int SSL_write(SSL *s, const void *b, int n) { return -1; } int SSL_read_early_data(SSL *s, void *b, size_t n, size_t *g) { return 0; } int SSL_write_early_data(SSL *s, const void *b, size_t n, size_t *g) { return 0; }
static void c_add_list(kselector *s, kselectable *st, int l) { V_CHECK(s == &SEL && st == &ST, "this object on its selector"); nadd++; addl = l; fl_at = st->base.st_flags; }
static kev_result ready_(int t) { nready++; readyt = t; fl_at = ST.base.st_flags; return kev_fiber_ok; }
kev_result c_ready_r(kselector *s, kselectable *st) { V_CHECK(s == &SEL && st == &ST, "this object"); return ready_(0); }
kev_result c_ready_w(kselector *s, kselectable *st) { V_CHECK(s == &SEL && st == &ST, "this object"); return ready_(1); }
int ksocket_shutdown(SOCKET f, int how) { V_CHECK(f == fd && how == SHUT_RDWR && ncl == 0, "shut down before it is closed"); nshut++; return 0; }
int v_close(int f) { V_CHECK(f == fd && ncl == 0, "closed once"); ncl++; return 0; }
static void m_remove(kselector *s, kselectable *st) { V_CHECK(s == &SEL && st == &ST && ncl == 0, "removed from its selector before it is closed"); nrem++; }
static void base(void) {
	kconnection zc = {0}; CN = zc; kselector zs = {0}; SEL = zs; kasync_file zf = {0}; FILE_ = zf; kudp_extend zu = {0}; UX = zu; kssl_session zl = {0}; SS = zl; v_tls = &SEL; SEL.thread_id = 77; SS.ssl = (SSL *)ssl_;
	kgl_selector_module.read = m_read; kgl_selector_module.write = m_write; kgl_selector_module.sendfile = m_sendfile; kgl_selector_module.remove = m_remove;
	f0 = V_IN(long long, 0, 0xffff); ST.base.st_flags = f0; ST.base.selector = &SEL; ST.fd = fd = V_IN(int, 0, 1 << 20); ST.data = &arg_[3]; ST.e[0].result = ST.e[1].result = other;
	n_seg = V_IN(int, 1, 1 << 20); IOV.iov_base = (char *)SEG; IOV.iov_len = n_seg; nres = narm = ion = nadd = nready = 0; nfree = nshut = ncl = nrem = 0; again = false; sslhs = false;
#if TLS
	ST.ssl = &SS; sslhs = V_BOOL(); SS.handshake = sslhs;
#endif
}
static void arm(int d, kgl_iovec *b) { ST.e[d].result = done; ST.e[d].arg = &arg_[0]; ST.e[d].buffer = b; }
static void once(int t, uint32_t opf, uint32_t rf, kev_result r) {
	uint32_t f = ST.base.st_flags;
	V_CHECK(nres + narm == 1, "the operation is either put back or reported, once");
	V_CHECK((fl_at & opf) == 0, "it is not pending any more when it is reported or put back");
	if (again) { V_REACH("put back"); V_CHECK(narm == 1 && armt == t && !(fl_at & rf) && r == kev_fiber_ok, "an operation that would block is put back and the socket is not taken for ready"); }
	else { V_REACH("reported"); V_CHECK(nres == 1 && gres == io_n && r == kev_destroy, "any other outcome is reported with the bytes or the error"); }
	V_CHECK(((f ^ f0) & ~(opf | rf | STF_RREADY2 | STF_WREADY2 | STF_RDHUP)) == 0 && V_IMPLIES(f & rf, f0 & rf), "no other mark changes");
	V_CHECK(V_IMPLIES(io_n >= 0, (f & rf) == (f0 & rf)), "after a success the socket stays ready");
}
void H_read(void) {
	base(); bool nul = V_BOOL(); arm(OP_READ, nul ? NULL : &IOV); V_ASSUME((f0 & STF_READ) && !(f0 & STF_UDP)); bool et = f0 & STF_ET;
	kev_result r = selectable_read_event(&ST);
	if (nul) { V_REACH("no buffer"); V_CHECK(nres == 1 && gres == 0 && ion == 0 && narm == 0 && r == kev_destroy && (fl_at & STF_READ) == (et ? 0 : STF_READ), "without a buffer readiness itself is reported, internal counters stay watched"); return; }
	V_ASSUME(et); V_CHECK(ion == 1 && iot == (sslhs ? 4 : 0), "tried once, through TLS on a TLS connection"); once(0, STF_READ, STF_RREADY, r);
	V_CHECK(!(fl_at & STF_RREADY2), "buffered data is tried once");
}
void H_write(void) {
	base(); bool nul = V_BOOL(); arm(OP_WRITE, nul ? NULL : &IOV); V_ASSUME((f0 & (STF_WRITE | STF_RDHUP)) && !(f0 & (STF_UDP | STF_SENDFILE)));
	kev_result r = selectable_write_event(&ST);
	if (f0 & STF_ERR) { V_REACH("hung up"); V_CHECK(nres == 1 && gres == -1 && ion == 0 && narm == 0 && r == kev_destroy && !(fl_at & (STF_WRITE | STF_RDHUP)), "after a hang-up failure is reported"); return; }
	if (nul) { V_REACH("no buffer"); V_CHECK(nres == 1 && gres == 0 && ion == 0 && narm == 0 && !(fl_at & (STF_WRITE | STF_RDHUP)), "without a buffer readiness itself is reported"); return; }
	V_CHECK(ion == 1 && iot == (sslhs ? 5 : 1), "tried once, through TLS on a TLS connection"); once(1, STF_WRITE | STF_RDHUP, STF_WREADY, r);
	V_CHECK(!(fl_at & STF_WREADY2), "readiness asked for by the user is used once");
}
void H_sendfile(void) {
	base(); arm(OP_WRITE, &IOV); V_ASSUME((f0 & STF_WRITE) && (f0 & STF_SENDFILE) && !(f0 & STF_UDP)); IOV.iov_base = (char *)&FILE_; flen = V_IN(long long, 1, 1 << 30); IOV.iov_len = flen; foff = V_IN(long long, 0, 1LL << 60); FILE_.st.offset = foff; FILE_.st.fd = 9;
	kev_result r = selectable_write_event(&ST); V_CHECK(ion == 1 && iot == (TLS ? 6 : 2), "tried once, through TLS on a TLS connection");
	if (TLS && io_n < 0 && sslerr == SSL_ERROR_WANT_READ) { V_CHECK(nres + narm == 1, "once"); return; }
	once(2, STF_WRITE | STF_RDHUP | STF_SENDFILE, STF_WREADY, r); V_CHECK(FILE_.st.offset == foff, "the position is moved by the caller");
}
static struct msghdr mh;
static ssize_t v_recvmsg(int f, struct msghdr *m, int fl) { V_CHECK(f == fd && fl == 0, "this socket"); mh = *m; return io(3); }
int ksocket_addr_len(const sockaddr_i *a) { return sizeof(struct sockaddr_in6); }
void H_udp(void) {
	base(); arm(OP_READ, &IOV); V_ASSUME((f0 & STF_READ) && (f0 & STF_UDP) && (f0 & STF_ET)); bool ux = V_BOOL(); if (ux) CN.udp = &UX;
	kev_result r = selectable_read_event(&ST); V_CHECK(ion == 1 && iot == 3, "tried once"); V_CHECK(nres + narm == 1 && !(fl_at & STF_READ), "put back or reported, once");
	V_CHECK(mh.msg_name == (void *)&CN.addr && mh.msg_namelen >= sizeof(struct sockaddr_in) && mh.msg_namelen <= sizeof(CN.addr) && (void *)mh.msg_iov == (void *)SEG && mh.msg_iovlen == (size_t)n_seg, "the datagram goes to the segments asked for, its sender to the connection");
	if (ux) { V_REACH("packet info"); V_CHECK((char *)mh.msg_control == (char *)&UX && mh.msg_controllen > 0 && mh.msg_controllen <= sizeof(UX), "packet info goes to its buffer"); } else { V_REACH("no packet info"); V_CHECK(mh.msg_controllen == 0 && mh.msg_control == NULL, "no control buffer"); }
	if (io_n >= 0) { V_REACH("datagram"); V_CHECK(nres == 1 && gres == io_n && ST.base.st_flags == (f0 & ~STF_READ), "its length is reported"); }
	else if (err_ == EAGAIN || err_ == EINTR) { V_REACH("put back"); V_CHECK(narm == 1 && armt == 0, "put back"); V_CHECK(V_IMPLIES(err_ == EAGAIN, !(fl_at & STF_RREADY)), "not taken for ready"); }
	else { V_REACH("error"); V_CHECK(nres == 1 && gres < 0 && (gres == ST_ERR_NOMEM) == (err_ == ENOMEM), "an error is reported, lack of memory as such"); }
}
void H_next(void) {
	base(); int k = V_IN(int, 0, 3); kev_result r;
	if (k == 0) { V_REACH("next read"); V_ASSUME(!(f0 & (STF_READ | STF_RREADY2))); selectable_next_read(&ST, done, &arg_[0]); V_CHECK(nadd == 1 && addl == KGL_LIST_READY && (fl_at & STF_READ) && (fl_at & STF_RREADY2) && !(fl_at & STF_RDHUP) && ((fl_at ^ f0) & ~(STF_READ | STF_RREADY2 | STF_RDHUP)) == 0 && ST.e[OP_READ].result == done && ST.e[OP_READ].arg == &arg_[0] && ST.e[OP_READ].buffer == NULL && ST.e[OP_WRITE].result == other, "the callback is queued as ready to read"); return; }
	if (k == 1) { V_REACH("next write"); V_ASSUME(!(f0 & (STF_WRITE | STF_WREADY2))); selectable_next_write(&ST, done, &arg_[0]); V_CHECK(nadd == 1 && addl == KGL_LIST_READY && (fl_at & STF_WRITE) && (fl_at & STF_WREADY2) && ((fl_at ^ f0) & ~(STF_WRITE | STF_WREADY2 | STF_RDHUP)) == 0 && ST.e[OP_WRITE].result == done && ST.e[OP_WRITE].arg == &arg_[0] && ST.e[OP_WRITE].buffer == NULL && ST.e[OP_READ].result == other, "the callback is queued as ready to write"); return; }
	bool hs = V_BOOL(); if (V_BOOL()) { ST.ssl = &SS; SS.handshake = hs; } else hs = false; SS.in_early = V_BOOL(); spend = V_IN(int, 0, 1 << 20);
	if (k == 2) { V_ASSUME(!(f0 & (STF_READ | STF_RREADY2))); r = selectable_read(&ST, done, &IOV, &arg_[0]);
		if (hs && (SS.in_early || spend > 0)) { V_REACH("buffered"); V_CHECK(nready == 1 && readyt == 0 && narm == 0 && (fl_at & STF_READ) && ST.e[OP_READ].result == done && ST.e[OP_READ].arg == &arg_[0] && ST.e[OP_READ].buffer == &IOV && ((fl_at ^ f0) & ~(STF_READ | STF_RREADY2 | STF_RDHUP)) == 0, "data TLS has already taken from the socket is read without waiting for the socket"); return; }
		V_REACH("read"); V_CHECK(narm == 1 && armt == 0 && nready == 0 && fl_at == f0, "otherwise the back end reads"); return; }
	V_ASSUME(!(f0 & (STF_WRITE | STF_WREADY2))); r = selectable_write(&ST, done, &IOV, &arg_[0]); V_REACH("write"); V_CHECK(narm == 1 && armt == 1 && fl_at == f0, "the back end writes");
}
void H_clean(void) {
	base(); V_ASSUME(!(f0 & (STF_LOCK | STF_AIO_FILE))); bool open = V_BOOL(), sel = V_BOOL(), ss = V_BOOL(); if (!open) ST.fd = INVALID_SOCKET; if (!sel) ST.base.selector = NULL; kssl_session *p = V_NEWZ(kssl_session); p->ssl = (SSL *)ssl_; if (ss) ST.ssl = p;
	v_nfreed = 0; selectable_clean(&ST); V_REACH("cleaned"); V_CHECK(nrem == (open && sel) && nshut == open && ncl == open && nfree == ss && v_times_freed(p) == ss, "an open socket is removed, shut down and closed once, its TLS session released once");
}
