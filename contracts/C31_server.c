/* Listeners and servers: opening, accepting, closing, certificates and references, on the real kserver.c. The event loop, sockets, connections and TLS enter by contract. */
//@assume the event loop back end meets C22/C23; every listener holds one server reference; fewer than 2^28 references; xmalloc succeeds; the addresses filled in by the kernel fit the object given
//@ob H_init kind=proof unwind=3 hunwind=18 fn=kserver_init,kserver_release,kserver_free
//@ob H_release kind=proof unwind=3 hunwind=18 fn=kserver_release,kserver_free,kgl_release_ssl_ctx
//@ob H_listen kind=proof unwind=14 hunwind=18 fn=kserver_listen,kserver_listen_on_selector,add_server_socket,kserver_selectable_init
//@ob H_exist kind=proof unwind=3 hunwind=18 calls=kserver_selectable_destroy:c_destroy fn=kserver_open_exsit,add_server_socket,kserver_selectable_init,kserver_selectable_start,kserver_next_accept
//@ob H_open kind=proof unwind=66 hunwind=66 calls=kserver_listen_on_selector:c_listen,kserver_selectable_start:c_start,kserver_selectable_destroy:c_destroy fn=kserver_open
//@ob H_start kind=proof unwind=3 hunwind=18 calls=kserver_selectable_destroy:c_destroy fn=kserver_selectable_start,kserver_next_accept,kserver_selectable_accept
//@ob H_event kind=proof unwind=3 hunwind=18 fn=kselector_event_accept
//@ob H_result kind=proof unwind=3 hunwind=18 fn=accept_result_new_connection,kserver_get_socket
//@ob H_callback kind=proof unwind=3 hunwind=18 calls=accept_result_new_connection:c_accepted,kserver_get_perfect_selector:c_perfect,kserver_selectable_destroy:c_destroy fn=KACCEPT_CALLBACK
//@ob H_perfect kind=proof unwind=3 hunwind=18 fn=kserver_get_perfect_selector,is_server_multi_selectable
//@ob H_destroy kind=proof unwind=3 hunwind=18 fn=kserver_selectable_destroy,kserver_selectable_free,kserver_release,kserver_free
//@ob S_close defs=-DCUT kind=proof unwind=3 hunwind=18 replayable=0 hook=server_close fallback=H_close fn=kserver_close
//@ob H_close kind=bounded bound="<=3 listeners" unwind=5 hunwind=18 tier=thorough fn=kserver_close
//@ob S_setctx defs="-DCUT -DSETCTX" kind=proof unwind=3 hunwind=18 replayable=0 hook=server_set_ctx fallback=H_setctx fn=kserver_set_ssl_ctx,kserver_selectable_update_ssl_ctx
//@ob H_setctx kind=bounded bound="<=3 listeners" unwind=5 hunwind=18 tier=thorough fn=kserver_set_ssl_ctx
//@ob H_update kind=proof unwind=3 hunwind=18 fn=kserver_ssl_ctx_next_update,kserver_selectable_update_ssl_ctx
//@ob H_bind kind=proof opts="--no-signed-overflow-check --no-undefined-shift-check" unwind=3 hunwind=18 calls=kserver_set_ssl_ctx:c_setctx fn=kserver_bind
struct kgl_list_s;
static int hd(void **pos);
#ifdef CUT
#define KGL_LOOP_CONTRACT_server_close if (hd((void **)&pos)) break; else
#define KGL_LOOP_CONTRACT_server_set_ctx if (hd((void **)&pos)) break; else
#endif
#include "v.h"
#include <pthread.h>
struct kselector_s;
static struct kselector_s *v_tls; static void *v_tls_get(pthread_key_t k) { return v_tls; }
#define pthread_getspecific v_tls_get
static pthread_mutex_t *held; static int nlock; static void env_unlock(void);
static int v_lock(pthread_mutex_t *m) { V_CHECK(held == NULL, "the lock is not taken twice"); held = m; nlock++; return 0; }
static int v_unlock(pthread_mutex_t *m) { V_CHECK(held == m, "only the lock held is released"); env_unlock(); held = NULL; return 0; }
static int n_mi, n_md; static int v_minit(pthread_mutex_t *m) { n_mi++; return 0; } static int v_mdestroy(pthread_mutex_t *m) { V_CHECK(held == NULL, "an idle lock is destroyed"); n_md++; return 0; }
#define pthread_mutex_lock v_lock
#define pthread_mutex_unlock v_unlock
#define pthread_mutex_init(m, a) v_minit(m)
#define pthread_mutex_destroy(m) v_mdestroy(m)
#include <unistd.h>
#include <sys/socket.h>
static int n_closed, closed_fd; static int v_close(int fd) { n_closed++; closed_fd = fd; return 0; }
static int n_shut, shut_fd, shut_how; static void env_shut(int fd); static int v_shutdown(int fd, int how) { n_shut++; shut_fd = fd; shut_how = how; env_shut(fd); return V_IN(int, -1, 0); }
static int n_gsn, gsn_r, gsn_fd; static bool gsn_unix; static uint16_t gsn_port;
static int v_getsockname(int fd, struct sockaddr *a, socklen_t *l);
#define close(a) v_close(a)
#define shutdown(a, b) v_shutdown(a, b)
#define getsockname(a, b, c) v_getsockname(a, b, c)
#define free v_free
#include "kselector.h"
#include "kconnection.h"
#include "kserver.h"
#include "klog.h"
#include "kfiber.h"
#include "kselector_manager.h"
#undef klog
#define klog(...) ((void)0)
#include "v_memset.h"
static kserver *S; static kserver_selectable *P, *A, *B; static kgl_ssl_ctx *CT, *CT2; static kconnection *CN; static kselector SEL, SEL2;
static int sr0, rr0, cr0, n_bind, n_lis, n_acc, n_next, n_cb, n_user, n_dest, n_perf, n_free_opaque, n_ctxfree, n_sleep; static bool acc_ok; static kselector *bind_sel, *next_sel, *perf; static kselectable *bind_st;
static result_callback lis_cb, next_cb; static kserver_selectable *lis_ss, *acc_ss, *dest_ss; static void *acc_arg, *next_arg; static KOPAQUE next_data; static int next_got; static char data_[1], arg_[1], op_[1]; static uint32_t f0; static SSL_CTX *ctxfreed; static char sslctx_[1], sslctx2_[1]; static bool main_;
static void v_bind(kselector *s, kselectable *st) { n_bind++; bind_sel = s; bind_st = st; st->base.selector = s; }
static bool v_listen(kserver_selectable *ss, result_callback cb) { V_CHECK(n_bind > 0 && ss->st.data == ss, "a listener listens on a loop it was given to"); n_lis++; lis_ss = ss; lis_cb = cb; ss->st.e[OP_WRITE].result = cb; ss->st.e[OP_READ].result = kselector_event_accept; return true; }
static bool v_accept(kserver_selectable *ss, void *arg) { V_CHECK(V_LIVE(ss), "a living listener accepts"); n_acc++; acc_ss = ss; acc_arg = arg; acc_ok = V_BOOL(); return acc_ok; }
static void v_next(kselector *s, KOPAQUE d, result_callback cb, void *a, int g) { n_next++; next_sel = s; next_data = d; next_cb = cb; next_arg = a; next_got = g; }
void SSL_CTX_free(SSL_CTX *c) { n_ctxfree++; ctxfreed = c; }
kselector *get_perfect_selector(void) { n_perf++; return perf; }
bool kfiber_is_main(void) { return main_; }
void kgl_msleep(int m) { V_CHECK(main_ && m > 0, "outside a fiber the thread waits"); n_sleep++; }
int kfiber_msleep(int m) { V_CHECK(!main_ && m > 0, "in a fiber only the fiber waits"); n_sleep++; return 0; }
static int n_sl, fd_; static const sockaddr_i *sl_addr; static int sl_flag; SOCKET ksocket_listen(const sockaddr_i *a, int flag) { n_sl++; sl_addr = a; sl_flag = flag; fd_ = V_IN(int, -1, 1000); return fd_; }
static int n_ka, ka_errno, ka_fd; SOCKET ksocket_accept(SOCKET s, sockaddr_i *a, bool nb) { V_CHECK(s == P->st.fd && a == &P->accept_addr && nb, "a nonblocking connection of this listener, its address kept"); n_ka++; errno = ka_errno; return ka_fd; }
static int n_kn, n_kssl, n_kd; static sockaddr_i *kn_addr; static bool kssl_ok; kconnection *kconnection_new(sockaddr_i *a) { n_kn++; kn_addr = a; CN = V_NEWZ(kconnection); CN->st.fd = INVALID_SOCKET; return CN; }
bool kconnection_ssl_accept(kconnection *c, SSL_CTX *x) { V_CHECK(c == CN && x == (SSL_CTX *)sslctx_ && c->st.fd == ka_fd, "TLS with the listener's certificate on the accepted socket"); n_kssl++; return kssl_ok; }
void kconnection_real_destroy(kconnection *c) { V_CHECK(c == CN && c->server == S && c->st.fd == ka_fd, "the connection is given up with its socket and server reference"); n_kd++; S->refs--; v_free(c); }
static int n_ga; static bool ga_ok, ga_unix; static const char *ga_host; static uint16_t ga_port; bool ksocket_getaddr(const char *h, uint16_t p, int fam, int fl, sockaddr_i *a) { V_CHECK(a == &S->addr, "into the server's address"); n_ga++; ga_host = h; ga_port = p; if (ga_ok) a->v4.sin_family = AF_INET; return ga_ok; }
static int n_ua; int ksocket_unix_addr(const char *p, struct sockaddr_un *a) { V_CHECK(a == &S->un_addr, "into the server's address"); n_ua++; ga_host = p; a->sun_family = AF_UNIX; return 0; }
bool ksocket_sockaddr_ip(const sockaddr_i *a, char *ip, int l) { return false; }
static int nsel, isel; int get_selector_count(void) { return nsel; }
kselector *get_selector_by_index(int i) { V_CHECK(i == isel, "each loop in turn"); isel++; return i == 3 ? &SEL : &SEL2; }
kev_result c_accept_cb(KOPAQUE d, void *a, int got) { return kev_ok; }
#include "src/kserver.c"
pthread_key_t kgl_selector_key; kselector_module kgl_selector_module; volatile int64_t kgl_current_msec;
static int v_getsockname(int fd, struct sockaddr *a, socklen_t *l) { V_CHECK((void *)a == (void *)&S->addr && *l >= (socklen_t)sizeof(struct sockaddr_in) && *l <= (socklen_t)(sizeof(*S) - offsetof(kserver, addr)), "the server's own address"); n_gsn++; gsn_fd = fd; if (gsn_r == 0) { S->addr.v4.sin_family = gsn_unix ? AF_UNIX : AF_INET; S->addr.v4.sin_port = gsn_port; } return gsn_r; }
static void free_op(KOPAQUE d) { V_CHECK(d == (KOPAQUE)op_, "the owner's data"); n_free_opaque++; }
static void link2(kgl_list *a, kgl_list *b) { a->next = b; b->prev = a; }
static kgl_ssl_ctx *mkctx(char *p) { kgl_ssl_ctx *c = V_NEWZ(kgl_ssl_ctx); c->ctx = (SSL_CTX *)p; c->refs = V_IN(int, 2, 1 << 28); return c; }
static kserver_selectable *mkss(void) { kserver_selectable *s = V_NEWZ(kserver_selectable); s->server = S; s->refs = V_IN(int, 1, 1 << 28); s->st.fd = V_IN(int, 0, 1000); s->st.data = s; s->st.base.selector = &SEL; s->st.base.st_flags = V_U16(); s->st.e[OP_READ].result = kselector_event_accept; s->st.e[OP_WRITE].result = c_accept_cb; s->st.e[OP_WRITE].arg = arg_; return s; }
static void env_unlock(void) {}
static void env_shut(int fd) { V_CHECK(held == &S->ss_lock, "a listener cannot go away while it is shut down"); }
static void base(bool tls) {
	static kselector z; SEL = z; SEL2 = z; v_tls = &SEL; S = V_NEWZ(kserver); S->refs = sr0 = V_IN(int, 4, 1 << 28); S->flags = f0 = V_U32(); S->ss.next = S->ss.prev = &S->ss; S->free_opaque = V_BOOL() ? free_op : NULL; S->data = (KOPAQUE)op_; CT = CT2 = NULL; A = B = P = NULL;
	S->addr.v4.sin_family = V_BOOL() ? AF_INET : V_BOOL() ? AF_INET6 : AF_UNIX; S->addr.v4.sin_port = V_U16();
	if (tls) { CT = mkctx(sslctx_); S->ssl_ctx = CT; cr0 = CT->refs; } main_ = V_BOOL(); perf = &SEL2; held = NULL; v_nfreed = 0;
	kgl_selector_module.bind = v_bind; kgl_selector_module.listen = v_listen; kgl_selector_module.accept = v_accept; kgl_selector_module.next = v_next;
	n_closed = n_shut = n_gsn = n_bind = n_lis = n_acc = n_next = n_cb = n_user = n_dest = n_perf = n_free_opaque = n_ctxfree = n_sleep = n_sl = n_ka = n_kn = n_kssl = n_kd = n_ga = n_ua = nlock = n_mi = n_md = isel = 0; gsn_r = V_IN(int, -1, 0); gsn_unix = V_BOOL(); gsn_port = V_U16(); ka_errno = V_IN(int, 1, 133); ka_fd = V_IN(int, -1, 1000); kssl_ok = V_BOOL(); ga_ok = V_BOOL();
}
/* the list: [A] P [B], each neighbour there or not; only the neighbours of a place are ever touched */
static void listed(bool withp) {
	kgl_list *h = &S->ss, *l = h; if (V_BOOL()) { A = mkss(); link2(l, &A->queue); l = &A->queue; } P = mkss(); rr0 = P->refs; if (withp) { link2(l, &P->queue); l = &P->queue; } if (V_BOOL()) { B = mkss(); link2(l, &B->queue); l = &B->queue; } link2(l, h);
	if (CT) { P->ssl_ctx = CT; }
}
static void list_is(bool withp) { kgl_list *h = &S->ss, *l = h; if (A) { V_CHECK(l->next == &A->queue && A->queue.prev == l, "the list of listeners"); l = &A->queue; } if (withp) { V_CHECK(l->next == &P->queue && P->queue.prev == l, "the list of listeners"); l = &P->queue; } if (B) { V_CHECK(l->next == &B->queue && B->queue.prev == l, "the list of listeners"); l = &B->queue; } V_CHECK(l->next == h && h->prev == l, "the list of listeners"); }
void H_init(void) {
	base(false); n_mi = 0; kserver *s = kserver_init(); V_CHECK(s->refs == 1 && s->flags == 0 && s->ss.next == &s->ss && s->ss.prev == &s->ss && n_mi == 1 && s->ssl_ctx == NULL && s->free_opaque == NULL, "a new server has one reference and no listener"); V_REACH("new");
	S = s; kserver_set_opaque(s, free_op, (KOPAQUE)op_); V_CHECK(kserver_get_opaque(s) == (KOPAQUE)op_, "the owner's data is kept"); kserver_release(s); V_CHECK(v_times_freed(s) == 1 && n_free_opaque == 1 && n_md == 1, "the last reference frees it");
}
void H_release(void) {
	base(V_BOOL()); bool op = S->free_opaque != NULL; kserver *s = S; S->refs = sr0 = V_IN(int, 1, 1 << 28); if (CT) CT->refs = cr0 = V_IN(int, 1, 1 << 28); kserver_release(S);
	if (sr0 > 1) { V_REACH("held"); V_CHECK(s->refs == sr0 - 1 && v_nfreed == 0 && n_free_opaque == 0 && n_md == 0 && n_ctxfree == 0, "a server in use stays"); return; }
	V_REACH("freed"); V_CHECK(v_times_freed(s) == 1 && n_md == 1 && n_free_opaque == (op ? 1 : 0), "the last reference frees the server and tells its owner once");
	if (CT && cr0 == 1) V_CHECK(n_ctxfree == 1 && ctxfreed == (SSL_CTX *)sslctx_ && v_times_freed(CT) == 1 && v_nfreed == 2, "its certificate goes with it"); else { V_CHECK(n_ctxfree == 0 && v_nfreed == 1, "only its own reference to the certificate goes"); if (CT) V_CHECK(CT->refs == cr0 - 1, "one certificate reference is given up"); }
}
static void fresh(kserver_selectable *ss, kselector *where, int fd) {
	V_CHECK(S->ss.prev == &ss->queue && ss->queue.next == &S->ss, "the listener is in the server's list"); V_CHECK(ss->server == S && S->refs == sr0 + 1 && ss->refs == 1, "it holds one server reference"); V_CHECK(ss->st.fd == fd && ss->st.data == ss && n_bind == 1 && bind_st == &ss->st && bind_sel == where, "it belongs to the loop asked for"); V_CHECK(n_lis == 1 && lis_ss == ss && lis_cb == c_accept_cb, "it reports to the caller's callback");
	V_CHECK(ss->ssl_ctx == CT, "it has the server's certificate"); if (CT) V_CHECK(CT->refs == cr0 + 1, "with a reference of its own"); V_CHECK(n_closed == 0 && v_nfreed == 0, "nothing is given up");
}
void H_listen(void) {
	base(V_BOOL()); kgl_failed_tries = V_IN(int, 0, 11); int ft = kgl_failed_tries, flag = V_INT(), port = ksocket_addr_port(&S->addr); listed(true); P->ssl_ctx = NULL; kserver_selectable *ss = kserver_listen(S, flag, c_accept_cb);
	V_CHECK(n_sl >= 1 && sl_addr == &S->addr && (sl_flag & ~KSOCKET_REUSEPORT) == (flag & ~KSOCKET_REUSEPORT) && (sl_flag & KSOCKET_REUSEPORT), "listens on the server's address with the caller's options");
	V_CHECK(n_sleep == n_sl - 1 && n_sl <= 12 - ft, "it waits before each further attempt, and gives up in the end");
	if (ss == NULL) { V_REACH("failed"); V_CHECK(fd_ == -1 && S->refs == sr0 && n_bind == 0 && n_lis == 0, "a failure leaves nothing behind"); list_is(true); if (CT) V_CHECK(CT->refs == cr0, "nor a certificate reference"); return; }
	V_REACH("listening"); V_CHECK(fd_ >= 0, "only an open socket listens"); fresh(ss, &SEL, fd_); if (port == 0) V_CHECK(n_gsn == 1 && gsn_fd == fd_, "a port chosen by the system is learned"); else V_CHECK(n_gsn == 0, "a given port stays");
}
kconnection *c_accepted(KOPAQUE d, int got); kselector *c_perfect(kserver_selectable *ss); void c_destroy(kserver_selectable *ss) { V_CHECK(n_dest == 0, "a listener is given up once"); n_dest++; dest_ss = ss; v_free(ss); }
void H_exist(void) {
	base(V_BOOL()); int fd = V_IN(int, 0, 1000); bool ok = kserver_open_exsit(S, fd, c_accept_cb); V_CHECK(n_gsn == 1 && gsn_fd == fd, "the socket's own address is learned");
	if (!ok) { V_REACH("refused"); V_CHECK(gsn_r != 0 && S->refs == sr0 && S->ss.next == &S->ss && S->flags == f0, "a failure leaves nothing behind"); return; }
	V_CHECK(gsn_r == 0 && KBIT_TEST(S->flags, KGL_SERVER_START) && (KBIT_TEST(S->flags, KGL_SERVER_UNIX) != 0) == gsn_unix, "the server is started"); V_CHECK(n_acc == 1 && lis_ss == acc_ss && acc_arg == NULL, "it accepts at once");
	if (acc_ok) { V_REACH("open"); fresh(lis_ss, &SEL, fd); V_CHECK(n_dest == 0, "and stays"); } else { V_REACH("accept failed"); V_CHECK(n_dest == 1 && dest_ss == lis_ss, "a listener that cannot accept is given up"); }
}
static int lis_i, st_i; static bool any; static kserver_selectable *cur;
kserver_selectable *c_listen(kselector *s, kserver *sv, int flag, result_callback cb) { V_CHECK(sv == S && cb == c_accept_cb && (flag & KSOCKET_REUSEPORT) && lis_i == isel - 1 && lis_i == st_i, "one listener after the other"); V_CHECK(s == (lis_i == 3 ? &SEL : &SEL2), "on its own loop"); lis_i++; cur = NULL; if (V_BOOL()) { cur = P; any = true; } else st_i++; return cur; }
void c_start(kserver_selectable *ss) { V_CHECK(ss == cur && cur != NULL && KBIT_TEST(S->flags, KGL_SERVER_START), "a new listener is started once, on a started server"); cur = NULL; st_i++; }
void H_open(void) {
	base(false); P = mkss(); nsel = V_IN(int, 0, 64); lis_i = st_i = 0; any = false; V_ASSUME(!(f0 & KGL_SERVER_START)); bool r = kserver_open(S, V_INT(), c_accept_cb);
	V_CHECK(lis_i == nsel && st_i == nsel, "every loop gets a listener, and every listener is started"); V_CHECK(r == any && (KBIT_TEST(S->flags, KGL_SERVER_START) != 0) == any, "the server is open if at least one listener is"); if (r) V_REACH("open"); else V_REACH("failed");
}
void H_start(void) {
	base(false); P = mkss(); P->st.base.selector = V_BOOL() ? &SEL : &SEL2; kserver_selectable *ss = P;
	if (V_BOOL()) { P->st.base.st_flags = 0; void *a = arg_; bool r = kserver_selectable_accept(P, a); V_CHECK(n_acc == 1 && acc_ss == P && acc_arg == a && r == acc_ok && n_dest == 0, "an accept is armed once with the caller's argument"); return; }
	bool here = P->st.base.selector == &SEL; kserver_selectable_start(P);
	if (!here) { V_REACH("other loop"); V_CHECK(n_acc == 0 && n_next == 1 && next_sel == &SEL2, "a listener is only touched by its own loop"); v_tls = &SEL2; next_cb(next_data, next_arg, next_got); }
	V_CHECK(n_acc == 1 && acc_ss == ss && acc_arg == NULL && n_dest == (acc_ok ? 0 : 1), "it accepts, or is given up"); if (here) V_REACH("own loop");
}
static int cb_got; static kev_result cb_ret; static void *cb_arg; static KOPAQUE cb_data; static kev_result accept_cb(KOPAQUE d, void *a, int got) { V_CHECK(n_cb == 0, "reported once"); n_cb++; cb_data = d; cb_arg = a; cb_got = got; v_free(P); return cb_ret; }
void H_event(void) {
	base(false); P = mkss(); P->st.base.st_flags &= ~STF_RREADY2; uint16_t fl = P->st.base.st_flags |= STF_RREADY; P->st.e[OP_WRITE].result = accept_cb; cb_ret = V_BOOL() ? kev_ok : kev_destroy; kserver_selectable *ss = P; kev_result r = kselector_event_accept((KOPAQUE)ss, ss, V_INT());
	V_CHECK(n_ka == 1, "one connection is taken"); bool err = (fl & STF_ERR) != 0;
	if (n_cb) V_CHECK(cb_data == (KOPAQUE)ss && cb_arg == (void *)arg_ && r == cb_ret && cb_got == ka_fd, "the outcome is reported with the caller's data and argument"); else V_CHECK(n_acc == 1 && acc_ok && acc_ss == ss && acc_arg == (void *)arg_ && r == kev_ok && ka_fd < 0, "or the wait goes on");
	if (ka_fd >= 0) { V_REACH("connection"); V_CHECK(n_cb == 1 && n_acc == 0, "a connection is delivered"); return; }
	if (err) { V_REACH("closed"); V_CHECK(n_cb == 1 && n_acc == 0, "a listener shut down is reported"); return; }
	if (ka_errno == EAGAIN || ka_errno == ECONNABORTED || ka_errno == EINTR) { V_CHECK(n_acc == 1, "nothing to accept, or a connection that was aborted, does not end a listener"); if (acc_ok) { V_REACH("again"); V_CHECK(n_cb == 0 && ((ss->st.base.st_flags & STF_RREADY) != 0) == (ka_errno != EAGAIN), "it waits for the next readiness only if there is nothing left"); } else { V_REACH("lost"); V_CHECK(n_cb == 1, "a listener that cannot wait is reported"); } return; }
	if (n_cb == 0) V_CHECK(ss->st.base.st_flags & STF_RREADY, "it tries again while there may be more"); V_REACH("error");
}
void H_result(void) {
	base(V_BOOL()); P = mkss(); P->ssl_ctx = CT; kserver_selectable *ss = P; kconnection *c = accept_result_new_connection((KOPAQUE)P, ka_fd);
	if (ka_fd < 0) { V_REACH("no connection"); V_CHECK(c == NULL && n_kn == 0 && S->refs == sr0 && n_closed == 0, "a failure makes no connection"); return; }
	V_CHECK(n_kn == 1 && kn_addr == &ss->accept_addr && n_kssl == (CT ? 1 : 0), "a connection with the peer's address"); V_CHECK(V_RW_OK(kn_addr, sizeof(struct sockaddr_un)), "a unix address is read whole");
	if (CT && !kssl_ok) { V_REACH("no TLS"); V_CHECK(c == NULL && n_kd == 1 && S->refs == sr0 && n_closed == 0, "without a TLS session the connection is closed once"); return; }
	V_REACH("connection"); V_CHECK(c == CN && n_kd == 0 && c->st.fd == ka_fd && c->server == S && S->refs == sr0 + 1, "it owns the socket and holds one server reference");
}
static kconnection *made; static bool tls_fails; kconnection *c_accepted(KOPAQUE d, int got) { V_CHECK(d == (KOPAQUE)P && n_kn == 0, "the connection of this event"); n_kn++; if (got < 0 || tls_fails) return NULL; made = V_NEWZ(kconnection); made->st.fd = got; made->server = S; return made; }
kselector *c_perfect(kserver_selectable *ss) { V_CHECK(ss == P, "for this listener"); return perf; }
static int user_got; static kconnection *user_cn; static bool user_stops; KACCEPT_CALLBACK(acc) { V_CHECK(n_user == 0, "the user sees each connection once"); n_user++; user_cn = (kconnection *)arg; user_got = got; if (user_stops) KBIT_CLR(S->flags, KGL_SERVER_START); return kev_ok; }
void H_callback(void) {
	base(false); P = mkss(); perf = V_BOOL() ? &SEL : &SEL2; tls_fails = V_BOOL(); user_stops = V_BOOL(); made = NULL; kserver_selectable *ss = P; int got = ka_fd; acc((KOPAQUE)P, NULL, got); V_CHECK(n_kn == 1, "one connection per event");
	if (got < 0) { V_REACH("ended"); V_CHECK(n_dest == 1 && dest_ss == ss && n_acc == 0 && n_user == 0 && n_next == 0, "a failed listener is given up once"); return; }
	if (made == NULL) { V_REACH("connection failed"); V_CHECK(n_user == 0 && n_next == 0 && n_bind == 0, "no connection, no user call"); }
	else { V_CHECK(n_bind == 1 && bind_st == &made->st && bind_sel == perf, "the connection belongs to the chosen loop"); if (perf == &SEL) { V_REACH("own loop"); V_CHECK(n_user == 1 && user_cn == made && user_got == got && n_next == 0, "the user gets it"); } else { V_REACH("other loop"); V_CHECK(n_user == 0 && n_next == 1 && next_sel == perf && next_arg == made && next_got == got && next_cb != NULL, "the user gets it, on the connection's own loop"); n_user = 0; next_cb(next_data, next_arg, next_got); V_CHECK(n_user == 1 && user_cn == made, "the user gets it"); } }
	bool started = (f0 & KGL_SERVER_START) != 0, stopped_in_time = made && perf == &SEL && user_stops;
	if (!started || stopped_in_time) { V_REACH("server closed"); V_CHECK(n_dest == 1 && dest_ss == ss && n_acc == 0, "a closed server's listener is given up"); } else { V_CHECK(n_acc == 1 && acc_ss == ss, "one connection's failure does not end the listener"); V_CHECK(n_dest == (acc_ok ? 0 : 1), "it goes on accepting, or is given up"); if (acc_ok) V_REACH("accepting"); }
}
void H_perfect(void) {
	base(false); listed(true); P->st.base.selector = V_BOOL() ? &SEL : &SEL2; kselector *s = kserver_get_perfect_selector(P); if (A || B) { V_REACH("many"); V_CHECK(s == P->st.base.selector && n_perf == 0, "with a listener per loop a connection stays on the loop that accepted it"); } else { V_REACH("one"); V_CHECK(s == perf && n_perf == 1, "a single listener spreads its connections"); } list_is(true); V_CHECK(held == NULL && nlock == 1, "under the lock");
}
void H_destroy(void) {
	base(V_BOOL()); bool inlist = V_BOOL(); listed(inlist); if (!inlist) P->queue.next = P->queue.prev = NULL; kserver_selectable *ss = P; int fd = P->st.fd; if (V_BOOL()) { P->st.fd = INVALID_SOCKET; fd = -1; } bool op = S->free_opaque != NULL; if (CT) CT->refs = cr0 = V_IN(int, 2, 1 << 28);
	int others = (A != NULL) + (B != NULL); S->refs = sr0 = V_IN(int, 1, 1 << 28); V_ASSUME(sr0 >= 1 + others); P->refs = rr0 = V_IN(int, 1, 1 << 28); kserver *s = S; kserver_selectable_destroy(P);
	V_CHECK(n_closed == (fd >= 0 ? 1 : 0) && (fd < 0 || closed_fd == fd), "its socket is closed once"); V_CHECK(held == NULL, "the lock is free");
	if (rr0 > 1) { V_REACH("still held"); V_CHECK(v_nfreed == 0 && ss->refs == rr0 - 1 && ss->st.fd == INVALID_SOCKET && s->refs == sr0, "a listener with work on its way stays until that has run"); list_is(false); return; }
	V_CHECK(v_times_freed(ss) == 1, "the listener is freed once"); if (sr0 > 1) { V_REACH("server stays"); V_CHECK(s->refs == sr0 - 1 && v_nfreed == 1 && n_free_opaque == 0, "it gives up its server reference"); list_is(false); if (CT) V_CHECK(CT->refs == cr0 - 1, "and its certificate reference"); }
	else { V_REACH("server goes"); V_CHECK(v_times_freed(s) == 1 && n_free_opaque == (op ? 1 : 0) && n_md == 1, "the last one frees the server"); if (CT) V_CHECK(cr0 == 2 ? (n_ctxfree == 1 && v_times_freed(CT) == 1) : (CT->refs == cr0 - 2 && n_ctxfree == 0), "and both certificate references"); }
}
/* one arbitrary step of the loop over the listeners */
static int arrivals; static bool stepped; static void step_check(void);
static int hd(void **pos) {
	kgl_list *p = *(kgl_list **)pos;
	if (arrivals++ == 0) { V_CHECK(p == (A ? &A->queue : P ? &P->queue : B ? &B->queue : &S->ss) && held == &S->ss_lock, "the walk begins at the first listener, under the lock"); if (V_BOOL()) { V_REACH("any listener"); stepped = true; n_shut = 0; n_next = 0; *pos = &P->queue; return 0; } V_REACH("all done"); *pos = &S->ss; return 1; }
	V_CHECK(p == (B ? &B->queue : &S->ss), "the walk goes on with the next listener"); step_check(); V_ASSUME(0); return 1;
}
#ifdef CUT
void S_close(void) { base(false); listed(true); arrivals = 0; stepped = false; kserver_close(S); if (stepped) { step_check(); V_CHECK(B == NULL && held == NULL, "the walk ends after the last listener"); return; } V_CHECK(!(S->flags & KGL_SERVER_START) && (S->flags | KGL_SERVER_START) == (f0 | KGL_SERVER_START) && held == NULL && v_nfreed == 0 && S->refs == sr0, "the server is closed but not released"); list_is(true); }
#ifndef SETCTX
static void step_check(void) { V_CHECK(!(S->flags & KGL_SERVER_START) && n_shut == 1 && shut_fd == P->st.fd && shut_how == SHUT_RDWR && n_closed == 0, "each listener is shut down once after the server is marked closed"); }
#else
static void step_check(void) {
	if (f0 & KGL_SERVER_START) { V_CHECK(n_next == 1 && next_sel == P->st.base.selector && P->ssl_ctx == CT && P->refs == rr0 + 1 && CT2->refs == cr0 + 1, "a running listener's certificate changes on its own loop; it stays until then"); kserver_update_ssl_ctx_param *pm = next_arg; V_CHECK(pm->ss == P && pm->ssl_ctx == CT2, "the new certificate, with a reference"); V_REACH("posted"); }
	else { V_CHECK(n_next == 0 && P->ssl_ctx == CT2 && P->refs == rr0 && CT2->refs == cr0 + 1, "each listener has the new certificate, with a reference"); V_REACH("set"); }
}
#endif
static int oc0; void S_setctx(void) {
	base(true); listed(true); oc0 = CT->refs = V_IN(int, 8, 1 << 28); bool none = V_BOOL(); if (none) { CT2 = NULL; kserver_set_ssl_ctx(S, NULL); V_CHECK(S->ssl_ctx == CT && CT->refs == oc0 && n_next == 0, "a TLS server keeps its certificate"); V_REACH("none"); return; }
	CT2 = mkctx(sslctx2_); cr0 = CT2->refs; arrivals = 0; stepped = false; kserver_set_ssl_ctx(S, CT2); if (stepped) { step_check(); V_CHECK(B == NULL && held == NULL, "the walk ends after the last listener"); return; } V_CHECK(S->ssl_ctx == CT2 && CT->refs == oc0 - 1 && held == NULL, "the server has the new certificate"); list_is(true); V_CHECK(S->refs == sr0 && CT2->refs == cr0, "the caller's reference is the server's");
}
void H_close(void) {} void H_setctx(void) {}
#else
static void step_check(void) {}
void S_close(void) {} void S_setctx(void) {}
void H_close(void) { base(false); listed(true); kserver_close(S); V_CHECK(n_shut == 1 + (A != NULL) + (B != NULL) && !(S->flags & KGL_SERVER_START) && held == NULL && v_nfreed == 0 && S->refs == sr0, "every listener is shut down once"); V_REACH("closed"); list_is(true); }
void H_setctx(void) {
	base(true); listed(true); CT->refs = V_IN(int, 8, 1 << 28); int oc = CT->refs; CT2 = mkctx(sslctx2_); cr0 = CT2->refs; kserver_set_ssl_ctx(S, CT2); int n = 1 + (A != NULL) + (B != NULL); V_CHECK(S->ssl_ctx == CT2 && CT2->refs == cr0 + n && held == NULL, "one reference per listener");
	if (f0 & KGL_SERVER_START) { V_REACH("posted"); V_CHECK(n_next == n && P->refs == rr0 + 1 && CT->refs == oc - 1, "posted once per listener"); } else { V_REACH("set"); V_CHECK(n_next == 0 && P->ssl_ctx == CT2 && P->refs == rr0 && CT->refs == oc - 2, "set"); } list_is(true);
}
#endif
void H_update(void) {
	base(true); listed(true); CT2 = mkctx(sslctx2_); cr0 = CT2->refs; int oc = CT->refs = V_IN(int, 3, 1 << 28); bool gone = V_BOOL(); kserver *s = S; if (gone) { link2(P->queue.prev, P->queue.next); P->queue.next = P->queue.prev = NULL; P->st.fd = INVALID_SOCKET; P->refs = 1; } else { P->refs = V_IN(int, 2, 1 << 28); } rr0 = P->refs; kserver_selectable *ss = P;
	kserver_update_ssl_ctx_param *pm = V_NEW(kserver_update_ssl_ctx_param); pm->ss = P; pm->ssl_ctx = CT2; kserver_ssl_ctx_next_update(NULL, pm, 0); V_CHECK(v_times_freed(pm) == 1 && CT->refs == oc - 1, "the old certificate reference goes");
	if (gone) { V_REACH("gone"); V_CHECK(v_times_freed(ss) == 1 && CT2->refs == cr0 - 1 && s->refs == sr0 - 1, "a listener given up meanwhile is freed now, with all it holds"); } else { V_REACH("changed"); V_CHECK(ss->ssl_ctx == CT2 && ss->refs == rr0 - 1 && v_nfreed == 1 && CT2->refs == cr0 && s->refs == sr0, "the listener has the new certificate"); }
}
static int n_setc; static kgl_ssl_ctx *setc; void c_setctx(kserver *s, kgl_ssl_ctx *c) { V_CHECK(s == S, "this server"); n_setc++; setc = c; }
void H_bind(void) {
	base(false); bool t = V_BOOL(), un = V_BOOL(); if (t) { CT = mkctx(sslctx_); cr0 = CT->refs; } static char ip[2]; ip[0] = un ? '/' : (char)V_IN(int, '0', 'z'); ip[1] = 0; uint16_t port = V_U16(); bool r = kserver_bind(S, ip, port, CT);
	if (!r) { V_REACH("refused"); V_CHECK(n_setc == 0 && S->flags == f0, "a failed bind changes nothing"); if ((f0 & KGL_SERVER_SSL) && !t) { V_REACH("no certificate"); V_CHECK(n_ga == 0 && n_ua == 0, "a TLS server needs a certificate"); } else { V_CHECK(n_ga == 1 && !ga_ok && !un, "the address is not understood"); if (t) V_CHECK(CT->refs == cr0 - 1, "the certificate reference given is given up"); } return; }
	V_CHECK(ga_host == ip && (un ? n_ua == 1 && n_ga == 0 : n_ga == 1 && ga_ok && n_ua == 0 && ga_port == port), "bound to the address given"); V_CHECK(n_setc == 1 && setc == CT && (!t || CT->refs == cr0), "the server takes over the certificate"); V_CHECK((KBIT_TEST(S->flags, KGL_SERVER_SSL) != 0) == (t || (f0 & KGL_SERVER_SSL)) && (KBIT_TEST(S->flags, KGL_SERVER_UNIX) != 0) == un, "its kind is known"); if (t) V_REACH("TLS"); else V_REACH("plain"); if (un) V_REACH("unix");
}
