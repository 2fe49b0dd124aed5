/* The TLS handshake and shutdown of a connection, step by step, on the real kconnection.c and kgl_ssl.c: every step either reports the outcome once or waits for what TLS asked for, and the continuation repeats the step. */
//@assume OpenSSL meets its specification; selectable_read/selectable_write enter by contract (C22): they wait for the socket and call the continuation with 0 when it is ready, -1 when it failed
//@ob H_start kind=proof unwind=3 hunwind=18 fn=kconnection_ssl_handshake,kselectable_ssl_handshake,kgl_ssl_handshake,kgl_ssl_handshake_status
//@ob H_again kind=proof unwind=3 hunwind=18 fn=result_ssl_handshake,ssl_handshake_result,kselectable_ssl_handshake
//@ob H_early kind=proof unwind=3 hunwind=18 fn=kselectable_ssl_handshake
//@ob H_destroy kind=proof unwind=3 hunwind=18 fn=kconnection_destroy,kconnection_real_destroy,kselectable_ssl_shutdown,kgl_ssl_shutdown
//@ob H_closing kind=proof unwind=3 hunwind=18 fn=result_ssl_shutdown,kconnection_real_destroy
//@ob H_session kind=proof unwind=3 hunwind=18 fn=kconnection_ssl_connect,kconnection_ssl_accept,kconnection_new_ssl,kconnection_ssl_init
#include "v.h"
#include <pthread.h>
struct kselector_s;
static struct kselector_s *v_tls; static void *v_tls_get(pthread_key_t k) { return v_tls; }
#define pthread_getspecific v_tls_get
#include "kselector.h"
#include "kconnection.h"
#include "kserver.h"
#include "kfiber.h"
#include "kudp.h"
#include "v_memset.h"
#undef xfree
#define xfree v_free
static kconnection *C; static kssl_session SS; static char ssl_[1], pool_[1], ctx_[1]; static kserver *SV; static kudp_extend *UD;
static int n_hs, n_early, n_sh, hs_r, early_r, sh_r, err, n_cb, cb_got, n_wait, wait_dir, n_clean, n_pool, n_srel, n_sni, flags_at; static result_callback w_cb; static void *w_arg; static unsigned char byte; static kev_result cb_ret;
/* what OpenSSL may do */
int SSL_do_handshake(SSL *s) { V_CHECK(s == SS.ssl, "the session of this connection"); n_hs++; hs_r = V_IN(int, -1, 1); return hs_r; }
int SSL_shutdown(SSL *s) { V_CHECK(s == SS.ssl, "the session of this connection"); n_sh++; sh_r = V_IN(int, -1, 1); return sh_r; }
int SSL_get_error(const SSL *s, int r) { V_CHECK(s == SS.ssl && r <= 0, "only a failed call is explained"); return err; }
int SSL_read_early_data(SSL *s, void *b, size_t n, size_t *g) {
	V_CHECK(s == SS.ssl && n == 1, "one byte is read ahead"); n_early++; early_r = V_IN(int, 0, 2); *g = 0; if (early_r == SSL_READ_EARLY_DATA_SUCCESS) { *(unsigned char *)b = byte; *g = 1; } return early_r;
}
kev_result selectable_read(kselectable *st, result_callback r, buffer_callback b, void *arg) { V_CHECK(st == &C->st && b == NULL, "waits on this connection"); n_wait++; wait_dir = 0; w_cb = r; w_arg = arg; flags_at = st->base.st_flags; return kev_ok; }
kev_result selectable_write(kselectable *st, result_callback r, buffer_callback b, void *arg) { V_CHECK(st == &C->st && b == NULL, "waits on this connection"); n_wait++; wait_dir = 1; w_cb = r; w_arg = arg; flags_at = st->base.st_flags; return kev_ok; }
void selectable_clean(kselectable *st) { V_CHECK(st == &C->st && n_pool == 0, "the socket is given up before the memory"); n_clean++; }
void kgl_destroy_pool(kgl_pool_t *p) { V_CHECK(p == (kgl_pool_t *)pool_ && n_clean == 1, "its own pool, after the socket"); n_pool++; }
void kserver_release(kserver *s) { V_CHECK(s == SV, "its own server"); n_srel++; }
static void sni_free(void *p) { n_sni++; }
static int n_new, n_sfree, n_fd, fd_r, n_conn, n_acc, n_ex; static bool new_ok;
SSL *SSL_new(SSL_CTX *c) { V_CHECK(c == (SSL_CTX *)ctx_, "a session of this context"); n_new++; return new_ok ? (SSL *)ssl_ : NULL; }
void SSL_free(SSL *s) { V_CHECK(s == (SSL *)ssl_, "the new session"); n_sfree++; }
int SSL_set_fd(SSL *s, int fd) { V_CHECK(s == (SSL *)ssl_ && fd == C->st.fd, "bound to this socket"); n_fd++; return fd_r; }
void SSL_set_connect_state(SSL *s) { n_conn++; } void SSL_set_accept_state(SSL *s) { n_acc++; }
int SSL_set_ex_data(SSL *s, int i, void *d) { V_CHECK(d == C, "the session knows its connection"); n_ex++; return 1; }
static const char *sname; static int n_name;
long SSL_ctrl(SSL *s, int c, long l, void *p) { V_CHECK(s == (SSL *)ssl_ && c == SSL_CTRL_SET_TLSEXT_HOSTNAME && l == TLSEXT_NAMETYPE_host_name, "only the server name is set"); n_name++; sname = p; return 1; }
uint64_t SSL_set_options(SSL *s, uint64_t o) { return o; }
static uint32_t max_early; uint32_t SSL_CTX_get_max_early_data(const SSL_CTX *c) { return max_early; }
#include "src/kconnection.c"
#undef KGL_HAVE_IDN
#include "src/kgl_ssl.c"
pthread_key_t kgl_selector_key; kselector_module kgl_selector_module; volatile int64_t kgl_current_msec;
static char data_[1], arg_[1];
static kev_result done(KOPAQUE d, void *a, int got) { V_CHECK(d == (KOPAQUE)data_ && a == arg_, "the caller's own data and argument"); V_CHECK(n_cb == 0 && n_wait == 0, "the outcome is reported once, and nothing waits then"); n_cb++; cb_got = got; return cb_ret; }
static void setup(void) {
	static kconnection z; C = V_NEW(kconnection); *C = z; kssl_session s0 = {0}; SS = s0; SS.ssl = (SSL *)ssl_; C->st.ssl = &SS; C->st.fd = V_IN(int, 0, 100000); C->st.data = (KOPAQUE)data_; C->st.base.st_flags = V_U16(); C->pool = (kgl_pool_t *)pool_;
	err = V_IN(int, 1, 12); byte = V_U8(); cb_ret = V_BOOL() ? kev_ok : kev_destroy; v_nfreed = 0;
	n_hs = n_early = n_sh = n_cb = n_wait = n_clean = n_pool = n_srel = n_sni = 0; w_cb = NULL; w_arg = NULL;
}
static int want(int e) { return e == SSL_ERROR_WANT_READ ? 0 : (e == SSL_ERROR_WANT_WRITE || e == SSL_ERROR_WANT_CONNECT || e == SSL_ERROR_WANT_ACCEPT) ? 1 : -1; }
/* one step of the handshake: fin = what is to be reported (1, -1) or 0 for waiting */
static int step_ok(uint16_t f0, bool early) {
	V_CHECK(n_early == (early ? 1 : 0), "early data is read exactly while it is allowed");
	if (early && early_r == SSL_READ_EARLY_DATA_SUCCESS) { V_REACH("early byte"); V_CHECK(n_hs == 0 && SS.in_early && SS.early_preread && SS.early_buf == byte && !SS.try_early_data, "the byte read ahead is kept for the reader"); return 1; }
	V_CHECK(!SS.in_early && !SS.early_preread, "no byte was read ahead");
	V_CHECK(n_hs == (early && early_r == SSL_READ_EARLY_DATA_ERROR ? 0 : 1), "the handshake is tried once per step");
	V_CHECK(SS.try_early_data == (early && early_r == SSL_READ_EARLY_DATA_ERROR), "early data is over when it ended");
	if (n_hs && hs_r == 1) return 1;
	return want(err) < 0 ? -1 : 0;
}
static void waits(result_callback cb, void *arg, uint16_t f0) {
	V_CHECK(n_wait == 1 && w_cb == cb && w_arg == arg, "waits with the continuation"); V_CHECK(wait_dir == want(err), "waits for what TLS asked for");
	V_CHECK(flags_at == (wait_dir ? (f0 & ~STF_WREADY) : (f0 & ~STF_RREADY)), "the socket is not taken to be ready before it is");
}
void H_start(void) {
	setup(); SS.try_early_data = V_BOOL(); bool e = SS.try_early_data; uint16_t f0 = C->st.base.st_flags;
	kev_result r = kconnection_ssl_handshake(C, done, arg_); V_CHECK(SS.handshake, "the connection is a TLS connection from now on");
	int fin = step_ok(f0, e);
	if (fin) { V_CHECK(n_cb == 1 && n_wait == 0 && cb_got == (fin > 0 ? 0 : -1) && r == cb_ret, "the outcome is reported once: 0 for success, -1 for failure"); V_CHECK(v_nfreed == 1, "the handshake's own memory is released"); V_REACH("over"); }
	else { V_CHECK(n_cb == 0 && v_nfreed == 0, "nothing is reported yet"); waits(result_ssl_handshake, w_arg, f0); kconnection_ssl_param *sh = w_arg; V_CHECK(sh->c == C && sh->cb == done && sh->arg == arg_, "the continuation knows the caller"); V_REACH("waiting"); }
}
void H_again(void) {
	setup(); SS.handshake = 1; SS.try_early_data = V_BOOL(); bool e = SS.try_early_data; uint16_t f0 = C->st.base.st_flags; kconnection_ssl_param *sh = V_NEW(kconnection_ssl_param); sh->c = C; sh->cb = done; sh->arg = arg_;
	int got = V_IN(int, -1, 0); kev_result r = result_ssl_handshake(C->st.data, sh, got);
	if (got < 0) { V_CHECK(n_hs == 0 && n_early == 0 && n_wait == 0 && n_cb == 1 && cb_got == -1 && r == cb_ret && v_times_freed(sh) == 1, "a failed socket ends the handshake"); V_REACH("socket failed"); return; }
	int fin = step_ok(f0, e);
	if (fin) { V_CHECK(n_cb == 1 && n_wait == 0 && cb_got == (fin > 0 ? 0 : -1) && r == cb_ret, "the outcome is reported once: 0 for success, -1 for failure"); V_CHECK(v_times_freed(sh) == 1, "the handshake's own memory is released once"); V_REACH("over"); }
	else { V_CHECK(n_cb == 0 && v_nfreed == 0, "nothing is reported yet"); waits(result_ssl_handshake, sh, f0); V_CHECK(sh->c == C && sh->cb == done && sh->arg == arg_, "the continuation knows the caller"); V_REACH("waiting"); }
}
/* as a fiber uses it: the selectable's step with a continuation of the caller's own */
void H_early(void) {
	setup(); SS.try_early_data = V_BOOL(); bool e = SS.try_early_data; uint16_t f0 = C->st.base.st_flags; kev_result r = kselectable_ssl_handshake(&C->st, done, arg_); int fin = step_ok(f0, e);
	if (fin) V_CHECK(n_cb == 1 && n_wait == 0 && cb_got == fin && r == cb_ret, "the outcome is reported once"); else { V_CHECK(n_cb == 0, "nothing is reported yet"); waits(done, arg_, f0); }
}
static bool udp, owned, sni;
static void owners(void) { owned = V_BOOL(); udp = V_BOOL(); SV = NULL; UD = NULL; if (udp) KBIT_SET(C->st.base.st_flags, STF_UDP); else KBIT_CLR(C->st.base.st_flags, STF_UDP); if (owned) { if (udp) { UD = V_NEW(kudp_extend); C->udp = UD; } else { SV = V_NEW(kserver); C->server = SV; } } sni = V_BOOL(); C->sni = sni ? data_ : NULL; kgl_ssl_free_sni = sni_free; }
static void gone(void) {
	V_CHECK(n_clean == 1 && n_pool == 1 && v_times_freed(C) == 1 && n_sni == (sni ? 1 : 0), "socket, memory, server name and connection are given back once each");
	V_CHECK(n_srel == (owned && !udp) && (UD == NULL || v_times_freed(UD) == 1) && v_nfreed == 1 + (UD != NULL), "the server is released once, a datagram connection frees its extension");
}
void H_destroy(void) {
	setup(); owners(); bool tls = V_BOOL(); if (!tls) C->st.ssl = NULL; SS.handshake = V_BOOL(); SS.shutdown = V_BOOL(); uint16_t f0 = C->st.base.st_flags; bool polite = tls && SS.handshake && !SS.shutdown && !KBIT_TEST(f0, STF_ERR);
	kev_result r = kconnection_destroy(C); V_CHECK(n_sh == (polite ? 1 : 0), "TLS is shut down exactly for an established session without error");
	if (polite && sh_r != 1 && (err == SSL_ERROR_WANT_READ || err == SSL_ERROR_WANT_WRITE)) { waits(result_ssl_shutdown, C, f0); V_CHECK(n_clean == 0 && v_nfreed == 0 && n_pool == 0, "everything is kept until then"); V_REACH("waiting"); }
	else { V_CHECK(n_wait == 0 && r == kev_destroy, "it ends at once"); gone(); V_REACH("gone"); }
}
void H_closing(void) {
	setup(); owners(); SS.handshake = 1; uint16_t f0 = C->st.base.st_flags; int got = V_IN(int, -1, 1); kev_result r = result_ssl_shutdown(NULL, C, got);
	V_CHECK(n_sh == (got == 0 ? 1 : 0), "tried again exactly when the socket is ready");
	if (got == 0 && sh_r != 1 && (err == SSL_ERROR_WANT_READ || err == SSL_ERROR_WANT_WRITE)) { waits(result_ssl_shutdown, C, f0); V_CHECK(n_clean == 0 && v_nfreed == 0 && n_pool == 0, "everything is kept until then"); V_REACH("waiting"); }
	else { V_CHECK(n_wait == 0 && r == kev_destroy, "it ends at once"); gone(); V_REACH("gone"); }
}
void H_session(void) {
	setup(); C->st.ssl = NULL; new_ok = V_BOOL(); fd_r = V_BOOL(); max_early = V_U32(); n_new = n_sfree = n_fd = n_conn = n_acc = n_ex = 0; bool srv = V_BOOL(); const char *nm = V_BOOL() ? "a" : NULL; n_name = 0; sname = NULL;
	bool r = srv ? kconnection_ssl_accept(C, (SSL_CTX *)ctx_) : kconnection_ssl_connect(C, (SSL_CTX *)ctx_, nm);
	V_CHECK(r == (new_ok && fd_r == 1), "a session exists exactly if OpenSSL made and bound one"); V_CHECK(n_sfree == (new_ok && fd_r != 1), "a session that could not be bound is freed");
	if (!r) { V_CHECK(C->st.ssl == NULL && n_conn == 0 && n_acc == 0, "a failure leaves a connection without TLS"); V_REACH("failed"); return; }
	kssl_session *s = C->st.ssl; V_CHECK(s != NULL && s->ssl == (SSL *)ssl_ && !s->handshake && !s->shutdown && !s->in_early && !s->early_preread && s->try_early_data == (max_early > 0), "a fresh session, early data as the context allows");
	V_CHECK(n_conn == !srv && n_acc == srv && n_ex == srv, "client or server as asked"); V_CHECK(n_name == (!srv && nm != NULL) && sname == (srv ? NULL : nm), "the client asks for the server name it was given"); V_REACH("made");
}
