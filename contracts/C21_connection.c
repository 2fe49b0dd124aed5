/* Connections and datagram sockets: making them with the right address, connecting, and releasing what they own, on the real kconnection.c and kudp.c. */
//@assume the kernel's socket calls meet their specification; the event loop back end enters by contract (C22); xmalloc and the pool succeed
//@ob H_new kind=proof unwind=3 hunwind=18 fn=kconnection_new,kconnection_internal_new
//@ob H_new2 kind=proof unwind=3 hunwind=18 fn=kconnection_new2,kconnection_internal_new
//@ob H_new3 kind=proof unwind=3 hunwind=18 fn=kconnection_new3,kconnection_internal_new
//@ob H_half kind=proof unwind=3 hunwind=18 fn=kconnection_half_connect
//@ob H_connect kind=proof unwind=3 hunwind=18 fn=kconnection_connect
//@ob H_destroy kind=proof unwind=3 hunwind=18 fn=kconnection_real_destroy,kconnection_destroy
//@ob H_udpnew kind=proof unwind=3 hunwind=18 fn=kudp_new2,kudp_new
//@ob H_udpsend kind=proof unwind=3 hunwind=18 fn=kudp_send,kudp_send_to,kudp_bind
//@ob H_recvaddr kind=proof unwind=18 hunwind=18 fn=kudp_get_recvaddr
//@ob H_group kind=proof unwind=3 hunwind=18 fn=kudp_add_multicast
#include "v.h"
#include <pthread.h>
struct kselector_s;
static struct kselector_s *v_tls; static void *v_tls_get(pthread_key_t k) { return v_tls; }
#define pthread_getspecific v_tls_get
static pthread_t v_self(void) { return (pthread_t)77; }
#define pthread_self v_self
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
static int n_opt, n_bind, bind_r, n_send; static long send_r; static struct { int level, opt, val; struct ip_mreq mq; } opts[4]; static int opt_r; static const void *s_buf, *s_to, *b_addr; static size_t s_len; static socklen_t s_tolen, b_len; static int s_fd;
static int v_setsockopt(int fd, int level, int opt, const void *v, socklen_t l); static int v_bind(int fd, const struct sockaddr *a, socklen_t l); static ssize_t v_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al);
#define setsockopt(a, b, c, d, e) v_setsockopt(a, b, c, d, e)
#define sendto(a, b, c, d, e, f) v_sendto(a, b, c, d, e, f)
#define free v_free
#include "kselector.h"
#include "kconnection.h"
#include "kserver.h"
#include "kfiber.h"
#include "kudp.h"
#include "v_memset.h"
#define SSL_free(x) v_ssl_free(x)
static void v_ssl_free(SSL *s) {}
static kconnection *C; static kserver *SV; static kselector SEL; static char pool_[1], data_[1], arg_[1], ssl_[1]; static int n_pool, n_dpool, n_clean, n_srel, n_sni, n_na, n_sb, n_hc, hc_r, n_mc, n_cb, cb_got, n_un, un_r; static bool mc_ok; static struct sockaddr_un *UN; static const void *hc_addr, *hc_bind; static int hc_mask, un_dom, un_fl; static kselectable *sb_st;
kgl_pool_t *kgl_create_pool(size_t n) { n_pool++; return (kgl_pool_t *)pool_; } void kgl_destroy_pool(kgl_pool_t *p) { V_CHECK(p == (kgl_pool_t *)pool_, "its own pool"); n_dpool++; }
void *kgl_pnalloc(kgl_pool_t *p, size_t n) { V_CHECK(p == (kgl_pool_t *)pool_ && n == sizeof(struct sockaddr_un), "room for a unix address in its own pool"); n_na++; UN = V_NEW(struct sockaddr_un); return UN; }
void selectable_clean(kselectable *st) { V_CHECK(C == NULL || st == &C->st, "its own socket"); n_clean++; } void kserver_release(kserver *s) { V_CHECK(s == SV, "its own server"); n_srel++; } static void sni_free(void *p) { n_sni++; }
SOCKET ksocket_half_connect(const sockaddr_i *a, const sockaddr_i *b, int m) { n_hc++; hc_addr = a; hc_bind = b; hc_mask = m; return hc_r; } SOCKET ksocket_new_udp(uint16_t d, int f) { n_un++; un_dom = d; un_fl = f; return un_r; }
static uint16_t aip; void ksocket_addrinfo_sockaddr(struct addrinfo *ai, uint16_t port, sockaddr_i *a) { V_CHECK(ai == (struct addrinfo *)arg_ && a != NULL, "the resolver's answer"); aip = port; n_un++; a->v4.sin_port = port; }
static void m_bind(kselector *s, kselectable *st) { V_CHECK(s == &SEL, "the loop asked for"); n_sb++; sb_st = st; } static bool m_connect(kselector *s, kselectable *st, result_callback r, void *a); static kev_result cb(KOPAQUE d, void *a, int got) { V_CHECK(d == (KOPAQUE)data_ && a == arg_, "the caller's data and argument"); n_cb++; cb_got = got; return kev_destroy; }
static bool m_connect(kselector *s, kselectable *st, result_callback r, void *a) { V_CHECK(s == &SEL && st == &C->st && r == cb && a == arg_, "this connection, with the caller's callback"); n_mc++; return mc_ok; }
kev_result selectable_read(kselectable *st, result_callback r, buffer_callback b, void *a) { return kev_ok; } kev_result selectable_write(kselectable *st, result_callback r, buffer_callback b, void *a) { return kev_ok; }
#include "src/kconnection.c"
#define bind(a, b, c) v_bind(a, b, c)
#include "src/kudp.c"
pthread_key_t kgl_selector_key; kselector_module kgl_selector_module; volatile int64_t kgl_current_msec;
static int v_setsockopt(int fd, int level, int opt, const void *v, socklen_t l) { V_CHECK(n_opt < 4, "few options"); s_fd = fd; opts[n_opt].level = level; opts[n_opt].opt = opt; if (l == sizeof(int)) opts[n_opt].val = *(const int *)v; else if (l == sizeof(struct ip_mreq)) opts[n_opt].mq = *(const struct ip_mreq *)v; else V_CHECK(0, "option length"); n_opt++; return opt_r; }
static int v_bind(int fd, const struct sockaddr *a, socklen_t l) { n_bind++; s_fd = fd; b_addr = a; b_len = l; return bind_r; }
static ssize_t v_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al) { n_send++; s_fd = fd; s_buf = b; s_len = n; s_to = a; s_tolen = al; V_CHECK(fl == 0, "plainly"); return send_r; }
in_addr_t inet_addr(const char *s) { V_CHECK(s == arg_, "the group asked for"); return 0x01020304; }
static void base(void) { static kselector z; SEL = z; SEL.thread_id = (pthread_t)77; v_tls = &SEL; C = NULL; SV = NULL; UN = NULL; v_nfreed = 0; n_pool = n_dpool = n_clean = n_srel = n_sni = n_na = n_sb = n_hc = n_mc = n_cb = n_un = n_opt = n_bind = n_send = 0; hc_r = V_IN(int, -1, 100000); un_r = V_IN(int, -1, 100000); mc_ok = V_BOOL(); bind_r = V_IN(int, -1, 0); opt_r = V_IN(int, -1, 0); send_r = V_IN(int, -1, 70000); kgl_selector_module.bind = m_bind; kgl_selector_module.connect = m_connect; }
static union { sockaddr_i i; struct sockaddr_un un; } AD, BA; static unsigned char AB[sizeof(AD)];
static void in_addr_(int fam) { for (int i = 0; i < 7; i++) ((uint32_t *)&AD)[i] = V_U32(); AD.i.v4.sin_family = fam; }
static void idle(kconnection *c) { V_CHECK(c->st.fd == INVALID_SOCKET && c->st.base.selector == NULL && c->st.base.st_flags == 0 && c->st.base.queue.next == NULL && c->pool == (kgl_pool_t *)pool_ && n_pool == 1 && c->server == NULL && c->sni == NULL && c->st.ssl == NULL, "a new connection has a pool, no socket and nothing else"); }
void H_new(void) {
	base(); int k = V_IN(int, 0, 2); in_addr_(k == 0 ? AF_INET : k == 1 ? AF_INET6 : AF_UNIX); if (k == 2) for (int i = 0; i < 17; i++) AD.un.sun_path[i] = V_U8(); bool none = V_BOOL(); kconnection *c = kconnection_new(none ? NULL : &AD.i); if (none) { V_REACH("no address"); idle(c); V_CHECK(c->addr.v4.sin_family == 0, "no address"); return; } idle(c);
	if (k == 2) { V_REACH("unix"); int j = V_IN(int, 0, 16); V_CHECK(n_na == 1 && c->addr.u.sin_family == AF_UNIX, "a unix address is kept apart"); void *kept = c->addr.u.addr; V_CHECK(kept == (void *)UN, "in its own pool"); V_CHECK(UN->sun_family == AF_UNIX && UN->sun_path[j] == AD.un.sun_path[j], "the whole address is kept"); }
	else { V_REACH("ip"); V_CHECK(c->addr.v4.sin_family == AD.i.v4.sin_family && c->addr.v4.sin_port == AD.i.v4.sin_port && (k == 0 ? c->addr.v4.sin_addr.s_addr == AD.i.v4.sin_addr.s_addr : ((uint32_t *)&c->addr.v6.sin6_addr)[0] == ((uint32_t *)&AD.i.v6.sin6_addr)[0] && ((uint32_t *)&c->addr.v6.sin6_addr)[3] == ((uint32_t *)&AD.i.v6.sin6_addr)[3] && c->addr.v6.sin6_scope_id == AD.i.v6.sin6_scope_id), "the address is kept"); }
}
void H_new2(void) { base(); uint16_t p = V_U16(); kconnection *c = kconnection_new2((struct addrinfo *)arg_, p); V_CHECK(n_un == 1 && aip == p && c->addr.v4.sin_port == p, "the resolver's answer with the port asked for"); idle(c); V_REACH("new"); }
void H_new3(void) { base(); in_addr_(V_BOOL() ? AF_INET : AF_INET6); socklen_t l = V_IN(int, 0, 128); unsigned char *src = malloc(l ? l : 1); V_ASSUME(src); int j = V_IN(int, 0, 27); unsigned char b = V_U8(); if ((socklen_t)j < l) src[j] = b; kconnection *c = kconnection_new3((struct sockaddr *)src, l); idle(c); V_CHECK(((unsigned char *)&c->addr)[j] == ((socklen_t)j < l ? b : 0), "as much of the address as there is and fits"); V_REACH("new"); }
static kconnection *mk(void) { C = V_NEWZ(kconnection); C->pool = (kgl_pool_t *)pool_; C->st.fd = V_IN(int, -1, 1000); C->st.data = (KOPAQUE)data_; C->st.base.selector = &SEL; C->st.base.st_flags = V_U16() & ~STF_LOCK; return C; }
void H_half(void) {
	base(); mk(); C->st.fd = INVALID_SOCKET; bool un = V_BOOL(), b = V_BOOL(); int mask = V_INT(); C->addr.v4.sin_family = un ? AF_UNIX : AF_INET; if (un) { C->addr.u.sin_family = AF_UNIX; UN = V_NEWZ(struct sockaddr_un); C->addr.u.addr = (struct sockaddr *)UN; } bool r = kconnection_half_connect(C, b ? &BA.i : NULL, mask);
	V_CHECK(n_hc == 1 && C->st.fd == hc_r && r == (hc_r >= 0), "one attempt, whose socket is the connection's"); if (un) { V_REACH("unix"); V_CHECK(hc_addr == (void *)UN && hc_bind == NULL, "to its unix address"); } else { V_REACH("ip"); V_CHECK(hc_addr == (void *)&C->addr && hc_bind == (b ? (void *)&BA : NULL) && hc_mask == mask, "to its address, from the address asked for"); }
}
void H_connect(void) { base(); mk(); kev_result r = kconnection_connect(C, cb, arg_); V_CHECK(n_mc == 1, "one attempt"); if (mc_ok) { V_REACH("waiting"); V_CHECK(n_cb == 0 && r == kev_ok, "the back end reports it later"); } else { V_REACH("refused"); V_CHECK(n_cb == 1 && cb_got == -1 && r == kev_destroy, "a failure is reported at once, exactly once"); } }
void H_destroy(void) {
	base(); mk(); kconnection *c = C; bool udp = (c->st.base.st_flags & STF_UDP) != 0; kudp_extend *u = NULL; if (V_BOOL()) { if (udp) { u = V_NEWZ(kudp_extend); c->udp = u; } else { SV = V_NEWZ(kserver); c->server = SV; } } bool sni = V_BOOL(); if (sni) { c->sni = ssl_; kgl_ssl_free_sni = sni_free; }
	kev_result r = kconnection_destroy(c); V_CHECK(r == kev_destroy && n_clean == 1 && n_dpool == 1 && v_times_freed(c) == 1 && n_sni == (sni ? 1 : 0), "the socket, the pool and the connection are given up once"); V_CHECK(n_srel == (SV ? 1 : 0) && (!u || v_times_freed(u) == 1) && v_nfreed == 1 + (u != NULL), "and its server reference or datagram part"); if (u) V_REACH("datagram"); if (SV) V_REACH("accepted");
}
static bool has(int level, int opt) { for (int i = 0; i < 4; i++) if (i < n_opt && opts[i].level == level && opts[i].opt == opt && opts[i].val == 1) return true; return false; }
void H_udpnew(void) {
	base(); int fl = V_IN(int, 0, 511); kconnection *c = V_BOOL() ? kudp_new2(fl, &SEL) : kudp_new(fl); bool six = (fl & KSOCKET_ONLY_IPV6) != 0; V_CHECK(n_un == 1 && un_fl == fl && un_dom == (six ? AF_INET6 : AF_INET), "one socket of the family asked for");
	if (un_r < 0) { V_REACH("failed"); V_CHECK(c == NULL && n_dpool == 1 && v_nfreed == 1 && n_sb == 0, "a failure leaves nothing behind"); return; } V_CHECK(c != NULL && c->st.fd == un_r && (c->st.base.st_flags & STF_UDP) && n_sb == 1 && sb_st == &c->st && v_nfreed == 0, "a datagram socket on the loop asked for");
	if (fl & KSOCKET_IP_PKTINFO) { V_REACH("destinations"); V_CHECK(c->udp != NULL && (six ? has(IPPROTO_IPV6, IPV6_RECVPKTINFO) : has(IPPROTO_IP, IP_PKTINFO)), "the destination of datagrams is asked for"); } else { V_REACH("plain"); V_CHECK(c->udp == NULL && n_opt == 0, "unless not asked for"); }
}
void H_udpsend(void) {
	base(); mk(); in_addr_(V_BOOL() ? AF_INET : AF_INET6); int n = V_IN(int, 0, 65535); socklen_t al = (socklen_t)(AD.i.v4.sin_family == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6)); if (V_BOOL()) { bool r = kudp_bind(C, &AD.i); V_CHECK(n_bind == 1 && s_fd == C->st.fd && b_addr == &AD && b_len == al && r == (bind_r >= 0), "bound to the address"); return; }
	bool to = V_BOOL(); long r = to ? kudp_send_to(C, &AD.i, arg_, n) : kudp_send(C, (struct sockaddr *)&AD, al, arg_, n); V_CHECK(n_send == 1 && s_fd == C->st.fd && s_buf == arg_ && s_len == (size_t)n && s_to == &AD && s_tolen == al, "one datagram with the bytes given, to the address given"); V_CHECK(to ? r == (send_r >= 0) : r == send_r, "its outcome is reported"); V_REACH("sent");
}
void H_recvaddr(void) {
	base(); mk(); C->udp = NULL; bool on = V_BOOL(); static kudp_extend u; if (on) C->udp = &u; int lev = V_IN(int, 0, 3), fam = V_BOOL() ? AF_INET : AF_INET6; struct cmsghdr *h = (struct cmsghdr *)u.pkt6info; uint32_t a4 = V_U32(); int j = V_IN(int, 0, 15); unsigned char b6 = V_U8(); h->cmsg_level = lev == 0 ? IPPROTO_IP : lev == 1 ? IPPROTO_IPV6 : 0; h->cmsg_type = lev == 0 ? IP_PKTINFO : lev == 1 ? IPV6_PKTINFO : lev == 2 ? IP_PKTINFO + 1 : 0;
	if (lev == 0) ((struct in_pktinfo *)CMSG_DATA(h))->ipi_addr.s_addr = a4; if (lev == 1) ((unsigned char *)CMSG_DATA(h))[j] = b6; union { struct sockaddr_in v4; struct sockaddr_in6 v6; } a; a.v4.sin_family = fam; uint16_t port = a.v4.sin_port = V_U16(); bool udp = C->st.base.st_flags & STF_UDP; int r = kudp_get_recvaddr(C, (struct sockaddr *)&a);
	V_CHECK(r == (on && udp && (fam == AF_INET ? lev == 0 : lev == 1) ? 0 : -1), "the destination is known exactly if the kernel told it for this family"); if (r == 0) V_CHECK(a.v4.sin_family == fam && a.v4.sin_port == port && (fam == AF_INET ? a.v4.sin_addr.s_addr == a4 : a.v6.sin6_addr.s6_addr[j] == b6), "the address the datagram was sent to"); if (r == 0 && fam == AF_INET) V_REACH("v4"); if (r == 0 && fam == AF_INET6) V_REACH("v6");
}
void H_group(void) { base(); mk(); bool r = kudp_add_multicast(C, arg_); V_CHECK(n_opt == 1 && s_fd == C->st.fd && opts[0].level == IPPROTO_IP && opts[0].opt == IP_ADD_MEMBERSHIP && opts[0].mq.imr_multiaddr.s_addr == 0x01020304 && opts[0].mq.imr_interface.s_addr == 0 && r == (opt_r >= 0), "joins the group on any interface"); V_REACH("joined"); }
