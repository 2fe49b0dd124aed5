/* Socket addresses and sockets: comparing, converting and resolving addresses, and opening sockets without leaking them, on the real ksocket.c and ksocket.h. */
//@assume the kernel's socket calls and the resolver (getaddrinfo, getnameinfo) meet their specification
//@ob H_compare kind=proof unwind=18 hunwind=18 fn=ksocket_addr_compare,ksocket_addr_hash
//@ob H_ipcompare kind=proof unwind=18 hunwind=18 fn=ksocket_ipaddr_compare,ksocket_ipaddr_and
//@ob H_shape kind=proof unwind=18 hunwind=18 fn=ksocket_addr_len,ksocket_addr_port
//@ob H_ipaddr kind=proof unwind=18 hunwind=18 fn=ksocket_ipaddr,ksocket_ipaddr_ip,ksocket_sockaddr_ip
//@ob H_getaddr kind=proof unwind=18 hunwind=18 fn=ksocket_getaddr,ksocket_addrinfo_sockaddr,ksocket_get_ipaddr
//@ob H_listen kind=proof unwind=18 hunwind=18 fn=ksocket_listen,ksocket_unix_path
//@ob H_accept kind=proof unwind=3 hunwind=18 fn=ksocket_accept
//@ob H_connect kind=proof unwind=3 hunwind=18 calls=wait_socket_event:c_wait fn=ksocket_connect
//@ob H_wait kind=proof unwind=3 hunwind=18 fn=wait_socket_event
//@ob H_half kind=proof unwind=3 hunwind=18 fn=ksocket_half_connect
//@ob H_udp kind=proof unwind=3 hunwind=18 fn=ksocket_new_udp
//@ob H_unix kind=proof unwind=112 hunwind=112 fn=ksocket_unix_addr,ksocket_unix_path
//@ob H_options kind=proof unwind=3 hunwind=18 fn=ksocket_no_delay,ksocket_delay,ksocket_no_block,ksocket_block,ksocket_is_block,ksocket_set_time
#include "v.h"
#include <unistd.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/ioctl.h>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
static int n_sock, sock_fam, sock_type, sock_r, open_fds, n_bind, bind_r, n_lis, lis_r, n_conn, conn_r, conn_err, n_opt, n_unlink, n_close, stat_r, n_acc, acc_flag, acc_r, n_poll, poll_r, n_ioctl, ioctl_v, fcntl_r, seq; static mode_t stat_mode; static const void *bind_addr_, *conn_addr; static socklen_t bind_len, conn_len; static const char *unl; static short poll_ev, poll_rev; static int poll_tmo; static struct { int level, opt, val; } opts[8]; static int opt_r[2];
static int v_socket(int f, int t, int p) { n_sock++; sock_fam = f; sock_type = t; if (sock_r >= 0) open_fds++; return sock_r; }
static int v_close(int fd) { V_CHECK(fd == sock_r && open_fds == 1, "only the own open socket is closed"); open_fds--; n_close++; return 0; }
static int v_bind(int fd, const struct sockaddr *a, socklen_t l) { V_CHECK(fd == sock_r && open_fds == 1 && n_lis == 0 && n_conn == 0, "an open socket is bound first"); n_bind++; bind_addr_ = a; bind_len = l; return bind_r; }
static int v_listen(int fd, int b) { V_CHECK(fd == sock_r && open_fds == 1 && n_bind == 1 && bind_r == 0, "a bound socket listens"); n_lis++; return lis_r; }
static int v_connect(int fd, const struct sockaddr *a, socklen_t l) { V_CHECK(fd == sock_r && open_fds == 1, "an open socket connects"); n_conn++; conn_addr = a; conn_len = l; errno = conn_err; return conn_r; }
static int v_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl);
static int v_setsockopt(int fd, int level, int opt, const void *v, socklen_t l) { V_CHECK(n_opt < 8, "few options"); opts[n_opt].level = level; opts[n_opt].opt = opt; opts[n_opt].val = *(const int *)v; V_CHECK(l == sizeof(int) || l == sizeof(struct timeval), "option length"); int r = n_opt < 2 ? opt_r[n_opt] : 0; n_opt++; return r; }
static int v_stat(const char *p, struct stat *b) { b->st_mode = stat_mode; unl = p; return stat_r; }
static int v_unlink(const char *p) { V_CHECK(p == unl, "the path looked at"); n_unlink++; return 0; }
static int v_poll(struct pollfd *p, nfds_t n, int t) { V_CHECK(n == 1, "one socket"); n_poll++; poll_ev = p->events; p->revents = poll_rev; poll_tmo = t; return poll_r; }
static int v_ioctl(int fd, unsigned long r, int *v) { V_CHECK(r == FIONBIO, "blocking mode"); n_ioctl++; ioctl_v = *v; return 0; }
static int v_fcntl(int fd, int c, int a) { V_CHECK(c == F_GETFL, "flags are read"); return fcntl_r; }
#define socket(a, b, c) v_socket(a, b, c)
#define close(a) v_close(a)
#define bind(a, b, c) v_bind(a, b, c)
#define listen(a, b) v_listen(a, b)
#define connect(a, b, c) v_connect(a, b, c)
#define accept4(a, b, c, d) v_accept4(a, b, c, d)
#define setsockopt(a, b, c, d, e) v_setsockopt(a, b, c, d, e)
#define stat(a, b) v_stat(a, b)
#define unlink(a) v_unlink(a)
#define poll(a, b, c) v_poll(a, b, c)
#define ioctl(a, b, c) v_ioctl(a, b, c)
#define fcntl(a, b, c) v_fcntl(a, b, c)
static int n_gai, gai_r, n_fai, n_gni, gni_r; static struct addrinfo AI, hint; static const char *gai_host; static union { struct sockaddr_in v4; struct sockaddr_in6 v6; struct sockaddr_un un; } ga; static struct sockaddr_in6 gni_addr; static socklen_t gni_len; static char *gni_buf; static socklen_t gni_blen; static int gni_flags;
static int v_gai(const char *h, const char *s, const struct addrinfo *f, struct addrinfo **r) { n_gai++; gai_host = h; hint = *f; V_CHECK(s == NULL, "only the name is resolved"); if (gai_r == 0) *r = &AI; return gai_r; }
static void v_fai(struct addrinfo *r) { V_CHECK(r == &AI && n_fai == 0, "the answer is released once"); n_fai++; }
static int v_gni(const struct sockaddr *a, socklen_t al, char *b, socklen_t bl, char *s, socklen_t sl, int fl) { n_gni++; gni_len = al; gni_buf = b; gni_blen = bl; gni_flags = fl; if (al <= sizeof(struct sockaddr_in6)) memcpy(&gni_addr, a, al == sizeof(struct sockaddr_in) ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6)); return gni_r; }
#define getaddrinfo v_gai
#define freeaddrinfo v_fai
#define getnameinfo v_gni
#include "src/ksocket.c"
#define SGN(x) (((x) > 0) - ((x) < 0))
static void in_addr_(sockaddr_i *a) { for (int i = 0; i < 4; i++) ((uint32_t *)&a->v6.sin6_addr)[i] = V_U32(); a->v6.sin6_flowinfo = V_U32(); a->v6.sin6_scope_id = V_U32(); a->v4.sin_port = V_U16(); a->v4.sin_family = V_BOOL() ? AF_INET : AF_INET6; if (a->v4.sin_family == AF_INET) a->v4.sin_addr.s_addr = V_U32(); }
static bool same(const sockaddr_i *a, const sockaddr_i *b) { if (a->v4.sin_family != b->v4.sin_family) return false; if (a->v4.sin_family == AF_INET) return a->v4.sin_addr.s_addr == b->v4.sin_addr.s_addr; for (int i = 0; i < 16; i++) if (a->v6.sin6_addr.s6_addr[i] != b->v6.sin6_addr.s6_addr[i]) return false; return true; }
void H_compare(void) {
	static sockaddr_i a, b, c; in_addr_(&a); in_addr_(&b); in_addr_(&c); int ab = ksocket_addr_compare(&a, &b), ba = ksocket_addr_compare(&b, &a), bc = ksocket_addr_compare(&b, &c), ac = ksocket_addr_compare(&a, &c);
	V_CHECK((ab == 0) == same(&a, &b), "two addresses compare equal exactly if they are the same host"); V_CHECK(SGN(ab) == -SGN(ba), "the order is antisymmetric"); if (ab < 0 && bc < 0) { V_REACH("chain"); V_CHECK(ac < 0, "the order is transitive"); }
	if (same(&a, &b)) { V_REACH("same"); V_CHECK(ksocket_addr_hash(&a) == ksocket_addr_hash(&b), "the same host has the same hash"); }
}
static void in_ip(ip_addr *a) { for (int i = 0; i < 4; i++) a->addr32[i] = V_U32(); a->sin_family = V_BOOL() ? AF_INET : AF_INET6; }
static bool sameip(const ip_addr *a, const ip_addr *b) { if (a->sin_family != b->sin_family) return false; if (a->addr32[0] != b->addr32[0]) return false; return a->sin_family == AF_INET || (a->addr32[1] == b->addr32[1] && a->addr32[2] == b->addr32[2] && a->addr32[3] == b->addr32[3]); }
void H_ipcompare(void) {
	static ip_addr a, b, c, r; in_ip(&a); in_ip(&b); in_ip(&c); int ab = ksocket_ipaddr_compare(&a, &b), ba = ksocket_ipaddr_compare(&b, &a), bc = ksocket_ipaddr_compare(&b, &c), ac = ksocket_ipaddr_compare(&a, &c);
	V_CHECK((ab == 0) == sameip(&a, &b), "two addresses compare equal exactly if they are the same"); V_CHECK(SGN(ab) == -SGN(ba), "the order is antisymmetric"); if (ab < 0 && bc < 0) { V_REACH("chain"); V_CHECK(ac < 0, "the order is transitive"); }
	ksocket_ipaddr_and(&a, &b, &r); V_CHECK(r.sin_family == a.sin_family && r.addr32[0] == (a.addr32[0] & b.addr32[0]), "a mask keeps the masked bits"); if (a.sin_family == AF_INET6) { V_REACH("v6 mask"); int k = V_IN(int, 1, 3); V_CHECK(r.addr32[k] == (a.addr32[k] & b.addr32[k]), "a mask keeps the masked bits"); }
}
void H_shape(void) {
	static sockaddr_i a; in_addr_(&a); int u = V_IN(int, 0, 2); if (u == 1) a.v4.sin_family = AF_UNIX; V_CHECK((ksocket_addr_len)(&a) == (int)(u == 1 ? sizeof(struct sockaddr_un) : a.v4.sin_family == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6)), "an address has the length of its family");
	uint16_t p = a.v4.sin_port; V_CHECK(ksocket_addr_port(&a) == (u == 1 ? 0 : (uint16_t)(p << 8 | p >> 8)), "the port in host order"); if (u == 1) V_REACH("unix"); else V_REACH("ip");
}
void H_ipaddr(void) {
	static sockaddr_i a; static ip_addr ip; static char buf[MAXIPLEN]; in_addr_(&a); for (int i = 0; i < 4; i++) ip.addr32[i] = V_U32(); ksocket_ipaddr(&a, &ip); V_CHECK(ip.sin_family == a.v4.sin_family, "the family is kept"); gni_r = V_IN(int, -12, 0); n_gni = 0; buf[0] = 'x';
	bool r = ksocket_ipaddr_ip(&ip, buf, MAXIPLEN); V_CHECK(n_gni == 1 && gni_buf == buf && gni_blen == MAXIPLEN && (gni_flags & NI_NUMERICHOST), "printed as numbers into the caller's buffer"); V_CHECK(r == (gni_r == 0) && (r || buf[0] == 0), "failure is reported, with an empty text"); V_CHECK(gni_addr.sin6_family == a.v4.sin_family, "the family is kept");
	if (a.v4.sin_family == AF_INET) { V_REACH("v4"); V_CHECK(ip.addr32[0] == a.v4.sin_addr.s_addr && ((struct sockaddr_in *)&gni_addr)->sin_addr.s_addr == a.v4.sin_addr.s_addr && gni_len == sizeof(struct sockaddr_in), "an IPv4 address is carried over"); } else { V_REACH("v6"); int k = V_IN(int, 0, 15); V_CHECK(ip.addr8[k] == a.v6.sin6_addr.s6_addr[k] && gni_addr.sin6_addr.s6_addr[k] == a.v6.sin6_addr.s6_addr[k] && gni_len == sizeof(struct sockaddr_in6), "an IPv6 address is carried over"); }
}
void H_getaddr(void) {
	static char host[2]; bool six = V_BOOL(), ipq = V_BOOL(); uint16_t port = V_U16(); int fam = V_IN(int, 0, 30), fl = V_IN(int, 0, 255); static sockaddr_i to; static ip_addr ip; n_gai = n_fai = 0; gai_r = V_BOOL() ? 0 : V_IN(int, -12, -1); struct addrinfo z = {0}; AI = z; for (int i = 0; i < 7; i++) ((uint32_t *)&ga)[i] = V_U32();
	ga.v4.sin_family = six ? AF_INET6 : AF_INET; AI.ai_family = ga.v4.sin_family; AI.ai_addr = (struct sockaddr *)&ga; AI.ai_addrlen = six ? sizeof(ga.v6) : sizeof(ga.v4); uint32_t a4 = ga.v4.sin_addr.s_addr; int k = V_IN(int, 0, 15); uint8_t b6 = ga.v6.sin6_addr.s6_addr[k];
	bool r = ipq ? ksocket_get_ipaddr(host, &ip) : ksocket_getaddr(host, port, fam, fl, &to); V_CHECK(n_gai == 1 && gai_host == host && r == (gai_r == 0) && n_fai == (r ? 1 : 0), "one lookup, whose answer is released"); if (ipq) V_CHECK(hint.ai_family == AF_UNSPEC && (hint.ai_flags & AI_NUMERICHOST), "only numbers are read"); else V_CHECK(hint.ai_family == fam && hint.ai_flags == fl, "the caller's wishes are passed on"); if (!r) { V_REACH("unknown"); return; }
	if (ipq) { V_REACH("ip"); V_CHECK(ip.sin_family == ga.v4.sin_family && (six ? ip.addr8[k] == b6 : ip.addr32[0] == a4), "the address found"); } else { V_REACH("socket address"); V_CHECK(to.v4.sin_family == ga.v4.sin_family && ksocket_addr_port(&to) == port && (six ? to.v6.sin6_addr.s6_addr[k] == b6 : to.v4.sin_addr.s_addr == a4), "the address found, with the port asked for"); }
}
static void base(void) { n_sock = open_fds = n_bind = n_lis = n_conn = n_opt = n_unlink = n_close = n_acc = n_poll = n_ioctl = 0; sock_r = V_IN(int, -1, 100000); bind_r = V_IN(int, -1, 0); lis_r = V_IN(int, -1, 0); conn_r = V_IN(int, -1, 0); conn_err = V_IN(int, 1, 133); stat_r = V_IN(int, -1, 0); stat_mode = V_U32(); poll_r = V_IN(int, -1, 1); poll_rev = (short)V_U16(); opt_r[0] = V_IN(int, -1, 0); opt_r[1] = V_IN(int, -1, 0); unl = NULL; }
static bool has(int level, int opt) { for (int i = 0; i < 8; i++) if (i < n_opt && opts[i].level == level && opts[i].opt == opt && opts[i].val == 1) return true; return false; }
static union { sockaddr_i i; struct sockaddr_un un; } AD, BA;
static void mode_ok(int fl, int type) { V_CHECK((sock_type & ~(SOCK_CLOEXEC | SOCK_NONBLOCK)) == type && (sock_type & SOCK_CLOEXEC) && ((sock_type & SOCK_NONBLOCK) != 0) == !(fl & KSOCKET_BLOCK), "a socket of the right kind, blocking only if asked"); }
void H_listen(void) {
	base(); in_addr_(&AD.i); if (V_BOOL()) AD.i.v4.sin_family = AF_UNIX; bool un = AD.i.v4.sin_family == AF_UNIX; int fl = V_IN(int, 0, 511); SOCKET s = ksocket_listen(&AD.i, fl); V_CHECK(n_sock == 1 && sock_fam == AD.i.v4.sin_family, "one socket of the address family"); mode_ok(fl, SOCK_STREAM);
	V_CHECK(n_unlink == (un && stat_r == 0 && (stat_mode & S_IFMT) == S_IFSOCK ? 1 : 0), "only an old socket is removed from its path"); if (un) V_CHECK(unl == AD.un.sun_path, "its own path");
	if (sock_r < 0) { V_REACH("no socket"); V_CHECK(s == INVALID_SOCKET && n_bind == 0, "no socket"); return; } V_CHECK(n_bind == 1 && bind_addr_ == &AD && bind_len == (socklen_t)(un ? sizeof(struct sockaddr_un) : AD.i.v4.sin_family == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6)), "bound to the address, in its length");
	V_CHECK(has(SOL_SOCKET, SO_REUSEADDR) && has(SOL_SOCKET, SO_REUSEPORT) == !!(fl & KSOCKET_REUSEPORT) && has(IPPROTO_IPV6, IPV6_V6ONLY) == !!(fl & KSOCKET_ONLY_IPV6) && has(IPPROTO_TCP, TCP_FASTOPEN) == !!(fl & KSOCKET_FASTOPEN), "the options asked for");
	if (bind_r < 0 || lis_r < 0) { V_REACH("failed"); V_CHECK(s == INVALID_SOCKET && open_fds == 0, "a failure leaves no open socket"); } else { V_REACH("listening"); V_CHECK(s == sock_r && n_lis == 1 && open_fds == 1 && n_close == 0, "the listening socket is the caller's"); }
}
static sockaddr_i acc_addr; static int v_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) { V_CHECK(fd == 7 && (void *)a == (void *)&acc_addr && *l <= sizeof(acc_addr) && *l >= sizeof(struct sockaddr_in6), "the peer's address is stored inside the caller's"); n_acc++; acc_flag = fl; return acc_r; }
void H_accept(void) { base(); acc_r = V_IN(int, -1, 1000); bool nb = V_BOOL(); SOCKET s = ksocket_accept(7, &acc_addr, nb); V_CHECK(n_acc == 1 && s == acc_r && (acc_flag & SOCK_CLOEXEC) && ((acc_flag & SOCK_NONBLOCK) != 0) == nb, "one connection is accepted, in the mode asked for"); V_REACH("accepted"); }
static int n_w, w_tmo; static bool w_ok; bool c_wait(SOCKET s, bool wr, int tmo) { V_CHECK(s == sock_r && wr, "waits for the connection"); n_w++; w_tmo = tmo; w_ok = V_BOOL(); return w_ok; }
void H_connect(void) {
	base(); in_addr_(&AD.i); in_addr_(&BA.i); bool b = V_BOOL(); n_w = 0; int tmo = V_INT(); SOCKET s = ksocket_connect(&AD.i, b ? &BA.i : NULL, tmo); if (sock_r < 0) { V_REACH("no socket"); V_CHECK(s == INVALID_SOCKET && n_bind == 0 && n_conn == 0, "no socket"); return; }
	V_CHECK(sock_fam == AD.i.v4.sin_family && n_bind == (b ? 1 : 0) && (!b || (bind_addr_ == &BA && bind_len == (socklen_t)ksocket_addr_len(&BA.i))), "bound if asked"); bool ok = !(b && bind_r < 0) && conn_r == 0 && w_ok; if (!(b && bind_r < 0)) V_CHECK(n_conn == 1 && conn_addr == &AD && conn_len == (socklen_t)ksocket_addr_len(&AD.i), "connects to the address"); else V_CHECK(n_conn == 0, "not connected if not bound");
	if (ok) { V_REACH("connected"); V_CHECK(s == sock_r && open_fds == 1 && n_w == 1 && w_tmo == tmo, "the connected socket is the caller's"); } else { V_REACH("failed"); V_CHECK(s == INVALID_SOCKET && open_fds == 0, "a failure leaves no open socket"); }
}
void H_wait(void) { base(); bool wr = V_BOOL(); int tmo = V_IN(int, INT_MIN, 2000000); bool r = wait_socket_event(5, wr, tmo); if (tmo <= 0) { V_REACH("no limit"); V_CHECK(r && n_poll == 0, "no time limit"); return; } V_CHECK(n_poll == 1 && poll_tmo == tmo * 1000 && (poll_ev & (wr ? POLLOUT : POLLIN)) && !(poll_ev & (wr ? POLLIN : POLLOUT)), "waits for its direction, in milliseconds"); V_CHECK(r == (poll_r > 0 && !(poll_rev & POLLERR)), "true when it is ready without an error"); V_REACH("waited"); }
void H_half(void) {
	base(); in_addr_(&AD.i); in_addr_(&BA.i); if (V_BOOL()) AD.i.v4.sin_family = AF_UNIX; bool b = V_BOOL(); SOCKET s = ksocket_half_connect(&AD.i, b ? &BA.i : NULL, V_INT()); V_CHECK(n_sock == 1 && sock_fam == AD.i.v4.sin_family, "one socket of the address family"); mode_ok(0, SOCK_STREAM); if (sock_r < 0) { V_REACH("no socket"); V_CHECK(s == INVALID_SOCKET && n_conn == 0, "no socket"); return; }
	V_CHECK(n_bind == (b ? 1 : 0) && (!b || (bind_addr_ == &BA && bind_len == (socklen_t)ksocket_addr_len(&BA.i))), "bound if asked"); if (b && bind_r < 0) { V_REACH("not bound"); V_CHECK(n_conn == 0 && s == INVALID_SOCKET && open_fds == 0, "a failure leaves no open socket"); return; }
	V_CHECK(n_conn == 1 && conn_addr == &AD && conn_len == (socklen_t)ksocket_addr_len(&AD.i), "connects to the address"); if (conn_r == 0 || conn_err == EINPROGRESS) { V_REACH("under way"); V_CHECK(s == sock_r && open_fds == 1 && n_close == 0, "a connection under way is the caller's"); } else { V_REACH("failed"); V_CHECK(s == INVALID_SOCKET && open_fds == 0, "a failure leaves no open socket"); }
}
void H_udp(void) {
	base(); int fl = V_IN(int, 0, 511), fam = V_BOOL() ? AF_INET : AF_INET6; SOCKET s = ksocket_new_udp(fam, fl); V_CHECK(n_sock == 1 && sock_fam == fam && s == (sock_r < 0 ? INVALID_SOCKET : sock_r) && n_close == 0, "one socket of the family"); mode_ok(fl, SOCK_DGRAM); if (s < 0) { V_REACH("none"); return; } V_REACH("socket"); V_CHECK(has(SOL_SOCKET, SO_REUSEPORT) == !!(fl & KSOCKET_REUSEPORT) && has(IPPROTO_IPV6, IPV6_V6ONLY) == !!(fl & KSOCKET_ONLY_IPV6), "the options asked for");
}
void H_unix(void) {
	static struct { struct sockaddr_un u; char guard; } x; static char path[112]; int k = V_IN(int, 0, 110); for (int i = 0; i < 110; i++) path[i] = (char)V_IN(int, 1, 127); path[k] = 0; path[111] = 0; for (int i = 0; i < (int)sizeof(x.u.sun_path); i++) x.u.sun_path[i] = 'x'; x.guard = 9; int j = V_IN(int, 0, 110); V_ASSUME(j < k);
	ksocket_unix_addr(path, &x.u); V_CHECK(x.u.sun_family == AF_UNIX && x.guard == 9, "a unix address"); V_CHECK(ksocket_unix_path(&x.u) == x.u.sun_path, "its path"); bool end = false; for (int i = 0; i < (int)sizeof(x.u.sun_path); i++) if (!x.u.sun_path[i]) end = true; V_CHECK(end, "the path always ends inside the address"); if (j < (int)sizeof(x.u.sun_path) - 1) V_CHECK(x.u.sun_path[j] == path[j], "the path is kept"); if (k < (int)sizeof(x.u.sun_path)) { V_REACH("fits"); V_CHECK(x.u.sun_path[k] == 0, "and ends where it ended"); } else V_REACH("too long");
}
void H_options(void) {
	base(); SOCKET s = 3; bool f = V_BOOL(); ksocket_no_delay(s, f); V_CHECK(n_opt == 1 && opts[0].level == IPPROTO_TCP && (opts[0].opt == TCP_NODELAY ? opts[0].val == 1 : !f && opts[0].opt == TCP_CORK && opts[0].val == 0), "small packets are sent at once"); n_opt = 0; ksocket_delay(s); V_CHECK(n_opt == 1 && opts[0].level == IPPROTO_TCP && ((opts[0].opt == TCP_NODELAY && opts[0].val == 0) || (opts[0].opt == TCP_CORK && opts[0].val == 1)), "small packets are gathered");
	ksocket_no_block(s); V_CHECK(n_ioctl == 1 && ioctl_v == 1, "nonblocking"); ksocket_block(s); V_CHECK(n_ioctl == 2 && ioctl_v == 0, "blocking"); fcntl_r = V_IN(int, 0, INT_MAX); V_CHECK(ksocket_is_block(s) == ((fcntl_r & O_NONBLOCK) == 0), "the mode is told truthfully");
	n_opt = 0; int a = V_IN(int, 0, 100000), b = V_IN(int, 0, 100000); bool r = ksocket_set_time(s, a, b); V_CHECK(r == (opt_r[0] == 0 && opt_r[1] == 0), "a failure is reported"); if (r) { V_REACH("limits"); V_CHECK(n_opt == 2 && opts[0].opt == SO_SNDTIMEO && opts[0].val == a && opts[1].opt == SO_RCVTIMEO && opts[1].val == b, "both limits are set"); }
}
