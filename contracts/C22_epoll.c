/* The epoll back end: registration, arming and the mapping of kernel events to the ready list, on the real kepoll_selector.c. */
//@assume the kernel meets the epoll, eventfd and aio specification; calls come from the selector's own thread; list neighbours beyond the object's own are arbitrary
//@ob H_arm split="OP:0,1,2" kind=proof unwind=4 hunwind=18 calls=selectable_read_event:c_read_event,selectable_write_event:c_write_event fn=epoll_selector_read,epoll_selector_write,epoll_selector_sendfile,epoll_add_event,kselectable_is_read_ready,kselectable_is_write_ready,kselector_add_list
//@ob H_connect split="OP:3,4" kind=proof unwind=4 hunwind=18 calls=selectable_read_event:c_read_event,selectable_write_event:c_write_event fn=epoll_selector_connect,epoll_selector_readhup,epoll_add_event
//@ob H_remove kind=proof unwind=4 hunwind=18 calls=selectable_read_event:c_read_event,selectable_write_event:c_write_event fn=epoll_selector_remove,epoll_selector_remove_readhup,kselector_remove_list
//@ob H_accept kind=proof unwind=4 hunwind=18 calls=selectable_read_event:c_read_event,selectable_write_event:c_write_event fn=epoll_selector_accept,epoll_selector_listen
//@ob H_life kind=proof unwind=4 hunwind=18 calls=selectable_read_event:c_read_event,selectable_write_event:c_write_event fn=epoll_selector_init,epoll_selector_destroy,kepoll_notice_init,kepoll_module_init
//@ob S_events defs=-DCUT kind=proof unwind=4 hunwind=18 replayable=0 hook=epoll_events calls=selectable_read_event:c_read_event,selectable_write_event:c_write_event fallback=H_events fn=epoll_selector_select,kselector_add_list
//@ob H_events kind=bounded bound="<=2 events" unwind=4 hunwind=18 tier=thorough calls=selectable_read_event:c_read_event,selectable_write_event:c_write_event fn=epoll_selector_select
#ifndef OP
#define OP 0
#endif
static int hd_ev(int *n, void *ev, int ret);
#ifdef CUT
#define KGL_LOOP_CONTRACT_epoll_events if (hd_ev(&n, events, ret)) break; else
#endif
#include "v.h"
#include <pthread.h>
struct kselector_s;
static struct kselector_s *v_tls; static void *v_tls_get(pthread_key_t k) { return v_tls; }
#define pthread_getspecific v_tls_get
static pthread_t v_self(void) { return (pthread_t)77; }
#define pthread_self v_self
#include <sys/syscall.h>
#include <sys/eventfd.h>
#include <sys/epoll.h>
#include <unistd.h>
#include "kselector.h"
#include "kselectable.h"
#include "kserver.h"
#include "kasync_file.h"
#include "kepoll_selector.h"
#include "kfiber.h"
#include "klog.h"
#undef klog
#define klog(...) ((void)0)
#include "v_memset.h"
#undef xfree
#define xfree v_free
#define syscall(n, ...) v_sys_##n(__VA_ARGS__)
static aio_context_t setup_ctx, destroyed_ctx; static int nsetup, ndestroy;
static int v_sys_SYS_io_setup(unsigned n, aio_context_t *c) { V_CHECK(*c == 0 && n >= 1, "a new context is asked for"); nsetup++; setup_ctx = 4242; *c = setup_ctx; return 0; }
static int v_sys_SYS_io_destroy(aio_context_t c) { ndestroy++; destroyed_ctx = c; return 0; }
static int v_sys_SYS_io_submit(aio_context_t c, long n, struct iocb **pp) { return 0; }
static int v_sys_SYS_io_getevents(aio_context_t c, long mn, long n, struct io_event *ev, struct timespec *t) { return 0; }
static int v_epoll_ctl(int ep, int op, int fd, struct epoll_event *e);
static int v_epoll_wait(int ep, struct epoll_event *e, int max, int tmo);
static int v_epoll_create1(int f), v_eventfd(unsigned i, int f), v_close(int fd);
#define epoll_ctl v_epoll_ctl
#define epoll_wait v_epoll_wait
#define epoll_create1 v_epoll_create1
#define eventfd v_eventfd
#define close(a) v_close(a)
#define kselector_update_time c_update_time
static int nupd;
void c_update_time(void) { nupd++; }
#include "src/kepoll_selector.c"
kev_result kselector_event_accept(KOPAQUE d, void *a, int g) { return kev_ok; }
void kselector_default_bind(kselector *s, kselectable *st) {}
pthread_key_t kgl_selector_key; kselector_module kgl_selector_module; size_t kgl_aio_align_size; volatile int64_t kgl_current_msec;
static kselector SEL; static kepoll_selector ES; static kserver_selectable SS; static kfiber CUR, FROM; static kgl_list P[KGL_LIST_COUNT], Q[KGL_LIST_COUNT]; static char arg_[4]; static kgl_iovec IOV;
#define ST (SS.st)
/* ghost: what the kernel has been told about the object's descriptor */
static unsigned reg, reg0; static int nctl; static bool ctlok; static int lastop;
static int fd, q0, cnt0; static uint32_t f0; static bool mainf; static kgl_list *qn, *qp;
static int nre, nwe, nres, gres; static KOPAQUE rdata; static void *rarg; static uint32_t fl_at;
kev_result c_read_event(kselectable *s) { V_CHECK(s == &ST && (s->base.st_flags & STF_READ), "the object's pending read is tried"); nre++; return kev_fiber_ok; }
kev_result c_write_event(kselectable *s) { V_CHECK(s == &ST && (s->base.st_flags & STF_WRITE), "the object's pending write is tried"); nwe++; return kev_fiber_ok; }
static kev_result done(KOPAQUE d, void *a, int got) { nres++; rdata = d; rarg = a; gres = got; fl_at = ST.base.st_flags; return kev_destroy; }
static kev_result other(KOPAQUE d, void *a, int got) { V_CHECK(0, "the other direction's callback is not called"); return kev_ok; }
static bool life; static int ladd, lfd[2]; static void *lptr[2];
static int v_epoll_ctl(int ep, int op, int d, struct epoll_event *e) {
	if (life) { V_CHECK(ep == 11 && op == EPOLL_CTL_ADD && ladd < 2 && (e->events & EPOLLIN) && !(e->events & EPOLLET), "internal descriptors are watched level triggered"); lfd[ladd] = d; lptr[ladd++] = e->data.ptr; return 0; }
	V_CHECK(ep == ES.kdpfd && d == fd, "the object's descriptor in this selector's set"); nctl++; lastop = op; ctlok = V_BOOL();
	if (op == EPOLL_CTL_DEL) { V_CHECK(reg != 0, "only a registered descriptor is removed"); if (ctlok) reg = 0; return ctlok ? 0 : -1; }
	V_CHECK(op == EPOLL_CTL_ADD ? reg == 0 : op == EPOLL_CTL_MOD && reg != 0, "added once, modified afterwards");
	V_CHECK(e->data.ptr == &ST && (e->events & EPOLLET) && (e->events & EPOLLRDHUP), "edge triggered, hang-ups included, events name the object");
	V_CHECK((reg & ~e->events & (EPOLLIN | EPOLLOUT)) == 0, "events already watched stay watched");
	if (ctlok) reg = e->events & (EPOLLIN | EPOLLOUT);
	return ctlok ? 0 : -1;
}
static unsigned mask(uint32_t f) { return ((f & STF_REV) ? EPOLLIN : 0) | ((f & STF_WEV) ? EPOLLOUT : 0); }
static void base(void) {
	kselector zs = {0}; SEL = zs; kepoll_selector ze = {0}; ES = ze; kserver_selectable zt = {0}; SS = zt; v_tls = &SEL; SEL.ctx = &ES; SEL.thread_id = 77; ES.kdpfd = 3; life = false;
	kfiber zf = {0}; CUR = zf; FROM = zf; mainf = V_BOOL(); CUR.switch_from = mainf ? NULL : &FROM; CUR.base.selector = &SEL; SEL.current = &CUR;
	ST.base.selector = &SEL; ST.fd = fd = V_IN(int, 0, 1 << 20); ST.data = &arg_[3]; ST.base.tmo = V_U16(); ST.base.tmo_left = V_U16(); kgl_current_msec = V_IN(long long, 0, 1LL << 60);
	f0 = V_IN(long long, 0, 0xffff); ST.base.st_flags = f0; reg = reg0 = mask(f0); V_ASSUME(V_IMPLIES(reg != 0, f0 & STF_ET));
	ST.e[0].result = ST.e[1].result = other; ST.e[0].arg = ST.e[1].arg = &arg_[2];
	/* where the object is queued: any list or none, between arbitrary neighbours */
	q0 = V_IN(int, -1, KGL_LIST_COUNT - 1); cnt0 = V_IN(int, 1, 1 << 28); SEL.count = cnt0; bool hp = V_BOOL(), hn = V_BOOL();
	for (int i = 0; i < KGL_LIST_COUNT; i++) {
		kgl_list *h = &SEL.list[i];
		if (i == q0) { qp = hp ? &P[i] : h; qn = hn ? &Q[i] : h; qp->next = &ST.base.queue; ST.base.queue.prev = qp; ST.base.queue.next = qn; qn->prev = &ST.base.queue; if (hp) { h->next = &P[i]; P[i].prev = h; } if (hn) { h->prev = &Q[i]; Q[i].next = h; } }
		else if (hp) { h->next = h->prev = &P[i]; P[i].next = P[i].prev = h; } else h->next = h->prev = h;
	}
	nctl = nre = nwe = nres = nupd = 0; nsetup = ndestroy = 0;
}
static bool stays(void) { return SEL.count == cnt0 && (q0 < 0 ? ST.base.queue.next == NULL : ST.base.queue.next == qn && ST.base.queue.prev == qp && qn->prev == &ST.base.queue && qp->next == &ST.base.queue); }
static bool at_tail(int l) {
	kgl_list *h = &SEL.list[l], *pv = ST.base.queue.prev;
	bool in = h->prev == &ST.base.queue && ST.base.queue.next == h && pv && pv->next == &ST.base.queue && SEL.count == cnt0 + (q0 < 0);
	if (q0 >= 0 && q0 != l) in = in && qp->next == qn && qn->prev == qp;
	return in;
}
static bool off(void) { return SEL.count == cnt0 - (q0 >= 0) && ST.base.queue.next == NULL && (q0 < 0 || (qp->next == qn && qn->prev == qp)); }
#define REGF (STF_REV | STF_WEV)
static void regs_ok(void) { uint32_t f = ST.base.st_flags; V_CHECK(reg == mask(f), "the object is marked as watched for exactly what the kernel watches"); V_CHECK(V_IMPLIES(f & REGF, f & STF_ET), "watched objects are marked edge triggered"); }
#define ERR_(x) (!(x))
#if OP < 3
void H_arm(void) {
	base(); bool rd = OP == 0; uint32_t my = OP == 0 ? STF_READ : STF_WRITE, want = OP == 0 ? EPOLLIN : EPOLLOUT, ready = OP == 0 ? STF_RREADY : STF_WREADY, arm = OP == 2 ? STF_WRITE | STF_SENDFILE : my; int d = OP == 0 ? OP_READ : OP_WRITE;
	V_ASSUME((f0 & my) == 0 && (f0 & STF_SENDFILE) == 0);
	kev_result r = OP == 0 ? epoll_selector_read(&SEL, &ST, done, &IOV, &arg_[0]) : OP == 1 ? epoll_selector_write(&SEL, &ST, done, &IOV, &arg_[0]) : epoll_selector_sendfile(&ST, done, &IOV, &arg_[0]);
	uint32_t f = ST.base.st_flags;
	V_CHECK(ST.e[d].result == done && ST.e[d].arg == &arg_[0] && ST.e[d].buffer == &IOV && ST.e[1 - d].result == other && ST.e[1 - d].arg == &arg_[2] && ST.data == (void *)&arg_[3], "the operation is recorded with its callback, argument and buffer, the other direction untouched");
	V_CHECK(((f ^ f0) & ~(arm | STF_RDHUP | REGF | STF_ET | STF_WREADY)) == 0 && !(f & STF_RDHUP), "no other mark changes");
	regs_ok();
	if (f0 & ready) {
		V_CHECK(nctl == 0 && nres == 0 && (f & arm) == arm, "ready: tried without asking the kernel");
		if (mainf) { V_REACH("queued as ready"); V_CHECK(at_tail(KGL_LIST_READY) && nre + nwe == 0 && r == kev_ok, "ready: queued behind the other ready objects"); }
		else { V_REACH("tried at once"); V_CHECK(nre == rd && nwe == !rd && stays() && r == kev_fiber_ok, "ready: tried at once from a fiber"); }
		return;
	}
	V_CHECK(nre + nwe == 0, "not ready: nothing is tried");
	if (nctl && !ctlok) { V_REACH("refused"); V_CHECK(nres == 1 && rdata == (void *)&arg_[3] && rarg == &arg_[0] && gres == -1 && r == kev_destroy && (fl_at & arm) == 0 && stays(), "refused: failure is reported once and the operation is not pending"); V_CHECK(((f ^ f0) & ~STF_RDHUP) == 0, "refused: nothing is marked"); return; }
	V_REACH("armed");
	V_CHECK(nctl == !(reg0 & want) && (reg & want), "the kernel watches for the event, told only if it did not yet");
	V_CHECK(nres == 0 && r == kev_ok && (f & arm) == arm && (q0 < 0 ? at_tail(KGL_LIST_RW) && ST.active_msec == kgl_current_msec : stays()), "the operation is pending on a list with a timeout");
}
#endif
#if OP >= 3
void H_connect(void) {
	base();
	if (OP == 3) V_ASSUME((f0 & (STF_READ | STF_WRITE | STF_RDHUP | REGF)) == 0);
	bool r = OP == 3 ? epoll_selector_connect(&SEL, &ST, done, &arg_[0]) : epoll_selector_readhup(&SEL, &ST, done, &arg_[0]); uint32_t f = ST.base.st_flags, arm = OP == 3 ? STF_WRITE : STF_RDHUP;
	regs_ok(); V_CHECK(nre + nwe + nres == 0, "nothing is reported before the event");
#if OP == 4
	if (f0 & (STF_READ | STF_WRITE)) { V_REACH("busy"); V_CHECK(!r && f == f0 && stays() && ST.e[OP_WRITE].result == other, "a hang-up watch does not replace a pending operation"); return; }
	V_REACH("watch");
#endif
	V_CHECK(ST.e[OP_WRITE].result == done && ST.e[OP_WRITE].arg == &arg_[0] && ST.e[OP_WRITE].buffer == NULL && ST.e[OP_READ].result == other && ((f ^ f0) & ~(arm | REGF | STF_ET | STF_WREADY)) == 0, "the operation is recorded");
	V_CHECK(nctl == (reg0 == 0), "the kernel is told only if the object is not watched yet");
	if (nctl && !ctlok) { V_REACH("refused"); V_CHECK(!r && (f & ~arm) == (f0 & ~arm) && !(f & arm) && stays(), "refused: not pending, nothing marked"); return; }
	V_CHECK(r && (f & arm) && (OP == 4 ? stays() : (at_tail(KGL_LIST_CONNECT) && ST.active_msec == kgl_current_msec && reg == (EPOLLIN | EPOLLOUT))), "pending; a connect is on the connect timeout list and watched in both directions"); V_REACH("pending");
}
#endif
void H_remove(void) {
	base(); V_ASSUME((f0 & (STF_READ | STF_WRITE)) == 0); bool hup = V_BOOL(); if (!hup) V_ASSUME((f0 & STF_RDHUP) == 0);
	if (hup) { bool r = epoll_selector_remove_readhup(&SEL, &ST); V_CHECK(r, "removed"); } else epoll_selector_remove(&SEL, &ST);
	uint32_t f = ST.base.st_flags; V_CHECK(!(f & STF_RDHUP) && nre + nwe + nres == 0, "no watch is left and nothing is reported");
	if (hup && !(f0 & STF_RDHUP)) { V_REACH("no watch"); V_CHECK(f == f0 && nctl == 0 && stays(), "nothing to remove"); return; }
	if (!reg0) { V_REACH("not watched"); V_CHECK(nctl == 0 && stays() && f == (f0 & ~STF_RDHUP), "an unwatched object is left alone"); return; }
	V_REACH("removed"); V_CHECK(nctl == 1 && lastop == EPOLL_CTL_DEL && off() && (f & (REGF | STF_ET | STF_RREADY | STF_WREADY)) == 0 && ((f ^ f0) & ~(REGF | STF_ET | STF_RREADY | STF_WREADY | STF_RDHUP)) == 0, "it leaves the kernel's set and every list, and nothing is remembered about its readiness");
}
void H_accept(void) {
	base(); V_ASSUME(!(f0 & (STF_READ | STF_WEV)));
	if (V_BOOL()) { V_REACH("listen"); bool r = epoll_selector_listen(&SS, done); V_CHECK(r && ST.e[OP_READ].arg == &SS && ST.e[OP_READ].result == kselector_event_accept && ST.e[OP_WRITE].result == done && ST.base.st_flags == (f0 | STF_RREADY) && nctl == 0 && stays(), "a listening socket is tried first"); return; }
	ST.e[OP_READ].arg = &SS; ST.e[OP_READ].result = kselector_event_accept; ST.e[OP_WRITE].result = done;
	bool r = epoll_selector_accept(&SS, &arg_[0]); uint32_t f = ST.base.st_flags; regs_ok(); V_CHECK(ST.e[OP_WRITE].arg == &arg_[0] && nre + nwe + nres == 0, "the accept argument is recorded");
	if (f0 & STF_RREADY) { V_REACH("ready"); V_CHECK(r && nctl == 0 && at_tail(KGL_LIST_READY) && f == (f0 | STF_READ), "ready: queued as ready"); return; }
	if (reg0) { V_REACH("watched"); V_CHECK(r && nctl == 0 && stays() && f == (f0 | STF_READ), "watched already: pending"); return; }
	V_CHECK(nctl == 1 && stays(), "watched now");
	if (ctlok) { V_REACH("watch"); V_CHECK(r && (reg & EPOLLIN) && (f & STF_READ), "pending"); } else { V_REACH("refused"); V_CHECK(!r && (f | STF_ET) == (f0 | STF_ET), "refused: not pending, nothing marked"); }
}
static int nclose, cfd[4], nefd;
static int v_epoll_create1(int f) { V_CHECK(f & EPOLL_CLOEXEC, "not inherited"); return 11; }
static int v_eventfd(unsigned i, int f) { V_CHECK(i == 0 && (f & EFD_CLOEXEC) && !(f & EFD_SEMAPHORE), "an empty counter, not inherited"); return 20 + nefd++; }
static int v_close(int f) { V_CHECK(nclose < 4, "three descriptors"); cfd[nclose++] = f; return 0; }
static int closed(int f) { int c = 0; for (int i = 0; i < 4; i++) if (i < nclose && cfd[i] == f) c++; return c; }
void H_life(void) {
	base(); life = true; ladd = nefd = nclose = 0; kepoll_module_init();
	kselector_module *m = &kgl_selector_module; V_CHECK(m->init == epoll_selector_init && m->destroy == epoll_selector_destroy && m->bind == kselector_default_bind && m->listen == epoll_selector_listen && m->accept == epoll_selector_accept && m->connect == epoll_selector_connect && m->remove == epoll_selector_remove && m->read == epoll_selector_read && m->write == epoll_selector_write && m->readhup == epoll_selector_readhup && m->remove_readhup == epoll_selector_remove_readhup && m->select == epoll_selector_select && m->next == epoll_selector_next && m->aio_open == epoll_selector_aio_open && m->aio_write == epoll_selector_aio_write && m->aio_read == epoll_selector_aio_read && m->sendfile == epoll_selector_sendfile, "every operation of the table is the back end's own");
	SEL.ctx = NULL; epoll_selector_init(&SEL); kepoll_selector *e = (kepoll_selector *)SEL.ctx; V_REACH("init");
	V_CHECK(e && e->kdpfd == 11 && nsetup == 1 && e->aio_st.aio_ctx == setup_ctx && nefd == 2 && e->notice_st.st.fd != e->aio_st.st.fd && e->notice_st.head == NULL, "its own poll set, two event counters, an aio context");
	V_CHECK(ladd == 2 && ((lptr[0] == &e->notice_st.st && lfd[0] == e->notice_st.st.fd && lptr[1] == &e->aio_st.st && lfd[1] == e->aio_st.st.fd) || (lptr[1] == &e->notice_st.st && lfd[1] == e->notice_st.st.fd && lptr[0] == &e->aio_st.st && lfd[0] == e->aio_st.st.fd)), "both counters are watched");
	V_CHECK(e->notice_st.st.base.selector == &SEL && e->aio_st.st.base.selector == &SEL && (e->notice_st.st.base.st_flags & (STF_READ | STF_ET | STF_UDP | STF_WRITE | STF_RDHUP)) == STF_READ && (e->aio_st.st.base.st_flags & (STF_READ | STF_ET | STF_UDP | STF_WRITE | STF_RDHUP)) == STF_READ && e->notice_st.st.e[OP_READ].result == result_notice_event && e->notice_st.st.e[OP_READ].arg == &e->notice_st && e->aio_st.st.e[OP_READ].result == result_aio_event && e->aio_st.st.e[OP_READ].arg == &e->aio_st && e->notice_st.st.e[OP_READ].buffer == NULL && e->aio_st.st.e[OP_READ].buffer == NULL, "their readiness always runs their own handler");
	int nf = e->notice_st.st.fd, af = e->aio_st.st.fd; v_nfreed = 0; epoll_selector_destroy(&SEL); V_REACH("destroy");
	V_CHECK(nclose == 3 && closed(11) == 1 && closed(nf) == 1 && closed(af) == 1 && ndestroy == 1 && destroyed_ctx == setup_ctx && v_times_freed(e) == 1, "every descriptor, the aio context and the memory are released once");
}
/* events */
static struct epoll_event *EV; static int nev, ec, wtmo, heads, n0; static unsigned evm;
static int v_epoll_wait(int ep, struct epoll_event *e, int max, int tmo) {
	V_CHECK(ep == ES.kdpfd && max >= 1 && max <= MAXEVENT, "this selector's set, no more events than fit"); wtmo = tmo; nev++; EV = e;
#ifdef CUT
	ec = V_IN(int, -1, MAXEVENT); V_ASSUME(ec <= max);
#else
	ec = V_IN(int, -1, 1); evm = V_U32(); e[0].events = evm; e[0].data.ptr = &ST;
#endif
	return ec;
}
static void event_ok(void) {
	uint32_t f = ST.base.st_flags; bool rr = evm & (EPOLLIN | EPOLLPRI | EPOLLHUP), wr = evm & (EPOLLOUT | EPOLLRDHUP);
	V_CHECK(!!(f & STF_RREADY) == (rr || (f0 & STF_RREADY)) && !!(f & STF_WREADY) == (wr || (f0 & STF_WREADY)), "readiness is remembered, and only what was reported");
	bool want = (rr && (f0 & STF_READ)) || (wr && (f0 & STF_WRITE)) || ((evm & EPOLLRDHUP) && (f0 & STF_RDHUP));
	if (want) { V_REACH("wanted"); V_CHECK(at_tail(KGL_LIST_READY), "an object with a pending operation that became ready is queued as ready, once"); }
	else { V_REACH("unwanted"); V_CHECK(stays(), "nobody waits for it: it stays where it is"); }
	V_CHECK(((f ^ f0) & ~(STF_RREADY | STF_WREADY | STF_ERR)) == 0 && nctl + nre + nwe + nres == 0, "pending operations stay pending until they are tried");
	V_CHECK(V_IMPLIES(f & ~f0 & STF_ERR, evm & EPOLLRDHUP), "an error is marked only after a hang-up");
}
static int hd_ev(int *n, void *ev, int ret) {
	if (++heads == 1) { V_CHECK(*n == 0 && ret == ec && ev == (void *)EV, "from the first event"); n0 = V_IN(int, 0, MAXEVENT - 1); V_ASSUME(n0 < ret); *n = n0; evm = V_U32(); EV[n0].events = evm; EV[n0].data.ptr = &ST; return 0; }
	V_CHECK(*n == n0 + 1 && heads == 2, "one after the other"); event_ok(); V_REACH("next"); V_ASSUME(0); return 1;
}
static int sel(void) { base(); heads = nev = 0; SEL.utm = V_BOOL(); int t = V_INT(); int r = epoll_selector_select(&SEL, t); V_CHECK(nev == 1 && wtmo == t && r == ec && nupd == SEL.utm, "the kernel is asked once with the given timeout, the clock is advanced if this thread keeps it"); return r; }
void S_events(void) {
	int r = sel(); V_REACH("returned");
	if (heads == 0) { V_CHECK(r <= 0 && stays() && ST.base.st_flags == f0, "no event, no change"); return; }
	V_CHECK(n0 + 1 == r, "it returns after the last event"); event_ok();
}
void H_events(void) { int r = sel(); V_REACH("returned"); if (r == 1) event_ok(); else V_CHECK(stays() && ST.base.st_flags == f0, "no event, no change"); }
