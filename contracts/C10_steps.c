/* Timeout lists, ready list and ticks: inductive step proofs (any number of listed objects). */
//@assume list timeouts are positive; time values below 2^61 milliseconds; entries of a timeout list are ordered by last activity (every insertion stamps the current time)
//@assume composition (paper): each step takes the head of the list, so every listed object is handled once and in order
//@ob S_list split="LI:0,1;LEN:0,1,2" kind=proof defs=-DWHICH=L_LIST unwind=4 hunwind=18 replayable=0 hook=check_list fallback=H_timeout never=next_adjust_time fn=kselector_check_timeout,selectable_shutdown
//@ob S_ready split="FIB:0,1;LEN:0,1,2" kind=proof defs=-DWHICH=L_READY unwind=4 hunwind=18 replayable=0 hook=check_ready fallback=H_ready never=next_adjust_time fn=kselector_check_timeout,kselector_add_list
//@ob S_tick kind=proof defs=-DWHICH=L_TICK unwind=4 hunwind=18 replayable=0 hook=check_tick fallback=H_ticks fn=kselector_check_timeout
#ifndef LI
#define LI 0
#endif
#ifndef LEN
#define LEN 1
#endif
#ifndef FIB
#define FIB 0
#endif
#include "sel_steps.h"
static kselectable a, z; static kfiber fa; static char A_, D_; static bool bad; static int revt, wevt, fevt, tmo; static bool cbmove;
static kev_result onread(KOPAQUE d, void *x, int got) { tmo++; if (d != &D_ || x != &A_ || got != ST_ERR_TIME_OUT || !a.base.queue.next) bad = true; return kev_ok; }
static void off(void) { if ((FIB ? fa.base.queue.next : a.base.queue.next) != NULL) bad = true; }
static bool moved;
kev_result selectable_read_event(kselectable *s) { if (s != &a) bad = true; if (!moved) off(); revt++; if (cbmove && !moved) { moved = true; kselector_add_list(&S, &a, KGL_LIST_RW); } return kev_ok; }
kev_result selectable_write_event(kselectable *s) { if (s != &a) bad = true; off(); wevt++; if (cbmove && !(a.base.st_flags & STF_READ)) { moved = true; kselector_add_list(&S, &a, KGL_LIST_RW); } return kev_ok; }
#include "src/kselector.c"
static kev_result onfiber(KOPAQUE d, void *x, int got) { off(); fevt++; if (d != (KOPAQUE)&fa || x != &A_ || got != 41) bad = true; return kev_ok; }
static int hd_adjt(struct krb_node **node) { return 1; }
static int hd_adjl(int i, kgl_list **pos) { return 1; }
static int hd_collect(kselector *s, struct krb_node **block, struct krb_node **last) { return 1; }
static int hd_fire(struct krb_node **block) { return 1; }
static int hd_chain(kgl_block_queue **rq) { return 1; }
/* list h: a [.. z]; a single element when LEN is 1 */
static void mklist(kgl_list *h, kgl_list *x) {
	if (LEN == 0) return;
	h->next = x; x->prev = h;
	if (LEN == 1) { x->next = h; h->prev = x; return; }
	x->next = &z.base.queue; z.base.queue.prev = x; z.base.queue.next = h; h->prev = &z.base.queue;
}
static int64_t act; static uint16_t left; static uint32_t fl; static int cnt;
static bool expd, again, rtmo, dead;
static void list_post(bool handled) {
	kgl_list *h = &S.list[LI];
	V_CHECK(!bad, "a read timeout is reported to the right callback with ST_ERR_TIME_OUT");
	V_CHECK(handled == (LEN > 0 && expd), "an object is handled exactly when its last activity is a whole timeout ago");
	V_CHECK(nshut == (handled && dead ? 1 : 0) && V_IMPLIES(nshut, shutfd == 5), "an expired connection is shut down exactly once, no other is");
	V_CHECK(tmo == (handled && rtmo ? 1 : 0), "a pending read that asked for it is told about the timeout once");
	V_CHECK(a.base.tmo_left == left - (handled && again ? 1 : 0), "an extension is used up one at a time");
	V_CHECK(a.active_msec == (handled && (again || rtmo) ? kgl_current_msec : act), "a new period starts exactly where one was granted");
	V_CHECK(a.base.st_flags == fl, "flags stay");
	V_CHECK(S.count == cnt - (handled && dead ? 1 : 0), "the count follows");
	V_CHECK((a.base.queue.next == NULL) == (LEN == 0 || (handled && dead)), "exactly a connection that was shut down leaves the list");
	if (handled) {
		if (LEN == 1) V_CHECK(dead ? h->next == h && h->prev == h : h->next == &a.base.queue && h->prev == &a.base.queue && a.base.queue.next == h && a.base.queue.prev == h, "the others keep their places, a renewed one goes to the end");
		if (LEN == 2) {
			V_CHECK(h->next == &z.base.queue && z.base.queue.prev == h, "the others keep their places");
			V_CHECK(dead ? h->prev == &z.base.queue && z.base.queue.next == h : h->prev == &a.base.queue && a.base.queue.prev == &z.base.queue && z.base.queue.next == &a.base.queue && a.base.queue.next == h, "a renewed one goes to the end");
		}
	}
}
static int hd_list(kselector *s, int i) {
	if (i != LI) return 1;
	if (heads++ == 0) return 0;
#if LEN > 0
	STEP_REACH(L_LIST, "an object was handled");
#endif
	list_post(true);
	V_ASSUME(0); return 1;
}
void S_list(void) {
	base(); bad = false; tmo = 0; kselectable zz = {0}; a = z = zz; a.base.selector = z.base.selector = &S;
	a.fd = 5; z.fd = 6; act = a.active_msec = V_IN(int64_t, -T61, T61); z.active_msec = V_IN(int64_t, -T61, T61); left = a.base.tmo_left = V_U16(); a.base.tmo = V_U16(); z.base.tmo_left = V_U16();
	fl = a.base.st_flags = V_IN(uint32_t, 0, 0x3fff); a.data = &D_; a.e[OP_READ].result = onread; a.e[OP_READ].arg = &A_;
	S.count = cnt = V_IN(int, LEN, INT_MAX);
	V_ASSUME(act <= kgl_current_msec);
	mklist(&S.list[LI], &a.base.queue);
	expd = kgl_current_msec - act >= S.timeout[LI]; again = left > 0; rtmo = !again && (fl & STF_RTIME_OUT) && (fl & STF_READ); dead = !again && !rtmo;
	kselector_check_timeout(&S, 0);
	V_REACH("the list is done");
	list_post(false);
	if (LEN == 1) V_CHECK(S.list[LI].next == &a.base.queue && S.list[LI].prev == &a.base.queue, "what has not expired stays");
	if (LEN == 2) V_CHECK(S.list[LI].next == &a.base.queue && a.base.queue.next == &z.base.queue && S.list[LI].prev == &z.base.queue, "what has not expired stays");
}
static bool want; static uint32_t lf;
static int hd_ready(kselector *s) {
	if (heads++ == 0) return 0;
#if LEN > 0
	STEP_REACH(L_READY, "an object was dispatched");
#endif
	kgl_list *h = &S.list[KGL_LIST_READY], *rw = &S.list[KGL_LIST_RW];
	V_CHECK(!bad, "an object is dispatched as itself, with its own argument and value, after it left the list");
	V_CHECK(LEN == 1 ? h->next == h && h->prev == h : h->next == &z.base.queue && z.base.queue.prev == h && h->prev == &z.base.queue && z.base.queue.next == h, "the others keep their places");
#if FIB
	V_CHECK(fevt == 1 && !revt && !wevt && fa.base.queue.next == NULL, "a ready fiber runs once");
	V_CHECK(rw->next == rw && S.count == cnt - 1, "and is no longer counted");
#else
	bool w = (fl & (STF_WREADY | STF_WREADY2)) && (fl & (STF_WRITE | STF_RDHUP)), r = (fl & (STF_RREADY | STF_RREADY2)) && (fl & STF_READ);
	V_CHECK(wevt == (w ? 1 : 0) && !fevt, "a pending write that is ready is served once, no other");
	V_CHECK(revt == (r ? 1 : 0), "a pending read that is ready is served once, no other");
	uint32_t l = fl; if (w) l &= ~(STF_WRITE | STF_RDHUP); if (r) l &= ~STF_READ;
	bool listed = moved || ((l & (STF_READ | STF_WRITE)) && (fl & STF_ET));
	V_CHECK((a.base.queue.next != NULL) == listed, "an object with an operation still pending goes under inactivity timeout");
	V_CHECK(listed ? rw->next == &a.base.queue && rw->prev == &a.base.queue && a.base.queue.next == rw && a.base.queue.prev == rw && a.active_msec == kgl_current_msec && a.base.tmo_left == a.base.tmo : rw->next == rw && rw->prev == rw, "listed once, with a fresh period");
	V_CHECK(S.count == cnt - 1 + (listed ? 1 : 0), "the count is the number of listed objects");
#endif
	V_ASSUME(0); return 1;
}
void S_ready(void) {
	base(); bad = moved = false; revt = wevt = fevt = 0; kselectable zz = {0}; a = z = zz; kfiber zf = {0}; fa = zf; a.base.selector = z.base.selector = fa.base.selector = &S;
	fl = a.base.st_flags = V_IN(uint32_t, 0, 0x3fff); a.base.tmo = V_U16(); a.base.tmo_left = V_U16(); a.active_msec = V_IN(int64_t, -T61, T61); cbmove = V_BOOL();
	fa.base.st_flags = STF_FIBER; fa.cb = onfiber; fa.arg = &A_; fa.retval = 41;
	S.count = cnt = V_IN(int, LEN, INT_MAX);
	mklist(&S.list[KGL_LIST_READY], FIB ? &fa.base.queue : &a.base.queue);
	kselector_check_timeout(&S, 0);
#if LEN == 0
	V_REACH("the list is done");
	V_CHECK(!bad && !revt && !wevt && !fevt && S.count == cnt, "an empty ready list dispatches nothing");
#else
	V_CHECK(0, "dispatching goes on until the ready list is empty");
#endif
}
static kselector_tick t1, t2; static int ticks, tret, tev, EV, min0; static bool lastt, closes;
static int ontick(void *x, int ev) {
	ticks++; tev = ev; if (x != &A_) bad = true;
	if (closes) { t1.queue.prev->next = t1.queue.next; t1.queue.next->prev = t1.queue.prev; t1.queue.next = t1.queue.prev = NULL; }
	return tret;
}
static int tickmin(void) { return tret > 0 && tret < min0 ? tret : min0; }
static int hd_tick(kgl_list **t, int *min) {
	if (heads++ == 0) {
		V_CHECK(*t == S.tick.next && *min == SELECTOR_TMO_MSEC, "starts with the first tick and the default interval");
		*t = &t1.queue; min0 = *min = V_IN(int, 1, SELECTOR_TMO_MSEC); return 0;
	}
	STEP_REACH(L_TICK, "a tick was called");
	V_CHECK(ticks == 1 && !bad && tev == EV, "a tick is called once, with its argument and the number of events");
	V_CHECK(*t == &t2.queue, "then comes the next one, even if the tick closed itself");
	V_CHECK(*min == tickmin(), "the interval is the smallest positive one requested so far");
	V_ASSUME(0); return 1;
}
void S_tick(void) {
	base(); bad = false; ticks = 0; EV = V_INT(); tret = V_INT(); lastt = V_BOOL(); closes = V_BOOL(); bool front = V_BOOL(); static kgl_list f;
	t1.cb = ontick; t1.arg = &A_; t2.cb = ontick; t2.arg = &D_;
	kgl_list *h = &S.tick; kgl_list *p = front ? &f : h, *n = lastt ? h : &t2.queue;
	f.prev = h; h->next = front ? &f : &t1.queue; p->next = &t1.queue; t1.queue.prev = p; t1.queue.next = n; t2.queue.next = h; h->prev = &t2.queue; n->prev = &t1.queue;
	int r = kselector_check_timeout(&S, EV);
	V_REACH("the last tick is done");
	V_CHECK(lastt && ticks == 1 && !bad && tev == EV, "the ticks end only after the last one");
	V_CHECK(r == tickmin(), "the round reports the smallest positive interval requested, at most the default");
}
