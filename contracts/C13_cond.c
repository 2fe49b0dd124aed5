/* Fiber events (condition variables): the four fiber flavours and the thread flavour. */
//@assume xmalloc succeeds; fewer than 2^28 pending events; the single-thread flavours are used from their own thread only
//@ob H_wait split="FL:0,1,2,3;CBK:0,1" kind=proof unwind=4 hunwind=18 fn=kfiber_cond_wait,kfiber_cond_wait_ar,kfiber_cond_wait_ts,kfiber_cond_wait_ts_ar,kfiber_cond_wait_callback,kfiber_cond_wait_callback_ar,kfiber_cond_wait_callback_ts,kfiber_cond_wait_callback_ts_ar
//@ob H_try split="FL:0,1,2,3" kind=proof unwind=4 hunwind=18 fn=kfiber_cond_try_wait,kfiber_cond_try_wait_ar,kfiber_cond_try_wait_ts,kfiber_cond_try_wait_ts_ar
//@ob H_notice split="FL:0,1,2,3" kind=bounded bound="<=2 waiters" unwind=4 hunwind=18 fn=kfiber_cond_notice,kfiber_cond_notice_ar,kfiber_cond_notice_ts,kfiber_cond_notice_ts_ar
//@ob S_notice split="FL:0,1,2,3" defs="-DCUT -DNOTICE" kind=proof unwind=4 hunwind=18 replayable=0 hook=wakeup_all fallback=H_notice fn=kfiber_cond_notice,kfiber_cond_notice_ar,kfiber_cond_notice_ts,kfiber_cond_notice_ts_ar
//@ob S_wakeall defs=-DCUT kind=proof unwind=4 hunwind=18 replayable=0 hook=wakeup_all fallback=H_notice fn=kfiber_wakeup_all_waiter
//@ob H_init kind=proof unwind=4 hunwind=18 fn=kfiber_cond_init,kfiber_cond_init_ts,kfiber_cond_destroy,kfiber_cond_destroy_ts
#define V_FREE_TRACK
#include "v.h"
struct kgl_base_selectable_s;
static int hd_wake(struct kgl_base_selectable_s **w, int got);
#ifdef CUT
#define KGL_LOOP_CONTRACT_wakeup_all if (hd_wake(&waiter, got)) break; else
#endif
#include "fib_common.h"
#ifndef FL
#define FL 0
#endif
#define AR (FL & 1)
#ifdef NOTICE
#define REACH_STEP(l)
#else
#define REACH_STEP V_REACH
#endif
#if FL == 1 || FL == 3
#define REACH_AR V_REACH
#else
#define REACH_AR(l)
#endif
#define TS (FL & 2)
#define MAXN (1 << 28)
static kfiber_cond *C; static struct waiter W1, W2; static kgl_base_selectable REST; static int nw, ev0, ev1; static kgl_base_selectable *h0, *h1, *hn; static int ns; static bool qself, qev, frozen, exact;
/* invariant: nobody waits while an event is set */
static void havoc_c(void) {
	C->ev = V_IN(int, 0, MAXN); nw = V_IN(int, 0, exact ? 2 : 3); V_ASSUME(V_IMPLIES(nw > 0, C->ev == 0)); if (!AR) V_ASSUME(C->ev <= 1);
	C->waiter = NULL;
	if (nw > 0) { mk_waiter(&W1, 3, &OBJ[1]); C->waiter = W1.b; if (nw > 1) { if (exact) { mk_waiter(&W2, 3, &OBJ[2]); W1.b->next = W2.b; } else W1.b->next = &REST; } }
	ev0 = C->ev; h0 = C->waiter; h1 = h0 ? h0->next : NULL;
}
static void settle(void) {
	ev1 = C->ev; hn = C->waiter; ns++;
	qself = hn && queued_self(hn, h0); qev = hn && hn != h0 && hn != h1 && queued_ev(hn, h0, &OBJ[2], ev_cb, &OBJ[3]);
	V_CHECK(hn == NULL || C->ev == 0, "nobody is left waiting while an event is set");
}
static void env_lock(void) { if (frozen) return; V_CHECK(TS && held == &((kfiber_cond_ts *)C)->lock, "the event's own lock"); V_CHECK(ns == 0, "one critical section decides"); havoc_c(); }
static void env_unlock(void) { if (!frozen) settle(); }
static bool settled;
static void env_wait(void) { if (!TS && !settled) { settled = true; settle(); } V_CHECK(SELF.wait_code == SELF.base.wait_obj, "it waits for what it will be woken with"); }
static int phase, heads;
static struct waiter A; static kgl_base_selectable NXT; static bool last; static int got0;
static void env_wake(void) { if (!TS && !settled) { settled = true; settle(); } if (phase == 2) A.b->next = V_BOOL() ? &REST : NULL; }
static void start(bool in_main) {
	fib_base(false); frozen = true; C = TS ? kfiber_cond_init_ts(AR) : kfiber_cond_init(AR); frozen = false; ns = 0; qself = qev = settled = false; phase = heads = 0;
	if (in_main) SEL.current = &MAIN;
	if (!TS) havoc_c();
}
static void done(void) { if (!TS && !settled) { settled = true; settle(); } V_CHECK(held == NULL && V_IMPLIES(TS, ns == 1), "the lock is released"); }
#ifndef CBK
#define CBK 0
#endif
void H_wait(void) {
	exact = false; start(CBK && V_BOOL()); int got = 77, r; int rv0 = SELF.retval; bool g = V_BOOL();
#if CBK
	r = (int)C->f->wait_callback(C, &OBJ[2], ev_cb, &OBJ[3]); done(); V_REACH("returned");
	V_CHECK(r == (int)kev_ok && nwait == 0, "registering a callback never suspends");
	if (ev0 > 0) { V_REACH("set"); V_CHECK(nwake == 1 && w_who[0] == &OBJ[3] && w_obj[0] == &OBJ[2] && w_got[0] == 0 && w_sel[0] == &SEL && w_cb[0] == (void *)ev_cb && hn == h0, "already set: the callback is posted once"); }
	else { V_REACH("queued"); V_CHECK(nwake == 0 && qev, "not set: the callback waits with its data and argument"); }
#else
	r = C->f->wait(C, g ? &got : NULL); done(); V_REACH("returned");
	V_CHECK(r == 0 && nwake == 0, "waiting succeeds and wakes nobody");
	if (ev0 > 0) { V_REACH("set"); V_CHECK(nwait == 0 && hn == h0, "already set: it does not suspend"); }
	else { V_REACH("suspended"); V_CHECK(nwait == 1 && qself && V_IMPLIES(g, got == wait_ret), "not set: it suspends once, in the queue, and gets the value it is woken with"); }
#endif
	V_CHECK(ev1 == ev0 - (AR && ev0 > 0 ? 1 : 0), "an auto-reset event is consumed by exactly one, a manual-reset one stays set");
}
void H_try(void) {
	exact = false; start(false); int got = 77; bool g = V_BOOL(); int r = C->f->try_wait(C, g ? &got : NULL); done(); V_REACH("returned");
	V_CHECK(nwait == 0 && nwake == 0 && hn == h0, "trying never suspends, queues or wakes");
	V_CHECK(r == (ev0 > 0 ? 0 : -1) && ev1 == ev0 - (AR && ev0 > 0 ? 1 : 0), "it succeeds exactly when the event is set, and consumes an auto-reset one");
}
static kgl_base_selectable *wk; static int wks;
static int hd_wake(kgl_base_selectable **w, int got) {
	if (phase == 1) { done(); wks++; wk = *w; V_CHECK(got == got0, "with the given result"); return 1; }
	if (heads++ == 0) {
		phase = 2; mk_waiter(&A, 3, &OBJ[1]); V_CHECK(*w == &REST && got == got0, "waking starts at the first waiter"); *w = A.b; last = V_BOOL(); A.b->next = last ? NULL : &NXT; return 0;
	}
	REACH_STEP("one step"); V_CHECK(!last && *w == &NXT && nwake == 1 && woke(0, &A, got0), "each waiter is woken once with the given result, then its successor follows even if the woken one already runs"); V_ASSUME(0); return 1;
}
void S_notice(void) {
	exact = false; start(V_BOOL()); SEL.current = &SELF; phase = 1; wks = 0; got0 = V_INT();
	int r = C->f->notice(C, got0); V_REACH("returned"); done();
	V_CHECK(r == 0 && nwait == 0, "signalling never waits");
	if (AR) {
		V_CHECK(wks == 0, "one at a time");
		if (nw > 0) { REACH_AR("handed over"); V_CHECK(nwake == 1 && woke(0, &W1, got0) && hn == h1 && ev1 == ev0, "an auto-reset event releases exactly one waiter with its result"); }
		else { REACH_AR("kept"); V_CHECK(nwake == 0 && ev1 == ev0 + 1 && hn == h0, "or is kept for the next one"); }
	} else {
		V_CHECK(ev1 == 1 && hn == NULL, "a manual-reset event stays set, nobody is left queued"); V_CHECK(nwake == 0 && V_IMPLIES(nw > 0, wks == 1 && wk == h0), "all waiters are woken");
	}
}
void H_notice(void) {
	exact = true; start(V_BOOL()); SEL.current = &SELF; got0 = V_INT();
	int r = C->f->notice(C, got0); V_REACH("returned"); done();
	V_CHECK(r == 0 && nwait == 0, "signalling never waits");
	if (AR) {
		if (nw > 0) V_CHECK(nwake == 1 && woke(0, &W1, got0) && hn == h1 && ev1 == ev0, "an auto-reset event releases exactly one waiter with its result");
		else V_CHECK(nwake == 0 && ev1 == ev0 + 1 && hn == h0, "or is kept for the next one");
	} else {
		V_CHECK(ev1 == 1 && hn == NULL && nwake == nw, "a manual-reset event stays set, all waiters are woken");
		if (nw > 0) V_CHECK(woke(0, &W1, got0), "first"); if (nw > 1) V_CHECK(woke(1, &W2, got0), "second");
	}
}
void S_wakeall(void) {
	start(false); phase = 0; got0 = V_INT(); bool none = V_BOOL(); settled = true;
	kfiber_wakeup_all_waiter(none ? NULL : &REST, got0);
	V_REACH("done");
	if (none) V_CHECK(nwake == 0, "nobody to wake"); else V_CHECK(last && nwake == 1 && woke(0, &A, got0), "waking ends after the last waiter");
}
void H_init(void) {
	fib_base(false); frozen = true; bool ts = V_BOOL(), ar = V_BOOL();
	kfiber_cond *c = ts ? kfiber_cond_init_ts(ar) : kfiber_cond_init(ar);
	V_CHECK(c && c->f && c->ev == 0 && c->waiter == NULL && ninit == (ts ? 1 : 0), "a new event is not set and nobody waits"); V_REACH("made");
	c->f->release(c); V_CHECK(v_times_freed(c) == 1 && ndestroy == (ts ? 1 : 0), "releasing it frees it once");
}
#include "src/kfiber_sync.c"
