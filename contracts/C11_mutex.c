/* Fiber mutex with a limit.  Ghost state: the number of queued waiters. Monitor proof: every critical section starts in an
 * arbitrary state satisfying the invariant and must end in one; what it did is compared with the call's result. */
//@assume xmalloc succeeds; fewer than 2^28 holders and waiters; the limit is at least 1; unlock is called by a holder
//@ob H_lock kind=proof unwind=3 hunwind=18 fn=kfiber_mutex_lock,kfiber_mutex_try_lock,__kfiber_mutex_lock
//@ob H_lock2 kind=proof unwind=3 hunwind=18 fn=kfiber_mutex_lock2,kfiber_add_ev_waiter
//@ob H_unlock kind=proof unwind=3 hunwind=18 fn=kfiber_mutex_unlock,kfiber_wakeup_waiter,kfiber_wakeup_ts
//@ob H_misc kind=proof unwind=3 hunwind=18 fn=kfiber_mutex_init,kfiber_mutex_init2,kfiber_mutex_set_limit,kfiber_mutex_get_limit,kfiber_mutex_get_worker,kfiber_mutex_get_count,kfiber_mutex_destroy
#define V_FREE_TRACK
#include "fib_common.h"
#define MAXN (1 << 28)
static kfiber_mutex *M; static struct waiter W; static kgl_base_selectable REST; static int len, dw, dc, dl, ns; static bool waking;
static int w0, c0, l0; static kgl_base_selectable *h0, *h1; static bool qself, qev, need_holder, refused_ok, frozen;
static void env_lock(void) {
	if (frozen) return;
	V_CHECK(held == &M->lock, "the mutex's own lock");
	len = V_IN(int, 0, MAXN); M->worker = V_IN(int, 0, MAXN); M->limit = V_IN(int, 1, INT_MAX);
	V_ASSUME(V_IMPLIES(len > 0, M->worker >= 1)); V_ASSUME(V_IMPLIES(need_holder, M->worker >= 1));
	M->count = M->worker + len;
	if (len > 0) { mk_waiter(&W, 3, &OBJ[1]); M->waiter = W.b; W.b->next = len > 1 ? &REST : NULL; } else M->waiter = NULL;
	w0 = M->worker; c0 = M->count; l0 = M->limit; h0 = M->waiter; h1 = h0 ? h0->next : NULL;
}
static void env_unlock(void) {
	if (frozen) return;
	int d;
	if (M->waiter == h0) d = 0;
	else if (h0 && M->waiter == h1) d = -1;
	else { V_CHECK(M->waiter && M->waiter->next == h0, "waiters come and go one at a time"); d = 1; qself = queued_self(M->waiter, h0); qev = queued_ev(M->waiter, h0, &OBJ[2], ev_cb, &OBJ[3]); }
	int nl = len + d;
	V_CHECK(M->worker >= 0 && M->count == M->worker + nl, "the count is the number of holders and waiters");
	V_CHECK(V_IMPLIES(nl > 0, M->worker >= 1), "somebody holds the mutex while others wait");
	V_CHECK(M->limit == l0, "the limit stays");
	V_CHECK(V_IMPLIES(M->worker > w0, M->worker <= l0 && M->worker == w0 + 1), "a new holder is admitted only below the limit");
	dw += M->worker - w0; dc += M->count - c0; dl += d; ns++;
}
static void env_wait(void) { V_CHECK(SELF.wait_code == SELF.base.wait_obj, "it waits for what it will be woken with"); } static void env_wake(void) { }
static void start(bool in_main) {
	fib_base(in_main); M = V_NEWZ(kfiber_mutex); dw = dc = dl = ns = 0; qself = qev = false; need_holder = frozen = false;
}
void H_lock(void) {
	start(false); bool tr = V_BOOL(); int max = V_INT(); if (!tr) max = 0; if (tr) V_ASSUME(max > 0);
	int r = tr ? kfiber_mutex_try_lock(M, max) : kfiber_mutex_lock(M);
	V_REACH("returned");
	V_CHECK(held == NULL && nwake == 0, "the lock is released, nobody is woken");
	if (r == -1) { V_REACH("refused"); V_CHECK(tr && c0 >= max && dw == 0 && dc == 0 && dl == 0 && nwait == 0, "try_lock refuses only when the limit of requests is reached, and changes nothing"); }
	else {
		V_CHECK(r == 0 && V_IMPLIES(tr, c0 < max), "otherwise the lock is obtained");
		if (dw == 1) { V_REACH("granted"); V_CHECK(dc == 1 && dl == 0 && nwait == 0, "granted without waiting below the limit"); }
		else { V_REACH("queued"); V_CHECK(dw == 0 && dl == 1 && dc == 1 && nwait == 1 && w0 >= l0 && qself, "at the limit it queues and suspends once"); }
	}
}
void H_lock2(void) {
	start(true);
	kev_result r = kfiber_mutex_lock2(M, &OBJ[2], ev_cb, &OBJ[3]);
	V_REACH("returned");
	V_CHECK(r == kev_ok && held == NULL && nwait == 0 && dc == 1, "counted, never suspends");
	if (dw == 1) { V_REACH("granted"); V_CHECK(dl == 0 && nwake == 1 && w_who[0] == &OBJ[3] && w_obj[0] == &OBJ[2] && w_got[0] == 0 && w_sel[0] == &SEL && w_cb[0] == (void *)ev_cb, "granted: the callback is called once with 0"); }
	else { V_REACH("queued"); V_CHECK(dw == 0 && dl == 1 && nwake == 0 && w0 >= l0, "at the limit: queued"); V_CHECK(qev, "with its callback, data and argument"); }
}
void H_unlock(void) {
	start(V_BOOL()); if (SEL.current == &MAIN) { SEL.current = &SELF; } need_holder = true;
	int r = kfiber_mutex_unlock(M);
	V_REACH("returned");
	V_CHECK(r == 0 && held == NULL && nwait == 0 && dc == -1, "one request less");
	if (len > 0) { V_REACH("handed over"); V_CHECK(dw == 0 && dl == -1 && nwake == 1 && woke(0, &W, 0), "the mutex goes to exactly one waiter, which is woken once");
		V_CHECK(v_times_freed(W.e) == (W.kind == 2 ? 1 : 0), "a callback waiter is released"); }
	else { V_REACH("freed"); V_CHECK(dw == -1 && dl == 0 && nwake == 0, "nobody waits: one holder less"); }
}
void H_misc(void) {
	start(false); frozen = true; kfiber_mutex *m; int n = V_IN(int, 1, INT_MAX); bool one = V_BOOL();
	m = one ? kfiber_mutex_init() : kfiber_mutex_init2(n); if (one) n = 1;
	V_CHECK(m && ninit == 1 && !m->waiter && !m->count && !m->worker && m->limit == n, "a new mutex is free and has its limit");
	int l = V_INT(); m->worker = V_IN(int, 0, MAXN); m->count = V_IN(int, 0, MAXN); kgl_base_selectable *h = m->waiter = V_BOOL() ? &REST : NULL; int w = m->worker, c = m->count;
	V_CHECK(kfiber_mutex_get_limit(m) == n && kfiber_mutex_get_worker(m) == w && kfiber_mutex_get_count(m) == c, "the getters tell the state");
	kfiber_mutex_set_limit(m, l);
	V_CHECK(m->limit == (l < 1 ? 1 : l) && m->worker == w && m->count == c && m->waiter == h && held == NULL && nlock == 4, "setting the limit changes only the limit, which stays positive");
	m->waiter = NULL; V_REACH("used");
	kfiber_mutex_destroy(m); V_CHECK(ndestroy == 1 && v_times_freed(m) == 1, "destroying releases it once");
}
#include "src/kfiber_sync.c"
