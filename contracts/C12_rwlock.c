/* Fiber reader/writer lock, monitor proof; ghost: numbers of queued readers and writers. */
//@assume xmalloc succeeds; fewer than 2^28 readers; unlock is called by a holder
//@ob H_rlock kind=proof unwind=4 hunwind=18 fn=kfiber_rwlock_rlock
//@ob H_wlock kind=proof unwind=4 hunwind=18 fn=kfiber_rwlock_wlock
//@ob H_runlock kind=proof unwind=4 hunwind=18 fn=kfiber_rwlock_runlock,__kfiber_rwlock_try_wakeup_writer
//@ob S_wunlock split="PH:1,2,3" defs=-DCUT kind=proof unwind=4 hunwind=18 replayable=0 hook=rwlock_readers fallback=H_wunlock fn=kfiber_rwlock_wunlock
//@ob S_wakeall defs=-DCUT kind=proof unwind=4 hunwind=18 replayable=0 hook=wakeup_all fallback=H_wunlock fn=kfiber_wakeup_all_waiter,kfiber_wakeup_waiter
//@ob H_wunlock kind=bounded bound="<=2 waiting readers" unwind=4 hunwind=18 fn=kfiber_rwlock_wunlock,kfiber_wakeup_all_waiter
//@ob H_misc kind=proof unwind=3 hunwind=18 fn=kfiber_rwlock_init,kfiber_rwlock_destroy
#define V_FREE_TRACK
#include "v.h"
struct kgl_base_selectable_s; struct _kfiber_rwlock;
static int hd_readers(struct kgl_base_selectable_s **it, struct _kfiber_rwlock *m), hd_wake(struct kgl_base_selectable_s **w, int got);
#ifdef CUT
#define KGL_LOOP_CONTRACT_rwlock_readers if (hd_readers(&it, mutex)) break; else
#define KGL_LOOP_CONTRACT_wakeup_all if (hd_wake(&waiter, got)) break; else
#endif
#include "fib_common.h"
#define MAXN (1 << 28)
static kfiber_rwlock *M; static struct waiter WR, WR2, WW; static kgl_base_selectable RREST, WREST;
static int nr, nw; static int cnt0, cnt1; static kgl_base_selectable *r0, *w0, *w1; static int dr, dw, ns; static bool qself; static int hold; static bool frozen, exactr;
static void env_lock(void) {
	if (frozen) return;
	V_CHECK(held == &M->lock, "the lock's own mutex"); V_CHECK(ns == 0, "one critical section decides");
	nr = V_IN(int, 0, exactr ? 2 : MAXN); nw = V_IN(int, 0, MAXN); M->cnt = V_IN(int, -1, MAXN);
	V_ASSUME(V_IMPLIES(nw > 0, M->cnt != 0)); V_ASSUME(V_IMPLIES(nr > 0, M->cnt < 0 || nw > 0));
	if (hold > 0) V_ASSUME(M->cnt > 0);
	if (hold < 0) V_ASSUME(M->cnt == -1);
	M->reader = M->writer = NULL;
	if (nr > 0) { mk_waiter(&WR, 2, &OBJ[1]); M->reader = WR.b; if (nr > 1) { if (exactr) { mk_waiter(&WR2, 2, &OBJ[3]); WR.b->next = WR2.b; } else WR.b->next = &RREST; } }
	if (nw > 0) { mk_waiter(&WW, 2, &OBJ[2]); M->writer = WW.b; WW.b->next = nw > 1 ? &WREST : NULL; }
	cnt0 = M->cnt; r0 = M->reader; w0 = M->writer; w1 = w0 ? w0->next : NULL;
}
static bool allr;
static void env_unlock(void) {
	if (frozen) return;
	if (M->reader == r0) dr = 0; else if (M->reader == NULL) dr = -nr; else { V_CHECK(M->reader->next == r0, "readers queue one at a time, leave together"); dr = 1; qself = queued_self(M->reader, r0); }
	if (M->writer == w0) dw = 0; else if (w0 && M->writer == w1) dw = -1; else { V_CHECK(M->writer && M->writer->next == w0, "writers come and go one at a time"); dw = 1; qself = queued_self(M->writer, w0); }
	int r = nr + dr, w = nw + dw; cnt1 = M->cnt; ns++;
	V_CHECK(M->cnt >= -1, "one writer or some readers hold it");
	V_CHECK(V_IMPLIES(w > 0, M->cnt != 0), "a writer waits only while somebody holds the lock");
	V_CHECK(V_IMPLIES(r > 0, M->cnt < 0 || w > 0), "a reader waits only for a writer");
}
static void env_wait(void) { V_CHECK(SELF.wait_code == SELF.base.wait_obj, "it waits for what it will be woken with"); }
static int phase, heads; static struct waiter A; static kgl_base_selectable NXT; static bool last; static int got0, seen0;
static void env_wake(void) { /* a woken fiber may run and wait again elsewhere: its link is no longer ours */ if (phase == 2) { A.b->next = V_BOOL() ? &RREST : NULL; } }
static void start(void) { fib_base(false); M = V_NEWZ(kfiber_rwlock); ns = dr = dw = hold = phase = heads = 0; qself = frozen = exactr = false; }
void H_rlock(void) {
	start(); int r = kfiber_rwlock_rlock(M); V_REACH("returned");
	V_CHECK(held == NULL && nwake == 0 && ns == 1, "the mutex is released, nobody is woken");
	if (nwait) { V_REACH("queued"); V_CHECK(dr == 1 && dw == 0 && cnt1 == cnt0 && qself && (cnt0 < 0 || nw > 0) && nwait == 1 && r == wait_ret, "a reader waits exactly while a writer holds the lock or waits for it"); }
	else { V_REACH("granted"); V_CHECK(dr == 0 && dw == 0 && cnt0 >= 0 && nw == 0 && cnt1 == cnt0 + 1 && r == 0, "otherwise it becomes one more reader"); }
}
void H_wlock(void) {
	start(); int r = kfiber_rwlock_wlock(M); V_REACH("returned");
	V_CHECK(held == NULL && nwake == 0 && ns == 1, "the mutex is released, nobody is woken");
	if (nwait) { V_REACH("queued"); V_CHECK(dw == 1 && dr == 0 && cnt1 == cnt0 && qself && cnt0 != 0 && nwait == 1 && r == wait_ret, "a writer waits exactly while anybody holds the lock"); }
	else { V_REACH("granted"); V_CHECK(dr == 0 && dw == 0 && cnt0 == 0 && cnt1 == -1 && r == 0, "otherwise it becomes the only holder"); }
}
void H_runlock(void) {
	start(); hold = 1; int r = kfiber_rwlock_runlock(M); V_REACH("returned");
	V_CHECK(r == 0 && held == NULL && ns == 1 && nwait == 0 && dr == 0, "releasing never waits");
	if (cnt0 == 1 && nw > 0) { V_REACH("handed over"); V_CHECK(dw == -1 && cnt1 == -1 && nwake == 1 && woke(0, &WW, 0), "the last reader hands the lock to one waiting writer, woken once"); }
	else { V_REACH("freed"); V_CHECK(dw == 0 && cnt1 == cnt0 - 1 && nwake == 0, "otherwise there is one reader less"); }
}
void H_wunlock(void) {
	start(); hold = -1; exactr = true; int r = kfiber_rwlock_wunlock(M); V_REACH("returned");
	V_CHECK(r == 0 && held == NULL && ns == 1 && nwait == 0, "releasing never waits");
	if (nr > 0) { V_REACH("to readers"); V_CHECK(dr == -nr && dw == 0 && cnt1 == nr && nwake == nr, "all waiting readers become holders and are woken once each");
		V_CHECK(woke(0, &WR, 0), "first"); if (nr > 1) V_CHECK(woke(1, &WR2, 0), "second"); }
	else if (nw > 0) { V_REACH("to a writer"); V_CHECK(dw == -1 && dr == 0 && cnt1 == -1 && nwake == 1 && woke(0, &WW, 0), "without readers one waiting writer becomes the holder"); }
	else { V_REACH("freed"); V_CHECK(cnt1 == 0 && nwake == 0 && dr == 0 && dw == 0, "nobody waits: free"); }
}
#ifndef PH
#define PH 0
#endif
/* counting loop: ghost k = waiters passed so far */
static int k;
static int hd_readers(kgl_base_selectable **it, kfiber_rwlock *m) {
#if PH == 1
	V_CHECK(*it == r0 && m->cnt == 0 && held == &M->lock && m->reader == NULL, "counting starts at the first waiting reader");
	m->cnt = nr; return 1;
#elif PH == 2
	if (heads++ == 0) { V_ASSUME(*it == r0); m->cnt = k = V_IN(int, 0, MAXN); A.b = &A.f.base; *it = A.b; last = V_BOOL(); A.b->next = last ? NULL : &NXT; return 0; }
	V_REACH("one step"); V_CHECK(!last && *it == &NXT && m->cnt == k + 1, "each waiting reader is counted once"); V_ASSUME(0); return 1;
#else
	/* all counted */
	m->cnt = nr; return 1;
#endif
}
static kgl_base_selectable *wk; static int wks;
static int hd_wake(kgl_base_selectable **w, int got) {
#if PH == 0
	if (heads++ == 0) {
		phase = 2; mk_waiter(&A, 3, &OBJ[1]); V_CHECK(*w == &RREST && got == got0, "waking starts at the first waiter"); *w = A.b; last = V_BOOL(); A.b->next = last ? NULL : &NXT; return 0;
	}
	V_REACH("one step"); V_CHECK(!last && *w == &NXT && nwake == 1 && woke(0, &A, got0), "each waiter is woken once with the given result, then its successor follows even if the woken one already runs"); V_ASSUME(0); return 1;
#else
	wks++; wk = *w; V_CHECK(got == 0 && held == NULL && ns == 1, "readers are woken after the state is settled and the mutex released"); return 1;
#endif
}
void S_wunlock(void) {
	start(); hold = -1; wks = 0; int r = kfiber_rwlock_wunlock(M);
#if PH == 1
	V_REACH("returned");
#elif PH == 2
	V_REACH("the last reader is counted");
	if (nr > 0) V_CHECK(heads == 1 && last && cnt1 == k + 1, "counting ends after the last one");
#else
	V_REACH("returned");
	V_CHECK(r == 0 && held == NULL && ns == 1 && nwait == 0, "releasing never waits");
	if (nr > 0) { V_REACH("to readers"); V_CHECK(dr == -nr && dw == 0 && cnt1 == nr && wks == 1 && wk == r0 && nwake == 0, "all waiting readers become holders and are woken"); }
	else if (nw > 0) { V_REACH("to a writer"); V_CHECK(dw == -1 && dr == 0 && cnt1 == -1 && wks == 0 && nwake == 1 && woke(0, &WW, 0), "without readers one waiting writer becomes the holder"); }
	else { V_REACH("freed"); V_CHECK(cnt1 == 0 && nwake == 0 && wks == 0 && dr == 0 && dw == 0, "nobody waits: free"); }
#endif
}
void S_wakeall(void) {
	start(); got0 = V_INT(); bool none = V_BOOL();
	kfiber_wakeup_all_waiter(none ? NULL : &RREST, got0);
	V_REACH("done");
	if (none) V_CHECK(nwake == 0, "nobody to wake"); else V_CHECK(last && nwake == 1 && woke(0, &A, got0), "waking ends after the last waiter");
}
void H_misc(void) {
	start(); frozen = true; kfiber_rwlock *m = kfiber_rwlock_init();
	V_CHECK(m && !m->cnt && !m->reader && !m->writer && ninit == 1, "a new lock is free"); V_REACH("used");
	kfiber_rwlock_destroy(m); V_CHECK(ndestroy == 1 && v_times_freed(m) == 1, "destroying releases it once");
}
#include "src/kfiber_sync.c"
