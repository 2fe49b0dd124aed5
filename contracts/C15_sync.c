/* Thread events and spin read/write locks.  Monitor proof for the event; for the spin locks every atomic step sees an arbitrary
 * state (other threads run in between) and must be a legal transition. */
//@assume pthread mutexes and conditions meet their specification; a spurious or stolen wakeup may happen at any time; atomic builtins are atomic
//@assume fewer than 2^28 readers; unlock is called by a holder
//@ob S_wait defs=-DCUT kind=proof unwind=3 hunwind=18 replayable=0 hook=kcond_wait fallback=H_wait fn=kcond_wait
//@ob H_wait kind=bounded bound="<=2 wakeups without event" unwind=4 hunwind=18 fn=kcond_wait
//@ob H_notice kind=proof unwind=3 hunwind=18 fn=kcond_notice,kcond_reset,kcond_try_wait,kcond_init,kcond_destroy
//@ob H_fsync kind=proof unwind=3 hunwind=18 fn=kfiber_cond_notice_sync,kfiber_cond_wait_sync,kfiber_cond_try_wait_sync,kfiber_cond_init_sync,kfiber_cond_destroy_sync
//@ob S_rlock defs="-DCUT -DCAS" kind=proof unwind=3 hunwind=18 replayable=0 hook=krw_rlock fallback=H_rlock fn=krw_mutex_rlock
//@ob S_wlock defs="-DCUT -DCAS" kind=proof unwind=3 hunwind=18 replayable=0 hook=krw_wlock fallback=H_wlock fn=krw_mutex_wlock
//@ob S_kwr split="WR:0,1" defs="-DCUT -DCAS -DKWR" kind=proof unwind=3 hunwind=18 replayable=0 hook=kwr_wlock calls=krw_mutex_rlock:c_rlock,krw_mutex_wlock:c_wlock fallback=H_kwr fn=kwr_mutex_rlock,kwr_mutex_wlock
//@ob H_rlock kind=bounded defs=-DCAS bound="<=3 rounds" unwind=5 hunwind=18 fn=krw_mutex_rlock
//@ob H_wlock kind=bounded defs=-DCAS bound="<=3 rounds" unwind=5 hunwind=18 fn=krw_mutex_wlock
//@ob H_kwr kind=bounded defs=-DCAS bound="<=3 rounds" unwind=5 hunwind=18 fn=kwr_mutex_rlock,kwr_mutex_wlock
//@ob H_unlock kind=proof unwind=3 hunwind=18 fn=krw_mutex_runlock,krw_mutex_wunlock,krw_mutex_init,kwr_mutex_init,kwr_mutex_runlock,kwr_mutex_wunlock
#include "v.h"
#include <pthread.h>
static pthread_mutex_t *held; static int nlock, nsig, nbc, ncw, ninit, ndestroy, ncinit, ncdestroy;
static void env_lock(void), env_unlock(void), env_sleep(void);
static int v_lock(pthread_mutex_t *m) { V_CHECK(held == NULL, "a lock is never taken while one is held"); held = m; nlock++; env_lock(); return 0; }
static int v_unlock(pthread_mutex_t *m) { V_CHECK(held == m, "only the lock held is released"); env_unlock(); held = NULL; return 0; }
static int v_mutex_init(pthread_mutex_t *m, const void *a) { ninit++; return 0; }
static int v_mutex_destroy(pthread_mutex_t *m) { V_CHECK(held == NULL, "a lock is destroyed free"); ndestroy++; return 0; }
static int v_cwait(pthread_cond_t *c, pthread_mutex_t *m) { V_CHECK(held == m, "sleeping gives up the lock held"); env_unlock(); ncw++; env_sleep(); env_lock(); return 0; }
static int v_csignal(pthread_cond_t *c) { V_CHECK(held != NULL, "signalled under the lock"); nsig++; return 0; }
static int v_cbroadcast(pthread_cond_t *c) { V_CHECK(held != NULL, "signalled under the lock"); nbc++; return 0; }
static int v_cinit(pthread_cond_t *c, const void *a) { ncinit++; return 0; }
static int v_cdestroy(pthread_cond_t *c) { ncdestroy++; return 0; }
#define pthread_mutex_lock v_lock
#define pthread_mutex_unlock v_unlock
#define pthread_mutex_init v_mutex_init
#define pthread_mutex_destroy v_mutex_destroy
#define pthread_cond_wait v_cwait
#define pthread_cond_signal v_csignal
#define pthread_cond_broadcast v_cbroadcast
#define pthread_cond_init v_cinit
#define pthread_cond_destroy v_cdestroy
static void *v_tls_get(pthread_key_t k) { return NULL; }
#define pthread_getspecific v_tls_get
#include "katom.h"
#include "kmalloc.h"
#undef xfree
#define xfree v_free
#ifndef WR
#define WR 0
#endif
static bool v_cas(volatile int32_t *p, int32_t o, int32_t n); static void v_pause(void);
#ifdef CAS
#define katom_cas(p, o, n) v_cas((volatile int32_t *)(p), o, n)
#endif
static int hd(int which);
#ifdef CUT
#define KGL_LOOP_CONTRACT_kcond_wait if (hd(1)) break; else
#define KGL_LOOP_CONTRACT_krw_rlock if (hd(2)) break; else
#define KGL_LOOP_CONTRACT_krw_wlock if (hd(3)) break; else
#define KGL_LOOP_CONTRACT_kwr_rlock if (hd(4)) break; else
#define KGL_LOOP_CONTRACT_kwr_wlock if (hd(5)) break; else
#endif
#include "ksync.h"
#include "kselector.h"
#include "kselectable.h"
#include "kfiber.h"
#include "kfiber_sync.h"
#include "v_memset.h"
pthread_key_t kgl_selector_key; kselector_module kgl_selector_module;
kev_result kfiber_result_callback(KOPAQUE d, void *a, int got) { return kev_ok; }
void __kfiber_switch(kfiber *from, kfiber *to) { V_CHECK(0, "no fiber here"); }
static kcond *C; static bool frozen; static bool ev0, evu; static int sleeps, maxsleep; static bool first;
static void env_lock(void) { if (frozen) return; C->ev = V_BOOL(); ev0 = C->ev; }
static void env_unlock(void) { if (frozen) return; evu = C->ev; V_CHECK(V_IMPLIES(evu && !ev0, nsig + nbc > 0), "whoever waits for an event that gets set is told"); }
static void env_sleep(void) { V_CHECK(!evu && !ev0, "it sleeps only while the event is not set"); if (maxsleep) { V_ASSUME(sleeps < maxsleep); sleeps++; } }
static void base(void) { held = NULL; nlock = nsig = nbc = ncw = ninit = ndestroy = ncinit = ncdestroy = sleeps = maxsleep = 0; frozen = false; v_nfreed = 0; C = V_NEWZ(kcond); C->auto_reset = V_BOOL(); }
static int heads; static int mode;
static kwr_mutex K; static krw_mutex *RW; static int ncas, pauses; static int32_t casold, casnew; static bool casok;
#define MAXN (1 << 28)
static void rw_any(krw_mutex *m) { *m = V_IN(int32_t, -1, MAXN); }
static int32_t seen;
static int hd(int which) {
	V_CHECK(which == mode, "the expected loop");
	if (heads++ == 0) {
		if (mode == 1) { V_CHECK(!C->ev && held == &C->mutex, "waits only while not set, under the lock"); }
		else { rw_any(&K.rw); K.try_write = V_IN(int32_t, 0, 1); seen = *RW; if (mode == 4) V_ASSUME(K.try_write == 1); }
		return 0;
	}
	V_REACH("another round");
	if (mode == 1) V_CHECK(ncw == 1 && !C->ev && held == &C->mutex, "sleeps again only if the event is still not set");
	else V_CHECK(ncas == 0 || !casok, "tries again only if it did not get the lock");
	V_ASSUME(0); return 1;
}
static int rounds;
static bool v_cas(volatile int32_t *p, int32_t o, int32_t n) {
	/* other threads may have run */
	if (p == &K.rw) rw_any(&K.rw); else K.try_write = V_IN(int32_t, 0, 1);
	ncas++; casold = o; casnew = n; casok = *p == o;
	if (rounds && !casok) { V_ASSUME(--rounds > 0); *p = 0; return false; }
	V_CHECK(p == RW || RW == NULL, "the right word");
	if (casok) { V_CHECK(p == &K.rw ? (mode == 2 ? o >= 0 && n == o + 1 : o == 0 && n == -1) : o == 0 && n == 1, "a reader is admitted only without a writer, a writer only when nobody holds the lock"); *p = n; }
	return casok;
}
static void wait_post(void) {
	V_CHECK(held == NULL && ev0, "a wait ends only when the event is set, and gives the lock back");
	V_CHECK(evu == !C->auto_reset, "it consumes an auto-reset event and leaves a manual-reset one set");
}
void S_wait(void) { base(); mode = 1; heads = 0; kcond_wait(C); V_REACH("woken"); wait_post(); }
void H_wait(void) { base(); maxsleep = 2; kcond_wait(C); V_REACH("woken"); wait_post(); }
void H_notice(void) {
	base(); bool ar = C->auto_reset; kcond_notice(C); V_REACH("set");
	V_CHECK(held == NULL && nlock == 1 && evu && (ar ? nsig + nbc >= 1 : nbc == 1), "setting tells one waiter of an auto-reset event, all of a manual-reset one");
	nsig = nbc = 0; bool r = kcond_try_wait(C, V_INT());
	V_CHECK(r == ev0 && evu == (ev0 && !ar) && held == NULL && nlock == 2, "trying succeeds exactly when set and consumes an auto-reset event");
	kcond_reset(C); V_CHECK(!evu && held == NULL, "resetting clears it");
	frozen = true; kcond *c = kcond_init(ar); V_CHECK(c && !c->ev && c->auto_reset == ar && ninit == 1 && ncinit == 1, "a new event is not set"); 
	kcond_destroy(c); V_CHECK(ndestroy == 1 && ncdestroy == 1 && v_times_freed(c) == 1, "destroying releases it once");
}
void S_rlock(void) { base(); mode = 2; heads = ncas = 0; rounds = 0; RW = &K.rw; krw_mutex_rlock(RW); V_REACH("locked"); V_CHECK(ncas == 1 && casok && casold >= 0 && casnew == casold + 1, "one more reader, never beside a writer"); }
void S_wlock(void) { base(); mode = 3; heads = ncas = 0; rounds = 0; RW = &K.rw; krw_mutex_wlock(RW); V_REACH("locked"); V_CHECK(ncas == 1 && casok && casold == 0 && casnew == -1, "the only holder"); }
/* inner lock by its contract: remember what held when it was asked for */
static int inner_r, inner_w; static bool tw_at;
void c_rlock(krw_mutex *m) { V_CHECK(m == &K.rw, "the lock itself"); inner_r++; tw_at = K.try_write > 0; rw_any(m); V_ASSUME(*m >= 0); (*m)++; }
void c_wlock(krw_mutex *m) { V_CHECK(m == &K.rw, "the lock itself"); inner_w++; V_CHECK(K.try_write == 1 && casok, "a writer announces itself before it asks for the lock"); *m = -1; }
void S_kwr(void) {
	base(); heads = ncas = inner_r = inner_w = 0; rounds = 0; casok = false; K.rw = V_IN(int32_t, -1, MAXN); K.try_write = V_IN(int32_t, 0, 1); bool high = V_BOOL(); bool tw = K.try_write;
#if WR
	mode = 5; RW = &K.try_write; kwr_mutex_wlock(&K); V_REACH("locked");
	V_CHECK(inner_w == 1 && inner_r == 0 && ncas == 1 && casok && K.rw == -1 && K.try_write == 1, "one writer at a time announces itself and becomes the only holder");
#else
	mode = 4; RW = &K.rw; kwr_mutex_rlock(&K, high);
	V_REACH("locked"); V_CHECK(inner_r == 1 && inner_w == 0 && K.rw > 0 && ncas == 0, "one more reader");
	if (!tw || high) V_CHECK(heads == 0 && K.try_write == tw, "only an announced writer makes it wait");
#endif
}
void H_rlock(void) { base(); mode = 2; ncas = 0; rounds = 3; RW = &K.rw; *RW = V_IN(int32_t, 0, MAXN); krw_mutex_rlock(RW); V_REACH("locked"); V_CHECK(casok && casold >= 0 && casnew == casold + 1, "one more reader, never beside a writer"); }
void H_wlock(void) { base(); mode = 3; ncas = 0; rounds = 3; RW = &K.rw; *RW = 0; krw_mutex_wlock(RW); V_REACH("locked"); V_CHECK(casok && casold == 0 && casnew == -1, "the only holder"); }
void H_kwr(void) {
	base(); ncas = 0; rounds = 3; K.rw = 0; K.try_write = 0; mode = 5; bool w = V_BOOL();
	RW = NULL; if (w) { kwr_mutex_wlock(&K); V_CHECK(K.rw == -1 && K.try_write == 1, "the only holder, announced"); } else { mode = 2; RW = &K.rw; kwr_mutex_rlock(&K, V_BOOL()); V_CHECK(K.rw > 0, "one more reader"); }
	V_REACH("locked");
}
void H_unlock(void) {
	base(); krw_mutex m; krw_mutex_init(&m); V_CHECK(m == 0, "a new lock is free"); m = V_IN(int32_t, 1, MAXN); int n = m; krw_mutex_runlock(&m); V_CHECK(m == n - 1, "one reader less"); m = -1; krw_mutex_wunlock(&m); V_CHECK(m == 0, "free"); V_REACH("unlocked");
	kwr_mutex_init(&K); V_CHECK(K.rw == 0 && K.try_write == 0, "a new lock is free"); K.rw = n; K.try_write = V_BOOL(); int t = K.try_write; kwr_mutex_runlock(&K); V_CHECK(K.rw == n - 1 && K.try_write == t, "one reader less"); K.rw = -1; K.try_write = 1; kwr_mutex_wunlock(&K); V_CHECK(K.rw == 0 && K.try_write == 0, "free, other writers may try");
}
void H_fsync(void) {
	base(); frozen = true; bool ar = V_BOOL(); kfiber_cond *c = kfiber_cond_init_sync(ar); kfiber_cond_sync *s = (kfiber_cond_sync *)c;
	V_CHECK(c && s->sync_cond && s->sync_cond->auto_reset == ar && !s->sync_cond->ev, "a new event is not set"); int got = 77, g = V_INT(); bool want = V_BOOL();
	V_CHECK(c->f->try_wait(c, want ? &got : NULL) == -1 && got == 77, "nothing to get yet");
	V_CHECK(c->f->notice(c, g) == 0 && s->sync_cond->ev && nsig + nbc == 1, "signalled once"); V_REACH("set");
	bool tr = V_BOOL(); int r = tr ? c->f->try_wait(c, want ? &got : NULL) : c->f->wait(c, want ? &got : NULL);
	V_CHECK(r == 0 && got == (want ? g : 77) && ncw == 0 && held == NULL, "a waiting thread gets the value");
	r = c->f->try_wait(c, NULL); V_CHECK(r == (ar ? -1 : 0), "an auto-reset event is consumed");
	void *k = s->sync_cond; c->f->release(c); V_CHECK(v_times_freed(c) == 1 && v_times_freed(k) == 1 && ndestroy == 1, "releasing frees both once");
}
#include "src/kfiber_sync.c"
