/* Worker pool: jobs queued for worker threads.  Monitor proof over worker->lock; the queue beyond its first and last job is arbitrary. */
//@assume pthread mutexes meet their specification; fewer than 2^28 jobs, workers and references; xmalloc succeeds
//@ob H_try split="HIGH:0,1" defs=-DTRY kind=proof unwind=3 hunwind=18 calls=kcond_init:c_cinit,kcond_wait:c_cwait,kcond_destroy:c_cdestroy,kcond_notice:c_cnotice fn=kasync_worker_try_start,kasync_worker_add
//@ob H_start kind=proof unwind=3 hunwind=18 calls=kcond_init:c_cinit,kcond_wait:c_cwait,kcond_destroy:c_cdestroy,kcond_notice:c_cnotice fn=kasync_worker_start,kasync_worker_add
//@ob S_thread defs=-DCUT kind=proof unwind=3 hunwind=18 replayable=0 hook=worker_thread calls=kcond_init:c_cinit,kcond_wait:c_cwait,kcond_destroy:c_cdestroy,kcond_notice:c_cnotice fallback=H_thread fn=kasync_worker_worker_thread
//@ob H_thread kind=bounded bound="<=2 jobs" unwind=4 hunwind=18 tier=thorough calls=kcond_init:c_cinit,kcond_wait:c_cwait,kcond_destroy:c_cdestroy,kcond_notice:c_cnotice fn=kasync_worker_worker_thread
//@ob H_misc kind=proof unwind=3 hunwind=18 calls=kcond_init:c_cinit,kcond_wait:c_cwait,kcond_destroy:c_cdestroy,kcond_notice:c_cnotice fn=kasync_worker_init,kasync_worker_release,kasync_worker_refs,kasync_worker_empty,kasync_worker_will_wait
//@ob H_tstart kind=proof unwind=3 hunwind=18 calls=kcond_init:c_cinit,kcond_wait:c_cwait,kcond_destroy:c_cdestroy,kcond_notice:c_cnotice fn=kasync_worker_thread_start,thread_start_worker_thread
#ifndef HIGH
#define HIGH 0
#endif
static int hd_thread(void);
#ifdef CUT
#define KGL_LOOP_CONTRACT_worker_thread if (hd_thread()) break; else
#endif
#include "v.h"
#include <pthread.h>
static pthread_mutex_t *held; static int nlock, ninit, ndestroy; static void env_lock(void), env_unlock(void);
static int v_lock(pthread_mutex_t *m) { V_CHECK(held == NULL, "a lock is never taken while one is held"); held = m; nlock++; env_lock(); return 0; }
static int v_unlock(pthread_mutex_t *m) { V_CHECK(held == m, "only the lock held is released"); env_unlock(); held = NULL; return 0; }
static int v_mutex_init(pthread_mutex_t *m, const void *a) { ninit++; return 0; }
static int v_mutex_destroy(pthread_mutex_t *m) { ndestroy++; return 0; }
#define pthread_mutex_lock v_lock
#define pthread_mutex_unlock v_unlock
#define pthread_mutex_init v_mutex_init
#define pthread_mutex_destroy v_mutex_destroy
#include "kasync_worker.h"
#include "kthread.h"
#include "kmalloc.h"
#undef xfree
#define xfree v_free
#include "v_memset.h"
#include "src/kasync_worker.c"
#define BIG (1 << 28)
static kasync_worker *P; static kasync_worker_param R1, RL, *h0, *l0; static int n0, q0, w0, refs0; static char data_[4]; static kcond CV, CV1;
static int nstart, nstarted; static bool startok; static int st; static void *(*tf)(void *), *ta;
static kev_result job(void *d, int msec);
bool kthread_pool_start(KTHREAD_FUNCTION (*f)(void *), void *a) { nstart++; if (st == 4) { startok = V_BOOL(); tf = f; ta = a; return startok; } V_CHECK(f == kasync_worker_worker_thread && a == P, "a worker thread of this pool is started"); V_CHECK(P->refs > refs0 - 1 && (int)P->refs == refs0 + 1, "which holds its own reference"); startok = V_BOOL(); return startok; }
static int ncinit, ncwait, ncdestroy, ncnotice; static kcond *cn; static bool cauto;
kcond *c_cinit(bool a) { ncinit++; cauto = a; return &CV; }
void c_cwait(kcond *c) { ncwait++; V_CHECK(held == NULL && c == &CV && nlock == 1, "it waits after queueing, without a lock"); }
void c_cdestroy(kcond *c) { ncdestroy++; V_CHECK(c == &CV && ncwait == 1, "the event is destroyed after the wait"); }
void c_cnotice(kcond *c) { ncnotice++; cn = c; V_CHECK(held == NULL, "no lock held"); }
/* any queue: nothing, one job, or first and last with anything in between */
static void any_queue(void) {
	kasync_worker_param z = {0}; R1 = RL = z; n0 = V_IN(int, 0, 2); R1.cb = job; R1.data = &data_[1]; R1.wait = V_BOOL() ? &CV1 : NULL;
	P->head = n0 ? &R1 : NULL; P->last = n0 == 0 ? NULL : n0 == 1 ? &R1 : &RL; R1.next = n0 == 2 ? &RL : NULL; /* what lies between is not touched */
	P->queue = n0 < 2 ? n0 : V_IN(int, 2, BIG); P->worker = V_IN(int, 0, BIG); h0 = P->head; l0 = P->last; q0 = P->queue; w0 = P->worker;
}
static kasync_worker_param *fresh; static bool added;
static void any_jobs(void), more_jobs(void); static bool looked(void);
static void env_lock(void) { if (st == 2) any_queue(); if (st == 1) any_jobs(); if (st == 3) more_jobs(); }
static void base(int s) {
	P = V_NEWZ(kasync_worker); st = s; held = NULL; nlock = nstart = ncinit = ncwait = ncdestroy = ncnotice = ninit = ndestroy = 0; v_nfreed = 0; P->refs = refs0 = V_IN(int, 1, BIG); P->max_worker = V_IN(int, 1, BIG); P->max_queue = V_IN(int, 0, BIG); fresh = NULL; added = false; kasync_worker_param z = {0}; R1 = RL = z;
}
static void start_thread_check(void) {
	V_CHECK(nstart == (w0 < P->max_worker ? 1 : 0), "a further worker thread is started exactly while fewer than allowed run");
	V_CHECK(P->worker == w0 + (nstart && startok ? 1 : 0) && (int)P->refs == refs0 + (nstart && startok ? 1 : 0), "workers and references count the threads that run");
}
static bool full_, high_; static void *J;
static void env_unlock(void) {
	if (st == 2) { /* submitting */
		if (P->queue == q0) { V_CHECK(P->head == h0 && P->last == l0 && P->worker == w0 && nstart == 0, "a refused job leaves everything as it was"); return; }
		added = true; kasync_worker_param *j = n0 == 0 || high_ ? P->head : P->last;
		V_CHECK(P->queue == q0 + 1 && j != &R1 && j != &RL && j && j->cb == job && j->data == &data_[0], "the job is queued with its own function and data"); 
		if (n0 == 0) V_CHECK(P->head == j && P->last == j && j->next == NULL, "as the only one");
		else if (high_) V_CHECK(j->next == &R1 && P->last == l0 && l0->next == NULL, "an urgent one in front");
		else V_CHECK(P->head == h0 && l0->next == j && j->next == NULL && V_IMPLIES(n0 == 2, R1.next == &RL), "a normal one at the end");
		V_CHECK(j->wait == (ncinit ? &CV : NULL), "with the event its submitter waits for"); start_thread_check(); fresh = j; (free)(j); /* from here on it may be executed and gone */
	}
	if (st == 1) looked();
}
#ifdef TRY
void H_try(void) {
	base(2); high_ = HIGH; bool r = kasync_worker_try_start(P, &data_[0], job, HIGH); V_REACH("returned");
	V_CHECK(r == added && nlock == 1 && held == NULL && ncinit == 0, "success means queued"); V_CHECK(r == !(P->max_queue > 0 && q0 > P->max_queue), "refused exactly when the queue is over its limit");
}
#endif
void H_start(void) {
	base(2); high_ = false; kasync_worker_start(P, &data_[0], job); V_REACH("returned"); V_CHECK(added && nlock == 1 && held == NULL, "the job is queued");
	bool over = P->max_queue > 0 && q0 > P->max_queue; V_CHECK(ncinit == over && ncwait == over && ncdestroy == over && V_IMPLIES(over, cauto), "the submitter waits exactly when the queue is over its limit");
}
/* one round of a worker thread */
static int heads, njob; static kasync_worker_param *R; static kcond *w_; static int nq;
static void any_jobs(void) { /* the queue a worker finds: its first job is an allocation of its own */
	nq = n0 = V_IN(int, 0, 2); R = NULL; if (n0) { R = V_NEWZ(kasync_worker_param); R->cb = job; R->data = &data_[1]; w_ = R->wait = V_BOOL() ? &CV1 : NULL; R->next = n0 == 2 ? &RL : NULL; }
	P->head = R; P->last = n0 == 2 ? &RL : R; P->queue = n0 < 2 ? n0 : V_IN(int, 2, BIG); P->worker = V_IN(int, 1, BIG); q0 = P->queue; w0 = P->worker;
}
static kev_result job(void *d, int msec) { njob++; V_CHECK(held == NULL && d == &data_[1] && msec >= 0 && msec <= 10000, "a job runs with its data, without a lock"); V_CHECK(ncnotice == (w_ ? 1 : 0) && V_IMPLIES(w_, cn == &CV1), "its submitter has been let go"); return kev_ok; }
static void round_done(void) { V_CHECK(nq > 0 && njob == 1 && v_times_freed(R) == 1 && v_nfreed == 1, "a job taken is run once and released once"); }
static bool looked(void) {
	if (nq == 0) { V_CHECK(P->worker == w0 - 1 && P->queue == q0 && P->head == NULL && P->last == NULL, "with nothing queued the worker is uncounted in the same step"); return true; }
	V_CHECK(P->worker == w0 && P->queue == q0 - 1 && P->head == (nq == 2 ? &RL : NULL) && P->last == (nq == 2 ? &RL : NULL), "exactly the first job is taken"); return false;
}
static void more_jobs(void);
static int hd_thread(void) { if (++heads == 1) return 0; V_REACH("next job"); round_done(); V_CHECK((int)P->refs == refs0 && nlock == 1 && held == NULL, "then it looks for the next"); V_ASSUME(0); return 1; }
#ifdef CUT
void S_thread(void) {
	base(1); heads = njob = 0; kasync_worker_worker_thread(P); V_REACH("ends");
	V_CHECK(heads == 1 && nq == 0 && njob == 0 && nlock == 1 && held == NULL, "a worker ends when there is nothing to do");
	V_CHECK(refs0 > 1 ? (int)P->refs == refs0 - 1 && v_nfreed == 0 : v_times_freed(P) == 1 && ndestroy == 1, "and gives up its reference, the last one releases the pool");
}
#else
static int left;
static void more_jobs(void) { v_nfreed = 0; ncnotice = 0; if (left) { left--; any_jobs(); V_ASSUME(n0 == 1); } else { P->head = P->last = NULL; P->queue = 0; nq = 0; P->worker = 1; } }
void H_thread(void) { base(3); V_ASSUME(refs0 > 1); heads = njob = 0; left = V_IN(int, 0, 2); int n = left; kasync_worker_worker_thread(P); V_REACH("ends"); V_CHECK(njob == n && left == 0 && P->worker == 0, "every queued job is run once"); }
#endif
#ifdef CUT
static void more_jobs(void) {}
#endif
void H_misc(void) {
	base(0); int mw = V_IN(int, 1, 100), mq = V_IN(int, 0, 100); kasync_worker *w = kasync_worker_init(mw, mq);
	V_CHECK(w && w->max_worker == mw && w->max_queue == mq && w->refs == 1 && w->worker == 0 && w->queue == 0 && w->head == NULL && w->last == NULL && ninit == 1, "a fresh pool is empty"); V_CHECK(kasync_worker_empty(w) && !kasync_worker_will_wait(w), "and says so");
	kasync_worker_refs(w); V_CHECK(w->refs == 2, "one more reference"); kasync_worker_release(w); V_CHECK(w->refs == 1 && v_nfreed == 0, "one less"); w->worker = mw; V_CHECK(kasync_worker_will_wait(w), "all workers busy"); w->head = &R1; V_CHECK(!kasync_worker_empty(w), "not empty");
	kasync_worker_release(w); V_REACH("released"); V_CHECK(v_times_freed(w) == 1 && v_nfreed == 1 && ndestroy == 1 && held == NULL, "the last reference releases it once");
}
static int ntjob; static kev_result tjob(void *d, int msec) { ntjob++; V_CHECK(d == &data_[2] && msec == 0 && v_nfreed == 0, "the function runs with its parameter"); return kev_ok; }
void H_tstart(void) {
	base(4); ntjob = 0; bool r = kasync_worker_thread_start(&data_[2], tjob); V_CHECK(r == startok && nstart == 1 && ntjob == 0 && v_nfreed == (r ? 0 : 1), "one thread is asked for; a refusal leaves nothing behind");
	if (r) { V_CHECK(tf == thread_start_worker_thread, "by way of the start function"); thread_start_worker_thread(ta); V_REACH("ran"); V_CHECK(ntjob == 1 && v_nfreed == 1 && v_times_freed(ta) == 1, "which runs it once"); }
}
