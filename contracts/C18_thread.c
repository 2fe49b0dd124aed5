/* Threads of the worker pool: reused threads, new threads, expiry.  Monitor proof over thread_lock; the list of free threads is
 * arbitrary beyond its first two and last two threads. */
//@assume pthread mutexes, pthread_create, pthread_kill and sigwait meet their specification; fewer than 2^28 threads; a woken thread finds the command its waker stored under the lock
//@ob H_start kind=proof unwind=3 hunwind=18 fn=kthread_pool_start,kthread_start,kthread_notice
//@ob S_run defs=-DCUT kind=proof unwind=3 hunwind=18 replayable=0 hook=thread_run fallback=H_run fn=run_thread,kthread_wait,kthread_info_destroy
//@ob H_run kind=bounded bound="<=2 reuses" unwind=4 hunwind=18 tier=thorough fn=run_thread,kthread_wait
//@ob S_flush defs=-DCUT kind=proof unwind=3 hunwind=18 replayable=0 hook=thread_flush fallback=H_flush fn=kthread_flush
//@ob H_flush kind=bounded bound="<=3 free threads" unwind=5 hunwind=18 tier=thorough fn=kthread_flush
//@ob S_close defs=-DCUT kind=proof unwind=3 hunwind=18 replayable=0 hook=thread_close fallback=H_close fn=kthread_close_all_free
//@ob H_close kind=bounded bound="<=3 free threads" unwind=5 hunwind=18 tier=thorough fn=kthread_close_all_free
//@ob H_misc kind=proof unwind=3 hunwind=18 fn=kthread_init,kthread_get_count
static int hd_run(void), hd_flush(void), hd_close(void);
#ifdef CUT
#define KGL_LOOP_CONTRACT_thread_run if (hd_run()) break; else
#define KGL_LOOP_CONTRACT_thread_flush if (hd_flush()) break; else
#define KGL_LOOP_CONTRACT_thread_close if (hd_close()) break; else
#endif
#include "v.h"
#include <pthread.h>
#include <signal.h>
#include <time.h>
static pthread_mutex_t *held; static int nlock, ninit, ncreate, nkill, nwait, nblock, nunblock, nattr; static void env_lock(void), env_unlock(void);
static int v_lock(pthread_mutex_t *m) { V_CHECK(held == NULL, "a lock is never taken while one is held"); held = m; nlock++; env_lock(); return 0; }
static int v_unlock(pthread_mutex_t *m) { V_CHECK(held == m, "only the lock held is released"); env_unlock(); held = NULL; return 0; }
static int v_mutex_init(pthread_mutex_t *m, const void *a) { ninit++; return 0; }
static int v_create(pthread_t *id, const pthread_attr_t *a, void *(*f)(void *), void *p), v_kill(pthread_t t, int sig), v_sigwait(const sigset_t *s, int *r), v_mask(int how, const sigset_t *s, sigset_t *o);
static time_t now_; static time_t v_time(time_t *t) { return now_; }
static pthread_t v_self(void) { return (pthread_t)77; }
#define pthread_mutex_lock v_lock
#define pthread_mutex_unlock v_unlock
#define pthread_mutex_init v_mutex_init
#define pthread_create v_create
#define pthread_kill v_kill
#define pthread_self v_self
#define pthread_sigmask v_mask
#define sigwait v_sigwait
#define time v_time
static int nsig, ndet; static int v_attr_init(pthread_attr_t *a) { return 0; } static int v_attr_det(pthread_attr_t *a, int d) { ndet = d; nattr++; return 0; }
static __sighandler_t v_signal(int s, __sighandler_t h) { nsig = s; V_CHECK(h != SIG_DFL && h != SIG_IGN, "the notice signal never ends the process"); return SIG_DFL; }
#define pthread_attr_init v_attr_init
#define pthread_attr_setdetachstate v_attr_det
#define signal v_signal
#define sigemptyset(s) 0
#define sigaddset(s, n) (nsig2 = (n))
static int nsig2;
#include "kthread.h"
#include "kmalloc.h"
#undef xfree
#define xfree v_free
#include "klog.h"
void klog(int level, const char *fmt, ...) {}
#include "v_memset.h"
#include "src/kthread.c"
#undef time
#define BIG (1 << 28)
static kthread_info *T1, *T2, *TA, *TB; static int n0, w0, f0; static int par_, par2_, par3_; static int nwork; static kthread_info *M;
static void *work1(void *p) { return NULL; }
static void *work2(void *p);
/* free threads: none, one, two, three or more (T1 T2 ... TA TB) */
static void free_list(int n) {
	n0 = n; if (n == 0) { klist_init(&free_threads); return; }
	kgl_list *a = &T1->queue, *z = n == 1 ? a : &TB->queue; free_threads.next = a; a->prev = &free_threads; free_threads.prev = z; z->next = &free_threads;
	if (n == 2) { a->next = z; z->prev = a; }
	if (n == 3) { a->next = &T2->queue; T2->queue.prev = a; T2->queue.next = z; z->prev = &T2->queue; }
	if (n == 4) { a->next = &T2->queue; T2->queue.prev = a; TA->queue.next = z; z->prev = &TA->queue; T2->queue.next = &TA->queue; TA->queue.prev = &T2->queue; /* anything in between */ }
}
static void any_state(void) { free_list(V_IN(int, 0, 4)); free_thread_count = n0 < 4 ? n0 : V_IN(int, 4, BIG); work_thread_count = V_IN(int, 0, BIG); f0 = free_thread_count; w0 = work_thread_count; }
static bool same_list(void) { return n0 == 0 ? klist_empty(&free_threads) : free_threads.next == &T1->queue && free_threads.prev == (n0 == 1 ? &T1->queue : &TB->queue); }
static int st; static pthread_t killed; static kthread_info *made; static bool made_ok;
static int v_create(pthread_t *id, const pthread_attr_t *a, void *(*f)(void *), void *p) {
	ncreate++; made = p; V_CHECK(f == run_thread && held == &thread_lock && n0 == 0, "a thread is created only when none is free"); V_CHECK(a == &attr && made->param == &par_ && made->work == work1, "with its work in place"); made_ok = V_BOOL(); *id = 5; return made_ok ? 0 : 11;
}
static void told(pthread_t t);
static int v_kill(pthread_t t, int sig) { nkill++; killed = t; V_CHECK(sig == SIGUSR2 && held == &thread_lock, "the notice goes out under the lock"); told(t); return V_BOOL() ? 0 : 3; }
static void base(int s) { T1 = V_NEWZ(kthread_info); T2 = V_NEWZ(kthread_info); TA = V_NEWZ(kthread_info); TB = V_NEWZ(kthread_info); T1->pid = 101; T2->pid = 102; TA->pid = 103; TB->pid = 104; st = s; held = NULL; nlock = ncreate = nkill = nwait = nblock = nunblock = nwork = nattr = ninit = 0; v_nfreed = 0; made = NULL; M = NULL; any_state(); now_ = V_IN(time_t, 0, 1L << 40); }
static kthread_info *last(void) { return n0 == 1 ? T1 : TB; }
static kgl_list *before_last(void) { return n0 == 1 ? &free_threads : n0 == 2 ? &T1->queue : n0 == 3 ? &T2->queue : &TA->queue; }
static void told(pthread_t t) {
	if (st == 1) V_CHECK(n0 > 0 && t == last()->pid && last()->cmd == kthread_command_start && last()->work == work1 && last()->param == &par_, "a free thread is told after its work is in place");
	if (st == 2) { V_CHECK(n0 > 0 && t == T1->pid && T1->cmd == kthread_command_end, "the thread free for longest is told to end"); }
}
static void env_lock(void); static void round_start(void), round_end(void);
static void env_unlock(void) { if (st == 3) round_end(); }
static void env_lock(void) { if (st == 3) round_start(); }
void H_start(void) {
	base(1); bool r = kthread_pool_start(work1, &par_); V_REACH("returned"); V_CHECK(nlock == 1 && held == NULL, "the pool's lock is released");
	if (n0 == 0) { V_CHECK(ncreate == 1 && nkill == 0 && r == made_ok && klist_empty(&free_threads) && free_thread_count == f0, "without a free thread one is created"); V_CHECK(made_ok ? v_nfreed == 0 : v_times_freed(made) == 1 && v_nfreed == 1, "and forgotten when that fails"); }
	else { V_CHECK(r && ncreate == 0 && nkill == 1 && killed == last()->pid && free_thread_count == f0 - 1, "a free thread is taken and told once"); V_CHECK(free_threads.prev == before_last() && before_last()->next == &free_threads && V_IMPLIES(n0 > 1, free_threads.next == &T1->queue), "and is no longer free"); }
	V_CHECK(work_thread_count == w0 + (r ? 1 : 0), "the working threads are counted");
}
/* ---- a thread's life ---- */
static int heads, cmd_, left, nlive; static kgl_list *lastq;
static void *work2(void *p) { V_CHECK(held == NULL && nwait == nwork, "work runs without a lock, once for each time it was given"); V_CHECK(p == (nwork == 0 ? (void *)&par_ : (void *)&par2_), "with its own parameter"); nwork++; return NULL; }
static void round_start(void) { /* the others' state of the pool: this thread is not in it */ any_state(); M->cmd = kthread_command_start; lastq = n0 == 0 ? &free_threads : &last()->queue; }
static void round_end(void) {
	V_CHECK(nblock == nunblock + 1, "the notice is held back before the thread can be told"); V_CHECK(free_thread_count == f0 + 1 && work_thread_count == w0 - 1, "a thread whose work is done counts as free"); V_CHECK(M->cmd == kthread_command_null, "without a command"); V_CHECK(M->end_time == now_, "its free time begins now");
	V_CHECK(free_threads.prev == &M->queue && M->queue.next == &free_threads && M->queue.prev == lastq && lastq->next == &M->queue, "and is the last of the free ones");
}
static int v_mask(int how, const sigset_t *s, sigset_t *o) { V_CHECK(s == &m_blockset && held == NULL, "signals of the pool"); if (how == SIG_BLOCK) nblock++; else nunblock++; return 0; }
static int v_sigwait(const sigset_t *s, int *r) {
	V_CHECK(held == NULL && nblock == nunblock + 1, "a free thread waits without the lock"); nwait++; cmd_ = left > 0 ? kthread_command_start : left < 0 ? V_IN(int, kthread_command_null, kthread_command_end) : V_IN(int, 0, 1) * kthread_command_end; if (left > 0) left--;
	M->cmd = cmd_; if (cmd_ == kthread_command_start) { M->work = work2; M->param = &par2_; } return 0;
}
static int hd_run(void) {
	V_CHECK(nwork == nwait + 1 && v_nfreed == 0 && held == NULL, "between rounds the work given has been done once");
	if (++heads == 1) { nwork = V_IN(int, 1, BIG); nwait = nwork - 1; return 0; }
	V_CHECK(cmd_ == kthread_command_start && nlock == 1, "another round only after a start"); V_ASSUME(0); return 1;
}
static void fresh(void) { M = V_NEWZ(kthread_info); M->param = &par_; M->work = work2; heads = 0; }
#ifdef CUT
void S_run(void) { base(3); fresh(); left = -1; run_thread(M); V_REACH("ends"); V_CHECK(cmd_ != kthread_command_start && v_times_freed(M) == 1 && v_nfreed == 1 && held == NULL && nwork == nwait, "a thread told to end does no more work and releases itself once"); }
#else
void H_run(void) { base(3); fresh(); left = V_IN(int, 0, 2); int n = left; run_thread(M); V_REACH("ends"); V_CHECK(nwork == n + 1 && nwait == n + 1 && v_times_freed(M) == 1 && v_nfreed == 1 && held == NULL && M != NULL, "each work given is done once, then the thread releases itself"); }
#endif
/* ---- expiry ---- */
static int minf; static bool expired_;
static int any_free(void) { any_state(); T1->cmd = kthread_command_null; T1->end_time = V_IN(time_t, 0, 1L << 40); V_ASSUME(T1->end_time <= now_); nkill = 0; return 0; }
static void one_less_(void) { V_CHECK(n0 > 0 && nkill == 1 && free_thread_count == f0 - 1 && work_thread_count == w0, "one free thread less"); V_CHECK(n0 == 1 ? klist_empty(&free_threads) : free_threads.next == (n0 == 2 ? &TB->queue : &T2->queue) && free_threads.next->prev == &free_threads && free_threads.prev == &TB->queue, "the rest stay"); }
static void one_less(void) { one_less_(); V_CHECK(v_nfreed == 0 && held == &thread_lock, "which releases itself"); }
static int hd_flush(void) { V_CHECK(held == &thread_lock, "under the lock"); if (++heads == 1) return any_free(); one_less(); V_CHECK(f0 > minf && now_ - T1->end_time > max_sleep_time, "only a thread too many that was free for long is ended"); V_ASSUME(0); return 1; }
#ifdef CUT
void S_flush(void) { base(2); heads = 0; minf = V_IN(int, 0, BIG); kthread_flush(minf); V_REACH("done"); V_CHECK(heads == 1 && nkill == 0 && same_list() && free_thread_count == f0 && work_thread_count == w0 && nlock == 1 && held == NULL, "the others stay free"); V_CHECK(n0 == 0 || f0 <= minf || now_ - T1->end_time <= max_sleep_time, "every thread too many that was free for long is ended"); }
static int hd_close(void) { V_CHECK(held == &thread_lock, "under the lock"); if (++heads == 1) { any_free(); V_ASSUME(n0 > 0); return 0; } one_less(); V_ASSUME(0); return 1; }
void S_close(void) { base(2); heads = 0; kthread_close_all_free(); V_REACH("done"); if (heads) { one_less_(); V_CHECK(n0 == 1, "until none is left"); } else V_CHECK(n0 == 0 && nkill == 0, "nobody is told when none is free"); V_CHECK(klist_empty(&free_threads) && free_thread_count == 0 && nlock == 1 && held == NULL, "the work is over when none is free"); }
#else
void H_flush(void) {
	base(4); free_list(V_IN(int, 0, 3)); free_thread_count = n0; minf = V_IN(int, 0, 3); T1->end_time = V_IN(time_t, 0, 1L << 40); T2->end_time = V_IN(time_t, 0, 1L << 40); TB->end_time = V_IN(time_t, 0, 1L << 40); V_ASSUME(T1->end_time <= T2->end_time && T2->end_time <= TB->end_time && TB->end_time <= now_);
	kthread_flush(minf); V_REACH("done"); int k = nkill; V_CHECK(free_thread_count == n0 - k && free_thread_count >= (n0 < minf ? n0 : minf) && nlock == 1 && held == NULL, "never fewer than asked for"); 
	kthread_info *o[3]; o[0] = T1; o[1] = n0 == 2 ? TB : T2; o[2] = TB; for (int i = 0; i < 3; i++) if (i < n0) { bool e = o[i]->cmd == kthread_command_end; V_CHECK(e == (i < k), "those free for longest are ended"); V_CHECK(e == (n0 - i > minf && now_ - o[i]->end_time > max_sleep_time), "exactly those too many and free for long"); }
	V_CHECK(k == n0 ? klist_empty(&free_threads) : free_threads.next == &o[k]->queue && o[k]->queue.prev == &free_threads, "the others stay free");
}
void H_close(void) { base(4); free_list(V_IN(int, 0, 3)); free_thread_count = n0; kthread_close_all_free(); V_REACH("done"); V_CHECK(nkill == n0 && free_thread_count == 0 && klist_empty(&free_threads) && nlock == 1 && held == NULL, "every free thread is told to end"); }
static int hd_close(void) { return 0; }
#endif
void H_misc(void) {
	base(0); int a = -1, b = -1; kthread_get_count(&a, &b); V_REACH("counted"); V_CHECK(a == w0 && b == f0 && nlock == 1 && held == NULL, "the counts are those of the pool"); kthread_init(); V_CHECK(klist_empty(&free_threads) && ninit == 1 && nsig == SIGUSR2 && nsig2 == SIGUSR2 && ndet == PTHREAD_CREATE_DETACHED, "a fresh pool has no free thread and detached threads");
}
