/* Notices between threads (the selector's next()), on the real kepoll_notice, kepoll_notice_event and epoll_selector_next.
 * The monitor invariant of the list, under its lock: it holds at least as many notices as have been announced on the event counter and not yet taken over. */
//@assume malloc succeeds; pthread mutexes, eventfd read and write meet their specification; other threads change the list only under its lock and keep the monitor invariant (which is proved of kepoll_notice)
//@ob H_post kind=proof unwind=3 hunwind=18 replayable=0 fn=kepoll_notice,epoll_selector_next
//@ob S_drain defs=-DCUT kind=proof unwind=3 hunwind=18 replayable=0 hook=notice_drain fallback=H_drain fn=kepoll_notice_event,result_notice_event
//@ob H_drain kind=bounded bound="<=3 announced notices" unwind=5 hunwind=18 replayable=0 tier=thorough fn=kepoll_notice_event
//@ob H_init kind=proof unwind=3 hunwind=18 fn=kepoll_notice_init
static int hd_drain(unsigned long *value);
#ifdef CUT
#define KGL_LOOP_CONTRACT_notice_drain if (hd_drain(&value)) break; else
#endif
#include "v.h"
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>
struct kselector_s;
static struct kselector_s *v_tls; static void *v_tls_get(pthread_key_t k) { return v_tls; }
#define pthread_getspecific v_tls_get
static int v_lock(pthread_mutex_t *m), v_unlock(pthread_mutex_t *m), v_minit(pthread_mutex_t *m, const pthread_mutexattr_t *a), v_eventfd(unsigned i, int f); static ssize_t v_read(int fd, void *b, size_t n), v_write(int fd, const void *b, size_t n);
#define pthread_mutex_lock v_lock
#define pthread_mutex_unlock v_unlock
#define pthread_mutex_init v_minit
#define read(a, b, c) v_read(a, b, c)
#define write(a, b, c) v_write(a, b, c)
#define perror(m) ((void)0)
#include <sys/eventfd.h>
#define eventfd v_eventfd
#include "kselector.h"
#include "kselectable.h"
#include "kserver.h"
#include "kasync_file.h"
#include "kfiber.h"
#include "klog.h"
#undef klog
#define klog(...) ((void)0)
#include "v_memset.h"
#undef xfree
#define xfree v_free
#include "src/kepoll_selector.c"
pthread_key_t kgl_selector_key; kselector_module kgl_selector_module; size_t kgl_aio_align_size; volatile int64_t kgl_current_msec;
kev_result kselector_event_accept(KOPAQUE d, void *a, int g) { return kev_ok; } void kselector_default_bind(kselector *s, kselectable *st) {} void kselector_update_time(void) {}
kev_result selectable_read_event(kselectable *st) { return kev_ok; } kev_result selectable_write_event(kselectable *st) { return kev_ok; }
static kepoll_selector *ES; static kepoll_notice_selectable *A; static kselector *SEL; static bool locked; static int nlock, nwrite, ncb, fdv, nminit, posts; static long long len; static uint64_t announced; static char data_[1], arg_[1];
static kselector_notice *N, *N2, *N3, *OLD; static int N_got; static bool r_ok; static uint64_t r_val, k0; static int heads;
static kev_result cb(KOPAQUE d, void *a, int g);
static kselector_notice *mk(void) { kselector_notice *n = V_NEW(kselector_notice); n->data = (KOPAQUE)data_; n->arg = arg_; n->result = cb; n->got = V_INT(); n->next = NULL; return n; }
static int mode; enum { POST, CUTS, SMALL, TWO };
static kselector_notice *head0; static int post_got;
/* whoever gets the lock finds the list in any state the monitor invariant allows */
static void enter(void) {
	if (mode == POST) { N = V_BOOL() ? mk() : NULL; A->head = N; head0 = N; }
	else if (mode == CUTS) { N = mk(); N_got = N->got; N2 = V_BOOL() ? mk() : NULL; N->next = N2; A->head = N; }
	else if (mode == SMALL) { N = mk(); N_got = N->got; N->next = V_BOOL() ? mk() : NULL; A->head = N; N2 = N->next; }
}
static int v_lock(pthread_mutex_t *m) { V_CHECK(m == &A->lock && !locked, "the lock of this queue"); locked = true; nlock++; enter(); return 0; }
static int v_unlock(pthread_mutex_t *m) {
	V_CHECK(m == &A->lock && locked, "the lock of this queue"); locked = false;
	if (mode == POST) { posts++; V_CHECK(A->head != NULL && A->head != head0 && A->head->next == head0, "the notice is put before the notices waiting, which stay"); V_CHECK(A->head->data == (KOPAQUE)data_ && A->head->arg == arg_ && A->head->result == cb && A->head->got == post_got, "with everything it was posted with"); N3 = A->head; }
	if (mode == CUTS || mode == SMALL) V_CHECK(A->head == N2, "exactly the first notice is taken");
	return 0;
}
static ssize_t v_write(int fd, const void *b, size_t n) { V_CHECK(fd == fdv && n == 8 && *(const uint64_t *)b == 1 && !locked, "one announcement on this queue's counter"); if (mode == POST) V_CHECK(posts == 1, "a notice is announced after it is in the list"); nwrite++; announced++; return V_BOOL() ? 8 : -1; }
static ssize_t v_read(int fd, void *b, size_t n) { V_CHECK(fd == fdv && n == 8 && !locked, "this queue's counter is read"); r_ok = V_BOOL(); if (!r_ok) return -1; *(uint64_t *)b = mode == TWO ? announced : r_val; k0 = mode == TWO ? announced : r_val; announced = 0; return 8; }
static int got_seen[3];
static kev_result cb(KOPAQUE d, void *a, int g) { V_CHECK(d == (KOPAQUE)data_ && a == arg_, "delivered with its own data and argument"); V_CHECK(!locked, "delivered without holding the lock"); if (mode == CUTS || mode == SMALL) V_CHECK(g == N_got && v_times_freed(N) == 0, "delivered with its own result, once"); if (ncb < 3) got_seen[ncb] = g; ncb++; return kev_ok; }
static int hd_drain(unsigned long *v) {
	if (++heads == 1) { V_CHECK(*v == r_val && r_ok, "as many as were announced"); *v = (uint64_t)v_in(1, LLONG_MAX); V_ASSUME(*v <= r_val); A->head = OLD; k0 = *v; ncb = 0; v_nfreed = 0; return 0; }
	V_CHECK(heads == 2 && *v == k0 - 1, "one announcement per step"); V_CHECK(ncb == 1 && v_nfreed == 1 && v_times_freed(N) == 1 && !locked && nlock == 1, "the notice taken is delivered once and released once"); V_REACH("step"); V_ASSUME(0); return 1;
}
static void setup(int m) { static kselector zs; static kepoll_selector z; mode = m; SEL = V_NEW(kselector); *SEL = zs; ES = V_NEW(kepoll_selector); *ES = z; A = &ES->notice_st; SEL->ctx = ES; OLD = mk(); fdv = V_IN(int, 0, 100000); A->st.fd = fdv; A->head = m == SMALL ? OLD : NULL; locked = false; nlock = nwrite = ncb = posts = heads = v_nfreed = 0; announced = 0; r_val = (uint64_t)v_in(1, LLONG_MAX); }
void H_post(void) {
	setup(POST); post_got = V_INT(); bool v = V_BOOL();
	if (v) epoll_selector_next(SEL, (KOPAQUE)data_, cb, arg_, post_got); else kepoll_notice(A, (KOPAQUE)data_, cb, arg_, post_got);
	V_CHECK(nlock == 1 && posts == 1 && nwrite == 1 && !locked && ncb == 0 && v_nfreed == 0, "put in the list once, announced once, kept"); V_REACH("posted");
}
void S_drain(void) { setup(CUTS); result_notice_event(NULL, A, 0); V_CHECK(!r_ok && heads == 0 ? ncb == 0 && nlock == 0 : heads == 1, "nothing is taken that was not announced"); V_REACH("left"); }
void H_drain(void) { setup(SMALL); V_ASSUME(r_val <= 3); result_notice_event(NULL, A, 0); if (r_ok) { V_CHECK(ncb == (int)k0 && v_nfreed == (int)k0, "every announced notice is delivered once"); V_REACH("drained"); } else V_CHECK(ncb == 0 && nlock == 0, "nothing was announced"); }
static int v_minit(pthread_mutex_t *m, const pthread_mutexattr_t *a) { V_CHECK(m == &A->lock, "its own lock"); nminit++; return 0; }
static int v_eventfd(unsigned i, int f) { V_CHECK(i == 0 && !(f & EFD_SEMAPHORE), "a counter starting at none announced, read as a whole"); return fdv; }
void H_init(void) { setup(POST); nminit = 0; A->st.fd = -1; kepoll_notice_init(SEL, A, result_notice_event, A); V_CHECK(nminit == 1 && A->st.fd == fdv && A->st.base.selector == SEL && A->head == NULL && A->st.e[OP_READ].result == result_notice_event && A->st.e[OP_READ].arg == A && A->st.e[OP_READ].buffer == NULL, "an empty queue, drained when its counter is raised"); V_REACH("made"); }
