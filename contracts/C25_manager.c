/* The loop manager: which loop gets a task, timers and callbacks handed to loops, life of the loops, kasync_main; on the real kselector_manager.c. The loops themselves (kselector.c, the back end, threads, fibers) enter by contract. */
//@assume a loop's socket count stays below 2^30; configured timeouts are at most 2147483 s; xmalloc succeeds (realloc may fail); check_timeout leaves no ready event behind (C10); the back end's next() runs the callback once on the loop given (C23)
//@assume growing and registering callbacks is not raced by other threads, as the API demands
//@ob S_perfect defs="-DCUT -DPERFECT" kind=proof unwind=66 hunwind=66 replayable=0 hook=perfect fallback=H_perfect fn=get_perfect_selector
//@ob H_perfect kind=bounded bound="<=4 loops" unwind=66 hunwind=66 split="LOGN:0,1,2" tier=thorough fn=get_perfect_selector,get_selector_by_index
//@ob H_pow2 kind=proof unwind=66 hunwind=66 fn=kgl_pow2
//@ob H_adjtime kind=proof unwind=3 hunwind=18 solver=z3 fn=selector_manager_adjust_time
//@ob H_index kind=proof unwind=66 hunwind=66 fn=get_selector_by_index
//@ob H_init kind=proof unwind=66 hunwind=66 split="LOGN:0,1,2,3,4,5,6" calls=kgl_pow2:c_pow2,get_perfect_selector:c_perfect fn=selector_manager_init,kgl_pow2,selector_manager_set_timeout,selector_set_time_out,selector_manager_add_timer,is_selector_manager_init
//@ob S_ready defs=-DCUT kind=proof unwind=66 hunwind=66 replayable=0 hook=on_ready fallback=H_ready calls=get_perfect_selector:c_perfect,kgl_pow2:c_pow2 fn=selector_manager_init
//@ob H_ready kind=bounded bound="<=3 callbacks" unwind=66 hunwind=66 tier=thorough calls=get_perfect_selector:c_perfect fn=selector_manager_init,selector_manager_on_ready
//@ob H_onready kind=proof unwind=3 hunwind=18 calls=get_perfect_selector:c_perfect fn=selector_manager_on_ready,selector_manager_add_callback
//@ob H_threadinit kind=proof unwind=3 hunwind=18 fn=selector_manager_thread_init,selector_manager_add_callback
//@ob S_enter defs=-DCUT kind=proof unwind=3 hunwind=18 replayable=0 hook=thread_start fallback=H_enter fn=kselector_init,kselector_step_init
//@ob S_leave defs=-DCUT kind=proof unwind=3 hunwind=18 replayable=0 hook=thread_end fallback=H_enter fn=kselector_exit,kselector_step_exit
//@ob H_enter kind=bounded bound="<=3 callbacks" unwind=5 hunwind=18 tier=thorough fn=kselector_init,kselector_exit,kselector_step_init,kselector_step_exit
//@ob H_timer kind=proof unwind=3 hunwind=18 calls=get_perfect_selector:c_perfect fn=selector_manager_add_timer,add_timer_on_ready,next_add_timer
//@ob H_timer_ts kind=proof unwind=3 hunwind=18 fn=kselector_add_timer_ts,next_add_timer
//@ob H_tmoval kind=proof unwind=3 hunwind=18 solver=z3 fn=selector_manager_set_timeout,selector_set_time_out
//@ob H_tmo kind=proof unwind=66 hunwind=66 split="LOGN:0,1,2,3,4,5,6" fn=selector_manager_set_timeout,selector_set_time_out
//@ob H_grow kind=proof unwind=66 hunwind=66 split="LOGN:0,1,2,3,4,5,6;N0:1,2" calls=kgl_pow2:c_pow2 fn=selector_manager_grow
//@ob H_growfail defs=-DMEM=0 kind=proof unwind=3 hunwind=18 calls=kgl_pow2:c_pow2 fn=selector_manager_grow
//@ob H_grow0 kind=proof unwind=3 hunwind=18 calls=kgl_pow2:c_pow2 fn=selector_manager_grow
//@ob H_start kind=proof unwind=66 hunwind=66 split="LOGN:0,1,2,3,4,5,6" calls=kselector_thread:c_thread fn=selector_manager_start
//@ob H_thread defs=-DTHR kind=proof unwind=4 hunwind=18 replayable=0 calls=kselector_init:c_enter fn=kselector_thread
//@ob H_step kind=proof unwind=3 hunwind=18 fn=kselector_step
//@ob H_adjust kind=proof unwind=66 hunwind=66 split="LOGN:0,1,2,3,4,5,6" fn=selector_manager_adjust_time
//@ob H_close kind=bounded bound="<=4 loops, threads that end within 3 s" unwind=7 hunwind=66 split="LOGN:0,1,2" fn=selector_manager_close,is_selector_manager_init
//@ob H_flush kind=proof unwind=3 hunwind=18 fn=kthread_flush_timer
//@ob H_main kind=proof unwind=5 hunwind=18 replayable=0 calls=kselector_init:c_enter,kselector_exit:c_leave,kasync_init:c_ainit fn=kasync_main,kasync_fiber_main
#ifdef CUT
static int hd(void **pos);
#define KGL_LOOP_CONTRACT_thread_start if (hd((void **)&cb)) break; else
#define KGL_LOOP_CONTRACT_thread_end if (hd((void **)&cb)) break; else
#ifdef PERFECT
static int hdp(unsigned *i, int *j);
#define KGL_LOOP_CONTRACT_perfect if (hdp(&i, &j)) break; else
#else
#define KGL_LOOP_CONTRACT_perfect
#endif
#define KGL_LOOP_CONTRACT_on_ready if (hd((void **)&on_ready_list)) break; else
#endif
#include "v.h"
#ifndef MEM
#define MEM 1
#endif
#include <pthread.h>
#include <signal.h>
struct kselector_s;
static struct kselector_s *v_tls; static int n_tls; static void *v_tls_get(pthread_key_t k) { return v_tls; }
static int v_tls_set(pthread_key_t k, const void *p) { v_tls = (struct kselector_s *)p; n_tls++; return 0; }
#define pthread_getspecific v_tls_get
#define pthread_setspecific v_tls_set
static pthread_t me; static pthread_t v_self(void) { return me; }
#define pthread_self v_self
#include <unistd.h>
#include <time.h>
#include <sys/socket.h>
static unsigned v_sleep(unsigned s);
#define sleep v_sleep
#define free v_free
#include "kselector.h"
#include "kselector_manager.h"
#include "klog.h"
#include "kthread.h"
#include "kfiber.h"
#include "kaddr.h"
#undef klog
#define klog(...) ((void)0)
#define fprintf(...) ((void)0)
#define signal(a, b) ((void)0)
#define srand(a) ((void)(a))
static time_t v_time(time_t *p) { return (time_t)1700000000; }
#define time(p) v_time(p)
static kselector *TAB[64], *GT[64], *R; static int newn, n_next, n_started, n_destroyed, n_added, n_adj, n_sleep, n_run, n_check, n_sel, n_enter, n_leave, n_fiber, n_flush, n_kadd, main_ret, n_mainf; static size_t tab_bytes; static bool tab_live;
static kselector *next_sel, *add_sel; static result_callback next_cb; static void *next_arg; static KOPAQUE next_data; static int next_got; static char arg_[1], data_[1]; static kgl_block_queue *added;
static unsigned char started[64], destroyed[64], adjusted[64]; static int64_t adj; static int kadd_ms; static result_callback kadd_cb;
static void *v_xmalloc(size_t n) { if (n == sizeof(kgl_block_queue)) return V_NEW(kgl_block_queue); V_CHECK(!tab_live && n <= sizeof(TAB), "one table of loops"); tab_live = true; tab_bytes = n; return TAB; }
static kselector **v_realloc(kselector **p, size_t n) { V_CHECK(p == TAB && tab_live, "the table is enlarged"); if (!MEM) return NULL; V_CHECK(tab_bytes == sizeof(kselector *), "from one loop"); GT[0] = TAB[0]; TAB[0] = NULL; tab_live = false; tab_bytes = n; V_CHECK(n <= sizeof(GT), "a table of loops"); return GT; }
static void tab_free(void *p) { V_CHECK(p == TAB && tab_live, "the table is freed once"); tab_live = false; }
#undef xmalloc
#undef xfree
#define xmalloc(n) v_xmalloc(n)
#define xfree(p) tab_free(p)
typedef struct { result_callback cb; void *arg; void *next; } item; /* layout checked against the real record in base() */
static void *v_item(size_t n) { V_CHECK(n == sizeof(item), "one record"); return malloc(n); }
static kselector **kgl_selectors; static bool v_krealloc(void **p, size_t n) { V_CHECK(p == (void **)&kgl_selectors, "the table of loops is enlarged"); kselector **q = v_realloc(kgl_selectors, n); if (q == NULL) return false; kgl_selectors = q; return true; }
#define kgl_realloc(p, n) v_krealloc(p, n)
#include "src/kselector_manager.c"
#undef xmalloc
#undef xfree
typedef kgl_selector_manager_callback node; static node *X, *Y; static int ncall, callgot[4]; static void *callarg[4]; static int pa[4];
pthread_key_t kgl_selector_key; kselector_module kgl_selector_module; volatile int64_t kgl_current_msec; time_t kgl_program_start_sec; void (*kgl_second_change_hook)();
static kselector *mksel(void) { kselector *s = V_NEW(kselector); static kselector z; *s = z; s->sid = -1; for (int i = 0; i < KGL_LIST_COUNT; i++) s->timeout[i] = 60000; return s; }
static kselector *MADE[64];
kselector *kselector_new(kselector_tick *t) { V_CHECK(t == NULL && newn < 64, "a plain loop"); kselector *s = mksel(); klist_init(&s->list[KGL_LIST_READY]); MADE[newn++] = s; return s; }
bool kselector_start(kselector *s) { V_CHECK(s->sid >= 0 && s->sid < 64, "a known loop"); started[s->sid]++; n_started++; V_CHECK(n_run == 0, "before the caller's own loop runs"); if (newn) V_CHECK(s->timeout[KGL_LIST_RW] == GT[0]->timeout[KGL_LIST_RW] && s->timeout[KGL_LIST_CONNECT] == GT[0]->timeout[KGL_LIST_CONNECT], "a started loop has the configured timeouts"); return true; }
void kselector_destroy(kselector *s) { if (s->aysnc_main) { n_destroyed++; return; } V_CHECK(s->sid >= 0 && s->sid < 64, "a known loop"); V_CHECK(s->thread_id == 0 && s->shutdown && s->closed, "a loop is destroyed after its thread has left it"); destroyed[s->sid]++; n_destroyed++; }
void kselector_add_block_queue(kselector *s, kgl_block_queue *q) { n_added++; add_sel = s; added = q; }
int kselector_add_timer(kselector *s, result_callback cb, void *a, int ms, KOPAQUE d) { n_kadd++; add_sel = s; kadd_cb = cb; kadd_ms = ms; return 0; }
void kselector_adjust_time(kselector *s, int64_t d) { V_CHECK(s->sid >= 0 && s->sid < 64 && d == adj, "every loop is told the change"); adjusted[s->sid]++; n_adj++; }
#ifdef THR
#define REACH_ON if (n_sel == 2) V_REACH("runs on");
#else
#define REACH_ON
#endif
static int last_ret, last_tmo; static bool expect_ret; static kselector *cur; static bool in_main; static int main_f(void *a, int n);
static void *fib_arg; static int fib_len; static kfiber_start_func fib_f;
static int m_select(kselector *s, int tmo) { V_CHECK(s == cur && n_enter == 1, "its own loop, once it is entered"); n_sel++; if (!in_main) { V_CHECK(n_check == n_sel && tmo == last_tmo, "waits at most until the next timeout"); REACH_ON if (n_sel > 2) V_ASSUME(0); } else { V_CHECK(tmo == last_tmo && n_check == n_sel - 1, "waits at most until the next timeout"); if (n_sel == 3 || V_BOOL()) { V_CHECK(n_fiber == 1, "the main fiber was made"); fib_f(fib_arg, fib_len); } else if (n_sel > 2) V_ASSUME(0); } return last_ret = V_INT(); }
int kselector_check_timeout(kselector *s, int ev) { V_CHECK(s == cur, "its own loop"); V_CHECK(ev == (n_check == 0 && !in_main ? 0 : last_ret) || expect_ret, "the events just handled are reported"); n_check++; if (s->list[KGL_LIST_READY].next != &s->list[KGL_LIST_READY]) klist_init(&s->list[KGL_LIST_READY]); return last_tmo = V_INT(); }
void kselector_update_time(void) {} void kthread_flush(int n) { n_flush++; }
void kthread_init(void) {} void kfiber_init(void) {} void kgl_addr_init(void) {} void kepoll_module_init(void) {} void ksocket_startup(void) {} void kssl_init2(void) {}
int kfiber_create2(kselector *s, kfiber_start_func f, void *a, int len, int stk, kfiber **ret) { V_CHECK(s == v_tls && s == MADE[0] && n_enter == 1 && ret == NULL && stk == 0, "the main fiber runs on the caller's loop"); n_fiber++; fib_f = f; fib_arg = a; fib_len = len; return 0; }
static void m_next(kselector *s, KOPAQUE d, result_callback cb, void *a, int got) { n_next++; next_sel = s; next_data = d; next_cb = cb; next_arg = a; next_got = got; }
kselector *c_perfect(void) { V_CHECK(kgl_selectors != NULL && kgl_selector_count > 0, "loops exist"); return R; }
KTHREAD_FUNCTION c_thread(void *p) { V_CHECK(p == kgl_selectors[0], "the first loop"); n_run++; KTHREAD_RETURN; }
void c_enter(kselector *s) { n_enter++; v_tls = s; s->thread_id = me; cur = s; } void c_leave(kselector *s) { V_CHECK(s == cur && n_enter == 1, "the loop entered is left"); n_leave++; } void c_ainit(void) {}
static unsigned v_sleep(unsigned s) { n_sleep++; for (int i = 0; i < kgl_selector_count; i++) { V_CHECK(TAB[i]->shutdown, "every loop is told to shut down first"); if (n_sleep > 1) V_CHECK(TAB[i]->closed, "then every loop is closed"); } if (n_sleep > 1) for (int i = 0; i < kgl_selector_count; i++) if (!destroyed[i] && (n_sleep == 3 || V_BOOL())) TAB[i]->thread_id = 0; return 0; }
static kev_result ucb(KOPAQUE d, void *a, int got) { V_CHECK(d == NULL && ncall < 4, "a registered callback"); callarg[ncall] = a; callgot[ncall] = got; ncall++; return kev_ok; }
static kev_result tcb(KOPAQUE d, void *a, int got) { return kev_ok; }
static void base(void) { kgl_selectors = NULL; kgl_selector_count = 0; kgl_selector_hash = 0; kgl_selector_index = 0; on_ready_list = NULL; thread_init = NULL; v_nfreed = 0; newn = n_next = n_started = n_destroyed = n_added = n_adj = n_sleep = n_run = n_check = n_sel = n_enter = n_leave = n_fiber = n_flush = n_kadd = n_tls = ncall = n_mainf = 0; tab_live = false; v_tls = NULL; me = (pthread_t)77; kgl_current_msec = V_IN(int64_t, 0, 1LL << 50); kgl_selector_module.next = m_next; kgl_selector_module.select = m_select; kgl_selector_module.name = "v"; in_main = expect_ret = false; last_ret = 0; R = NULL; X = Y = NULL; }
static void loops(int n) { kgl_selectors = TAB; tab_live = true; tab_bytes = n * sizeof(kselector *); kgl_selector_count = n; kgl_selector_hash = n - 1; for (int i = 0; i < n; i++) { TAB[i] = mksel(); TAB[i]->sid = i; } }
static node *mk(node *next) { node *x = V_NEW(node); static int k; int j = k++ & 3; x->call_back = ucb; x->arg = &pa[j]; x->next = next; return x; }
#ifndef LOGN
#define LOGN 0
#endif
#define NN (1 << LOGN)
static int want_size;
int c_pow2(int size, int bits) { V_CHECK(size == want_size && bits == 7, "the size asked for is rounded"); return NN; }
void H_pow2(void) { base(); int size = V_INT(); int n = kgl_pow2(size, 7); V_CHECK(n >= 1 && n <= 64 && (n & (n - 1)) == 0 && (n <= size || n == 1) && (size < 2 * n || n == 64), "rounded down to a power of two, at least 1, at most 64"); V_REACH("rounded"); }
#ifdef PERFECT
static int pn, pj, parr; static unsigned pstart, pi; static kselector *PS, *PA, *PB;
static int hdp(unsigned *i, int *j) {
	unsigned h = (unsigned)pn - 1; parr++;
	if (parr == 1) { V_CHECK(*j == 0 && *i == pstart, "from the next in turn"); *j = pj; *i = pi = pstart + (unsigned)pj; V_ASSUME(PS->count >= PA->count + 64 * pj); return 0; }
	V_CHECK(*j == pj + 1 && *i == pi + 1, "one further"); V_CHECK(PA->count >= PB->count + 64, "only overloaded loops are passed over"); V_CHECK(PS->count >= TAB[*i & h]->count + 64 * *j, "passing over loops only goes down"); V_REACH("passed over"); V_ASSUME(0); return 0;
}
void S_perfect(void) {
	base(); int l = V_IN(int, 0, 6); pn = 1 << l; unsigned h = (unsigned)pn - 1; pstart = V_U32(); pj = V_IN(int, 0, pn - 1); parr = 0; unsigned s0 = pstart & h, a0 = (pstart + (unsigned)pj) & h, b0 = (pstart + (unsigned)pj + 1) & h; kselector *other = V_NEW(kselector); PS = V_NEW(kselector); PA = a0 == s0 ? PS : V_NEW(kselector); PB = b0 == s0 ? PS : b0 == a0 ? PA : V_NEW(kselector); PS->count = V_IN(int, 0, 1 << 30); PA->count = V_IN(int, 0, 1 << 30); PB->count = V_IN(int, 0, 1 << 30);
	for (unsigned k = 0; k < 64; k++) TAB[k] = k == s0 ? PS : k == a0 ? PA : k == b0 ? PB : other; kgl_selectors = TAB; kgl_selector_count = pn; kgl_selector_hash = h; kgl_selector_index = pstart;
	kselector *s = get_perfect_selector(); V_CHECK(s == PA && PA->count < PB->count + 64, "a loop of the manager, never one that has 64 sockets more than its successor"); V_CHECK((kgl_selector_index & h) == b0, "the next choice starts behind it"); V_REACH("chosen");
}
#endif
void H_perfect(void) {
	base(); loops(NN); for (int i = 0; i < NN; i++) TAB[i]->count = V_IN(int, 0, 1 << 30); unsigned start = V_U32(); kgl_selector_index = start;
	kselector *s = get_perfect_selector(); V_CHECK(s != NULL && s->sid >= 0 && s->sid < NN && s == TAB[s->sid], "a loop of the manager");
	int at = s->sid, nx = (at + 1) & (NN - 1); V_CHECK(s->count < TAB[nx]->count + 64, "never one that has 64 sockets more than its successor"); V_CHECK((kgl_selector_index & (NN - 1)) == (unsigned)nx, "the next choice starts behind it");
	int k = V_IN(int, 0, NN - 1), g = (int)((start + (unsigned)k) & (NN - 1)), d = (int)(((unsigned)at - start) & (NN - 1)); if (k < d) V_CHECK(TAB[g]->count >= TAB[(g + 1) & (NN - 1)]->count + 64, "only overloaded loops are passed over"); V_REACH("chosen");
}
void H_index(void) { base(); int l = V_IN(int, 0, 6); loops(64); kgl_selector_count = 1 << l; kgl_selector_hash = (1 << l) - 1; int i = V_INT(); kselector *s = get_selector_by_index(i); V_CHECK(s != NULL && s->sid >= 0 && s->sid < (1 << l) && ((s->sid - (i & 63)) & ((1 << l) - 1)) == 0, "every index names one of the loops"); V_CHECK(get_selector_count() == 1 << l, "their number is told"); V_REACH("indexed"); }
static void made(void) { int n = NN; V_CHECK(kgl_selector_count == n && newn == n && tab_bytes == n * sizeof(kselector *) && is_selector_manager_init(), "as many loops as the rounded size says"); int i = V_IN(int, 0, 63); if (i >= n) return; kselector *s = get_selector_by_index(i); V_CHECK(s == MADE[i] && s->sid == i && s->utm == (i == 0) && s->timeout[KGL_LIST_CONNECT] == 60000 && s->timeout[KGL_LIST_RW] == 60000, "each with its number, the first keeps the time, sixty seconds until configured"); V_REACH("made"); }
void H_init(void) { base(); R = mksel(); V_CHECK(!is_selector_manager_init(), "nothing before"); int size = want_size = V_INT(); bool t = V_BOOL(); selector_manager_init(size, t); made(); V_CHECK(n_next == t, "the thread timer only if asked for"); if (t) { V_REACH("timer"); V_CHECK(next_sel == R && next_got == 0, "armed on a loop"); v_tls = R; next_cb(next_data, next_arg, next_got); V_CHECK(n_added == 1 && add_sel == R && added->active_msec == kgl_current_msec + 60000, "after a minute"); added->func(added->data, added->arg, 0); V_CHECK(n_flush == 1 && n_kadd == 1, "it flushes idle threads and stays armed"); } V_CHECK(on_ready_list == NULL, "nothing left waiting"); }
void H_flush(void) { base(); v_tls = mksel(); kthread_flush_timer(NULL, NULL, 0); V_CHECK(n_flush == 1 && n_kadd == 1 && add_sel == v_tls && kadd_cb == kthread_flush_timer && kadd_ms == 60000, "idle threads are flushed every minute"); V_REACH("flushed"); }
#ifdef CUT
static int arrivals; static bool stepped; static int mode; /* 0 on_ready, 1 start, 2 end */
static void step_check(void) { if (mode == 0) { V_CHECK(n_next == 1 && next_cb == ucb && next_arg == &pa[2] && next_data == NULL && next_got == 0 && next_sel == R, "the callback waiting is handed to a loop once"); V_CHECK(v_nfreed == 1 && v_times_freed(X) == 1, "and its record is given back"); } else V_CHECK(ncall == 1 && callarg[0] == &pa[2] && callgot[0] == mode - 1 && v_nfreed == 0, "the callback is called once, with 0 at the start and 1 at the end"); }
static int hd(void **pos) {
	arrivals++; if (arrivals == 1) { V_CHECK(*pos == (mode == 0 ? (void *)X : (void *)thread_init), "from the first registered"); n_next = 0; ncall = 0; v_nfreed = 0; X = mk(V_BOOL() ? Y = mk(NULL) : NULL); X->arg = &pa[2]; *pos = X; stepped = true; return 0; }
	step_check(); V_CHECK(Y != NULL && *pos == Y, "then the next one"); V_REACH("step"); return 1;
}
void S_ready(void) { base(); R = mksel(); mode = 0; arrivals = 0; stepped = false; X = on_ready_list = V_BOOL() ? mk(NULL) : NULL; want_size = 1; selector_manager_init(1, false); if (arrivals == 2) return; if (stepped) { step_check(); V_CHECK(Y == NULL && on_ready_list == NULL, "until none waits"); V_REACH("ready"); } else V_CHECK(n_next == 0, "nobody waited"); }
void S_enter(void) { base(); loops(1); mode = 1; arrivals = 0; stepped = false; thread_init = V_BOOL() ? mk(NULL) : NULL; if (V_BOOL()) kselector_step_init(0); else kselector_init(TAB[0]); V_CHECK(v_tls == TAB[0] && TAB[0]->thread_id == me, "the thread becomes the loop's thread"); if (arrivals == 2) return; if (stepped) { step_check(); V_CHECK(Y == NULL, "all of them"); V_REACH("entered"); } else V_CHECK(ncall == 0, "none registered"); }
void S_leave(void) { base(); loops(1); mode = 2; arrivals = 0; stepped = false; v_tls = TAB[0]; TAB[0]->thread_id = me; thread_init = V_BOOL() ? mk(NULL) : NULL; if (V_BOOL()) kselector_step_exit(0); else kselector_exit(TAB[0]); V_CHECK(v_tls == NULL && TAB[0]->thread_id == 0, "the loop no longer has a thread"); if (arrivals == 2) return; if (stepped) { step_check(); V_CHECK(Y == NULL, "all of them"); V_REACH("left"); } else V_CHECK(ncall == 0, "none registered"); }
#else
void H_ready(void) { base(); R = mksel(); int n = V_IN(int, 0, 3); for (int i = 0; i < n; i++) selector_manager_on_ready(ucb, &pa[i]); selector_manager_init(1, false); V_CHECK(n_next == n && v_nfreed == n && on_ready_list == NULL, "every callback waiting is handed to a loop once"); V_REACH("ready"); }
void H_enter(void) { base(); int n = V_IN(int, 0, 3); for (int i = 0; i < n; i++) V_CHECK(selector_manager_thread_init(ucb, &pa[i]) == 0, "registered"); loops(1); bool st = V_BOOL(); if (st) kselector_step_init(0); else kselector_init(TAB[0]); V_CHECK(ncall == n && v_tls == TAB[0] && TAB[0]->thread_id == me, "each once at the start"); for (int i = 0; i < n; i++) V_CHECK(callgot[i] == 0, "told it is the start"); ncall = 0; if (st) kselector_step_exit(0); else kselector_exit(TAB[0]); V_CHECK(ncall == n && v_tls == NULL && TAB[0]->thread_id == 0, "each once at the end"); for (int i = 0; i < n; i++) V_CHECK(callgot[i] == 1, "told it is the end"); V_REACH("both"); }
#endif
void H_onready(void) { base(); node *old = V_BOOL() ? mk(NULL) : NULL, *oldt = mk(NULL); on_ready_list = old; thread_init = oldt; if (V_BOOL()) { loops(1); R = TAB[0]; on_ready_list = NULL; selector_manager_on_ready(tcb, arg_); V_CHECK(n_next == 1 && next_sel == R && next_cb == tcb && next_arg == arg_ && next_data == NULL && next_got == 0 && on_ready_list == NULL, "once loops exist the callback goes to one at once"); V_REACH("at once"); return; } selector_manager_on_ready(tcb, arg_); node *l = on_ready_list; V_CHECK(n_next == 0 && l != NULL && l != old && l->call_back == tcb && l->arg == arg_ && l->next == old && thread_init == oldt, "until then it waits, with all that waited before"); V_REACH("waits"); }
void H_threadinit(void) { base(); node *old = V_BOOL() ? mk(NULL) : NULL, *oldr = mk(NULL); thread_init = old; on_ready_list = oldr; bool in = V_BOOL(); if (in) loops(1); int r = selector_manager_thread_init(tcb, arg_); if (in) { V_CHECK(r == -1 && thread_init == old, "too late once loops exist"); V_REACH("late"); return; } node *l = thread_init; V_CHECK(r == 0 && l != NULL && l != old && l->call_back == tcb && l->arg == arg_ && l->next == old && on_ready_list == oldr, "registered, with all registered before"); V_REACH("registered"); }
static void timer_ok(int64_t due) { V_CHECK(n_added == 1 && added != NULL && added->func == tcb && added->arg == arg_ && added->data == (KOPAQUE)data_, "the timer with the caller's callback, argument and data"); V_CHECK(added->active_msec == due, "due when asked for"); }
void H_timer(void) {
	base(); int ms = V_INT(); bool in = V_BOOL(); if (in) { loops(1); R = TAB[0]; } int64_t due = kgl_current_msec + ms; selector_manager_add_timer(tcb, arg_, ms, (KOPAQUE)data_); V_CHECK(n_added == 0, "never from a foreign thread");
	if (!in) { V_CHECK(n_next == 0 && on_ready_list != NULL && on_ready_list->next == NULL, "waits for the loops"); node *l = on_ready_list; loops(1); R = mksel(); kgl_current_msec += V_IN(int, 0, 1000); l->call_back(NULL, l->arg, 0); V_REACH("waited"); } else V_REACH("at once");
	V_CHECK(n_next == 1 && next_sel == R && n_added == 0, "handed to a loop"); v_tls = R; next_cb(next_data, next_arg, next_got); V_CHECK(add_sel == R, "and armed there"); timer_ok(due);
}
void H_timer_ts(void) { base(); loops(1); bool same = V_BOOL(); TAB[0]->thread_id = same ? me : (pthread_t)5; int ms = V_INT(); int64_t due = kgl_current_msec + ms; if (same) v_tls = TAB[0]; kselector_add_timer_ts(TAB[0], tcb, arg_, ms, (KOPAQUE)data_); if (same) { V_CHECK(n_next == 0, "on its own thread at once"); V_REACH("same"); } else { V_CHECK(n_added == 0 && n_next == 1 && next_sel == TAB[0], "from elsewhere through the loop"); v_tls = TAB[0]; next_cb(next_data, next_arg, next_got); V_REACH("other"); } V_CHECK(add_sel == TAB[0], "on the loop given"); timer_ok(due); }
void H_tmoval(void) { base(); loops(1); int c = V_IN(int, INT_MIN / 1000, INT_MAX / 1000), rw = V_IN(int, INT_MIN / 1000, INT_MAX / 1000); selector_manager_set_timeout(c, rw); int erw = rw > 0 ? rw * 1000 : 60000, ec = c > 0 ? c * 1000 : erw; V_CHECK(TAB[0]->timeout[KGL_LIST_RW] == erw && TAB[0]->timeout[KGL_LIST_CONNECT] == ec, "the timeouts given, sixty seconds if none"); V_REACH("set"); }
void H_tmo(void) { base(); loops(NN); int c = V_IN(int, INT_MIN / 1000, INT_MAX / 1000), rw = V_IN(int, INT_MIN / 1000, INT_MAX / 1000); selector_manager_set_timeout(c, rw); for (int i = 0; i < NN; i++) V_CHECK(TAB[i]->timeout[KGL_LIST_RW] == TAB[0]->timeout[KGL_LIST_RW] && TAB[i]->timeout[KGL_LIST_CONNECT] == TAB[0]->timeout[KGL_LIST_CONNECT], "on every loop"); V_REACH("set"); }
#ifndef N0
#define N0 1
#endif
void H_growfail(void) { base(); loops(1); kselector *s0 = TAB[0]; s0->thread_id = me; want_size = V_INT(); V_CHECK(!selector_manager_grow(want_size) && kgl_selector_count == 1 && newn == 0 && n_started == 0 && kgl_selectors == TAB && TAB[0] == s0 && tab_live, "without memory nothing changes"); V_REACH("refused"); }
void H_grow0(void) { base(); want_size = V_INT(); bool r = selector_manager_grow(want_size); V_CHECK(!r && kgl_selector_count == 0 && newn == 0 && n_started == 0 && kgl_selectors == NULL, "there is nothing to enlarge before the loops exist"); V_REACH("refused"); }
void H_grow(void) {
	base(); loops(N0); kselector *s0 = TAB[0]; s0->timeout[KGL_LIST_RW] = V_INT(); s0->timeout[KGL_LIST_CONNECT] = V_INT(); s0->thread_id = V_BOOL() ? me : (pthread_t)5; bool mine = s0->thread_id == me; int want = want_size = V_INT(); bool r = selector_manager_grow(want); int n = kgl_selector_count;
#if N0 == 1 && LOGN > 0
	V_CHECK(r == mine, "grows on the first loop's own thread"); if (!r) { V_CHECK(n == 1 && newn == 0 && n_started == 0 && kgl_selectors == TAB && TAB[0] == s0 && tab_live, "or nothing changes"); V_REACH("refused"); return; }
	V_CHECK(n == NN && newn == NN - 1 && n_started == NN - 1 && tab_bytes == NN * sizeof(kselector *) && kgl_selectors == GT, "to the rounded size"); V_CHECK(GT[0] == s0 && !started[0], "the first loop goes on");
	for (int i = 1; i < NN; i++) V_CHECK(GT[i] == MADE[i - 1] && GT[i]->sid == i && started[i] == 1 && !GT[i]->utm, "every new loop has its number and is started once"); V_CHECK(get_selector_by_index(NN + 1) == GT[1], "and can be had"); V_REACH("grown");
#else
	V_CHECK(!r && n == N0 && newn == 0 && n_started == 0 && kgl_selectors == TAB && TAB[0] == s0 && tab_live, "never to fewer, and only once"); V_REACH("refused");
#endif
}
static void hook_(void) {}
void H_start(void) { base(); loops(NN); bool t = V_BOOL(); selector_manager_start(hook_, t); V_CHECK(kgl_second_change_hook == hook_ && n_run == !t && n_started == NN - !t, "all loops run, the first in the caller's thread unless asked otherwise"); int i = V_IN(int, 0, 63); V_CHECK(started[i] == (i < NN && (i > 0 || t)), "each once"); V_REACH("started"); }
void H_thread(void) { base(); loops(1); cur = TAB[0]; kselector_thread(TAB[0]); V_CHECK(0, "a loop never ends by itself"); }
void H_step(void) { base(); loops(1); cur = v_tls = TAB[0]; n_enter = 1; expect_ret = true; klist_init(&TAB[0]->list[KGL_LIST_READY]); int r = kselector_step(0); V_CHECK(n_sel == 1 && n_check == 1 && r == last_ret, "one turn of the loop"); V_REACH("step"); }
void H_adjust(void) { base(); loops(NN); adj = V_IN(int, -100, 100); selector_manager_adjust_time(adj); V_CHECK(n_adj == NN, "as many as there are"); int i = V_IN(int, 0, 63); V_CHECK(adjusted[i] == (i < NN), "every loop once"); V_REACH("adjusted"); }
void H_adjtime(void) { base(); adj = V_IN(int64_t, -(1LL << 50), 1LL << 50); kgl_program_start_sec = 1700000000; selector_manager_adjust_time(adj); V_CHECK(kgl_program_start_sec == 1700000000 + adj / 1000, "the start time moves with the clock"); V_REACH("moved"); }
void H_close(void) { base(); loops(NN); for (int i = 0; i < NN; i++) TAB[i]->thread_id = V_BOOL() ? me : 0; selector_manager_close(); V_CHECK(n_destroyed == NN && !tab_live && !is_selector_manager_init() && get_selector_count() == 0, "all loops are gone, and no longer handed out"); int i = V_IN(int, 0, NN - 1); V_CHECK(destroyed[i] == (i < NN), "each destroyed once"); V_REACH("closed"); }
static int main_f(void *a, int n) { V_CHECK(a == arg_ && n == 42 && n_enter == 1, "the caller's function with its arguments"); n_mainf++; return main_ret; }
void H_main(void) { base(); in_main = true; main_ret = V_INT(); last_tmo = SELECTOR_TMO_MSEC; kselector *z = NULL; cur = z; int r = kasync_main(main_f, arg_, 42); V_CHECK(n_mainf == 1 && r == main_ret, "runs the function once and returns its result"); V_CHECK(n_enter == 1 && n_leave == 1 && n_destroyed == 1 && newn == 1 && MADE[0]->aysnc_main, "on a loop of its own that is left and destroyed"); V_REACH("main"); }
