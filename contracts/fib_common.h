/* Environment of one fiber of a selector thread: a locked structure changes arbitrarily (within its invariant) whenever
 * its lock is not held, switching away lets the environment run, wakeups are recorded. */
#include "v.h"
#include <pthread.h>
struct kselector_s;
static struct kselector_s *v_tls;
static void *v_tls_get(pthread_key_t k) { return v_tls; }
static pthread_mutex_t *held; static int nlock;
static void env_lock(void), env_unlock(void), env_wait(void), env_wake(void);
static int v_lock(pthread_mutex_t *m) { V_CHECK(held == NULL, "a lock is never taken while one is held"); held = m; nlock++; env_lock(); return 0; }
static int v_unlock(pthread_mutex_t *m) { V_CHECK(held == m, "only the lock held is released"); env_unlock(); held = NULL; return 0; }
static int ninit, ndestroy;
static int v_mutex_init(pthread_mutex_t *m, const void *a) { ninit++; return 0; }
static int v_mutex_destroy(pthread_mutex_t *m) { V_CHECK(held == NULL, "a lock is destroyed free"); ndestroy++; return 0; }
#define pthread_getspecific v_tls_get
#define pthread_mutex_lock v_lock
#define pthread_mutex_unlock v_unlock
#define pthread_mutex_init v_mutex_init
#define pthread_mutex_destroy v_mutex_destroy
#include "kselector.h"
#include "kselectable.h"
#include "kmalloc.h"
#ifdef V_FREE_TRACK
#undef xfree
#define xfree v_free
#define free v_free
#endif
#include "kfiber_internal.h"
#include "kfiber_sync.h"
#include "kfiber.h"
#include "v_memset.h"
pthread_key_t kgl_selector_key; kselector_module kgl_selector_module;
static kselector SEL, SEL2; static kfiber SELF, MAIN; static char OBJ[4];
/* wakeups: w_fiber = resumed directly on this thread, w_next = posted to a selector */
static int nwake; static void *w_who[3]; static void *w_obj[3]; static int w_got[3]; static kselector *w_sel[3]; static void *w_cb[3];
static void record(void *who, void *obj, int got, kselector *s, void *cb) {
	V_CHECK(held == NULL, "nobody is woken while a lock is held");
	if (nwake < 3) { w_who[nwake] = who; w_obj[nwake] = obj; w_got[nwake] = got; w_sel[nwake] = s; w_cb[nwake] = cb; }
	nwake++; env_wake();
}
static int nwait; static int wait_ret;
static void v_next(kselector *s, KOPAQUE d, result_callback cb, void *arg, int got) { record(arg, d, got, s, (void *)cb); }
kev_result kfiber_result_callback(KOPAQUE d, void *a, int got) { return kev_ok; }
void __kfiber_switch(kfiber *from, kfiber *to) {
	V_CHECK(held == NULL, "a fiber is never switched while a lock is held");
	V_CHECK(from == SEL.current && from == &SELF, "switching is done by the running fiber");
	if (to == &MAIN) {
		V_CHECK(SELF.wait_flag == 1, "it waits"); nwait++; env_wait();
		wait_ret = V_INT(); SELF.retval = wait_ret; SELF.notice_flag = 1;
	} else {
		V_CHECK(to->base.selector == &SEL && to->switch_from == &SELF && to->notice_flag, "a fiber is resumed on its own thread");
		record(to, to->wait_code, to->retval, NULL, NULL);
	}
}
bool kfiber_is_main(void) { return SEL.current == &MAIN; }
static void fib_base(bool in_main) {
	kselector zs = {0}; SEL = SEL2 = zs; kfiber zf = {0}; SELF = MAIN = zf; v_tls = &SEL;
	SEL.current = in_main ? &MAIN : &SELF; MAIN.base.selector = SELF.base.selector = &SEL; SELF.switch_from = &MAIN; SELF.base.st_flags = STF_FIBER;
	kgl_selector_module.next = v_next; held = NULL; nlock = ninit = ndestroy = nwake = nwait = 0; v_nfreed = 0;
}
/* a waiter of any kind: 0 fiber on this thread, 1 fiber on another thread, 2 callback */
struct waiter { int kind; kfiber f; kfiber_event_waiter *e; kgl_base_selectable *b; void *obj; };
static kev_result ev_cb(KOPAQUE d, void *a, int got) { return kev_ok; }
static void mk_waiter(struct waiter *w, int kinds, void *obj) {
	w->kind = V_IN(int, 0, kinds - 1); w->obj = obj; w->e = NULL;
	if (w->kind < 2) { kfiber z = {0}; w->f = z; w->b = &w->f.base; w->b->st_flags = STF_FIBER; w->b->selector = w->kind ? &SEL2 : &SEL; w->f.wait_flag = 1; w->f.wait_code = obj; w->f.switch_from = &MAIN; }
	else { kfiber_event_waiter *e = V_NEWZ(kfiber_event_waiter); w->e = e; w->b = &e->base; w->b->selector = V_BOOL() ? &SEL : &SEL2; e->result = ev_cb; e->arg = w; }
	w->b->wait_obj = obj; w->b->next = NULL;
}
/* wakeup number i was the one waiter w is owed */
static kselector *ev_sel; 
static bool woke(int i, struct waiter *w, int got) {
	if (w_obj[i] != w->obj || w_got[i] != got) return false;
	if (w->kind == 0) return w_who[i] == (void *)&w->f && w_sel[i] == NULL;
	if (w->kind == 1) return w_who[i] == (void *)&w->f && w_sel[i] == &SEL2 && w_cb[i] == (void *)kfiber_result_callback;
	return w_who[i] == (void *)w && w_cb[i] == (void *)ev_cb && (w_sel[i] == &SEL || w_sel[i] == &SEL2);
}
/* a waiter that was just queued by this call */
static bool queued_self(kgl_base_selectable *h, kgl_base_selectable *rest) { return h == &SELF.base && h->next == rest && h->st_flags == STF_FIBER; }
static bool queued_ev(kgl_base_selectable *h, kgl_base_selectable *rest, void *data, result_callback cb, void *arg) {
	return h && h->next == rest && h->st_flags == 0 && h->selector == &SEL && h->wait_obj == data && ((kfiber_event_waiter *)h)->result == cb && ((kfiber_event_waiter *)h)->arg == arg;
}
