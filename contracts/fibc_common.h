/* The real kfiber.c: one running fiber SELF and the thread's main fiber; the context switch itself is a stub (C40). */
#include "v.h"
#include <pthread.h>
struct kselector_s;
static struct kselector_s *v_tls; static void *v_mainf;
static void *v_tls_get(pthread_key_t k) { return k == 7 ? v_mainf : (void *)v_tls; }
#define pthread_getspecific v_tls_get
static pthread_t v_self(void) { return (pthread_t)77; }
#define pthread_self v_self
#include "kselector.h"
#include "kselectable.h"
#include "kmalloc.h"
#ifdef V_FREE_TRACK
#undef xfree
#define xfree v_free
#endif
#include "kfiber_internal.h"
#include "kfiber_sync.h"
#include "kfiber.h"
#include "kasync_worker.h"
#include "kselector_manager.h"
#include "kaddr.h"
#include "klog.h"
#include "kthread.h"
#include "kudp.h"
#include "v_memset.h"
#include "src/kfiber.c"
pthread_key_t kgl_selector_key; kselector_module kgl_selector_module;
static kselector SEL, SEL2; static kfiber SELF, MAIN; static int nsw; static void *sw_to, *sw_from;
static bool in_env; /* the main fiber runs: a callback resumes SELF */
static void env_switch(kfiber *to);
transfer_t jump_fcontext(fcontext_t const to, void *vp) {
	kfiber *t = SEL.current; nsw++; sw_to = t; sw_from = vp;
	V_CHECK(t != (kfiber *)vp && t->ctx == to, "control goes to the fiber that becomes current");
	transfer_t r; r.fctx = (fcontext_t)&MAIN; r.data = t;
	if (in_env) { V_CHECK(t == &SELF, "the environment resumes the fiber that waits"); SEL.current = (kfiber *)vp; return r; }
	in_env = true; env_switch(t); in_env = false; SEL.current = (kfiber *)vp; return r;
}
static void fibc_base(bool in_main) {
	kselector zs = {0}; SEL = SEL2 = zs; kfiber zf = {0}; SELF = MAIN = zf; v_tls = &SEL; v_mainf = &MAIN; kgl_main_fiber_key = 7; kgl_selector_key = 1; SEL.thread_id = SEL2.thread_id = pthread_self();
	SEL.current = in_main ? &MAIN : &SELF; MAIN.base.selector = SELF.base.selector = &SEL; SELF.switch_from = &MAIN; SELF.base.st_flags = STF_FIBER; SELF.base.ref = 1;
	for (int i = 0; i < KGL_LIST_COUNT; i++) { klist_init(&SEL.list[i]); klist_init(&SEL2.list[i]); }
	nsw = 0; v_nfreed = 0; in_env = false;
}
