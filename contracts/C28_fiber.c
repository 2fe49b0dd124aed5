/* Life of a fiber, on the real kfiber.c: creation, start, end, joining, exit callbacks, references, and the calls that suspend it. Conditions, timers, sockets and the context switch enter by contract. */
//@assume malloc succeeds; a condition's wait returns after it was signalled and then never blocks (C13); another thread's releases are atomic; stack sizes below 2^28
//@ob H_new kind=proof unwind=3 hunwind=18 replayable=0 fn=kfiber_new
//@ob H_create split="KIND:0,1,2,3,4" kind=proof unwind=3 hunwind=18 replayable=0 calls=kfiber_new:c_new fn=kfiber_create2,kfiber_create_sync,kfiber_start,kfiber_wakeup2,kfiber_create
//@ob H_run defs=-DRUN kind=proof unwind=3 hunwind=18 replayable=0 fn=fiber_start,kfiber_exit,kfiber_next_call,update_fcontext
//@ob H_exit kind=proof unwind=3 hunwind=18 replayable=0 fn=result_fiber_exit,kfiber_release,kfiber_destroy,kfiber_delete_context
//@ob H_join split="KIND:0,1,2" kind=proof unwind=3 hunwind=18 replayable=0 fn=kfiber_join,kfiber_try_join,kfiber_join2,kfiber_release
//@ob H_self split="KIND:0,1" kind=proof unwind=3 hunwind=18 replayable=0 fn=kfiber_exit_callback,kfiber_ref_self
//@ob H_call kind=proof unwind=3 hunwind=18 replayable=0 fn=kfiber_thread_call,_kfiber_worker_thread
//@ob H_sleep kind=proof unwind=3 hunwind=18 replayable=0 fn=kfiber_msleep,kfiber_result_callback
//@ob H_thread kind=proof unwind=3 hunwind=18 replayable=0 fn=kfiber_thread_init,kfiber_main
//@ob H_addr kind=proof unwind=3 hunwind=18 replayable=0 fn=kfiber_net_getaddr,kfiber_getaddr_callback
//@ob H_connect kind=proof unwind=3 hunwind=18 replayable=0 fn=kfiber_net_connect,kfiber_result_callback
//@ob H_accept kind=proof unwind=3 hunwind=18 replayable=0 fn=kfiber_net_accept
//@ob H_tls split="KIND:0,1" kind=proof unwind=3 hunwind=18 replayable=0 fn=kfiber_ssl_handshake,kfiber_ssl_shutdown,result_fiber_ssl_handshake,result_fiber_ssl_shutdown,kfiber_net_close,kfiber_net_shutdown
#ifndef KIND
#define KIND 0
#endif
#define V_FREE_TRACK
#include "v.h"
#include <pthread.h>
#include <netdb.h>
struct addrinfo;
static int v_getaddrinfo(const char *h, const char *s, const struct addrinfo *f, struct addrinfo **r), v_setspecific(pthread_key_t k, const void *p);
#define getaddrinfo v_getaddrinfo
#define pthread_setspecific v_setspecific
#ifdef V_CBMC
extern void *malloc(size_t);
#endif
#include "fibc_common.h"
static kfiber *T, *HANDLE, **ret_at; static int len_, n_init, init_kind, init_ar, n_next, n_wait, n_notice, n_rel, nst, want_ret; static kselector *next_sel; static KOPAQUE next_obj; static result_callback next_cb; static void *next_arg; static int next_got; static char start_arg_[1], data_[1], arg_[1];
static kfiber_cond *CO; static kfiber_cond_function CF; static bool ran_start, ended, env_ran; static void *handle_seen;
static kfiber_cond *mkc(int kind, bool ar) { n_init++; init_kind = kind; init_ar = ar; CO = V_NEWZ(kfiber_cond); CO->f = &CF; return CO; }
kfiber_cond *kfiber_cond_init(bool ar) { return mkc(0, ar); } kfiber_cond *kfiber_cond_init_ts(bool ar) { return mkc(1, ar); } kfiber_cond *kfiber_cond_init_sync(bool ar) { return mkc(2, ar); }
static void v_next(kselector *s, KOPAQUE o, result_callback cb, void *a, int g) { n_next++; next_sel = s; next_obj = o; next_cb = cb; next_arg = a; next_got = g; handle_seen = ret_at ? *ret_at : NULL; }
static int (*env)(kfiber *to);
static void env_switch(kfiber *to) { V_CHECK(!env_ran, "one switch"); env_ran = true; if (env) env(to); }
static void base(bool m) { fibc_base(m); kfiber_cond_function z = {0}; CF = z; T = NULL; HANDLE = NULL; ret_at = NULL; n_init = n_next = n_wait = n_notice = n_rel = nst = 0; CO = NULL; env = NULL; env_ran = ended = ran_start = false; kgl_selector_module.next = v_next; len_ = V_INT(); fiber_count = V_IN(int, 1, 1 << 20); }
static int fc0; static int startf(void *a, int n) { V_CHECK(a == start_arg_ && n == len_ && nst == 0, "the start function runs once with its argument and length"); nst++; want_ret = V_INT(); return want_ret; }
static size_t mk_sp, mk_size, mk_fn; static void *mk_p;
fcontext_t make_fcontext(void *sp, size_t size, void (*fn)(transfer_t)) { mk_p = sp; mk_size = size; V_CHECK(fn == fiber_start, "a new fiber begins at its start"); return (fcontext_t)sp; }
void H_new(void) {
	base(false); fc0 = fiber_count; int st = V_IN(int, 0, 1 << 28); kfiber *f = kfiber_new(startf, start_arg_, st);
	V_CHECK(f != NULL && f->start == startf && f->arg == start_arg_ && f->base.ref == 1 && f->base.st_flags == STF_FIBER && f->close_cond == NULL && f->base.queue.next == NULL && f->switch_from == NULL && f->wait_notice_flag == 0, "a paused fiber with one reference");
	V_CHECK(fiber_count == fc0 + 1, "counted"); V_CHECK((long)mk_size > 0 && (long)mk_size > st - 65536 && (char *)mk_p == (char *)(f + 1) + mk_size && V_RW_OK(f + 1, mk_size), "its stack is its own memory behind it, as large as asked for"); V_REACH("new");
}
kfiber *c_new(kfiber_start_func s, void *a, int st) { V_CHECK(s == startf && a == start_arg_, "the fiber asked for"); if (V_BOOL()) return NULL; T = V_NEWZ(kfiber); T->base.st_flags = STF_FIBER; T->base.ref = 1; T->start = s; T->arg = a; T->ctx = (fcontext_t)arg_; return T; }
static int env_new(kfiber *to) { V_CHECK(to == T && T->retval == len_ && T->switch_from == &SELF, "the new fiber runs with its length and comes back here"); handle_seen = ret_at ? *ret_at : NULL; ran_start = true; return 0; }
kselector *get_perfect_selector(void) { return &SEL2; }
void H_create(void) {
	base(false); bool h = V_BOOL(); ret_at = h ? &HANDLE : NULL; env = env_new; SEL2.thread_id = 5; int r; kselector *where;
#if KIND == 0
	where = &SEL; r = kfiber_create2(NULL, startf, start_arg_, len_, 0, ret_at);
#elif KIND == 1
	where = &SEL2; r = kfiber_create2(&SEL2, startf, start_arg_, len_, 0, ret_at);
#elif KIND == 2
	where = &SEL; r = kfiber_create2(&SEL, startf, start_arg_, len_, 0, ret_at);
#elif KIND == 3
	where = &SEL2; v_tls = NULL; r = kfiber_create_sync(startf, start_arg_, len_, 0, ret_at);
#else
	where = &SEL; h = true; ret_at = NULL; kfiber *nf = c_new(startf, start_arg_, 0); V_ASSUME(nf != NULL); r = kfiber_start(nf, len_);
#endif
	if (r != 0) { V_CHECK(r == -1 && T == NULL && nsw == 0 && n_next == 0 && HANDLE == NULL, "nothing is started if there is no fiber"); return; }
	V_REACH("created"); V_CHECK(T != NULL && T->base.selector == where, "it belongs to the loop asked for"); V_CHECK(T->base.ref == (h ? 2 : 1), "one reference for running, one for the handle");
	V_CHECK(h ? (n_init == 1 && T->close_cond == CO && !init_ar && init_kind == (KIND == 0 || KIND == 4 ? 0 : KIND == 3 ? 2 : 1)) : (n_init == 0 && T->close_cond == NULL), "a joinable fiber has an event that stays set, fit for whoever joins it");
	if (ret_at) V_CHECK(HANDLE == T && handle_seen == T, "the handle is there before the fiber runs");
	if (where == &SEL) V_CHECK(nsw == 1 && sw_to == T && n_next == 0 && ran_start, "it runs at once on its own thread"); else V_CHECK(nsw == 0 && n_next == 1 && next_sel == &SEL2 && next_cb == kfiber_result_callback && next_arg == T && next_got == len_, "it is started once, on its own loop");
}
static int env_end(kfiber *to) {
	V_CHECK(to == &MAIN && nst == 1, "it ends after its start function, going back to who resumed it"); kgl_list *q = SEL.list[KGL_LIST_READY].next;
	V_CHECK(q == &SELF.base.queue && q->next == &SEL.list[KGL_LIST_READY] && SEL.count == 1, "its end is queued once"); V_CHECK(SELF.cb == result_fiber_exit && SELF.arg == &SELF && SELF.retval == want_ret, "with its return value");
#ifdef RUN
	V_REACH("ended");
#endif
	V_ASSUME(0); return 0;
}
void H_run(void) { base(false); SELF.start = startf; SELF.arg = start_arg_; SELF.retval = len_; SELF.close_cond = V_BOOL() ? mkc(0, false) : NULL; env = env_end; transfer_t t; t.fctx = (fcontext_t)arg_; t.data = &MAIN; fiber_start(t); V_CHECK(0, "a fiber that has ended never goes on"); }
static int v_notice(kfiber_cond *c, int got) { V_CHECK(c == CO && got == len_ && T->retval == len_ && n_rel == 0 && v_nfreed == 0, "everyone waiting for the end learns the return value while the fiber still exists"); n_notice++; if (T->base.ref > 1 && V_BOOL()) T->base.ref--; return 0; }
static void v_release(kfiber_cond *c) { V_CHECK(c == CO && v_nfreed == 0, "its event goes before the fiber"); n_rel++; }
static kfiber *mkt(bool cond) { T = V_NEWZ(kfiber); T->base.st_flags = STF_FIBER; T->base.selector = &SEL; T->base.ref = V_IN(int, 1, 1000); T->close_cond = cond ? mkc(V_IN(int, 0, 2), false) : NULL; CF.notice = v_notice; CF.release = v_release; fc0 = fiber_count; return T; }
static void dropped(int ref0) {
	if (ref0 == 1) { V_REACH("last"); V_CHECK(v_times_freed(T) == 1 && v_nfreed == 1 && n_rel == (CO != NULL) && fiber_count == fc0 - 1, "the last reference releases fiber and event once"); }
	else { V_REACH("more"); V_CHECK(v_nfreed == 0 && n_rel == 0 && T->base.ref == ref0 - 1 && fiber_count == fc0, "a reference less"); }
}
static int ref1; static int v_notice1(kfiber_cond *c, int got) { int r = v_notice(c, got); ref1 = T->base.ref; return r; }
void H_exit(void) { base(true); mkt(V_BOOL()); CF.notice = v_notice1; ref1 = T->base.ref; kev_result r = result_fiber_exit(T, T, len_); V_CHECK(n_notice == (CO != NULL) && r == kev_ok, "announced once"); dropped(ref1); }
static int env_end_wait; static bool already;
static int v_wait(kfiber_cond *c, int *got) { V_CHECK(c == CO && v_nfreed == 0, "waits on this fiber's end"); n_wait++; T->retval = len_; if (T->base.ref > 1 && !already && V_BOOL()) T->base.ref--; ref1 = T->base.ref; if (got) *got = V_INT(); return 0; }
static int v_try(kfiber_cond *c, int *got) { V_CHECK(c == CO && v_nfreed == 0, "asks about this fiber's end"); n_wait++; if (CO->ev == 0) return -1; if (got) *got = V_INT(); return 0; }
static kev_result v_waitcb(kfiber_cond *c, KOPAQUE d, result_callback cb, void *a);
static int ncb, cbgot; static kev_result ecb(KOPAQUE d, void *a, int got) { V_CHECK(d == (KOPAQUE)data_ && a == arg_, "the caller's own data"); ncb++; cbgot = got; return kev_ok; }
static kev_result v_waitcb(kfiber_cond *c, KOPAQUE d, result_callback cb, void *a) { V_CHECK(c == CO && d == (KOPAQUE)data_ && cb == ecb && a == arg_ && v_nfreed == 0, "asks to be told of this fiber's end"); n_wait++; return kev_ok; }
void H_join(void) {
	base(KIND == 2); ncb = 0; mkt(true); CF.wait = v_wait; CF.try_wait = v_try; CF.wait_callback = v_waitcb; already = V_BOOL(); CO->ev = already; T->retval = len_; if (!already) V_ASSUME(T->base.ref > 1); int ref0 = ref1 = T->base.ref; int rv = 77; bool g = V_BOOL();
#if KIND == 0
	int r = kfiber_join(T, g ? &rv : NULL); V_CHECK(n_wait == 1 && r == 0 && V_IMPLIES(g, rv == len_), "joining waits for the end and gives the return value"); dropped(ref1);
#elif KIND == 1
	int r = kfiber_try_join(T, g ? &rv : NULL); V_CHECK(n_wait == 1, "asked once");
	if (already) { V_CHECK(r == 0 && V_IMPLIES(g, rv == len_), "a fiber that has ended is joined with its return value"); dropped(ref0); } else V_CHECK(r == -1 && T->base.ref == ref0 && v_nfreed == 0 && n_rel == 0 && rv == 77, "a fiber that still runs stays as it is");
#else
	kev_result r = kfiber_join2(T, (KOPAQUE)data_, ecb, arg_);
	if (already) { V_CHECK(n_wait + n_next == 1 && ncb == 0, "told once"); V_CHECK(n_next == 1 && next_sel == &SEL && next_obj == (KOPAQUE)data_ && next_cb == ecb && next_arg == arg_ && next_got == len_, "a fiber that has ended reports its return value"); dropped(ref0); }
	else { V_CHECK(n_wait == 1 && n_next == 0 && ncb == 0 && T->base.ref == ref0 - 1 && v_nfreed == 0, "told when it ends"); }
#endif
}
void H_self(void) {
	base(false); SELF.close_cond = V_BOOL() ? mkc(1, false) : NULL; n_init = 0; SELF.base.ref = V_IN(int, 1, 1000); int r0 = SELF.base.ref; bool had = SELF.close_cond != NULL; CF.wait_callback = v_waitcb; bool ts = V_BOOL();
#if KIND == 0
	int r = kfiber_exit_callback((KOPAQUE)data_, ecb, arg_); V_CHECK(n_wait == 1 && r == kev_ok && SELF.base.ref == r0, "the callback is registered once");
#else
	kfiber *f = kfiber_ref_self(ts); V_CHECK(f == &SELF && SELF.base.ref == r0 + 1 && n_wait == 0 && V_IMPLIES(!had, init_kind == ts), "a reference to itself, joinable from other threads if asked");
#endif
	V_CHECK(n_init == !had && SELF.close_cond == CO && (had || !init_ar), "its end is an event that stays set and reaches everyone"); V_REACH("done");
}
static void *tp_arg; static KTHREAD_FUNCTION (*tp_work)(void *); static bool tp_ok; static int n_tp, wret; static int wfun(void *a, int n) { V_CHECK(a == arg_ && n == len_ && nst == 0, "the function runs once with its argument and count"); nst++; return wret; }
bool kthread_pool_start(KTHREAD_FUNCTION (*work)(void *), void *a) { n_tp++; tp_work = work; tp_arg = a; return tp_ok; }
static int env_work(kfiber *to) { V_CHECK(to == &MAIN && n_tp == 1 && tp_ok, "the fiber waits only for a call that was started"); SEL.current = &MAIN; v_tls = NULL; tp_work(tp_arg); v_tls = &SEL; V_CHECK(n_next == 1 && next_sel == &SEL && next_cb == kfiber_result_callback && next_arg == &SELF && next_got == wret, "the result is sent to the fiber's loop once"); next_cb(next_obj, next_arg, next_got); return 0; }
void H_call(void) { base(false); env = env_work; tp_ok = V_BOOL(); wret = V_INT(); n_tp = 0; int ret = 77; bool g = V_BOOL(); int r = kfiber_thread_call(wfun, arg_, len_, g ? &ret : NULL); V_CHECK(n_tp == 1, "one call"); if (tp_ok) { V_CHECK(r == 0 && nst == 1 && V_IMPLIES(g, ret == wret) && SEL.current == &SELF, "the fiber goes on once the call is over, with its result"); V_REACH("called"); } else { V_CHECK(r == -1 && nst == 0 && nsw == 0 && ret == 77, "a call that could not be started fails at once"); V_REACH("refused"); } }
static int tm_r, tm_ms; int kselector_add_timer(kselector *s, result_callback cb, void *a, int ms, KOPAQUE d) { V_CHECK(s == &SEL && cb == kfiber_result_callback && a == &SELF && ms == tm_ms && d == NULL, "the timer asked for wakes this fiber"); n_wait++; return tm_r; }
static int env_timer(kfiber *to) { V_CHECK(to == &MAIN && n_wait == 1 && tm_r == 0, "sleeps only with a timer"); SEL.current = &MAIN; kfiber_result_callback(NULL, &SELF, 0); return 0; }
void H_sleep(void) { base(false); env = env_timer; tm_r = V_IN(int, -1, 0); tm_ms = V_INT(); int r = kfiber_msleep(tm_ms); V_CHECK(n_wait == 1 && r == tm_r && nsw == (tm_r == 0 ? 2 : 0) && SEL.current == &SELF, "sleeps exactly until its timer"); V_REACH("slept"); }
static int nset; static int v_setspecific(pthread_key_t k, const void *p) { V_CHECK(k == 7, "the main fiber's slot"); v_mainf = (void *)p; nset++; return 0; }
void H_thread(void) {
	base(true); nset = 0; bool had = V_BOOL(); kfiber *m = NULL; if (had) { m = V_NEWZ(kfiber); } v_mainf = m; SEL.current = NULL; int got = V_BOOL();
	kev_result r = kfiber_thread_init(NULL, NULL, got); V_CHECK(r == kev_ok, "ok");
	if (got == 1) { V_CHECK(V_IMPLIES(had, v_times_freed(m) == 1) && v_nfreed == had, "a thread that leaves its loop frees its main fiber once"); V_CHECK(kfiber_main() == NULL, "and forgets it"); V_REACH("left"); }
	else { kfiber *k = kfiber_main(); V_CHECK(k != NULL && k->base.selector == &SEL && V_IMPLIES(had, k == m) && V_IMPLIES(!had, SEL.current == k && k->switch_from == NULL), "a thread that enters its loop has its main fiber"); V_REACH("entered"); }
}
static struct addrinfo AI; static kgl_addr ADDR, *GOT; static bool numeric, found, sync_; static int nrefs, nfind; static kgl_addr_call_back find_cb; static void *find_arg;
static int v_getaddrinfo(const char *h, const char *s, const struct addrinfo *f, struct addrinfo **r) { V_CHECK(s == NULL && (f->ai_flags & AI_NUMERICHOST), "the loop is never blocked by a name lookup"); if (numeric) { *r = &AI; return 0; } return EAI_NONAME; }
kgl_addr *kgl_addr_new(struct addrinfo *a) { V_CHECK(a == &AI, "the address found"); return &ADDR; } void kgl_addr_refs(kgl_addr *a) { V_CHECK(a == &ADDR, "its address"); nrefs++; }
kev_result kgl_find_addr(const char *h, kgl_addr_type t, kgl_addr_call_back cb, void *a, kselector *s) { V_CHECK(h == data_ && t == kgl_addr_ip && s == &SEL, "the name asked for, answered on this loop"); nfind++; find_cb = cb; find_arg = a; if (sync_) { return cb(a, found ? &ADDR : NULL); } return kev_ok; }
static int env_addr(kfiber *to) { V_CHECK(to == &MAIN && nfind == 1 && !sync_, "waits for the lookup"); SEL.current = &MAIN; find_cb(find_arg, found ? &ADDR : NULL); return 0; }
void H_addr(void) { base(false); env = env_addr; numeric = V_BOOL(); found = V_BOOL(); sync_ = V_BOOL(); nrefs = nfind = 0; GOT = NULL; int r = kfiber_net_getaddr(data_, &GOT);
	if (numeric) { V_CHECK(r == 0 && GOT == &ADDR && nfind == 0 && nsw == 0, "a numeric address needs no lookup"); V_REACH("numeric"); } else { V_CHECK(nfind == 1 && r == (found ? 0 : -1) && GOT == (found ? &ADDR : NULL) && nrefs == found && SEL.current == &SELF && SELF.wait_notice_flag == 0, "the lookup's answer, referenced once for the caller"); V_REACH("looked up"); } }
static kconnection CN; static bool half; static int nhalf, nconn, cgot; static result_callback ccb; static void *carg;
bool kconnection_half_connect(kconnection *c, sockaddr_i *b, int t) { V_CHECK(c == &CN, "this connection"); nhalf++; return half; }
static void v_bind(kselector *s, kselectable *st) { st->base.selector = s; }
kev_result kconnection_connect(kconnection *c, result_callback cb, void *a) { V_CHECK(c == &CN && CN.st.base.selector == &SEL && nhalf == 1 && cb == kfiber_result_callback && a == &SELF, "the connection of this fiber, bound to this loop"); nconn++; ccb = cb; carg = a; if (sync_) return cb(CN.st.data, a, cgot); return kev_ok; }
static int env_conn(kfiber *to) { V_CHECK(to == &MAIN && nconn == 1 && !sync_, "waits for the connection"); SEL.current = &MAIN; ccb(CN.st.data, carg, cgot); return 0; }
void H_connect(void) { base(false); static kconnection z; CN = z; CN.st.data = (KOPAQUE)data_; kgl_selector_module.bind = v_bind; env = env_conn; half = V_BOOL(); sync_ = V_BOOL(); cgot = V_IN(int, -1, 0); nhalf = nconn = 0; int r = kfiber_net_connect(&CN, NULL, 0);
	if (!half) { V_CHECK(r == -1 && nconn == 0 && nsw == 0, "no socket, no waiting"); V_REACH("no socket"); } else { V_CHECK(nconn == 1 && r == cgot && SEL.current == &SELF && SELF.wait_notice_flag == 0, "the outcome of the connection"); V_REACH("connected"); } }
static kserver_selectable SS; static bool acc; static int nacc, nres; static kconnection *newc;
bool kserver_selectable_accept(kserver_selectable *s, void *a) { V_CHECK(s == &SS && a == &SELF, "this listener, for this fiber"); nacc++; return acc; }
kconnection *accept_result_new_connection(KOPAQUE d, int got) { V_CHECK(d == (KOPAQUE)&SS && got == cgot, "made of what was accepted"); nres++; return newc; }
static int env_acc(kfiber *to) { V_CHECK(to == &MAIN && nacc == 1 && acc, "waits for a connection"); SEL.current = &MAIN; kfiber_result_callback((KOPAQUE)&SS, &SELF, cgot); return 0; }
void H_accept(void) { base(false); static kconnection z; CN = z; static kserver_selectable zs; SS = zs; SS.st.data = (KOPAQUE)&SS; SS.st.base.selector = &SEL; kgl_selector_module.bind = v_bind; env = env_acc; acc = V_BOOL(); cgot = V_INT(); newc = V_BOOL() ? &CN : NULL; nacc = nres = 0; kconnection *c = (kconnection *)data_; int r = kfiber_net_accept(&SS, &c);
	if (!acc) { V_CHECK(r == -1 && nres == 0 && nsw == 0, "a listener that cannot accept fails at once"); V_REACH("refused"); } else { V_CHECK(r == 0 && nres == 1 && c == newc && V_IMPLIES(newc, CN.st.base.selector == &SEL) && SEL.current == &SELF, "exactly the accepted connection, bound to this loop"); V_REACH("accepted"); } }
/* TLS: kselectable_ssl_handshake/shutdown report through the callback, at once or later (C26_handshake.c) */
static kssl_session SL; static int nstep, ntry, ndes, nshut; static bool more;
static kev_result step(kselectable *st, result_callback cb, void *a) { V_CHECK(st == &CN.st && a == &SELF && SELF.arg == &CN.st, "this connection's session"); nstep++; if (sync_) return cb(CN.st.data, a, cgot); ccb = cb; carg = a; return kev_ok; }
kev_result kselectable_ssl_handshake(kselectable *st, result_callback cb, void *a) { V_CHECK(KIND == 0 && cb == result_fiber_ssl_handshake && SL.handshake, "a handshake"); return step(st, cb, a); }
kev_result kselectable_ssl_shutdown(kselectable *st, result_callback cb, void *a) { V_CHECK(KIND == 1 && cb == result_fiber_ssl_shutdown && SL.handshake && !SL.shutdown, "a shutdown of an established session"); return step(st, cb, a); }
static int env_tls(kfiber *to) { V_CHECK(to == &MAIN && nstep == 1 && !sync_, "waits for the session"); SEL.current = &MAIN; if (more) { int s = nstep; ccb(CN.st.data, carg, 0); V_CHECK(nstep == s + 1 && SELF.notice_flag == 0, "ready again, tried again"); } ccb(CN.st.data, carg, cgot); return 0; }
void kconnection_real_destroy(kconnection *c) { V_CHECK(c == &CN, "this connection"); ndes++; } int selectable_shutdown(kselectable *st) { nshut++; return 0; }
void H_tls(void) { base(false); static kconnection z; CN = z; static kssl_session zl; SL = zl; bool tls = V_BOOL(); CN.st.data = (KOPAQUE)data_; CN.st.base.selector = &SEL; env = env_tls; sync_ = V_BOOL(); more = V_BOOL(); cgot = V_BOOL() ? 1 : -1; nstep = ndes = nshut = 0;
#if KIND == 0
	CN.st.ssl = &SL; int r = kfiber_ssl_handshake(&CN); V_CHECK(r == (cgot == 1 ? 0 : -1) && nstep == (!sync_ && more ? 2 : 1) && SEL.current == &SELF && SELF.wait_notice_flag == 0, "the handshake's outcome"); V_REACH("done");
#else
	if (tls) CN.st.ssl = &SL; SL.handshake = V_BOOL(); SL.shutdown = V_BOOL(); bool err = V_BOOL(); if (err) KBIT_SET(CN.st.base.st_flags, STF_ERR); bool polite = tls && SL.handshake && !SL.shutdown && !err; bool was = SL.shutdown, hs = SL.handshake; int how = V_IN(int, 0, 2);
	if (how == 0) kfiber_ssl_shutdown(&CN); else if (how == 1) kfiber_net_close(&CN); else kfiber_net_shutdown(&CN);
	V_CHECK(nstep == (polite ? (!sync_ && more ? 2 : 1) : 0) && V_IMPLIES(tls && hs, SL.shutdown) && SEL.current == &SELF && SELF.wait_notice_flag == 0, "an established session without error is shut down once"); V_CHECK(ndes == (how == 1) && nshut == (how == 2), "the connection is given up once if closed"); V_REACH("done");
#endif
}
