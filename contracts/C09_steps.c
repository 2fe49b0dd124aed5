/* Timers: inductive step proofs of the loops that collect, fire and shift timers (any number of timers). */
//@assume composition (paper): collecting the due nodes first-to-last and then firing each collected node's chain front to back fires every due timer once, in deadline order
//@ob S_collect kind=proof defs=-DWHICH=L_COLLECT unwind=4 hunwind=18 replayable=0 hook=check_collect,check_fire,check_chain fallback=H_fire never=next_adjust_time,cb fn=kselector_check_timeout
//@ob S_fire kind=proof defs=-DWHICH=L_FIRE unwind=4 hunwind=18 replayable=0 hook=check_collect,check_fire,check_chain fallback=H_fire never=next_adjust_time,cb fn=kselector_check_timeout
//@ob S_chain kind=proof defs=-DWHICH=L_CHAIN unwind=4 hunwind=18 replayable=0 hook=check_collect,check_fire,check_chain fallback=H_fire never=next_adjust_time fn=kselector_check_timeout
//@ob S_adjt kind=proof defs=-DWHICH=L_ADJT unwind=4 hunwind=18 replayable=0 hook=adjust_timers fallback=H_adjust fn=kselector_adjust_time
//@ob S_adjl kind=proof defs=-DWHICH=L_ADJL unwind=4 hunwind=18 replayable=0 hook=adjust_list fallback=H_adjust fn=kselector_adjust_time
//@ob H_adj_remote kind=proof defs=-DWHICH=0 unwind=4 hunwind=18 replayable=0 fn=kselector_adjust_time,next_adjust_time
#include "sel_steps.h"
kev_result selectable_read_event(kselectable *s) { return kev_ok; }
kev_result selectable_write_event(kselectable *s) { return kev_ok; }
#include "src/kselector.c"
static int64_t d0, d1; static bool due_;
static int fired; static char A_, D_; static bool bad; static kgl_block_queue *Q, *Qn; static int64_t diff;
static kev_result cb(KOPAQUE d, void *a, int got) { fired++; if (d != &D_ || a != &A_ || got != 0) bad = true; if (v_times_freed(Q)) bad = true; return kev_ok; }
static int hd_collect(kselector *s, struct krb_node **block, struct krb_node **last) {
	if (WHICH != L_COLLECT) { *block = X; return 1; }  /* anything may have been collected */
	if (heads++ == 0) {
		V_CHECK(*block == NULL && *last == NULL, "collection starts with nothing collected");
		if (V_BOOL()) { F = mkn(0); L = V_BOOL() ? F : mkn(0); if (L != F) F->rb_right = L; L->rb_right = NULL; *block = F; *last = L; }
		return 0;
	}
	STEP_REACH(L_COLLECT, "a node was collected");
	V_CHECK(due_, "only due timers are collected");
	V_CHECK(erased == 1 && S.block_first == Y, "it left the tree and its successor is now the first");
	V_CHECK(*last == X && X->rb_right == NULL, "it is the last collected");
	V_CHECK(*block == (F ? F : X) && V_IMPLIES(F && L != F, F->rb_right == L) && V_IMPLIES(F, L->rb_right == X), "appended after the earlier ones");
	V_CHECK(TM(X)->active_msec == d0, "its deadline stays");
	V_ASSUME(0); return 1;
}
void S_collect(void) {
	base(); d0 = V_IN(int64_t, -T61, T61); X = mkn(d0); Y = V_BOOL() ? mkn(V_IN(int64_t, -T61, T61)) : NULL;
	S.block.rb_node = X; S.block_first = X; due_ = d0 <= kgl_current_msec;
	kselector_check_timeout(&S, 0);
	V_REACH("collection ends");
	V_CHECK(!due_ || !Y, "collection ends only at a timer that is not due, or after the last");
	V_CHECK(V_IMPLIES(!due_, S.block_first == X && !erased), "a timer that is not due stays the first pending one");
}
static int fheads;
static int hd_fire(struct krb_node **block) {
	if (WHICH == L_COLLECT) {
		V_CHECK(due_ || *block == NULL || *block == F, "nothing that is not due is collected");
		if (due_) V_CHECK(erased == 1 && !Y && S.block_first == NULL && *block == (F ? F : X) && V_IMPLIES(F && L != F, F->rb_right == L) && V_IMPLIES(F, L->rb_right == X) && X->rb_right == NULL, "the last pending timer is collected like the others");
		return 1;
	}
	if (fheads++ == 0) { V_CHECK(*block == X, "firing starts with the first collected node"); return 0; }
	if (WHICH == L_CHAIN) return 1;
	STEP_REACH(L_FIRE, "a node was fired");
	V_CHECK(v_times_freed(X) == 1 && v_nfreed == 1, "the node is released once, after its chain");
	V_CHECK(*block == Y, "firing goes on with the node collected next");
	V_ASSUME(0); return 1;
}
static int hd_chain(kgl_block_queue **rq) {
	if (heads++ == 0) { V_CHECK(*rq == Q, "firing starts with the first timer of the chain"); return 0; }
	STEP_REACH(L_CHAIN, "a timer fired");
	V_CHECK(fired == 1 && !bad, "the timer is called exactly once, with its data, its argument and result 0, before it is released");
	V_CHECK(v_times_freed(Q) == 1 && v_nfreed == 1, "then released, once");
	V_CHECK(*rq == Qn, "the chain goes on with the next timer");
	V_ASSUME(0); return 1;
}
static void fire_state(void) {
	base(); fheads = fired = 0; bad = false; X = mkn(0); Y = V_BOOL() ? mkn(0) : NULL; X->rb_right = Y;
	Q = TM(X); Q->func = cb; Q->arg = &A_; Q->data = &D_; Qn = V_BOOL() ? V_NEWZ(kgl_block_queue) : NULL; Q->next = Qn;
}
void S_fire(void) {
	fire_state(); S.block_first = mkn(0);
	kselector_check_timeout(&S, 0);
	V_REACH("round ends");
}
void S_chain(void) {
	fire_state(); S.block_first = mkn(0); S.block.rb_node = S.block_first;
	kselector_check_timeout(&S, 0);
	V_REACH("chain ends");
}
static struct krb_node *cur;
static int hd_adjt(struct krb_node **node) {
	if (heads++ == 0) { V_CHECK(*node == X, "shifting starts with the first timer"); return 0; }
	STEP_REACH(L_ADJT, "a deadline was shifted");
	V_CHECK(TM(X)->active_msec == d0 + diff, "the deadline moves by the clock change");
	V_CHECK(*node == Y && V_IMPLIES(Y, TM(Y)->active_msec == d1), "then comes the next one");
	V_ASSUME(0); return 1;
}
static kselectable st, st2;
static int hd_adjl(int i, kgl_list **pos) {
	int l = shutfd; /* which list holds the connections */
	if (i != l) { V_CHECK(0, "an empty list has nothing to shift"); return 1; }
	if (heads++ == 0) { V_CHECK(*pos == S.list[l].next, "shifting starts at the head"); *pos = &st.base.queue; return 0; }
	STEP_REACH(L_ADJL, "a connection was shifted");
	V_CHECK(st.active_msec == d0 + diff && st2.active_msec == d1, "its last activity moves by the clock change, once");
	V_CHECK(*pos == st.base.queue.next, "then comes the next one");
	V_ASSUME(0); return 1;
}
void S_adjt(void) {
	base(); diff = V_IN(int64_t, -T61, T61); d0 = V_IN(int64_t, -T61, T61); d1 = V_IN(int64_t, -T61, T61); X = mkn(d0); Y = V_BOOL() ? mkn(d1) : NULL;
	S.block.rb_node = X; S.block_first = X;
	kselector_adjust_time(&S, diff);
	V_REACH("shifting ends");
	V_CHECK(heads == 2 || !Y, "shifting ends only after the last timer");
}
void S_adjl(void) {
	base(); diff = V_IN(int64_t, -T61, T61); d0 = V_IN(int64_t, -T61, T61); d1 = V_IN(int64_t, -T61, T61); int l = shutfd = V_IN(int, 0, KGL_LIST_RW);
	/* list: ... st, st2 ... (st anywhere) */
	kselectable z = {0}; st = st2 = z; st.base.selector = st2.base.selector = &S; st.active_msec = d0; st2.active_msec = d1;
	kgl_list *h = &S.list[l]; bool lastone = V_BOOL(); static kgl_list front; bool hasfront = V_BOOL();
	h->next = hasfront ? &front : &st.base.queue; front.prev = h; front.next = &st.base.queue; st.base.queue.prev = hasfront ? &front : h;
	st.base.queue.next = lastone ? h : &st2.base.queue; st2.base.queue.prev = &st.base.queue; st2.base.queue.next = h; h->prev = lastone ? &st.base.queue : &st2.base.queue;
	kselector_adjust_time(&S, diff);
	V_REACH("shifting ends");
	V_CHECK(heads == 1 && lastone, "shifting ends only after the last connection");
}
/* called from another thread: handed over to the selector's own thread, which does it once */
static result_callback nres; static void *narg; static int nnext, ngot; static kselector *nsel;
static void mnext(kselector *s, KOPAQUE data, result_callback result, void *arg, int got) { nnext++; nsel = s; nres = result; narg = arg; ngot = got; }
void H_adj_remote(void) {
	base(); diff = V_I64(); v_other_thread = 1; nnext = 0; kgl_selector_module.next = mnext;
	kselector_adjust_time(&S, diff);
	V_REACH("handed over");
	V_CHECK(nnext == 1 && nsel == &S && nres == next_adjust_time, "the shift is handed to the selector's own thread once");
	V_CHECK(*(int64_t *)narg == diff, "with the size of the step");
	v_other_thread = 0; void *a = narg;
	nres(NULL, narg, ngot);
	V_CHECK(nnext == 1 && v_times_freed(a) == 1, "which performs it and releases the parameter once");
}
