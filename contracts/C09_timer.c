/* One-shot timers of a selector.
 * The timer tree is used through its own contract (decided by C07): in these harnesses rb_next/rb_first/rb_erase/
 * rb_insert_color act on the ordered sequence of nodes the tree represents, and rb_erase leaves the links of the erased
 * node arbitrary. */
//@assume the red-black tree functions meet their contracts (C07)
//@assume xmalloc succeeds; time values below 2^61 milliseconds
//@ob S_insert kind=proof unwind=3 hunwind=18 replayable=0 hook=kgl_insert_block_queue defs=-DSTEP fallback=H_insert fn=kgl_insert_block_queue
//@ob H_insert tier=fallback kind=bounded bound="<=3 pending deadlines" unwind=6 hunwind=18 fn=kgl_insert_block_queue
//@ob H_add kind=proof unwind=3 hunwind=18 calls=kgl_insert_block_queue:c_insert fn=kselector_add_timer,kselector_add_block_queue
//@ob H_fire kind=bounded bound="<=3 pending deadlines, <=2 timers each" unwind=5 hunwind=18 fn=kselector_check_timeout
//@ob H_fire_add kind=bounded bound="<=2 pending deadlines, one timer added by a callback" defs="-DNT=3 -DCHN=1" unwind=4 hunwind=18 calls=kgl_insert_block_queue:c_insert fn=kselector_check_timeout,kselector_add_timer
//@ob H_adjust tier=fallback kind=bounded bound="<=3 pending deadlines, <=2 connections per timeout list" unwind=5 hunwind=18 fn=kselector_adjust_time
//@ob H_clock kind=proof unwind=3 hunwind=18 fn=kselector_update_time
#include "sel_common.h"
static int head_fn(struct krb_node ***n, struct krb_node **parent, bool *is_first);
#define KGL_LOOP_CONTRACT_kgl_insert_block_queue if (head_fn(&n, &parent, is_first)) break; else
static int64_t adj_diff; static int adj_calls, hook_calls;
void selector_manager_adjust_time(int64_t d) { adj_diff = d; adj_calls++; }
int ksocket_shutdown(SOCKET fd, int how) { return 0; }
#include "src/kselector.c"
#define T61 (1LL << 61)
#ifndef NT
#define NT 4
#endif
#ifndef CHN
#define CHN 2
#endif
static kselector S; static struct krb_node *N[NT]; static kgl_block_queue *B[NT][2]; static int64_t due[NT]; static bool in_tree[NT];
static int nn;
/* the sequence the tree represents: N[0..nn) by strictly increasing deadline, N[NT-1] is a node added by a callback */
static int idx(const struct krb_node *x) { for (int i = 0; i < NT; i++) if (N[i] == x) return i; V_CHECK(0, "a tree node"); V_ASSUME(0); return 0; }
static struct krb_node *succ(int64_t d, bool has) {
	int b = -1;
	for (int i = 0; i < NT; i++) if (N[i] && in_tree[i] && (!has || due[i] > d) && (b < 0 || due[i] < due[b])) b = i;
	return b < 0 ? NULL : N[b];
}
struct krb_node *rb_next(const struct krb_node *x) { int i = idx(x); V_CHECK(in_tree[i], "rb_next is asked about a node in the tree"); return succ(due[i], true); }
struct krb_node *rb_first(const struct krb_root *r) { return succ(0, false); }
void rb_erase(struct krb_node *x, struct krb_root *r) {
	int i = idx(x); V_CHECK(in_tree[i], "a node is taken out of the tree once"); in_tree[i] = false;
	V_CHECK(r == &S.block, "from its own tree");
	x->rb_left = V_BOOL() ? x : NULL; x->rb_right = V_BOOL() ? x : NULL; x->rb_parent_color = V_IN(uintptr_t, 0, 3);
}
static int ncallins;
struct krb_node *c_insert(struct krb_root *root, kgl_block_queue *brq, bool *is_first) {
	ncallins++;
	V_CHECK(*is_first, "insertion starts with first = true");
	for (int i = 0; i < NT; i++) if (N[i] && in_tree[i]) {
		if (due[i] == brq->active_msec) { brq->next = (kgl_block_queue *)N[i]->data; N[i]->data = brq; *is_first = false; return N[i]; }
		if (due[i] < brq->active_msec) *is_first = false;
	}
	V_CHECK(N[NT - 1] == NULL, "harness: room for one added timer");
	struct krb_node *x = (struct krb_node *)v_alloc(sizeof *x); x->rb_left = x->rb_right = NULL; x->rb_parent_color = 0;
	brq->next = NULL; x->data = brq; N[NT - 1] = x; due[NT - 1] = brq->active_msec; in_tree[NT - 1] = true;
	return x;
}
static char argv_[NT][2], datav[NT][2]; static int fired[NT][2]; static int64_t last_due; static bool bad_order, bad_arg, bad_got, early;
static bool add_in_cb; static int added_ms; static int addcb; static char aarg, adata; static int afired;
static kev_result cb_added(KOPAQUE d, void *a, int got) { afired++; return kev_ok; }
static kev_result cb(KOPAQUE d, void *a, int got) {
	for (int i = 0; i < NT - 1; i++) for (int j = 0; j < 2; j++) if (d == &datav[i][j]) {
		if (a != &argv_[i][j]) bad_arg = true;
		fired[i][j]++;
		if (due[i] < last_due) bad_order = true;
		if (due[i] > kgl_current_msec) early = true;
		last_due = due[i];
		if (add_in_cb && addcb == i * 2 + j) { kselector_add_timer(&S, cb_added, &aarg, added_ms, &adata); }
	}
	if (got != 0) bad_got = true;
	return kev_ok;
}
static kselectable *st[2][2]; static int64_t st_t[2][2]; static int nst[2];
static void build(bool lists) {
	memset(&S, 0, sizeof S); S.thread_id = 1; v_tls = &S; v_other_thread = 0;
	for (int i = 0; i < KGL_LIST_COUNT; i++) { klist_init(&S.list[i]); S.timeout[i] = 60000; }
	klist_init(&S.tick);
	kgl_current_msec = V_IN(int64_t, -T61, T61); last_due = -4 * T61; bad_order = bad_arg = bad_got = early = false; ncallins = 0; afired = 0; add_in_cb = false;
	nn = V_IN(int, 0, NT - 1);
	for (int i = 0; i < NT; i++) { N[i] = NULL; in_tree[i] = false; for (int j = 0; j < 2; j++) { B[i][j] = NULL; fired[i][j] = 0; } }
	for (int i = 0; i < NT - 1; i++) {
		if (i >= nn) break;
		N[i] = (struct krb_node *)v_alloc(sizeof(struct krb_node)); in_tree[i] = true;
		N[i]->rb_left = N[i]->rb_right = NULL; N[i]->rb_parent_color = 0;
		due[i] = V_IN(int64_t, -T61, T61); V_ASSUME(i == 0 || due[i] > due[i - 1]);
		int chain = V_IN(int, 1, CHN);
		for (int j = 0; j < 2; j++) if (j < chain) {
			B[i][j] = (kgl_block_queue *)v_alloc(sizeof(kgl_block_queue));
			B[i][j]->func = cb; B[i][j]->arg = &argv_[i][j]; B[i][j]->data = &datav[i][j]; B[i][j]->next = NULL;
			B[i][j]->active_msec = j == 0 ? due[i] : V_IN(int64_t, -T61, T61);
			if (j) B[i][0]->next = B[i][1];
		}
		N[i]->data = B[i][0];
	}
	S.block.rb_node = nn ? N[0] : NULL; S.block_first = nn ? N[0] : NULL;
	for (int l = 0; l < 2; l++) {
		nst[l] = lists ? V_IN(int, 0, 2) : 0;
		for (int i = 0; i < 2; i++) if (i < nst[l]) {
			st[l][i] = (kselectable *)v_alloc(sizeof(kselectable)); memset(st[l][i], 0, sizeof(kselectable));
			st[l][i]->base.selector = &S; st_t[l][i] = st[l][i]->active_msec = V_IN(int64_t, -T61, T61);
			klist_append(&S.list[l], &st[l][i]->base.queue);
		}
	}
}
static void fire(bool with_add) {
	build(false);
	add_in_cb = with_add && V_BOOL(); addcb = V_IN(int, 0, 2 * NT - 1); added_ms = V_IN(int, 0, INT_MAX); v_nfreed = 0;
	int64_t due0[NT]; int ndue = 0; for (int i = 0; i < NT - 1; i++) due0[i] = due[i];
	int64_t now = kgl_current_msec;
	kselector_check_timeout(&S, 0);
	V_REACH("fired");
	V_CHECK(!bad_order, "timers fire in deadline order");
	V_CHECK(!early, "no timer fires before its deadline");
	V_CHECK(!bad_arg && !bad_got, "a timer gets its own argument and result 0");
	bool did_add = false;
	for (int i = 0; i < NT - 1; i++) if (i < nn) {
		bool d = due0[i] <= now;
		for (int j = 0; j < 2; j++) if (B[i][j]) {
			V_CHECK(fired[i][j] == (d ? 1 : 0), "a due timer fires exactly once, one that is not due not at all");
			V_CHECK(v_times_freed(B[i][j]) == (d ? 1 : 0), "a fired timer is released once, a pending one kept");
			if (d && add_in_cb && addcb == i * 2 + j) did_add = true;
		}
		V_CHECK(in_tree[i] == !d, "exactly the due timers leave the tree");
		if (!d) V_CHECK(N[i]->data == B[i][0] || (add_in_cb && ((kgl_block_queue *)N[i]->data)->next == B[i][0]), "pending timers stay chained");
		V_CHECK(v_times_freed(N[i]) == (d ? 1 : 0), "a fired deadline releases its node once");
	}
	V_CHECK(did_add == (ncallins == 1), "a callback can add a timer");
	V_CHECK(afired == 0, "a timer added by a callback waits for the next round");
	V_CHECK(S.block_first == succ(0, false), "the first pending deadline is known");
}
void H_fire(void) { fire(false); }
void H_fire_add(void) { fire(true); }
void H_adjust(void) {
	build(true);
	int64_t d = V_IN(int64_t, -T61, T61);
	kselector_adjust_time(&S, d);
	V_REACH("adjusted");
	for (int i = 0; i < NT - 1; i++) if (i < nn)
		V_CHECK(((kgl_block_queue *)N[i]->data)->active_msec == due[i] + d, "every pending deadline moves by the clock change");
	for (int l = 0; l < 2; l++) for (int i = 0; i < 2; i++) if (i < nst[l])
		V_CHECK(st[l][i]->active_msec == st_t[l][i] + d, "every connection's last activity moves by the clock change");
}
static kev_result user_cb(KOPAQUE d, void *a, int got) { return kev_ok; }
void H_add(void) {
	build(false);
	int ms = V_IN(int, 0, INT_MAX); int64_t now = kgl_current_msec; char a, d; bool merged = false;
	struct krb_node *f0 = S.block_first;
	int rc = kselector_add_timer(&S, user_cb, &a, ms, &d);
	V_REACH("added");
	V_CHECK(rc == 0, "adding a timer succeeds");
	V_CHECK(ncallins == 1, "the timer is queued once");
	struct krb_node *x = NULL; int64_t want = now + ms;
	for (int i = 0; i < NT; i++) if (N[i] && in_tree[i] && due[i] == want) x = N[i];
	V_CHECK(x != NULL, "at the deadline now + delay");
	if (x) {
		kgl_block_queue *q = (kgl_block_queue *)x->data;
		V_CHECK(q->func == user_cb && q->arg == &a && q->data == &d && q->active_msec == want, "with its callback, argument and data");
	}
	V_CHECK(S.block_first == succ(0, false), "the first pending deadline is known");
}
void kgl_hook(void) { hook_calls++; }
void H_clock(void) {
	build(false);
	int64_t s0 = V_IN(int64_t, 0, 1LL << 40), ms0 = V_IN(int64_t, 0, 999);
	bool never = V_BOOL();
	kgl_current_sec = never ? 0 : s0; kgl_current_msec = never ? 0 : s0 * 1000 + ms0;
	v_now.tv_sec = V_IN(int64_t, 0, 1LL << 40); v_now.tv_usec = V_IN(int, 0, 999999);
	int64_t before = kgl_current_msec, secb = kgl_current_sec; adj_calls = hook_calls = 0; bool hk = V_BOOL();
	kgl_second_change_hook = hk ? kgl_hook : NULL;
	kselector_update_time();
	V_REACH("clock read");
	V_CHECK(kgl_current_msec == v_now.tv_sec * 1000 + v_now.tv_usec / 1000 && kgl_current_sec == v_now.tv_sec, "the cached clock is the system clock");
	bool back = v_now.tv_sec < secb;
	V_CHECK(adj_calls == (back ? 1 : 0), "deadlines are shifted exactly when the clock's second went back");
	V_CHECK(V_IMPLIES(back, adj_diff == kgl_current_msec - before), "by exactly the size of the step");
	V_CHECK(hook_calls == (hk && v_now.tv_sec != secb ? 1 : 0), "the second hook runs once per change of second");
}
/* ---- insertion into the tree ---- */
static int fixups; static struct krb_node *fixed; static int heads; static struct krb_node *X, *R, *Lc, *Rc; static kgl_block_queue *key; static bool first0, left_only;
static bool *isf; static struct krb_root *lr;
void rb_insert_color(struct krb_node *n, struct krb_root *r) { fixups++; fixed = n; V_CHECK(r == lr, "rebalances the same tree"); }
static int head_fn(struct krb_node ***n, struct krb_node **parent, bool *is_first) {
#if !defined(STEP)
	return 0;
#else
	if (heads++ == 0) {
		V_CHECK(**n == R && *parent == NULL && *is_first, "the search starts at the root");
		int w = V_IN(int, 0, 2);
		if (w) { *parent = X; *n = w == 1 ? &X->rb_left : &X->rb_right; **n = R; left_only = w == 1 && V_BOOL(); }
		*is_first = left_only;
		return 0;
	}
	V_REACH("search descends");
	int64_t t = ((kgl_block_queue *)R->data)->active_msec;
	V_CHECK(key->active_msec != t && *parent == R && *n == (key->active_msec < t ? &R->rb_left : &R->rb_right), "descends to the side of the deadline, remembering the parent");
	V_CHECK(*is_first == (left_only && key->active_msec < t), "first stays true exactly while the search only went left");
	V_ASSUME(0);
	return 1;
#endif
}
static struct krb_node *mkn(void) {
	struct krb_node *x = (struct krb_node *)v_alloc(sizeof *x); kgl_block_queue *b = (kgl_block_queue *)v_alloc(sizeof *b);
	memset(b, 0, sizeof *b); b->active_msec = V_IN(int64_t, -T61, T61); x->data = b; x->rb_left = x->rb_right = NULL; x->rb_parent_color = V_IN(uintptr_t, 0, 1);
	return x;
}
void S_insert(void) {
	X = mkn(); R = mkn(); Lc = V_BOOL() ? mkn() : NULL; Rc = V_BOOL() ? mkn() : NULL; R->rb_left = Lc; R->rb_right = Rc;
	heads = 0; fixups = 0; left_only = true;
	struct krb_root root; bool empty = V_BOOL(); root.rb_node = empty ? NULL : R; lr = &root;
	key = (kgl_block_queue *)v_alloc(sizeof *key); memset(key, 0, sizeof *key); key->active_msec = V_IN(int64_t, -T61, T61);
	kgl_block_queue *rb = (kgl_block_queue *)R->data; kgl_block_queue *more = V_BOOL() ? (kgl_block_queue *)v_alloc(sizeof *more) : NULL; rb->next = more;
	int64_t k = key->active_msec, t = rb->active_msec; bool first = true;
	struct krb_node *f = kgl_insert_block_queue(&root, key, &first);
	V_REACH("insert ends");
	V_CHECK(key->active_msec == k && rb->active_msec == t && rb->next == more, "the deadlines and the older timers stay as they were");
	if (!empty && k == t) {
		V_CHECK(f == R && R->data == key && key->next == rb && fixups == 0, "an equal deadline joins that deadline's chain");
		V_CHECK(!first, "and is not a new first deadline");
		V_CHECK(R->rb_left == Lc && R->rb_right == Rc, "the tree keeps its shape");
	} else {
		V_CHECK(f && f != R && f->data == key && key->next == NULL, "a new deadline gets its own node");
		V_CHECK(f->rb_left == NULL && f->rb_right == NULL && (f->rb_parent_color & 1) == 0, "a red leaf");
		V_CHECK((f->rb_parent_color & ~(uintptr_t)3) == (empty ? 0 : (uintptr_t)R), "with the right parent");
		V_CHECK(first == (empty ? true : (left_only && k < t)), "it is the first deadline exactly if the search only went left");
		if (empty) V_CHECK(root.rb_node == f, "an empty tree gets a root");
		else {
			V_CHECK((k < t ? R->rb_left : R->rb_right) == f && (k < t ? Lc : Rc) == NULL, "linked at the free place on the deadline's side");
			V_CHECK((k < t ? R->rb_right : R->rb_left) == (k < t ? Rc : Lc), "the other side is untouched");
		}
		V_CHECK(fixups == 1 && fixed == f, "then the tree is rebalanced from it");
	}
}
/* without the hook: concrete trees of up to 3 nodes */
void H_insert(void) {
	fixups = 0;
	struct krb_root root; lr = &root; struct krb_node *x[3]; int n = V_IN(int, 0, 3), shape = V_IN(int, 0, 4);
	for (int i = 0; i < 3; i++) { x[i] = mkn(); if (i) V_ASSUME(((kgl_block_queue *)x[i]->data)->active_msec > ((kgl_block_queue *)x[i - 1]->data)->active_msec); }
	root.rb_node = NULL;
	if (n == 1) root.rb_node = x[0];
	if (n == 2) { if (shape & 1) { root.rb_node = x[0]; x[0]->rb_right = x[1]; } else { root.rb_node = x[1]; x[1]->rb_left = x[0]; } }
	if (n == 3) { root.rb_node = x[1]; x[1]->rb_left = x[0]; x[1]->rb_right = x[2]; }
	key = (kgl_block_queue *)v_alloc(sizeof *key); memset(key, 0, sizeof *key); key->active_msec = V_BOOL() ? V_IN(int64_t, -T61, T61) : ((kgl_block_queue *)x[V_IN(int, 0, 2)]->data)->active_msec;
	bool first = true; int64_t k = key->active_msec;
	int64_t d[3]; void *dd[3]; for (int i = 0; i < 3; i++) { dd[i] = x[i]->data; d[i] = ((kgl_block_queue *)dd[i])->active_msec; }
	struct krb_node *f = kgl_insert_block_queue(&root, key, &first);
	V_REACH("insert ends");
	bool isnew = true, smallest = true;
	for (int i = 0; i < 3; i++) if (i < n) {
		if (d[i] == k) { isnew = false; V_CHECK(f == x[i] && x[i]->data == key && key->next == dd[i], "an equal deadline joins that deadline's chain"); }
		else V_CHECK(x[i]->data == dd[i], "other deadlines are untouched");
		if (d[i] <= k) smallest = false;
	}
	V_CHECK(first == smallest, "it is the first deadline exactly if it is the earliest");
	if (isnew) {
		V_CHECK(f->data == key && key->next == NULL && f->rb_left == NULL && f->rb_right == NULL, "a new deadline gets its own leaf");
		for (int i = 0; i < 3; i++) if (i < n) {
			V_CHECK(V_IMPLIES(x[i]->rb_left == f, k < d[i]) && V_IMPLIES(x[i]->rb_right == f, k > d[i]), "on the right side");
		}
		struct krb_node *w = root.rb_node; bool seen = false;
		for (int i = 0; i < 4; i++) { if (!w) break; if (w == f) { seen = true; break; } w = k < ((kgl_block_queue *)w->data)->active_msec ? w->rb_left : w->rb_right; }
		V_CHECK(seen, "and is found again by its deadline");
	}
}
