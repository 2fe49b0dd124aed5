/* Inactivity timeout lists, ready list, ticks of a selector. */
//@assume list timeouts are positive; time values below 2^61 milliseconds; entries of a timeout list are ordered by last activity (every insertion stamps the current time)
//@ob H_timeout native=20000 tier=fallback kind=bounded bound="<=3 connections per timeout list" fn=kselector_check_timeout,selectable_shutdown
//@ob H_ready native=20000 tier=fallback kind=bounded bound="<=3 ready objects, one re-queued by a callback" fn=kselector_check_timeout
//@ob H_ticks kind=bounded bound="<=3 ticks" unwind=5 hunwind=18 fn=kselector_check_timeout
//@ob H_register kind=proof unwind=4 hunwind=18 fn=kselector_new_tick,kselector_register_tick,kselector_close_tick
//@ob H_add_list kind=proof unwind=5 hunwind=18 fn=kselector_add_list,kselector_remove_list
//@ob H_add_fiber kind=proof unwind=5 hunwind=18 fn=kselector_add_fiber_ready
//@ob H_new kind=proof unwind=5 hunwind=18 fn=kselector_new,kselector_destroy
#include "sel_common.h"
#include "v_memset.h"
#define T61 (1LL << 61)
#define NS 3
struct krb_node *rb_next(const struct krb_node *x) { return NULL; }
struct krb_node *rb_first(const struct krb_root *r) { return NULL; }
void rb_erase(struct krb_node *x, struct krb_root *r) { V_CHECK(0, "no timer is pending"); }
void rb_insert_color(struct krb_node *n, struct krb_root *r) {}
static int shut[8], nshut;
int ksocket_shutdown(SOCKET fd, int how) { V_CHECK(fd >= 0 && fd < 8 && how == SHUT_RDWR, "shuts down both directions of a listed socket"); shut[fd]++; nshut++; return 0; }
static kselector S;
static kselectable *st[2][NS]; static int64_t act[2][NS]; static uint16_t left[2][NS]; static uint32_t fl[2][NS]; static int n[2]; static char dat[8], arg_[8];
static int tmo_cb[8], nre, nwe, ncb; static int revt[8], wevt[8], fevt[8];
static bool cb_bad;
static kev_result on_tmo(KOPAQUE d, void *a, int got) {
	int i = (int)((char *)d - dat);
	if (i < 0 || i >= 8 || a != &arg_[i] || got != ST_ERR_TIME_OUT) cb_bad = true; else tmo_cb[i]++;
	ncb++;
	return kev_ok;
}
static kev_result on_fiber(KOPAQUE d, void *a, int got);
static kselectable *R[NS]; static kfiber *F[NS]; static bool isf[NS]; static int nr; static int requeue; static bool count_bad, listed_bad;
static int cnt0, disp; static int order[8];
static int find(void *p) { for (int i = 0; i < NS; i++) if (i < nr && (p == (void *)R[i] || p == (void *)F[i])) return i; cb_bad = true; return 0; }
static void dispatched(kgl_base_selectable *b) {
	if (b->queue.next != NULL) listed_bad = true;
	if (disp < 8) order[disp] = find(b);
	disp++;
}
static uint32_t act_after[NS]; static bool relist_in_cb;
kev_result selectable_read_event(kselectable *s) { int i = find(s); revt[i]++; nre++; if (!wevt[i]) dispatched(&s->base); if (requeue == i) { requeue = -1; kselector_add_list(&S, s, KGL_LIST_RW); } return kev_ok; }
kev_result selectable_write_event(kselectable *s) { int i = find(s); wevt[i]++; nwe++; dispatched(&s->base); if (requeue == i && !(s->base.st_flags & STF_READ)) { requeue = -1; kselector_add_list(&S, s, KGL_LIST_RW); } return kev_ok; }
#include "src/kselector.c"
static kev_result on_fiber(KOPAQUE d, void *a, int got) {
	int i = find(d); kfiber *f = (kfiber *)d;
	fevt[i]++; dispatched(&f->base); if (a != &arg_[i] || got != 40 + i) cb_bad = true;
	if (requeue == i) { requeue = -1; kselector_add_fiber_ready(&S, f); }
	return kev_ok;
}
static void base(void) {
	memset(&S, 0, sizeof S); S.thread_id = 1; v_tls = &S; v_other_thread = 0;
	for (int i = 0; i < KGL_LIST_COUNT; i++) { klist_init(&S.list[i]); S.timeout[i] = 60000; }
	klist_init(&S.tick); kgl_current_msec = V_IN(int64_t, -T61, T61);
	nshut = nre = nwe = ncb = disp = 0; cb_bad = count_bad = listed_bad = false; nr = 0; requeue = -1;
	for (int i = 0; i < 8; i++) shut[i] = tmo_cb[i] = revt[i] = wevt[i] = fevt[i] = 0;
}
void H_timeout(void) {
	base();
	for (int l = 0; l < 2; l++) {
		S.timeout[l] = V_IN(int, 1, INT_MAX); n[l] = V_IN(int, 0, NS);
		for (int i = 0; i < NS; i++) if (i < n[l]) {
			kselectable *s = st[l][i] = V_NEWZ(kselectable);
			s->base.selector = &S; s->fd = l * NS + i; s->data = &dat[s->fd]; s->e[OP_READ].result = on_tmo; s->e[OP_READ].arg = &arg_[s->fd];
			act[l][i] = s->active_msec = V_IN(int64_t, -T61, T61); V_ASSUME(act[l][i] <= kgl_current_msec); V_ASSUME(i == 0 || act[l][i] >= act[l][i - 1]);
			left[l][i] = s->base.tmo_left = V_U16(); s->base.tmo = V_U16(); fl[l][i] = s->base.st_flags = V_IN(uint32_t, 0, 0x3fff);
			klist_append(&S.list[l], &s->base.queue); S.count++;
		}
	}
	int c0 = S.count; int64_t now = kgl_current_msec;
	kselector_check_timeout(&S, 0);
	V_REACH("checked");
	V_CHECK(!cb_bad, "a read timeout is reported to the right callback with ST_ERR_TIME_OUT");
	int gone = 0;
	for (int l = 0; l < 2; l++) {
		kgl_list *q = S.list[l].next;
		/* those not expired stay first, in order */
		for (int i = 0; i < NS; i++) if (i < n[l]) {
			kselectable *s = st[l][i]; bool ex = now - act[l][i] >= S.timeout[l];
			bool again = ex && left[l][i] > 0;
			bool rtmo = ex && !again && (fl[l][i] & STF_RTIME_OUT) && (fl[l][i] & STF_READ);
			bool dead = ex && !again && !rtmo;
			V_CHECK(shut[s->fd] == (dead ? 1 : 0), "an expired connection is shut down exactly once, no other is");
			V_CHECK(tmo_cb[s->fd] == (rtmo ? 1 : 0), "a pending read that asked for it is told about the timeout once");
			V_CHECK(s->base.tmo_left == left[l][i] - (again ? 1 : 0), "an extension is used up one at a time");
			V_CHECK(s->active_msec == (again || rtmo ? now : act[l][i]), "a new period starts exactly where one was granted");
			V_CHECK(s->base.st_flags == fl[l][i], "flags stay");
			V_CHECK((s->base.queue.next == NULL) == dead, "exactly the connections shut down leave the list");
			if (dead) gone++;
			if (!ex) { V_CHECK(q == &s->base.queue, "connections not expired keep their place"); if (q == &s->base.queue) q = q->next; }
		}
		for (int i = 0; i < NS; i++) if (i < n[l]) {
			kselectable *s = st[l][i]; bool ex = now - act[l][i] >= S.timeout[l];
			if (ex && s->base.queue.next) { V_CHECK(q == &s->base.queue, "those granted a new period follow in order"); if (q == &s->base.queue) q = q->next; }
		}
		V_CHECK(q == &S.list[l], "nothing else is listed");
	}
	V_CHECK(S.count == c0 - gone, "the count follows");
	V_CHECK(nshut == gone, "nothing else is shut down");
}
void H_ready(void) {
	base();
	nr = V_IN(int, 0, NS); uint32_t f0[NS];
	for (int i = 0; i < NS; i++) if (i < nr) {
		isf[i] = V_BOOL();
		if (isf[i]) {
			F[i] = V_NEWZ(kfiber); F[i]->base.selector = &S; F[i]->base.st_flags = STF_FIBER; F[i]->cb = on_fiber; F[i]->arg = &arg_[i]; F[i]->retval = 40 + i;
			f0[i] = STF_FIBER; R[i] = NULL;
			klist_append(&S.list[KGL_LIST_READY], &F[i]->base.queue);
		} else {
			R[i] = V_NEWZ(kselectable); R[i]->base.selector = &S; F[i] = NULL;
			f0[i] = R[i]->base.st_flags = V_IN(uint32_t, 0, 0x3fff); R[i]->base.tmo = V_U16();
			klist_append(&S.list[KGL_LIST_READY], &R[i]->base.queue);
		}
		S.count++;
	}
	int rq = requeue = V_IN(int, -1, NS - 1);
	kselector_check_timeout(&S, 0);
	V_REACH("dispatched");
	V_CHECK(!cb_bad, "a fiber callback gets its own fiber, argument and value");
	V_CHECK(!listed_bad, "an object is taken off the list before it is dispatched");
	V_CHECK(S.list[KGL_LIST_READY].next == &S.list[KGL_LIST_READY], "the ready list is drained");
	int listed = 0, k = 0;
	for (int i = 0; i < NS; i++) if (i < nr) {
		if (isf[i]) { V_CHECK(fevt[i] == (rq == i ? 2 : 1) && !revt[i] && !wevt[i], "a ready fiber runs once per time it was made ready"); V_CHECK(F[i]->base.queue.next == NULL, "and is off the list"); }
		else {
			bool w = (f0[i] & (STF_WREADY | STF_WREADY2)) && (f0[i] & (STF_WRITE | STF_RDHUP));
			bool r = (f0[i] & (STF_RREADY | STF_RREADY2)) && (f0[i] & STF_READ);
			V_CHECK(wevt[i] == (w ? 1 : 0), "a pending write that is ready is served once, no other");
			V_CHECK(revt[i] == (r ? 1 : 0), "a pending read that is ready is served once, no other");
			uint32_t lf = f0[i]; if (w) lf &= ~(STF_WRITE | STF_RDHUP); if (r) lf &= ~STF_READ;
			bool cbq = rq == i && (r || (w && !(f0[i] & STF_READ)));
			bool want = cbq || ((lf & (STF_READ | STF_WRITE)) && (f0[i] & STF_ET));
			V_CHECK((R[i]->base.queue.next != NULL) == want, "an object with an operation still pending goes under inactivity timeout, once");
			if (want) { listed++; V_CHECK(R[i]->active_msec == kgl_current_msec && R[i]->base.tmo_left == R[i]->base.tmo, "with a fresh period"); }
		}
	}
	int m = 0; kgl_list *q = S.list[KGL_LIST_RW].next;
	for (int i = 0; i < NS + 1; i++) { if (q == &S.list[KGL_LIST_RW]) break; V_CHECK(q->next->prev == q, "list links agree"); m++; q = q->next; }
	V_CHECK(m == listed, "listed exactly once");
	V_CHECK(S.count == listed, "the count is the number of listed objects");
	int last = -1; bool ord = true; for (int i = 0; i < 8; i++) if (i < disp && i < nr) { if (rq < 0 && order[i] < last) ord = false; last = order[i]; }
	V_CHECK(ord, "dispatched in the order they became ready");
}
static int tick_ret[NS], ticks[NS]; static bool tick_bad; static int EV; static kselector_tick *T[NS]; static int closer;
static int tick_cb(void *a, int ev) {
	int i = (int)((char *)a - dat); if (i < 0 || i >= NS || ev != EV) { tick_bad = true; return 0; }
	ticks[i]++;
	if (closer == i) kselector_close_tick(T[i]);
	return tick_ret[i];
}
void H_ticks(void) {
	base(); int nt = V_IN(int, 0, NS); EV = V_INT(); tick_bad = false; closer = V_IN(int, -1, NS - 1); v_nfreed = 0;
	for (int i = 0; i < NS; i++) { ticks[i] = 0; tick_ret[i] = V_INT(); }
	for (int i = 0; i < NS; i++) if (i < nt) { T[i] = kselector_new_tick(tick_cb, &dat[i]); V_CHECK(kselector_register_tick(T[i]), "registered with the thread's selector"); }
	int r = kselector_check_timeout(&S, EV);
	V_REACH("ticked");
	int want = 100;
	for (int i = 0; i < NS; i++) {
		V_CHECK(ticks[i] == (i < nt ? 1 : 0), "each registered tick is called exactly once per round");
		if (i < nt && tick_ret[i] > 0 && tick_ret[i] < want) want = tick_ret[i];
		if (i < nt) V_CHECK(v_times_freed(T[i]) == (closer == i ? 1 : 0), "a tick may close itself from its callback");
	}
	V_CHECK(!tick_bad, "with its argument and the number of events");
	V_CHECK(r == want, "the earliest requested wake-up, at most the default interval");
}
void H_register(void) {
	base(); v_nfreed = 0; bool has = V_BOOL(); if (!has) v_tls = NULL;
	kselector_tick other; bool o = V_BOOL(); if (o) klist_append(&S.tick, &other.queue);
	kselector_tick *t = kselector_new_tick(tick_cb, &dat[0]);
	V_CHECK(t && t->cb == tick_cb && t->arg == &dat[0], "a tick remembers callback and argument");
	bool ok = kselector_register_tick(t);
	V_REACH("registered");
	V_CHECK(ok == has, "registration needs a selector thread");
	if (ok) V_CHECK(S.tick.prev == &t->queue && (o ? other.queue.next == &t->queue : S.tick.next == &t->queue), "appended to the ticks");
	else V_CHECK(S.tick.next == (o ? &other.queue : &S.tick), "otherwise nothing changes");
	if (ok) {
		bool c = kselector_close_tick(t);
		V_CHECK(c && v_times_freed(t) == 1, "closing releases it");
		V_CHECK(S.tick.next == (o ? &other.queue : &S.tick) && S.tick.prev == S.tick.next, "and leaves the others");
	} else V_CHECK(!kselector_close_tick(t) && v_times_freed(t) == 0, "closing needs a selector thread");
}
/* arbitrary neighbours stand for an arbitrary rest of the list */
void H_add_list(void) {
	base(); kgl_list a[KGL_LIST_COUNT], b[KGL_LIST_COUNT]; int cnt = S.count = V_IN(int, 1, INT_MAX - 1); bool e[KGL_LIST_COUNT];
	for (int i = 0; i < KGL_LIST_COUNT; i++) { e[i] = V_BOOL(); if (!e[i]) { /* a .. b are the first and the last element */
		S.list[i].next = &a[i]; a[i].prev = &S.list[i]; a[i].next = &b[i]; b[i].prev = &a[i]; S.list[i].prev = &b[i]; b[i].next = &S.list[i]; } }
	kselectable s; memset(&s, 0, sizeof s); s.base.selector = &S; s.base.tmo = V_U16(); int64_t act0 = s.active_msec = V_IN(int64_t, -T61, T61);
	int from = V_IN(int, -1, KGL_LIST_COUNT - 1), to = V_IN(int, 0, KGL_LIST_COUNT - 1);
	if (from >= 0) { kgl_list *p = e[from] ? &S.list[from] : &a[from]; s.base.queue.prev = p; s.base.queue.next = p->next; p->next->prev = &s.base.queue; p->next = &s.base.queue; }
	bool rm = V_BOOL();
	if (rm) {
		kselector_remove_list(&S, &s);
		V_REACH("removed");
		V_CHECK(s.base.queue.next == NULL && s.base.queue.prev == NULL, "removal leaves the object on no list");
		V_CHECK(S.count == cnt - (from >= 0), "and uncounts it if it was on one");
	} else {
		kselector_add_list(&S, &s, to);
		V_REACH("added");
		V_CHECK(S.list[to].prev == &s.base.queue && s.base.queue.next == &S.list[to], "added at the end of the list");
		V_CHECK(s.base.queue.prev == (e[to] ? &S.list[to] : &b[to]) && s.base.queue.prev->next == &s.base.queue, "after what was there");
		V_CHECK(S.count == cnt + (from < 0), "counted once however often it is moved");
		V_CHECK(s.base.tmo_left == s.base.tmo, "with all its timeout periods");
		V_CHECK(s.active_msec == (to == KGL_LIST_READY ? act0 : kgl_current_msec), "a timeout list stamps the activity time");
	}
	for (int i = 0; i < KGL_LIST_COUNT; i++) if (rm || i != to) {
		if (e[i]) V_CHECK(S.list[i].next == &S.list[i] && S.list[i].prev == &S.list[i], "other lists are as before without it");
		else V_CHECK(S.list[i].next == &a[i] && a[i].next == &b[i] && b[i].prev == &a[i] && b[i].next == &S.list[i] && S.list[i].prev == &b[i], "other lists are as before without it");
	}
}
void H_add_fiber(void) {
	base(); kgl_list a; bool e = V_BOOL(); kgl_list *h = &S.list[KGL_LIST_READY]; if (!e) { h->next = h->prev = &a; a.next = a.prev = h; }
	int cnt = S.count = V_IN(int, 0, INT_MAX - 1); kfiber f; memset(&f, 0, sizeof f); f.base.selector = &S; f.base.st_flags = STF_FIBER;
	kselector_add_fiber_ready(&S, &f);
	V_REACH("made ready");
	V_CHECK(h->prev == &f.base.queue && f.base.queue.next == h && f.base.queue.prev == (e ? h : &a) && (e ? h->next : a.next) == &f.base.queue, "a fiber made ready goes to the end of the ready list");
	V_CHECK(S.count == cnt + 1, "and counts");
}
static int inits, destroys; static void minit(kselector *s) { inits++; } static void mdestroy(kselector *s) { destroys++; }
void H_new(void) {
	base(); inits = destroys = 0; v_nfreed = 0; kgl_selector_module.init = minit; kgl_selector_module.destroy = mdestroy;
	bool t = V_BOOL(); kselector_tick *tk = t ? kselector_new_tick(tick_cb, &dat[0]) : NULL;
	kselector *s = kselector_new(tk);
	V_REACH("created");
	V_CHECK(s && inits == 1 && s->sid == -1 && s->count == 0 && s->block.rb_node == NULL && s->block_first == NULL && !s->closed && !s->shutdown, "a new selector is empty and open");
	for (int i = 0; i < KGL_LIST_COUNT; i++) V_CHECK(s->list[i].next == &s->list[i] && s->list[i].prev == &s->list[i] && s->timeout[i] == 60000, "with empty lists and a 60 s timeout");
	V_CHECK(t ? s->tick.next == &tk->queue && s->tick.prev == &tk->queue && tk->queue.next == &s->tick : s->tick.next == &s->tick, "and the given tick");
	s->closed = V_BOOL(); s->count = V_IN(int, 0, 2); struct krb_node nd; s->block.rb_node = V_BOOL() ? &nd : NULL;
	V_CHECK(kselector_can_close(s) == (s->closed && s->count == 0 && s->block.rb_node == NULL), "it may end only when closed, with nothing listed and no timer pending");
	kselector_destroy(s);
	V_CHECK(destroys == 1 && v_times_freed(s) == 1, "destroying releases it once");
}
