/* Channels between fibers of one thread. */
//@assume xmalloc succeeds; a channel is used by fibers of one thread only (documented)
//@ob H_send kind=proof unwind=4 hunwind=18 fn=kfiber_chan_send,kfiber_chan_wakeup
//@ob H_recv kind=proof unwind=4 hunwind=18 fn=kfiber_chan_recv,kfiber_chan_wakeup
//@ob H_pair kind=proof unwind=4 hunwind=18 fn=kfiber_chan_send,kfiber_chan_recv
//@ob S_close defs=-DCUT kind=proof unwind=4 hunwind=18 replayable=0 hook=chan_close fallback=H_close fn=kfiber_chan_close
//@ob H_close kind=bounded bound="<=2 waiters" unwind=4 hunwind=18 fn=kfiber_chan_close
//@ob H_ref kind=proof unwind=4 hunwind=18 fn=kfiber_chan_create,kfiber_chan_add_ref,kfiber_chan_get_ref,kfiber_chan_release
#define V_FREE_TRACK
#include "v.h"
struct kgl_base_selectable_s; struct _kfiber_chan;
static int hd_close(struct kgl_base_selectable_s **w);
#ifdef CUT
#define KGL_LOOP_CONTRACT_chan_close if (hd_close(&waiter)) break; else
#endif
#include "fib_common.h"
static kfiber_chan *C; static kfiber W1, W2; static kgl_base_selectable REST; static int nw, fl0, ref0; static bool cl0, settled; static kgl_base_selectable *h0, *hn; static int fln; static bool cln;
#define NONE 0
/* invariant: the flag tells which side waits; nobody waits on a closed channel */
static int role0; /* 0 nobody waits, 1 receivers, 2 senders */
static int probe_role(void); 
static void mkf(kfiber *f, void *obj) { kfiber z = {0}; *f = z; f->base.st_flags = STF_FIBER; f->base.selector = &SEL; f->wait_flag = 1; f->wait_code = C; f->switch_from = &MAIN; f->base.wait_obj = obj; }
static void settle(void) { if (settled) return; settled = true; hn = C->waiter; fln = C->wait_flag; cln = C->closed; }
static int phase, heads; static bool last; static void *rdata;
static void env_wait(void) { settle(); V_CHECK(SELF.wait_code == (void *)C, "it waits for the channel"); if (phase == 3) SELF.base.wait_obj = rdata; }
static void env_wake(void) { if (phase != 5) settle(); if (phase == 4) W1.base.next = V_BOOL() ? &REST : NULL; }
static void env_lock(void) { V_CHECK(0, "no lock is needed"); } static void env_unlock(void) {}
/* reach the waiting states through the interface itself, so that the coding of the flag does not matter */
static void start(void) {
	fib_base(false); phase = heads = 0; nw = 0; settled = true; C = kfiber_chan_create(); role0 = V_IN(int, 0, 2); phase = 5;
	if (role0) {
		void *d; kfiber s = SELF;
		if (role0 == 1) kfiber_chan_recv(C, &d, NULL); else kfiber_chan_send(C, &OBJ[1]);
		V_CHECK(nwait == 1 && C->waiter == &SELF.base && SELF.base.next == NULL, "on a fresh channel the first comer waits"); nwait = 0; SELF = s;
		nw = V_IN(int, 1, 2); mkf(&W1, role0 == 2 ? &OBJ[1] : NULL); mkf(&W2, role0 == 2 ? &OBJ[3] : NULL);
		C->waiter = &W1.base; W1.base.next = nw > 1 ? &W2.base : NULL; W2.base.next = V_BOOL() ? NULL : &REST;
	} else if (V_BOOL()) C->closed = 1;
	phase = 0; SELF.wait_notice_flag = 0; settled = false; h0 = C->waiter; fl0 = C->wait_flag; cl0 = C->closed; C->ref = ref0 = V_IN(int, 1, 1 << 28); nwake = 0;
}
static bool fwoke(int i, kfiber *f, int got) { return w_who[i] == (void *)f && w_sel[i] == NULL && w_obj[i] == (void *)C && w_got[i] == got; }
void H_send(void) {
	start(); int r = kfiber_chan_send(C, &OBJ[2]); V_REACH("returned"); settle();
	V_CHECK(C->ref == ref0 && cln == cl0, "references and closing are not touched");
	if (cl0) { V_REACH("closed"); V_CHECK(r == -1 && !nwait && !nwake && hn == h0 && fln == fl0, "sending on a closed channel fails at once"); }
	else if (role0 == 1) { V_REACH("delivered"); V_CHECK(r == 0 && nwait == 0 && nwake == 1 && fwoke(0, &W1, 0) && W1.base.wait_obj == (void *)&OBJ[2], "a waiting receiver gets the value, woken once with success");
		V_CHECK(hn == (nw > 1 ? &W2.base : NULL) && (nw > 1 ? fln == fl0 : fln == NONE), "the others go on waiting"); V_CHECK(W2.base.wait_obj == NULL, "nobody else gets it"); }
	else { V_REACH("waits"); V_CHECK(nwait == 1 && nwake == 0 && r == wait_ret && hn == &SELF.base && SELF.base.next == h0 && SELF.base.wait_obj == (void *)&OBJ[2] && V_IMPLIES(role0, fln == fl0), "otherwise the sender waits with its value until it is told the outcome"); }
}
void H_recv(void) {
	start(); void *d = &OBJ[0]; kfiber_waiter *snd = &REST; bool ws = V_BOOL(); phase = 3; rdata = V_BOOL() ? &OBJ[2] : NULL;
	int r = kfiber_chan_recv(C, &d, ws ? &snd : NULL); V_REACH("returned"); settle();
	V_CHECK(C->ref == ref0 && cln == cl0, "references and closing are not touched");
	if (role0 == 2) { V_REACH("taken"); V_CHECK(r == 0 && nwait == 0 && d == (void *)&OBJ[1], "a waiting sender's value is taken");
		V_CHECK(hn == (nw > 1 ? &W2.base : NULL) && (nw > 1 ? fln == fl0 : fln == NONE), "the others go on waiting");
		if (ws) V_CHECK(nwake == 0 && snd == &W1.base, "the sender is handed over to be woken later"); else V_CHECK(nwake == 1 && fwoke(0, &W1, 0), "the sender is woken once with success"); }
	else if (cl0) { V_REACH("closed"); V_CHECK(r == -1 && !nwait && !nwake && hn == h0, "receiving from a closed channel fails at once"); }
	else { V_REACH("waits"); V_CHECK(nwait == 1 && nwake == 0 && r == wait_ret && hn == &SELF.base && SELF.base.next == h0 && V_IMPLIES(role0, fln == fl0), "otherwise the receiver waits"); V_CHECK(d == rdata && V_IMPLIES(ws, snd == NULL), "and gets what was left for it"); }
}
/* a value sent to a waiting receiver is what that receiver's call returns */
void H_pair(void) {
	fib_base(false); phase = 5; settled = true; C = kfiber_chan_create(); bool recv_first = V_BOOL(); void *d = &OBJ[0];
	kfiber s = SELF;
	if (recv_first) kfiber_chan_recv(C, &d, NULL); else kfiber_chan_send(C, &OBJ[2]);
	kfiber w = SELF; W1 = w; SELF = s; C->waiter = &W1.base; W1.wait_flag = 1; W1.notice_flag = 0; nwait = 0;
	int r = recv_first ? kfiber_chan_send(C, &OBJ[2]) : kfiber_chan_recv(C, &d, NULL);
	V_REACH("met");
	V_CHECK(r == 0 && nwait == 0 && nwake == 1 && fwoke(0, &W1, 0) && C->waiter == NULL, "a sender and a receiver meet, the first is woken with success");
	V_CHECK(recv_first ? W1.base.wait_obj == (void *)&OBJ[2] : d == (void *)&OBJ[2], "and the value passes from one to the other");
	kfiber_chan *c2 = kfiber_chan_create(); V_CHECK(C->wait_flag == c2->wait_flag && C->closed == 0, "the channel is as new");
}
static int hd_close(kgl_base_selectable **w) {
	if (heads++ == 0) { V_CHECK(*w == h0 && C->closed && C->waiter == NULL, "closing first takes all waiters off"); phase = 4; kgl_base_selectable *x = &W1.base; *w = x; last = V_BOOL(); W1.base.next = last ? NULL : &W2.base; return 0; }
	V_REACH("one step"); V_CHECK(!last && *w == &W2.base && nwake == 1 && fwoke(0, &W1, -1) && W1.base.wait_obj == NULL, "each waiter is told once that the channel is closed and gets no value"); V_ASSUME(0); return 1;
}
static void close_post(int r) {
	settle(); V_CHECK(r == 0 && nwait == 0 && cln && C->closed && C->ref == ref0, "the channel is closed");
	V_CHECK(C->waiter == NULL && C->wait_flag == NONE, "nobody waits any more");
	if (cl0) V_CHECK(nwake == 0, "closing again does nothing");
	else { V_CHECK(hn == NULL && fln == NONE, "before anybody is woken"); }
}
void S_close(void) {
	start(); int r = kfiber_chan_close(C); V_REACH("returned"); close_post(r);
	if (h0) V_CHECK(last && nwake == 1 && fwoke(0, &W1, -1) && W1.base.wait_obj == NULL, "closing ends after the last waiter");
}
void H_close(void) {
	start(); W2.base.next = NULL; int r = kfiber_chan_close(C); V_REACH("returned"); close_post(r);
	V_CHECK(nwake == nw, "every waiter is woken once");
	if (nw > 0) V_CHECK(fwoke(0, &W1, -1) && W1.base.wait_obj == NULL, "told of closing, without a value"); if (nw > 1) V_CHECK(fwoke(1, &W2, -1) && W2.base.wait_obj == NULL, "told of closing, without a value");
}
void H_ref(void) {
	fib_base(false); kfiber_chan *c = kfiber_chan_create(); V_CHECK(c && kfiber_chan_get_ref(c) == 1 && !c->waiter && !c->closed, "a new channel has one owner");
	c->ref = V_IN(int, 1, 1 << 28); int n = c->ref;
	V_CHECK(kfiber_chan_add_ref(c) == c && kfiber_chan_get_ref(c) == n + 1, "one more reference");
	kfiber_chan_release(c); V_CHECK(v_times_freed(c) == 0 && c->ref == n, "still referenced"); V_REACH("one less");
	kfiber_chan_release(c); V_CHECK(v_times_freed(c) == (n == 1 ? 1 : 0), "the last release frees it");
}
#include "src/kfiber_sync.c"
