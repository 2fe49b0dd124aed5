/* Address cache: lookups, answers, refreshes and expiry.  Monitor proof over addr_lock; the tree and the worker pool enter by
 * contract (C07, C18); the list of cached names is arbitrary beyond the neighbours of the name at hand. */
//@assume the tree answers for the key it is asked for (C07); the worker pool runs each accepted job once (C18); getaddrinfo meets its specification; strdup and xmalloc succeed; fewer than 2^28 references and names
//@ob H_find split="ND:0,1,2" kind=proof unwind=3 hunwind=18 defs=-DSUB calls=rbtree_insert:c_insert,rbtree_find:c_find,rbtree_remove:c_remove,kasync_worker_try_start:c_try,async_addr_worker:c_worker fn=kgl_find_addr,find_addr_in_tree
//@ob H_cache split="ND:0,1,2" kind=proof unwind=3 hunwind=18 defs=-DSUB calls=rbtree_insert:c_insert,rbtree_find:c_find,rbtree_remove:c_remove,kasync_worker_try_start:c_try fn=kgl_find_cache_addr,find_addr_in_tree
//@ob H_answer kind=proof unwind=3 hunwind=18 calls=rbtree_insert:c_insert,rbtree_find:c_find,rbtree_remove:c_remove,addr_result:c_result,get_addr:c_get fn=async_addr_worker,find_addr_result,update_addr_node_cache,kgl_addr_new,kgl_addr_release,kgl_addr_refs,kgl_addr_node_destroy
//@ob H_refresh split="ND:0,1,2" kind=proof unwind=3 hunwind=18 calls=rbtree_insert:c_insert,rbtree_find:c_find,rbtree_remove:c_remove,get_addr:c_get fn=async_addr_cache_worker,update_addr_cache
//@ob S_result defs=-DCUT kind=proof unwind=3 hunwind=18 replayable=0 hook=addr_result fallback=H_result fn=addr_result
//@ob H_result kind=bounded bound="<=2 waiters" unwind=4 hunwind=18 tier=thorough fn=addr_result
//@ob H_next kind=proof unwind=3 hunwind=18 fn=addr_next_call,kgl_addr_release
//@ob S_flush defs=-DCUT kind=proof unwind=3 hunwind=18 replayable=0 hook=addr_flush fallback=H_flush calls=rbtree_remove:c_remove fn=kgl_flush_addr_cache,kgl_addr_node_destroy
//@ob H_flush kind=bounded bound="<=2 names" unwind=4 hunwind=18 tier=thorough calls=rbtree_remove:c_remove fn=kgl_flush_addr_cache
//@ob H_get kind=proof unwind=3 hunwind=18 fn=get_addr,kgl_addr_new,kgl_addr_refs,kgl_addr_release
//@ob H_key kind=proof unwind=3 hunwind=18 fn=addr_key_cmp
//@ob H_timer kind=proof unwind=3 hunwind=18 calls=kgl_flush_addr_cache:c_flush fn=kgl_addr_timer,when_selector_manager_ready,kgl_get_addr_cache_count
#ifndef ND
#define ND 0
#endif
struct kgl_addr_queue_s; struct kgl_addr_s;
static int hd_result(struct kgl_addr_queue_s **q), hd_flush(void);
#ifdef CUT
#define KGL_LOOP_CONTRACT_addr_result if (hd_result(&queue)) break; else
#define KGL_LOOP_CONTRACT_addr_flush if (hd_flush()) break; else
#endif
#include "v.h"
#include <pthread.h>
#include <time.h>
#include <netdb.h>
static pthread_mutex_t *held; static int nlock; static void env_lock(void), env_unlock(void);
static int v_lock(pthread_mutex_t *m) { V_CHECK(held == NULL, "a lock is never taken while one is held"); held = m; nlock++; env_lock(); return 0; }
static int v_unlock(pthread_mutex_t *m) { V_CHECK(held == m, "only the lock held is released"); env_unlock(); held = NULL; return 0; }
#define pthread_mutex_lock v_lock
#define pthread_mutex_unlock v_unlock
static time_t now_; static time_t v_time(time_t *t) { return now_; }
#define time(x) v_time(x)
static char HN[4], HN2[4], HN3[4]; static int ndup; static const char *dupof;
static char *v_strdup(const char *s) { ndup++; dupof = s; return HN3; }
#undef strdup
#define strdup v_strdup
static int cmpret; static const char *cmpa, *cmpb; static int v_casecmp(const char *a, const char *b) { cmpa = a; cmpb = b; return cmpret; }
#define strcasecmp v_casecmp
static int nfai; static struct addrinfo *fai; static void v_fai(struct addrinfo *a) { nfai++; fai = a; V_CHECK(a != NULL, "an address list is released"); }
#define freeaddrinfo v_fai
static struct addrinfo AI, AI2; static int ngai; static struct addrinfo hints_; static const char *gainame; static bool gaiok;
static int v_gai(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r) { ngai++; hints_ = *h; gainame = n; V_CHECK(s == NULL, "a name is looked up"); if (gaiok) { *r = &AI; return 0; } return EAI_NONAME; }
#define getaddrinfo v_gai
#include "kaddr.h"
#include "kgl_ssl.h"
#include "krbtree.h"
#include "ksync.h"
#include "klist.h"
#include "kasync_worker.h"
#include "kselector_manager.h"
#include "kfiber.h"
#include "kmalloc.h"
#undef xfree
#define xfree v_xfree
static const void *vhn; static int nhn; static inline void v_xfree(void *p) { if (p == (void *)HN || p == (void *)HN2 || p == (void *)HN3) { nhn++; vhn = p; return; } v_free(p); }
#include "v_memset.h"
/* the verifier loses track of chained access through the anonymous union: kaddr.c's own debug assertions are dropped */
#undef kassert
#define kassert(x) ((void)0)
#include "src/kaddr.c"
#undef time
#define BIG (1 << 28)
kselector_module kgl_selector_module;
static kgl_addr_node *N, *A, *B, *T; static struct krb_node RN; static int kind, c0; static kgl_addr_node *pa, *nb, *tail0; static kgl_addr *AD, *LS; static int adr0, lsr0; static kgl_addr_queue *Q0; static kselector SEL; static int arg_; static struct krb_tree TREE; static kasync_worker WK;
/* the name's entry: 0 absent, 1 being looked up, 2 listed */
static void mk_entry(int k) {
	kind = k; N = NULL; A = V_NEWZ(kgl_addr_node); B = V_NEWZ(kgl_addr_node); T = V_NEWZ(kgl_addr_node); addr_tree = &TREE; addr_worker = &WK; AD = LS = NULL; Q0 = NULL; addr_count = c0 = V_IN(int, 0, BIG);
	int other = V_IN(int, 0, 2); addr_list.next = addr_list.prev = &addr_list; tail0 = &addr_list;
	if (k < 2) { if (other) { tail0 = T; addr_list.prev = T; T->next = &addr_list; addr_list.next = A; } }
	if (k == 0) { RN.data = NULL; return; }
	N = V_NEWZ(kgl_addr_node); RN.data = N; N->node = &RN; N->key.hostname = HN; N->key.addr_type = kgl_addr_ip; N->last_time = V_IN(time_t, 0, 1L << 40); N->last_verify = V_IN(time_t, 0, 1L << 40); now_ = V_IN(time_t, 0, 1L << 40); V_ASSUME(N->last_verify <= N->last_time && N->last_time <= now_);
	if (k == 1) { Q0 = V_BOOL() ? V_NEWZ(kgl_addr_queue) : NULL; N->queue = Q0; return; }
	bool first = V_BOOL(); pa = first ? &addr_list : A; nb = other == 0 ? &addr_list : B; N->prev = pa; N->next = nb; pa->next = N; nb->prev = N; if (other == 1) { B->next = &addr_list; addr_list.prev = B; } if (other == 2) { addr_list.prev = T; T->next = &addr_list; } if (!first) addr_list.next = V_BOOL() ? A : T;
	if (other == 0) addr_list.prev = N; if (first) addr_list.next = N;
	tail0 = other == 0 ? pa : addr_list.prev; N->error_count = V_IN(int, 0, BIG); if (c0 == 0) c0 = addr_count = 1;
	int h = V_IN(int, 0, 3); /* no address; current; current and the same as last good; only a last good one */
	if (h == 1 || h == 2) { AD = V_NEWZ(kgl_addr); AD->addr = &AI2; N->addr = AD; AD->refs = adr0 = V_IN(int, h, BIG); } if (h == 2) { LS = AD; N->last_success = AD; } if (h == 3) { LS = V_NEWZ(kgl_addr); LS->addr = &AI2; N->last_success = LS; LS->refs = lsr0 = V_IN(int, 1, BIG); }
	V_ASSUME(h != 1); /* an address is always also the last good one */
}
static void at_tail(kgl_addr_node *n) { V_CHECK(addr_list.prev == n && n->next == &addr_list && n->prev == tail0 && tail0->next == n, "the name used last is the last one listed"); if (kind == 2) V_CHECK(nb == &addr_list || (pa->next == nb && nb->prev == pa), "and is listed once"); }
static void base(void) { addr_tree = &TREE; held = NULL; nlock = ndup = nfai = ngai = nhn = 0; v_nfreed = 0; cmpret = 0; now_ = V_IN(time_t, 0, 1L << 40); }
static kgl_addr *dropped; static int st; static int nins, nfind, nrem; static bool tree_new; 
static bool key_ok(const kgl_addr_key *k) { return k->hostname == HN2 && k->addr_type == kgl_addr_ip; }
struct krb_node *c_insert(struct krb_tree *t, const void *k, int *nf, comprbt c) { nins++; V_CHECK(t == &TREE && c == addr_key_cmp && held == &addr_lock && key_ok(k), "the cache is asked for the name under its lock"); *nf = kind == 0; return &RN; }
struct krb_node *c_find(const struct krb_tree *t, const void *k, comprbt c) { nfind++; V_CHECK(t == &TREE && c == addr_key_cmp && held == &addr_lock && key_ok(k), "the cache is asked for the name under its lock"); return kind == 0 ? NULL : &RN; }
void c_remove(struct krb_tree *t, struct krb_node *n) { nrem++; V_CHECK(t == &TREE && n == &RN && held == &addr_lock, "a name leaves the cache under its lock"); }
static int ntry, nworker, ncb; static bool tryok; static kgl_addr *cbaddr; static void *trydata; static bool stale_; static int nq1;
bool c_try(kasync_worker *w, void *d, kasync_worker_callback f, bool high) {
	ntry++; trydata = d; tryok = V_BOOL();
	if (f == async_addr_worker) { V_CHECK(held == NULL && high && kind == 0 && d == RN.data && nworker == 0, "the first request starts the lookup"); kgl_addr_node *cn = d; V_CHECK(cn->prev == NULL && cn->node == &RN, "not cached yet"); kgl_addr_queue *q = cn->queue; V_CHECK(q != NULL, "with its waiter"); V_CHECK(q->next == NULL, "queued"); }
	else { V_CHECK(f == async_addr_cache_worker && kind == 2 && stale_ && ndup == 1, "an old address is refreshed"); kgl_addr_key *k = d; V_CHECK(k->hostname == HN3 && dupof == HN2 && k->addr_type == kgl_addr_ip, "under the same name"); }
	return tryok;
}
kev_result c_worker(void *d, int ms) { nworker++; V_CHECK(!tryok && d == RN.data && (ms < 0 || ms > 10000) && held == NULL && kind == 0, "a lookup that cannot be started fails at once"); return kev_ok; }
static void env_lock(void) {
	V_CHECK(held == &addr_lock, "the cache's lock");
	if (st == 1) { mk_entry(ND); if (N) { stale_ = now_ - N->last_verify > KADDR_FRESH_TIME; } }
}
static void env_unlock(void) {
	if (st == 1) { if (kind == 2) { at_tail(N); V_CHECK(N->last_time == now_, "and was used now"); if (AD) AD->refs--; if (AD && LS == AD) AD->refs--; if (LS && LS != AD) LS->refs--; /* the cache may drop its own references from here on */ } }
	if (st == 5) { kgl_addr *x = N->addr; V_CHECK(x == N->last_success, "one address"); N->addr = N->last_success = NULL; if (x) { kgl_addr_release(x); kgl_addr_release(x); dropped = x; } /* expiry in another thread */ }
}
/* ---- lookup ---- */
static kev_result cb(void *a, kgl_addr *ad) { ncb++; cbaddr = ad; V_CHECK(held == NULL && a == &arg_, "the caller is answered without a lock, with its own argument"); if (ad) V_CHECK(ad->refs >= 1 && ad == (AD ? AD : LS), "with the address, which is alive while it is used"); return kev_err; }
static void refreshed(void) {
	if (kind == 2 && stale_) { V_CHECK(ntry == 1 && N->last_verify == now_, "an old address is refreshed once"); V_CHECK(tryok ? v_times_freed(trydata) == 0 && nhn == 0 : v_times_freed(trydata) == 1 && nhn == 1, "a refresh that cannot be started leaves nothing behind"); } else V_CHECK(ntry == 0 || kind == 0, "a fresh address is not looked up again");
}
void H_find(void) {
	base(); st = 1; ntry = nworker = ncb = nins = 0; kev_result r = kgl_find_addr(HN2, kgl_addr_ip, cb, &arg_, &SEL); V_REACH("returned"); V_CHECK(held == NULL && nlock == 1 && nins == 1, "one critical section decides");
#if ND == 2
	V_CHECK(ncb == 1 && r == kev_err, "a cached name is answered at once, once"); V_CHECK(cbaddr == (AD ? AD : LS), "with its address or the last good one"); refreshed();
	if (AD) { V_REACH("address"); V_CHECK(adr0 == 2 ? v_times_freed(AD) == 1 && nfai == 1 : v_times_freed(AD) == 0 && AD->refs == adr0 - 2, "and the reference taken for that is given back"); } else if (LS) V_CHECK(lsr0 == 1 ? v_times_freed(LS) == 1 && nfai == 1 : LS->refs == lsr0 - 1, "and the reference taken for that is given back");
#else
	kgl_addr_node *cn = RN.data; V_CHECK(ncb == 0 && r == kev_ok, "otherwise the caller waits"); kgl_addr_queue *q = cn->queue;
	V_CHECK(q && q->cb == cb && q->arg == &arg_ && q->selector == &SEL && q->next == Q0 && q->addr == NULL, "in the queue of the lookup"); V_CHECK(v_nfreed == 0, "with those before it");
#if ND == 0
	V_CHECK(ntry == 1 && nworker == (tryok ? 0 : 1), "one lookup is started for a new name"); V_CHECK(cn->key.hostname == HN3 && ndup == 1 && dupof == HN2 && cn->key.addr_type == kgl_addr_ip && cn->last_time == now_ && cn->last_verify == now_ && cn->addr == NULL && cn->last_success == NULL && addr_count == c0, "for this name");
#else
	V_CHECK(ntry == 0 && nworker == 0 && cn == N, "and no second one is started");
#endif
#endif
}
void H_cache(void) {
	base(); st = 1; ntry = nfind = nins = 0; kgl_addr *r = kgl_find_cache_addr(HN2, kgl_addr_ip); V_REACH("returned"); V_CHECK(held == NULL && nlock == 1 && nfind == 1 && nins == 0, "looking never creates");
	V_CHECK(r == (ND == 2 ? AD : NULL), "a cached address is returned"); if (r) V_CHECK(v_nfreed <= 1 && r->refs == adr0 - 2 + 1, "with a reference for the caller"); 
#if ND == 2
	refreshed();
#endif
}
/* ---- the lookup's answer ---- */
static int nres; static bool okay; static kgl_addr *resaddr; 
bool c_get(const char *h, kgl_addr_type t, struct addrinfo **r) { V_CHECK(held == NULL && h == (st == 3 ? HN2 : HN) && t == kgl_addr_ip && *r == NULL, "the name asked for is looked up without a lock"); *r = okay ? &AI : NULL; return true; }
void c_result(kgl_addr_queue *q, kgl_addr *a) {
	nres++; resaddr = a; V_CHECK(held == NULL && q == Q0, "every waiter is answered, without a lock"); V_CHECK((a != NULL) == okay, "with the address found"); if (a) V_CHECK(a->refs >= 1 && a->addr == &AI && nfai == 0, "which is alive");
}
void H_answer(void) {
	base(); st = 0; mk_entry(1); Q0 = V_NEWZ(kgl_addr_queue); Q0->selector = &SEL; N->queue = Q0; int ms = V_INT(); okay = ms >= 0 && ms <= 10000 && V_BOOL(); bool late = ms < 0 || ms > 10000; nres = nrem = 0; bool drop = V_BOOL(); kgl_addr_node *n = N;
	st = drop ? 5 : 2; kev_result r = async_addr_worker(N, ms); V_REACH("answered"); V_CHECK(r == kev_ok && nres == 1 && held == NULL && nlock == 1, "a lookup answers its waiters once");
	if (late) { V_REACH("late"); V_CHECK(nrem == 1 && v_times_freed(n) == 1 && nhn == 1 && vhn == HN && addr_count == c0 && v_nfreed == 1, "one that could not be made is forgotten"); }
	else if (drop) { V_REACH("dropped"); V_CHECK(dropped == resaddr && nfai == (okay ? 1 : 0) && V_IMPLIES(okay, v_times_freed(resaddr) == 1), "an address the cache has dropped lives until the waiters have it, and goes then"); }
	else { V_REACH("cached"); V_CHECK(nrem == 0 && addr_count == c0 + 1, "one made is cached"); V_CHECK(v_times_freed(n) == 0 && n->addr == resaddr && n->last_success == resaddr, "with the address found");  at_tail(n); if (resaddr) V_CHECK(resaddr->refs == 2 && nfai == 0, "referenced by the cache"); }
}
/* ---- refresh ---- */
void H_refresh(void) {
	base(); mk_entry(ND); st = 3; okay = V_BOOL(); nrem = 0; kgl_addr_key *k = V_NEWZ(kgl_addr_key); k->hostname = HN2; k->addr_type = kgl_addr_ip; int e0 = N ? N->error_count : 0; kgl_addr_node *n0 = N; kgl_addr_queue *q0 = Q0; kgl_addr *a0 = AD, *l0 = LS;
	kev_result r = async_addr_cache_worker(k, V_INT()); V_REACH("refreshed"); V_CHECK(r == kev_ok && held == NULL && nrem == 0, "done"); V_CHECK(v_times_freed(k) == 1 && nhn == 1 && vhn == HN2, "the request is released once");
	kgl_addr_node *n = RN.data;
#if ND == 1
	V_CHECK(n == n0 && n->prev == NULL && n->queue == q0 && n->addr == NULL && addr_count == c0 && addr_list.prev == tail0, "a lookup in progress is left alone"); V_CHECK(okay ? nfai == 1 && fai == &AI : nfai == 0, "and the address dropped");
#else
	at_tail(n); V_CHECK(addr_count == c0 + (ND == 0), "names are counted"); V_CHECK(n->node == &RN && n->key.addr_type == kgl_addr_ip && n->key.hostname == (ND == 0 ? HN3 : HN), "under its name");
	if (okay) { V_CHECK(n->addr && n->addr->addr == &AI && n->last_success == n->addr && n->addr->refs == 2 && n->error_count == 0 && n->addr != a0 && n->addr != l0, "the new address replaces the old"); if (a0) V_CHECK(adr0 == 2 ? v_times_freed(a0) == 1 && nfai == 1 && fai == &AI2 : a0->refs == adr0 - 2 && nfai == 0, "whose references are given back"); else if (l0) V_CHECK(lsr0 == 1 ? v_times_freed(l0) == 1 && nfai == 1 : l0->refs == lsr0 - 1, "whose reference is given back"); }
	else { V_CHECK(n->addr == NULL && n->error_count == e0 + 1, "a failure is counted"); bool keep = l0 && e0 + 1 < KADDR_MAX_ERROR_COUNT; V_CHECK(n->last_success == (keep ? l0 : NULL), "the last good address is kept for a number of failures"); if (a0) V_CHECK(keep ? a0->refs == adr0 - 1 && nfai == 0 : adr0 == 2 ? v_times_freed(a0) == 1 && nfai == 1 : a0->refs == adr0 - 2, "references are given back"); }
#endif
}
/* ---- answering the waiters ---- */
static int heads, nnext; static kgl_addr_queue *Q1, *Q2; static int rr0; static kgl_addr *RA;
static void next_stub(kselector *s, KOPAQUE d, result_callback cb_, void *arg, int got) { V_CHECK(d == NULL && cb_ == addr_next_call && got == 0 && s == &SEL, "a waiter is answered in its own thread"); kgl_addr_queue *q = arg; V_CHECK(q == (nnext == 0 ? Q1 : Q2) && q->addr == RA, "with the address"); nnext++; if (RA) V_CHECK((int)RA->refs == rr0 + nnext, "and a reference to it"); (free)(q); /* answered and gone before this returns */ }
static void mk_q(void) { kgl_selector_module.next = next_stub; RA = V_BOOL() ? V_NEWZ(kgl_addr) : NULL; if (RA) RA->refs = rr0 = V_IN(int, 1, BIG); Q1 = V_NEWZ(kgl_addr_queue); Q1->selector = &SEL; Q2 = V_NEWZ(kgl_addr_queue); Q2->selector = &SEL; nnext = heads = 0; }
static kgl_addr_queue *qn;
static int hd_result(kgl_addr_queue **q) { if (++heads == 1) { return 0; } V_CHECK(nnext == 1 && *q == qn, "each waiter once, then the next"); V_ASSUME(0); return 1; }
#ifdef CUT
void S_result(void) { base(); mk_q(); qn = V_BOOL() ? Q2 : NULL; Q1->next = qn; bool none = V_BOOL(); addr_result(none ? NULL : Q1, RA); V_REACH("done"); V_CHECK(none ? heads == 0 && nnext == 0 : heads == 1 && nnext == 1 && qn == NULL, "until none is left"); }
#else
void H_result(void) { base(); mk_q(); int n = V_IN(int, 0, 2); Q1->next = n == 2 ? Q2 : NULL; addr_result(n ? Q1 : NULL, RA); V_REACH("done"); V_CHECK(nnext == n && V_IMPLIES(RA, (int)RA->refs == rr0 + n), "every waiter is answered once"); }
#endif
void H_next(void) {
	base(); kgl_addr_queue *q = V_NEWZ(kgl_addr_queue); AD = V_BOOL() ? V_NEWZ(kgl_addr) : NULL; LS = NULL; q->cb = cb; q->arg = &arg_; q->addr = AD; ncb = 0; if (AD) { AD->refs = adr0 = V_IN(int, 1, BIG); AD->addr = V_BOOL() ? &AI : NULL; } struct addrinfo *ai = AD ? AD->addr : NULL;
	addr_next_call(NULL, q, 0); V_REACH("answered"); V_CHECK(ncb == 1 && cbaddr == AD && v_times_freed(q) == 1, "a waiter is answered once"); if (AD) V_CHECK(adr0 == 1 ? v_times_freed(AD) == 1 && nfai == (ai ? 1 : 0) : v_nfreed == 1 && (int)AD->refs == adr0 - 1, "and its reference given back");
}
/* ---- expiry ---- */
static time_t fnow; static kgl_addr_node *f0;
static bool old_(time_t last) { return fnow - last >= KADDR_MAX_IDLE_TIME; }
static void flush_state(void) { mk_entry(2); V_ASSUME(pa == &addr_list); f0 = N; nrem = 0; v_nfreed = 0; nhn = nfai = 0; }
static void flushed(void) { V_CHECK(nrem == 1 && v_times_freed(f0) == 1 && nhn == 1 && vhn == HN && addr_count == c0 - 1, "an expired name leaves cache and list"); V_CHECK(addr_list.next == nb && nb->prev == &addr_list, "alone"); if (AD) V_CHECK(adr0 == 2 ? v_times_freed(AD) == 1 && nfai == 1 : AD->refs == adr0 - 2 && nfai == 0, "and gives up its address"); else if (LS) V_CHECK(lsr0 == 1 ? v_times_freed(LS) == 1 : LS->refs == lsr0 - 1, "and its last good address"); }
static time_t lt_; static bool empty_;
static int hd_flush(void) {
	V_CHECK(held == &addr_lock, "under the lock");
	if (++heads == 1) { flush_state(); lt_ = N->last_time; empty_ = V_BOOL(); if (empty_) { addr_list.next = addr_list.prev = &addr_list; } return 0; }
	V_CHECK(!empty_, "nothing else is expired"); flushed(); V_CHECK(old_(lt_) || c0 >= KADDR_MAX_CACHE_COUNT, "only names unused for long, or beyond the limit, expire"); V_ASSUME(0); return 1;
}
#ifdef CUT
void S_flush(void) { base(); st = 0; heads = 0; addr_tree = &TREE; fnow = V_IN(time_t, 0, 1L << 40); kgl_flush_addr_cache(fnow); V_REACH("done"); V_CHECK(held == NULL && nlock == 1 && heads == 1 && nrem == 0 && v_nfreed == 0 && addr_count == c0, "the rest stays"); V_CHECK(empty_ || (!old_(lt_) && c0 < KADDR_MAX_CACHE_COUNT), "every name unused for long expires"); }
#else
void H_flush(void) {
	base(); st = 0; fnow = V_IN(time_t, 0, 1L << 40); flush_state(); V_ASSUME(nb == &addr_list || (nb == B && addr_list.prev == B)); bool two = nb == B; B->last_time = V_IN(time_t, 0, 1L << 40); V_ASSUME(B->last_time >= N->last_time && B->last_time <= now_); B->node = &RN; B->key.hostname = HN2; addr_count = two ? 2 : 1; lt_ = N->last_time; time_t lt2 = B->last_time; 
	kgl_flush_addr_cache(fnow); V_REACH("done"); int n = (old_(lt_) ? 1 : 0) + (two && old_(lt2) && old_(lt_) ? 1 : 0); V_CHECK(nrem == n && addr_count == (two ? 2 : 1) - n && held == NULL, "exactly the names unused for long expire"); V_CHECK(n == (two ? 2 : 1) ? klist_empty(&addr_list) : addr_list.next == (n == 1 ? B : f0), "the rest stays");
}
#endif
/* ---- small functions ---- */
void H_get(void) {
	base(); gaiok = V_BOOL(); bool cn = V_BOOL(); struct addrinfo *r = NULL; bool ok = get_addr(HN, cn ? kgl_addr_cname : kgl_addr_ip, &r); V_REACH("asked"); V_CHECK(ok && ngai == 1 && gainame == HN && r == (gaiok ? &AI : NULL), "the system is asked once");
	V_CHECK(hints_.ai_flags == (cn ? AI_CANONNAME : 0) && hints_.ai_socktype == 0 && hints_.ai_protocol == 0 && hints_.ai_addr == NULL && hints_.ai_next == NULL && hints_.ai_canonname == NULL, "a cname request asks for the canonical name"); V_CHECK(cn ? hints_.ai_family == PF_INET : hints_.ai_family == PF_UNSPEC || hints_.ai_family == PF_INET, "an address request for any kind");
	kgl_addr *a = kgl_addr_new(V_BOOL() ? &AI : NULL); V_CHECK(a->refs == 1, "a new address has one reference"); bool has = a->addr != NULL; kgl_addr_refs(a); V_CHECK(a->refs == 2, "one more"); kgl_addr_release(a); V_CHECK(a->refs == 1 && nfai == 0 && v_nfreed == 0, "one less"); kgl_addr_release(a); V_CHECK(v_times_freed(a) == 1 && v_nfreed == 1 && nfai == (has ? 1 : 0), "the last one releases it once");
}
void H_key(void) {
	base(); kgl_addr_key a, b; a.hostname = HN; b.hostname = HN2; a.addr_type = V_BOOL() ? kgl_addr_cname : kgl_addr_ip; b.addr_type = V_BOOL() ? kgl_addr_cname : kgl_addr_ip; cmpret = V_IN(int, -1000, 1000); int r = addr_key_cmp(&a, &b); V_REACH("compared");
	if (a.addr_type == b.addr_type) V_CHECK(r == cmpret && ((cmpa == HN && cmpb == HN2)), "names of one kind compare by name"); else V_CHECK(r == (a.addr_type < b.addr_type ? -1 : 1), "kinds differ");
	int s; cmpret = -cmpret; s = addr_key_cmp(&b, &a); V_CHECK((r < 0) == (s > 0) && (r == 0) == (s == 0), "the order is antisymmetric");
}
static int nfl, ntm, nnx; static time_t flt; void c_flush(time_t t) { nfl++; flt = t; }
int kselector_add_timer(kselector *s, result_callback r, void *a, int ms, KOPAQUE d) { ntm++; V_CHECK(s == &SEL && r == kgl_addr_timer && a == &SEL && ms > 0, "expiry is looked at again"); return 0; }
kselector *get_perfect_selector() { return &SEL; }
static void next2(kselector *s, KOPAQUE d, result_callback cb_, void *arg, int got) { nnx++; V_CHECK(s == &SEL && arg == &SEL && cb_ == kgl_addr_timer, "expiry begins with the selectors"); }
void H_timer(void) { base(); st = 0; nfl = ntm = nnx = 0; kgl_addr_timer(NULL, &SEL, 0); V_CHECK(nfl == 1 && flt == now_ && ntm == 1, "names expire by the clock"); kgl_selector_module.next = next2; when_selector_manager_ready(NULL, NULL, 0); V_CHECK(nnx == 1, "once"); addr_count = V_IN(int, 0, BIG); V_CHECK(kgl_get_addr_cache_count() == addr_count, "the count is that of the list"); V_REACH("done"); }
