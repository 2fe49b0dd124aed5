/* Hoare loop rule for the loops of the selector core: the loop under test (WHICH) is entered in an arbitrary state
 * satisfying its invariant, the other loops are skipped; at the next arrival at its head the state is checked. */
#include "sel_common.h"
#include "v_memset.h"
#define T61 (1LL << 61)
#define L_ADJT 1
#define L_ADJL 2
#define L_LIST 3
#define L_COLLECT 4
#define L_FIRE 5
#define L_CHAIN 6
#define L_READY 7
#define L_TICK 8
/* a reachability guard that belongs to the loop under test only */
#define STEP_REACH(w, l) RCH_(w)(l)
#define RCH_(w) RCH2_(w)
#define RCH2_(w) RCH_##w
#if WHICH == 1
#define RCH_1(l) V_REACH(l)
#else
#define RCH_1(l)
#endif
#if WHICH == 2
#define RCH_2(l) V_REACH(l)
#else
#define RCH_2(l)
#endif
#if WHICH == 3
#define RCH_3(l) V_REACH(l)
#else
#define RCH_3(l)
#endif
#if WHICH == 4
#define RCH_4(l) V_REACH(l)
#else
#define RCH_4(l)
#endif
#if WHICH == 5
#define RCH_5(l) V_REACH(l)
#else
#define RCH_5(l)
#endif
#if WHICH == 6
#define RCH_6(l) V_REACH(l)
#else
#define RCH_6(l)
#endif
#if WHICH == 7
#define RCH_7(l) V_REACH(l)
#else
#define RCH_7(l)
#endif
#if WHICH == 8
#define RCH_8(l) V_REACH(l)
#else
#define RCH_8(l)
#endif
static int heads, skipped;
static int hd_adjt(struct krb_node **node), hd_adjl(int i, kgl_list **pos), hd_list(kselector *s, int i), hd_collect(kselector *s, struct krb_node **block, struct krb_node **last),
	hd_fire(struct krb_node **block), hd_chain(kgl_block_queue **rq), hd_ready(kselector *s), hd_tick(kgl_list **t, int *min);
#define SKIP(w, call) if ((WHICH == w || (WHICH == L_CHAIN && w == L_FIRE)) ? (call) : 1) break; else
#define KGL_LOOP_CONTRACT_adjust_timers SKIP(L_ADJT, hd_adjt(&node))
#define KGL_LOOP_CONTRACT_adjust_list SKIP(L_ADJL, hd_adjl(i, &pos))
#define KGL_LOOP_CONTRACT_check_list SKIP(L_LIST, hd_list(selector, i))
#define KGL_LOOP_CONTRACT_check_collect if (hd_collect(selector, &block, &last)) break; else
#define KGL_LOOP_CONTRACT_check_fire if (hd_fire(&block)) break; else
#define KGL_LOOP_CONTRACT_check_chain SKIP(L_CHAIN, hd_chain(&rq))
#define KGL_LOOP_CONTRACT_check_ready SKIP(L_READY, hd_ready(selector))
#define KGL_LOOP_CONTRACT_check_tick SKIP(L_TICK, hd_tick(&tick_list, &min_event_time))
static kselector S;
static struct krb_node *X, *Y, *F, *L; /* current node, its successor, first collected, last collected */
static int erased; static int64_t adj;
struct krb_node *rb_next(const struct krb_node *x) { V_CHECK(x == X && !erased, "the successor of the current node, while it is in the tree"); return Y; }
struct krb_node *rb_first(const struct krb_root *r) { return NULL; }
void rb_insert_color(struct krb_node *n, struct krb_root *r) {}
void rb_erase(struct krb_node *x, struct krb_root *r) {
	V_CHECK(x == X && r == &S.block && !erased, "the first node is taken out of its tree once"); erased++;
	x->rb_left = V_BOOL() ? X : NULL; x->rb_right = V_BOOL() ? X : NULL; x->rb_parent_color = V_IN(uintptr_t, 0, 3);
}
void selector_manager_adjust_time(int64_t d) {}
static int nshut, shutfd;
int ksocket_shutdown(SOCKET fd, int how) { V_CHECK(how == SHUT_RDWR, "both directions"); nshut++; shutfd = fd; return 0; }
static void base(void) {
	kselector z = {0}; S = z; S.thread_id = 1; v_tls = &S; v_other_thread = 0;
	for (int i = 0; i < KGL_LIST_COUNT; i++) { klist_init(&S.list[i]); S.timeout[i] = V_IN(int, 1, INT_MAX); }
	klist_init(&S.tick); kgl_current_msec = V_IN(int64_t, -T61, T61);
	heads = erased = nshut = 0; X = Y = F = L = NULL; v_nfreed = 0;
}
static struct krb_node *mkn(int64_t due) {
	struct krb_node *x = V_NEWZ(struct krb_node); kgl_block_queue *b = V_NEWZ(kgl_block_queue);
	b->active_msec = due; x->data = b; return x;
}
#define TM(x) ((kgl_block_queue *)(x)->data)
