/* Red-black tree, whole small trees: iteration, ring search, comparators; and the bounded stand-ins used when a step
 * proof does not apply to the current text. */
//@ob H_walk kind=bounded bound="trees of depth <=4" unwind=6 hunwind=20 fn=rb_first,rb_last,rb_next,rb_prev
//@ob H_cover kind=bounded bound="trees of depth <=3" unwind=6 hunwind=20 fn=rbtree_find_cover
//@ob M_iter kind=bounded bound="trees of <=3 nodes" unwind=5 hunwind=20 fn=rbtree_iterator calls=rbtree_remove:c_rbtree_remove fallback=H_iter
//@ob H_iter kind=bounded bound="trees of <=3 nodes" tier=fallback unwind=5 hunwind=20 fn=rbtree_iterator
//@ob H_cmp kind=proof unwind=2 fn=rbtree_int_cmp
//@ob H_strcmp kind=bounded bound="strings of <=3 characters" unwind=5 fn=rbtree_string_cmp,rbtree_string_case_cmp
//@ob H_map kind=bounded bound="trees of depth <=3" tier=fallback unwind=6 hunwind=20 fn=rbtree_find,rbtree_find2
//@ob H_ins kind=bounded bound="trees of depth <=3" tier=fallback unwind=7 hunwind=20 timeout=600 fn=rbtree_insert,rbtree_insert2,rb_insert_color
//@ob H_del native=60000 tier=fallback kind=bounded bound="executed: drawn insertion/deletion sequences over <=12 keys" fn=rb_erase,__rb_erase_color
#include "v.h"
#ifndef DD
#define DD 1
#endif
#ifdef V_CBMC
/* see C07_rb_step.c; falls back to the plain value for anything not registered */
struct krb_node;
static struct krb_node *v_untag(uintptr_t v);
#define KGL_UNTAGGED(type, value) ((type *)v_untag(value))
static struct krb_node *reg[16]; static int nreg;
static struct krb_node *v_untag(uintptr_t v) {
	if (v == 0) return NULL;
	for (int i = 0; i < 16; i++) { if (i >= nreg) break; if (v == (uintptr_t)reg[i]) return reg[i]; }
	V_CHECK(0, "a stored parent pointer designates a node"); V_ASSUME(0);
	return NULL;
}
#define REG(x) (reg[nreg++] = (x))
#else
#define REG(x) ((void)(x))
#endif
static void *v_nodealloc(size_t n) { void *p = v_alloc(n); REG((struct krb_node *)p); return p; }
#include "kmalloc.h"
#undef xfree
#define xfree v_free
#undef xmalloc
#define xmalloc v_nodealloc
#include "src/krbtree.c"
typedef struct { struct krb_node n; int key; } kn;
static struct krb_tree T; static kn *T_[16]; static bool on[16]; static int key_[16];
static int kcmp(const void *k, const void *d) { int a = *(const int *)k, b = *(const int *)d; return a < b ? -1 : a > b ? 1 : 0; }
/* a search tree on the positions of a complete binary tree of 2^d-1 nodes (in-order key = 10*rank), any presence pattern */
static void layout(int d) {
	int N = (1 << d) - 1;
	for (int i = 1; i < 16; i++) {
		on[i] = false; if (i > N) continue;
		on[i] = V_BOOL(); V_ASSUME(i == 1 || !on[i] || on[i / 2]);
		T_[i] = (kn *)v_alloc(sizeof(kn)); REG(&T_[i]->n);
		int lvl = i == 1 ? 0 : i < 4 ? 1 : i < 8 ? 2 : 3;
		T_[i]->key = ((2 * (i - (1 << lvl)) + 1) << (d - 1 - lvl)) * 10;
		key_[i] = T_[i]->key;
		T_[i]->n.data = &T_[i]->key;
	}
	for (int i = 1; i < 16; i++) {
		if (i > N) continue;
		T_[i]->n.rb_left = 2 * i <= N && on[2 * i] ? &T_[2 * i]->n : NULL;
		T_[i]->n.rb_right = 2 * i + 1 <= N && on[2 * i + 1] ? &T_[2 * i + 1]->n : NULL;
		T_[i]->n.rb_parent_color = (uintptr_t)(i == 1 ? NULL : &T_[i / 2]->n) | (uintptr_t)V_BOOL();
	}
	T.root.rb_node = on[1] ? &T_[1]->n : NULL;
}
static kn *by_key(int k) { kn *r = NULL; for (int i = 1; i < 16; i++) if (on[i] && key_[i] == k) r = T_[i]; return r; }
void H_walk(void) {
	layout(4);
	V_REACH("walk");
	int w = V_IN(int, 1, 15); V_ASSUME(on[w]); int k = T_[w]->key;
	kn *lo = NULL, *hi = NULL, *mn = NULL, *mx = NULL;
	for (int r = 10; r < 160; r += 10) { kn *x = by_key(r); if (!x) continue; if (r < k) lo = x; if (r > k && !hi) hi = x; if (!mn) mn = x; mx = x; }
	V_CHECK(rb_next(&T_[w]->n) == (hi ? &hi->n : NULL), "next is the smallest larger key");
	V_CHECK(rb_prev(&T_[w]->n) == (lo ? &lo->n : NULL), "previous is the largest smaller key");
	V_CHECK(rb_first(&T.root) == &mn->n && rb_last(&T.root) == &mx->n, "first and last are the extremes");
	struct krb_root e; e.rb_node = NULL; V_CHECK(!rb_first(&e) && !rb_last(&e), "an empty tree has neither");
}
void H_cover(void) {
	layout(3);
	V_REACH("cover");
	int k = V_IN(int, 0, 90); kn *le = NULL, *mx = NULL;
	for (int r = 10; r < 80; r += 10) { kn *x = by_key(r); if (!x) continue; if (r <= k) le = x; mx = x; }
	struct krb_node *f = rbtree_find_cover(&T, &k, kcmp);
	V_CHECK(f == (le ? &le->n : mx ? &mx->n : NULL), "the largest key not above the one asked for, wrapping to the largest of all");
}
void H_map(void) {
	layout(3);
	V_REACH("find");
	int k = V_IN(int, 0, 90); kn *eq = by_key(k); int res = 0;
	V_CHECK(rbtree_find(&T, &k, kcmp) == (eq ? &eq->n : NULL), "finds exactly the equal key");
	struct krb_node *f = rbtree_find2(&T, &k, kcmp, &res);
	V_CHECK((f == NULL) == !on[1], "some node unless empty");
	if (f) { V_CHECK(V_IMPLIES(eq != NULL, f == &eq->n && res == 0), "the equal node if there is one");
		V_CHECK(kcmp(&k, f->data) == res && (res >= 0 || !f->rb_left) && (res <= 0 || !f->rb_right), "otherwise the place the key would have to be"); }
}
static int visit[8], nvisit; static int act[4], marg;
static iterator_ret iter(void *d, void *a) {
	V_CHECK(a == &marg, "argument handed through"); V_CHECK(nvisit < 3, "each element at most once");
	int i = nvisit; visit[nvisit++] = *(int *)d; return (iterator_ret)act[i];
}
static int isnode(struct krb_node *n) { for (int i = 1; i < 4; i++) if (on[i] && n == &T_[i]->n) return i; return 0; }
static bool stubbed; static struct krb_node *gone[4]; static int ngone;
static bool live(kn *x, int r) { if (!stubbed) return rbtree_find(&T, &r, kcmp) == &x->n; for (int i = 0; i < 4; i++) if (i < ngone && gone[i] == &x->n) return false; return true; }
static int rel(kn *x) { if (!stubbed) return v_times_freed(x); int c = 0; for (int i = 0; i < 4; i++) if (i < ngone && gone[i] == &x->n) c++; return c; }
/* contract of rbtree_remove (decided by S_unlink/S_erase): the node leaves the tree and is released; other nodes stay where they are in the order */
void c_rbtree_remove(struct krb_tree *t, struct krb_node *n) {
	V_CHECK(t == &T && ngone < 4, "removes from this tree"); gone[ngone++] = n;
	/* splice it out the plain way, leave the released node unusable */
	struct krb_node *l = n->rb_left, *r = n->rb_right, *p = rb_parent(n), *s;
	if (!l) s = r; else if (!r) s = l; else { s = r; rb_set_parent(l, s); s->rb_left = l; }   /* depth 2: r is a leaf */
	if (s) rb_set_parent(s, p);
	if (!p) T.root.rb_node = s; else if (p->rb_left == n) p->rb_left = s; else p->rb_right = s;
	n->rb_left = n->rb_right = (struct krb_node *)1; n->rb_parent_color = 0; n->data = NULL;
}
static void iter_body(void);
void H_iter(void) { stubbed = false; iter_body(); }
void M_iter(void) { stubbed = true; ngone = 0; iter_body(); }
static void iter_body(void) {
	layout(2); nvisit = 0; v_nfreed = 0;
	/* colours as insertion leaves them: black root, leaves red or both black */
	bool lb = V_BOOL();
	if (on[1]) T_[1]->n.rb_parent_color |= 1;
	for (int i = 2; i < 4; i++) { bool blk_ = lb && on[2] && on[3]; T_[i]->n.rb_parent_color = (T_[i]->n.rb_parent_color & ~1ul) | (blk_ ? 1 : 0); }
	for (int i = 0; i < 4; i++) act[i] = V_IN(int, 0, 3);
	rbtree_iterator(&T, iter, &marg);
	V_REACH("iterate");
	int want = 0; bool stop = false;
	int left = 0;
	for (int r = 10; r <= 30; r += 10) {
		kn *x = by_key(r); if (!x) continue;
		if (stop) { left++; V_CHECK(rel(x) == 0 && live(x, r), "elements behind the stop stay"); continue; }
		V_CHECK(want < nvisit && visit[want] == r, "elements are visited in order, none skipped");
		bool rem = act[want] == iterator_remove_continue || act[want] == iterator_remove_break;
		V_CHECK(rel(x) == (rem ? 1 : 0), "removed exactly when asked");
		if (!rem) { left++; V_CHECK(live(x, r), "kept elements stay findable"); }
		if (act[want] == iterator_break || act[want] == iterator_remove_break) stop = true;
		want++;
	}
	V_CHECK(nvisit == want, "visits stop when asked");
	V_CHECK((left == 0) == (T.root.rb_node == NULL), "empty exactly when all were removed");
}
void H_cmp(void) {
	int a = V_INT(), b = V_INT();
	int r = rbtree_int_cmp(&a, &b);
	V_REACH("cmp");
	V_CHECK((r < 0) == (a < b) && (r > 0) == (a > b) && (r == 0) == (a == b), "integer keys are totally ordered");
}
void H_strcmp(void) {
	char a[4], b[4]; const char *pa = a, *pb = b; for (int i = 0; i < 4; i++) { a[i] = (char)V_U8(); b[i] = (char)V_U8(); }
	a[3] = b[3] = 0;
	int r = rbtree_string_cmp(&pa, &pb), q = rbtree_string_cmp(&pb, &pa);
	V_REACH("strcmp");
	bool eq = true; int d = 0; for (int i = 0; i < 4; i++) { if (eq && a[i] != b[i]) { eq = false; d = (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; } if (!a[i] || !b[i]) break; }
	V_CHECK((r == 0) == eq && (r < 0) == (d < 0) && (r < 0) == (q > 0), "string keys are ordered byte by byte");
	int c = rbtree_string_case_cmp(&pa, &pb), e = rbtree_string_case_cmp(&pb, &pa);
	V_CHECK((c < 0) == (e > 0) && (c == 0) == (e == 0) && V_IMPLIES(eq, c == 0), "case-insensitive order is consistent");
}
/* validity of a whole tree */
#define VB(SUB) if (!n) return 0; V_CHECK((n->rb_parent_color & ~(uintptr_t)3) == (uintptr_t)p, "parent links"); int k = *(int *)n->data; V_CHECK(lo < k && k < hi, "ordered"); \
	V_CHECK(pc == 1 || rb_is_black(n), "no red under red"); cnt++; int l = SUB(n->rb_left, n, lo, k, rb_color(n)), r = SUB(n->rb_right, n, k, hi, rb_color(n)); \
	V_CHECK(l == r, "balanced"); return l + rb_color(n);
static int cnt;
static int v0(struct krb_node *n, struct krb_node *p, int lo, int hi, int pc) { V_CHECK(!n, "depth bounded by balance"); return 0; }
static int v1(struct krb_node *n, struct krb_node *p, int lo, int hi, int pc) { VB(v0) }
static int v2(struct krb_node *n, struct krb_node *p, int lo, int hi, int pc) { VB(v1) }
static int v3(struct krb_node *n, struct krb_node *p, int lo, int hi, int pc) { VB(v2) }
static int v4(struct krb_node *n, struct krb_node *p, int lo, int hi, int pc) { VB(v3) }
static void valid(int n) { cnt = 0; v4(T.root.rb_node, NULL, -1, 1000, 1); V_CHECK(cnt == n, "no element lost or duplicated"); }
static struct krb_node *mkn(void) { return (struct krb_node *)v_nodealloc(sizeof(struct krb_node)); }
#ifdef V_NATIVE
#define NI 12
#else
#define NI 5
#endif
static int keys[NI]; static int nk;
static void fill(int n) {
	rbtree_init(&T); nk = 0; V_CHECK(rbtree_is_empty(&T), "starts empty");
	for (int i = 0; i < NI; i++) {
		if (i >= n) break;
		keys[i] = V_IN(int, 0, 15);
		bool dup = false; for (int j = 0; j < NI; j++) if (j < i && keys[j] == keys[i]) dup = true;
		int flag = -1; struct krb_node *x = V_BOOL() ? rbtree_insert(&T, &keys[i], &flag, kcmp) : rbtree_insert2(&T, &keys[i], &flag, kcmp, mkn);
		V_CHECK(x && flag == !dup, "new exactly when the key was absent");
		if (!dup) { x->data = &keys[i]; nk++; } else V_CHECK(*(int *)x->data == keys[i], "the existing element otherwise");
	}
}
#ifdef V_CBMC
/* a valid red-black tree of depth <= 3 */
static int vbh[16];
static void vtree(void) {
	layout(3); nk = 0;
	for (int i = 7; i >= 1; i--) {
		if (!on[i]) continue; nk++;
		int l = 2 * i < 8 && on[2 * i] ? vbh[2 * i] : 0, r = 2 * i + 1 < 8 && on[2 * i + 1] ? vbh[2 * i + 1] : 0;
		V_ASSUME(l == r); vbh[i] = l + rb_color(&T_[i]->n);
		if (i > 1) V_ASSUME(rb_is_black(&T_[i]->n) || rb_is_black(&T_[i / 2]->n)); else V_ASSUME(rb_is_black(&T_[1]->n));
	}
}
void H_ins(void) {
	vtree();
	int k = V_IN(int, 0, 90), flag = -1; kn *eq = by_key(k);
	struct krb_node *x = V_BOOL() ? rbtree_insert(&T, &k, &flag, kcmp) : rbtree_insert2(&T, &k, &flag, kcmp, mkn);
	V_REACH("inserted");
	V_CHECK(x && flag == !eq && V_IMPLIES(eq != NULL, x == &eq->n), "new exactly when the key was absent");
	if (!eq) x->data = &k;
	valid(nk + !eq);
}
void H_del(void) {
	vtree();
	const int d = DD; V_ASSUME(on[d]); v_nfreed = 0;
	rbtree_remove(&T, &T_[d]->n);
	V_REACH("removed");
	V_CHECK(v_nfreed == 1 && v_times_freed(T_[d]) == 1, "releases the removed node only");
	valid(nk - 1);
}
#else
static int vrec(struct krb_node *n, struct krb_node *p, int lo, int hi, int pc) {
	if (!n) return 0;
	V_CHECK((n->rb_parent_color & ~(uintptr_t)3) == (uintptr_t)p, "parent links"); int k = *(int *)n->data; V_CHECK(lo < k && k < hi, "ordered");
	V_CHECK(pc == 1 || rb_is_black(n), "no red under red"); cnt++;
	int l = vrec(n->rb_left, n, lo, k, rb_color(n)), r = vrec(n->rb_right, n, k, hi, rb_color(n));
	V_CHECK(l == r, "balanced"); return l + rb_color(n);
}
void H_ins(void) {
	fill(V_IN(int, 0, NI));
	V_REACH("inserted");
	cnt = 0; vrec(T.root.rb_node, NULL, -1, 1000, 1); V_CHECK(cnt == nk, "no element lost or duplicated");
}
void H_del(void) {
	int n = V_IN(int, 1, NI); fill(n);
	int d = V_IN(int, 0, NI - 1); V_ASSUME(d < n); int k = keys[d];
	struct krb_node *x = rbtree_find(&T, &k, kcmp); V_CHECK(x != NULL, "inserted keys are found");
	v_nfreed = 0; rbtree_remove(&T, x);
	V_REACH("removed");
	V_CHECK(v_nfreed == 1 && v_times_freed(x) == 1, "releases the removed node only");
	V_CHECK(rbtree_find(&T, &k, kcmp) == NULL, "the removed key is gone");
	cnt = 0; vrec(T.root.rb_node, NULL, -1, 1000, 1); V_CHECK(cnt == nk - 1, "no element lost or duplicated");
	nk--; 
	for (int i = 0; i < NI; i++) { /* remove further elements */
		if (!T.root.rb_node) break;
		int c = V_IN(int, 0, 15); struct krb_node *y = rbtree_find_cover(&T, &c, kcmp);
		V_CHECK(y != NULL, "some element"); v_nfreed = 0; rbtree_remove(&T, y); nk--;
		cnt = 0; vrec(T.root.rb_node, NULL, -1, 1000, 1); V_CHECK(cnt == nk, "no element lost or duplicated");
	}
}
#endif
