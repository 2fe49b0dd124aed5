/* Red-black tree: inductive step proofs.
 * The loops of rb_insert_color / __rb_erase_color / rbtree_find* / rbtree_insert* carry a hook at their head
 * (KGL_LOOP_CONTRACT, empty in normal builds).  Here the hook is the Hoare loop rule written out: the code is entered
 * in an arbitrary state satisfying the loop invariant, at the next arrival at the loop head the invariant is asserted and
 * the path ends.  The tree around the current position is concrete down to the depth one iteration can reach; what
 * hangs below is an opaque subtree (unknown size, known black height), what lies above is an opaque parent. */
//@assume lemma (paper): replacing the subtree at one position by a subtree with the same in-order sequence, the same black height and a root no redder leaves the surrounding tree ordered and balanced
//@assume xmalloc succeeds
//@ob S_insert kind=proof split=SHAPE:0,1,2,3,4;UP:0,1,2 hunwind=42 unwind=3 replayable=0 hook=rb_insert_color fallback=H_ins fn=rb_insert_color,__rb_rotate_left,__rb_rotate_right
//@ob S_erase kind=proof split=LEFT:0,1;UP:0,1,2 hunwind=42 unwind=3 replayable=0 hook=rb_erase_color fallback=H_del fn=__rb_erase_color,__rb_rotate_left,__rb_rotate_right
//@ob S_unlink split=UP:0,1,2 kind=bounded bound="successor at most 4 levels down" hunwind=42 unwind=6 replayable=0 calls=__rb_erase_color:c_erase_color fallback=H_del fn=rb_erase,rbtree_remove,rbtree_remove2
//@ob S_find kind=proof hunwind=42 unwind=3 replayable=0 hook=rbtree_find fallback=H_map fn=rbtree_find
//@ob S_find2 kind=proof hunwind=42 unwind=3 replayable=0 hook=rbtree_find2 fallback=H_map fn=rbtree_find2
//@ob S_ins kind=proof hunwind=42 unwind=3 replayable=0 hook=rbtree_insert calls=rb_insert_color:c_insert_color fallback=H_ins fn=rbtree_insert
//@ob S_ins2 kind=proof hunwind=42 unwind=3 replayable=0 hook=rbtree_insert2 calls=rb_insert_color:c_insert_color fallback=H_ins fn=rbtree_insert2
#ifndef SHAPE
#define SHAPE 0
#endif
#ifndef UP
#define UP 0
#endif
#ifndef LEFT
#define LEFT 0
#endif
#include "v.h"
/* a pointer stored in an integer with a tag bit: the same pointer, found again among the nodes of the harness (asserted),
 * so that the back end need not consider it pointing into the middle of anything */
struct krb_node;
static struct krb_node *v_untag(uintptr_t v);
#define KGL_UNTAGGED(type, value) ((type *)v_untag(value))
#include "krbtree.h"
static int heads;
static int ins_head(struct krb_node *node), era_head(struct krb_node *node, struct krb_node *parent);
static int find_head(struct krb_node *node);
static int link_head(struct krb_node ***n, struct krb_node **parent);
#define KGL_LOOP_CONTRACT_rb_insert_color if (ins_head(node)) break; else
#define KGL_LOOP_CONTRACT_rb_erase_color if (era_head(node, parent)) break; else
#define KGL_LOOP_CONTRACT_rbtree_find if (find_head(node)) break; else
#define KGL_LOOP_CONTRACT_rbtree_find2 if (find_head(node)) break; else
#define KGL_LOOP_CONTRACT_rbtree_insert if (link_head(&n, &parent)) break; else
#define KGL_LOOP_CONTRACT_rbtree_insert2 if (link_head(&n, &parent)) break; else
#include "kmalloc.h"
#undef xfree
#define xfree v_free
#include "src/krbtree.c"
#define RED 0
#define BLK 1
/* node with ghost part */
/* ghost part kept apart from the node (reached through its data pointer) */
static struct krb_node *reg[40]; static int nreg;
static struct krb_node *v_untag(uintptr_t v) {
	if (v == 0) return NULL;
	for (int i = 0; i < 40; i++) { if (i >= nreg) break; if (v == (uintptr_t)reg[i]) return reg[i]; }
	V_CHECK(0, "a stored parent pointer designates a node");
	V_ASSUME(0);
	return NULL;
}
typedef struct gh { struct krb_node *np; int bh, col, real, id; } gn;
#define PV(n) ((n)->rb_parent_color & ~(uintptr_t)3)
#define GH(x) ((gn *)(x)->data)
static int nid, deficit_on; static struct krb_node *def_node, *def_parent;
static int nseq, last_id;
static void see(gn *g) { V_CHECK(last_id < g->id, "the in-order sequence is kept"); last_id = g->id; nseq++; }
#define WALK0 (nseq = 0, last_id = -1)
static gn *mknode(int real, int col, int bh) {
	gn *g = (gn *)v_alloc(sizeof *g); struct krb_node *x = (struct krb_node *)v_alloc(sizeof *x);
	x->rb_parent_color = col; x->rb_left = NULL; x->rb_right = NULL; x->data = g; g->np = x; reg[nreg++] = x;
	g->bh = bh; g->col = col; g->real = real; g->id = nid++;
	return g;
}
static struct krb_node bogus;
static void setp(struct krb_node *n, struct krb_node *p) { if (n) n->rb_parent_color = (n->rb_parent_color & 1) | (uintptr_t)p; }
/* an arbitrary valid red-black subtree of black height k: concrete for d levels, opaque below */
#define MKBODY(SUB) \
	bool nil = k == 0 && V_BOOL(); if (nil) return NULL; \
	int col = V_IN(int, 0, 1); V_ASSUME(col == BLK || redok); V_ASSUME(col == RED || k >= 1); \
	gn *g = mknode(1, col, k); \
	g->np->rb_left = SUB(col == BLK ? k - 1 : k, col == BLK); setp(g->np->rb_left, g->np); \
	g->np->rb_right = SUB(col == BLK ? k - 1 : k, col == BLK); setp(g->np->rb_right, g->np); \
	return g->np;
static struct krb_node *mk0(int k, int redok) {
	bool nil = k == 0 && V_BOOL(); if (nil) return NULL;
	int col = V_IN(int, 0, 1); V_ASSUME(col == BLK || redok); V_ASSUME(col == RED || k >= 1);
	gn *g = mknode(0, col, k);
	g->np->rb_left = g->np->rb_right = &bogus;   /* content of an opaque subtree is off limits */
	return g->np;
}
static struct krb_node *mk1(int k, int redok) { MKBODY(mk0) }
static struct krb_node *mk2(int k, int redok) { MKBODY(mk1) }
static struct krb_node *mk3(int k, int redok) { MKBODY(mk2) }
/* checks a (sub)tree: parent links, no red under red, equal black heights; appends the in-order identity sequence */
static int leafw(struct krb_node *n, struct krb_node *par, int parcol) {
	if (!n) return 0;
	gn *g = GH(n);
	V_CHECK(PV(n) == (uintptr_t)par, "parent links are consistent");
	int col = rb_color(n);
	bool def = deficit_on && n == def_node && par == def_parent;
	V_CHECK(def || col == BLK || parcol == BLK, "no red node has a red child");
	V_CHECK(!g->real && n->rb_left == &bogus && n->rb_right == &bogus && col == g->col, "subtrees further down are untouched");
	see(g);
	return g->bh;
}
#define WBODY(SUB) \
	if (!n) return 0; \
	gn *g = GH(n); \
	if (!g->real) return leafw(n, par, parcol); \
	V_CHECK(PV(n) == (uintptr_t)par, "parent links are consistent"); \
	int col = rb_color(n); \
	bool def = deficit_on && n == def_node && par == def_parent; \
	V_CHECK(def || col == BLK || parcol == BLK, "no red node has a red child"); \
	int l = SUB(n->rb_left, n, col); see(g); int r = SUB(n->rb_right, n, col); \
	if (deficit_on && n == def_parent) { if (n->rb_left == def_node && (def_node || l < r)) l++; else if (n->rb_right == def_node) r++; } \
	V_CHECK(l == r, "both sides have the same black height"); \
	return l + (col == BLK);
static int w1(struct krb_node *n, struct krb_node *par, int parcol) { WBODY(leafw) }
static int w2(struct krb_node *n, struct krb_node *par, int parcol) { WBODY(w1) }
static int w3(struct krb_node *n, struct krb_node *par, int parcol) { WBODY(w2) }
static int w4(struct krb_node *n, struct krb_node *par, int parcol) { WBODY(w3) }
static int w5(struct krb_node *n, struct krb_node *par, int parcol) { WBODY(w4) }
static int w6(struct krb_node *n, struct krb_node *par, int parcol) { WBODY(w5) }
/* what lies above the position: nothing (it is the root), or an opaque parent on the left or right */
static struct krb_root root; static gn *up; static bool upleft; static struct krb_node *rootn, *other_side; static uintptr_t up_pc;
static void above(struct krb_node *top) {
	up = NULL;
	if (UP == 0) { root.rb_node = top; setp(top, NULL); return; }
	up = mknode(0, V_IN(int, 0, 1), 0);
	gn *x = mknode(0, BLK, 0), *o = mknode(0, BLK, 0);
	rootn = V_BOOL() && up->col == BLK ? up->np : x->np;
	if (rootn != up->np) setp(up->np, x->np);
	root.rb_node = rootn; upleft = UP == 1; other_side = o->np;
	up->np->rb_left = upleft ? top : other_side; up->np->rb_right = upleft ? other_side : top;
	setp(top, up->np); up_pc = up->np->rb_parent_color;
}
/* the subtree now hanging at the position; everything above must be as it was */
static struct krb_node *position(void) {
	if (!up) return root.rb_node;
	V_CHECK(root.rb_node == rootn, "root unchanged");
	V_CHECK(up->np->rb_parent_color == up_pc, "the node above keeps its colour and parent");
	V_CHECK((upleft ? up->np->rb_right : up->np->rb_left) == other_side, "the sibling side is untouched");
	V_CHECK(rootn->rb_parent_color == (rootn == up->np ? up_pc : BLK), "the root node is untouched");
	return upleft ? up->np->rb_left : up->np->rb_right;
}
static int nseq0;
static void same_seq(void) { V_CHECK(nseq == nseq0, "no element is lost or duplicated"); }
static void put(struct krb_node *n) { if (n) GH(n)->id = nseq++; }
/* ---------------- insertion fixup ---------------- */
static struct krb_node *insN, *insG, *insP; static int insH;
void S_insert(void) {
	nid = 0; nreg = 0; heads = 0; deficit_on = 0;
	int k = V_IN(int, 0, 1000); insH = k;
	gn *N = mknode(1, RED, k); insN = N->np;
	N->np->rb_left = mk0(k, 0); N->np->rb_right = mk0(k, 0); setp(N->np->rb_left, insN); setp(N->np->rb_right, insN);
	const int shape = SHAPE; insG = NULL; insP = NULL;
	struct krb_node *top;
	if (shape == 0) top = insN;                     /* N hangs directly at the position */
	else {
		gn *Pn = mknode(1, RED, k); insP = Pn->np; gn *Gn = mknode(1, BLK, k + 1); insG = Gn->np;
		const bool pl = SHAPE & 1, nl = SHAPE > 2;
		struct krb_node *c = mk0(k, 0), *U = mk1(k, 1);
		Pn->np->rb_left = nl ? insN : c; Pn->np->rb_right = nl ? c : insN; setp(insN, insP); setp(c, insP);
		Gn->np->rb_left = pl ? insP : U; Gn->np->rb_right = pl ? U : insP; setp(insP, insG); setp(U, insG);
		top = insG;
	}
	above(top);
	if (shape == 0) V_ASSUME(!up || up->col == BLK);
	/* in-order sequence before (red N under red P is the one permitted blemish) */
	nseq = 0; deficit_on = 0;
	{ /* flattening without the balance checks */
		#define PUT(x) put(x)
		#define PUTN(x) do { PUT((x)->rb_left); PUT(x); PUT((x)->rb_right); } while (0)
		#define PUTU(x) do { if (x) PUTN(x); } while (0)
		if (shape == 0) PUTN(insN);
		else {
			struct krb_node *U = insG->rb_left == insP ? insG->rb_right : insG->rb_left;
			if (insG->rb_right == insP) { PUTU(U); PUT(insG); }
			if (insP->rb_left == insN) { PUTN(insN); PUT(insP); PUT(insP->rb_right); } else { PUT(insP->rb_left); PUT(insP); PUTN(insN); }
			if (insG->rb_left == insP) { PUT(insG); PUTU(U); }
		}
	}
	nseq0 = nseq;
	rb_insert_color(insN, &root);
	V_REACH("insert fixup ends");
	struct krb_node *t = position();
	WALK0;
	int bh = w3(t, up ? up->np : NULL, up && shape == 0 ? BLK : BLK);
	V_CHECK(bh == (shape == 0 ? k : k + 1) || (!up && bh == (shape == 0 ? k : k + 1) + 1), "black height at the position as before (a new root may add one)");
	V_CHECK(rb_color(t) == BLK || (up && up->col == BLK), "the root is black, and no red is pushed up under a red");
	same_seq();
}
static int ins_head(struct krb_node *node) {
	if (heads++ == 0) return 0;
#if SHAPE && UP
	V_REACH("insert fixup moves up");
#endif
	/* invariant at the next head: the old grandparent is red, its subtree valid with the same black height as before */
	V_CHECK(node == insG, "moves two levels up");
	struct krb_node *t = position();
	V_CHECK(t == node && rb_color(t) == RED, "the repainted grandparent is still at the position");
	WALK0;
	int bh = w3(t, up ? up->np : NULL, BLK);
	V_CHECK(bh == insH + 1, "black height at the position as before");
	same_seq();
	V_ASSUME(0);
	return 1;
}
/* ---------------- erase fixup ---------------- */
static struct krb_node *eraP; static int eraK, eraPcol; static struct krb_node *eraN;
/* in-order sequence of a concrete neighbourhood, no checks */
static void fl0(struct krb_node *n) { put(n); }
#define FBODY(SUB) if (!n) return; gn *g = GH(n); if (!g->real) { fl0(n); return; } SUB(n->rb_left); put(n); SUB(n->rb_right);
static void fl1(struct krb_node *n) { FBODY(fl0) }
static void fl2(struct krb_node *n) { FBODY(fl1) }
static void fl3(struct krb_node *n) { FBODY(fl2) }
static void fl4(struct krb_node *n) { FBODY(fl3) }
static void fl5(struct krb_node *n) { FBODY(fl4) }
void S_erase(void) {
	nid = 0; nreg = 0; heads = 0; deficit_on = 0;
	int k = V_IN(int, 1, 1000); eraK = k;
	eraPcol = V_IN(int, 0, 1);
	gn *Pn = mknode(1, eraPcol, 0); eraP = Pn->np;
	struct krb_node *N = mk0(k - 1, 1);              /* one black short, may be red */
	struct krb_node *O = mk3(k, eraPcol == BLK);
	eraN = N;
	const bool left = LEFT;
	eraP->rb_left = left ? N : O; eraP->rb_right = left ? O : N; setp(N, eraP); setp(O, eraP);
	above(eraP);
	if (!up) V_ASSUME(eraPcol == BLK);
	V_ASSUME(!(up && eraPcol == RED && up->col == RED));
	nseq = 0; fl5(eraP); nseq0 = nseq;
	if (N) GH(N)->col = BLK;                     /* if it is red it must be painted black, and nothing else changes */
	bool nred = N && rb_is_red(N);
	__rb_erase_color(N, eraP, &root);
	V_REACH("erase fixup ends");
	if (nred) GH(N)->bh = k;
	else if (N) GH(N)->bh = k - 1;
	struct krb_node *t = position();
	WALK0;
	int bh = w5(t, up ? up->np : NULL, BLK);
	V_CHECK(bh == k + (eraPcol == BLK) || (!up && bh == k), "black height at the position is restored");
	V_CHECK(rb_color(t) == BLK || (eraPcol == RED && up), "the top is no redder than before, a root is black");
	same_seq();
}
static int era_head(struct krb_node *node, struct krb_node *parent) {
	if (heads++ == 0) return 0;
#if UP
	V_REACH("erase fixup moves up");
#endif
	V_CHECK(node == eraP && parent == (up ? up->np : NULL), "moves one level up");
	struct krb_node *t = position();
	V_CHECK(t == eraP, "the parent is still at the position");
	WALK0;
	int bh = w4(t, up ? up->np : NULL, BLK);
	V_CHECK(bh == eraK + (rb_color(t) == BLK) - 1 && rb_color(t) == eraPcol, "the subtree is valid in itself, exactly one black short");
	same_seq();
	V_ASSUME(0);
	return 1;
}
/* ---------------- unlink ---------------- */
static int fix_calls; static bool fx_in;
void c_erase_color(struct krb_node *node, struct krb_node *parent, struct krb_root *r) {
	V_CHECK(r == &root, "same tree"); fix_calls++; def_node = node; def_parent = parent; deficit_on = 1;
}
#define SPBODY(SUB) \
	bool nil = k == 0 && V_BOOL(); if (nil) return NULL; \
	int col = V_IN(int, 0, 1); V_ASSUME(col == BLK || redok); V_ASSUME(col == RED || k >= 1); \
	gn *g = mknode(1, col, k); \
	g->np->rb_left = SUB(col == BLK ? k - 1 : k, col == BLK); setp(g->np->rb_left, g->np); \
	g->np->rb_right = mk0(col == BLK ? k - 1 : k, col == BLK); setp(g->np->rb_right, g->np); \
	return g->np;
static struct krb_node *sp0(int k, int redok) { V_ASSUME(k == 0); return NULL; }
static struct krb_node *sp1(int k, int redok) { SPBODY(sp0) }
static struct krb_node *sp2(int k, int redok) { SPBODY(sp1) }
static struct krb_node *sp3(int k, int redok) { SPBODY(sp2) }
static struct krb_node *sp4(int k, int redok) { SPBODY(sp3) }
static struct krb_node *fnarg; static int fncalls;
static void fn_free(struct krb_node *n) { fnarg = n; fncalls++; }
void S_unlink(void) {
	nid = 0; nreg = 0; deficit_on = 0; fix_calls = 0; v_nfreed = 0; fncalls = 0;
	int dcol = V_IN(int, 0, 1), k = V_IN(int, 0, 4);
	gn *D = mknode(1, dcol, 0);
	D->np->rb_left = mk0(k, dcol == BLK); D->np->rb_right = V_BOOL() ? sp4(k, dcol == BLK) : NULL;
	V_ASSUME(D->np->rb_right || k == 0);
	setp(D->np->rb_left, D->np); setp(D->np->rb_right, D->np);
	above(D->np);
	if (!up) V_ASSUME(dcol == BLK);
	V_ASSUME(!(up && dcol == RED && up->col == RED));
	nseq = 0; fl5(D->np);
	/* expected: the same sequence without D */
	nseq0 = nseq - 1;
	struct krb_tree *tree = (struct krb_tree *)&root; int way = V_IN(int, 0, 2);
	int want = k + (dcol == BLK);
	if (way == 0) rb_erase(D->np, &root); else if (way == 1) rbtree_remove(tree, D->np); else rbtree_remove2(tree, D->np, fn_free);
	V_REACH("unlink");
	V_CHECK(v_nfreed == (way == 1) && (way != 1 || v_times_freed(D->np) == 1), "removal releases exactly the removed node");
	V_CHECK(fncalls == (way == 2) && (way != 2 || fnarg == D->np), "or hands exactly it to the caller's release function");
	struct krb_node *t = position();
	bool top_def = fix_calls && def_parent == (up ? up->np : NULL);
	if (top_def) V_CHECK(t == def_node, "the fixup is told where the missing black is");
	WALK0;
	int bh = w6(t, up ? up->np : NULL, BLK);
	V_CHECK(fix_calls <= 1, "one fixup");
	V_CHECK(bh == (top_def ? want - 1 : want), "black height at the position as before, but for what the fixup is told to restore");
	if (!fix_calls && up && up->col == RED) V_CHECK(!t || rb_color(t) == BLK, "no red pushed under a red parent");
	if (!fix_calls && !up) V_CHECK(!t || rb_color(t) == BLK, "the root stays black");
	same_seq();
}
/* ---------------- search and link ---------------- */
static gn *R, *Lc, *Rc; static int sgn, cmps; static int keyv; static struct krb_node **slotX; static gn *X;
static int cmp(const void *k, const void *d) { V_CHECK(k == &keyv && d == R->np->data, "the key is compared with the node it visits, key first"); cmps++; return sgn; }
static void search_state(void) {
	nid = 0; nreg = 0; heads = 0; cmps = 0;
	R = mknode(1, V_IN(int, 0, 1), 0); Lc = V_BOOL() ? mknode(0, 1, 0) : NULL; Rc = V_BOOL() ? mknode(0, 1, 0) : NULL;
	R->np->rb_left = Lc ? Lc->np : NULL; R->np->rb_right = Rc ? Rc->np : NULL;
	sgn = V_INT();
}
static int find_head(struct krb_node *node) {
	if (heads++ == 0) return 0;
	V_REACH("search descends");
	V_CHECK(cmps == 1 && sgn != 0 && node == (sgn < 0 ? R->np->rb_left : R->np->rb_right), "smaller keys are searched on the left, larger ones on the right");
	V_ASSUME(0);
	return 1;
}
void S_find(void) {
	search_state(); bool empty = V_BOOL();
	struct krb_tree t; t.root.rb_node = empty ? NULL : R->np;
	struct krb_node *f = rbtree_find(&t, &keyv, cmp);
	V_REACH("search ends");
	V_CHECK(f == (empty || sgn ? NULL : R->np), "finds the node whose key is equal, and only such a node");
	V_CHECK(empty || sgn == 0 || (sgn < 0 ? !Lc : !Rc), "gives up only where the key would have to be");
}
void S_find2(void) {
	search_state(); bool empty = V_BOOL();
	struct krb_tree t; t.root.rb_node = empty ? NULL : R->np; int res = V_INT();
	struct krb_node *f = rbtree_find2(&t, &keyv, cmp, &res);
	V_REACH("search ends");
	V_CHECK(f == (empty ? NULL : R->np), "returns the last node on the search path");
	V_CHECK(empty || res == sgn, "and how the key compares with it");
	V_CHECK(empty || sgn == 0 || (sgn < 0 ? !Lc : !Rc), "stops only where the key would have to be");
}
static struct krb_root *lr; static struct krb_node **islot; static int fixups; static struct krb_node *fixed;
void c_insert_color(struct krb_node *node, struct krb_root *r) { V_CHECK(r == lr, "same tree"); fixups++; fixed = node; }
static int link_head(struct krb_node ***n, struct krb_node **parent) {
	if (heads++ == 0) {
		V_CHECK(**n == R->np && *parent == NULL, "the search starts at the root");
		/* arbitrary iteration: the visited node hangs under some node X, on either side */
		int w = V_IN(int, 0, 2);
		if (w) { *parent = X->np; *n = w == 1 ? &X->np->rb_left : &X->np->rb_right; **n = R->np; }
		return 0;
	}
	V_REACH("search descends");
	V_CHECK(cmps == 1 && sgn != 0 && *n == (sgn < 0 ? &R->np->rb_left : &R->np->rb_right) && *parent == R->np, "descends to the side of the key, remembering the parent");
	V_ASSUME(0);
	return 1;
}
static struct krb_node *made; static int nmade;
static struct krb_node *nn(void) { nmade++; made = (struct krb_node *)v_alloc(sizeof *made); return made; }
static void ins_common(int two) {
	search_state(); X = mknode(0, 1, 0); bool empty = V_BOOL(); fixups = 0; nmade = 0;
	struct krb_tree t; t.root.rb_node = empty ? NULL : R->np; lr = &t.root; int flag = V_INT();
	uintptr_t rpc = R->np->rb_parent_color;
	struct krb_node *f = two ? rbtree_insert2(&t, &keyv, &flag, cmp, nn) : rbtree_insert(&t, &keyv, &flag, cmp);
	V_REACH("insert ends");
	struct krb_node *l = Lc ? Lc->np : NULL, *r = Rc ? Rc->np : NULL;
	if (!empty && sgn == 0) {
		V_CHECK(f == R->np && flag == 0, "an equal key returns the existing node, not flagged new");
		V_CHECK(R->np->rb_left == l && R->np->rb_right == r && fixups == 0 && nmade == 0, "and changes nothing");
	} else {
		V_CHECK(f && f != R->np && flag == 1 && (!two || (f == made && nmade == 1)), "a new key gets exactly one new node, flagged new");
		V_CHECK(f->rb_left == NULL && f->rb_right == NULL && rb_color(f) == RED, "a red leaf");
		V_CHECK(rb_parent(f) == (empty ? NULL : R->np), "with the right parent");
		V_CHECK(V_IMPLIES(empty, t.root.rb_node == f), "an empty tree gets a root");
		if (!empty) {
			V_CHECK((sgn < 0 ? R->np->rb_left : R->np->rb_right) == f && (sgn < 0 ? l : r) == NULL, "linked at the free place on the key's side");
			V_CHECK((sgn < 0 ? R->np->rb_right : R->np->rb_left) == (sgn < 0 ? r : l), "the other side is untouched");
		}
		V_CHECK(fixups == 1 && fixed == f, "then the tree is rebalanced from it");
	}
	V_CHECK(R->np->rb_parent_color == rpc, "existing nodes keep parent and colour until rebalancing");
}
void S_ins(void) { ins_common(0); }
void S_ins2(void) { ins_common(1); }
