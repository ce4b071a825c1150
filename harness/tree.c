#include "vt.h"
#include "libc.h"
#include <stdarg.h>
#include <zt.h>
/* Any valid red-black tree of depth at most D stands in for every history that leads to it: nodes
 * sit at the positions of a complete binary tree; which are present is a parameter (every shape that can
 * be coloured is run), colours and the newcomer's place in the order are symbolic. */
#ifndef D
#define D 3
#endif
#ifndef SHAPE
#define SHAPE 0
#endif
#ifndef ALLB
#define ALLB 0     /* nodes black, red in every valid colouring of the shape */
#define ALLR 0
#endif
#ifndef ATLO
#define ATLO 1
#define ATHI M
#endif
#define M ((1 << D) - 1)     /* nodes 1..M, node M+1 is the newcomer */
struct el { int key; zt_rbt_node node; };
static struct el e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16;
static struct el *const n[17] = { 0, &e1, &e2, &e3, &e4, &e5, &e6, &e7, &e8, &e9, &e10, &e11, &e12, &e13, &e14, &e15, &e16 };
#define NEW (M + 1)
static zt_rbt *root;
static bool in[M + 2];
void zt_log_lprintf(zt_log_ty *l, zt_log_level v, const char *f, ...) { (void)l; (void)v; (void)f; }
void zt_log_set_debug_info(const char *f, int l, const char *n) { (void)f; (void)l; (void)n; }
static int cmp(zt_rbt_node *a, zt_rbt_node *b) {
    int x = zt_rbt_data(a, struct el, node)->key, y = zt_rbt_data(b, struct el, node)->key;
    return x < y ? -1 : x > y ? 1 : 0;
}
static uint8_t idx(zt_rbt_node *p) {
    int i;
    if (p == NULL) return 0;
    for (i = 1; i <= NEW; i++) if (p == &n[i]->node) return i;
    VT_CHECK(0, "pointer to a node of the tree");
    VT_ASSUME(0);
    return 0;
}
static uint8_t L[M + 2], R[M + 2], P[M + 2], C[M + 2], Ky[M + 2], Rt;
static void gather(void) {
    int i;
    Rt = idx(root);
    for (i = 1; i <= NEW; i++) if (in[i]) {
        L[i] = idx(n[i]->node.left); R[i] = idx(n[i]->node.right); P[i] = idx(n[i]->node.parent);
        C[i] = n[i]->node.colour; Ky[i] = n[i]->key;
        VT_CHECK(C[i] == zt_rbt_red || C[i] == zt_rbt_black, "a colour");
    }
}
/* the elements of in[] form a valid red-black search tree */
static void valid(void) {
    int i, k;
    int8_t bh = -1;
    gather();
    bool any = false;
    for (i = 1; i <= NEW; i++) if (in[i]) any = true;
    VT_CHECK(any == (Rt != 0), "root exists iff there is an element");
    if (Rt) VT_CHECK(in[Rt] && P[Rt] == 0 && C[Rt] == zt_rbt_black, "root is a black element without parent");
    for (i = 1; i <= NEW; i++) if (in[i]) {
        if (L[i]) VT_CHECK(in[L[i]] && P[L[i]] == i, "left child links back");
        if (R[i]) VT_CHECK(in[R[i]] && P[R[i]] == i && R[i] != L[i], "right child links back");
        if (C[i] == zt_rbt_red) VT_CHECK(C[P[i]] == zt_rbt_black, "no red node has a red parent");
        /* up to the root: every element is reachable, ordered against each ancestor, black heights equal */
        uint8_t j = i, p, b = C[i] == zt_rbt_black;
        for (k = 0; k < D + 2 && (p = P[j]) != 0; k++) {
            VT_CHECK(L[p] == j || R[p] == j, "child of its parent");
            VT_CHECK(L[p] == j ? Ky[i] < Ky[p] : Ky[i] > Ky[p], "search order");
            b += C[p] == zt_rbt_black;
            j = p;
        }
        VT_CHECK(j == Rt, "reaches the root");
        if (L[i] == 0 || R[i] == 0) {
            if (bh < 0) bh = b;
            VT_CHECK(b == bh, "equal black height on every path");
        }
    }
}
/* an arbitrary valid tree in the complete-tree layout */
static void tree(void) {
    int i, k, bh = -1, b[M + 1];
    /* only the order of the keys matters (the library sees them through cmp alone): a position's key
     * is its in-order rank in the complete tree, doubled; the newcomer's is anything below, between, equal */
    for (i = 1; i <= M; i++) {
        int d = 0;
        for (k = i; k > 1; k /= 2) d++;
        n[i]->key = (2 * (i - (1 << d)) + 1) << (D - d);
    }
    n[NEW]->key = vt_u8() % (4 << D);
    if (n[NEW]->key > (2 << D)) n[NEW]->key = 2 << D;
    for (i = 1; i <= M; i++) {
        in[i] = (SHAPE >> (i - 1)) & 1;
    }
    for (i = 1; i <= M; i++) {
        zt_rbt_node *x = &n[i]->node;
        x->left = NULL; x->right = NULL; x->parent = NULL;
        if ((ALLB >> (i - 1)) & 1) x->colour = zt_rbt_black;
        else if ((ALLR >> (i - 1)) & 1) x->colour = zt_rbt_red;
        else x->colour = vt_bool() ? zt_rbt_red : zt_rbt_black;
        if (2 * i <= M && in[2 * i]) x->left = &n[2 * i]->node;
        if (2 * i + 1 <= M && in[2 * i + 1]) x->right = &n[2 * i + 1]->node;
        if (i > 1) x->parent = &n[i / 2]->node;
        if (in[i]) {
            bool red = x->colour == zt_rbt_red;
            VT_ASSUME(i > 1 ? !(red && n[i / 2]->node.colour == zt_rbt_red) : !red);
            b[i] = !red;
            if (i > 1) b[i] += b[i / 2];
            if (2 * i > M || !in[2 * i] || !in[2 * i + 1]) {
                if (bh < 0) bh = b[i];
                VT_ASSUME(b[i] == bh);
            }
        }
    }
    root = in[1] ? &n[1]->node : NULL;
    n[NEW]->node.colour = vt_bool() ? zt_rbt_red : zt_rbt_black;
}
void h_insert(void) {
    int i, dup = 0;
    tree();
    for (i = 1; i <= M; i++) if (in[i] && n[i]->key == n[NEW]->key) dup = i;
    zt_rbt_node *r = zt_rbt_insert(&root, &n[NEW]->node, cmp);
    VT_CHECK(r == (dup ? &n[dup]->node : NULL), "insert reports the element already there");
    if (!dup) in[NEW] = true;
    valid();
    VT_REACH();
}
/* removing any element */
void h_remove(void) {
    int at;
    for (at = ATLO; at <= ATHI; at++) if ((SHAPE >> (at - 1)) & 1) {
        tree();
        VT_CHECK(zt_rbt_remove(&root, &n[at]->node) == &n[at]->node, "remove returns the element");
        in[at] = false;
        valid();
    }
    VT_REACH();
}
void h_query(void) {
    int i, eq = 0, ge = 0, mn = 0, mx = 0;
    tree();
    for (i = 1; i <= M; i++) if (in[i]) {
        if (n[i]->key == n[NEW]->key) eq = i;
        if (n[i]->key >= n[NEW]->key && (!ge || n[i]->key < n[ge]->key)) ge = i;
        if (!mn || n[i]->key < n[mn]->key) mn = i;
        if (!mx || n[i]->key > n[mx]->key) mx = i;
    }
    VT_CHECK(idx(zt_rbt_find(&root, &n[NEW]->node, cmp)) == eq, "find");
    VT_CHECK(idx(zt_rbt_nfind(&root, &n[NEW]->node, cmp)) == ge, "nfind is the least element not below");
    VT_CHECK(idx(zt_rbt_min(&root)) == mn && idx(zt_rbt_max(&root)) == mx, "minimum and maximum");
    /* successor of any element */
    int at;
    for (at = 1; at <= M; at++) if (in[at]) {
        int nx = 0;
        for (i = 1; i <= M; i++) if (in[i] && n[i]->key > n[at]->key && (!nx || n[i]->key < n[nx]->key)) nx = i;
        VT_CHECK(idx(zt_rbt_next(&n[at]->node)) == nx, "next in order");
    }
    VT_CHECK(zt_rbt_next(NULL) == NULL, "no element after none");
    valid();
    VT_REACH();
}
