#include "vt.h"
#include "libc.h"
#include <zt.h>
#include <libzt/zt_set.h>
#include "tablemodel.h"
#ifndef NU
#define NU 3        /* size of the universe the sets draw from */
#endif
#ifndef K
#define K 4
#endif
#ifndef LEN
#define LEN 8
#endif
#ifndef OP
#define OP 0
#endif

static uint64_t u[4];
static int destroyed[4], seen[4];
static void s_destroy(void *d) { int k; for (k = 0; k < NU; k++) if ((uint64_t)d == u[k]) destroyed[k]++; }
static int s_each(void *d, void *param) {
    int k;
    VT_CHECK(param == (void *)seen, "iterator parameter");
    for (k = 0; k < NU; k++) if ((uint64_t)d == u[k]) { seen[k]++; return 0; }
    VT_CHECK(0, "only members are visited");
    return 0;
}
static int s_stop(void *d, void *param) { (void)d; ++*(int *)param; return 3; }
static void universe(void) {
    int i, j;
    for (i = 0; i < NU; i++) {
        u[i] = vt_u64();
        if (LEN < 8) u[i] &= (1ull << (8 * (LEN % 8))) - 1;
        for (j = 0; j < i; j++) VT_ASSUME(u[i] != u[j]);
    }
}
static zt_set *mk(bool *in) {
    int k;
    zt_set *s = zt_set_init(zt_table_compare_int, NULL, NULL);
    VT_CHECK(s != NULL, "set created");
    for (k = 0; k < NU; k++) { in[k] = vt_bool(); if (in[k]) VT_CHECK(zt_set_insert(s, (void *)u[k], LEN) == 0, "insert"); }
    return s;
}
static void same(zt_set *s, const bool *in) {
    int k, n = 0;
    for (k = 0; k < NU; k++) {
        VT_CHECK(zt_set_is_member(s, (void *)u[k], LEN) == in[k], "membership");
        n += in[k];
        seen[k] = 0;
    }
    VT_CHECK(zt_set_size(s) == n, "size is the number of members");
    VT_CHECK(zt_set_for_each(s, s_each, seen) == 0, "full iteration");
    for (k = 0; k < NU; k++) VT_CHECK(seen[k] == in[k], "each member is visited once");
}
void h_seq(void) {
    int i, k;
    bool in[4] = { 0, 0, 0, 0 };
    universe();
    zt_set *s = zt_set_init(zt_table_compare_int, s_destroy, NULL);
    for (i = 0; i < K; i++) {
        int c = vt_range(0, NU - 1);
        if (vt_bool()) {
            VT_CHECK(zt_set_insert(s, (void *)u[c], LEN) == (in[c] ? 1 : 0), "insert reports whether the member was present");
            in[c] = true;
        } else {
            void *d = (void *)u[c];
            VT_CHECK(zt_set_remove(s, &d) == (in[c] ? 0 : -1), "remove reports whether the member was present");
            VT_CHECK((uint64_t)d == u[c], "removed datum returned");
            in[c] = false;
        }
    }
    same(s, in);
    int stops = 0, any = 0;
    for (k = 0; k < NU; k++) any |= in[k];
    VT_CHECK(zt_set_for_each(s, s_stop, &stops) == (any ? 3 : 0) && stops == any, "iteration stops on a nonzero return");
    zt_set_destroy(s);
    for (k = 0; k < NU; k++) VT_CHECK(destroyed[k] == in[k], "each remaining member is destroyed exactly once");
    VT_CHECK(vt_tables_live == 0, "table released");
    VT_REACH();
}
void h_algebra(void) {
    int k;
    bool a[4], b[4], r[4], sub = true, eq = true;
    universe();
    zt_set *sa = mk(a), *sb = mk(b), *sr = zt_set_init(zt_table_compare_int, NULL, NULL);
    for (k = 0; k < NU; k++) { if (a[k] && !b[k]) sub = false; if (a[k] != b[k]) eq = false; }
#if OP == 0
    VT_CHECK(zt_set_union(sr, sa, sb) == 0, "union"); for (k = 0; k < NU; k++) r[k] = a[k] || b[k];
#elif OP == 1
    VT_CHECK(zt_set_intersection(sr, sa, sb) == 0, "intersection"); for (k = 0; k < NU; k++) r[k] = a[k] && b[k];
#elif OP == 2
    VT_CHECK(zt_set_difference(sr, sa, sb) == 0, "difference"); for (k = 0; k < NU; k++) r[k] = a[k] && !b[k];
#else
    VT_CHECK((zt_set_is_subset(sa, sb) != 0) == sub, "subset test");
    VT_CHECK((zt_set_is_equal(sa, sb) != 0) == eq, "equality test");
    for (k = 0; k < NU; k++) r[k] = false;
#endif
    same(sr, r);
    same(sa, a);
    same(sb, b);
    zt_set_destroy(sa); zt_set_destroy(sb); zt_set_destroy(sr);
    VT_CHECK(vt_tables_live == 0, "tables released");
    VT_REACH();
}
