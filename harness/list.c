#include "vt.h"
#include "libc.h"
#include <zt.h>
#ifndef OPS
#define OPS 0
#endif
#ifndef K
#define K 3
#endif
#define MAXN 12
struct it { int tag; zt_elist_t link; };
static struct it i0, i1, i2, i3, i4, i5, i6, i7, i8, i9, i10, i11;
static struct it *const all[MAXN] = { &i0, &i1, &i2, &i3, &i4, &i5, &i6, &i7, &i8, &i9, &i10, &i11 };
static int m[MAXN], mc;
static void ins(int at, int v) { int i; for (i = mc; i > at; i--) m[i] = m[i - 1]; m[at] = v; mc++; }
static void del(int at) { int i; mc--; for (i = at; i < mc; i++) m[i] = m[i + 1]; }
static void verify(zt_elist_t *h) {
    int i = 0;
    zt_elist_t *p, *q, *b = h;
    VT_CHECK(zt_elist_empty(h) == (mc == 0), "empty exactly when nothing is in it");
    zt_elist_for_each(h, p) {
        VT_CHECK(i < mc, "no more than the elements present");
        if (i >= mc) return;
        VT_CHECK(p == &all[m[i]]->link && zt_elist_data(p, struct it, link) == all[m[i]], "elements in order");
        VT_CHECK(zt_elist_get_prev(p) == b && zt_elist_get_next(b) == p, "links agree");
        b = p;
        i++;
    }
    VT_CHECK(i == mc && zt_elist_get_prev(h) == b && zt_elist_get_next(b) == h, "circular");
    i = 0;
    zt_elist_for_each_safe(h, p, q) { VT_CHECK(i < mc && p == &all[m[i]]->link, "safe iteration in order"); i++; }
    VT_CHECK(i == mc, "safe iteration is complete");
}
/* 0 add 1 add tail 2 remove any 3 join an empty list 4 join two 5 push 6 pop 7 enqueue 8 dequeue 9 peek */
void h_list(void) {
    zt_elist(h);
    long ops = OPS;
    int k, n = 0, i;
    for (i = 0; i < MAXN; i++) all[i]->tag = i;
    verify(&h);
    zt_elist_reset(&h);
    for (k = 0; k < K; k++, ops /= 10) {
        zt_elist_t *e;
        switch (ops % 10) {
        case 0: zt_elist_add(&h, &all[n]->link); ins(0, n++); break;
        case 1: zt_elist_add_tail(&h, &all[n]->link); ins(mc, n++); break;
        case 2: if (mc) { int at = vt_range(0, mc - 1); e = &all[m[at]]->link; zt_elist_remove(e); del(at); } break;
        case 3: { zt_elist(o); zt_elist_join(&h, &o); VT_CHECK(zt_elist_empty(&o), "joined empty list"); break; }
        case 4: { zt_elist(o); zt_elist_add_tail(&o, &all[n]->link); zt_elist_add_tail(&o, &all[n + 1]->link);
                  zt_elist_join(&h, &o); ins(0, n + 1); ins(0, n); n += 2; break; }
        case 5: zt_stack_push(&h, &all[n]->link); ins(0, n++); break;
        case 6: e = zt_stack_pop(&h);
                VT_CHECK(e == (mc ? &all[m[0]]->link : NULL), "pop returns the element pushed last, NULL when empty");
                if (mc) del(0); break;
        case 7: zt_queue_enqueue(&h, &all[n]->link); ins(0, n++); break;
        case 8: e = zt_queue_dequeue(&h);
                VT_CHECK(e == (mc ? &all[m[mc - 1]]->link : NULL), "dequeue returns the element enqueued first, NULL when empty");
                if (mc) del(mc - 1); break;
        case 9: if (mc) VT_CHECK(zt_stack_peek(&h) == &all[m[0]]->link && zt_queue_peek(&h) == &all[m[mc - 1]]->link, "peek"); break;
        }
        verify(&h);
    }
    for (i = 0; i < MAXN; i++) VT_CHECK(all[i]->tag == i, "elements untouched");
    VT_REACH();
}

#ifndef N
#define N 2
#endif
#ifndef M
#define M 0
#endif
static unsigned char v[N + M + 2];
static zt_llist build(int from, int n) {
    zt_llist l = NULL;
    int i;
    for (i = n - 1; i >= 0; i--) l = (i & 1) ? zt_llist_cons(&v[from + i], l) : zt_llist_push(&v[from + i], &l);
    return l;
}
static void is(zt_llist l, int from, int n, int step) {
    int i;
    for (i = 0; i < n; i++, l = zt_llist_tail(l)) {
        VT_CHECK(l != NULL, "long enough");
        if (!l) return;
        VT_CHECK(zt_llist_head(l) == (void *)&v[from + i * step], "items in order");
    }
    VT_CHECK(l == NULL, "not longer");
}
void h_cons(void) {
    int i;
    zt_llist l = build(0, N), r, o = NULL;
    is(l, 0, N, 1);
    if (N > 0) {
        i = vt_range(0, N - 1);
        VT_CHECK(zt_llist_nth(l, i) == (void *)&v[i], "nth");
        is(zt_llist_nthtail(l, i), i + 1, N - 1 - i, 1);
    }
    r = zt_llist_reverse(l);
    is(r, N - 1, N, -1);
    is(l, 0, N, 1);
    zt_llist_free(l);
    is(r, N - 1, N, -1);
    l = zt_llist_nreverse(r);
    is(l, 0, N, 1);
    for (i = 0; i < N; i++) VT_CHECK(zt_llist_pop(&l) == (void *)&v[i], "pop");
    VT_CHECK(l == NULL && zt_llist_pop(&l) == NULL && zt_llist_ppop(&l) == NULL && l == NULL, "pop of the empty list");
    /* pairs moved between lists */
    l = build(0, N);
    while (l) { zt_pair *p = zt_llist_ppop(&l); VT_CHECK(zt_llist_ppush(p, &o) == p && o == p, "push a pair"); }
    is(o, N - 1, N, -1);
    if (N >= 2) {
        r = zt_llist_split(o);
        int a = 0; for (l = o; l; l = zt_llist_tail(l)) a++;
        VT_CHECK(a > 0 && a < N && (2 * a == N || 2 * a == N + 1 || 2 * a == N - 1), "split in halves");
        is(o, N - 1, a, -1);
        is(r, N - 1 - a, N - a, -1);
        zt_llist_free(r);
    }
    zt_llist_free(o);
    zt_llist_free(NULL);
    VT_NOLEAK();
    VT_REACH();
}
#ifdef DUP      /* the items themselves are arbitrary values, repeated or not (also NULL) */
static zt_llist build_v(int from, int n) { zt_llist l = NULL; int i; for (i = n - 1; i >= 0; i--) l = zt_llist_cons((void *)(size_t)v[from + i], l); return l; }
static int gt(void *a, void *b) { return (size_t)a > (size_t)b; }
static void sorted(zt_llist l, int n) {
    int i, k, want, got;
    size_t r[N + M + 1];
    for (i = 0; i < n && l; i++, l = zt_llist_tail(l)) {
        r[i] = (size_t)zt_llist_head(l);
        VT_CHECK(i == 0 || r[i - 1] <= r[i], "in order");
    }
    VT_CHECK(i == n && l == NULL, "same length");
    for (i = 0; i < n; i++) {
        for (k = want = got = 0; k < n; k++) { want += v[k] == v[i]; got += r[k] == v[i]; }
        VT_CHECK(want == got, "every item as often as before");
    }
}
#define build build_v
#else
static int gt(void *a, void *b) { return *(unsigned char *)a > *(unsigned char *)b; }
static void sorted(zt_llist l, int n) {
    int i, seen[N + M + 1], last = -1;
    for (i = 0; i <= N + M; i++) seen[i] = 0;
    for (i = 0; i < n && l; i++, l = zt_llist_tail(l)) {
        unsigned char *p = zt_llist_head(l);
        VT_CHECK(p >= v && p < v + n, "an item of the list");
        seen[p - v]++;
        VT_CHECK(*p >= last, "in order");
        last = *p;
    }
    VT_CHECK(i == n && l == NULL, "same length");
    for (i = 0; i < n; i++) VT_CHECK(seen[i] == 1, "every item exactly once");
}
#endif
void h_sort(void) {
    vt_bytes(v, N);
    zt_llist l = zt_llist_sort(build(0, N), gt);
    sorted(l, N);
    zt_llist_free(l);
    VT_NOLEAK();
    VT_REACH();
}
void h_merge(void) {
    int i;
    vt_bytes(v, N + M);
    for (i = 1; i < N; i++) VT_ASSUME(v[i - 1] <= v[i]);
    for (i = 1; i < M; i++) VT_ASSUME(v[N + i - 1] <= v[N + i]);
    zt_llist a = build(0, N), b = build(N, M);
    zt_llist l = zt_llist_nmerge(a, b, gt);
    sorted(l, N + M);
    zt_llist_free(l);
    VT_NOLEAK();
    VT_REACH();
}
