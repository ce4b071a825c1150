#include "vt.h"
#include <libzt/zt_atexit.h>
#define PAGE 128            /* the system page size the pool is told */
#ifndef SIZE
#define SIZE 8
#endif
#ifndef ELTS
#define ELTS 0
#endif
#ifndef OPS
#define OPS 0
#endif
#ifndef K
#define K 3
#endif
#ifndef FLAGS
#define FLAGS 1
#endif
#ifndef CB
#define CB 0
#endif
#define W ((SIZE + 7) / 8)
/* how a page is laid out, so that the solver keeps pointers in it as pointers (a different layout is
 * still decided, only more slowly) */
#define BIG (8 * W >= (PAGE - 32) / 2)
#define EPP (BIG ? (ELTS ? ELTS : 1) : (PAGE - 32) / (24 + 8 * W))
struct vt_page { struct { void *prev, *next; } l; void *pool; unsigned long nfree;
    struct { struct { void *prev, *next; } l; void *page; unsigned long data[W]; } e[EPP];
    char pad[BIG ? 0 : PAGE - 32 - EPP * (24 + 8 * W)]; };
static long pages_out, page_allocs;
struct vt_page3 { void *h[3]; unsigned long nfree; struct { void *l[2], *page; unsigned long data[25]; } e[1]; };
struct vt_page2 { void *h[3]; unsigned long nfree; struct { void *l[2], *page; unsigned long data[14]; } e[1]; };
#ifdef VT_CBMC
extern const void *__CPROVER_memory_leak;
__CPROVER_bool nondet_vt_leak2(void);
void *malloc(size_t n) {
    void *r;
    if (n == sizeof(struct vt_page)) r = __CPROVER_allocate(sizeof(struct vt_page), 0);
#ifdef GROUP
    else if (n == sizeof(struct vt_page3)) r = __CPROVER_allocate(sizeof(struct vt_page3), 0);
    else if (n == sizeof(struct vt_page2)) r = __CPROVER_allocate(sizeof(struct vt_page2), 0);
#endif
    else r = __CPROVER_allocate(n, 0);
    if (nondet_vt_leak2()) __CPROVER_memory_leak = r;
    return r;
}
#endif
#ifdef GROUP
typedef void *group_pools[5];
# define VT_CALLOC_AS group_pools
#endif
#include "libc.h"
#include <zt.h>
VT_STUB(long, sysconf, (int name)) { (void)name; return PAGE; }
/* what zt_mem registers to run at exit (the record of it is kept until then and is no leak) */
static void (*at_exit)(void *);
static void *at_exit_data;
void zt_atexit(void (*fn)(void *), void *d) { at_exit = fn; at_exit_data = d; }
#define MAXL 12
static unsigned char *live[MAXL], tag[MAXL][SIZE];
static int n, want_free, asked;
static int release_test(size_t t, size_t f, size_t c, int flags, void *d) {
    (void)t; (void)f; (void)c;
    VT_CHECK(d == &want_free && flags == FLAGS, "callback gets its own data");
    want_free = (CB >> ++asked) & 1;     /* the answers are part of the script */
    return want_free;
}
static void intact(zt_mem_pool *p) {
    int i, k;
    zt_mem_pool_stats s;
    for (i = 0; i < n; i++) {
        VT_CHECK(((uintptr_t)live[i] & (sizeof(long) - 1)) == 0, "aligned");
        for (k = 0; k < SIZE; k++) VT_CHECK(live[i][k] == tag[i][k], "live elements keep their contents");
    }
    VT_CHECK(zt_mem_pool_get_stats(p, &s) == ZT_PASS, "stats");
    VT_CHECK(s.elt_size >= SIZE && s.requested_elts == ELTS && s.flags == FLAGS, "stats report the configuration");
    VT_CHECK(s.pages * s.elts_per_page >= (size_t)n && s.free_pages <= s.pages && s.pages == s.page_allocs - s.page_frees, "pages accounted");
    VT_CHECK((s.pages - s.free_pages) <= (size_t)n && (s.pages - s.free_pages) * s.elts_per_page >= (size_t)n, "free pages accounted");
}
static void take(zt_mem_pool *p, bool mayfail) {
    int k;
    zt_mem_pool_stats a, b;
    zt_mem_pool_get_stats(p, &a);
    live[n] = zt_mem_pool_alloc(p);
    zt_mem_pool_get_stats(p, &b);
    VT_CHECK(live[n] != NULL, "element");
    VT_CHECK(b.pages == a.pages + (a.pages * a.elts_per_page == (size_t)n), "a new page only when every element is taken");
    for (k = 0; k < SIZE; k++) { tag[n][k] = vt_u8(); live[n][k] = tag[n][k]; }
    n++;
}
static void give(int i) {
    int j, k;
    void *d = live[i];
    n--;
    for (j = i; j < n; j++) { live[j] = live[j + 1]; for (k = 0; k < SIZE; k++) tag[j][k] = tag[j + 1][k]; }
    zt_mem_pool_release(&d);
}
/* 0 alloc, 1 release the first, 2 release the last, 3 release the middle, 4 release free pages, 5 destroy while in use */
void h_pool(void) {
    long ops = OPS;
    int k;
    zt_mem_pool *p = zt_mem_pool_init("p", ELTS, SIZE, CB ? release_test : NULL, CB ? &want_free : NULL, FLAGS), *q;
    VT_CHECK(p != NULL && zt_mem_pool_get("p") == p && zt_mem_pool_get("q") == NULL && zt_mem_pool_get(NULL) == NULL, "found by its name");
    intact(p);
    for (k = 0; k < K; k++, ops /= 10) {
        switch (ops % 10) {
        case 0: take(p, false); break;
        case 1: if (n) give(0); break;
        case 2: if (n) give(n - 1); break;
        case 3: if (n) give(n / 2); break;
        case 4: { zt_mem_pool_stats s; VT_CHECK(zt_mem_pool_release_free_pages(p) == 0, "release free pages");
                  zt_mem_pool_get_stats(p, &s); VT_CHECK(s.free_pages == 0, "no free page left"); break; }
        case 5: if (n) { q = p; VT_CHECK(zt_mem_pool_destroy(&q) == -1 && q == p, "a pool in use is not destroyed"); } break;
        }
        intact(p);
    }
    VT_CHECK(zt_mem_pool_alloc(NULL) == NULL, "no pool, no element");
    while (n > 0) give(n - 1);
    VT_CHECK(zt_mem_pool_destroy(&p) == 0 && p == NULL && zt_mem_pool_get("p") == NULL, "destroyed");
    VT_REACH();
}

#define NPOOL 3
/* groups: the first pool of the description whose elements are big enough serves a request.
 * 0 1 2 request a size for the first, second, third pool, 3 one too large for all, 9 gives the last element back */
void h_group(void) {
    static const int sz[NPOOL] = { 8, 112, 200 };
    zt_mem_pool_desc desc[NPOOL + 1] = { { "a", ELTS, 8, NULL, NULL, FLAGS }, { "b", ELTS, 112, NULL, NULL, FLAGS }, { "c", ELTS, 200, NULL, NULL, FLAGS }, { NULL, 0, 0, NULL, NULL, 0 } };
    zt_mem_pool_group *g = zt_mem_pool_group_init(desc, NPOOL + 2);
    zt_mem_pool *pool[NPOOL];
    unsigned char *e[8], *p;
    int k, i, cnt = 0, used[NPOOL] = { 0 }, from[8];
    long ops = OPS;
    VT_CHECK(g != NULL, "group");
    pool[0] = zt_mem_pool_get("a"); pool[1] = zt_mem_pool_get("b"); pool[2] = zt_mem_pool_get("c");
    for (i = 0; i < NPOOL; i++) VT_CHECK(pool[i] != NULL, "every pool is registered by its name");
    for (k = 0; k < K; k++, ops /= 10) {
        int c = ops % 10;
        static const size_t lo[4] = { 1, 9, 113, 201 }, hi[4] = { 8, 112, 200, 5000 };
        size_t want = c > 3 ? 0 : k & 1 ? lo[c] : hi[c];
        if (c == 9) {
            if (cnt) { void *d = e[--cnt]; used[from[cnt]]--; zt_mem_pool_release(&d); }
        } else if (c == 3) {
            VT_CHECK(zt_mem_pool_group_alloc(g, want) == NULL, "too large for every pool");
        } else {
            p = zt_mem_pool_group_alloc(g, want);
            VT_CHECK(p != NULL && ((uintptr_t)p & 7) == 0, "served");
            for (i = 0; i < cnt; i++) VT_CHECK(e[i] != p, "distinct");
            for (i = 0; i < cnt; i++) VT_CHECK(e[i][0] == i, "others untouched");
            for (i = 0; i < sz[c]; i += 7) p[i] = 0xa5;
            p[0] = cnt;
            from[cnt] = c; e[cnt++] = p; used[c]++;
        }
        for (i = 0; i < NPOOL; i++) {
            zt_mem_pool_stats s;
            VT_CHECK(zt_mem_pool_get_stats(pool[i], &s) == ZT_PASS && (used[i] == 0 ? s.free_pages == s.pages : s.pages > s.free_pages), "taken from the first pool that fits");
        }
    }
    while (cnt) { void *d = e[--cnt]; zt_mem_pool_release(&d); }
    VT_CHECK(zt_mem_pool_group_destroy(g) == 0, "destroyed");
    VT_CHECK(!zt_mem_pool_get("a") && !zt_mem_pool_get("b") && !zt_mem_pool_get("c"), "no pool left");
    VT_REACH();
}
/* heaps hold their size in bytes; pools left at exit are destroyed then */
void h_heap(void) {
    zt_mem_heap *h = zt_mem_heap_init("h", SIZE), *g = zt_mem_heap_init(NULL, SIZE);
    zt_mem_pool *p = zt_mem_pool_init("p", ELTS, SIZE, NULL, NULL, FLAGS), *q = zt_mem_pool_init(NULL, ELTS, SIZE, NULL, NULL, FLAGS);
    unsigned char *a, *b;
    int i;
    VT_CHECK(h && g && p && q, "created");
    a = zt_mem_heap_get_data(h); b = zt_mem_heap_get_data(g);
    VT_CHECK(((uintptr_t)a & 7) == 0, "aligned");
    for (i = 0; i < SIZE; i++) { a[i] = i; b[i] = 0xff - i; }
    for (i = 0; i < SIZE; i++) VT_CHECK(a[i] == (unsigned char)i, "heap contents");
    VT_CHECK(zt_mem_heap_get_name(h)[0] == 'h' && zt_mem_heap_get_name(h)[1] == 0, "named");
    zt_mem_heap_destroy(&h); VT_CHECK(h == NULL, "cleared");
    for (i = 0; i < SIZE; i++) VT_CHECK(b[i] == (unsigned char)(0xff - i), "the other heap is intact");
    zt_mem_heap_destroy(&g);
    zt_mem_heap_destroy(NULL);
    VT_CHECK(at_exit != NULL, "cleanup at exit is arranged");
    at_exit(at_exit_data);
    VT_CHECK(zt_mem_pool_get("p") == NULL, "pools are destroyed at exit");
    VT_REACH();
}
