#include "vt.h"
#include "libc.h"
#include <zt.h>
/* pool tree: P(i) is the parent of pool i (i < NP, parent index < i), pool 0 the root; D is destroyed
 * first, then whatever is left; every pool owns one block of each kind */
#ifndef NP
#define NP 3
#endif
#ifndef PAR
#define PAR 0      /* base 4 digits, pool 1 first */
#endif
#ifndef DEL
#define DEL 1
#endif
#define NB (4 * NP)
static zt_ez_mempool *pool[NP];
static int par[NP];
static char *blk[NB];
static unsigned char tag[NB][4];
static int released[NB], kind[NB], size[NB];
static bool dead[NP], own_live[NB];
static int lookup(void *p) { int i; for (i = 0; i < NB; i++) if (own_live[i] && blk[i] == p) return i; return -1; }
static void on_free(void *p) {
    int i = lookup(p);
    VT_CHECK(i >= 0, "only blocks of the pool are released");
    if (i < 0) return;
    VT_CHECK(kind[i] == 1 || kind[i] == 2, "released through the callback it was given with");
    released[i]++;
    own_live[i] = false;
    free(p);
}
static bool under(int i, int d) { while (i != d && i > 0) i = par[i]; return i == d; }
static void fill(int b) { int k; vt_bytes(tag[b], size[b]); for (k = 0; k < size[b]; k++) blk[b][k] = tag[b][k]; }
static void intact(void) {
    int b, k;
    for (b = 0; b < NB; b++) if (!dead[b / 4])
        for (k = 0; k < size[b]; k++) VT_CHECK((unsigned char)blk[b][k] == tag[b][k], "block of a live pool untouched");
}
static void destroy(int d) {
    int i, b;
    zt_ez_mempool_destroy(pool[d]);
    for (i = 0; i < NP; i++) if (!dead[i] && under(i, d)) {
        dead[i] = true;
        for (b = 4 * i; b < 4 * i + 4; b++) if (kind[b] == 1 || kind[b] == 2) VT_CHECK(released[b] == 1, "released exactly once");
    }
    for (b = 0; b < NB; b++) if (!dead[b / 4]) VT_CHECK(released[b] == 0, "other pools' blocks not released");
}
void h_tree(void) {
    int i, b, ps = PAR, r;
    for (i = 0; i < NP; i++) {
        if (i) { par[i] = ps % 4; ps /= 4; }
        pool[i] = zt_ez_mempool_init(i ? pool[par[i]] : NULL);
        VT_CHECK(pool[i] != NULL, "created");
        for (r = 0; r < 4; r++) {
            b = 4 * i + r;
            kind[b] = r; size[b] = 2;
            if (r == 0) blk[b] = zt_ez_mempool_alloc(pool[i], 2, NULL);
            if (r == 1) blk[b] = zt_ez_mempool_alloc(pool[i], 2, on_free);
            if (r == 2) { blk[b] = vt_alloc(2); VT_CHECK(zt_ez_mempool_add_buffer(pool[i], blk[b], 2, on_free) == 0, "buffer adopted"); }
            if (r == 3) {
                char *s = vt_cstr(i % 3), *d = zt_ez_mempool_strdup(pool[i], s);
                VT_CHECK(strcmp(s, d) == 0 && d != s, "copied string");
                free(s);
                blk[b] = d; size[b] = i % 3;
            }
            if (r < 2) VT_CHECK(blk[b][0] == 0 && blk[b][1] == 0, "blocks start zeroed");
            own_live[b] = true;
            fill(b);
        }
        intact();
    }
    VT_CHECK(zt_ez_mempool_add_buffer(pool[0], NULL, 1, NULL) == -1 && zt_ez_mempool_add_buffer(pool[0], blk[0], 0, NULL) == -1, "no buffer to adopt");
    if (DEL > 0 && DEL < NP) {
        destroy(DEL);
        intact();
        /* the survivors are still usable */
        for (i = 0; i < NP; i++) if (!dead[i]) { char *p = zt_ez_mempool_alloc(pool[i], 1, NULL); *p = 1; zt_ez_mempool *s = zt_ez_mempool_init(pool[i]); VT_CHECK(s != NULL, "subpool"); }
        intact();
        for (i = NP - 1; i > 0; i--) if (!dead[i] && (DEL & 1)) { destroy(i); intact(); }
    }
    if (!dead[0]) destroy(0);
    for (i = 0; i < NP; i++) VT_CHECK(dead[i], "everything released with the root");
    VT_NOLEAK();
    VT_REACH();
}
