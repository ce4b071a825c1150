#include "vt.h"
#include "libc.h"
#include <errno.h>
#ifndef REALMEM
#include "memstub.h"
#endif
#include <zt.h>

#ifndef NK
#define NK 3            /* keys in play */
#endif
#ifndef K
#define K 4             /* operations */
#endif
#ifndef HASHLIM
#define HASHLIM
#endif
#ifndef HINT
#define HINT 2
#endif
#ifndef FLAGS
#define FLAGS 0
#endif
#ifdef REALMEM
VT_STUB(long, sysconf, (int n)) { (void)n; return 512; }
#endif
#ifdef VT_CBMC
int snprintf(char *s, size_t n, const char *f, ...) { (void)f; if (n) s[0] = 0; return 0; }
#endif

/* keys are addresses of cells holding their number; the hash of each key is an arbitrary 32-bit value,
 * so every collision pattern is one of the cases */
static int cell[4] = { 0, 1, 2, 3 };
static uint32_t hv[4];
static int cdata_tag;
static unsigned long t_hash(const void *key, size_t len, void *cdata) {
    VT_CHECK(cdata == &cdata_tag && len == 4, "hash callback gets key length and user data");
    return hv[*(const int *)key];
}
static int t_cmp(const void *a, size_t al, const void *b, size_t bl, void *cdata) {
    VT_CHECK(cdata == &cdata_tag && al == 4 && bl == 4, "compare callback gets key lengths and user data");
    return *(const int *)a == *(const int *)b;
}
static int dat[8];
static int seen[4], it_stop;
static int t_iter(void *key, size_t kl, void *datum, size_t dl, void *param) {
    VT_CHECK(param == &it_stop && kl == 4, "iterator arguments");
    int k = *(int *)key;
    VT_CHECK(dl == (size_t)((int *)datum - dat) + 1, "datum length kept");
    (void)datum;
    seen[k]++;
    return 0;
}
static int t_iter_stop(void *key, size_t kl, void *datum, size_t dl, void *param) {
    (void)key; (void)kl; (void)datum; (void)dl;
    if (++*(int *)param == 2) return 7;
    return 0;
}

/* K operations over NK keys from the empty table, then everything is read back; OPS spells the
 * operations in base 3 (0 set, 1 get, 2 del), keys and hashes are symbolic */
#ifndef OPS
#define OPS 0
#endif
static int OP(int i) { int v = OPS; while (i-- > 0) v /= 3; return v % 3; }
void h_map_ops(void) {
    signed char model[4][K + 1];      /* indices into dat[] */
    int cnt[4] = { 0, 0, 0, 0 }, i, k, total = 0, high = 0;
    static int other[4] = { 0, 1, 2, 3 };   /* different cells with equal keys */
    for (i = 0; i < NK; i++) { hv[i] = vt_u32(); HASHLIM }
    zt_table *t = zt_table_init("t", t_hash, t_cmp, HINT, FLAGS, &cdata_tag);
    VT_CHECK(t != NULL, "table created");
    for (i = 0; i < K; i++) {
        int op = OP(i), c = 0;
        if (i > 0) { c = vt_range(0, NK - 1); VT_ASSUME(c <= high + 1); }  /* keys are numbered by first use */
        if (c > high) high = c;
        if (op == 0) {
            int r = zt_table_set(t, &cell[c], 4, &dat[i], (size_t)i + 1);
            if (cnt[c] == 0 || (FLAGS & ZT_TABLE_ALLOW_DUP_KEYS)) {
                VT_CHECK(r == 0, "set of a new key succeeds");
                model[c][cnt[c]++] = (signed char)i;
            } else VT_CHECK(r == 1, "set of a present key is refused");
        } else {
            errno = 0;
            int *d = op == 1 ? zt_table_get(t, &other[c], 4) : zt_table_del(t, &other[c], 4);
            if (cnt[c]) VT_CHECK(d == &dat[(int)model[c][cnt[c] - 1]], "get and del return the stored datum");
            else VT_CHECK(d == NULL && errno == ENOENT, "absent key: NULL and ENOENT");
            if (op == 2 && cnt[c]) cnt[c]--;
        }
    }
    for (k = 0; k < NK; k++) {
        int *d = zt_table_get(t, &cell[k], 4);
        if (cnt[k]) VT_CHECK(d == &dat[(int)model[k][cnt[k] - 1]], "final contents");
        else VT_CHECK(d == NULL, "final contents");
        total += cnt[k];
    }
    VT_CHECK(zt_table_for_each(t, t_iter, &it_stop) == 0, "full iteration returns 0");
    for (k = 0; k < NK; k++) VT_CHECK(seen[k] == cnt[k], "iteration visits every pair exactly once");
    int visits = 0;
    VT_CHECK(zt_table_for_each(t, t_iter_stop, &visits) == (total >= 2 ? 7 : 0), "iteration stops with the iterator's value");
    zt_table_destroy(t);
    VT_REACH();
}

/* copy into another table: union, the target's own entries win */
void h_copy(void) {
    int i, k, in1[4], in2[4];
    for (i = 0; i < NK; i++) { hv[i] = vt_u32(); HASHLIM }
    zt_table *a = zt_table_init("a", t_hash, t_cmp, HINT, FLAGS, &cdata_tag);
    zt_table *b = zt_table_init(NULL, t_hash, t_cmp, 4, ZT_TABLE_SIZE_USE_HINT, &cdata_tag);
    int any = 0;
    for (k = 0; k < NK; k++) {
        in1[k] = vt_bool(); in2[k] = vt_bool();
        if (in1[k]) { any = 1; VT_CHECK(zt_table_set(a, &cell[k], 4, &dat[k], (size_t)k + 1) == 0, "set"); }
        if (in2[k]) VT_CHECK(zt_table_set(b, &cell[k], 4, &dat[4], 5) == 0, "set");
    }
    VT_CHECK(zt_table_copy(a, b) == any, "copy reports whether there was anything");
    for (k = 0; k < NK; k++) {
        VT_CHECK(zt_table_get(a, &cell[k], 4) == (in1[k] ? &dat[k] : NULL), "source unchanged");
        VT_CHECK(zt_table_get(b, &cell[k], 4) == (in2[k] ? &dat[4] : in1[k] ? &dat[k] : NULL), "copy is the union");
    }
    zt_table_destroy(a);
    zt_table_destroy(b);
    VT_REACH();
}

/* size hints: whatever the hint, keys can be stored and found without leaving the bucket array */
void h_hint(void) {
    hv[0] = vt_u32(); hv[1] = vt_u32();
    zt_table *t = zt_table_init("t", t_hash, t_cmp, HINT, FLAGS, &cdata_tag);
    VT_CHECK(t != NULL, "table created");
    VT_CHECK(zt_table_set(t, &cell[0], 4, &dat[0], 1) == 0, "set");
    VT_CHECK(zt_table_set(t, &cell[1], 4, &dat[1], 2) == 0, "set");
    VT_CHECK(zt_table_get(t, &cell[0], 4) == &dat[0] && zt_table_get(t, &cell[1], 4) == &dat[1], "get");
    VT_CHECK(zt_table_del(t, &cell[0], 4) == &dat[0], "del");
    VT_CHECK(zt_table_get(t, &cell[0], 4) == NULL && zt_table_get(t, &cell[1], 4) == &dat[1], "get");
    VT_CHECK(zt_table_init("t", NULL, t_cmp, HINT, FLAGS, NULL) == NULL && zt_table_init("t", t_hash, NULL, HINT, FLAGS, NULL) == NULL,
             "missing callbacks refused");
    VT_REACH();
}

/* provided key functions */
#ifndef N
#define N 2
#endif
#ifndef M
#define M N
#endif
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
void h_keys(void) {
    int i;
    bool eq = N == M, eqc = N == M, eqb = N == M;
    char *a = vt_cstr(N), *b = vt_cstr(M);
    for (i = 0; i < N && i < M; i++) {
        if (a[i] != b[i]) eq = false;
        if (lower((unsigned char)a[i]) != lower((unsigned char)b[i])) eqc = false;
    }
    VT_CHECK((zt_table_compare_string(a, N, b, M, NULL) != 0) == eq, "string keys are equal iff all characters are");
#ifndef BIGCASE
    for (i = 0; i < N; i++) VT_ASSUME((unsigned char)a[i] < 128);
    for (i = 0; i < M; i++) VT_ASSUME((unsigned char)b[i] < 128);
#endif
    VT_CHECK((zt_table_compare_string_case(a, N, b, M, NULL) != 0) == eqc, "case-insensitive string keys");
    char *c = vt_alloc(N + 1);
    for (i = 0; i <= N; i++) c[i] = a[i];
    VT_CHECK(zt_table_hash_string(a, N, NULL) == zt_table_hash_string(c, N, NULL), "equal strings hash equally");
    unsigned char *p = vt_alloc(N ? N : 1), *q = vt_alloc(M ? M : 1);
    vt_bytes(p, N); vt_bytes(q, M);
    for (i = 0; i < N && i < M; i++) if (p[i] != q[i]) eqb = false;
    VT_CHECK((zt_table_compare_buff(p, N, q, M, NULL) != 0) == eqb, "buffer keys are equal iff all bytes are");
    unsigned char *r = vt_alloc(N ? N : 1);
    for (i = 0; i < N; i++) r[i] = p[i];
    VT_CHECK(zt_table_hash_buff(p, N, NULL) == zt_table_hash_buff(r, N, NULL), "equal buffers hash equally");
    VT_REACH();
}
#ifndef W
#define W 4
#endif
void h_intkeys(void) {
    uint64_t x = vt_u64(), y = vt_u64();
    int w = W;
    uint64_t mask = W == 8 ? ~0ull : (1ull << (8 * (W % 8))) - 1;
    bool eq = ((x ^ y) & mask) == 0;
    VT_CHECK((zt_table_compare_int((void *)x, w, (void *)y, w, NULL) != 0) == eq, "integer keys are equal iff their w bytes are");
    VT_CHECK(zt_table_compare_int((void *)x, w, (void *)x, W == 8 ? 4 : 8, NULL) == 0, "keys of different width differ");
    y = (y & ~mask) | (x & mask);
    VT_CHECK(zt_table_hash_int((void *)x, w, NULL) == zt_table_hash_int((void *)y, w, NULL), "equal integers hash equally");
    VT_REACH();
}
