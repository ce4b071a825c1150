#include "vt.h"
#include "libc.h"
#include <zt.h>
#ifndef OPS
#define OPS 0
#endif
#ifndef K
#define K 1
#endif
#ifndef SM
#define SM 3
#endif
#define MAXQ 6000
#ifdef VT_CBMC
/* as CBMC's own, except that copying nothing is allowed whatever the pointers */
void *memcpy(void *d, const void *s, size_t n) {
    if (n == 0) return d;
    __CPROVER_assert(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "vt: memcpy within its regions");
    char tmp[n];
    __CPROVER_array_copy(tmp, (char *)s);
    __CPROVER_array_replace((char *)d, tmp);
    return d;
}
#endif

/* the buffer against a byte queue; OPS spells the operations in decimal, least significant first */
static unsigned char q[MAXQ];
static size_t qh, qt;
static unsigned char src[1200], out[1200];
static unsigned char fresh(void) { return vt_u8(); }
static void put(zt_buf_t *b, size_t n) {
    size_t i;
    (void)b;
    for (i = 0; i < n; i++) {
        if (i < 2 || n < 4 || i + 1 == n || i == 77 || i == 1023) src[i] = fresh();
        else if (i == 2) i = n > 77 ? 76 : n - 2;        /* the rest stays zero */
        else if (i == 78) i = n > 1023 ? 1022 : n - 2;
        else if (i == 1024) i = n - 2;
    }
    memcpy(q + qt, src, n);
    qt += n;
}
static void verify(zt_buf_t *b) {
    VT_CHECK(zt_buf_length(b) == qt - qh, "length is the number of bytes queued");
    unsigned char *p = zt_buf_get(b);
    if (qt == qh) { VT_CHECK(p == NULL, "an empty buffer has no contents"); return; }
    VT_CHECK(p != NULL, "contents");
    size_t i = vt_u32();
    VT_ASSUME(i < qt - qh);
    VT_CHECK(p[i] == q[qh + i], "bytes are the queued bytes in order");
    VT_CHECK(p[0] == q[qh] && p[qt - qh - 1] == q[qt - 1], "first and last byte");
}
void h_queue(void) {
    int k;
    long ops = OPS;
    zt_buf_t *b = zt_buf_new();
    VT_CHECK(b != NULL && zt_buf_length(b) == 0 && zt_buf_get(b) == NULL, "a new buffer is empty");
    for (k = 0; k < K; k++, ops /= 10) {
        size_t n, un;
        switch (ops % 10) {
        case 0: put(b, SM); VT_CHECK(zt_buf_add(b, src, SM) == 0, "add"); break;
        case 1: put(b, 1100); VT_CHECK(zt_buf_add(b, src, 1100) == 0, "add"); break;
        case 2: n = 2;
        drain:
            VT_CHECK(zt_buf_drain(b, n) == (n == 0 ? 0 : n < qt - qh ? qt - qh - n : 0), "drain returns what is left");
            qh = n < qt - qh ? qh + n : qt;
            break;
        case 3: n = qt - qh > 1 ? qt - qh - 1 : 1; goto drain;
        case 4: {
            size_t want = 5, i, have = qt - qh;
            for (i = 0; i < 8; i++) out[i] = 0x5a;
            n = zt_buf_remove(b, out, want);
            VT_CHECK(n == (have < want ? have : want), "remove returns how many bytes it took");
            for (i = 0; i < n; i++) VT_CHECK(out[i] == q[qh + i], "removed bytes");
            for (; i < 8; i++) VT_CHECK(out[i] == 0x5a, "nothing written beyond");
            qh += n;
            break; }
        case 5: { size_t want = zt_buf_unused_sz(b) ? zt_buf_unused_sz(b) + 1 : 1200; zt_buf_reserve(b, want); VT_CHECK(zt_buf_unused_sz(b) >= want, "reserved room"); } break;
        case 6: un = zt_buf_length(b); zt_buf_expand(b, 10); VT_CHECK(zt_buf_unused_sz(b) >= 10, "expanded room"); VT_CHECK(zt_buf_length(b) == un, "length unchanged"); break;
        case 7: {
            zt_buf_t *o = zt_buf_new();
            unsigned char four[4];
            int i;
            vt_bytes(four, 4);
            zt_buf_add(o, four, 4);
            zt_buf_drain(o, 1);
            for (i = 1; i < 4; i++) q[qt++] = four[i];
            zt_buf_add_buf(b, o);
            VT_CHECK(zt_buf_length(o) == 0 && zt_buf_get(o) == NULL, "transferred buffer is empty");
            zt_buf_add(o, four, 2);
            VT_CHECK(zt_buf_length(o) == 2 && ((unsigned char *)zt_buf_get(o))[1] == four[1], "transferred buffer stays usable");
            zt_buf_free(o);
            break; }
        case 8: {
            zt_iov_t v[3];
            unsigned char five[5];
            int i;
            vt_bytes(five, 5);
            v[0].iov_len = 2; v[0].iov_data = five;
            v[1].iov_len = 0; v[1].iov_data = NULL;
            v[2].iov_len = 3; v[2].iov_data = five + 2;
            VT_CHECK(zt_buf_iov_len(v, 3) == 5, "vector length");
            VT_CHECK(zt_buf_iov_add(b, v, 3) == 0, "add vector");
            for (i = 0; i < 5; i++) q[qt++] = five[i];
            break; }
        default: n = qt - qh + 7; goto drain;
        }
        verify(b);
    }
    zt_buf_free(b);
    VT_NOLEAK();
    VT_REACH();
}
