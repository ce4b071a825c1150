/* UUID text forms and generation (U01, U02) */
#include "vt.h"
#include "libc.h"
#include "printf.h"
#include <zt.h>
#ifndef FMT
#define FMT 0
#endif
#ifndef LEN
#define LEN 36
#endif
#ifndef W
#define W 3
#define AT 0
#endif
#ifndef HALF
#define HALF 0
#endif
#ifndef LO
#define LO 0
#define HI 64
#endif
#define SIZE (FMT == 0 ? 36 : FMT == 1 ? 32 : 22)
#ifdef VT_CBMC
char *strchr(const char *s, int c) { size_t i; for (i = 0; ; i++) { if (s[i] == (char)c) return (char *)s + i; if (s[i] == 0) return NULL; } }
int memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *p = a, *q = b;
    size_t i;
    for (i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
    return 0;
}
#endif
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int b62v(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 36 : -1; }
static int dash(int i) { return FMT == 0 && (i == 8 || i == 13 || i == 18 || i == 23); }
static uint64_t half(const zt_uuid_t *u, int k) { uint64_t v = 0; int i; for (i = 0; i < 8; i++) v = v << 8 | u->data.bytes[8 * k + i]; return v; }
void h_hex(void) {
    zt_uuid_t u, w;
    uint8_t keep[16];
    char *s = NULL, *b;
    size_t cap = LEN, i, k = 0;
    for (i = 0; i < 16; i++) keep[i] = u.data.bytes[i] = vt_u8();
    VT_CHECK(zt_uuid_tostr(&u, &s, FMT) == SIZE, "length of the text");
    for (i = 0; i < SIZE; i++) {
        if (dash(i)) VT_CHECK(s[i] == '-', "dashes where they belong");
        else { int v = k & 1 ? keep[k / 2] & 15 : keep[k / 2] >> 4; k++; VT_CHECK(s[i] == (v < 10 ? '0' + v : 'a' + v - 10), "hex digits in order"); }
    }
    VT_CHECK(s[SIZE] == 0, "terminated");
    VT_CHECK(zt_uuid_isvalid(s, FMT) == 0, "own text is valid");
    VT_CHECK(zt_uuid_fromstr(s, &w, FMT) == 0, "own text is accepted");
    for (i = 0; i < 16; i++) VT_CHECK(w.data.bytes[i] == keep[i] && u.data.bytes[i] == keep[i], "reads back");
    b = vt_alloc(LEN ? LEN : 1);
    ssize_t r = zt_uuid_fillstr(&u, b, &cap, FMT);
    if (LEN < SIZE + 1) { VT_CHECK(r == 0 && cap == SIZE + 1, "small buffer: size wanted"); }
    else { VT_CHECK(r == SIZE, "filled"); for (i = 0; i <= SIZE; i++) VT_CHECK(b[i] == s[i], "same text"); }
    cap = 0;
    VT_CHECK(zt_uuid_fillstr(NULL, b, &cap, FMT) == 0 && cap == SIZE + 1, "size query");
    free(b); free(s);
    VT_NOLEAK();
    VT_REACH();
}
/* any text of LEN characters */
void h_parse(void) {
    char *s = vt_cstr(LEN);
    zt_uuid_t w;
    int i, k = 0;
    bool ok = LEN == SIZE;
    uint8_t want[16];
    memset(w.data.bytes, 0xa5, 16);
    if (LEN == SIZE) for (i = 0; i < LEN; i++) {
        if (dash(i)) { if (s[i] != '-') ok = false; }
        else { int v = hexv(s[i]); if (v < 0) ok = false; if (k & 1) want[k / 2] |= (uint8_t)v; else want[k / 2] = (uint8_t)((unsigned)v << 4); k++; }
    }
    VT_CHECK(zt_uuid_isvalid(s, FMT) == (ok ? 0 : -1), "isvalid");
    VT_CHECK(zt_uuid_fromstr(s, &w, FMT) == (ok ? 0 : -1), "accepted exactly when well formed");
    for (i = 0; i < 16; i++) VT_CHECK(w.data.bytes[i] == (ok ? want[i] : 0xa5), "bytes read, untouched when refused");
    free(s);
    VT_REACH();
}
void h_b62(void) {
    zt_uuid_t u, w;
    char *s = NULL, *b;
    size_t cap = LEN, i;
    int x, k;
    uint64_t v[2];
    for (k = 0; k < 2; k++) {
        /* bits LO..HI-1 arbitrary, the others a fixed pattern */
        uint64_t mask = (HI - LO == 64 ? ~0ull : ((1ull << (HI - LO)) - 1) << LO);
        v[k] = k == HALF ? (vt_u64() & mask) | (0x9e3779b97f4a7c15ull & ~mask) : 0x0123456789abcdefull * (HALF + 1);
        for (i = 0; i < 8; i++) u.data.bytes[8 * k + i] = (uint8_t)(v[k] >> (56 - 8 * i));
    }
    VT_CHECK(zt_uuid_tostr(&u, &s, FMT) == SIZE, "length of the text");
    for (k = 0; k < 2; k++) {
        uint64_t h = 0;
        for (x = 0; x < 11; x++) {
            int d = b62v(s[11 * k + (FMT == 3 && k == 0 ? 10 - x : x)]);
            VT_CHECK(d >= 0, "base62 digits");
            h = h * 62 + (uint64_t)d;
        }
        VT_CHECK(h == v[k], "digits denote the value");
    }
    VT_CHECK(s[22] == 0, "terminated");
    VT_CHECK(zt_uuid_isvalid(s, FMT) == 0, "own text is valid");
    VT_CHECK(zt_uuid_fromstr(s, &w, FMT) == 0, "own text is accepted");
    for (i = 0; i < 16; i++) VT_CHECK(w.data.bytes[i] == u.data.bytes[i], "reads back");
    b = vt_alloc(LEN ? LEN : 1);
    ssize_t r = zt_uuid_fillstr(&u, b, &cap, FMT);
    if (LEN < SIZE + 1) { VT_CHECK(r == 0 && cap == SIZE + 1, "small buffer: size wanted"); }
    else { VT_CHECK(r == SIZE, "filled"); for (i = 0; i <= SIZE; i++) VT_CHECK(b[i] == s[i], "same text"); }
    free(b); free(s);
    VT_NOLEAK();
    VT_REACH();
}
/* any text of LEN characters; at length 22 the characters outside AT..AT+W-1 spell the largest value */
void h_b62parse(void) {
    static const char top[] = "lYGhA16ahyf";
    char *s;
    s = vt_alloc(LEN + 1);
    for (int j = 0; j < LEN; j++) {
        int m = j % 11;
        if (LEN != 22 || (j >= AT && j < AT + W)) { s[j] = vt_char(); VT_ASSUME(s[j] != 0); }
        else s[j] = FMT == 3 && j < 11 ? top[10 - m] : top[m];
    }
    s[LEN] = 0;
    zt_uuid_t w;
    int x, k, i;
    bool ok = LEN == 22, chars = ok;
    uint64_t v[2] = { 0, 0 };
    memset(w.data.bytes, 0xa5, 16);
    if (LEN == 22) for (k = 0; k < 2; k++) for (x = 0; x < 11; x++) {
        int d = b62v(s[11 * k + (FMT == 3 && k == 0 ? 10 - x : x)]);
        if (d < 0) { ok = chars = false; d = 0; }
        if (v[k] > 297528130221121800ull || (v[k] == 297528130221121800ull && d > 15)) ok = false;     /* 2^64 - 1 = 62 * that + 15 */
        v[k] = v[k] * 62 + (uint64_t)d;
    }
    VT_CHECK(zt_uuid_isvalid(s, FMT) == (chars ? 0 : -1), "isvalid");
    VT_CHECK(zt_uuid_fromstr(s, &w, FMT) == (ok ? 0 : -1), "accepted exactly when it denotes a UUID");
    for (i = 0; i < 16; i++) VT_CHECK(w.data.bytes[i] == (ok ? (uint8_t)(v[i / 8] >> (56 - 8 * (i % 8))) : 0xa5), "bytes read, untouched when refused");
    free(s);
    VT_REACH();
}
void h_cmp(void) {
    zt_uuid_t a, b;
    int i, want = 0;
    for (i = 0; i < 16; i++) { a.data.bytes[i] = vt_u8(); b.data.bytes[i] = vt_u8(); }
    for (i = 15; i >= 0; i--) if (a.data.bytes[i] != b.data.bytes[i]) want = a.data.bytes[i] < b.data.bytes[i] ? -1 : 1;
    int r = zt_uuid_cmp(&a, &b), q = zt_uuid_cmp(&b, &a);
    VT_CHECK((r > 0) - (r < 0) == want, "order of bytes");
    VT_CHECK((q > 0) - (q < 0) == -want, "the other way round");
    VT_REACH();
}
