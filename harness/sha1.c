/* SHA-1 (X01) */
#include "vt.h"
#include "libc.h"
#include <zt.h>
#ifndef N
#define N 3
#endif
#ifndef CUT
#define CUT 1
#endif
#ifndef AT
#define AT 0            /* the message byte that is symbolic, the rest are a fixed pattern */
#endif
static uint32_t rl(uint32_t v, int b) { return v << b | v >> (32 - b); }
/* FIPS 180-4 6.1.2, the three functions in forms whose equality to the standard's h_funcs decides */
static uint32_t f_ch(uint32_t x, uint32_t y, uint32_t z) { return (x & (y ^ z)) ^ z; }
static uint32_t f_par(uint32_t x, uint32_t y, uint32_t z) { return x ^ y ^ z; }
static uint32_t f_maj(uint32_t x, uint32_t y, uint32_t z) { return ((x | y) & z) | (x & y); }
static void ref_block(uint32_t h[5], const uint8_t *p) {
    uint32_t w[16], v[5], t;
    int i;
    for (i = 0; i < 16; i++) { t = (uint32_t)p[4 * i + 3] << 24 | (uint32_t)p[4 * i + 2] << 16 | (uint32_t)p[4 * i + 1] << 8 | p[4 * i]; w[i] = (rl(t, 24) & 0xFF00FF00) | (rl(t, 8) & 0x00FF00FF); }
    for (i = 0; i < 5; i++) v[i] = h[i];
    for (i = 0; i < 80; i++) {
        uint32_t f = i < 20 ? f_ch(v[1], v[2], v[3]) : i < 40 ? f_par(v[1], v[2], v[3]) : i < 60 ? f_maj(v[1], v[2], v[3]) : f_par(v[1], v[2], v[3]);
        uint32_t k = i < 20 ? 0x5a827999 : i < 40 ? 0x6ed9eba1 : i < 60 ? 0x8f1bbcdc : 0xca62c1d6;
        if (i >= 16) w[i & 15] = rl(w[(i + 13) & 15] ^ w[(i + 8) & 15] ^ w[(i + 2) & 15] ^ w[i & 15], 1);
        t = v[4] + (f + w[i & 15] + k + rl(v[0], 5));
        v[4] = v[3]; v[3] = v[2]; v[2] = rl(v[1], 30); v[1] = v[0]; v[0] = t;
    }
    for (i = 0; i < 5; i++) h[i] += v[i];
}
static void ref(const uint8_t *m, size_t n, uint8_t d[20]) {
    uint32_t h[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 };
    uint8_t pad[((N + 8) / 64 + 1) * 64];
    size_t i, t = ((n + 8) / 64 + 1) * 64;
    uint64_t bits = (uint64_t)n * 8;
    for (i = 0; i < t; i++) pad[i] = i < n ? m[i] : i == n ? 0x80 : i >= t - 8 ? (uint8_t)(bits >> 8 * (t - 1 - i)) : 0;
    for (i = 0; i < t; i += 64) ref_block(h, pad + i);
    for (i = 0; i < 20; i++) d[i] = (uint8_t)(h[i / 4] >> 8 * (3 - i % 4));
}
void h_digest(void) {
    uint8_t *m = vt_alloc(N ? N : 1), keep[N + 1], want[20], got[20], two[20];
    int i;
    for (i = 0; i < N; i++) keep[i] = m[i] = i == AT ? vt_u8() : (uint8_t)(i * 37 + 1);
    ref(keep, N, want);
    zt_sha1_ctx ctx;
    zt_sha1_init(&ctx);
    zt_sha1_update(&ctx, m, CUT);
    zt_sha1_update(&ctx, m + CUT, N - CUT);
    zt_sha1_finalize(&ctx, got);
    for (i = 0; i < 20; i++) VT_CHECK(got[i] == want[i], "digest in pieces");
    for (i = 0; i < N; i++) VT_CHECK(m[i] == keep[i], "input untouched");
    free(m);
    VT_REACH();
}
void h_data(void) {
    uint8_t *m = vt_alloc(N ? N : 1), keep[N + 1], want[20], got[20];
    int i;
    for (i = 0; i < N; i++) keep[i] = m[i] = i == AT ? vt_u8() : (uint8_t)(i * 91 + 7);
    ref(keep, N, want);
    zt_sha1_data(m, N, got);
    for (i = 0; i < 20; i++) VT_CHECK(got[i] == want[i], "digest in one call");
    for (i = 0; i < N; i++) VT_CHECK(m[i] == keep[i], "input untouched");
    free(m);
    VT_REACH();
}
void h_text(void) {
    uint8_t d[20], back[20];
    char *s = vt_alloc(41);
    int i;
    for (i = 0; i < 20; i++) d[i] = vt_u8();
    VT_CHECK(zt_sha1_tostr(d, s) == s, "text returned");
    for (i = 0; i < 40; i++) { int v = i & 1 ? d[i / 2] & 15 : d[i / 2] >> 4; VT_CHECK(s[i] == (v < 10 ? '0' + v : 'a' + v - 10), "hex digit"); }
    VT_CHECK(s[40] == 0, "text is terminated");
    VT_CHECK(zt_str_tosha1(s, back) == back, "digest returned");
    for (i = 0; i < 20; i++) VT_CHECK(back[i] == d[i], "text reads back");
    free(s);
    VT_REACH();
}
void h_block(void) {
    uint8_t m[64], keep[64];
    uint32_t h[5];
    zt_sha1_ctx ctx;
    int i;
    zt_sha1_init(&ctx);
    for (i = 0; i < 5; i++) h[i] = ctx.state[i] = vt_u32();
    for (i = 0; i < 64; i++) keep[i] = m[i] = vt_u8();
    ref_block(h, keep);
    zt_sha1_update(&ctx, m, 64);
    for (i = 0; i < 5; i++) VT_CHECK(ctx.state[i] == h[i], "state after a block");
    VT_REACH();
}
