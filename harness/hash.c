#include "vt.h"
#include "libc.h"
#include <zt.h>
#ifndef N
#define N 4
#endif
#ifndef SPLIT
#define SPLIT 1
#endif
#ifndef BIT
#define BIT 0
#endif
#ifndef ZERO
#define ZERO 0
#endif
/* one step of FNV-1a */
#define S32(h, c) (((h) ^ (uint32_t)(unsigned char)(c)) * 0x01000193u)
#define S64(h, c) (((h) ^ (uint64_t)(unsigned char)(c)) * 0x100000001b3ull)
void h_fnv(void) {
    unsigned char *p = vt_alloc(N ? N : 1);
    int i, k;
    vt_bytes(p, N);
#if ZERO
    uint32_t i32 = 0, s32 = 0x811c9dc5u;          /* 0 asks for the published start value */
    uint64_t i64 = 0, s64 = 0xcbf29ce484222325ull;
#else
    uint32_t i32 = vt_u32() | (uint32_t)1 << (BIT % 32), s32 = i32;
    uint64_t i64 = vt_u64() | (uint64_t)1 << BIT, s64 = i64;
#endif
    uint32_t h32 = s32;
    uint64_t h64 = s64;
    char *s = vt_alloc(N + 1);
    /* by induction over the length: hash of no byte is the start value, one more byte is one more step */
    for (k = 0; k <= N; k++) {
        uint32_t a = zt_hash32_buff(p, k, i32);
        uint64_t b = zt_hash64_buff(p, k, i64);
        VT_CHECK(a == h32, "32 bit FNV-1a of the buffer");
        VT_CHECK(b == h64, "64 bit FNV-1a of the buffer");
        for (i = 0; i < k; i++) s[i] = (char)(p[i] | 1 << (i % 8));
        s[k] = 0;
        VT_CHECK(zt_hash32_cstr((uint8_t *)s, i32) == zt_hash32_buff(s, k, i32), "string form agrees");
        VT_CHECK(zt_hash64_cstr((uint8_t *)s, i64) == zt_hash64_buff(s, k, i64), "string form agrees");
        if (k < N) { h32 = S32(a, p[k]); h64 = S64(b, p[k]); }
    }
#if ZERO || N < 2
    /* 0 as the running value means "start", the published caveat of chaining */
    k = SPLIT % (N + 1);
    uint32_t c = zt_hash32_buff(p, k, i32);
    uint64_t d = zt_hash64_buff(p, k, i64);
    VT_ASSUME(c != 0 && d != 0);
    VT_CHECK(zt_hash32_buff(p + k, N - k, c) == zt_hash32_buff(p, N, i32), "pieces chain");
    VT_CHECK(zt_hash64_buff(p + k, N - k, d) == zt_hash64_buff(p, N, i64), "pieces chain");
#endif
    VT_REACH();
}
void h_fold(void) {
    unsigned char *s = vt_alloc(4);
    uint32_t h = vt_u32(), a;
    a = h; ZT_HASH24_MASK(a); VT_CHECK(a == ((h >> 24) ^ (h & 0xffffff)) && a < 1u << 24, "24 bit fold");
    a = h; ZT_HASH16_MASK(a); VT_CHECK(a == ((h >> 16) ^ (h & 0xffff)) && a < 1u << 16, "16 bit fold");
    a = h; ZT_HASH8_MASK(a); VT_CHECK(a == (((h >> 8) ^ h) & 0xff), "8 bit fold");
    a = h; ZT_HASH4_MASK(a); VT_CHECK(a == (((h >> 4) ^ h) & 0xf), "4 bit fold");
    int x = vt_range(1, 31);
    unsigned long v = h;
    ZT_HASH_SUB32_MASK(v, x);
    if (x < 16) VT_CHECK(v == (((h >> x) ^ h) & ((1ul << x) - 1)), "small fold");
    else VT_CHECK(v == ((h >> x) ^ (h & ((1ul << x) - 1))) && v < 1ul << x, "large fold");
    free(s);
    VT_REACH();
}
