/* Mersenne Twister (Z01), against Matsumoto & Nishimura's MT19937 recurrences */
#include "vt.h"
#include <zt.h>
#ifndef LEN
#define LEN 1
#endif
#ifndef AT
#define AT 0
#endif
#define NN 624
void h_seed(void) {
    static zt_random_state s;
    uint32_t seed = vt_u32();
    int i;
    zt_random_srandom(&s, seed);
    VT_CHECK(s.mt[0] == seed, "first word is the seed");
    VT_CHECK(s.mti == NN, "regenerate before the first value");
    for (i = 1; i < NN; i++) VT_CHECK(s.mt[i] == (uint32_t)(1812433253u * (s.mt[i - 1] ^ (s.mt[i - 1] >> 30)) + (uint32_t)i), "seeding recurrence");
    VT_REACH();
}
static uint32_t temper(uint32_t y) {
    y ^= y >> 11;
    y ^= (y << 7) & 0x9d2c5680u;
    y ^= (y << 15) & 0xefc60000u;
    y ^= y >> 18;
    return y;
}
/* a state that has been seeded, with arbitrary words */
static void any(zt_random_state *s) {
    int i;
    zt_random_srandom(s, 5489);
    for (i = 0; i < NN; i++) s->mt[i] = vt_u32();
}
void h_twist(void) {
    static zt_random_state s;
    static uint32_t o[NN], n[NN];
    int i;
    any(&s);
    for (i = 0; i < NN; i++) o[i] = s.mt[i];
    uint32_t v = zt_random_uint32(&s);
    /* x[k+n] = x[k+m] xor (upper(x[k]) | lower(x[k+1])) A */
    for (i = 0; i < NN; i++) {
        uint32_t y = (o[i] & 0x80000000u) | ((i + 1 < NN ? o[i + 1] : n[0]) & 0x7fffffffu);
        n[i] = (i + 397 < NN ? o[i + 397] : n[i + 397 - NN]) ^ (y >> 1) ^ (y & 1 ? 0x9908b0dfu : 0);
        VT_CHECK(s.mt[i] == n[i], "regenerated word");
        n[i] = s.mt[i];
    }
    VT_CHECK(v == temper(s.mt[0]), "first value of the new words");
    VT_CHECK(s.mti == 1, "next value is the second");
    VT_REACH();
}
void h_next(void) {
    static zt_random_state s;
    uint32_t w = vt_u32();
    zt_random_srandom(&s, 1);
    s.mti = AT;
    s.mt[AT] = w;
    uint32_t before = s.mt[AT ? 0 : 1], v = zt_random_uint32(&s);
    VT_CHECK(v == temper(w), "tempered word");
    VT_CHECK(s.mti == AT + 1, "one word used");
    VT_CHECK(s.mt[AT] == w && s.mt[AT ? 0 : 1] == before, "state words untouched between regenerations");
    VT_REACH();
}
void h_init(void) {
    static zt_random_state s;
    static uint32_t mt[NN];
    uint32_t *key = vt_alloc(LEN ? LEN * 4 : 1), keep[LEN + 1];
    int i, j, k;
    for (i = 0; i < LEN; i++) keep[i] = key[i] = i == AT ? KEY : (uint32_t)(0x123 + 0x111 * i);
    zt_random_initstate(&s, key, LEN);
    mt[0] = 19650218u;
    for (i = 1; i < NN; i++) mt[i] = 1812433253u * (mt[i - 1] ^ (mt[i - 1] >> 30)) + (uint32_t)i;
    for (i = 1, j = 0, k = LEN > NN ? LEN : NN; k; k--) {
        mt[i] = (mt[i] ^ ((mt[i - 1] ^ (mt[i - 1] >> 30)) * 1664525u)) + (LEN ? keep[j] : 0) + (uint32_t)j;
        if (++i >= NN) { mt[0] = mt[NN - 1]; i = 1; }
        if (++j >= LEN) j = 0;
    }
    for (k = NN - 1; k; k--) {
        mt[i] = (mt[i] ^ ((mt[i - 1] ^ (mt[i - 1] >> 30)) * 1566083941u)) - (uint32_t)i;
        if (++i >= NN) { mt[0] = mt[NN - 1]; i = 1; }
    }
    mt[0] = 0x80000000u;
    for (i = 0; i < NN; i++) VT_CHECK(s.mt[i] == mt[i], "state from an array of keys");
    for (i = 0; i < LEN; i++) VT_CHECK(key[i] == keep[i], "keys untouched");
    VT_CHECK(s.mti == NN, "regenerate before the first value");
    free(key);
    VT_REACH();
}
void h_float(void) {
    static zt_random_state s;
    double r;
    zt_random_srandom(&s, 1);
    s.mti = 0;
    s.mt[0] = vt_u32();
    r = K == 0 ? zt_random_float(&s) : K == 1 ? zt_random_float00(&s) : zt_random_float10(&s);
    VT_CHECK(K == 1 ? r > 0.0 : r >= 0.0, "at least the lower end");
    VT_CHECK(K == 0 ? r <= 1.0 : r < 1.0, "at most the upper end");
    VT_REACH();
}
