/* UUID generation (U02): random numbers, SHA-1 and thread-specific storage are stand-ins that record */
#include "vt.h"
#include "libc.h"
#include <zt.h>
#include <pthread.h>
#ifndef N
#define N 3
#endif
void zt_log_lprintf(zt_log_ty *l, zt_log_level lv, const char *f, ...) { (void)l; (void)lv; (void)f; }
/* two threads, switched by the harness */
static int   cur, nkeys, once;
static void *slot[2];
VT_STUB(int, pthread_once, (pthread_once_t *o, void (*f)(void))) { (void)o; if (!once++) f(); return 0; }
VT_STUB(int, pthread_key_create, (pthread_key_t *k, void (*d)(void *))) { (void)d; *k = 7; nkeys++; return 0; }
VT_STUB(void *, pthread_getspecific, (pthread_key_t k)) { VT_CHECK(nkeys == 1 && k == 7, "key made first"); return slot[cur]; }
VT_STUB(int, pthread_setspecific, (pthread_key_t k, const void *p)) { VT_CHECK(nkeys == 1 && k == 7, "key made first"); slot[cur] = (void *)p; return 0; }

static zt_random_state *st[2];
static bool seeded[2];
static uint32_t draw[2][8];
static int nd[2], nest;
static zt_uuid_t other;
void zt_random_srandom(zt_random_state *s, uint32_t seed) { (void)seed; s->initialized = 1; seeded[cur] = true; }
void zt_random_initstate(zt_random_state *s, uint32_t *k, size_t n) { (void)k; (void)n; s->initialized = 1; seeded[cur] = true; }
uint32_t zt_random_uint32(zt_random_state *s) {
    VT_CHECK(s != NULL, "a generator");
    if (!st[cur]) st[cur] = s;
    VT_CHECK(st[cur] == s, "a thread draws from one generator");
    VT_CHECK(st[1 - cur] != s, "threads draw from generators of their own");
    if (cur == 0 && nest == nd[0] + 1) { nest = 0; cur = 1; VT_CHECK(zt_uuid4(&other) == 0, "other thread"); cur = 0; }
    uint32_t v = vt_u32();
    if (nd[cur] < 8) draw[cur][nd[cur]] = v;
    nd[cur]++;
    return v;
}
static void shape(const uint8_t *u, const uint8_t *raw, int ver) {
    int i;
    for (i = 0; i < 16; i++) {
        uint8_t w = raw[i];
        if (i == 6) w = (uint8_t)((w & 15) | ver << 4);
        if (i == 8) w = (uint8_t)((w & 0x3f) | 0x80);
        VT_CHECK(u[i] == w, "raw bytes with version and variant in place");
    }
}
void h_v4(void) {
    zt_uuid_t u, v;
    nest = vt_range(0, 4);                    /* where the other thread runs, 0: not at all */
    int n = nest;
    VT_CHECK(zt_uuid4(&u) == 0, "generates");
    VT_CHECK(nd[0] == 4, "all bits are drawn");
    shape(u.data.bytes, (uint8_t *)draw[0], 4);
    VT_CHECK(zt_uuid4(&v) == 0, "generates again");
    VT_CHECK(nd[0] == 8, "from fresh draws");
    shape(v.data.bytes, (uint8_t *)&draw[0][4], 4);
    VT_CHECK(seeded[0], "first generator is seeded");
    if (n) shape(other.data.bytes, (uint8_t *)draw[1], 4);
    VT_REACH();
}
static uint8_t fed[40], dig[20];
static int nfed, phase;
void zt_sha1_init(zt_sha1_ctx *c) { (void)c; nfed = 0; phase = 1; }
void zt_sha1_update(zt_sha1_ctx *c, uint8_t *d, size_t n) {
    size_t i;
    (void)c;
    VT_CHECK(phase == 1, "between init and finalize");
    for (i = 0; i < n; i++) { VT_CHECK(nfed < 40, "no more than namespace and name"); fed[nfed++] = d[i]; }
}
void zt_sha1_finalize(zt_sha1_ctx *c, uint8_t d[20]) { int i; (void)c; VT_CHECK(phase == 1, "once"); phase = 2; for (i = 0; i < 20; i++) d[i] = dig[i]; }
void zt_sha1_data(void *p, size_t n, uint8_t d[20]) { zt_sha1_ctx c; zt_sha1_init(&c); zt_sha1_update(&c, p, n); zt_sha1_finalize(&c, d); }
void h_v5(void) {
    static const uint8_t NS[16] = { 0x6b, 0xa7, 0xb8, 0x10, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8 };
    uint8_t *name = vt_alloc(N ? N : 1), keep[N + 1];
    zt_uuid_t u;
    int i, ns = vt_range(-1, 4);
    for (i = 0; i < N; i++) keep[i] = name[i] = vt_u8();
    for (i = 0; i < 20; i++) dig[i] = vt_u8();
    memset(u.data.bytes, 0x5a, 16);
    int r = zt_uuid5((char *)name, N, (zt_uuid_ns)ns, &u);
    if (ns < 0 || ns > 3) {
        VT_CHECK(r == -1, "unknown namespace is refused");
        for (i = 0; i < 16; i++) VT_CHECK(u.data.bytes[i] == 0x5a, "UUID untouched");
    } else {
        VT_CHECK(r == 0, "generates");
        VT_CHECK(phase == 2 && nfed == 16 + N, "namespace and name are hashed");
        for (i = 0; i < 16; i++) VT_CHECK(fed[i] == (i == 3 ? (ns == UUID_NS_DNS ? 0x10 : ns == UUID_NS_URL ? 0x11 : ns == UUID_NS_OID ? 0x12 : 0x14) : NS[i]), "namespace first");
        for (i = 0; i < N; i++) VT_CHECK(fed[16 + i] == keep[i] && name[i] == keep[i], "then the name");
        shape(u.data.bytes, dig, 5);
    }
    free(name);
    VT_REACH();
}
