#include "vt.h"
#include <zt.h>
#include <libzt/zt_base.h>

#ifndef DEF
#define DEF 0
#endif
#ifndef N
#define N 3
#endif

static zt_base_definition_t *def(void) {
    switch (DEF) {
        case 0: return zt_base64_rfc;
        case 1: return zt_base64_rfc_nopad;
        case 2: return zt_base64_uri;
        case 3: return zt_base32_rfc;
        case 4: return zt_base32_hex;
        default: return zt_base16_rfc;
    }
}
#define BITS   (DEF <= 2 ? 6 : DEF <= 4 ? 5 : 4)
#define GROUP  (DEF <= 2 ? 4 : DEF <= 4 ? 8 : 2)
#define PADDED (DEF != 1 && DEF != 5)

/* RFC 4648 alphabets, stated independently of the library's tables */
static char alpha(unsigned v) {
    if (DEF <= 2) {
        if (v < 26) return 'A' + v;
        if (v < 52) return 'a' + (v - 26);
        if (v < 62) return '0' + (v - 52);
        if (v == 62) return DEF == 2 ? '-' : '+';
        return DEF == 2 ? '_' : '/';
    }
    if (DEF == 3) return v < 26 ? 'A' + v : '2' + (v - 26);
    if (DEF == 4) return v < 10 ? '0' + v : 'A' + (v - 10);
    return v < 10 ? '0' + v : 'A' + (v - 10);
}
/* value of a text character: >= 0, -1 invalid, -2 ignorable */
static int unalpha(unsigned char c) {
    if (c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '=') return -2;
    if (DEF <= 2) {
        if (c >= 'A' && c <= 'Z') return c - 'A';
        if (c >= 'a' && c <= 'z') return c - 'a' + 26;
        if (c >= '0' && c <= '9') return c - '0' + 52;
        if (c == (DEF == 2 ? '-' : '+')) return 62;
        if (c == (DEF == 2 ? '_' : '/')) return 63;
        return -1;
    }
    if (DEF == 3) {
        if (c >= 'A' && c <= 'Z') return c - 'A';
        if (c >= '2' && c <= '7') return c - '2' + 26;
        return -1;
    }
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'A' && c <= (DEF == 4 ? 'V' : 'F')) return c - 'A' + 10;
    return -1;
}
static unsigned bits_at(const unsigned char *in, size_t n, size_t bit, unsigned cnt) {
    unsigned v = 0, k;
    for (k = 0; k < cnt; k++, bit++) {
        unsigned b = bit / 8 < n ? (in[bit / 8] >> (7 - bit % 8)) & 1u : 0;
        v = v << 1 | b;
    }
    return v;
}
/* RFC 4648 length */
static size_t reflen(size_t n, bool pad) {
    size_t sym = (n * 8 + BITS - 1) / BITS;
    return pad ? (sym + GROUP - 1) / GROUP * GROUP : sym;
}
static char refchar(const unsigned char *in, size_t n, size_t i) {
    if (i * BITS >= n * 8) return '=';
    return alpha(bits_at(in, n, i * BITS, BITS));
}

/* encode: exact RFC text, exact length, size query, short buffer, caller buffer and allocated buffer */
void h_encode(void) {
    unsigned char *in = vt_alloc(N ? N : 1);
    size_t want = reflen(N, PADDED), i, olen;
    void *out;
    int rc;
    vt_bytes(in, N);
    unsigned char *keep = vt_alloc(N ? N : 1);
    memcpy(keep, in, N);

    olen = 0xffff;
    rc = zt_base_encode(def(), in, N, NULL, &olen);
    VT_CHECK(rc == 0 && olen == want, "size query reports the RFC 4648 length");

    VT_CHECK(zt_base_encode(def(), in, N, &out, NULL) == -1, "missing length pointer is refused");

    unsigned char *buf = vt_alloc(want ? want : 1);
    for (i = 0; i < want; i++) buf[i] = 0xEE;
    if (want > 0) {
        olen = (size_t)vt_range(0, (int)want - 1);
        VT_ASSUME(olen > 0);
        out = buf;
        rc = zt_base_encode(def(), in, N, &out, &olen);
        VT_CHECK(rc == -2 && olen == want, "short buffer refused and needed size reported");
        for (i = 0; i < want; i++) VT_CHECK(buf[i] == 0xEE, "refused encode writes nothing");
    }
    olen = want + (size_t)vt_range(0, 3);
    out = buf;
    rc = zt_base_encode(def(), in, N, &out, &olen);
    VT_CHECK(rc == 0 && olen == want && out == buf, "encode succeeds with the exact length");
    for (i = 0; i < want; i++) VT_CHECK(buf[i] == (unsigned char)refchar(in, N, i), "encoded text is the RFC 4648 text");
    for (i = 0; i < N; i++) VT_CHECK(in[i] == keep[i], "input unchanged");

    out = NULL; olen = 0;
    rc = zt_base_encode(def(), in, N, &out, &olen);
    VT_CHECK(rc == 0 && olen == want, "allocating encode succeeds");
    if (N > 0) {
        VT_CHECK(out != NULL, "allocating encode returns a buffer");
        for (i = 0; i < want; i++) VT_CHECK(((unsigned char *)out)[i] == (unsigned char)refchar(in, N, i), "allocated text is the RFC 4648 text");
    }
    VT_REACH();
}

#ifndef UNPAD
#define UNPAD 0
#endif
#define CANARY 0xA5

/* decode(encode(x)) == x through the library on both sides, padding kept or dropped (UNPAD), plus an
 * arbitrary white-space character spliced in at position SPLICE */
void h_roundtrip(void) {
    unsigned char in[N ? N : 1];
    vt_bytes(in, N);
    void *enc = NULL;
    size_t elen = 0, i, k = 0;
    VT_CHECK(zt_base_encode(def(), in, N, &enc, &elen) == 0, "encode");
    const size_t full = reflen(N, PADDED), sym = reflen(N, false);
    VT_CHECK(elen == full, "encoded length");
    const size_t use = UNPAD ? sym : full;
#ifdef SPLICE
    char *t = vt_alloc(use + 1);
    char ws = vt_char();
    VT_ASSUME(ws == ' ' || ws == '\t' || ws == '\r' || ws == '\n');
    for (i = 0; i <= use; i++) { if (i == (size_t)(SPLICE < use ? SPLICE : use)) t[i] = ws; else t[i] = ((char *)enc)[k++]; }
    const size_t tl = use + 1;
#else
    char *t = enc;
    const size_t tl = use;
#endif
    unsigned char dec[2 * N + 12];
    for (i = 0; i < sizeof dec; i++) dec[i] = CANARY;
    size_t dlen = sizeof dec;
    void *out = dec;
    VT_CHECK(zt_base_decode(def(), t, tl, &out, &dlen) == 0, "decode of encoded text succeeds");
    VT_CHECK(dlen == N, "decoded length is the original length");
    VT_CHECK(out == dec, "caller's buffer kept");
    for (i = 0; i < N; i++) VT_CHECK(dec[i] == in[i], "decoded bytes are the original bytes");
    for (i = N; i < sizeof dec; i++) VT_CHECK(dec[i] == CANARY, "nothing written past the decoded bytes");
    VT_REACH();
}

/* the allocating form */
void h_decode_alloc(void) {
    unsigned char in[N ? N : 1];
    char t[3 * N + 8];
    size_t i, dlen = 0;
    void *dec = NULL;
    vt_bytes(in, N);
    const size_t tl = reflen(N, PADDED && !UNPAD);
    for (i = 0; i < tl; i++) t[i] = refchar(in, N, i);
    VT_CHECK(zt_base_decode(def(), t, tl, &dec, &dlen) == 0, "decode of encoded text succeeds");
    VT_CHECK(dlen == N && dec != NULL, "allocating decode reports the length");
    for (i = 0; i < N; i++) VT_CHECK(((unsigned char *)dec)[i] == in[i], "decoded bytes are the original bytes");
    VT_REACH();
}

/* arbitrary text: rejected iff it holds a foreign character or an impossible symbol count; otherwise
 * the bytes are the RFC 4648 value; never outside a buffer of the size the query reports */
void h_decode_any(void) {
    unsigned char t[N];
    vt_bytes(t, N);
    size_t i, need = 0, olen, cnt = 0, nb = 0;
    unsigned acc = 0, have = 0;
    unsigned char ref[N + 1];
    bool bad = false;
    for (i = 0; i < N; i++) {
        int v = unalpha(t[i]);
        if (v == -1) bad = true;
        if (v >= 0 && !bad) {
            acc = (acc << BITS | (unsigned)v) & 0xffff; have += BITS; cnt++;
            if (have >= 8) { have -= 8; ref[nb++] = (unsigned char)(acc >> have); }
        }
    }
    VT_CHECK(zt_base_decode(def(), t, N, NULL, &need) == 0, "size query succeeds");
    VT_CHECK(need <= N, "decoded text is never longer than its encoding");
    if (!bad) VT_CHECK(need >= nb, "size query is sufficient");
    size_t rem = cnt % GROUP;
    bool badcount = (DEF <= 2) ? rem == 1 : (DEF <= 4) ? (rem == 1 || rem == 3 || rem == 6) : false;

    unsigned char buf[N + 8];
    for (i = 0; i < sizeof buf; i++) buf[i] = CANARY;
    void *out = buf;
    size_t small = (size_t)vt_range(0, N);
    if (small < need) {
        int rc2 = zt_base_decode(def(), t, N, &out, &small);
        VT_CHECK(rc2 == -2 && small == need, "short buffer refused and needed size reported");
        for (i = 0; i < sizeof buf; i++) VT_CHECK(buf[i] == CANARY, "refused decode writes nothing");
    }
    olen = need;
    int rc = zt_base_decode(def(), t, N, &out, &olen);
    VT_CHECK(out == buf, "caller's buffer kept");
    for (i = 0; i < sizeof buf; i++) if (i >= need) VT_CHECK(buf[i] == CANARY, "never past the size the query reported");
    if (bad || badcount) VT_CHECK(rc == -1, "foreign characters and impossible lengths are rejected");
    else if (DEF == 5 && rem) VT_CHECK(rc == -1 || olen == nb, "odd hex digit");
    else {
        VT_CHECK(rc == 0, "valid text accepted");
        VT_CHECK(olen == nb, "decoded length");
        for (i = 0; i < N; i++) if (i < nb) VT_CHECK(buf[i] == ref[i], "decoded bytes");
    }
    VT_REACH();
}
