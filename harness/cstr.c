#define VT_KNOWN_STRLEN
#include "vt.h"
#include "libc.h"
#include <zt.h>
#include <errno.h>

#ifndef N
#define N 3
#endif
#ifndef M
#define M 2
#endif
#define CANARY 0x5A

/* the documented index rule: negative counts from the end, past the end is the last character */
static int nidx(int i, int len) {
    if (i < 0) i += len;
    return i >= len ? len - 1 : i;
}
static void norm(int *i, int *j, int len) {
    if (len == 0) { *i = 0; *j = -1; return; }
    *i = nidx(*i, len); *j = nidx(*j, len);
    if (*i > *j) { int t = *i; *i = *j; *j = t; }
}
static bool same(const char *a, const char *b, size_t n) {
    size_t i;
    for (i = 0; i < n; i++) if (a[i] != b[i]) return false;
    return true;
}
static bool inset(char c, const char *set, int n) {
    int i;
    for (i = 0; i < n; i++) if (set[i] == c) return true;
    return false;
}
static char *copy(const char *s, size_t n) {
    char *k = vt_alloc(n + 1);
    size_t i;
    for (i = 0; i <= n; i++) k[i] = s[i];
    return k;
}
#ifndef LO
#define LO (-(N))
#endif
#ifndef HI
#define HI ((N) + 1)
#endif

/* ------------------------------------------------------------------ C02 slices */
/* every index pair of a length-N string, every content */
void h_sub(void) {
    char *s = vt_cstr(N), *k = copy(s, N);
    for (int i = LO; i <= HI; i++) {
      for (int j = LO; j <= HI; j++) {
        int a = i, b = j, x;
        norm(&a, &b, N);
        char *r = zt_cstr_sub(s, i, j);
        int n = b - a + 1;
        VT_CHECK(r != NULL && r != s, "sub returns a fresh string");
        for (x = 0; x < N; x++) if (x < n) VT_CHECK(r[x] == k[a + x], "sub copies s[i:j]");
        VT_CHECK(r[n] == 0, "sub is terminated at its length");
        free(r);
        r = zt_cstr_reverse(s, i, j);
        VT_CHECK(r != NULL && r != s, "reverse returns a fresh string");
        for (x = 0; x < N; x++) if (x < n) VT_CHECK(r[x] == k[b - x], "reverse of s[i:j]");
        VT_CHECK(r[n] == 0, "reverse is terminated at its length");
        free(r);
        VT_CHECK(zt_cstr_len(s, i, j) == (size_t)n, "len is the number of characters of the slice");
        if (N > 0) VT_CHECK(zt_cstr_pos(s, i) == (size_t)nidx(i, N), "pos is the index counted from the start");
      }
    }
    VT_CHECK(same(s, k, N + 1), "input unchanged");
    free(s); free(k);
    VT_NOLEAK();
    VT_REACH();
}

#ifndef REP
#define REP 2
#endif
void h_dup(void) {
    char *s = vt_cstr(N), *k = copy(s, N);
    for (int i = LO; i <= HI; i++)
        for (int j = LO; j <= HI; j++) {
            int a = i, b = j, x;
            norm(&a, &b, N);
            int n = b - a + 1;
            char *r = zt_cstr_dup(s, i, j, REP);
            VT_CHECK(r != NULL && r != s, "dup returns a fresh string");
            for (x = 0; x < n * REP; x++) VT_CHECK(r[x] == k[a + x % n], "dup repeats s[i:j]");
            VT_CHECK(r[n * REP] == 0, "dup is terminated at n copies");
            free(r);
        }
    VT_CHECK(zt_cstr_dup(NULL, 0, -1, 1) == NULL, "dup of NULL is NULL");
    VT_CHECK(same(s, k, N + 1), "input unchanged");
    free(s); free(k);
    VT_NOLEAK();
    VT_REACH();
}

/* cat and catv of two slices, every index pair of the first with a family of the second */
void h_cat(void) {
    char *s = vt_cstr(N), *t = vt_cstr(M), *ks = copy(s, N), *kt = copy(t, M);
    for (int i = LO; i <= HI; i++)
        for (int j = LO; j <= HI; j++)
            for (int c = 0; c < 4; c++) {
                int i2 = c == 0 || c == 3 ? 0 : c == 1 ? -1 : M, j2 = c == 0 ? -1 : c == 1 ? 0 : c == 3 ? M - 2 : M;
                if (c == 3 && M < 2) continue;
                int a = i, b = j, a2 = i2, b2 = j2, x;
                norm(&a, &b, N); norm(&a2, &b2, M);
                int n = b - a + 1, m = b2 - a2 + 1;
                char *r = zt_cstr_cat(s, i, j, t, i2, j2);
                VT_CHECK(r != NULL && r != s && r != t, "cat returns a fresh string");
                for (x = 0; x < n; x++) VT_CHECK(r[x] == ks[a + x], "cat starts with the first slice");
                for (x = 0; x < m; x++) VT_CHECK(r[n + x] == kt[a2 + x], "cat ends with the second slice");
                VT_CHECK(r[n + m] == 0, "cat is terminated");
                free(r);
                if (c == 0) {
                    r = zt_cstr_catv(s, i, j, t, i2, j2, s, j, i, NULL);
                    for (x = 0; x < n; x++) VT_CHECK(r[x] == ks[a + x], "catv first slice");
                    for (x = 0; x < m; x++) VT_CHECK(r[n + x] == kt[a2 + x], "catv second slice");
                    for (x = 0; x < n; x++) VT_CHECK(r[n + m + x] == ks[a + x], "catv third slice");
                    VT_CHECK(r[n + m + n] == 0, "catv is terminated");
                    free(r);
                }
            }
    VT_CHECK(same(s, ks, N + 1) && same(t, kt, M + 1), "inputs unchanged");
    free(s); free(t); free(ks); free(kt);
    VT_NOLEAK();
    VT_REACH();
}

/* map: translation through arbitrary from/to sets, later pairs win, other characters unchanged */
void h_map(void) {
    char *s = vt_cstr(N), *from = vt_cstr(M), *to = vt_cstr(M), *k = copy(s, N);
    int x, y, c;
    for (c = 0; c < 3; c++) {
        int i = c == 0 ? 0 : c == 1 ? 1 : -1, j = c == 0 ? -1 : c == 1 ? N : -2;
        if (N < 2 && c == 2) continue;
        int a = i, b = j;
        norm(&a, &b, N);
        int n = b - a + 1;
        char *r = zt_cstr_map(s, i, j, from, to);
        VT_CHECK(r != NULL && r != s, "map returns a fresh string");
        for (x = 0; x < n; x++) {
            char want = k[a + x];
            for (y = 0; y < M; y++) if (from[y] == k[a + x]) want = to[y];
            VT_CHECK(r[x] == want, "map translates through the sets");
        }
        VT_CHECK(r[n] == 0, "map is terminated");
        free(r);
        r = zt_cstr_map(s, i, j, NULL, NULL);
        for (x = 0; x < n; x++) VT_CHECK(r[x] == k[a + x], "map without sets is the identity");
        VT_CHECK(r[n] == 0, "map is terminated");
        free(r);
    }
    VT_CHECK(zt_cstr_map(NULL, 0, -1, from, to) == NULL, "map of NULL is NULL");
    VT_CHECK(same(s, k, N + 1), "input unchanged");
    free(s); free(k); free(from); free(to);
    VT_NOLEAK();
    VT_REACH();
}

/* copy: min(slice, buffer) characters, nothing else written */
void h_copy(void) {
    char *s = vt_cstr(N), *k = copy(s, N);
    for (int len = 0; len <= N + 1; len++) {
        char *buf = vt_alloc(len + 1);
        for (int i = LO; i <= HI; i++)
            for (int j = LO; j <= HI; j++) {
                int a = i, b = j, x;
                norm(&a, &b, N);
                int n = b - a + 1, m = n < len ? n : len;
                for (x = 0; x <= len; x++) buf[x] = CANARY;
                size_t r = zt_cstr_copy(s, i, j, buf, (size_t)len);
                VT_CHECK(r == (size_t)m, "copy returns the number of characters copied");
                for (x = 0; x <= len; x++) VT_CHECK(buf[x] == (x < m ? k[a + x] : CANARY), "copy writes exactly the slice");
            }
        free(buf);
    }
    VT_CHECK(same(s, k, N + 1), "input unchanged");
    free(s); free(k);
    VT_REACH();
}

/* ------------------------------------------------------------------ C03 searches */
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
void h_find(void) {
    char *s = vt_cstr(N), *p = vt_cstr(M), *k = copy(s, N);
    for (int i = LO; i <= HI; i++)
        for (int j = LO; j <= HI; j++) {
            int a = i, b = j, x, y, first = -1, last = -1;
            norm(&a, &b, N);
            for (x = a; x + M - 1 <= b; x++) {
                bool eq = M > 0;
                for (y = 0; y < M; y++) if (k[x + y] != p[y]) eq = false;
                if (eq) { if (first < 0) first = x; last = x; }
            }
            VT_CHECK(zt_cstr_find(s, i, j, p) == first, "find returns the first complete occurrence");
            VT_CHECK(zt_cstr_rfind(s, i, j, p) == last, "rfind returns the last complete occurrence");
        }
    VT_CHECK(same(s, k, N + 1), "input unchanged");
    free(s); free(k); free(p);
    VT_NOLEAK();
    VT_REACH();
}
void h_any(void) {
    char *s = vt_cstr(N), *p = vt_cstr(M), *k = copy(s, N);
    char c = vt_char();
    VT_ASSUME(c != 0);
    for (int i = LO; i <= HI; i++)
        for (int j = LO; j <= HI; j++) {
            int a = i, b = j, x, first = -1, last = -1, cf = -1, cl = -1;
            norm(&a, &b, N);
            for (x = a; x <= b; x++) {
                if (inset(k[x], p, M)) { if (first < 0) first = x; last = x; }
                if (k[x] == c) { if (cf < 0) cf = x; cl = x; }
            }
            VT_CHECK(zt_cstr_any(s, i, j, p) == first, "any returns the first position of a character of the set");
            VT_CHECK(zt_cstr_upto(s, i, j, p) == first, "upto returns the first position of a character of the set");
            VT_CHECK(zt_cstr_rany(s, i, j, p) == last, "rany returns the last position of a character of the set");
            VT_CHECK(zt_cstr_rupto(s, i, j, p) == last, "rupto returns the last position of a character of the set");
            VT_CHECK(zt_cstr_chr(s, i, j, c) == (size_t)(cf < 0 ? 0 : cf), "chr returns the first position of the character");
            VT_CHECK(zt_cstr_rchr(s, i, j, c) == (size_t)(cl < 0 ? 0 : cl), "rchr returns the last position of the character");
        }
    VT_CHECK(same(s, k, N + 1), "input unchanged");
    free(s); free(k); free(p);
    VT_NOLEAK();
    VT_REACH();
}
void h_cmp(void) {
    char *s = vt_cstr(N), *t = vt_cstr(M);
    for (int i = LO; i <= HI; i++)
        for (int j = LO; j <= HI; j++)
            for (int c = 0; c < 4; c++) {
                int i2 = c == 1 ? -1 : c == 2 ? M : c == 3 ? 1 : 0, j2 = c == 0 ? M - 2 : c == 1 ? 0 : c == 2 ? M : -1;
                if (c == 3 && M < 2) continue;
                if (c == 0 && M < 2) continue;
                int a = i, b = j, a2 = i2, b2 = j2, x, want = 0;
                norm(&a, &b, N); norm(&a2, &b2, M);
                int n = b - a + 1, m = b2 - a2 + 1;
                for (x = 0; x < n && x < m; x++)
                    if (want == 0) want = sgn((int)(unsigned char)s[a + x] - (int)(unsigned char)t[a2 + x]);
                if (want == 0) want = sgn(n - m);
                VT_CHECK(sgn(zt_cstr_cmp(s, i, j, t, i2, j2)) == want, "cmp orders slices by first differing byte, then length");
            }
    free(s); free(t);
    VT_NOLEAK();
    VT_REACH();
}

/* ------------------------------------------------------------------ C04 trimming */
static bool ws(char c) { return c == ' ' || c == '\t'; }
void h_chomp(void) {
    char *s = vt_cstr(N), *k = copy(s, N);
    char *r = zt_cstr_chomp(s);
    int n = N > 0 && k[N > 0 ? N - 1 : 0] == '\n' ? N - 1 : N, x;
    VT_CHECK(r == s, "chomp returns its argument");
    for (x = 0; x < n; x++) VT_CHECK(s[x] == k[x], "chomp keeps the rest");
    VT_CHECK(s[n] == 0, "chomp removes exactly one trailing newline");
    free(s); free(k);
    VT_NOLEAK();
    VT_REACH();
}
void h_strip(void) {
    char *s = vt_cstr(N), *k = copy(s, N);
    char want[N + 1];
    int a = 0, b = N, x, n = 0;
    bool nl = false;
    while (a < N && ws(k[a])) a++;
    while (b > a && (ws(k[b - 1]) || k[b - 1] == '\n')) { if (k[b - 1] == '\n') nl = true; b--; }
    char *r = zt_cstr_strip(s);
    VT_CHECK(r == s, "strip returns its argument");
    for (x = 0; x <= N; x++) {
        char w = x < b - a ? k[a + x < N ? a + x : N] : x == b - a && nl ? '\n' : 0;
        if (x <= b - a + nl) VT_CHECK(s[x] == w, "strip removes surrounding white space, keeping one trailing newline");
    }
    free(s); free(k);
    VT_NOLEAK();
    VT_REACH();
}
void h_rspn(void) {
    char *s = vt_cstr(N), *p = vt_cstr(M), *k = copy(s, N);
    int run = 0, last = -1, x;
    while (run < N && inset(k[N - 1 - run], p, M)) run++;
    for (x = 0; x < N; x++) if (inset(k[x], p, M)) last = x;
    VT_CHECK(zt_cstr_rspn(s, p) == (size_t)run, "rspn is the length of the trailing run of accepted characters");
    VT_CHECK(zt_cstr_rcspn(s, p) == (size_t)(last < 0 ? N : last), "rcspn is the position of the last rejected character, or the length");
    VT_CHECK(same(s, k, N + 1), "input unchanged");
    free(s); free(k); free(p);
    VT_NOLEAK();
    VT_REACH();
}

/* ------------------------------------------------------------------ C05 split, cut, tok */
static bool eqs(const char *a, const char *b, int n) {     /* a is exactly the n characters at b */
    int i;
    for (i = 0; i < n; i++) if (a[i] != b[i]) return false;
    return a[n] == 0;
}
void h_split(void) {
    char *s = vt_cstr(N), *d = vt_cstr(M), *k = copy(s, N);
    zt_ptr_array *r = zt_cstr_split(s, d);
    int x, cnt = 0, start = -1;
    VT_CHECK(r != NULL, "split returns an array");
    for (x = 0; x <= N; x++) {
        bool del = x == N || inset(k[x], d, M);
        if (!del && start < 0) start = x;
        if (del && start >= 0) {
            char *e = zt_ptr_array_get_idx(r, cnt);
            VT_CHECK(e != NULL, "every run of non-delimiters is a piece");
            VT_CHECK(eqs(e, k + start, x - start), "pieces are the runs in order");
            cnt++; start = -1;
        }
    }
    VT_CHECK(zt_ptr_array_get_idx(r, cnt) == NULL, "no other pieces");
    VT_CHECK(same(s, k, N + 1), "input unchanged");
    VT_CHECK(zt_cstr_split_free(r) == 0, "free succeeds");
    VT_CHECK(zt_cstr_split(NULL, d) == NULL && zt_cstr_split(s, NULL) == NULL, "missing arguments give NULL");
    free(s); free(k); free(d);
    VT_NOLEAK();
    VT_REACH();
}
void h_cut(void) {
    char *s = vt_cstr(N), *k = copy(s, N);
    char d = vt_char();
    VT_ASSUME(d != 0);
    for (int keep = 0; keep < 2; keep++) {
        zt_ptr_array *r = zt_cstr_cut(s, d, keep);
        int x, cnt = 0;
        VT_CHECK(r != NULL, "cut returns an array");
        for (x = 0; x + 1 < N; x++)
            if (k[x] == d) {
                char *e = zt_ptr_array_get_idx(r, cnt);
                VT_CHECK(e != NULL, "every delimiter with text after it starts a piece");
                VT_CHECK(eqs(e, k + x + !keep, N - x - !keep), "pieces are the suffixes in order");
                cnt++;
            }
        VT_CHECK(zt_ptr_array_get_idx(r, cnt) == NULL, "no other pieces");
        VT_CHECK(zt_cstr_cut_free(r) == 0, "free succeeds");
    }
    VT_CHECK(same(s, k, N + 1), "input unchanged");
    free(s); free(k);
    VT_NOLEAK();
    VT_REACH();
}
void h_tok(void) {
    char *s = vt_cstr(N), *k = copy(s, N);
    char d = vt_char();
    VT_ASSUME(d != 0);
    zt_ptr_array *r = zt_cstr_tok(s, d, vt_bool());
    int x, cnt = 0, n = N > 0 && k[N > 0 ? N - 1 : 0] == d ? N - 1 : N;
    VT_CHECK(r != NULL, "tok returns an array");
    for (x = n; x >= 1; x--)
        if (x == n || k[x] == d) {
            char *e = zt_ptr_array_get_idx(r, cnt);
            VT_CHECK(e != NULL, "every prefix ending at a delimiter is a piece");
            VT_CHECK(eqs(e, k, x), "pieces are the prefixes from longest to shortest");
            cnt++;
        }
    if (n == 0) {
        char *e = zt_ptr_array_get_idx(r, 0);
        VT_CHECK(e != NULL && e[0] == 0, "nothing left: one empty piece");
        cnt = 1;
    }
    VT_CHECK(zt_ptr_array_get_idx(r, cnt) == NULL, "no other pieces");
    VT_CHECK(same(s, k, N + 1), "input unchanged");
    VT_CHECK(zt_cstr_cut_free(r) == 0, "free succeeds");
    free(s); free(k);
    VT_NOLEAK();
    VT_REACH();
}

/* ------------------------------------------------------------------ C06 paths */
#ifndef CAP
#define CAP 4
#endif
/* want = the n characters at p, or lit; truncated to CAP - 1 and terminated; nothing past CAP */
static void inbuf(const char *buf, const char *p, int n) {
    int x, m = n < CAP - 1 ? n : CAP - 1;
    for (x = 0; x < CAP - 1; x++) if (x < m) VT_CHECK(buf[x] == p[x], "result characters");
    VT_CHECK(buf[m] == 0, "result is terminated inside the buffer");
    VT_CHECK(buf[CAP] == CANARY, "nothing written outside the buffer");
}
void h_basename(void) {
    char *s = vt_cstr(N), *suf = vt_cstr(M), *k = copy(s, N), *buf = vt_alloc(CAP + 1);
    int x, a = 0, n, pass;
    for (x = 0; x < N; x++) if (k[x] == '/') a = x + 1;
    for (x = 0; x < M; x++) VT_ASSUME(suf[x] != '/');
    for (pass = 0; pass < 2; pass++) {
        for (x = 0; x <= CAP; x++) buf[x] = CANARY;
        n = N - a;
        if (pass && M > 0 && M < n) {
            bool eq = true;
            for (x = 0; x < M; x++) if (k[N - M + x] != suf[x]) eq = false;
            if (eq) n -= M;
        }
        char *r = zt_cstr_basename(buf, CAP, s, pass ? suf : NULL);
        VT_CHECK(r == buf, "basename returns the caller's buffer");
        inbuf(buf, k + a, n);
    }
    VT_CHECK(same(s, k, N + 1), "input unchanged");
    free(s); free(suf); free(k); free(buf);
    VT_NOLEAK();
    VT_REACH();
}
void h_dirname(void) {
    char *s = vt_cstr(N), *k = copy(s, N), *buf = vt_alloc(CAP + 1);
    int x, e = N, last = -1;
    for (x = 0; x <= CAP; x++) buf[x] = CANARY;
    if (N > 1 && k[N > 0 ? N - 1 : 0] == '/') e--;
    for (x = 0; x < N; x++) if (x < e && k[x] == '/') last = x;
    char *r = zt_cstr_dirname(buf, CAP, s);
    VT_CHECK(r == buf, "dirname returns the caller's buffer");
    if (last < 0) inbuf(buf, ".", 1);
    else if (last == 0) inbuf(buf, "/", 1);
    else inbuf(buf, k, last);
    VT_CHECK(same(s, k, N + 1), "input unchanged");
    free(s); free(k); free(buf);
    VT_NOLEAK();
    VT_REACH();
}
void h_append(void) {
    char *s = vt_cstr(N), *t = vt_cstr(M), *ks = copy(s, N), *kt = copy(t, M);
    int n = N, m = 0, x;
    while (n > 0 && ks[n - 1] == '/') n--;
    while (m < M && kt[m] == '/') m++;
    char *r = zt_cstr_path_append(s, t);
    VT_CHECK(r != NULL, "append returns a string");
    for (x = 0; x < N; x++) if (x < n) VT_CHECK(r[x] == ks[x], "append starts with the first part");
    VT_CHECK(r[n] == '/', "append puts exactly one separator");
    for (x = 0; x < M; x++) if (x >= m) VT_CHECK(r[n + 1 + x - m] == kt[x], "append ends with the second part");
    VT_CHECK(r[n + 1 + M - m] == 0, "append is terminated");
    free(r);
    VT_CHECK(same(s, ks, N + 1) && same(t, kt, M + 1), "inputs unchanged");
    VT_CHECK(zt_cstr_abspath(s) == ((N >= 1 && ks[0] == '/') || (N >= 2 && ks[0] == '.' && ks[1] == '/')), "abspath tells rooted paths");
    free(s); free(t); free(ks); free(kt);
    VT_NOLEAK();
    VT_REACH();
}

/* ------------------------------------------------------------------ C01 hex */
static char hexd(unsigned v) { return v < 10 ? '0' + v : 'a' + (v - 10); }
static int unhex(unsigned char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
void h_tohex(void) {
    unsigned char *d = vt_alloc(N + 1), *k = vt_alloc(N + 1);
    int x;
    vt_bytes(d, N);
    for (x = 0; x < N; x++) k[x] = d[x];
    for (int hl = 0; hl <= 2 * N + 1; hl++) {
        char *h = vt_alloc(hl + 1);
        for (x = 0; x <= hl; x++) h[x] = CANARY;
        int n = hl / 2 < N ? hl / 2 : N;
        VT_CHECK(zt_binary_to_hex(d, N, h, hl) == (size_t)n * 2, "two digits per byte that fits");
        for (x = 0; x <= hl; x++)
            VT_CHECK(h[x] == (x < 2 * n ? hexd(x % 2 ? k[x / 2] & 15 : k[x / 2] >> 4) : CANARY), "hex digits in order, nothing past them");
        free(h);
    }
    for (x = 0; x < N; x++) VT_CHECK(d[x] == k[x], "input unchanged");
    free(d); free(k);
    VT_NOLEAK();
    VT_REACH();
}
/* arbitrary text of N characters, possibly with a NUL inside (which ends the text) */
void h_fromhex(void) {
    char *t = vt_alloc(N ? N : 1);
    int x, n = N, pass;
    vt_bytes(t, N);
    for (x = N - 1; x >= 0; x--) if (t[x] == 0) n = x;
    for (int cap = 0; cap <= N / 2 + 1; cap++) {
        unsigned char *o = vt_alloc(cap + 1);
        for (pass = 0; pass < 2; pass++) {
            int full = pass ? N : cap;                     /* pass 1: size query */
            int lim = n < 2 * full ? n : 2 * full;         /* digits looked at */
            bool bad = lim % 2 != 0;
            for (x = 0; x < N; x++) if (x < lim && unhex(t[x]) < 0) bad = true;
            for (x = 0; x <= cap; x++) o[x] = CANARY;
            errno = 0;
            size_t r = zt_hex_to_binary(t, N, pass ? NULL : o, pass ? 0 : cap);
            if (bad) VT_CHECK(r == 0 && errno == EINVAL, "text that is not an even number of hex digits is rejected with EINVAL");
            else {
                VT_CHECK(r == (size_t)lim / 2, "one byte per two digits");
                if (!pass) for (x = 0; x < cap; x++) if (x < lim / 2)
                    VT_CHECK(o[x] == (unhex(t[2 * x]) << 4 | unhex(t[2 * x + 1])), "byte values");
            }
            for (x = 0; x <= cap; x++) if (x >= (pass ? 0 : lim / 2)) VT_CHECK(o[x] == CANARY, "nothing written past the bytes");
        }
        free(o);
    }
    free(t);
    VT_NOLEAK();
    VT_REACH();
}

/* ------------------------------------------------------------------ C07 itoa */
#ifndef D
#define D 1
#endif
#ifndef EDGE
#define EDGE 0
#endif
void h_itoa(void) {
    /* D digits: the values of exactly that many digits; the text is the decimal representation iff its
     * digits are digits, do not start with a spurious 0 and sum up to the value */
    static const long long p10[12] = { 0, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000LL, 0 };
    int v = vt_int();
    long long a = v < 0 ? -(long long)v : v, sum = 0;
    VT_ASSUME(a >= p10[D - 1] && a < p10[D]);
    if (EDGE) VT_ASSUME(a < p10[D - 1] + EDGE || a >= (D == 10 ? 2147483648LL : p10[D]) - EDGE);
    char buf[24];
    int off = N, cap = vt_range(0, 20), x;
    for (x = 0; x < 24; x++) buf[x] = CANARY;
    int neg = v < 0, tot = D + neg;
    VT_CHECK(zt_cstr_int_display_len(v) == (size_t)tot, "display length is the number of characters");
    ssize_t r = zt_cstr_itoa(buf, v, off, cap);
    if (off + tot + 1 > cap) {
        VT_CHECK(r == -1, "does not fit: refused");
        for (x = 0; x < 24; x++) VT_CHECK(buf[x] == CANARY, "refused itoa writes nothing");
    } else {
        VT_CHECK(r == off + tot, "returns the index of the terminator");
        for (x = 0; x < 24; x++) if (x < off || x > off + tot) VT_CHECK(buf[x] == CANARY, "nothing else written");
        VT_CHECK(buf[off + tot] == 0, "terminated");
        if (neg) VT_CHECK(buf[off] == '-', "sign");
        for (x = 0; x < D; x++) {
            char c = buf[off + neg + x];
            VT_CHECK(c >= '0' && c <= '9', "decimal digits");
            sum = sum * 10 + (c - '0');
        }
        VT_CHECK(sum == a, "digits are the value");
    }
    VT_CHECK(zt_cstr_itoa(NULL, v, off, cap) == -1, "NULL buffer refused");
    VT_REACH();
}

/* ------------------------------------------------------------------ C08 hexdump */
static int hd_lines, hd_end, hd_bytes;
static unsigned char *hd_data;
static int hd_stop;
static int hd_out(void *ctx, size_t addr, char *hex, char *txt) {
    int x, n;
    VT_CHECK(ctx == (void *)&hd_lines, "context passed through");
    if (hex == NULL) { VT_CHECK(txt == NULL, "end marker"); hd_end++; return 0; }
    VT_CHECK(hd_end == 0, "end marker comes last");
    VT_CHECK(addr == (size_t)hd_lines * 16, "address of the line");
    VT_CHECK(hd_bytes < N, "no line without bytes");
    n = N - hd_bytes < 16 ? N - hd_bytes : 16;
    for (x = 0; x < n; x++) {
        unsigned char c = hd_data[hd_bytes + x];
        VT_CHECK(hex[3 * x] == hexd(c >> 4) && hex[3 * x + 1] == hexd(c & 15) && hex[3 * x + 2] == ' ', "hex column");
        VT_CHECK(txt[x] == (c >= 32 && c < 127 ? (char)c : '.'), "text column");
    }
    VT_CHECK(hex[3 * n] == 0 && txt[n] == 0, "columns terminated");
    hd_bytes += n;
    hd_lines++;
    return 0;
}
void h_hexdump(void) {
    hd_data = vt_alloc(N ? N : 1);
    vt_bytes(hd_data, N);
    VT_CHECK(zt_hexdump_str((char *)hd_data, N, hd_out, &hd_lines) == N, "dump returns the number of bytes");
    VT_CHECK(hd_bytes == N && hd_end == 1, "every byte is dumped, then one end marker");
    free(hd_data);
    VT_REACH();
}
