/* formatted output (F01) */
#include "vt.h"
#include "libc.h"
#include <stdarg.h>
#include <stdio.h>
#include <zt.h>
#include <libzt/zt_format.h>
#ifndef FORM
#define FORM "%d"
#endif
#ifndef N
#define N 2
#endif
#ifndef SIZE
#define SIZE 4
#endif
#ifndef WMAX
#define WMAX 13
#endif
#ifndef PMAX
#define PMAX 12
#endif
#ifndef AT          /* the integer: AT .. AT + 2^BITS - 1 */
#define AT 0
#endif
#ifndef BITS
#define BITS 8
#endif
#ifndef HOW
#define HOW 0
#endif
#ifndef LEN
#define LEN 255
#endif
#define BIG 64
static char got[BIG + 8], *g;
static void eat(int c) { VT_CHECK(g < got + BIG, "no more text than asked for"); if (g < got + BIG) { VT_CHECK(*g == (char)c, "the character the directive asks for"); g++; } }
static void blanks(long n, int c) { while (n-- > 0) eat(c); }
struct spec { bool left, zero, plus, space, skip; bool hasw, hasp; int w, p; char c; };
/* the digits of m: read back, so that the check needs no division */
static void eat_number(struct spec *s, bool neg, uint64_t m) {
    uint64_t base = s->c == 'o' ? 8 : s->c == 'x' || s->c == 'p' ? 16 : 10, pw = base, acc = 0;
    int nd = 1, body, sign = 0, k;
    for (k = 1; k < (s->c == 'p' ? 16 : 11); k++) { if (m >= pw) nd++; pw *= base; }
    bool left = s->left, zero = s->zero;
    long w = s->hasw ? s->w : 0;
    if (w < 0) { left = true; w = -w; }
    bool hasp = s->hasp && s->p >= 0;
    if (hasp) zero = false;
    if (left) zero = false;
    if (hasp && s->p == 0 && m == 0) nd = 0;
    body = hasp && s->p > nd ? s->p : nd;
    if (s->c == 'd') sign = neg ? '-' : s->plus ? '+' : s->space ? ' ' : 0;
    long pad = w - body - (sign != 0);
    if (!left && !zero) blanks(pad, ' ');
    if (sign) eat(sign);
    if (zero) blanks(pad, '0');
    blanks(body - nd, '0');
    for (k = 0; k < nd; k++) {
        int ch = g < got + BIG ? (unsigned char)*g : 0;
        unsigned d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : 99;
        VT_CHECK(d < base, "a digit of the base");
        acc = acc * base + d;
        if (g < got + BIG) g++;
    }
    VT_CHECK(acc == (nd == 0 ? 0 : m), "the digits of the value");
    if (left) blanks(pad, ' ');
}
static void eat_text(struct spec *s, const char *t, long len) {
    bool left = s->left;
    long w = s->hasw ? s->w : 0, k;
    if (s->skip && s->hasw) {
        long off = w < 0 ? -w : w;
        if (off < len) { t += off; len -= off; }
        w = 0;
    }
    if (w < 0) { left = true; w = -w; }
    if (s->c == 's' && s->hasp && s->p >= 0 && s->p < len) len = s->p;
    if (!left) blanks(w - len, ' ');
    for (k = 0; k < len; k++) eat(t[k]);
    if (left) blanks(w - len, ' ');
}
/* symbolic arguments, in the order a format takes them */
static int ai[4]; static unsigned au[4]; static char sv[N + 1], *as = sv; static void *ap_; static int ac;
static struct spec sp;
static void arguments(void) {
    vt_bytes(sv, N); sv[N] = 0;
    sp.w = vt_range(-WMAX, WMAX);
    sp.p = vt_range(-2, PMAX);
    au[0] = (unsigned)(AT) + (vt_u32() & (unsigned)((1ull << BITS) - 1));
    ai[0] = (int)au[0];
    ac = vt_int(); ac &= 0xff;
    ap_ = (void *)(uintptr_t)vt_u64();
}
/* one directive with width and precision from the arguments where FORM has '*' */
static const char form[] = FORM;
static int take(const char *f) {
    int i = 1;
    for (; f[i] == '-' || f[i] == '0' || f[i] == '+' || f[i] == ' ' || f[i] == '#'; i++) {
        if (f[i] == '-') sp.left = true; else if (f[i] == '0') sp.zero = true; else if (f[i] == '+') sp.plus = true; else if (f[i] == '#') sp.skip = true; else sp.space = true;
    }
    if (f[i] == '*') { sp.hasw = true; i++; }
    else if (f[i] >= '0' && f[i] <= '9') { sp.hasw = true; for (sp.w = 0; f[i] >= '0' && f[i] <= '9'; i++) sp.w = sp.w * 10 + f[i] - '0'; }
    if (f[i] == '.') {
        i++; sp.hasp = true;
        if (f[i] == '*') i++;
        else for (sp.p = 0; f[i] >= '0' && f[i] <= '9'; i++) sp.p = sp.p * 10 + f[i] - '0';
    }
    sp.c = f[i];
    return i + 1;
}
#define CALL(buf, size, f, v) (star == 0 ? zt_fmt_sprintf(buf, size, f, v) : star == 1 ? zt_fmt_sprintf(buf, size, f, sp.w, v) : star == 2 ? zt_fmt_sprintf(buf, size, f, sp.p, v) : zt_fmt_sprintf(buf, size, f, sp.w, sp.p, v))
static int stars(const char *f) {
    int i, r = 0;
    for (i = 0; f[i] != 0; i++) if (f[i] == '*') r |= i > 0 && f[i - 1] == '.' ? 2 : 1;
    return r;
}
static void eat_value(void) {
    char one[1];
    switch (sp.c) {
    case 'd': eat_number(&sp, ai[0] < 0, ai[0] < 0 ? -(int64_t)ai[0] : ai[0]); break;
    case 'u': case 'o': case 'x': eat_number(&sp, false, au[0]); break;
    case 'p': sp.hasp = false; eat_number(&sp, false, (uintptr_t)ap_); break;
    case 'c': one[0] = (char)ac; sp.hasp = false; eat_text(&sp, one, 1); break;
    case 's': eat_text(&sp, sv, strlen(sv)); break;
    default: VT_CHECK(0, "harness: directive");
    }
}
void h_one(void) {
    size_t n;
    int star = stars(form), end;
    arguments();
    memset(got, 0x5a, sizeof(got));
    char c = form[strlen(form) - 1];
    if (c == 'd') n = CALL(got, BIG, form, ai[0]);
    else if (c == 'c') n = CALL(got, BIG, form, ac);
    else if (c == 's') n = CALL(got, BIG, form, as);
    else if (c == 'p') n = CALL(got, BIG, form, ap_);
    else n = CALL(got, BIG, form, au[0]);
    end = take(form);
    VT_CHECK(form[end] == 0, "harness: one directive");
    g = got;
    eat_value();
    VT_CHECK(n == (size_t)(g - got), "characters counted");
    VT_CHECK(*g == 0, "terminated where the text ends");
    VT_CHECK(got[BIG] == 0x5a && g[1] == 0x5a, "nothing written behind the text");
    VT_REACH();
}
/* literal text around directives; arguments d, s, c taken in the order of the text */
void h_text(void) {
    char f[sizeof(form)];
    size_t n;
    int i, k;
    arguments();
    memcpy(f, form, sizeof(form));
    memset(got, 0x5a, sizeof(got));
#ifdef SDC
    n = zt_fmt_sprintf(got, BIG, f, as, ai[0], ac);
#else
    n = zt_fmt_sprintf(got, BIG, f, ai[0], as, ac);
#endif
    g = got;
    for (i = 0; form[i] != 0; ) {
        if (form[i] != '%' && form[i] != '~') { eat(f[i]); i++; continue; }
        if (form[i + 1] == '%' || form[i + 1] == '~') { eat(form[i + 1]); i += 2; continue; }
        memset(&sp, 0, sizeof(sp));
        i += take(form + i);
        eat_value();
    }
    VT_CHECK(n == (size_t)(g - got) && *g == 0 && g[1] == 0x5a, "counted and terminated");
    VT_REACH();
}
/* a buffer of every size: a prefix, terminated */
void h_bound(void) {
    size_t full, n, k;
    char *b = malloc(SIZE);
    arguments();
    VT_ASSUME(b != NULL);
    memset(got, 0x5a, sizeof(got));
    full = zt_fmt_sprintf(got, BIG, "a%.*s%*c", sp.p, as, sp.w, ac);
    n = zt_fmt_sprintf(b, SIZE, "a%.*s%*c", sp.p, as, sp.w, ac);
    VT_CHECK(n == (full < SIZE ? full : SIZE - 1), "characters counted");
    for (k = 0; k < n && k < SIZE - 1; k++) VT_CHECK(b[k] == got[k], "the text as far as it fits");
    VT_CHECK(n < SIZE && b[n] == 0, "terminated");
    free(b);
    VT_NOLEAK();
    VT_REACH();
}
/* every other way out produces the same characters */
static char sink[BIG]; static size_t nsink;
static void *want_cl;
static int out(int c, void *cl) {
    VT_CHECK(cl == want_cl, "closure passed on");
    VT_CHECK(nsink < BIG, "no more text than asked for");
    if (nsink < BIG) sink[nsink++] = (char)c;
    return 1;
}
VT_STUB(int, putc, (int c, FILE *f)) { out(c, f); return (unsigned char)c; }
static size_t viap(char *b, const char *f, ...) { va_list ap; size_t n; va_start(ap, f); n = zt_fmt_vsprintf(b, BIG, f, ap); va_end(ap); return n; }
static size_t viaf(zt_fmt_put_f p, void *cl, const char *f, ...) { va_list ap; size_t n; va_start(ap, f); n = zt_fmt_vformat(p, cl, f, ap); va_end(ap); return n; }
static char *vias(const char *f, ...) { va_list ap; char *r; va_start(ap, f); r = zt_fmt_vstrprintf(f, ap); va_end(ap); return r; }
void h_ways(void) {
    size_t full, n, k;
    char other[BIG];
    FILE *f = (FILE *)other;
    int how = HOW;
    arguments();
    memset(other, 0, sizeof(other));
    memset(got, 0, sizeof(got));
    full = zt_fmt_sprintf(got, BIG, "a%.*s%*c%d", sp.p, as, sp.w, ac, ai[0]);
#define ARGS "a%.*s%*c%d", sp.p, as, sp.w, ac, ai[0]
    want_cl = f;
    if (how == 0) n = zt_fmt_format(out, f, ARGS);
    else if (how == 1) n = viaf(out, f, ARGS);
    else if (how == 2) n = zt_fmt_fprintf(f, ARGS);
    else if (how == 3) { want_cl = stdout; n = zt_fmt_printf(ARGS); }
    else { n = viap(sink, ARGS); nsink = n; }
    VT_CHECK(n == full && nsink == full, "the same number of characters");
    for (k = 0; k < full && k < BIG; k++) VT_CHECK(sink[k] == got[k], "the same characters");
    VT_REACH();
}
/* allocated text, shorter and longer than any first allocation */
void h_grow(void) {
    static char f[LEN + 8];
    char *r, c[3];
    size_t k;
    memset(f, 'a', LEN);
    strcpy(f + LEN - 3, "%c%c%c");
    vt_bytes(c, 3);
    r = HOW ? vias(f, (int)c[0], (int)c[1], (int)c[2]) : zt_fmt_strprintf(f, (int)c[0], (int)c[1], (int)c[2]);
    VT_ASSUME(r != NULL);
    for (k = 0; k < LEN; k++) VT_CHECK(r[k] == (k < LEN - 3 ? 'a' : c[k - (LEN - 3)]), "exactly the full text");
    VT_CHECK(r[LEN] == 0, "terminated");
    free(r);
    VT_NOLEAK();
    VT_REACH();
}
/* a converter of the program's own */
static int calls;
static size_t mine(int code, void *value, zt_fmt_put_f put, void *cl, unsigned char *flags, ssize_t width, ssize_t precision) {
    VT_CHECK(code == 'Z', "code");
    VT_CHECK(*(int *)value == ai[0], "value");
    VT_CHECK(width == sp.w && precision == sp.p && flags['-'] == 1 && flags['+'] == 0, "width, precision, flags");
    calls++;
    return zt_fmt_puts("mine", 4, put, cl, flags, 0, 3) ;
}
void h_register(void) {
    zt_fmt_ty old, old2;
    size_t n;
    arguments();
    old = zt_fmt_register('Z', mine, 'i');
    old2 = zt_fmt_register('Z', mine, 'i');
    VT_CHECK(old == NULL && old2 == mine, "the converter replaced");
    memset(got, 0, sizeof(got));
    n = zt_fmt_sprintf(got, BIG, "[%-*.*Z]%c", sp.w, sp.p, ai[0], ac);
    VT_CHECK(calls == 1, "called once");
    VT_CHECK(n == 6 && memcmp(got, "[min]", 5) == 0 && got[5] == (char)ac && got[6] == 0, "its text in place");
    VT_REACH();
}
