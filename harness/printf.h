/* printf family for the solver (the conversions libzt uses: %% %c %s %d %i %u %x %X %o %p with
 * flags 0 and -, width, precision, * and the size modifiers hh h l ll z j t); the native replay uses libc's */
#ifndef VT_PRINTF_H
#define VT_PRINTF_H
#include <stdarg.h>
#include <stdio.h>
#ifdef VT_CBMC
static void vt_put(char *b, size_t cap, size_t *n, char c) {
    if (*n + 1 < cap) b[*n] = c;
    (*n)++;
}
static size_t vt_pf(char *b, size_t cap, const char *f, va_list ap) {
    size_t n = 0, i, k;
    for (i = 0; f[i] != 0; i++) {
        if (f[i] != '%') { vt_put(b, cap, &n, f[i]); continue; }
        i++;
        int zero = 0, left = 0, lng = 0, alt = 0;
        long width = 0, prec = -1;
        for (; f[i] == '0' || f[i] == '-' || f[i] == '#' || f[i] == ' ' || f[i] == '+'; i++) { if (f[i] == '0') zero = 1; else if (f[i] == '-') left = 1; else if (f[i] == '#') alt = 1; else __CPROVER_assert(0, "vt: printf flag outside the model"); }
        if (f[i] == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } i++; }
        else for (; f[i] >= '0' && f[i] <= '9'; i++) width = width * 10 + (f[i] - '0');
        if (f[i] == '.') {
            prec = 0; i++;
            if (f[i] == '*') { prec = va_arg(ap, int); i++; }
            else for (; f[i] >= '0' && f[i] <= '9'; i++) prec = prec * 10 + (f[i] - '0');
        }
        for (; f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't' || f[i] == 'h'; i++) lng = f[i] == 'h' ? lng - 1 : 1;
        char c = f[i];
        if (c == 0) break;
        if (c == '%') vt_put(b, cap, &n, '%');
        else if (c == 'c') {
            char v = (char)va_arg(ap, int);
            long p;
            if (!left) for (p = 1; p < width; p++) vt_put(b, cap, &n, ' ');
            vt_put(b, cap, &n, v);
            if (left) for (p = 1; p < width; p++) vt_put(b, cap, &n, ' ');
        } else if (c == 's') {
            const char *s = va_arg(ap, const char *);
            if (s == 0) s = "(null)";
            long l = 0, p;
            while ((prec < 0 || l < prec) && s[l] != 0) l++;
            if (!left) for (p = l; p < width; p++) vt_put(b, cap, &n, ' ');
            for (k = 0; k < (size_t)l; k++) vt_put(b, cap, &n, s[k]);
            if (left) for (p = l; p < width; p++) vt_put(b, cap, &n, ' ');
        } else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') {
            char t[24];
            int neg = 0, l = 0, base = c == 'o' ? 8 : c == 'd' || c == 'i' || c == 'u' ? 10 : 16;
            unsigned long v;
            if (c == 'p') { v = (unsigned long)va_arg(ap, void *); alt = 1; }
            else if (c == 'd' || c == 'i') {
                long sv = lng > 0 ? va_arg(ap, long) : (long)va_arg(ap, int);
                if (lng == -1) sv = (short)sv;
                if (lng < -1) sv = (signed char)sv;
                neg = sv < 0;
                v = neg ? 0UL - (unsigned long)sv : (unsigned long)sv;
            } else {
                v = lng > 0 ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned int);
                if (lng == -1) v = (unsigned short)v;
                if (lng < -1) v = (unsigned char)v;
            }
            if (prec >= 0) zero = 0;
            int pre = alt && base == 16 && v != 0 ? 2 : 0;
            while (v != 0) { int d = (int)(v % (unsigned long)base); t[l++] = (char)(d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10); v /= (unsigned long)base; }
            if (l == 0 && prec != 0) t[l++] = '0';
            long digits = l < prec ? prec : l, tot = digits + neg + pre, p;
            if (!left && !zero) for (p = tot; p < width; p++) vt_put(b, cap, &n, ' ');
            if (neg) vt_put(b, cap, &n, '-');
            if (pre) { vt_put(b, cap, &n, '0'); vt_put(b, cap, &n, c == 'X' ? 'X' : 'x'); }
            if (!left && zero) for (p = tot; p < width; p++) vt_put(b, cap, &n, '0');
            for (p = l; p < digits; p++) vt_put(b, cap, &n, '0');
            while (l > 0) vt_put(b, cap, &n, t[--l]);
            if (left) for (p = tot; p < width; p++) vt_put(b, cap, &n, ' ');
        } else __CPROVER_assert(0, "vt: printf conversion outside the model");
    }
    if (cap > 0) b[n < cap ? n : cap - 1] = 0;
    return n;
}
int vsnprintf(char *b, size_t cap, const char *f, va_list ap) { return (int)vt_pf(b, cap, f, ap); }
int vsprintf(char *b, const char *f, va_list ap) { return (int)vt_pf(b, SIZE_MAX, f, ap); }
int snprintf(char *b, size_t cap, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int n = (int)vt_pf(b, cap, f, ap);
    va_end(ap);
    return n;
}
int sprintf(char *b, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int n = (int)vt_pf(b, SIZE_MAX, f, ap);
    va_end(ap);
    return n;
}
#endif
#endif
