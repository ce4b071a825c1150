/*
 * libc.h - models of the C library functions CBMC has no model of (solver side only; the native
 * replay uses the real ones).  Each follows ISO C / POSIX in the C locale and dereferences exactly
 * the bytes the standard lets it read, so that CBMC's pointer checks see the same accesses.
 */
#ifndef VT_LIBC_H
#define VT_LIBC_H
#ifdef VT_CBMC
#include <string.h>
#include <stdlib.h>
#include <ctype.h>
/* calloc as CBMC's, but built so that the object keeps its element type (and with it the constants in it) */
extern const void *__CPROVER_memory_leak;
__CPROVER_bool nondet_vt_leak(void);
void *calloc(size_t n, size_t s) {
    void *r;
    __CPROVER_assert(s == 0 || n <= SIZE_MAX / 2 / s, "vt: calloc size does not overflow");
#ifdef VT_CALLOC_AS      /* a type the harness knows the code stores in blocks of that size */
    if (n * s == sizeof(VT_CALLOC_AS)) r = __CPROVER_allocate(sizeof(VT_CALLOC_AS), 1); else
#endif
    if (n == 1) r = __CPROVER_allocate(s, 1);
    else r = __CPROVER_allocate(n * s, 1);
    if (nondet_vt_leak()) __CPROVER_memory_leak = r;
    return r;
}
size_t strspn(const char *s, const char *set) {
    size_t n = 0, k;
    for (; s[n] != 0; n++) {
        for (k = 0; set[k] != 0 && set[k] != s[n]; k++) ;
        if (set[k] == 0) break;
    }
    return n;
}
size_t strcspn(const char *s, const char *set) {
    size_t n = 0, k;
    for (; s[n] != 0; n++) {
        for (k = 0; set[k] != 0 && set[k] != s[n]; k++) ;
        if (set[k] != 0) break;
    }
    return n;
}
char *strpbrk(const char *s, const char *set) {
    s += strcspn(s, set);
    return *s ? (char *)s : NULL;
}
char *strtok_r(char *s, const char *delim, char **save) {
    if (s == NULL) s = *save;
    if (*s == 0) { *save = s; return NULL; }
    s += strspn(s, delim);
    if (*s == 0) { *save = s; return NULL; }
    char *e = s + strcspn(s, delim);
    if (*e == 0) { *save = e; return s; }
    *e = 0;
    *save = e + 1;
    return s;
}
char *strtok(char *s, const char *delim) {
    static char *save;
    return strtok_r(s, delim, &save);
}
void *memchr(const void *p, int c, size_t n) {
    size_t i;
    for (i = 0; i < n; i++) if (((const unsigned char *)p)[i] == (unsigned char)c) return (char *)p + i;
    return NULL;
}
void *memrchr(const void *p, int c, size_t n) {
    while (n-- > 0) if (((const unsigned char *)p)[n] == (unsigned char)c) return (char *)p + n;
    return NULL;
}
char *strchrnul(const char *s, int c) {
    while (*s && *s != (char)c) s++;
    return (char *)s;
}
size_t strnlen(const char *s, size_t n) {
    size_t i = 0;
    while (i < n && s[i]) i++;
    return i;
}
char *stpcpy(char *d, const char *s) {
    while ((*d = *s)) { d++; s++; }
    return d;
}
char *strndup(const char *s, size_t n) {
    size_t l = strnlen(s, n), i;
    char *p = (char *)malloc(l + 1);
    if (!p) return NULL;
    for (i = 0; i < l; i++) p[i] = s[i];
    p[l] = 0;
    return p;
}
char *strstr(const char *h, const char *n) {
    size_t i;
    for (;; h++) {
        for (i = 0; n[i] != 0 && h[i] == n[i]; i++) ;
        if (n[i] == 0) return (char *)h;
        if (*h == 0) return NULL;
    }
}
/* strtol family, the names the headers give it on this platform; saturating as ISO C, errno not modelled */
static unsigned long long vt_strtou(const char *s, char **end, int base, int *neg, int *over) {
    const char *p = s, *last = s;
    unsigned long long v = 0;
    *neg = 0; *over = 0;
    while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
    if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') &&
        ((p[2] >= '0' && p[2] <= '9') || (p[2] >= 'a' && p[2] <= 'f') || (p[2] >= 'A' && p[2] <= 'F'))) { p += 2; base = 16; }
    if (base == 0) base = *p == '0' ? 8 : 10;
    const unsigned long long lim = 0xffffffffffffffffull / (unsigned)base, rem = 0xffffffffffffffffull % (unsigned)base;
    for (;; p++) {
        int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99;
        if (d >= base) break;
        if (v > lim || (v == lim && (unsigned)d > rem)) *over = 1;
        v = v * (unsigned)base + (unsigned)d;
        last = p + 1;
    }
    if (end) *end = (char *)last;
    return v;
}
long __isoc23_strtol(const char *s, char **end, int base) {
    int neg, over;
    unsigned long long v = vt_strtou(s, end, base, &neg, &over);
    if (neg) return over || v > 0x8000000000000000ull ? (-0x7fffffffffffffffl - 1) : (long)(0 - v);
    return over || v > 0x7fffffffffffffffull ? 0x7fffffffffffffffl : (long)v;
}
unsigned long __isoc23_strtoul(const char *s, char **end, int base) {
    int neg, over;
    unsigned long long v = vt_strtou(s, end, base, &neg, &over);
    if (over) return 0xfffffffffffffffful;
    return neg ? 0 - v : v;
}
long long __isoc23_strtoll(const char *s, char **end, int base) { return __isoc23_strtol(s, end, base); }
unsigned long long __isoc23_strtoull(const char *s, char **end, int base) { return __isoc23_strtoul(s, end, base); }
int atoi(const char *s) { return (int)__isoc23_strtol(s, NULL, 10); }
long atol(const char *s) { return __isoc23_strtol(s, NULL, 10); }
/* <ctype.h> in the C locale */
static const unsigned short vt_ctype[384] = {
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,8195,8194,8194,8194,8194,2,2,
    2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,24577,49156,49156,49156,49156,49156,49156,49156,
    49156,49156,49156,49156,49156,49156,49156,49156,55304,55304,55304,55304,55304,55304,55304,55304,55304,55304,49156,49156,49156,49156,49156,49156,
    49156,54536,54536,54536,54536,54536,54536,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,
    50440,50440,50440,49156,49156,49156,49156,49156,49156,54792,54792,54792,54792,54792,54792,50696,50696,50696,50696,50696,50696,50696,50696,50696,
    50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,49156,49156,49156,49156,2,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    
};
static const unsigned short *vt_ctype_p = vt_ctype + 128;
const unsigned short **__ctype_b_loc(void) { return &vt_ctype_p; }
#endif
#endif
