/*
 * vt.h - harness vocabulary.  Every harness is compiled twice from the same text:
 *   - with goto-cc (VT_CBMC): vt_*() inputs are symbolic, VT_CHECK is a proof obligation;
 *   - with gcc + ASan/UBSan (VT_NATIVE): inputs are read from a replay file, so that a
 *     solver assignment becomes an ordinary run of the real code.
 */
#ifndef VT_H
#define VT_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <sys/types.h>
#include <limits.h>

#ifdef VT_CBMC
uint64_t nondet_vt_u64(void);
static uint64_t vt_next(void) { uint64_t vt_v = nondet_vt_u64(); return vt_v; }
# define VT_CHECK(c, msg)  __CPROVER_assert((c), "vt: " msg)
# define VT_ASSUME(c)      __CPROVER_assume(c)
# ifdef VT_NOREACH
#  define VT_REACH()       ((void)0)
# else
#  define VT_REACH()       __CPROVER_assert(0, "vt-reach")
# endif
# define VT_NOLEAK()       ((void)0)
/* abort() of the library: a proof obligation, unless the harness says it is the contract */
# ifdef VT_ABORT_OK
void abort(void) { vt_on_abort(); __CPROVER_assume(0); while (1) ; }
# else
void abort(void) { __CPROVER_assert(0, "vt: library aborted"); __CPROVER_assume(0); while (1) ; }
# endif
#else
extern uint64_t vt_next(void);
extern void vt_fail(const char *msg);
extern void vt_skip(const char *why);
extern void vt_reach(void);
extern void vt_noleak(void);
# define VT_CHECK(c, msg)  do { if (!(c)) vt_fail(msg); } while (0)
# define VT_ASSUME(c)      do { if (!(c)) vt_skip(#c); } while (0)
# define VT_REACH()        vt_reach()
# define VT_NOLEAK()       vt_noleak()
#endif

/* replace a libc/system function for the code under test: defined directly for the solver, through
 * the linker's --wrap natively (the name is listed in the harness's wraps=) */
#ifdef VT_CBMC
# define VT_STUB(ret, name, args) ret name args
#else
# define VT_STUB(ret, name, args) ret __wrap_##name args
#endif

#ifndef VT_REAL_LOG
/* assertion reporting is not the subject: the report is dropped, the abort() that follows is not */
void _zt_log_assertion(const char *condition, const char *file, unsigned int line, const char *function) {
    (void)condition; (void)file; (void)line; (void)function;
}
int _zt_log_abort(const char *condition, const char *file, unsigned int line, const char *function) {
    (void)condition; (void)file; (void)line; (void)function;
    return 0;
}
#endif

static inline uint8_t  vt_u8(void)  { return (uint8_t)vt_next(); }
static inline uint16_t vt_u16(void) { return (uint16_t)vt_next(); }
static inline uint32_t vt_u32(void) { return (uint32_t)vt_next(); }
static inline uint64_t vt_u64(void) { return vt_next(); }
static inline int      vt_int(void) { return (int)(uint32_t)vt_next(); }
static inline long     vt_long(void) { return (long)vt_next(); }
static inline char     vt_char(void) { return (char)(uint8_t)vt_next(); }
static inline bool     vt_bool(void) { return (vt_next() & 1) != 0; }
/* lo <= result <= hi */
static inline int vt_range(int lo, int hi) {
    int v = vt_int();
    VT_ASSUME(v >= lo && v <= hi);
    return v;
}
static inline void vt_bytes(void *p, size_t n) {
    size_t i;
    for (i = 0; i < n; i++) ((unsigned char *)p)[i] = vt_u8();
}
#if defined(VT_CBMC) && defined(VT_KNOWN_STRLEN) && !defined(VT_NO_KNOWN)
/* strlen() of a harness string is its construction length, which lets the symbolic executor keep
 * sizes concrete; that the string still has that length is itself an obligation at every use */
static const char *vt_known_p[8];
static size_t vt_known_n[8], vt_known_cnt;
static void vt_known(const char *s, size_t n) {
    if (vt_known_cnt < 8) { vt_known_p[vt_known_cnt] = s; vt_known_n[vt_known_cnt] = n; vt_known_cnt++; }
}
size_t strlen(const char *s) {
    size_t i, k;
    for (k = 0; k < vt_known_cnt; k++)
        if (__CPROVER_POINTER_OBJECT(s) == __CPROVER_POINTER_OBJECT(vt_known_p[k])) {
            size_t off = __CPROVER_POINTER_OFFSET(s), n = vt_known_n[k];
            if (off <= n) {
                bool ok = s[n - off] == 0;
                for (i = 0; i < n; i++) if (i >= off && vt_known_p[k][i] == 0) ok = false;
                __CPROVER_assert(ok, "vt: string length unchanged");
                __CPROVER_assume(ok);
                return n - off;
            }
        }
    for (i = 0; s[i] != 0; i++) ;
    return i;
}
#else
# define vt_known(s, n) ((void)0)
#endif
/* a fresh heap string of exactly n characters (no NUL inside) */
static inline char *vt_cstr(size_t n) {
    size_t i;
    char *s = (char *)malloc(n + 1);
    VT_ASSUME(s != NULL);
    for (i = 0; i < n; i++) { s[i] = vt_char(); VT_ASSUME(s[i] != 0); }
    s[n] = 0;
    vt_known(s, n);
    return s;
}
static inline void *vt_alloc(size_t n) {
    void *p = malloc(n);
    VT_ASSUME(p != NULL);
    return p;
}
#endif
