#undef NDEBUG                 /* the checks are assertions: this is the build that has them */
#include "vt.h"
#include "libc.h"
#include <zt.h>
/* T: 0 char 1 short 2 int 3 long; U: 1 unsigned; OP: 0 add 1 sub 2 mul 3 div */
#ifndef T
#define T 0
#endif
#ifndef U
#define U 0
#endif
#ifndef OP
#define OP 0
#endif
#define CAT_(a, b, c) a##b##c
#define CAT(a, b, c) CAT_(a, b, c)
#if T == 0
# define NAME char
# define BITS 8
#elif T == 1
# define NAME short
# define BITS 16
#elif T == 2
# define NAME int
# define BITS 32
#else
# define NAME long
# define BITS 64
#endif
#if U
typedef unsigned NAME ty;
# define PFX zt_u
# define LO 0
# define HI ((wide)(ty)-1)
#else
typedef signed NAME ty;
# define PFX zt_
# define HI ((((wide)1) << (BITS - 1)) - 1)
# define LO (-HI - 1)
#endif
typedef __int128 wide;
#if OP == 0
# define F CAT(PFX, NAME, _add)
#elif OP == 1
# define F CAT(PFX, NAME, _sub)
#elif OP == 2
# define F CAT(PFX, NAME, _mul)
#else
# define F CAT(PFX, NAME, _div)
#endif
static ty a, b;
static bool fits;
/* EXACT(r): r is the mathematical result.  The product and the quotient are given in two widths, both
 * exact for representable results, so that the solver can match whichever width the code divides in. */
#if OP == 0
static void expect(void) { wide e = (wide)a + b; fits = e >= LO && e <= HI; }
# define EXACT(r) ((wide)(r) == (wide)a + b)
#elif OP == 1
static void expect(void) { wide e = (wide)a - b; fits = e >= LO && e <= HI; }
# define EXACT(r) ((wide)(r) == (wide)a - b)
#elif OP == 2
# if U
static void expect(void) { uint64_t p = (uint64_t)a * (uint64_t)b; fits = p <= (uint64_t)HI; }
#  if BITS < 32
static bool fits2(void) { return (unsigned)a * (unsigned)b <= (unsigned)HI; }
#  endif
# else
static void expect(void) { int64_t p = (int64_t)a * (int64_t)b; fits = p >= (int64_t)LO && p <= (int64_t)HI; }
#  if BITS < 32
static bool fits2(void) { int p = (int)a * (int)b; return p >= (int)LO && p <= (int)HI; }
#  endif
# endif
# define EXACT(r) ((r) == (ty)((uint32_t)a * (uint32_t)b) || (r) == (ty)((int64_t)a * (int64_t)b))
#else
static void expect(void) { fits = b != 0 && !(LO < 0 && a == (ty)LO && b == (ty)-1); }
# if U
#  define EXACT(r) ((r) == (ty)((unsigned)a / (unsigned)b) || (r) == (ty)((uint64_t)a / (uint64_t)b))
# else
#  define EXACT(r) ((r) == (ty)((int)a / (int)b) || (r) == (ty)((int64_t)a / (int64_t)b))
# endif
#endif
#if OP == 2 && BITS < 32
# define FITS (fits2())
#else
# define FITS fits
#endif
void vt_on_abort(void) { VT_CHECK(!FITS, "a representable result is not rejected"); }
void h_op(void) {
    a = (ty)vt_u64(); b = (ty)vt_u64();
    expect();
    ty r = F(a, b);
    VT_CHECK(FITS, "an unrepresentable result is rejected");
    VT_CHECK(EXACT(r), "exact result");
    VT_REACH();
}
