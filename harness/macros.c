/* macros (Q02) */
#include "vt.h"
#include <zt.h>
#if W == 8
typedef int8_t st; typedef uint8_t ut;
#elif W == 16
typedef int16_t st; typedef uint16_t ut;
#elif W == 32
typedef int32_t st; typedef uint32_t ut;
#else
typedef int64_t st; typedef uint64_t ut;
#endif
static ut any(void) { return (ut)vt_u64(); }
struct in { char a; st m; };
struct box { char pad; struct in x; short s; struct in arr[3]; };
void h_num(void) {
    st a = (st)any(), b = (st)any(), c = (st)any();
    ut ua = any(), ub = any(), uc = any();
    st r; ut u;
    r = MAX(a, b); VT_CHECK((r == a || r == b) && r >= a && r >= b, "MAX");
    r = MIN(a, b); VT_CHECK((r == a || r == b) && r <= a && r <= b, "MIN");
    u = MAX(ua, ub); VT_CHECK((u == ua || u == ub) && u >= ua && u >= ub, "MAX unsigned");
    u = MIN(ua, ub); VT_CHECK((u == ua || u == ub) && u <= ua && u <= ub, "MIN unsigned");
    if (a != (st)((ut)1 << (W - 1))) { r = ABS(a); VT_CHECK(r >= 0 && (r == a || r == -a), "ABS"); }
    u = ABS(ua); VT_CHECK(u == ua, "ABS of unsigned");
    r = CEILING(a, b); VT_CHECK((r == a || r == b) && r <= b && r <= a, "CEILING");
    r = FLOOR(a, b); VT_CHECK((r == a || r == b) && r >= b && r >= a, "FLOOR");
    if (b <= c) { r = CLAMP(a, b, c); VT_CHECK(r >= b && r <= c && (r == a || (a < b && r == b) || (a > c && r == c)), "CLAMP"); }
    if (ub <= uc) { u = CLAMP(ua, ub, uc); VT_CHECK(u >= ub && u <= uc && (u == ua || (ua < ub && u == ub) || (ua > uc && u == uc)), "CLAMP unsigned"); }
    /* an expression as argument keeps its value */
    u = MAX(ua & 15, ub | 1); VT_CHECK(u == ((ua & 15) > (ub | 1) ? (ut)(ua & 15) : (ut)(ub | 1)), "expression arguments");
    if (a > -8 && a < 8 && b > -8 && b < 8) { r = ABS(a - b); VT_CHECK(r == (a < b ? b - a : a - b), "ABS of an expression"); r = MIN(a, b) + 1; VT_CHECK(r == (a < b ? a : b) + 1, "MIN inside an expression"); }
    VT_REACH();
}
void h_bits(void) {
    ut t = any(), b = any(), k = t, one = (ut)((ut)1 << vt_range(0, W - 1));
    VT_CHECK(ZT_BIT_ISSET(t, b) == ((k & b) != 0), "isset: any of the bits");
    VT_CHECK(ZT_BIT_ISUNSET(t, b) == ((k & b) == 0), "isunset: none of the bits");
    ZT_BIT_SET(t, b); VT_CHECK(t == (ut)(k | b), "set");
    ZT_BIT_UNSET(t, b); VT_CHECK(t == (ut)(k & ~b), "unset");
    t = k; ZT_BIT_SET(t, one); VT_CHECK(ZT_BIT_ISSET(t, one) && !ZT_BIT_ISUNSET(t, one) && (ut)(t ^ k) == (ut)(k & one ? 0 : one), "one bit set");
    ZT_BIT_UNSET(t, one); VT_CHECK(ZT_BIT_ISUNSET(t, one) && !ZT_BIT_ISSET(t, one), "one bit unset");
    t = k; ZT_BIT_UNSET(t, b | one); VT_CHECK(t == (ut)(k & ~(b | one)), "expression argument");
    VT_CHECK(ZT_BIT_ISSET(t, b | one) == 0, "expression argument tested");
    VT_REACH();
}
void h_addr(void) {
    static struct box bx[2];
    static st ar[5];
    int i = vt_range(0, 1), k = vt_range(0, 2);
    VT_CHECK(zt_containerof(&bx[i].x, struct box, x) == &bx[i], "container of a member");
    VT_CHECK(zt_containerof(&bx[i].s, struct box, s) == &bx[i], "container of a scalar member");
    VT_CHECK(zt_containerof(&bx[i].arr[k].m, struct in, m) == &bx[i].arr[k], "container of a nested member");
    VT_CHECK(zt_offsetof(struct box, s) == (size_t)((char *)&bx[0].s - (char *)&bx[0]), "offset");
    VT_CHECK(sizeof_array(ar) == 5 && endof_array(ar) == &ar[5] && sizeof_array(bx[i].arr) == 3, "array extent");
    VT_REACH();
}
