/* time arithmetic and timed runs (Y01) */
#include "vt.h"
#include <zt.h>
#include <sys/resource.h>
#define LIM (1L << 60)
static struct timeval tv(void) {
    struct timeval t;
    t.tv_sec = vt_long(); t.tv_usec = vt_range(0, 999999);
    VT_ASSUME(t.tv_sec > -LIM && t.tv_sec < LIM);
    return t;
}
/* exact microsecond arithmetic in two digits */
static void same(struct timeval *r, long sec, long usec) {
    if (usec < 0) { usec += 1000000; sec -= 1; }
    if (usec >= 1000000) { usec -= 1000000; sec += 1; }
    VT_CHECK(r->tv_usec == usec, "microseconds");
    VT_CHECK(r->tv_sec == sec, "seconds");
}
void h_arith(void) {
    struct timeval a = tv(), b = tv(), r, ka = a, kb = b;
    int op = OP, alias = vt_range(0, 2);      /* the result may be one of the operands */
    struct timeval *o = alias == 0 ? &r : alias == 1 ? &a : &b, *p;
    if (op == 0) { p = zt_add_time(o, &a, &b); same(o, ka.tv_sec + kb.tv_sec, ka.tv_usec + kb.tv_usec); }
    else if (op == 1) { p = zt_sub_time(o, &a, &b); same(o, ka.tv_sec - kb.tv_sec, ka.tv_usec - kb.tv_usec); }
    else { p = zt_diff_time(o, &a, &b); same(o, kb.tv_sec - ka.tv_sec, kb.tv_usec - ka.tv_usec); }
    VT_CHECK(p == o, "result returned");
    if (o != &a) VT_CHECK(a.tv_sec == ka.tv_sec && a.tv_usec == ka.tv_usec, "left operand untouched");
    if (o != &b) VT_CHECK(b.tv_sec == kb.tv_sec && b.tv_usec == kb.tv_usec, "right operand untouched");
    VT_REACH();
}
void h_cmp(void) {
    struct timeval a = tv(), b = tv();
    long c = zt_cmp_time(&a, &b);
    int want = a.tv_sec < b.tv_sec ? -1 : a.tv_sec > b.tv_sec ? 1 : a.tv_usec < b.tv_usec ? -1 : a.tv_usec > b.tv_usec;
    VT_CHECK((c > 0) - (c < 0) == want, "order of two times");
    struct timeval d;
    zt_copy_timeval(&d, &a);
    VT_CHECK(d.tv_sec == a.tv_sec && d.tv_usec == a.tv_usec && zt_cmp_time(&d, &a) == 0, "copy");
    VT_REACH();
}
static struct rusage ru[4];
static int nru;
VT_STUB(int, getrusage, (int who, struct rusage *r))
{ (void)who; *r = ru[nru < 4 ? nru : 3]; nru++; return 0; }
static int calls, arg;
static int rets[8];
static void *fn(void *d) { VT_CHECK(d == &arg, "data passed"); VT_CHECK(nru & 1, "between the two measurements"); return &rets[calls++ & 7]; }
static struct timeval tsub(struct timeval a, struct timeval b) {
    struct timeval r;
    r.tv_sec = a.tv_sec - b.tv_sec; r.tv_usec = a.tv_usec - b.tv_usec;
    if (r.tv_usec < 0) { r.tv_usec += 1000000; r.tv_sec--; }
    return r;
}
static bool teq(struct timeval a, struct timeval b) { return a.tv_sec == b.tv_sec && a.tv_usec == b.tv_usec; }
void h_run(void) {
    struct time_result res;
    struct timeval cu = { 0, 0 }, cs = { 0, 0 };
    int i, n = N, b = 0;
    bool null = vt_bool();
    for (i = 0; i < 4; i++) { ru[i].ru_utime = tv(); ru[i].ru_stime = tv(); ru[i].ru_utime.tv_sec = vt_range(0, 1 << 20); ru[i].ru_stime.tv_sec = vt_range(0, 1 << 20); }
    if (vt_bool()) {
        zt_time_calibrate();
        VT_CHECK(nru == 2, "calibration measures twice");
        cu = tsub(ru[1].ru_utime, ru[0].ru_utime); cs = tsub(ru[1].ru_stime, ru[0].ru_stime);
        b = 2;
    }
    void *r = zt_time(n, &res, null ? NULL : fn, &arg);
    if (null) n = 0;
    VT_CHECK(calls == (n > 0 ? n : 0), "runs as often as asked");
    VT_CHECK(r == (n > 0 ? (void *)&rets[n - 1] : NULL), "last result returned");
    VT_CHECK(teq(res.usr_time, tsub(tsub(ru[b + 1].ru_utime, ru[b].ru_utime), cu)), "user time less the overhead");
    VT_CHECK(teq(res.sys_time, tsub(tsub(ru[b + 1].ru_stime, ru[b].ru_stime), cs)), "system time less the overhead");
    VT_REACH();
}
