#include "vt.h"
#include "libc.h"
#include <zt.h>
#ifndef OPS
#define OPS 0
#endif
#ifndef K
#define K 3
#endif
/* the system's exit-handler list */
static void (*sys[8])(void);
static int nsys;
VT_STUB(int, atexit, (void (*f)(void))) { if (nsys < 8) sys[nsys++] = f; return 0; }
static void run_exit(void) { while (nsys > 0) { nsys--; sys[nsys](); } }
static int log_fn[16], log_n, extra = -1;
static void *log_arg[16];
static char args[16];
static void f1(void *d);
static void f0(void *d) { if (log_n < 16) { log_fn[log_n] = 0; log_arg[log_n++] = d; } }
static void f1(void *d) { if (log_n < 16) { log_fn[log_n] = 1; log_arg[log_n++] = d; } }
/* a handler that registers another one while the program exits */
static void f2(void *d) { if (log_n < 16) { log_fn[log_n] = 2; log_arg[log_n++] = d; } zt_atexit(f0, &args[15]); }
static void third(void) { }
void h_order(void) {
    int k, i, n = 0, fn[16];
    void *ar[16];
    long ops = OPS;
    for (k = 0; k < K; k++, ops /= 10) {
        switch (ops % 10) {
        case 0: fn[n] = 0; ar[n] = vt_bool() ? (void *)&args[k] : NULL; zt_atexit(f0, ar[n]); n++; break;
        case 1: fn[n] = 1; ar[n] = vt_bool() ? (void *)&args[k] : (void *)&args[0]; zt_atexit(f1, ar[n]); n++; break;
        case 2: fn[n] = 2; ar[n] = &args[k]; zt_atexit(f2, ar[n]); n++; break;
        case 3: atexit(third); break;      /* somebody else's handler in between */
        }
    }
    VT_CHECK(log_n == 0, "nothing runs before the exit");
    run_exit();
    int at = 0;
    for (i = n - 1; i >= 0; i--) {
        VT_CHECK(at < log_n && log_fn[at] == fn[i] && log_arg[at] == ar[i], "each handler once, last registered first, with its argument");
        at++;
        if (fn[i] == 2) { VT_CHECK(at < log_n && log_fn[at] == 0 && log_arg[at] == &args[15], "a handler registered while exiting runs next"); at++; }
    }
    VT_CHECK(log_n == at, "and nothing else");
    VT_NOLEAK();
    VT_REACH();
}
