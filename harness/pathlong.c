/* paths around the length limit, and the base directory search (V01, V02) */
#define VT_KNOWN_STRLEN
#include "vt.h"
#include "libc.h"
#include "printf.h"
#include <zt.h>
#include <errno.h>
#include <limits.h>
#include <sys/stat.h>
void zt_log_lprintf(zt_log_ty *l, zt_log_level lv, const char *f, ...) { (void)l; (void)lv; (void)f; }
void zt_log_lstrerror(zt_log_ty *l, zt_log_level lv, int e, const char *f, ...) { (void)l; (void)lv; (void)e; (void)f; }
#ifndef N
#define N 3
#endif
#ifndef M
#define M 1
#endif
#ifndef SYMC
#define SYMC 0          /* symbolic names, or one fixed name per place */
#endif
#ifndef PAT
#define PAT 0
#endif
static int calls;
#ifdef LONG
VT_STUB(int, mkdir, (const char *p, mode_t m)) {
    (void)m;
    VT_CHECK(p[0] == 'a', "readable path");
    VT_CHECK(++calls < 8, "the call terminates");
    errno = vt_bool() ? ENAMETOOLONG : ENOENT;
    return -1;
}
VT_STUB(int, stat, (const char *p, struct stat *b)) {
    int i;
    (void)b;
    for (i = 0; i <= PATH_MAX && p[i] != 0; i++) ;
    VT_CHECK(i <= PATH_MAX, "path terminated inside the limit");
    errno = ENOENT;
    return -1;
}
void h_long(void) {
    static char p[LONG + 1];
    memset(p, 'a', LONG);
    p[AT] = '/';
    p[LONG] = 0;
    vt_known(p, LONG);
    VT_CHECK(zt_mkdir(p, 0755, zt_mkdir_create_parent) == -1, "path beyond the limit is refused");
    VT_REACH();
}
void h_longbase(void) {
    static char p[LONG + 1];
    memset(p, 'a', LONG);
    p[AT] = '/';
    p[LONG] = 0;
    vt_known(p, LONG);
    VT_CHECK(zt_find_basedir(p, "t") == NULL, "no trigger anywhere");
    VT_REACH();
}
#else
static char *path;
static bool has[N + 2];          /* by length of the prefix: does it contain the trigger */
static char trig[M + 1];
VT_STUB(int, stat, (const char *p, struct stat *b)) {
    int n = 0, k;
    (void)b;
    while (n < N && p[n] != 0 && p[n] == path[n]) n++;
    /* p is path[0..e) "/" trig for the e that fits its length */
    for (k = 0; p[k] != 0; k++) ;
    k -= M + 1;
    VT_CHECK(k >= 0 && k <= N && k <= n && p[k] == '/', "a prefix of the path is searched");
    for (int i = 0; i < M; i++) VT_CHECK(p[k + 1 + i] == trig[i], "for the trigger");
    VT_CHECK(++calls <= N + 1, "the search terminates");
    if (has[k]) return 0;
    errno = ENOENT;
    return -1;
}
void h_basedir(void) {
    int x, found = -1;
    char keep[N + 1];
    path = vt_alloc(N + 1);
    for (x = 0; x < N; x++) {
        if (PAT >> x & 1) path[x] = '/';
        else { path[x] = SYMC ? vt_char() : (char)('a' + x); VT_ASSUME(path[x] != 0 && path[x] != '/'); }
        keep[x] = path[x];
    }
    path[N] = 0;
    for (x = 0; x < M; x++) { trig[x] = SYMC ? vt_char() : '.'; VT_ASSUME(trig[x] != 0 && trig[x] != '/'); }
    vt_known(path, N);
    for (x = 0; x <= N; x++) has[x] = vt_bool();
    /* the path itself, then everything above it, nearest first */
    for (x = N; x >= 0 && found < 0; x--) if (x == N || PAT >> x & 1) if (has[x]) found = x;
    char *r = zt_find_basedir(path, trig);
    VT_CHECK((r != NULL) == (found >= 0), "found exactly when some ancestor has it");
    if (r && found >= 0) {
        for (x = 0; x < N; x++) if (x < found) VT_CHECK(r[x] == keep[x], "the nearest ancestor");
        VT_CHECK(r[found] == '/' && r[found + 1] == 0, "with a separator at its end");
    }
    for (x = 0; x < N; x++) VT_CHECK(path[x] == keep[x], "path untouched");
    free(r); free(path);
    VT_NOLEAK();
    VT_REACH();
}
#endif
