/* program name and directory (E01) */
#include "vt.h"
#include "libc.h"
#include "printf.h"
#include <zt.h>
#include <errno.h>
#include <limits.h>
#include <sys/stat.h>
void zt_log_lprintf(zt_log_ty *l, zt_log_level lv, const char *f, ...) { (void)l; (void)lv; (void)f; }
#ifndef N
#define N 3
#endif
#ifndef M
#define M 2
#endif
#ifndef PATHS
#define PATHS "a:b"
#endif
#ifndef PROG
#define PROG "p"
#endif
#ifndef WD
#define WD "/w"
#endif
static int stats, hit;
static bool asked[8], noenv, nocwd;
static const char paths[] = PATHS;
VT_STUB(char *, getenv, (const char *n)) { (void)n; return noenv ? NULL : (char *)paths; }
VT_STUB(char *, getcwd, (char *b, size_t n)) {
    if (nocwd) { errno = ENOENT; return NULL; }
    VT_CHECK(n >= sizeof(WD), "room for the current directory");
    memcpy(b, WD, sizeof(WD));
    return b;
}
VT_STUB(ssize_t, readlink, (const char *p, char *b, size_t n)) {
    static const char exe[] = "/x/y/p";
    (void)p;
    VT_CHECK(n >= sizeof(exe) - 1, "room for the link");
    memcpy(b, exe, sizeof(exe) - 1);
    return sizeof(exe) - 1;
}
VT_STUB(pid_t, getpid, (void)) { return 77; }
/* element k of the search path */
static size_t elem(int k, size_t *len) {
    size_t i = 0, n = 0;
    while (k > 0) { while (paths[i] != ':') i++; i++; k--; }
    while (paths[i + n] != 0 && paths[i + n] != ':') n++;
    *len = n;
    return i;
}
static int elems(void) { int n = 1; size_t i; for (i = 0; paths[i]; i++) n += paths[i] == ':'; return n; }
VT_STUB(int, stat, (const char *p, struct stat *b)) {
    size_t at, n, i;
    bool same = true;
    (void)b;
    VT_CHECK(stats < elems(), "asks for no more than the elements of the path");
    if (stats >= elems()) { errno = ENOENT; return -1; }
    at = elem(stats, &n);
    if (n == 0) { VT_CHECK(p[0] == '.' && p[1] == '/', "an empty element is the current directory"); n = 1; }
    else { for (i = 0; i < n; i++) if (p[i] != paths[at + i]) same = false; VT_CHECK(same, "element of the search path, in order"); }
    VT_CHECK(p[n] == '/' && strcmp(p + n + 1, PROG) == 0, "the program in that element");
    if (stats++ == hit) return 0;
    errno = ENOENT;
    return -1;
}
/* a program named without a directory is looked up in every element */
void h_search(void) {
    char *r;
    size_t at, n, i;
    hit = vt_range(0, elems());
    stats = 0;
    r = zt_progpath(PROG);
    VT_CHECK(stats == (hit < elems() ? hit + 1 : elems()), "elements are asked in order until it is found");
    if (hit < elems()) {
        at = elem(hit, &n);
        if (n) { for (i = 0; i < n; i++) VT_CHECK(r[i] == paths[at + i], "the element that has it"); VT_CHECK(r[n] == 0, "and nothing else"); }
        else VT_CHECK(strcmp(r, WD) == 0, "the current directory");
    } else VT_CHECK(strcmp(r, WD) == 0, "the current directory when it is nowhere");
    VT_CHECK(zt_progpath(NULL) == r && zt_progpath("") == r, "kept until the next call");
    VT_NOLEAK();
    VT_REACH();
}
/* a program named with a directory is not looked up */
#ifndef WANT
#define WANT "/w"
#endif
void h_dir(void) {
    stats = 0;
    char *r = zt_progpath(PROG);
    VT_CHECK(stats == 0 || paths[0] == 0, "the search path is not consulted");
    VT_CHECK(strcmp(r, WANT) == 0, "the directory it was named with");
    VT_NOLEAK();
    VT_REACH();
}
void h_proc(void) {
    noenv = true;
    VT_CHECK(strcmp(zt_progpath(PROG), "/x/y") == 0, "without PATH the system is asked");
    VT_CHECK(strcmp(zt_progpath(NULL), "/x/y") == 0, "kept");
    VT_NOLEAK();
    VT_REACH();
}
/* two names one after the other */
static char first[M + 1], second[N + 1];
static void is(const char *r, const char *name, int n, bool strip) {
    int at = 0, i;
    if (strip) for (i = 0; i < n; i++) if (name[i] == '/') at = i + 1;
    n -= at;
    if (n > PATH_MAX - (strip ? 1 : 0)) n = PATH_MAX - (strip ? 1 : 0);
    for (i = 0; i < n; i++) VT_CHECK(r[i] == name[at + i], "the name, without its directory exactly when asked");
    VT_CHECK(r[n] == 0, "terminated, nothing of the previous name");
}
void h_name(void) {
    bool s1 = vt_bool(), s2 = vt_bool();
    int i;
    char *r = zt_progname(NULL, vt_bool() ? STRIP_DIR : 0);
    VT_CHECK(strcmp(r, "*UNKNOWN*") == 0, "no name yet");
    for (i = 0; i < M; i++) { first[i] = (char)vt_u8(); VT_ASSUME(first[i] != 0); }
    for (i = 0; i < N; i++) { second[i] = (char)vt_u8(); VT_ASSUME(second[i] != 0); }
    r = zt_progname(first, s1 ? STRIP_DIR : 0);
    if (M) is(r, first, M, s1);
    r = zt_progname(second, s2 ? STRIP_DIR : 0);
    if (N) is(r, second, N, s2);
    else if (M) is(r, first, M, s1);
    VT_CHECK(zt_progname(NULL, 0) == r && zt_progname("", STRIP_DIR) == r, "kept until replaced");
    if (N) is(r, second, N, s2);
    VT_NOLEAK();
    VT_REACH();
}
