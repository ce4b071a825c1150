/* directory creation and search (V01, V02): the file system is a stand-in, nothing real is touched */
#define VT_KNOWN_STRLEN
#include "vt.h"
#include "libc.h"
#include "printf.h"
#include <zt.h>
#include <errno.h>
#include <sys/stat.h>
#ifndef N
#define N 3
#endif
#ifndef SYMC
#define SYMC 0          /* symbolic names, or one fixed name per place */
#endif
#ifndef PAT
#define PAT 0
#endif
/* logging is not the subject */
void zt_log_lprintf(zt_log_ty *l, zt_log_level lv, const char *f, ...) { (void)l; (void)lv; (void)f; }
void zt_log_lstrerror(zt_log_ty *l, zt_log_level lv, int e, const char *f, ...) { (void)l; (void)lv; (void)e; (void)f; }

#define LONGN 4300
static char *path;
static int   plen;
/* the directory chain of the path: component j is the j'th name; 0 is the root or the working directory */
enum { MISSING, DIR_, FILE_ };
static int kind[N + 2], ncomp, cend[N + 2], mk[N + 3], nmk, nfail, calls;
static bool deny[N + 2];
static mode_t want_mode;
static bool slash(int x) { return PAT >> x & 1; }
/* how many components the first n characters of the path have; -1 when they are no whole prefix */
static int comp_of(const char *p, int *trail) {
    int n = 0, c = 0;
    for (; p[n] != 0; n++) {
        VT_CHECK(n < plen && p[n] == path[n], "only prefixes of the path are touched");
        if (!slash(n) && (n == 0 || slash(n - 1))) c++;
    }
    *trail = n > 0 && slash(n - 1);
    VT_CHECK(n == plen || slash(n) || (n > 0 && slash(n - 1)), "only whole components are touched");
    if (n == 0) return -1;
    return c;
}
static int walk(int c) {      /* error met on the way to the parent of component c */
    int j;
    for (j = 1; j < c; j++) {
        if (kind[j] == MISSING) return ENOENT;
        if (kind[j] == FILE_) return ENOTDIR;
    }
    return 0;
}
VT_STUB(int, mkdir, (const char *p, mode_t m)) {
    int tr, c = comp_of(p, &tr), e;
    VT_CHECK(m == want_mode, "mode passed on");
    VT_CHECK(++calls < 4 * N + 8, "the call terminates");
    if (c < 0) { errno = ENOENT; return -1; }
    if (c == 0) { errno = EEXIST; return -1; }
    if ((e = walk(c)) != 0) { errno = e; return -1; }
    if (kind[c] != MISSING) { errno = EEXIST; return -1; }
    if (deny[c]) { nfail++; errno = EACCES; return -1; }
    kind[c] = DIR_;
    if (nmk < N + 3) mk[nmk++] = c;
    return 0;
}
VT_STUB(int, stat, (const char *p, struct stat *b)) {
    int tr, c = comp_of(p, &tr), e;
    if (c < 0) { errno = ENOENT; return -1; }
    if ((e = walk(c)) != 0) { errno = e; return -1; }
    if (c > 0 && kind[c] == MISSING) { errno = ENOENT; return -1; }
    if (c > 0 && kind[c] == FILE_ && tr) { errno = ENOTDIR; return -1; }
    b->st_mode = c > 0 && kind[c] == FILE_ ? S_IFREG | 0644 : S_IFDIR | 0755;
    return 0;
}
void h_mkdir(void) {
    int x, j, first = 0, bad = 0;
    plen = N;
    path = vt_alloc(N + 1);
    for (x = 0; x < N; x++) {
        if (slash(x)) path[x] = '/';
        else {
            path[x] = SYMC ? vt_char() : (char)('a' + x);
            VT_ASSUME(path[x] != 0 && path[x] != '/' && path[x] != '.');     /* . and .. name other directories */
            if (x == 0 || slash(x - 1)) ncomp++;
        }
    }
    path[N] = 0;
    vt_known(path, N);
    for (j = 1; j <= ncomp; j++) {
        kind[j] = vt_range(MISSING, FILE_);
        deny[j] = vt_bool();
        if (j > 1 && kind[j - 1] != DIR_) kind[j] = MISSING;
        if (!first && kind[j] != DIR_) first = j;                 /* first component that is not there yet */
        if (kind[j] == FILE_ || (kind[j] == MISSING && first && deny[j] && !bad)) { if (!bad) bad = j; }
    }
    bool parents = vt_bool();
    want_mode = (mode_t)vt_u16();
    if (N == 0) bad = 1;
    int top = ncomp;                                              /* components that must exist afterwards */
    if (!parents && first && first < ncomp) { bad = first; }
    int r = zt_mkdir(path, want_mode, parents ? zt_mkdir_create_parent : 0);
    VT_CHECK(r == (bad ? -1 : 0), "succeeds exactly when the path is or becomes a directory");
    if (!parents && first && first < ncomp) VT_CHECK(nmk == 0, "no parents unless asked");
    else {
        int n = 0;
        for (j = 1; j <= top; j++) if (first && j >= first && (!bad || j < bad)) { VT_CHECK(n < nmk && mk[n] == j, "missing ancestors are made once each from the root down"); n++; }
        VT_CHECK(nmk == n, "nothing else is made");
    }
    if (N > 0) {
        int tr = 0;
        bool there = true;
        for (j = 1; j <= ncomp; j++) if (kind[j] == MISSING) there = false;
        if (kind[ncomp] == FILE_ && PAT >> (N ? N - 1 : 0) & 1) there = false;
        (void)tr;
        VT_CHECK(zt_path_exists(path) == (there ? 0 : -1), "path_exists");
    }
    free(path);
    VT_REACH();
}

