/* command line options (O01) */
#include "vt.h"
#include "libc.h"
#include "printf.h"
#include <zt.h>
#include <errno.h>
#include <libzt/zt_opts.h>
void zt_log_lprintf(zt_log_ty *l, zt_log_level lv, const char *f, ...) { (void)l; (void)lv; (void)f; }
#ifndef L1
#define L1 2
#endif
#ifndef L2
#define L2 -1
#endif
#ifndef L3
#define L3 -1
#endif
#ifndef W
#define W 0
#endif
#define MAXE 8
enum { F, S, G, Q, X, DEFS, ERR };
struct ev { int def; char *val; int argn; };
static struct ev got[MAXE], want[MAXE];
static int ngot, nwant, argc_, count_f;
static char *argv_[5];
static char a0[] = "prog", a1[L1 + 2], a2[L2 + 2], a3[L3 + 2];
static void note(int def, char *val, int argn) { VT_CHECK(ngot < MAXE, "no more calls than options"); if (ngot < MAXE) { got[ngot].def = def; got[ngot].val = val; got[ngot].argn = argn; ngot++; } }
static void expect(int def, char *val, int argn) { if (nwant < MAXE) { want[nwant].def = def; want[nwant].val = val; want[nwant].argn = argn; nwant++; } }
static int err(int code, char *fmt, ...) { (void)fmt; VT_CHECK(code == EINVAL, "error code"); note(ERR, NULL, 0); return 0; }
static int flag_cb(int argn, int defn, int *ac, char **av, zt_opt_def_t *d, zt_opt_error e) {
    VT_CHECK(av == argv_ && e == err, "callback arguments");
    note(defn, NULL, argn);
    return 0;
}
static int val_cb(int argn, int defn, int *ac, char **av, zt_opt_def_t *d, zt_opt_error e) {
    int n = 77;
    char *v = zt_opt_get_value(argn, defn, av, d, &n, e);
    VT_CHECK(n == 0 || n == 1, "arguments consumed");
    VT_CHECK(v != NULL || n == 0, "nothing consumed without a value");
    note(defn, v, argn);
    return n;
}
static int stop_cb(int argn, int defn, int *ac, char **av, zt_opt_def_t *d, zt_opt_error e) { note(defn, NULL, argn); return -5; }
static zt_opt_def_t defs[] = {
    { 'f', ZT_OPT_NLO, NULL, flag_cb, NULL, "flag" },
    { 's', "st", NULL, val_cb, NULL, "value" },
    { ZT_OPT_NSO, "ff", NULL, flag_cb, NULL, "long flag" },
    { 'q', ZT_OPT_NLO, NULL, val_cb, NULL, "value, short only" },
    { 'x', "x", NULL, stop_cb, NULL, "stops" },
    { ZT_OPT_END() }
};
static bool valued(int d) { return d == S || d == Q; }
static int shortdef(char c) { return c == 'f' ? F : c == 's' ? S : c == 'q' ? Q : c == 'x' ? X : ERR; }
static int longdef(const char *p, int n) {
    return n == 2 && p[0] == 's' && p[1] == 't' ? S : n == 2 && p[0] == 'f' && p[1] == 'f' ? G : n == 1 && p[0] == 'x' ? X : ERR;
}
/* the documented meaning; the number of arguments used, or -5 */
static int reference(void) {
    int i, j, d;
    for (i = 1; i < argc_; i++) {
        char *a = argv_[i];
        if (a[0] != '-') break;
        if (a[1] == '-') {
            for (j = 2; a[j] != 0 && a[j] != '='; j++) ;
            d = longdef(a + 2, j - 2);
            if (d == ERR) expect(ERR, NULL, 0);
            else if (!valued(d)) { expect(d, NULL, i); if (d == X) return -5; }
            else if (a[j] == '=') expect(d, a + j + 1, i);
            else if (i + 1 < argc_) { expect(d, argv_[i + 1], i); i++; }
            else { expect(ERR, NULL, 0); expect(d, NULL, i); }
            continue;
        }
        j = 1;
        do {
            d = shortdef(a[j]);
            if (d == ERR) { expect(ERR, NULL, 0); break; }
            if (!valued(d)) { expect(d, NULL, i); if (d == X) return -5; j++; continue; }
            if (a[j + 1] == '=') expect(d, a + j + 2, i);
            else if (a[j + 1] != 0) expect(d, a + j + 1, i);
            else if (i + 1 < argc_) { expect(d, argv_[i + 1], i); i++; }
            else { expect(ERR, NULL, 0); expect(d, NULL, i); }
            break;
        } while (a[j] != 0);
    }
    return i;
}
#ifndef FORM    /* one character per character of the arguments: itself, or * for any */
#define FORM "************"
#endif
static void arg(char *a, int n) {
    static int at;
    int i;
    if (n < 0) return;
    for (i = 0; i < n; i++) { a[i] = FORM[at + i]; if (a[i] == '*') { a[i] = (char)vt_u8(); VT_ASSUME(a[i] != 0); } }
    at += n;
    a[n] = 0;
    argv_[argc_++] = a;
}
void h_parse(void) {
    int ac, r, w, i;
    argv_[argc_++] = a0;
    arg(a1, L1); arg(a2, L2); arg(a3, L3);
    if (FORM[0] == '*') VT_ASSUME(a1[0] == '-' || L1 == 0);
    argv_[argc_] = NULL;
    ac = argc_;
    w = reference();
    r = zt_opt_process_args(&ac, argv_, defs, NULL, err);
    if (w < 0) VT_CHECK(r == w, "the callback's refusal is returned");
    else { VT_CHECK(r == 0, "processed"); VT_CHECK(ac == w, "index of the first argument left"); }
    VT_CHECK(ngot == nwant, "as many calls as options and errors");
    for (i = 0; i < nwant; i++) VT_CHECK(got[i].def == want[i].def && got[i].val == want[i].val && got[i].argn == want[i].argn, "each option with its value, errors in place");
    VT_REACH();
}
/* definitions are checked */
void h_validate(void) {
    zt_opt_def_t d[3] = { { 'a', ZT_OPT_NLO, NULL, flag_cb, NULL, "h" }, { 'a', ZT_OPT_NLO, NULL, flag_cb, NULL, "h" }, { ZT_OPT_END() } };
    static char l[2][2];
    bool bad = false;
    int i;
    for (i = 0; i < 2; i++) {
        d[i].sopt = (char)vt_u8();
        VT_ASSUME(d[i].sopt != 0);
        if (vt_bool()) { d[i].lopt = l[i]; l[i][0] = (char)vt_u8(); VT_ASSUME(l[i][0] != 0); }
        if (vt_bool()) { d[i].help = NULL; bad = true; }
        char c = d[i].sopt;
        if (c == ZT_OPT_NSO ? d[i].lopt == NULL : !((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'))) bad = true;
    }
    if (d[0].sopt != ZT_OPT_NSO && d[0].sopt == d[1].sopt) bad = true;
    if (d[0].lopt && d[1].lopt && l[0][0] == l[1][0]) bad = true;
    zt_opt_validate_default(d, err);
    VT_CHECK((ngot > 0) == bad, "bad definitions are reported, good ones not");
    VT_REACH();
}
/* the provided callbacks store what they are given */
#ifndef TYPE
#define TYPE 0
#endif
void h_type(void) {
    static zt_opt_def_t d[] = { { 't', "t", NULL, NULL, NULL, "h" }, { ZT_OPT_END() } };
    char *s = NULL, **arr = NULL;
    int b = 7, r, i, times = 0;
    argv_[argc_++] = a0;
    a1[0] = '-'; a1[1] = 't'; a1[2] = 0;
    argv_[argc_++] = a1;
    arg(a2, L2);
    argv_[argc_] = NULL;
    if (TYPE == 0) { d[0].cb = zt_opt_string; d[0].cb_data = &s; }
    if (TYPE == 1) { d[0].cb = zt_opt_bool_int; d[0].cb_data = &b; }
    if (TYPE == 2) { d[0].cb = zt_opt_flag_int; d[0].cb_data = &b; }
    if (TYPE == 3) { d[0].cb = zt_opt_string_array; d[0].cb_data = &arr; }
    r = d[0].cb(1, 0, &argc_, argv_, d, err);
    if (TYPE == 2) { VT_CHECK(r == 0 && b == 8 && ngot == 0, "flag counted"); VT_CHECK(d[0].cb(1, 0, &argc_, argv_, d, err) == 0 && b == 9, "and again"); }
    else if (L2 < 0) VT_CHECK(r == 0 && ngot >= 1 && s == NULL && b == 7 && arr == NULL, "missing value reported, nothing stored");
    else if (TYPE == 0) { VT_CHECK(r == 1 && ngot == 0 && s != a2 && strcmp(s, a2) == 0, "own copy of the string"); free(s); }
    else if (TYPE == 3) {
        VT_CHECK(r == 1 && ngot == 0 && strcmp(arr[0], a2) == 0 && arr[1] == NULL, "list of one");
        VT_CHECK(d[0].cb(1, 0, &argc_, argv_, d, err) == 1 && strcmp(arr[0], a2) == 0 && strcmp(arr[1], a2) == 0 && arr[2] == NULL, "list of two");
        free(arr[0]); free(arr[1]); free(arr);
    } else {
        int v = -1;
        if (L2 == 1) v = a2[0] == 't' || a2[0] == 'T' || a2[0] == 'y' || a2[0] == 'Y' ? 1 : a2[0] == 'f' || a2[0] == 'F' || a2[0] == 'n' || a2[0] == 'N' ? 0 : -1;
        else v = strcasecmp(a2, "true") == 0 || strcasecmp(a2, "yes") == 0 ? 1 : strcasecmp(a2, "false") == 0 || strcasecmp(a2, "no") == 0 ? 0 : -1;
        if (v < 0) VT_CHECK(r == 0 && ngot == 1 && b == 7, "no boolean: reported, nothing stored");
        else VT_CHECK(r == 1 && ngot == 0 && b == v, "boolean stored");
    }
    VT_NOLEAK();
    VT_REACH();
}
