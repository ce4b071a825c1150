/* native runtime of the harness vocabulary: inputs from a replay file, one integer per line */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>

static FILE *vt_in;
static int   vt_reached;
static long  vt_live;

uint64_t vt_next(void) {
    char line[64];
    while (vt_in && fgets(line, sizeof line, vt_in)) {
        if (line[0] == '#') { while (!strchr(line, '\n') && fgets(line, sizeof line, vt_in)) ; continue; }
        return strtoull(line, NULL, 0);
    }
    return 0;
}
static void out(const char *a, const char *b) {
    fflush(stdout);
    if (write(2, a, strlen(a)) < 0) _exit(3);
    if (write(2, b, strlen(b)) < 0) _exit(3);
    if (write(2, "\n", 1) < 0) _exit(3);
}
void vt_fail(const char *msg) { out("VT-FAIL: ", msg); _exit(42); }
void vt_skip(const char *why) { out("VT-SKIP: ", why); _exit(77); }
void vt_reach(void) { vt_reached = 1; }

#ifndef VT_ABORT_OK
static void on_abort(int s) { (void)s; out("VT-FAIL: ", "library aborted"); _exit(43); }
#else
extern void vt_on_abort(void);
static void on_abort(int s) { (void)s; vt_on_abort(); out("VT-OK: ", "abort was the contract"); _exit(0); }
#endif

/* allocation accounting: -Wl,--wrap */
void *__real_malloc(size_t n); void *__real_calloc(size_t a, size_t b);
void *__real_realloc(void *p, size_t n); void __real_free(void *p);
char *__real_strdup(const char *s); char *__real_strndup(const char *s, size_t n);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) vt_live++; return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p) vt_live++; return p; }
void *__wrap_realloc(void *o, size_t n) {
    void *p = __real_realloc(o, n);
    if (!o && p) vt_live++;
    if (o && n == 0 && !p) vt_live--;
    return p;
}
void __wrap_free(void *p) { if (p) vt_live--; __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); if (p) vt_live++; return p; }
char *__wrap_strndup(const char *s, size_t n) { char *p = __real_strndup(s, n); if (p) vt_live++; return p; }
void vt_noleak(void) { if (vt_live > 0) vt_fail("memory leaked"); if (vt_live < 0) vt_fail("freed more than allocated"); }

extern void VT_ENTRY(void);
int main(int argc, char **argv) {
    if (argc > 1) vt_in = fopen(argv[1], "r");
    if (vt_in) { static char buf[4096]; setvbuf(vt_in, buf, _IOFBF, sizeof buf); }
    signal(SIGABRT, on_abort);
    VT_ENTRY();
    if (!vt_reached) { out("VT-NOREACH", ""); _exit(78); }
    out("VT-OK", "");
    _exit(0);
}
