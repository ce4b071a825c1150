#include "vt.h"
#include "libc.h"
#include <zt.h>
#ifndef OPS
#define OPS 0
#endif
#ifndef K
#define K 4
#endif
#ifndef PRE
#define PRE 0        /* elements before the symbolic operations start */
#endif
#ifndef EXPAND
#define EXPAND 1
#endif
static char obj[4];
static void *m[160];
static int mc, freed[4], frees;
static void on_free(void *p) { frees++; freed[(char *)p - obj]++; }
static void verify(zt_ptr_array *a) {
    int i = vt_int();
    VT_CHECK(zt_ptr_array_length(a) == mc && a->count <= a->size, "count");
    void *e = zt_ptr_array_get_idx(a, i);
    if (i >= 0 && i < mc) VT_CHECK(e == m[i], "elements in order");
    else if (i == -1 && mc > 0) VT_CHECK(e == m[mc - 1], "index -1 is the last element");
    else VT_CHECK(e == NULL, "an index outside is refused");
}
/* K operations: 0 add, 1 delete, 2 move, 3 get any, 4 cat with another array, 5 resize */
void h_seq(void) {
    int k, i, j, args;
    long ops = OPS;
    zt_ptr_array *a = zt_ptr_array_init(&args, on_free);
    VT_CHECK(a != NULL && a->args == &args, "created");
    for (i = 0; i < PRE; i++) { VT_CHECK(zt_ptr_array_add(a, &obj[i % 2]) == 0, "add"); m[mc++] = &obj[i % 2]; }
    for (k = 0; k < K; k++, ops /= 10) {
        int o = k % 3, c = ops % 10;      /* what is added is fixed, what is deleted is not */
        if (c == 1) o = vt_range(0, 3);
        switch (c) {
        case 0: VT_CHECK(zt_ptr_array_add(a, &obj[o]) == 0, "add"); m[mc++] = &obj[o]; break;
        case 1: {
            int at = -1, before = frees;
            for (i = mc - 1; i >= 0; i--) if (m[i] == &obj[o]) at = i;
            VT_CHECK(zt_ptr_array_del(a, &obj[o]) == (at < 0 ? -1 : 0), "del reports whether it deleted");
            VT_CHECK(frees == before + (at >= 0), "free callback once per deletion");
            if (at >= 0) { VT_CHECK(freed[o] >= 1, "deleted element is the one freed"); freed[o]--; m[at] = m[mc - 1]; mc--; }
            break; }
        case 2: {
            int s = vt_int(), d = vt_int();
            bool ok = s >= 0 && s < mc && d >= 0 && d < mc;
            VT_CHECK(zt_ptr_array_move_idx_to_idx(a, s, d) == (ok ? 0 : -1), "move");
            if (ok) m[d] = m[s];
            break; }
        case 3: VT_CHECK(zt_ptr_array_add(a, NULL) == 0 && zt_ptr_array_del(a, NULL) == -1, "NULL is never stored"); break;
        case 4: {
            zt_ptr_array *b = zt_ptr_array_init(NULL, NULL);
            zt_ptr_array_add(b, &obj[o]); zt_ptr_array_add(b, &obj[1]);
            VT_CHECK(zt_ptr_array_cat(a, b) == 0 && zt_ptr_array_length(b) == 2, "cat");
            m[mc++] = &obj[o]; m[mc++] = &obj[1];
            zt_ptr_array_free(b, 0);
            break; }
        case 5: {
            int size = a->size;
            VT_CHECK(zt_ptr_array_resize(a, EXPAND) == 0 && a->size == size + (EXPAND ? EXPAND : ZT_PTR_ARRAY_DEFAULT_SIZE), "resize"); break; }
        case 6: VT_CHECK(zt_ptr_array_cat(a, a) == 0, "cat to itself"); j = mc; for (i = 0; i < j; i++) m[mc++] = m[i]; break;
        }
        verify(a);
    }
    for (i = 0; i < 4; i++) freed[i] = 0;
    frees = 0;
    int mode = vt_range(-1, 1), want[4] = { 0, 0, 0, 0 };
    for (i = 0; i < mc; i++) for (j = 0; j < 4; j++) if (m[i] == &obj[j]) want[j]++;
    char *dst[PRE + 2 * K + 2];
    if (ops == 0) { VT_CHECK(zt_ptr_array_copy_data(a, dst) == 0, "copy data"); for (i = 0; i < mc && i < PRE + 2 * K + 2; i++) VT_CHECK(dst[i] == m[i], "copied element"); }
    VT_CHECK(zt_ptr_array_free(a, mode) == 0, "free");
    if (mode > 0) for (j = 0; j < 4; j++) VT_CHECK(freed[j] == want[j], "each remaining element freed once");
    else VT_CHECK(frees == 0, "elements left alone");
    VT_REACH();
}
void h_resize(void) {
    zt_ptr_array *a = zt_ptr_array_init(NULL, NULL);
    int e = vt_int();
    VT_ASSUME(e < 0 || e > INT32_MAX - ZT_PTR_ARRAY_DEFAULT_SIZE);
    VT_CHECK(zt_ptr_array_resize(a, e) == -1, "overflowing sizes are refused");
    VT_CHECK(a->size == ZT_PTR_ARRAY_DEFAULT_SIZE, "unchanged");
    VT_CHECK(zt_ptr_array_resize(NULL, 1) == -1 && zt_ptr_array_cat(a, NULL) == -1 && zt_ptr_array_cat(NULL, a) == -1 && zt_ptr_array_free(NULL, 1) == -1
             && zt_ptr_array_copy_data(NULL, NULL) == -1 && zt_ptr_array_del(NULL, obj) == -1, "NULL arrays refused");
    zt_ptr_array_add(a, malloc(3));
    zt_ptr_array_free(a, 1);
    VT_NOLEAK();
    VT_REACH();
}
