#include "vt.h"
#include "libc.h"
#include <zt.h>
#ifndef LEN
#define LEN 2
#endif
#ifndef SIZE
#define SIZE 2
#endif
#ifndef LEN2
#define LEN2 3
#endif
#define TOT ((LEN + LEN2 + 2) * SIZE)
static unsigned char m[TOT], buf[SIZE + 2];
static void same(zt_array_t a, size_t n) {
    size_t i = vt_range(0, n ? n - 1 : 0);
    VT_CHECK(zt_array_length(a) == n && zt_array_size(a) == SIZE, "length and element size");
    if (n) {
        unsigned char *e = zt_array_get(a, i);
        VT_CHECK(e == (unsigned char *)zt_array_data(a) + i * SIZE, "element address");
        VT_CHECK(memcmp(e, m + i * SIZE, SIZE) == 0, "element contents");
        buf[SIZE] = 0x5a;
        VT_CHECK(zt_array_elem_copy(a, i, buf) == buf && memcmp(buf, m + i * SIZE, SIZE) == 0 && buf[SIZE] == 0x5a, "element copied out");
    }
}
static void put(zt_array_t a, size_t n) {
    size_t i, k;
    unsigned char v[SIZE], w[SIZE];
    if (n == 0) return;
    i = vt_range(0, n - 1);
    vt_bytes(v, SIZE); memcpy(w, v, SIZE);
    VT_CHECK(zt_array_put(a, i, v) == v && memcmp(v, w, SIZE) == 0, "put returns its element");
    for (k = 0; k < SIZE; k++) m[i * SIZE + k] = v[k];
}
void h_array(void) {
    zt_array_t a = zt_array_new(LEN, SIZE), b, c;
    size_t i, k;
    VT_CHECK(a != NULL, "created");
    same(a, LEN);            /* zero filled */
    put(a, LEN); put(a, LEN);
    same(a, LEN);
    b = zt_array_copy(a, LEN2);
    for (i = LEN * SIZE; i < TOT; i++) m[i] = 0;
    same(b, LEN2);
    /* independent: a changes, b does not */
    { unsigned char o[TOT]; memcpy(o, m, TOT); put(a, LEN); same(a, LEN); 
      unsigned char t[TOT]; memcpy(t, m, TOT); memcpy(m, o, TOT); same(b, LEN2); memcpy(m, t, TOT); }
    zt_array_resize(a, LEN2);
    for (k = LEN2 * SIZE; k < TOT; k++) m[k] = 0;
    same(a, LEN2);
    put(a, LEN2);
    zt_array_resize(a, LEN + LEN2);
    same(a, LEN + LEN2);
    VT_CHECK(zt_array_set_length(a, 1) == LEN + LEN2 && zt_array_length(a) == 1, "set_length returns the old length");
    same(a, 1);
    VT_CHECK(zt_array_set_length(a, 0) == 1, "set_length to 0");
    zt_array_resize(a, 2);
    memset(m, 0, TOT);
    same(a, 2);
    zt_array_free(&a);
    VT_CHECK(a == NULL, "handle cleared");
    zt_array_free(&b);
    VT_NOLEAK();
    VT_REACH();
}
void h_with(void) {
    unsigned char *d = vt_alloc(LEN * SIZE + 1);
    size_t i;
    vt_bytes(d, LEN * SIZE);
    memcpy(m, d, LEN * SIZE);
    zt_array_t a = zt_array_with((char *)d, LEN, SIZE, 1);
    VT_CHECK((unsigned char *)zt_array_data(a) != d, "a copy");
    same(a, LEN);
    put(a, LEN); same(a, LEN);
    zt_array_free(&a);
    memcpy(m, d, LEN * SIZE);
    a = zt_array_with((char *)d, LEN, SIZE, 0);
    VT_CHECK((unsigned char *)zt_array_data(a) == d, "not a copy");
    same(a, LEN);
    put(a, LEN);
    VT_CHECK(memcmp(d, m, LEN * SIZE) == 0, "shared bytes");
    zt_array_free(&a);         /* takes the block with it */
    char *s = vt_cstr(LEN);
    a = zt_array_with_cstr(s);
    VT_CHECK(zt_array_length(a) == LEN && zt_array_size(a) == 1, "string length");
    for (i = 0; i < LEN; i++) VT_CHECK(*(char *)zt_array_get(a, i) == s[i], "string contents");
    free(s);
    zt_array_free(&a);
    VT_NOLEAK();
    VT_REACH();
}
