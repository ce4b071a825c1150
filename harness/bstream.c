#include "vt.h"
#include "libc.h"
#include <zt.h>
#ifndef K
#define K 3
#endif
#ifndef OPS
#define OPS 0
#endif
#ifndef FLIP
#define FLIP 0
#endif
#ifndef N
#define N 2
#endif
static union { uint64_t u; uint8_t b; uint16_t h; uint32_t w; double d; float f; char c[8]; } in[K + 1], out;
static const int width[8] = { 1, 1, 2, 4, 8, 4, 8, N };
/* values whose conversion through a float or double object keeps every bit */
static void wr(zt_bstream_t s, int c, int k) {
    switch (c) {
    case 0: zt_bstream_write_byte(s, in[k].c[0]); break;
    case 1: zt_bstream_write_uint8(s, in[k].b); break;
    case 2: zt_bstream_write_uint16(s, in[k].h); break;
    case 3: zt_bstream_write_uint32(s, in[k].w); break;
    case 4: zt_bstream_write_uint64(s, in[k].u); break;
    case 5: zt_bstream_write_float(s, in[k].f); break;
    case 6: zt_bstream_write_double(s, in[k].d); break;
    case 7: zt_bstream_write(s, in[k].c, N, 1, 0); break;
    }
}
static void rd(zt_bstream_t s, int c) {
    switch (c) {
    case 0: zt_bstream_read_byte(s, out.c); break;
    case 1: zt_bstream_read_uint8(s, &out.b); break;
    case 2: zt_bstream_read_uint16(s, &out.h); break;
    case 3: zt_bstream_read_uint32(s, &out.w); break;
    case 4: zt_bstream_read_uint64(s, &out.u); break;
    case 5: zt_bstream_read_float(s, &out.f); break;
    case 6: zt_bstream_read_double(s, &out.d); break;
    case 7: zt_bstream_read(s, out.c, N, 1, 0); break;
    }
}
static void readall(zt_bstream_t s) {
    long ops = OPS;
    int k, i;
    size_t at = 0;
    for (k = 0; k < K; k++, ops /= 10) {
        int c = ops % 10, w = width[c];
        for (i = 0; i < 8; i++) out.c[i] = 0x33;
        rd(s, c);
        for (i = 0; i < 8; i++) VT_CHECK(out.c[i] == (i < w ? in[k].c[i] : 0x33), "read back what was written, and nothing more");
        at += w;
        VT_CHECK(s->offt == at, "offset after reading");
    }
}
void h_rw(void) {
    zt_bstream_t s = zt_bstream_new(), t;
    long ops = OPS;
    int k, i;
    size_t at = 0, end;
    VT_CHECK(s->offt == 0 && s->flipendian == 0 && zt_bstream_is_empty(s), "a new stream is empty");
    s->flipendian = FLIP;
    for (k = 0; k < K; k++, ops /= 10) {
        int c = ops % 10, w = width[c];
        vt_bytes(in[k].c, 8);
        if (c == 5) VT_ASSUME(in[k].f == in[k].f);
        if (c == 6) VT_ASSUME(in[k].d == in[k].d);
        wr(s, c, k);
        for (i = 0; i < w; i++)
            VT_CHECK(*(char *)zt_array_get(s->data, at + i) == in[k].c[FLIP ? w - 1 - i : i], "stored bytes in the stream's order");
        at += w;
        VT_CHECK(s->offt == at && zt_array_length(s->data) >= at && !zt_bstream_is_empty(s), "offset after writing");
    }
    end = at;
    VT_CHECK(zt_bstream_rewind(s) == end && s->offt == 0, "rewind");
    readall(s);
    t = zt_bstream_clone(s);
    VT_CHECK(t->offt == s->offt && t->flipendian == s->flipendian, "the clone stands where the stream stands");
    /* overwrite the first item of the original: the clone keeps it */
    { zt_bstream_rewind(s);
      uint8_t o[8], v[8];
      int w = width[OPS % 10];
      memcpy(o, in[0].c, 8); vt_bytes(v, 8);
      zt_bstream_write(s, (char *)v, w, 1, 0);
      VT_CHECK(s->offt == (size_t)w, "overwriting in place");
      zt_bstream_rewind(t);
      readall(t);
      for (i = 0; i < w; i++) in[0].c[i] = v[i];
      zt_bstream_rewind(s);
      readall(s); }
    size_t len = zt_array_length(s->data);
    VT_CHECK(zt_bstream_truncate(s) == len && zt_bstream_is_empty(s), "truncate");
    zt_bstream_free(&s);
    zt_bstream_free(&t);
    VT_CHECK(s == NULL && t == NULL, "handles cleared");
    VT_NOLEAK();
    VT_REACH();
}
/* a stream over given data or a given array, at any offset; writing after a truncate */
void h_data(void) {
    zt_bstream_t s = zt_bstream_new();
    char *d = vt_alloc(4), o[4], q[4];
    int i, n = vt_range(0, 3);
    vt_bytes(d, 4);
    memcpy(o, d, 4);
    s->flipendian = FLIP;
    if (K & 1) {
        zt_bstream_set_data(s, d, 4, 0);
        VT_CHECK(zt_array_data(s->data) == d, "own data");
    } else {
        zt_bstream_set_data(s, d, 4, 1);
        VT_CHECK(zt_array_data(s->data) != d, "copied data");
        memset(d, 0, 4);
        free(d);
    }
    VT_CHECK(!zt_bstream_is_empty(s) && zt_array_length(s->data) == 4, "not empty");
    zt_bstream_read(s, q, 4, 1, 0);
    for (i = 0; i < 4; i++) VT_CHECK(q[i] == o[FLIP ? 3 - i : i], "data read");
    zt_array_t a = zt_array_with(o, 4, 1, 1);
    zt_bstream_set_array(s, a, n);
    VT_CHECK(s->data == a && s->offt == (size_t)n, "stream over an array");
    for (i = n; i < 4; i++) { zt_bstream_read_byte(s, q); VT_CHECK(q[0] == o[i], "array read from the offset"); }
    zt_bstream_truncate(s);
    for (i = 0; i < 3; i++) o[i] = vt_char();
    zt_bstream_write_byte(s, o[0]);
    VT_CHECK(s->offt == 5 && *(char *)zt_array_get(s->data, 4) == o[0], "write after a truncate, at the offset");
    zt_bstream_truncate(s);
    zt_bstream_rewind(s);
    zt_bstream_write_byte(s, o[1]); zt_bstream_write_byte(s, o[2]);
    zt_bstream_rewind(s);
    zt_bstream_read_byte(s, q); zt_bstream_read_byte(s, q + 1);
    VT_CHECK(q[0] == o[1] && q[1] == o[2], "reuse after truncate and rewind");
    zt_bstream_free(&s);
    VT_NOLEAK();
    VT_REACH();
}
