/* the hash table as its contract (decided by T01/T02): a map whose key equality is the callback given
 * at creation, iterated in an arbitrary order */
#ifndef VT_TABLEMODEL_H
#define VT_TABLEMODEL_H
#include <errno.h>
#include <zt.h>
#ifndef TM_MAX
#define TM_MAX NU
#endif
struct zt_table {
    zt_table_compare_cb cmp;
    void *cdata;
    int n, flags;
    struct { void *key; size_t klen; void *datum; size_t dlen; bool live; } e[TM_MAX];
};
static int vt_tables_live;
zt_table *zt_table_init(char *name, zt_table_hash_func_cb func, zt_table_compare_cb cmp, size_t hint, int flags, void *cdata) {
    int i;
    zt_table *t;
    (void)name; (void)hint;
    if (!func || !cmp) return NULL;
    t = (zt_table *)malloc(sizeof(struct zt_table));
    VT_ASSUME(t != NULL);
    t->cmp = cmp; t->cdata = cdata; t->n = 0; t->flags = flags;
    for (i = 0; i < TM_MAX; i++) t->e[i].live = false;
    vt_tables_live++;
    return t;
}
void zt_table_destroy(zt_table *t) { vt_tables_live--; free(t); }
static int tm_find(zt_table *t, const void *key, size_t klen) {
    int i;
    for (i = 0; i < TM_MAX; i++)
        if (t->e[i].live && t->cmp(t->e[i].key, t->e[i].klen, key, klen, t->cdata)) return i;
    return -1;
}
int zt_table_set(zt_table *t, const void *key, size_t klen, const void *datum, size_t dlen) {
    int i;
    if (tm_find(t, key, klen) >= 0) return 1;
    for (i = 0; i < TM_MAX; i++)
        if (!t->e[i].live) {
            t->e[i].key = (void *)key; t->e[i].klen = klen; t->e[i].datum = (void *)datum; t->e[i].dlen = dlen; t->e[i].live = true;
            t->n++;
            return 0;
        }
    VT_CHECK(0, "table model is large enough");
    return -1;
}
void *zt_table_get(zt_table *t, const void *key, size_t klen) {
    int i = tm_find(t, key, klen);
    if (i < 0) { errno = ENOENT; return NULL; }
    return t->e[i].datum;
}
void *zt_table_del(zt_table *t, const void *key, size_t klen) {
    int i = tm_find(t, key, klen);
    if (i < 0) { errno = ENOENT; return NULL; }
    t->e[i].live = false;
    t->n--;
    return t->e[i].datum;
}
int zt_table_for_each(zt_table *t, zt_table_iterator_cb it, void *param) {
    int i, r;
    bool back = vt_bool();
    for (i = 0; i < TM_MAX; i++) {
        int k = back ? TM_MAX - 1 - i : i;
        if (t->e[k].live && (r = it(t->e[k].key, t->e[k].klen, t->e[k].datum, t->e[k].dlen, param)) != 0) return r;
    }
    return 0;
}
unsigned long zt_table_hash_int(const void *key, size_t len, void *cdata) { (void)key; (void)len; (void)cdata; return 0; }
int zt_table_compare_int(const void *a, size_t al, const void *b, size_t bl, void *cdata) { (void)cdata; return al == bl && (((uint64_t)a ^ (uint64_t)b) & (al == 8 ? ~0ull : (1ull << (8 * (al & 7))) - 1)) == 0; }
#endif
