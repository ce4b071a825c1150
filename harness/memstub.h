/* zt_mem pools replaced by plain allocations (the pools themselves are decided by M01): every element
 * is its own object, so the solver sees any misuse of it; each element carries its own size class so
 * that a release can be charged to the pool it came from */
#ifndef VT_MEMSTUB_H
#define VT_MEMSTUB_H
#include <zt.h>
struct zt_mem_pool { size_t size; };
static long vt_pool_live;        /* elements out, all pools */
zt_mem_pool *zt_mem_pool_init(char *name, ssize_t elts, size_t size, zt_page_release_test t, void *cb, int flags) {
    zt_mem_pool *p = (zt_mem_pool *)malloc(sizeof(struct zt_mem_pool));
    VT_ASSUME(p != NULL);
    (void)name; (void)elts; (void)t; (void)cb; (void)flags;
    p->size = size;
    return p;
}
zt_mem_pool *zt_mem_pool_get(char *name) { (void)name; return NULL; }   /* none yet: the code creates it */
void *zt_mem_pool_alloc(zt_mem_pool *p) {
    void *e = malloc(p->size);        /* the size constant carries the element type to the solver */
    VT_ASSUME(e != NULL);
    vt_pool_live++;
    return e;
}
void zt_mem_pool_release(void **data) {
    vt_pool_live--;
    free(*data);
}
int zt_mem_pool_destroy(zt_mem_pool **p) {
    free(*p);
    *p = NULL;
    return 0;
}
struct zt_mem_heap { void **data; };
zt_mem_heap *zt_mem_heap_init(char *name, size_t size) {
    zt_mem_heap *h = (zt_mem_heap *)malloc(sizeof(struct zt_mem_heap));
    VT_ASSUME(h != NULL);
    (void)name;
    h->data = (void **)malloc(sizeof(void *) * (size / sizeof(void *)));
    VT_ASSUME(h->data != NULL);
    return h;
}
void *zt_mem_heap_get_data(zt_mem_heap *h) { return h->data; }
void zt_mem_heap_destroy(zt_mem_heap **h) { free((*h)->data); free(*h); *h = NULL; }
#endif
