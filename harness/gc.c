#include "vt.h"
/* types by which the solver keeps the collector's blocks apart field by field (another layout is decided
 * too, only slower) */
struct gc_link { struct gc_link *prev, *next; };
struct gc_fields { int a, b, c, d; int (*e)(void *); void (*f)(void *); void (*g)(void *); struct gc_link h, i, j, *k, *l, *m, *n; void *o; void (*p)(void *), (*q)(void *); };
#define VT_CALLOC_AS struct gc_fields
#include "libc.h"
#define ZT_WITH_GC
#include <zt.h>
/* a history ends where it goes wrong */
#define G_CHECK(c, m) do { bool ok_ = (c); VT_CHECK(ok_, m); VT_ASSUME(ok_); } while (0)
/* SCRIPT: triples (operation, object 0..N-1, link: * any, - none, or the object)
 * R register (a new object, still held by the mutator)  P protect  U unprotect  F full collection
 * S collection step (one object)  L link object -> anything reachable, announced with zt_gc_mark
 * C cut the link of object  X unregister  D disable  E enable */
#ifndef N
#define N 3
#endif
#ifndef MARKS
#define MARKS 1
#endif
#ifndef ALLOCS
#define ALLOCS 100
#endif
#ifndef CASES
#define CASES 64
#endif
#ifndef SCRIPT
#define SCRIPT "R0*R1*R2*P0*F0-F0-"
#endif
typedef struct { zt_gc_collectable_t mark; unsigned char id; } obj_t;
static obj_t *o[N];
static unsigned char link_[N];              /* N: none */
static bool prot[N];
static int held = -1;                       /* object the mutator is just registering */
static int disabled;
static bool destroying;
static zt_gc_t *gc;
static unsigned char colour0;
static bool reached;
static unsigned char gone_, own_, live_;    /* bit per object: released; the collector's; reachable */
static unsigned char reachable(void) {
    unsigned char r = 0;
    int i, k;
    for (i = 0; i < N; i++) if (prot[i] && !(gone_ >> i & 1)) r |= 1u << i;
    if (held >= 0) r |= 1u << held;
    for (k = 0; k + 1 < N; k++) for (i = 0; i < N; i++) if ((r >> i & 1) && link_[i] < N) r |= 1u << link_[i];
    return r;
}
static void mark_cb(zt_gc_t *g, void *d, void *v) {
    unsigned i = ((obj_t *)v)->id;
    G_CHECK(g == gc && d == &disabled, "callback arguments");
    G_CHECK(i < N && v == o[i] && !(gone_ >> i & 1) && (own_ >> i & 1), "only live objects are marked");
    if (link_[i] < N) zt_gc_mark(g, o[link_[i]]);
}
static void release_cb(zt_gc_t *g, void *d, void **v) {
    unsigned i = ((obj_t *)*v)->id;
    G_CHECK(g == gc && d == &disabled, "callback arguments");
    G_CHECK(i < N && *v == o[i] && !(gone_ >> i & 1) && (own_ >> i & 1), "released once, and only while it is the collector's");
    G_CHECK(destroying || !(live_ >> i & 1), "nothing reachable is released");
    G_CHECK(destroying || disabled == 0, "no collection while disabled");
    gone_ |= 1u << i;
    /* the storage is given back at the end of the history; until then the collector must not touch it */
    ((obj_t *)*v)->mark.list.next = ((obj_t *)*v)->mark.list.prev = &((obj_t *)*v)->mark.list;
    *v = NULL;
}
#define GONE(i) (gone_ >> (i) & 1)
#define OWN(i) (own_ >> (i) & 1)
/* one history; links and link targets are the digits of c in base N + 1 */
static void history(unsigned c) {
    static const char script[] = SCRIPT;
    unsigned k;
    int i;
    held = -1; disabled = 0; destroying = false; gone_ = own_ = live_ = 0;
    gc = zt_gc_init(&disabled, mark_cb, release_cb, MARKS, ALLOCS);
    G_CHECK(gc != NULL, "collector");
    for (i = 0; i < N; i++) {
        o[i] = malloc(sizeof(obj_t));
        VT_ASSUME(o[i] != NULL);
        o[i]->id = i;
        o[i]->mark.colour = colour0;
        prot[i] = false;
        zt_gc_prepare(gc, o[i]);
        link_[i] = N;
    }
    for (k = 0; k + 1 < sizeof(script); k += 3) {
        unsigned a = script[k + 1] - '0', t = script[k + 2] == '*' ? c % (N + 1) : script[k + 2] == '-' ? N : script[k + 2] - '0';
        if (script[k + 2] == '*') c /= N + 1;
        if (script[k] != 'R' && script[k] != 'P' && script[k] != 'L') held = -1;
        live_ = reachable();
        switch (script[k]) {
        case 'R':       /* it may point to whatever the mutator can get at */
            if (OWN(a)) break;
            own_ |= 1u << a; held = a;
            link_[a] = t;
            if (link_[a] < N && !(((live_ | 1u << a) >> link_[a]) & 1)) goto out;      /* it can only point to what the mutator can get at */
            live_ = reachable();
            zt_gc_register(gc, o[a]);
            G_CHECK(!GONE(a), "an object survives its own registration");
            break;
        case 'P':       /* an unregistered object may be protected, too: a root */
            if (GONE(a)) break;
            if (!OWN(a)) { if (t < N && !(((live_ | 1u << a) >> t) & 1)) goto out; link_[a] = t; }
            prot[a] = true; own_ |= 1u << a; live_ = reachable(); zt_gc_protect(gc, o[a]); break;
        case 'U': if (GONE(a) || !prot[a]) break; prot[a] = false; live_ = reachable(); zt_gc_unprotect(gc, o[a]); break;
        case 'F': zt_gc_collect(gc, 1); break;
        case 'S': zt_gc_collect(gc, 0); break;
        case 'L':
            if (!(live_ >> a & 1)) { if (t < N) goto out; break; }
            if (t >= N || !(live_ >> t & 1)) goto out;
            link_[a] = t; 
            zt_gc_mark(gc, o[t]);
            break;
        case 'C': link_[a] = N; break;
        case 'X':
            if (GONE(a) || !OWN(a)) break;
            for (i = 0; i < N; i++) if (link_[i] == (int)a) link_[i] = N;
            gone_ |= 1u << a; prot[a] = false;
            live_ = reachable();
            zt_gc_unregister(gc, o[a]);
            o[a]->mark.list.next = o[a]->mark.list.prev = &o[a]->mark.list;
            break;
        case 'D': disabled++; zt_gc_disable(gc); break;
        case 'E': if (disabled) { disabled--; zt_gc_enable(gc); } break;
        }
    }
    held = -1;
    while (disabled) { disabled--; live_ = reachable(); zt_gc_enable(gc); }
    live_ = reachable();
#ifdef SWEEP
    zt_gc_collect(gc, 1); zt_gc_collect(gc, 1); zt_gc_collect(gc, 1);
    G_CHECK((own_ & ~gone_) == live_, "exactly the unreachable objects are released");
#endif
    destroying = true;
    zt_gc_destroy(gc);
    G_CHECK(own_ == (own_ & gone_), "the collector releases all its objects at the end");
    for (i = 0; i < N; i++) if (GONE(i)) G_CHECK(o[i]->mark.list.next == &o[i]->mark.list && o[i]->mark.list.prev == &o[i]->mark.list, "released objects are not touched");
    reached = true;
out:
    for (i = 0; i < N; i++) free(o[i]);
    free(gc);
}
/* every object graph: the solver picks one, the symbolic execution follows each separately so that the
 * collector's lists stay concrete in each */
void h_gc(void) {
    unsigned choice = vt_u32(), c;
    VT_ASSUME(choice < CASES);
    colour0 = vt_u8();        /* whatever was in the storage before zt_gc_prepare */
    for (c = 0; c < CASES; c++) if (choice == c) history(c);
    VT_ASSUME(reached);
    VT_REACH();
}
