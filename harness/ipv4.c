/* IPv4 network text (N01) and table (N02) */
#define VT_KNOWN_STRLEN
#include "vt.h"
#include "libc.h"
#include <zt.h>
#include <arpa/inet.h>
#ifndef FORM
#define FORM "dd.d.d.d/dd"
#endif
#ifndef SZ
#define SZ 4
#endif
#ifndef NN
#define NN 2
#endif
#ifndef LENS
#define LENS {8, 16, 24, 32}
#endif
/* strict dotted quad: the resolver's verdict on an address text (the short and hexadecimal forms that
 * inet_aton() also knows are refused here, on both sides) */
static int quad(const char *s, uint32_t *out) {
    uint32_t v = 0;
    int part;
    for (part = 0; part < 4; part++) {
        int n = 0;
        uint32_t b = 0;
        while (n < 3 && s[n] >= '0' && s[n] <= '9') { b = b * 10 + (uint32_t)(s[n] - '0'); n++; }
        if (n == 0 || b > 255) return 0;
        v = v << 8 | b;
        s += n;
        if (part < 3 && *s++ != '.') return 0;
    }
    if (*s != 0) return 0;
    *out = v;
    return 1;
}
VT_STUB(int, inet_aton, (const char *s, struct in_addr *in)) {
    uint32_t v;
    if (!quad(s, &v)) return 0;
    in->s_addr = htonl(v);
    return 1;
}
VT_STUB(in_addr_t, inet_addr, (const char *s)) {
    uint32_t v;
    return quad(s, &v) ? htonl(v) : INADDR_NONE;
}
VT_STUB(int, inet_pton, (int af, const char *s, void *dst)) {
    uint32_t v;
    if (af != AF_INET) return -1;
    if (!quad(s, &v)) return 0;
    v = htonl(v);
    memcpy(dst, &v, 4);
    return 1;
}
/* pools by name, as M01 decides them; every element its own object */
struct zt_mem_pool { const char *name; size_t size; };
struct zt_mem_pool_group { int n; zt_mem_pool *p; };
static zt_mem_pool pool_tab[12];
static int npool;
static long live;
zt_mem_pool_group *zt_mem_pool_group_init(zt_mem_pool_desc *d, size_t n) {
    zt_mem_pool_group *g = vt_alloc(sizeof *g);
    size_t i;
    g->n = (int)n;
    g->p = &pool_tab[npool];
    for (i = 0; i < n; i++) { pool_tab[npool].name = d[i].name; pool_tab[npool].size = d[i].size; npool++; }
    return g;
}
zt_mem_pool *zt_mem_pool_get(char *name) {
    int i;
    for (i = 0; i < npool; i++) if (strcmp(pool_tab[i].name, name) == 0) return &pool_tab[i];
    return NULL;
}
void *zt_mem_pool_alloc(zt_mem_pool *p) {
    live++;
    return vt_alloc(p->size);
}
void *zt_mem_pool_group_alloc(zt_mem_pool_group *g, size_t size) {
    int i;
    for (i = 0; i < g->n; i++) if (size <= g->p[i].size) return zt_mem_pool_alloc(&g->p[i]);
    VT_CHECK(0, "request fits a pool of the group");
    return NULL;
}
void zt_mem_pool_release(void **data) { free(*data); *data = NULL; live--; }
int zt_mem_pool_group_destroy(zt_mem_pool_group *g) { free(g); return 0; }

static char *text(void) {
    const char *f = FORM;
    int n = sizeof(FORM) - 1, i;
    char *s = vt_alloc(n + 1);
    for (i = 0; i < n; i++) {
        if (f[i] == 'd') s[i] = (char)('0' + vt_range(0, 9));
        else if (f[i] == '*') { s[i] = vt_char(); VT_ASSUME(s[i] != 0); }
        else s[i] = f[i];
    }
    s[n] = 0;
    vt_known(s, n);
    return s;
}
void h_parse(void) {
    char *s = text(), head[sizeof(FORM)];
    int n = sizeof(FORM) - 1, i, slash = n, bits = 32, verdict = 1;      /* 1 accept, 0 refuse, 2 not specified */
    uint32_t v = 0, out = 0xdeadbeef, mask;
    int len = -7;
    for (i = n - 1; i >= 0; i--) if (s[i] == '/') slash = i;
    for (i = 0; i <= n; i++) head[i] = i < slash ? s[i] : 0;
    if (!quad(head, &v)) verdict = 0;
    if (slash < n && verdict) {
        char c = s[slash + 1];
        if (c >= '0' && c <= '9') {
            long long d = 0;
            for (i = slash + 1; i < n && s[i] >= '0' && s[i] <= '9'; i++) d = d * 10 + (s[i] - '0');
            bits = d > 32 ? 32 : (int)d;
            if (i < n) verdict = 2;                       /* text behind the number */
        } else if (c == '-' && s[slash + 2] >= '1' && s[slash + 2] <= '9') verdict = 0;
        else if (c == ' ' || (c >= '\t' && c <= '\r') || c == '+' || c == '-') verdict = 2;
        else verdict = 0;
    }
    mask = bits ? 0xffffffffu << (32 - bits) : 0;
    int r = zt_ipv4_str2net(s, &out, &len);
    VT_CHECK(r == 0 || r == -1, "status");
    if (verdict == 0) VT_CHECK(r == -1, "bad network text is refused");
    if (verdict == 1) {
        VT_CHECK(r == 0, "good network text is accepted");
        VT_CHECK(out == v && len == bits, "address and prefix length as written");
    }
    VT_CHECK(r != 0 || (len >= 0 && len <= 32), "prefix length within the mask table");
#ifndef REC
    if (verdict != 0 || slash == n) {
        VT_CHECK(verdict != 1 || slash < n || zt_ipv4_ip2int(s) == v, "ip2int");
        VT_CHECK(verdict != 0 || zt_ipv4_ip2int(s) == 0xffffffffu, "ip2int of no address");
    }
    VT_CHECK(zt_ipv4_str2net(NULL, &out, &len) == -1 && zt_ipv4_str2net(s, NULL, &len) == -1 && zt_ipv4_str2net(s, &out, NULL) == -1, "NULL refused");
#else
    /* the address record */
    zt_ipv4_tbl *t = zt_ipv4_tbl_init(SZ);
    VT_CHECK(t != NULL, "table");
    long before = live;
    zt_ipv4_addr *a = zt_ipv4_addr_frm_str(s);
    if (verdict == 0) VT_CHECK(a == NULL, "no record for bad text");
    if (verdict == 1) {
        VT_CHECK(a != NULL, "record for good text");
        VT_CHECK(a->addr == (v & mask) && a->mask == mask && a->bitlen == bits && a->broadcast == (v | ~mask), "network, mask, length, broadcast");
    }
    zt_ipv4_node *nd = zt_ipv4_node_str_init(s);
    VT_CHECK((nd == NULL) == (a == NULL), "node exactly when record");
    if (nd) {
        VT_CHECK(nd->next == NULL && nd->addr != a && nd->addr->addr == a->addr && nd->addr->bitlen == a->bitlen && nd->addr->broadcast == a->broadcast, "node record");
        zt_mem_pool_release((void **)&nd->addr);
        zt_mem_pool_release((void **)&nd);
    }
    if (a) zt_mem_pool_release((void **)&a);
    VT_CHECK(live == before, "no pool element lost");
    VT_CHECK(zt_ipv4_addr_frm_str(NULL) == NULL && zt_ipv4_node_str_init(NULL) == NULL, "NULL refused");
    zt_ipv4_tbl_destroy(t);
#endif
    free(s);
    VT_REACH();
}
static zt_ipv4_node *mknode(uint32_t addr, int bits) {
    zt_ipv4_node *n = zt_mem_pool_alloc(zt_mem_pool_get("zt_ipv4_node"));
    zt_ipv4_addr *a = zt_mem_pool_alloc(zt_mem_pool_get("zt_ipv4_addr"));
    uint32_t mask = bits ? 0xffffffffu << (32 - bits) : 0;
    a->bitlen = (uint8_t)bits;
    a->mask = mask;
    a->addr = addr & mask;
    a->broadcast = a->addr | ~mask;
    n->addr = a;
    n->next = NULL;
    return n;
}
/* networks of given lengths at arbitrary addresses, an arbitrary query */
#ifdef FIXED     /* disjoint networks 0..01/len */
static uint32_t arr_addr(int i, const int *lens) { (void)i; return lens[i] ? 1u << (32 - lens[i]) : 0; }
#else
static uint32_t arr_addr(int i, const int *lens) { (void)lens; (void)i; return vt_u32(); }
#endif
void h_search(void) {
    static const int lens[] = LENS;
    zt_ipv4_node *nd[NN];
    int i, k;
#ifdef OTHER
    zt_ipv4_tbl *o = zt_ipv4_tbl_init(OTHER);          /* another table, of another size, exists */
    VT_CHECK(o != NULL, "first table");
#endif
    zt_ipv4_tbl *t = zt_ipv4_tbl_init(SZ);
    VT_CHECK(t != NULL && t->any == NULL, "table");
    for (i = 0; i < NN; i++) {
        nd[i] = mknode(arr_addr(i, lens), lens[i]);
        VT_CHECK(zt_ipv4_tbl_add_node(t, nd[i]) == 0, "added");
    }
    VT_CHECK(zt_ipv4_tbl_add_node(t, NULL) == -1 && zt_ipv4_tbl_add_node(NULL, nd[0]) == -1, "NULL refused");
#ifdef QBITS
    int qb = QBITS;
#else
    int qb = vt_range(0, 32);
#endif
    uint32_t qm = qb ? 0xffffffffu << (32 - qb) : 0;
    struct zt_ipv4_addr qa;
    struct zt_ipv4_node q;
    uint32_t v = vt_u32();
    qa.bitlen = (uint8_t)qb; qa.mask = qm; qa.addr = v & qm; qa.broadcast = v | ~qm;
    q.addr = &qa; q.next = NULL;
    bool any = false, is = false, in_any = false;
    zt_ipv4_node *r = zt_ipv4_tbl_search_node(t, &q);
    for (k = 0; k < NN; k++) {
        bool c = lens[k] == 0 || (lens[k] <= qb && (qa.addr & nd[k]->addr->mask) == nd[k]->addr->addr);
        any |= c;
        is |= r == nd[k];
        in_any |= c && r == nd[k];
        VT_CHECK((ipv4_tbl_addr_cmp(nd[k]->addr, &qa) != 0) == c, "containment");
        VT_CHECK(nd[k]->addr->bitlen == lens[k], "stored record untouched");
    }
    VT_CHECK(!any || r != NULL, "a containing network is found");
    VT_CHECK(any || r == NULL, "nothing is found when no network contains the query");
    VT_CHECK(r == NULL || is, "the answer is a stored network");
    VT_CHECK(r == NULL || in_any, "the answer contains the query");
    VT_CHECK(zt_ipv4_tbl_search_node(t, &q) == r, "looking up changes nothing");
#ifdef OTHER
    VT_CHECK(zt_ipv4_tbl_search_node(o, &q) == NULL, "the other table is still empty");
    zt_ipv4_node *n2 = mknode(v, 32);
    VT_CHECK(zt_ipv4_tbl_add_node(o, n2) == 0 && zt_ipv4_tbl_search_node(t, &q) == r, "tables are independent");
#endif
    VT_REACH();
}
/* through the text interface */
void h_text(void) {
    char *s = text();
    zt_ipv4_tbl *t = zt_ipv4_tbl_init(SZ);
    uint32_t v = 0, w = 0;
    int len = 0, wl = 0;
    char q[] = "10.20.30.40/31";
    zt_ipv4_node *n = zt_ipv4_tbl_add_frm_str(t, s), *m;
    int ok = zt_ipv4_str2net(s, &v, &len) == 0;
    VT_CHECK((n != NULL) == (ok != 0), "added exactly when the text is a network");
    VT_CHECK(zt_ipv4_str2net(q, &w, &wl) == 0 && w == 0x0a141e28 && wl == 31, "query text");
    long before = live;
    m = zt_ipv4_tbl_search_from_str(t, q);
    VT_CHECK(live == before, "a lookup gives back what it takes");
    uint32_t mask = len ? 0xffffffffu << (32 - len) : 0;
    VT_CHECK(m == (ok && len <= 31 && ((w ^ v) & mask) == 0 ? n : NULL), "lookup by text");
    VT_CHECK(zt_ipv4_tbl_search_from_str(t, "x/8") == NULL && live == before, "bad query answers nothing");
    VT_CHECK(zt_ipv4_tbl_search_from_str(t, NULL) == NULL && zt_ipv4_tbl_search_from_str(NULL, q) == NULL, "NULL");
    if (n && len == 0) VT_CHECK(t->any == n && zt_ipv4_tbl_add_frm_str(t, q) == n, "the /0 network stands for all");
    else {
        zt_ipv4_node *n3 = zt_ipv4_tbl_add_frm_str(t, q);
        VT_CHECK(n3 != NULL && n3 != n, "further network");
        m = zt_ipv4_tbl_search_from_str(t, "10.20.30.41");
        VT_CHECK(m == n3 || (m == n && n != NULL && ((w ^ v) & mask & 0xfffffffe) == 0), "found among two");
        VT_CHECK(m != NULL && m->addr->bitlen == (m == n3 ? 31 : len), "found record");
    }
    VT_CHECK(zt_ipv4_tbl_add_frm_str(t, NULL) == NULL && zt_ipv4_tbl_add_frm_str(NULL, q) == NULL, "NULL");
    VT_REACH();
}
