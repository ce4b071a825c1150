import itertools
from vt import H, grid, PATHMAX

def ulen(p):
    """loops run over at most the characters of the strings involved"""
    return max(p["N"] * max(1, p.get("REP", 1)) + p.get("M", 0), p.get("CAP", 0), 2 * p["N"]) + 4
# ---------------------------------------------------------------- base N
for d in range(6):
    q = {0: 7, 1: 7, 2: 4, 3: 6, 4: 6, 5: 4}[d]
    H("B01", "base.c", "h_encode", grid(DEF=d, N=range(0, q + 1)), grid(DEF=d, N=range(0, 17)), solver="kissat", unwind=40,
      what="encoder output, lengths, refusal for every N-byte input of every alphabet")
    U = [0, 1] if d in (0, 2, 3, 4) else [0]
    H("B02", "base.c", "h_roundtrip", grid(DEF=d, N=range(1, q + 1), UNPAD=U), grid(DEF=d, N=range(1, 14), UNPAD=U), solver="kissat", unwind=40,
      what="decode(encode(x)) == x, padding optional")
    H("B02", "base.c", "h_roundtrip", grid(DEF=d, N=[2, 3], SPLICE=[0, 2, 9]), grid(DEF=d, N=range(1, 8), SPLICE=range(0, 14)), solver="kissat", unwind=40,
      what="white space anywhere in the text is ignored")
    H("B02", "base.c", "h_decode_alloc", grid(DEF=d, N=[1, 3], UNPAD=U), grid(DEF=d, N=range(1, 7), UNPAD=U), solver="kissat", unwind=40,
      what="decode into a buffer the library allocates")
    H("B02", "base.c", "h_decode_any", grid(DEF=d, N=range(1, {5: 5}.get(d, 6))), grid(DEF=d, N=range(1, 11)), solver="kissat", unwind=40,
      what="arbitrary text decoded, accepted, rejected as the RFC says, in bounds")

# ---------------------------------------------------------------- C strings
H("C02", "cstr.c", "h_sub", grid(N=range(0, 5)), grid(N=range(0, 7)), unwind=ulen, what="sub, reverse, len, pos for every index pair and content")
H("C02", "cstr.c", "h_dup", grid(N=[0, 1, 2, 3], REP=[0, 1, 3]), grid(N=range(0, 6), REP=range(0, 5)), unwind=ulen, what="dup repeats the slice, every index pair")
H("C02", "cstr.c", "h_cat", grid(N=[0, 1, 2], M=[0, 1, 2]), grid(N=range(0, 5), M=range(0, 4)), unwind=ulen, what="cat and catv of every slice pair")
H("C02", "cstr.c", "h_map", grid(N=[0, 1, 2, 3], M=[0, 1, 2]), grid(N=range(0, 6), M=range(0, 5)), unwind=260, what="map through arbitrary character sets")
H("C02", "cstr.c", "h_copy", grid(N=[1, 2]), grid(N=range(1, 6)), unwind=ulen, what="copy into every buffer size")
H("C03", "cstr.c", "h_find", grid(N=range(0, 5), M=range(0, 4)), grid(N=range(0, 7), M=range(0, 5)), solver="kissat", unwind=ulen, what="find and rfind over every slice")
H("C03", "cstr.c", "h_any", grid(N=range(0, 4), M=range(0, 3)), grid(N=range(0, 6), M=range(0, 4)), solver="kissat", unwind=ulen, what="character searches over every slice")
H("C03", "cstr.c", "h_cmp", grid(N=range(0, 3), M=range(0, 3)) + grid(N=[3], M=[1]), grid(N=range(0, 6), M=range(0, 5)), solver="kissat", unwind=ulen, what="three-way comparison of every slice pair")
H("C04", "cstr.c", "h_chomp", defs=["VT_NO_KNOWN"], quick=grid(N=range(0, 8)), thorough=grid(N=range(0, 24)), unwind=ulen, what="chomp removes one trailing newline")
H("C04", "cstr.c", "h_strip", defs=["VT_NO_KNOWN"], quick=grid(N=range(0, 6)), thorough=grid(N=range(0, 10)), unwind=ulen, what="strip of every string")
H("C04", "cstr.c", "h_rspn", grid(N=range(0, 6), M=range(0, 3)), grid(N=range(0, 9), M=range(0, 5)), unwind=ulen, what="rspn and rcspn")
H("C05", "cstr.c", "h_split", grid(N=range(0, 5), M=[1, 2]), grid(N=range(0, 9), M=[0, 1, 2, 3]), unwind=lambda p: max(p['N'], p.get('M', 0)) + 4, what="split of every string by every delimiter set")
H("C05", "cstr.c", "h_cut", grid(N=range(0, 6)), grid(N=range(0, 9)), unwind=lambda p: max(p['N'], p.get('M', 0)) + 4, what="cut at every delimiter")
H("C05", "cstr.c", "h_tok", grid(N=range(0, 6)), grid(N=range(0, 9)), unwind=lambda p: max(p['N'], p.get('M', 0)) + 4, what="tok at every delimiter")
H("C06", "cstr.c", "h_basename", grid(N=[0, 1, 2, 3, 5], M=[0, 1, 2], CAP=[1, 3, 8]), grid(N=range(0, 9), M=range(0, 4), CAP=[1, 2, 3, 5, 12]), unwind=ulen, what="basename of every path, suffix, buffer")
H("C06", "cstr.c", "h_dirname", grid(N=range(0, 6), CAP=[1, 3, 8]), grid(N=range(0, 10), CAP=[1, 2, 3, 5, 12]), unwind=ulen, what="dirname of every path and buffer")
H("C06", "cstr.c", "h_append", grid(N=range(1, 5), M=range(0, 4)), grid(N=range(1, 8), M=range(0, 6)), unwind=ulen, what="path_append of every two paths")
H("C01", "cstr.c", "h_tohex", grid(N=range(0, 5)), grid(N=range(0, 12)), unwind=26, what="binary to hex, every buffer length")
H("C01", "cstr.c", "h_fromhex", grid(N=range(0, 7)), grid(N=range(0, 13)), unwind=16, what="hex to binary, arbitrary text, every buffer length")
H("C07", "cstr.c", "h_itoa", grid(D=range(1, 6), N=[9]) + grid(D=[1, 2], N=[0]) + grid(D=range(6, 11), N=[9], EDGE=[70]), grid(D=range(1, 11), N=[0, 1, 9]), unwind=26, what="itoa and display length for every int")
H("C08", "cstr.c", "h_hexdump", grid(N=[0, 1, 5, 15, 16, 17, 31, 33]), grid(N=range(0, 50)), unwind=54, what="hex dump of every byte string")

# ---------------------------------------------------------------- hash tables and sets
def ops3(*seqs):
    """operation strings to base-3 numbers, least significant first: s set, g get, d del"""
    return [dict(K=len(q), OPS=sum("sgd".index(c) * 3 ** i for i, c in enumerate(q))) for q in seqs]
def x(ps, **kw):
    return [dict(p, **g) for p in ps for g in grid(**kw)]
T_ALL = ["".join(q) for k in (3, 4, 5) for q in itertools.product("sgd", repeat=k) if q[0] == "s"]
H("T01", "table.c", "h_map_ops", x(ops3("sssd", "ssds", "sdss", "ssdd"), HINT=2, FLAGS=[1, 3]) + x(ops3("ssssd"), HINT=3, FLAGS=[0]) + x(ops3("ssdsd"), HINT=3, FLAGS=[2]),
  x(ops3(*T_ALL), HINT=[1, 2], FLAGS=[1, 3]) + x(ops3("ssssdd", "sssdds", "ssdsds", "ssssss"), HINT=[0, 3, 4], FLAGS=[0, 1, 2, 3]), unwind=7, solver="default", what="set/get/del in any order of keys against a map, arbitrary hashes")
H("T01", "table.c", "h_copy", weight=3, quick=grid(NK=[2, 3], HINT=[2], FLAGS=[1]), thorough=grid(NK=[3, 4], HINT=[2, 4], FLAGS=[0, 1]), unwind=7, solver="default", what="copy is a union")
H("T02", "table.c", "h_hint", grid(HINT=[0, 1, 2, 3, 5, 7, 8, 12], FLAGS=[1, 3]) + grid(HINT=[0, 1, 2, 3, 15, 16, 31], FLAGS=[0]),
  grid(HINT=range(0, 33), FLAGS=[0, 1, 3]), unwind=40, solver="default", what="every size hint")
H("T02", "table.c", "h_keys", grid(N=range(0, 4), M=range(0, 4)), grid(N=range(0, 6), M=range(0, 6)), unwind=12, what="string and buffer key equality and hashing")
H("T02", "table.c", "h_intkeys", grid(W=[1, 2, 4, 8]), grid(W=range(1, 9)), unwind=12, what="integer key equality and hashing")
H("S01", "set.c", "h_seq", grid(NU=[2, 3], K=[4], LEN=[1]) + grid(NU=[2], K=[3], LEN=[8]), grid(NU=[2, 3, 4], K=[4, 5, 6], LEN=[1, 4, 8]), unwind=lambda p: p["K"] + 1,
  what="every sequence of insert/remove against a set of arbitrary members")
H("S01", "set.c", "h_algebra", grid(NU=[2, 3], OP=[0, 1, 2, 3], LEN=1), grid(NU=[2, 3, 4], OP=[0, 1, 2, 3], LEN=[1, 4, 8]), unwind=5,
  what="union, intersection, difference, subset, equality of every pair of sets")
def scripts(*q):
    """decimal operation strings, first operation first, to numbers read from the low end"""
    return [dict(K=len(x), OPS=int(x[::-1])) for x in q]
def dx(ps, **kw):
    return [dict(p, **g) for p in ps for g in grid(**kw)]
D_SEQ = ["".join(t) for n in (3, 4) for t in itertools.product("0123456789", repeat=n) if t[-1] != "0"]
H("D01", "buf.c", "h_queue", scripts("0202", "0420", "0621", "1311", "0251", "0787", "8281", "1970", "2458", "0961", "02620", "13131", "4040", "8470", "5078", "1300", "6130")
  + dx(scripts("10", "100", "1202", "0500", "13100", "70"), SM=1) + scripts(*D_SEQ[3::431]),
  scripts(*D_SEQ[::7]) + dx(scripts(*D_SEQ[5::37]), SM=1),
  unwind=12, maxunwind=1300, noleak=True, what="every byte value through scripts of operations, against a byte queue")
H("D02", "parray.c", "h_seq", scripts("0001", "0120", "0011", "0402", "0051") + dx(scripts("000", "401", "051", "040"), PRE=[30, 31, 32]) + dx(scripts("60", "26"), PRE=[2]),
  scripts(*["".join(t) for t in itertools.product("012345", repeat=4) if t[-1] != "0" and t[0] == "0"]) + dx(scripts("000", "401", "051", "0400", "6"), PRE=[29, 30, 31, 32, 63, 64], EXPAND=[1, 0]) + dx(scripts("601", "266"), PRE=[2, 3]),
  unwind=lambda p: p.get("PRE", 0) + 2 * p["K"] + 8, noleak=True, what="every sequence of operations and indexes against a list")
H("D02", "parray.c", "h_resize", unwind=6, noleak=True, what="every overflowing size, NULL arguments, default free")
H("H01", "hash.c", "h_fnv", grid(N=[0, 1, 2, 3, 5, 8], ZERO=[0, 1]) + grid(N=2, BIT=[31, 40]), grid(N=range(0, 17), ZERO=[0, 1]) + grid(N=3, BIT=range(64)), solver="z3", unwind=lambda p: p["N"] + 2, what="both widths, buffer and string form, every initial value, every split")
H("H01", "hash.c", "h_fold", unwind=2, what="hash folding macros")
H("A01", "array.c", "h_array", grid(LEN=[0, 1, 2, 3], SIZE=[1, 3], LEN2=[1, 2]) + grid(LEN=[2], SIZE=[8], LEN2=[3]), grid(LEN=range(0, 6), SIZE=[1, 2, 3, 4, 8], LEN2=[1, 2, 4]),
  unwind=lambda p: (p["LEN"] + p["LEN2"] + 2) * p["SIZE"] + 1, noleak=True, what="put, get, copy, resize of every element, index and size")
H("A01", "array.c", "h_with", grid(LEN=[1, 2, 3], SIZE=[1, 3]), grid(LEN=range(1, 6), SIZE=[1, 2, 4, 8]), unwind=lambda p: p["LEN"] * p["SIZE"] + 3, noleak=True, what="arrays over given data and strings")
B_SEQ = ["".join(t) for n in (1, 2, 3) for t in itertools.product("1234567", repeat=n)]
H("A02", "bstream.c", "h_rw", dx(scripts("1", "01", "2", "3", "4", "5", "6", "27", "172", "325", "614"), FLIP=[0, 1]), dx(scripts(*[q for q in B_SEQ]), FLIP=[0, 1], N=[2, 5]), noleak=True,
  unwind=70, what="every value of every width written and read back in both orders")
H("A02", "bstream.c", "h_data", grid(K=[0, 1], FLIP=[0, 1]), noleak=True, unwind=24, what="given data, offsets, truncation")
def rb_shapes(d):
    """bit masks of the shapes of depth <= d (positions of a complete binary tree) that have a red-black colouring"""
    def build(p, lev):
        yield 0
        if lev == 0:
            return
        kids = [list(build(2 * p, lev - 1)), list(build(2 * p + 1, lev - 1))]
        for a in kids[0]:
            for b in kids[1]:
                yield a | b | 1 << (p - 1)
    def cols(m, p):
        """(root colour red?, black height) pairs possible"""
        if not m >> (p - 1) & 1:
            return {(False, 0)}
        l, r = cols(m, 2 * p), cols(m, 2 * p + 1)
        out = set()
        for a in l:
            for b in r:
                if a[1] == b[1]:
                    out.add((False, a[1] + 1))
                    if not a[0] and not b[0]:
                        out.add((True, a[1]))
        return out
    return [m for m in build(1, d) if any(not c[0] for c in cols(m, 1))]
RB3, RB4 = rb_shapes(3), rb_shapes(4)
def rb_forced(d, m):
    """nodes black (red) in every valid colouring of shape m: constants the solver need not rediscover"""
    pos = [i for i in range(1, 2 ** d) if m >> (i - 1) & 1]
    allb = allr = (1 << 2 ** d) - 1
    for bits in itertools.product([0, 1], repeat=len(pos)):
        red = {p for p, b in zip(pos, bits) if b}
        if 1 in red or any(p in red and p // 2 in red for p in pos):
            continue
        h = set()
        for p in pos:
            if not (2 * p in pos and 2 * p + 1 in pos):
                c, q = 0, p
                while q:
                    c += q not in red
                    q //= 2
                h.add(c)
        if len(h) > 1:
            continue
        mask = sum(1 << (p - 1) for p in red)
        allb &= ~mask
        allr &= mask
    return dict(D=d, SHAPE=m, ALLB=allb & m, ALLR=allr & m)
def rb(d, shapes):
    return [dict(rb_forced(d, m), ATLO=i, ATHI=i) for m in shapes for i in range(1, 2 ** d) if m >> (i - 1) & 1]
RBU = dict(unwind=lambda p: p["D"] + 1, hunwind=lambda p: 2 ** p["D"] + 2)
H("R01", "tree.c", "h_insert", [rb_forced(3, m) for m in RB3], lambda: [rb_forced(3, m) for m in RB3] + [rb_forced(4, m) for m in RB4[::9]], what="insert into every valid tree", **RBU)
H("R01", "tree.c", "h_remove", rb(3, RB3), lambda: rb(3, RB3) + rb(4, RB4[5::9])[::5], what="remove any element from every valid tree", **RBU)
H("R01", "tree.c", "h_query", grid(D=3, SHAPE=RB3), grid(D=3, SHAPE=RB3) + grid(D=4, SHAPE=RB4), what="find, nfind, next, min, max on every valid tree", **RBU)
L_SEQ = ["".join(t) for n in (2, 3, 4) for t in itertools.product("01234678", repeat=n) if t[-1] != "0"]
H("L01", "list.c", "h_list", scripts("012", "1122", "43", "0142", "3142", "5596", "6556", "7798", "8778", "788", "566", "6", "8", "34", "04122", "57681") + scripts(*L_SEQ[9::307]),
  scripts(*L_SEQ[::9]), unwind=lambda p: 2 * p["K"] + 4, hunwind=14, what="scripts of list, stack and queue operations, any element removed")
H("L02", "list.c", "h_cons", grid(N=range(0, 5)), grid(N=range(0, 9)), unwind=lambda p: p["N"] + 2, hunwind=14, noleak=True, what="nth, reverse, pop, push, split")
H("L02", "list.c", "h_sort", grid(N=range(0, 5)) + grid(N=range(0, 4), DUP=[1]), grid(N=range(0, 6)) + grid(N=range(0, 6), DUP=[1]), unwind=lambda p: p["N"] + 2, hunwind=14, noleak=True, what="sort of arbitrary items")
H("L02", "list.c", "h_merge", grid(N=range(0, 3), M=range(0, 3)) + grid(N=[1, 2], M=[1, 2], DUP=[1]), grid(N=range(0, 4), M=range(0, 4)) + grid(N=range(0, 4), M=range(0, 4), DUP=[1]), unwind=lambda p: p["N"] + p["M"] + 2, hunwind=14, noleak=True, what="merge of sorted lists")
I_ADD = grid(T=[0, 1, 2, 3], U=[0, 1], OP=[0, 1])
I_SM = grid(T=[0, 1], U=[0, 1], OP=[2, 3])
H("I01", "int.c", "h_op", I_ADD, unwind=2, abort_ok=True, what="every pair of operands")
H("I01", "int.c", "h_op", I_SM + grid(T=2, U=1, OP=[2, 3]) + grid(T=2, U=0, OP=3), unwind=2, abort_ok=True, solver="z3", what="every pair of operands")
H("I01", "int.c", "h_op", grid(T=2, U=0, OP=2), unwind=2, abort_ok=True, solver="z3", opts=["--no-signed-overflow-check"], what="every pair of operands (overflow is what the assertion decides)")
H("W01", "atexit.c", "h_order", scripts("0", "01", "0101", "2", "02", "0213", "3031", "11"), scripts(*["".join(t) for k in (1, 2, 3, 4) for t in itertools.product("0123", repeat=k) if t[-1] != "0" or len(t) == 1]),
  unwind=9, hunwind=18, noleak=True, wraps=["atexit"], what="every mix of registrations, arguments arbitrary")
H("M02", "ezpool.c", "h_tree", [dict(NP=1, PAR=0, DEL=0)] + [dict(NP=3, PAR=a, DEL=d) for a in (0, 4) for d in (0, 1, 2)] + [dict(NP=4, PAR=a, DEL=d) for a, d in ((0, 2), (0, 1), (0, 3), (16, 1), (20, 1))],
  [dict(NP=4, PAR=a + 4 * b + 16 * c, DEL=d) for a in (0,) for b in (0, 1) for c in (0, 1, 2) for d in (0, 1, 2, 3)], unwind=8, hunwind=18, noleak=True, what="pool trees, any pool destroyed first")
M_U = dict(unwind=8, maxunwind=40, hunwind=130, noleak=True, wraps=["sysconf", "atexit"])
M_S = ["".join(t) for k in (3, 4, 5) for t in itertools.product("012345", repeat=k) if t[0] == "0"]
H("M01", "mem.c", "h_pool",
  dx(scripts("0001", "00102", "0412", "00052", "0213"), SIZE=[8], ELTS=[0], FLAGS=[0]) + dx(scripts("0000203", "0104"), SIZE=[8], ELTS=[7], FLAGS=[1]) + dx(scripts("00113", "001200"), SIZE=[5], ELTS=[1], FLAGS=[0], CB=[1, 5, 7])
  + dx(scripts("00102", "01540"), SIZE=[100], ELTS=[2], FLAGS=[0]) + dx(scripts("000", "0140"), SIZE=[48, 16], ELTS=[0], FLAGS=[1]) + dx(scripts("00013",), SIZE=[3], ELTS=[4], FLAGS=[0]),
  lambda: dx(scripts(*M_S[::37]), SIZE=[8, 5, 120], ELTS=[0], FLAGS=[0], CB=[0]) + dx(scripts(*M_S[5::97]), SIZE=[8], ELTS=[1], FLAGS=[1], CB=[1]) + dx(scripts(*M_S[7::97]), SIZE=[48], ELTS=[0, 4], FLAGS=[0, 1], CB=[0]),
  what="scripts of allocations, releases, page releases; contents and callback answers arbitrary", **M_U)
H("M01", "mem.c", "h_group", dx(scripts("0123", "20192", "9001", "1199", "2103"), GROUP=[1], ELTS=[0], FLAGS=[0, 1]) + dx(scripts("00190"), GROUP=[1], ELTS=[1], FLAGS=[0]),
  dx(scripts(*["".join(t) for t in itertools.product("01239", repeat=4)][::11]), GROUP=[1], ELTS=[0, 1], FLAGS=[0, 1]), what="smallest and largest request of every pool", **M_U)
H("M01", "mem.c", "h_heap", grid(SIZE=[8, 100], ELTS=[0, 3], FLAGS=[0]), grid(SIZE=[1, 5, 8, 17, 120], ELTS=[0, 3], FLAGS=[0, 1]), what="heaps, pools left at exit", unwind=8, maxunwind=40, hunwind=130, noleak=True, wraps=["sysconf", "atexit"])
def gcs(*ss, N=3, **kw): return [dict(SCRIPT='"%s"' % s, N=N, CASES=(N + 1) ** s.count("*"), **kw) for s in ss]
G_U = dict(unwind=7, maxunwind=14, hunwind=260)
G_Q = gcs("D0-P0-P1-R3-P23P41E0-F0-U1-S0-L01S0-S0-S0-F0-", N=5, SWEEP=1, ALLOCS=0) + gcs("R0-R1*P2-P3*F0-F0-F0-S0-P1-S0-F0-", N=4, SWEEP=1, ALLOCS=0) \
 + gcs("P0-R1*R2-F--L0*F0-F0-", "R0-R1*P0-F0-C0-F0-", SWEEP=1) + gcs("D0-P0-R1*R2-E0-X1-S0-F0-", "D0-P0-P1-R2*E0-X1-S0-F0-", "P0-R1-P2*U0-F0-U2-S0-F0-", "P0-P1-R2*F0-U0-S0-L1*S0-F0-", "D0-P0-P1-P2-E0-F0-U1-S0-L0*S0-S0-F0-", SWEEP=1, ALLOCS=0) \
 + gcs("P0-R1-L0*R2-L1*F0-", "D0-R0-R1-R2-E0-P0-R1-", ALLOCS=1) + gcs("R0-P0*D0-R1*F0-R2-E0-", MARKS=2, ALLOCS=2) \
 + gcs("D0-P0-P1-P2-L0*L1*L2*U1-U2-E0-F0-F0-", SWEEP=1) + gcs("D0-P1-P2-P0-L0*L1*U2-U1-E0-F0-S0-F0-", "D0-P2-P1-P0-L1*L2*L0*U2-U1-E0-S0-S0-S0-S0-S0-", SWEEP=1, ALLOCS=0)
def g_scripts():
    out = []
    for mid in itertools.product(("S0-", "P1-", "U0-", "L0*", "X1-", "C0-", "R2*", "F0-", "L1*"), repeat=4):
        s = "D0-P0-R1-L0*E0-" + "".join(mid) + "S0-F0-"
        if mid.count("S0-") >= 1 and s.count("*") <= 3 and len(set(mid)) >= 3:
            out.append(s)
    return gcs(*out[::13], SWEEP=1, ALLOCS=0) + gcs(*out[7::47], SWEEP=1, ALLOCS=1) + gcs(*out[3::47], ALLOCS=2, MARKS=2)
H("G01", "gc.c", "h_gc", G_Q, lambda: G_Q + g_scripts(), what="histories over every object graph", **G_U)

# ---------------------------------------------------------------- IPv4 networks
N_W = dict(wraps=["inet_aton", "inet_addr", "inet_pton"])
def forms(*ss, **kw): return [dict(FORM='"%s"' % s, **kw) for s in ss]
def flen(p): return max(len(p["FORM"]), 18) + 4
H("N01", "ipv4.c", "h_parse", forms("", "*", "****", "d.d.d.d", "ddd.ddd.ddd.ddd", "ddd.ddd.ddd.ddd/dd", "dd.d.d.d/**", "1.2.3.4/****", "255.255.255.255*", "255.255.255.255****", "1.2.3.4/dddddddddd", "*.d.d.*/d", "********"),
  forms("", "*", "**", "***", "****", "*****", "******", "*******", "********", "*********", "ddd.ddd.ddd.ddd", "ddd.ddd.ddd.ddd/dd", "ddd.ddd.ddd.ddd/**", "dd.d.d.d/***", "1.2.3.4/******", "255.255.255.255/*****", "255.255.255.255******",
        "1.2.3.4/dddddddddddddddddddd", "ddd.ddd.ddd.****", "***.ddd.ddd.ddd/dd", "d*d*d*d*d"), unwind=flen, what="every text of the given forms", **N_W)
def lens(*q, **kw): return [dict(LENS="{%s}" % ",".join(map(str, l)), NN=len(l), **kw) for l in q]
H("N02", "ipv4.c", "h_search", lens([24, 24], [8, 16], [16, 8, 24], [32, 32], [31, 0], [1, 2], SZ=4) + lens([24, 16], SZ=3) + lens([24, 24], [0], SZ=1) + lens([8, 24], [32], SZ=8, OTHER=4) + lens(list(range(1, 33)), SZ=1, QBITS=32, FIXED=1),
  lens(*[[a, b, c] for a in (1, 8, 24, 31, 32) for b in (0, 8, 23, 24, 32) for c in (2, 24, 32)], SZ=4) + lens([24, 24, 24, 24], [32, 31, 30, 29], SZ=3) + lens([8, 24, 8], [32, 16], SZ=8, OTHER=2) + lens(list(range(1, 33)), list(range(32, 0, -1)), SZ=1, FIXED=1), unwind=40,
  what="every network address of the given lengths, every query", **N_W)
H("N01", "ipv4.c", "h_parse", forms("d.d.d.d", "1.2.3.4/dd", "1.2.3.*/d", REC=1), forms("ddd.d.d.d", "dd.2.3.4/dd", "1.2.3.***/d", "1.2.3.4/***", REC=1), unwind=flen, what="address record of every text", **N_W)
H("N02", "ipv4.c", "h_text", forms("10.20.30.40/dd", "0.0.0.0/d", "10.20.30.4d", SZ=4), forms("10.20.30.dd/dd", "10.2d.d.0/d", "dd.20.30.dd/dd", "1d.2d.dd.0/d", "0.0.0.0/*", "10.20.30.4*", "10.20.dd.****", SZ=4), unwind=flen, what="adding and looking up by text", **N_W)

# ---------------------------------------------------------------- SHA-1
shl = lambda p: max(p.get("N", 0) + 2, 82) if p.get("N", 0) < 56 else (200 if p["N"] >= 120 else 130)
def cuts(*nc):
    return [dict(N=n, CUT=c, AT=a) for n, c, a in nc]
H("X01", "sha1.c", "h_block", unwind=82, solver="z3x", weight=9, what="the compression function on every state and every block, one step of any message")
H("X01", "sha1.c", "h_text", unwind=50, what="text form of every digest, and back")
H("X01", "sha1.c", "h_data", grid(N=[0, 55, 56, 63, 64, 119], AT=[0]) + grid(N=[65], AT=[55]),
  [dict(N=n, AT=a) for n in list(range(0, 131)) + [191, 192, 193] for a in sorted({0, n // 2, max(0, n - 1)})], unwind=shl, what="one-call digest at every length class, one byte symbolic")
H("X01", "sha1.c", "h_digest", cuts((3, 1, 0), (64, 1, 0), (65, 64, 64), (70, 3, 60), (128, 1, 5), (129, 64, 128), (130, 63, 1)),
  [dict(N=n, CUT=c, AT=a) for n in (5, 55, 56, 63, 64, 65, 100, 127, 128, 129, 192, 200) for c in (0, 1, 55, 63, 64, 65, n) if c <= n for a in sorted({0, n - 1})], unwind=shl, what="the message in two pieces, one byte symbolic")

# ---------------------------------------------------------------- time, random numbers, macros
H("Y01", "ztime.c", "h_arith", defs=["N=1"], quick=grid(OP=[0, 1, 2]), unwind=6, what="sum, difference, elapsed of all normalised times, result aliased or not")
H("Y01", "ztime.c", "h_cmp", defs=["N=1", "OP=0"], unwind=6, what="order of all normalised times")
H("Y01", "ztime.c", "h_run", defs=["OP=0"], quick=grid(N=[-1, 0, 1, 2, 3]), thorough=grid(N=range(-2, 8)), unwind=12, wraps=["getrusage"], what="number of runs, last result, time less calibration, for all clock readings")
H("Z01", "random.c", "h_seed", defs=["KEY=0", "K=0"], unwind=626, solver="z3x", weight=5, what="seeding recurrence for every seed")
H("Z01", "random.c", "h_twist", defs=["KEY=0", "K=0"], unwind=626, weight=4, what="regeneration of an arbitrary state")
H("Z01", "random.c", "h_next", defs=["KEY=0", "K=0"], quick=grid(AT=[0, 1, 396, 622, 623]), thorough=grid(AT=range(0, 624, 13)), unwind=626, what="tempering of every word, words used in order")
H("Z01", "random.c", "h_init", defs=["KEY=vt_u32()", "K=0"], quick=grid(LEN=[0, 1, 4]), thorough=grid(LEN=[0, 1, 2, 3, 4, 8, 623, 624, 625], AT=[0]), unwind=650, solver="z3x", weight=5, what="initialisation from an array of keys, one key symbolic")
H("Z01", "random.c", "h_init", defs=["KEY=0x1234", "K=0"], quick=grid(LEN=[1, 3, 4, 626]), thorough=grid(LEN=[1, 2, 3, 4, 5, 17, 623, 624, 625, 640]), unwind=650, what="initialisation from an array of keys: every index inside the arrays")
H("Z01", "random.c", "h_float", defs=["KEY=0"], quick=[dict(K=0), dict(K=1), dict(K=2)], unwind=626, what="real values inside their interval")
H("Q02", "macros.c", "h_num", grid(W=[8, 16, 32, 64]), unwind=4, what="MIN, MAX, ABS, CLAMP, CEILING, FLOOR over all operands")
H("Q02", "macros.c", "h_bits", grid(W=[8, 16, 32, 64]), unwind=4, what="bit macros over all operands")
H("Q02", "macros.c", "h_addr", grid(W=[8, 64]), unwind=4, what="containerof, offsetof, array extent")

# ---------------------------------------------------------------- file system paths, program name
PATHMAX.update(V01=24, V02=24, E01=24)
def pats(ns):
    return [dict(N=n, PAT=m) for n in ns for m in range(1 << n)]
H("V01", "path.c", "h_mkdir", quick=pats(range(0, 5)) + [dict(p, SYMC=1) for p in pats([1, 2])] + [dict(N=6, PAT=0b101010), dict(N=6, PAT=0b010100), dict(N=6, PAT=0b001101)],
  thorough=pats(range(0, 9)) + [dict(p, SYMC=1) for p in pats([1, 2, 3, 4])], unwind=lambda p: 4 * p["N"] + 10, wraps=["mkdir", "stat"],
  what="every path of the separator pattern, every state of its ancestors, every refusal")
H("V01", "pathlong.c", "h_long", grid(LONG=[24, 25, 26, 40], AT=[4]) + grid(LONG=[40], AT=[24, 25, 26, 39]), grid(LONG=[23, 24, 25, 26, 40], AT=range(1, 23)), unwind=60, wraps=["mkdir", "stat"], what="paths at and beyond PATH_MAX")
H("V02", "pathlong.c", "h_basedir", quick=pats(range(0, 5)) + [dict(N=6, PAT=0b010101), dict(N=6, PAT=0b101010), dict(N=5, PAT=0b100110), dict(N=4, PAT=4, M=3)],
  thorough=[dict(p, M=m) for p in pats(range(0, 8)) for m in (1, 3)], unwind=lambda p: 60, wraps=["stat"], noleak=True,
  what="every path of the separator pattern, every set of ancestors holding the trigger")
H("V02", "pathlong.c", "h_longbase", quick=grid(LONG=[24, 25, 26, 40], AT=[4]), thorough=grid(LONG=[22, 23, 24, 25, 26, 40], AT=[1, 12, 20, 21]), unwind=60, wraps=["mkdir", "stat"], noleak=True, what="paths at and beyond PATH_MAX")

# ---------------------------------------------------------------- UUIDs
H("U01", "uuid.c", "h_hex", defs=["HALF=0"], quick=grid(FMT=[0], LEN=[36, 37]) + grid(FMT=[1], LEN=[32, 40]), unwind=50, noleak=True, what="standard and short form of every UUID, every buffer size class, and back")
H("U01", "uuid.c", "h_parse", defs=["HALF=0"], quick=grid(FMT=[0], LEN=[0, 1, 32, 35, 36, 37]) + grid(FMT=[1], LEN=[0, 22, 31, 32, 33, 36]), unwind=64, what="every text of the length")
H("U01", "uuid.c", "h_b62", quick=grid(FMT=[2, 3], LEN=[23], HALF=[0], LO=[0], HI=[12]) + grid(FMT=[2], LEN=[22, 30], HALF=[1], LO=[20], HI=[32]) + grid(FMT=[2, 3], LEN=[23], HALF=[0], LO=[58], HI=[64]),
  thorough=[dict(FMT=f, LEN=23, HALF=h, LO=l, HI=l + 16) for f in (2, 3) for h in (0, 1) for l in range(0, 49, 8)], unwind=70, noleak=True, solver="kissat", what="base62 forms, 12 (16) bits symbolic at a time, and back")
H("U01", "uuid.c", "h_b62parse", defs=["HALF=0"], solver="kissat", quick=grid(FMT=[2], LEN=[0, 11, 21, 23]) + grid(FMT=[3], LEN=[0, 5, 36]) + grid(FMT=[2, 3], LEN=[22], W=[3], AT=[0, 9, 19]),
  thorough=grid(FMT=[2, 3], LEN=range(0, 22)) + grid(FMT=[2, 3], LEN=[23, 30, 44]) + grid(FMT=[2, 3], LEN=[22], W=[3], AT=range(0, 20)), unwind=70, what="every text of the length")
H("U01", "uuid.c", "h_cmp", defs=["HALF=0"], unwind=20, what="order of every two UUIDs")
UW = ["pthread_once", "pthread_key_create", "pthread_getspecific", "pthread_setspecific"]
H("U02", "uuidgen.c", "h_v4", unwind=20, wraps=UW, what="version 4 from every random stream, another thread running at any draw")
H("U02", "uuidgen.c", "h_v5", grid(N=[0, 1, 3, 12]), grid(N=range(0, 22)), unwind=45, wraps=UW, what="version 5 from every name, namespace and digest")

# ---------------------------------------------------------------- program name
EW = ["getpid", "getenv", "getcwd", "readlink", "stat"]
H("E01", "progname.c", "h_name", grid(N=[0, 1, 3], M=[0, 2]) + grid(N=[23, 24, 25], M=[1]), grid(N=range(0, 8), M=range(0, 4)) + grid(N=range(22, 30), M=[0, 3]), unwind=34, noleak=True, wraps=EW, what="every two names, with and without their directory, around the length limit")
def pths(*ss, **kw): return [dict(PATHS='"%s"' % s, **kw) for s in ss]
H("E01", "progname.c", "h_search", pths("", "a", "ab", ":", "a:b", "/a:bc:d", "a:", ":a", "a::b", "/:b"), lambda: pths(*["".join(t) for k in range(0, 5) for t in itertools.product("a:/", repeat=k) if "//" not in "".join(t) and "a/" not in "".join(t)]),
  unwind=30, noleak=True, wraps=EW, what="every element of the path holding the program")
H("E01", "progname.c", "h_dir", [dict(PROG='"%s"' % a, WANT='"%s"' % b) for a, b in (("/p", "/"), ("/a/p", "/a"), ("a/p", "/w/a"), ("./p", "/w"), ("./a/p", "/w/a"), ("../p", "/w/.."), ("a/b/p", "/w/a/b"), (".a/p", "/w/.a"), ("..a/p", "/w/..a"), ("/.p", "/"))],
  unwind=30, noleak=True, wraps=EW, what="programs named with a directory")
H("E01", "progname.c", "h_proc", unwind=30, noleak=True, wraps=EW, what="without a search path")

# ---------------------------------------------------------------- options
def args(*ts): return [dict(zip(("L1", "L2", "L3"), t)) for t in ts]
def argf(*ss):
    out = []
    for t in ss:
        w = t.split(" ")
        out.append(dict([("FORM", '"%s"' % "".join(w))] + [("L%d" % (i + 1), len(x)) for i, x in enumerate(w)]))
    return out
H("O01", "opts.c", "h_parse", args((1,), (2,), (3,), (4,), (5,)) + argf("-f -**", "-q -**", "-s **", "-fs -**", "-fz -f*", "-z -*", "--ff -**", "--zz --**", "-sf* -*", "--st=* -**", "-s -* -**", "--st -* --**", "-q *", "--st", "-x -*", "f* -f", "-s=* -f", "--ff=* -*"), args((1,), (2,), (3,), (4,), (5,), (6,)),
  unwind=8, hunwind=9, what="every command line of the given argument lengths against the documented meaning")
H("O01", "opts.c", "h_validate", unwind=12, what="every pair of definitions")
H("O01", "opts.c", "h_type", grid(TYPE=[0, 1, 3], L2=[-1, 0, 1, 3]) + grid(TYPE=[1], L2=[4, 5]) + grid(TYPE=[2]), unwind=12, noleak=True, what="the provided callbacks")

# ---------------------------------------------------------------- formatted output
def fms(*ss, **kw): return [dict(FORM='"%s"' % s, **kw) for s in ss]
F_FLAGS = ["", "-", "0", "+", " ", "-0", "+0", "+-", "+ "]
F_D = [dict(AT=-100, BITS=8), dict(AT=-100020, BITS=5), dict(AT=2147483647 - 31, BITS=5), dict(AT="(-2147483647-1)", BITS=5), dict(AT=1000000000 - 16, BITS=5)]
F_U = [dict(AT=0, BITS=8), dict(AT=100000 - 16, BITS=5), dict(AT=4294967295 - 31, BITS=5)]
F_A = [dict(AT=0, BITS=32)]
def fcross(*parts): return [dict(kv for d in t for kv in d.items()) for t in itertools.product(*parts)]
H("F01", "format.c", "h_one", fcross(fms("%d", "%*d", "%-*d", "%+*d", "% *d", "%0*d", "%+0*d", "%.*d", "%*.*d", "%0*.*d", "%-+*.*d"), F_D[:1]) + fcross(fms("%d", "%0+*d"), F_D[1:]) + fcross(fms("%-0*u", "%0*.*u"), F_U[:1]) + fcross(fms("%u"), F_U[1:]) + fcross(fms("%o", "%*.*o", "%x", "%0*x", "%-*.*x"), F_A) + fms("%*p", "%c", "%*c", "%-*c") + fms("%s", "%*s", "%-*s", "%.*s", "%*.*s", "%-*.*s", "%#*.*s", N=3),
  [p for c, vs in (("d", F_D), ("u", F_U), ("o", F_A), ("x", F_A)) for f in F_FLAGS if c == "d" or not set(f) & set("+ ") for p in fcross(fms(*["%" + f + s + c for s in ("", "*", ".*", "*.*")]), vs)] + [p for c in "pc" for f in ("", "-", "0") for p in fms("%" + f + c, "%" + f + "*" + c)] + [p for n in range(0, 7) for f in ("", "-", "#") for p in fms(*["%" + f + s + "s" for s in ("", "*", ".*", "*.*")], N=n)],
  unwind=18, noleak=True, what="every value (decimal: windows of values), width and precision of a directive")
H("F01", "format.c", "h_text", fms("", "%%a~~~%%~b", "a%db%sc%cd", "~d%s~c", "%-5d|%5s|%-3c", "%05d%.1s%c", "%+12.4d%-4.2s", N=2) + fms("%s%d%c", "a%3sb%-3d|~%%%c", N=2, SDC=1), fms("%%%%~~~~a", "x%+3dy%-8sz%cw%%v", "%012d%12s%12c", "%-12d%-12s%-12c", N=4),
  unwind=18, noleak=True, what="literal text and several directives")
H("F01", "format.c", "h_bound", grid(SIZE=[1, 2, 5], N=[2], WMAX=[6]), grid(SIZE=range(1, 16), N=[0, 1, 2, 4], WMAX=[8]), unwind=18, what="every text against every buffer size")
H("F01", "format.c", "h_ways", grid(HOW=range(0, 5), N=[2], WMAX=[6]), grid(HOW=range(0, 5), N=[4], WMAX=[12]), unwind=18, wraps=["putc"], what="callback, stream and sized output agree")
H("F01", "format.c", "h_grow", grid(LEN=[4, 254, 255, 256, 257], HOW=[0]) + grid(LEN=[5, 256], HOW=[1]), grid(LEN=[3, 100, 254, 255, 256, 257, 511, 512, 513], HOW=[0, 1]), unwind=lambda p: p["LEN"] + 3, what="allocated output of every length class")
H("F01", "format.c", "h_register", unwind=18, noleak=True, what="registered converters")
