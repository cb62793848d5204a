"""List, ListPair and Array2 functions by table (part of C06)."""
from table import *

IL = LIST(Ty("int", lambda s: s.int(-9, 9), "C.int", "C.wint", str), 14)
N = Ty("int", lambda s: s.weighted([(8, 0), (1, 1), (1, 2)]) and s.choice([-1, -2**62, 2**62 - 1, 1000]) or s.int(0, 15), "C.int", "C.wint", str)
K = Ty("int", lambda s: s.int(1, 5), "C.int", "C.wint", str)
LL = LIST(IL, 5)
PL = PAIR(IL, IL)


def exn(n):
    raise Exn(n)


def sub(l, n):
    return l[n] if 0 <= n < len(l) else exn("Subscript")


def take(l, n):
    return l[:n] if 0 <= n <= len(l) else exn("Subscript")


def drop(l, n):
    return l[n:] if 0 <= n <= len(l) else exn("Subscript")


def part(p, l):
    return ([x for x in l if p(x)], [x for x in l if not p(x)])


def foldl(f, b, l):
    for x in l:
        b = f(x, b)
    return b


def h(x, a):
    return (a * 31 + x) % 65521


def cmp(x, y):
    return -1 if x < y else 1 if x > y else 0


def eqz(a, b):
    return list(zip(a, b)) if len(a) == len(b) else exn("UnequalLengths")


def coll(a, b):
    a, b = [x // 3 for x in a], [x // 3 for x in b]
    return cmp(a, b)


P = "(fn x => x mod %s = 0)"
FNS = [
    Fn("List.length", [IL], INT, "List.length", len), Fn("List.null", [IL], BOOL, "List.null", lambda l: not l),
    Fn("List.@", [IL, IL], IL, "List.@", lambda a, b: a + b), Fn("List.hd", [IL], INT, "List.hd", lambda l: l[0] if l else exn("Empty")),
    Fn("List.tl", [IL], IL, "List.tl", lambda l: l[1:] if l else exn("Empty")), Fn("List.last", [IL], INT, "List.last", lambda l: l[-1] if l else exn("Empty")),
    Fn("List.getItem", [IL], OPT(PAIR(INT, IL)), "List.getItem", lambda l: (l[0], l[1:]) if l else None),
    Fn("List.nth", [IL, N], INT, "List.nth", sub), Fn("List.take", [IL, N], IL, "List.take", take), Fn("List.drop", [IL, N], IL, "List.drop", drop),
    Fn("List.rev", [IL], IL, "List.rev", lambda l: l[::-1]), Fn("List.concat", [LL], IL, "List.concat", lambda l: sum(l, [])),
    Fn("List.revAppend", [IL, IL], IL, "List.revAppend", lambda a, b: a[::-1] + b),
    Fn("List.app", [IL], IL, "(let val r = ref [] in List.app (fn x => r := x :: !r) {0}; List.rev (!r) end)", lambda l: l),
    Fn("List.map", [IL], IL, "(let val r = ref 0 in List.map (fn x => (r := !r + 1; x * 100 + !r)) {0} end)", lambda l: [x * 100 + i + 1 for i, x in enumerate(l)]),
    Fn("List.mapPartial", [IL, K], IL, "(let val r = ref 0 in List.mapPartial (fn x => (r := !r + 1; if x mod {1} = 0 then SOME (x * 100 + !r) else NONE)) {0} end)", lambda l, k: [x * 100 + i + 1 for i, x in enumerate(l) if x % k == 0]),
    Fn("List.find", [IL, K], OPT(INT), "List.find (fn x => x mod {1} = 1) {0}", lambda l, k: next((x for x in l if x % k == 1), None)),
    Fn("List.filter", [IL, K], IL, "List.filter (fn x => x mod {1} = 0) {0}", lambda l, k: [x for x in l if x % k == 0]),
    Fn("List.partition", [IL, K], PL, "List.partition (fn x => x mod {1} = 0) {0}", lambda l, k: part(lambda x: x % k == 0, l)),
    Fn("List.foldl", [IL], INT, "List.foldl (fn (x, a) => (a * 31 + x) mod 65521) 1 {0}", lambda l: foldl(h, 1, l)),
    Fn("List.foldr", [IL], INT, "List.foldr (fn (x, a) => (a * 31 + x) mod 65521) 1 {0}", lambda l: foldl(h, 1, l[::-1])),
    Fn("List.exists", [IL, K], BOOL, "List.exists (fn x => x mod {1} = 1) {0}", lambda l, k: any(x % k == 1 for x in l)),
    Fn("List.all", [IL, K], BOOL, "List.all (fn x => x mod {1} = 0) {0}", lambda l, k: all(x % k == 0 for x in l)),
    Fn("List.tabulate", [N], IL, "List.tabulate (if {0} > 2000 then 2000 else {0}, fn i => i * i)", lambda n: exn("Size") if n < 0 else [i * i for i in range(min(n, 2000))]),
    Fn("List.collate", [IL, IL], ORDER, "List.collate (fn (x, y) => Int.compare (x div 3, y div 3)) ({0}, {1})", coll),
    Fn("List.mapi", [IL], IL, "List.mapi (fn (i, x) => x * 100 + i) {0}", lambda l: [x * 100 + i for i, x in enumerate(l)]),
    Fn("ListPair.zip", [IL, IL], LIST(PAIR(INT, INT)), "ListPair.zip", lambda a, b: list(zip(a, b))),
    Fn("ListPair.zipEq", [IL, IL], LIST(PAIR(INT, INT)), "ListPair.zipEq", eqz),
    Fn("ListPair.unzip", [LIST(PAIR(INT, INT))], PL, "ListPair.unzip", lambda l: ([x for x, _ in l], [y for _, y in l])),
    Fn("ListPair.map", [IL, IL], IL, "ListPair.map (fn (x, y) => x * 100 + y) ({0}, {1})", lambda a, b: [x * 100 + y for x, y in zip(a, b)]),
    Fn("ListPair.mapEq", [IL, IL], IL, "ListPair.mapEq (fn (x, y) => x * 100 + y) ({0}, {1})", lambda a, b: [x * 100 + y for x, y in eqz(a, b)]),
    Fn("ListPair.app", [IL, IL], IL, "(let val r = ref [] in ListPair.app (fn (x, y) => r := x * 100 + y :: !r) ({0}, {1}); List.rev (!r) end)", lambda a, b: [x * 100 + y for x, y in zip(a, b)]),
    Fn("ListPair.appEq", [IL, IL], IL, "(let val r = ref [] in (ListPair.appEq (fn (x, y) => r := x * 100 + y :: !r) ({0}, {1}); r := 7777 :: !r) handle ListPair.UnequalLengths => (); List.rev (!r) end)",
       lambda a, b: [x * 100 + y for x, y in zip(a, b)] + ([7777] if len(a) == len(b) else [])),
    Fn("ListPair.foldl", [IL, IL], INT, "ListPair.foldl (fn (x, y, a) => (a * 31 + x * 7 + y) mod 65521) 1 ({0}, {1})", lambda a, b: foldl(lambda p, c: (c * 31 + p[0] * 7 + p[1]) % 65521, 1, list(zip(a, b)))),
    Fn("ListPair.foldr", [IL, IL], INT, "ListPair.foldr (fn (x, y, a) => (a * 31 + x * 7 + y) mod 65521) 1 ({0}, {1})", lambda a, b: foldl(lambda p, c: (c * 31 + p[0] * 7 + p[1]) % 65521, 1, list(zip(a, b))[::-1])),
    Fn("ListPair.foldlEq", [IL, IL], INT, "ListPair.foldlEq (fn (x, y, a) => (a * 31 + x * 7 + y) mod 65521) 1 ({0}, {1})", lambda a, b: foldl(lambda p, c: (c * 31 + p[0] * 7 + p[1]) % 65521, 1, eqz(a, b))),
    Fn("ListPair.foldrEq", [IL, IL], INT, "ListPair.foldrEq (fn (x, y, a) => (a * 31 + x * 7 + y) mod 65521) 1 ({0}, {1})", lambda a, b: foldl(lambda p, c: (c * 31 + p[0] * 7 + p[1]) % 65521, 1, eqz(a, b)[::-1])),
    Fn("ListPair.all", [IL, IL], BOOL, "ListPair.all (fn (x, y) => x <= y) ({0}, {1})", lambda a, b: all(x <= y for x, y in zip(a, b))),
    Fn("ListPair.exists", [IL, IL], BOOL, "ListPair.exists (fn (x, y) => x = y) ({0}, {1})", lambda a, b: any(x == y for x, y in zip(a, b))),
    Fn("ListPair.allEq", [IL, IL], BOOL, "ListPair.allEq (fn (x, y) => x <= y) ({0}, {1})", lambda a, b: len(a) == len(b) and all(x <= y for x, y in zip(a, b))),
]


# ------------------------------------------------------------------ Array2
def g_rect(s):
    r, c = s.int(0, 5), s.int(0, 5)
    return [[s.int(-9, 9) for _ in range(c)] for _ in range(r)]


def g_mat(s):
    return [[s.int(-9, 9) for _ in range(s.int(0, 4))] for _ in range(s.int(0, 4))] if s.draw(12) == 0 else g_rect(s)


I1 = Ty("int", lambda s: s.choice([-1, -2**62, 2**62 - 1, 6]) if s.draw(10) == 0 else s.int(0, 5), "C.int", "C.wint", str)
MAT = Ty("int list list", g_mat, LL.rd, LL.wr, LL.enc)
OI = OPT(I1)
REG = PAIR(TRIPLE(I1, I1, OI), OI)
TRAV = BOOL


def dims(m):
    """the array of a list of rows; the Basis: Size if not rectangular"""
    if any(len(r) != len(m[0]) for r in m):
        raise Exn("Size")
    return len(m), len(m[0]) if m else 0


def region(m, rg):
    nr, nc = dims(m)
    (r, c, h_), w = rg
    r1 = nr if h_ is None else r + h_
    c1 = nc if w is None else c + w
    if not (0 <= r <= r1 <= nr and 0 <= c <= c1 <= nc):
        raise Exn("Subscript")
    return r, r1, c, c1


def cells(r, r1, c, c1, colmajor):
    if colmajor:
        return [(i, j) for j in range(c, c1) for i in range(r, r1)]
    return [(i, j) for i in range(r, r1) for j in range(c, c1)]


def a2_sub(m, i, j):
    nr, nc = dims(m)
    return m[i][j] if 0 <= i < nr and 0 <= j < nc else exn("Subscript")


def a2_upd(m, i, j, v):
    a2_sub(m, i, j)
    m = [list(r) for r in m]
    m[i][j] = v
    return m


def a2_copy(m, n, rg, r, c):
    r0, r1, c0, c1 = region(m, rg)
    src = {(i, j): m[i][j] for i in range(r0, r1) for j in range(c0, c1)}
    nr, nc = dims(n)
    if r < 0 or c < 0 or r + (r1 - r0) > nr or c + (c1 - c0) > nc:
        raise Exn("Subscript")
    n = [list(x) for x in n]
    for (i, j), v in src.items():
        n[r + i - r0][c + j - c0] = v
    return n


def a2_foldi(m, rg, t):
    a = 1
    for i, j in cells(*region(m, rg), t):
        a = (a * 31 + i * 7 + j * 3 + m[i][j]) % 65521
    return a


def a2_modifyi(m, rg, t):
    cs = cells(*region(m, rg), t)
    m = [list(x) for x in m]
    for k, (i, j) in enumerate(cs):
        m[i][j] = m[i][j] * 1000 + i * 100 + j * 10 + k
    return m


def a2_all(m, f):
    dims(m)
    return f(m)


def tab(t, r, c):
    if r < 0 or c < 0 or r > 9 or c > 9:
        raise Exn("Size")
    m = [[0] * c for _ in range(r)]
    for k, (i, j) in enumerate(cells(0, r, 0, c, t)):
        m[i][j] = i * 1000 + j * 100 + k
    return m


PRE = """
structure A2 = struct
  fun mk l = Array2.fromList l
  fun out a = let val (r, c) = Array2.dimensions a in List.tabulate (r, fn i => List.tabulate (c, fn j => Array2.sub (a, i, j))) end
  fun rg (a, ((r, c, h), w)) = {base = a, row = r, col = c, nrows = h, ncols = w}
  fun tv true = Array2.ColMajor | tv false = Array2.RowMajor
  fun vl v = Vector.foldr (op ::) [] v
end
"""
# an array of no columns forgets nothing; out gives r empty rows
A2 = [
    Fn("Array2.fromList", [MAT], MAT, "A2.out (A2.mk {0})", lambda m: a2_all(m, lambda m: m)),
    Fn("Array2.dimensions", [MAT], PAIR(INT, INT), "(let val a = A2.mk {0} in if Array2.dimensions a = (Array2.nRows a, Array2.nCols a) then Array2.dimensions a else (~1, ~1) end)", dims),
    Fn("Array2.array", [I1, I1], MAT, "A2.out (if {0} > 9 orelse {1} > 9 then raise Size else Array2.array ({0}, {1}, 7))", lambda r, c: exn("Size") if r < 0 or c < 0 or r > 9 or c > 9 else [[7] * c for _ in range(r)]),
    Fn("Array2.tabulate", [TRAV, I1, I1], MAT, "(let val k = ref ~1 in A2.out (if {1} > 9 orelse {2} > 9 then raise Size else Array2.tabulate (A2.tv {0}) ({1}, {2}, fn (i, j) => (k := !k + 1; i * 1000 + j * 100 + !k))) end)", tab),
    Fn("Array2.sub", [MAT, I1, I1], INT, "Array2.sub (A2.mk {0}, {1}, {2})", a2_sub),
    Fn("Array2.update", [MAT, I1, I1, INT], MAT, "(let val a = A2.mk {0} in Array2.update (a, {1}, {2}, {3}); A2.out a end)", a2_upd),
    Fn("Array2.row", [MAT, I1], IL, "A2.vl (Array2.row (A2.mk {0}, {1}))", lambda m, i: m[i] if dims(m)[0] > i >= 0 else exn("Subscript")),
    Fn("Array2.column", [MAT, I1], IL, "A2.vl (Array2.column (A2.mk {0}, {1}))", lambda m, j: [r[j] for r in m] if dims(m)[1] > j >= 0 else exn("Subscript")),
    Fn("Array2.copy", [MAT, MAT, REG, I1, I1], MAT, "(let val a = A2.mk {0} val b = A2.mk {1} in Array2.copy {src = A2.rg (a, {2}), dst = b, dst_row = {3}, dst_col = {4}}; A2.out b end)",
       lambda m, n, rg, r, c: (dims(m), dims(n), a2_copy(m, n, rg, r, c))[2]),
    Fn("Array2.copy to itself", [MAT, REG, I1, I1], MAT, "(let val a = A2.mk {0} in Array2.copy {src = A2.rg (a, {1}), dst = a, dst_row = {2}, dst_col = {3}}; A2.out a end)", lambda m, rg, r, c: a2_copy(m, m, rg, r, c)),
    Fn("Array2.foldi", [MAT, REG, TRAV], INT, "Array2.foldi (A2.tv {2}) (fn (i, j, x, a) => (a * 31 + i * 7 + j * 3 + x) mod 65521) 1 (A2.rg (A2.mk {0}, {1}))", a2_foldi),
    Fn("Array2.appi", [MAT, REG, TRAV], INT, "(let val r = ref 1 in Array2.appi (A2.tv {2}) (fn (i, j, x) => r := (!r * 31 + i * 7 + j * 3 + x) mod 65521) (A2.rg (A2.mk {0}, {1})); !r end)", a2_foldi),
    Fn("Array2.modifyi", [MAT, REG, TRAV], MAT, "(let val k = ref ~1 val a = A2.mk {0} in Array2.modifyi (A2.tv {2}) (fn (i, j, x) => (k := !k + 1; x * 1000 + i * 100 + j * 10 + !k)) (A2.rg (a, {1})); A2.out a end)", a2_modifyi),
    Fn("Array2.fold", [MAT, TRAV], IL, "List.rev (Array2.fold (A2.tv {1}) (op ::) [] (A2.mk {0}))", lambda m, t: [m[i][j] for i, j in cells(0, dims(m)[0], 0, dims(m)[1], t)]),
    Fn("Array2.app", [MAT, TRAV], IL, "(let val r = ref [] in Array2.app (A2.tv {1}) (fn x => r := x :: !r) (A2.mk {0}); List.rev (!r) end)", lambda m, t: [m[i][j] for i, j in cells(0, dims(m)[0], 0, dims(m)[1], t)]),
    Fn("Array2.modify", [MAT], MAT, "(let val a = A2.mk {0} in Array2.modify Array2.RowMajor (fn x => x * 3 + 1) a; A2.out a end)", lambda m: a2_all(m, lambda m: [[x * 3 + 1 for x in r] for r in m])),
]

# ------------------------------------------------------------------ Pack
PI = Ty("int", lambda s: s.choice([-1, -2**62, 2**62 - 1, 2**61, 2**60]) if s.draw(10) == 0 else s.int(0, 9), "C.int", "C.wint", str)
PB = Ty("string", lambda s: "".join(chr(s.choice([s.draw(256), 0, 127, 128, 255])) for _ in range(s.int(0, 33))), STR.rd, STR.wr, STR.enc)


def p_sub(bs, i, n, big, sign):
    if i < 0 or (i + 1) * n > len(bs):
        raise Exn("Subscript")
    return int.from_bytes(bs[i * n:(i + 1) * n].encode("latin1"), "big" if big else "little", signed=sign) % 2**64


def p_real(bs, i, big):
    r = h2f("%016x" % p_sub(bs, i, 8, big, False))
    if r != r:
        raise Any()
    return r


def p_updr(bs, i, r, big):
    if r != r:
        raise Any()
    return p_upd(bs, i, int(f2h(r), 16), 8, big)


def p_upd(bs, i, w, n, big):
    p_sub(bs, i, n, big, False)
    return bs[:i * n] + (w % 2**(8 * n)).to_bytes(n, "big" if big else "little").decode("latin1") + bs[(i + 1) * n:]


LW = word_ty("LargeWord.word", 64, "(fn () => Word64.toLarge (C.w64 ()))", "(fn x => C.ww64 (Word64.fromLarge x))")
V8 = "(Byte.stringToBytes {0})"
A8 = "(Word8Array.tabulate (size {0}, fn i => Byte.charToByte (String.sub ({0}, i))))"
A8O = "(let val a = " + A8 + " in %s; Byte.bytesToString (Word8Array.vector a) end)"
PACK = []
for _n, _b in ((2, True), (2, False), (4, True), (4, False)):
    _s = "PackWord%d%s" % (_n * 8, "Big" if _b else "Little")
    for _x in (False, True):
        PACK += [Fn(_s + ".subVec" + "X" * _x, [PB, PI], LW, "%s.subVec%s (%s, {1})" % (_s, "X" * _x, V8), lambda bs, i, n=_n, b=_b, x=_x: p_sub(bs, i, n, b, x)),
                 Fn(_s + ".subArr" + "X" * _x, [PB, PI], LW, "%s.subArr%s (%s, {1})" % (_s, "X" * _x, A8), lambda bs, i, n=_n, b=_b, x=_x: p_sub(bs, i, n, b, x))]
    PACK += [Fn(_s + ".update", [PB, PI, LW], STR, A8O % (_s + ".update (a, {1}, {2})"), lambda bs, i, w, n=_n, b=_b: p_upd(bs, i, w, n, b)),
             Fn(_s + " info", [UNIT], PAIR(INT, BOOL), "({0}; (%s.bytesPerElem, %s.isBigEndian))" % (_s, _s), lambda u, n=_n, b=_b: (n, b))]
for _b in (True, False):
    _s = "PackReal64" + ("Big" if _b else "Little")
    PACK += [Fn(_s + ".subVec", [PB, PI], REAL, "%s.subVec (%s, {1})" % (_s, V8), lambda bs, i, b=_b: p_real(bs, i, b)),
             Fn(_s + ".subArr", [PB, PI], REAL, "%s.subArr (%s, {1})" % (_s, A8), lambda bs, i, b=_b: p_real(bs, i, b)),
             Fn(_s + ".update", [PB, PI, REAL], STR, A8O % (_s + ".update (a, {1}, {2})"), lambda bs, i, r, b=_b: p_updr(bs, i, r, b))]


def parts():
    return [table_part("lists", FNS, n=(20000, 1000000), nontrivial=lambda c: any(isinstance(x, list) and len(x) > 1 for x in c[1])),
            table_part("Array2", A2, prelude=PRE, n=(20000, 1000000), nontrivial=lambda c: any(isinstance(x, list) and len(x) > 1 for x in c[1])),
            table_part("Pack", PACK, n=(20000, 1000000), nontrivial=lambda c: len(c[1]) > 1 and isinstance(c[1][0], str) and len(c[1][0]) >= 4)]
