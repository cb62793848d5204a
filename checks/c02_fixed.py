"""C02: fixed-width integer and word arithmetic, conversion and text conversion."""
import random, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from table import *

WS = " \t\n\r\v\f"
RADIX = Ty("radix", lambda s: s.choice([10, 16, 8, 2]), "rdx", "", lambda v: str(v))
PRELUDE = """
fun rdx () = (case C.int () of 2 => StringCvt.BIN | 8 => StringCvt.OCT | 10 => StringCvt.DEC | _ => StringCvt.HEX)
fun viaScan scan s = (case scan Substring.getc (Substring.full s)
   of NONE => NONE | SOME (v, ss) => SOME (v, Substring.string ss))
fun viaList scan s = (case scan List.getItem (String.explode s)
   of NONE => NONE | SOME (v, l) => SOME (v, String.implode l))
fun apply2 (f, a, b) = f (a, b)
val opq = ref true
(* an operation reached through a first-class function value chosen at run time *)
fun indirect (f, g) = if !opq then f else g
"""


def idiv(a, b):
    if b == 0:
        raise Exn("Div")
    return a // b


def imod(a, b):
    if b == 0:
        raise Exn("Div")
    return a % b


def quot(a, b):
    if b == 0:
        raise Exn("Div")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def rem(a, b):
    if b == 0:
        raise Exn("Div")
    r = abs(a) % abs(b)
    return -r if a < 0 else r


def sgn(a):
    return (a > 0) - (a < 0)


DIG = {2: "01", 8: "01234567", 10: "0123456789", 16: "0123456789abcdefABCDEF"}


def fmt_nat(v, radix, up=True):
    if v == 0:
        return "0"
    o = ""
    while v:
        o = "0123456789ABCDEF"[v % radix] + o
        v //= radix
    return o


def fmt_int(v, radix=10):
    return ("~" if v < 0 else "") + fmt_nat(abs(v), radix)


def digits(s, i, radix):
    j = i
    while j < len(s) and s[j] in DIG[radix]:
        j += 1
    return j


def scan_int(s, radix=10):
    """(value, rest) or None, by the Basis: white space, [+~-]?, (0x)? for hex, digits"""
    i = 0
    while i < len(s) and s[i] in WS:
        i += 1
    neg = False
    if i < len(s) and s[i] in "+~-":
        neg = s[i] != "+"
        i += 1
    if radix == 16 and s[i:i + 2] in ("0x", "0X") and digits(s, i + 2, 16) > i + 2:
        i += 2
    j = digits(s, i, radix)
    if j == i:
        return None
    v = int(s[i:j], radix)
    return (-v if neg else v, s[j:])


def scan_word(s, radix, bits):
    i = 0
    while i < len(s) and s[i] in WS:
        i += 1
    if radix == 16:
        for p in ("0wx", "0wX", "0x", "0X"):
            if s.startswith(p, i) and digits(s, i + len(p), 16) > i + len(p):
                i += len(p)
                break
    else:
        if s.startswith("0w", i) and digits(s, i + 2, radix) > i + 2:
            i += 2
    j = digits(s, i, radix)
    if j == i:
        return None
    v = int(s[i:j], radix)
    if v >= 2 ** bits:
        raise Exn("Overflow")
    return (v, s[j:])


def gen_numtext(lo, hi, word=False):
    def g(s, radix=None):
        if radix is None or s.draw(6) == 0:
            radix = s.choice([10, 16, 8, 2])
        k = s.draw(8)
        if k == 0:
            v = edge_int(s, lo * 3, hi * 3)
        elif k == 7:
            v = s.choice([hi + s.int(-3, 12), lo - s.int(-3, 12) if lo else hi + s.int(1, 6)])
        elif k == 1:
            v = s.choice([hi + 1, hi, lo, lo - 1, hi * 10, lo * 10, hi * 16, 2 * hi, hi + 2, 16 * (hi + 1), 10 * (hi + 1)])
        else:
            v = edge_int(s, lo, hi)
        ds = fmt_nat(abs(v), radix)
        if s.draw(2):
            ds = ds.lower()
        ds = "0" * s.choice([0, 0, 0, 1, 2, 20]) + ds
        sign = "" if v >= 0 else s.choice(["~", "-"])
        if v >= 0 and not word:
            sign = s.choice(["", "", "", "+", "~", "-"])
        if word:
            sign = s.choice([""] * 12 + ["~", "+", "-"])
        pre = s.choice(["", "", "", "0x", "0X", "0w", "0wx", "0wX"] if word else ["", "", "", "0x", "0X", "0w"])
        ws = "".join(s.choice(WS) for _ in range(s.choice([0, 0, 0, 1, 3])))
        tail = s.choice(["", "", "", " ", "x", "g", "9", ".5", "~", "w", "0", "a1", "\x00"])
        body = s.choice([ds, ds, ds, ds, ds, ds, ds, ""])
        return ws + sign + pre + body + tail
    return g


def rad_text(s, st):
    r = RADIX.gen(s)
    return (r, st(s, r))


def int_table(nm, ty, lo, hi, litint=False):
    M = nm

    def rng(v):
        if v < lo or v > hi:
            raise Exn("Overflow")
        return v
    fs = []

    def pair_near(s):
        """operands whose result lies near the limits"""
        k = s.draw(6)
        a = ty.gen(s)
        if k <= 1:
            return (a, ty.gen(s))
        lim = s.choice([hi, lo, hi + 1, lo - 1])
        if k == 2:
            b = lim - a + s.int(-1, 1)
        elif k == 3:
            b = a - lim + s.int(-1, 1)
        elif k == 4:
            b = (lim // a if a else 0) + s.int(-1, 1)
        else:
            b = s.int(-9, 9)
        return (a, max(lo, min(hi, b)))

    def pair_div(s):
        """a = q*b + r near exact multiples"""
        if s.draw(3) == 0:
            return (ty.gen(s), ty.gen(s))
        if s.draw(12) == 0:
            return (s.choice([lo, lo + 1, hi, -hi]), s.choice([-1, 1, 0, 2, -2, lo, hi, lo + 1]))
        b = ty.gen(s) if s.draw(2) else s.int(-17, 17)
        q = edge_int(s, lo, hi) if s.draw(2) else s.int(-100, 100)
        a = q * b + s.int(-1, 1)
        if a < lo or a > hi:
            a = ty.gen(s)
        return (a, b)

    def bin_(n, f, g=pair_near, res=ty):
        fs.append(Fn("%s.%s" % (M, n), [ty, ty], res, "{0}" and "%s.%s ({0}, {1})" % (M, n), f, gen=g))
        fs.append(Fn("indirect %s.%s" % (M, n), [ty, ty], res,
                     "(indirect (%s.%s, fn _ => raise Fail \"\")) ({0}, {1})" % (M, n), f, gen=g))
    bin_("+", lambda a, b: rng(a + b))
    bin_("-", lambda a, b: rng(a - b))
    bin_("*", lambda a, b: rng(a * b))
    bin_("div", lambda a, b: rng(idiv(a, b)), pair_div)
    bin_("mod", lambda a, b: rng(imod(a, b)), pair_div)
    bin_("quot", lambda a, b: rng(quot(a, b)), pair_div)
    bin_("rem", lambda a, b: rng(rem(a, b)), pair_div)
    bin_("min", min)
    bin_("max", max)
    for n, f in (("<", lambda a, b: a < b), ("<=", lambda a, b: a <= b), (">", lambda a, b: a > b), (">=", lambda a, b: a >= b)):
        bin_(n, f, res=BOOL)
    fs.append(Fn(M + ".=", [ty, ty], BOOL, "{0} = {1}", lambda a, b: a == b, gen=pair_near))
    fs.append(Fn(M + ".<>", [ty, ty], BOOL, "{0} <> {1}", lambda a, b: a != b, gen=pair_near))
    fs.append(Fn(M + ".compare", [ty, ty], ORDER, M + ".compare", lambda a, b: sgn(a - b), gen=pair_near))
    fs.append(Fn(M + ".sameSign", [ty, ty], BOOL, M + ".sameSign", lambda a, b: sgn(a) == sgn(b)))
    fs.append(Fn(M + ".sign", [ty], INT, M + ".sign", sgn))
    fs.append(Fn(M + ".~", [ty], ty, M + ".~", lambda a: rng(-a)))
    fs.append(Fn(M + ".abs", [ty], ty, M + ".abs", lambda a: rng(abs(a))))
    fs.append(Fn(M + ".toLarge", [ty], INF, M + ".toLarge", lambda a: a))
    fs.append(Fn(M + ".fromLarge", [INF], ty, M + ".fromLarge", lambda a: rng(a),
                 gen=lambda s: (s.choice([lambda: INF.gen(s), lambda: edge_int(s, lo * 2, hi * 2),
                                          lambda: edge_int(s, lo - 1, hi + 1)])(),)))

    def ir(v):
        if v < -2**62 or v > 2**62 - 1:
            raise Exn("Overflow")
        return v
    fs.append(Fn(M + ".toInt", [ty], INT, M + ".toInt", ir))
    fs.append(Fn(M + ".fromInt", [INT], ty, M + ".fromInt", rng,
                 gen=lambda s: (max(-2**62, min(2**62 - 1, edge_int(s, lo * 2, hi * 2))),)))
    fs.append(Fn(M + ".toString", [ty], STR, M + ".toString", fmt_int))
    fs.append(Fn(M + ".fmt", [RADIX, ty], STR, "%s.fmt {0} {1}" % M, lambda r, a: fmt_int(a, r)))
    st = gen_numtext(lo, hi)

    def fs_(t):
        r = scan_int(t)
        return None if r is None else rng(r[0])

    def sc_(r, t):
        x = scan_int(t, r)
        return None if x is None else (rng(x[0]), x[1])
    fs.append(Fn(M + ".fromString", [STR], OPT(ty), M + ".fromString", fs_, gen=lambda s: (st(s, 10),)))
    fs.append(Fn(M + ".scan", [RADIX, STR], OPT(PAIR(ty, STR)), "viaScan (%s.scan {0}) {1}" % M, sc_,
                 gen=lambda s: rad_text(s, st)))
    fs.append(Fn(M + ".scan list", [RADIX, STR], OPT(PAIR(ty, STR)), "viaList (%s.scan {0}) {1}" % M, sc_,
                 gen=lambda s: rad_text(s, st)))
    fs.append(Fn(M + " round trip", [RADIX, ty], OPT(PAIR(ty, STR)), "viaScan (%s.scan {0}) (%s.fmt {0} {1})" % (M, M),
                 lambda r, a: (a, "")))
    fs.append(Fn(M + " limits", [], TRIPLE(INF, INF, INT),
                 "(%s.toLarge(valOf %s.minInt), %s.toLarge(valOf %s.maxInt), valOf %s.precision)" % (M, M, M, M, M),
                 lambda: (lo, hi, hi.bit_length() + 1)))
    # quotient/remainder identities on one pair (catches inconsistent pairs of operations)
    fs.append(Fn(M + " div-mod identity", [ty, ty], BOOL,
                 "{1} = %s.fromInt 0 orelse (%s.toLarge {1} * %s.toLarge (%s.div({0},{1})) + %s.toLarge(%s.mod({0},{1})) = %s.toLarge {0})"
                 % (M, M, M, M, M, M, M),
                 lambda a, b: (rng(idiv(a, b)) if b else 0, True)[1], gen=pair_div))
    return fs


def word_table(nm, ty, bits):
    M = nm
    mask = 2 ** bits - 1
    fs = []

    def sx(v):
        return v - 2 ** bits if v >> (bits - 1) else v

    def near(s):
        a = ty.gen(s)
        k = s.draw(5)
        if k <= 1:
            return (a, ty.gen(s))
        if k == 2:
            return (a, (-a + s.int(-1, 1)) & mask)
        if k == 3:
            return (a, s.draw(10) & mask)
        b = ty.gen(s)
        return ((a * b + s.int(-1, 1)) & mask, b)

    def bin_(n, f, res=ty):
        fs.append(Fn("%s.%s" % (M, n), [ty, ty], res, "%s.%s ({0}, {1})" % (M, n), f, gen=near))
        fs.append(Fn("indirect %s.%s" % (M, n), [ty, ty], res,
                     "(indirect (%s.%s, fn _ => raise Fail \"\")) ({0}, {1})" % (M, n), f, gen=near))
    bin_("+", lambda a, b: (a + b) & mask)
    bin_("-", lambda a, b: (a - b) & mask)
    bin_("*", lambda a, b: (a * b) & mask)
    bin_("div", lambda a, b: idiv(a, b))
    bin_("mod", lambda a, b: imod(a, b))
    bin_("orb", lambda a, b: a | b)
    bin_("andb", lambda a, b: a & b)
    bin_("xorb", lambda a, b: a ^ b)
    bin_("min", min)
    bin_("max", max)
    for n, f in (("<", lambda a, b: a < b), ("<=", lambda a, b: a <= b), (">", lambda a, b: a > b), (">=", lambda a, b: a >= b)):
        bin_(n, f, res=BOOL)
    fs.append(Fn(M + ".=", [ty, ty], BOOL, "{0} = {1}", lambda a, b: a == b, gen=near))
    fs.append(Fn(M + ".compare", [ty, ty], ORDER, M + ".compare", lambda a, b: sgn(a - b), gen=near))
    fs.append(Fn(M + ".notb", [ty], ty, M + ".notb", lambda a: a ^ mask))
    fs.append(Fn(M + ".~", [ty], ty, M + ".~", lambda a: -a & mask))
    for pre, pat in (("", "%s.%s ({0}, {1})"), ("indirect ", "(indirect (%s.%s, fn _ => raise Fail \"\")) ({0}, {1})")):
        fs.append(Fn(pre + M + ".<<", [ty, SHIFT], ty, pat % (M, "<<"), lambda a, k: (a << k) & mask if k < 100 else 0))
        fs.append(Fn(pre + M + ".>>", [ty, SHIFT], ty, pat % (M, ">>"), lambda a, k: a >> k if k < 100 else 0))
        fs.append(Fn(pre + M + ".~>>", [ty, SHIFT], ty, pat % (M, "~>>"), lambda a, k: (sx(a) >> min(k, 100)) & mask))
    fs.append(Fn(M + ".popCount", [ty], INT, M + ".popCount", lambda a: bin(a).count("1")))
    fs.append(Fn(M + ".toLarge", [ty], WORD64, M + ".toLarge", lambda a: a))
    fs.append(Fn(M + ".toLargeWord", [ty], WORD64, M + ".toLargeWord", lambda a: a))
    fs.append(Fn(M + ".toLargeX", [ty], WORD64, M + ".toLargeX", lambda a: sx(a) & (2**64 - 1)))
    fs.append(Fn(M + ".toLargeWordX", [ty], WORD64, M + ".toLargeWordX", lambda a: sx(a) & (2**64 - 1)))
    fs.append(Fn(M + ".fromLarge", [WORD64], ty, M + ".fromLarge", lambda a: a & mask))
    fs.append(Fn(M + ".fromLargeWord", [WORD64], ty, M + ".fromLargeWord", lambda a: a & mask))
    fs.append(Fn(M + ".toLargeInt", [ty], INF, M + ".toLargeInt", lambda a: a))
    fs.append(Fn(M + ".toLargeIntX", [ty], INF, M + ".toLargeIntX", sx))
    fs.append(Fn(M + ".fromLargeInt", [INF], ty, M + ".fromLargeInt", lambda a: a & mask))

    def ir(v):
        if v < -2**62 or v > 2**62 - 1:
            raise Exn("Overflow")
        return v
    fs.append(Fn(M + ".toInt", [ty], INT, M + ".toInt", ir))
    fs.append(Fn(M + ".toIntX", [ty], INT, M + ".toIntX", lambda a: ir(sx(a))))
    fs.append(Fn(M + ".fromInt", [INT], ty, M + ".fromInt", lambda a: a & mask))
    fs.append(Fn(M + ".toString", [ty], STR, M + ".toString", lambda a: fmt_nat(a, 16)))
    fs.append(Fn(M + ".fmt", [RADIX, ty], STR, "%s.fmt {0} {1}" % M, lambda r, a: fmt_nat(a, r)))
    st = gen_numtext(0, mask, True)

    def fs_(t):
        r = scan_word(t, 16, bits)
        return None if r is None else r[0]
    fs.append(Fn(M + ".fromString", [STR], OPT(ty), M + ".fromString", fs_, gen=lambda s: (st(s, 16),)))
    fs.append(Fn(M + ".scan", [RADIX, STR], OPT(PAIR(ty, STR)), "viaScan (%s.scan {0}) {1}" % M,
                 lambda r, t: scan_word(t, r, bits), gen=lambda s: rad_text(s, st)))
    fs.append(Fn(M + " round trip", [RADIX, ty], OPT(PAIR(ty, STR)), "viaScan (%s.scan {0}) (%s.fmt {0} {1})" % (M, M),
                 lambda r, a: (a, "")))
    fs.append(Fn(M + ".wordSize", [], INT, M + ".wordSize", lambda: bits))
    return fs


def cross_table():
    """chains of conversions between the types"""
    tys = {"Int": (INT, -2**62, 2**62 - 1), "Int32": (INT32, -2**31, 2**31 - 1), "Int64": (INT64, -2**63, 2**63 - 1)}
    fs = []
    for a in tys:
        for b in tys:
            if a != b:
                lo, hi = tys[b][1:]

                def rng(v, lo=lo, hi=hi):
                    if v < lo or v > hi:
                        raise Exn("Overflow")
                    return v
                fs.append(Fn("%s.fromLarge o %s.toLarge" % (b, a), [tys[a][0]], tys[b][0],
                             "%s.fromLarge (%s.toLarge {0})" % (b, a), rng))
    ws = {"Word": (WORD, 63), "Word8": (WORD8, 8), "Word32": (WORD32, 32), "Word64": (WORD64, 64)}
    for a in ws:
        for b in ws:
            ma = 2 ** ws[b][1] - 1
            ba = ws[a][1]

            def sx(v, ba=ba):
                return v - 2 ** ba if v >> (ba - 1) else v
            fs.append(Fn("%s.fromLarge o %s.toLarge" % (b, a), [ws[a][0]], ws[b][0],
                         "%s.fromLarge (%s.toLarge {0})" % (b, a), lambda v, ma=ma: v & ma))
            fs.append(Fn("%s.fromLarge o %s.toLargeX" % (b, a), [ws[a][0]], ws[b][0],
                         "%s.fromLarge (%s.toLargeX {0})" % (b, a), lambda v, ma=ma, sx=sx: sx(v) & ma))
        for i in tys:
            lo, hi = tys[i][1:]

            def rng(v, lo=lo, hi=hi):
                if v < lo or v > hi:
                    raise Exn("Overflow")
                return v
            fs.append(Fn("%s.fromLarge o %s.toLargeInt" % (i, a), [ws[a][0]], tys[i][0],
                         "%s.fromLarge (%s.toLargeInt {0})" % (i, a), rng))
            fs.append(Fn("%s.fromLarge o %s.toLargeIntX" % (i, a), [ws[a][0]], tys[i][0],
                         "%s.fromLarge (%s.toLargeIntX {0})" % (i, a), lambda v, r=rng, sx=sx: r(sx(v))))
            fs.append(Fn("%s.fromLargeInt o %s.toLarge" % (a, i), [tys[i][0]], ws[a][0],
                         "%s.fromLargeInt (%s.toLarge {0})" % (a, i), lambda v, m=2 ** ws[a][1] - 1: v & m))
    # chains of two and three conversions (the optimiser fuses them)
    conv = []      # (name, from, to, function)
    types = {}
    types["IntInf"] = (INF, None)
    for i, (t, lo, hi) in tys.items():
        types[i] = (t, (lo, hi))

        def rng(v, lo=lo, hi=hi):
            if v < lo or v > hi:
                raise Exn("Overflow")
            return v
        conv.append((i + ".toLarge", i, "IntInf", lambda v: v))
        conv.append((i + ".fromLarge", "IntInf", i, rng))
        if i != "Int":
            conv.append((i + ".toInt", i, "Int", int_rng))
            conv.append((i + ".fromInt", "Int", i, rng))
    for w, (t, bits) in ws.items():
        types[w] = (t, (0, 2 ** bits - 1))

        def sx(v, b=bits):
            return v - 2 ** b if v >> (b - 1) else v
        m = 2 ** bits - 1
        conv.append((w + ".toInt", w, "Int", int_rng))
        conv.append((w + ".toIntX", w, "Int", lambda v, sx=sx: int_rng(sx(v))))
        conv.append((w + ".fromInt", "Int", w, lambda v, m=m: v & m))
        conv.append((w + ".toLargeInt", w, "IntInf", lambda v: v))
        conv.append((w + ".toLargeIntX", w, "IntInf", sx))
        conv.append((w + ".fromLargeInt", "IntInf", w, lambda v, m=m: v & m))
        if w != "Word64":
            conv.append((w + ".toLarge", w, "Word64", lambda v: v))
            conv.append((w + ".toLargeX", w, "Word64", lambda v, sx=sx: sx(v) & (2**64 - 1)))
            conv.append((w + ".fromLarge", "Word64", w, lambda v, m=m: v & m))
    chains = [(f, g) for f in conv for g in conv if f[2] == g[1]]
    r = random.Random(7)
    three = [(f, g, h) for (f, g) in chains for h in conv if g[2] == h[1]]
    chains = chains + r.sample(three, 250)
    for ch in chains:
        def orc(v, ch=ch):
            for c in ch:
                v = c[3](v)
            return v
        e = "{0}"
        for c in ch:
            e = "%s (%s)" % (c[0], e)
        src = types[ch[0][1]][0]
        gen = None
        if ch[0][1] == "IntInf":
            gen = lambda s: (s.choice([edge_int(s, -2**64, 2**64), edge_int(s, -2**33, 2**33), edge_int(s, -300, 300),
                                       INF.gen(s)]),)
        elif ch[0][1] in ("Int", "Int64", "Word", "Word64"):
            lo, hi = types[ch[0][1]][1]
            gen = lambda s, t=src, lo=lo, hi=hi: (s.choice([t.gen(s), max(lo, min(hi, edge_int(s, -2**33, 2**33))),
                                                          max(lo, min(hi, edge_int(s, -300, 300)))]),)
        fs.append(Fn(" o ".join(c[0] for c in reversed(ch)), [src], types[ch[-1][2]][0], e, orc, gen=gen))
    return fs


def int_rng(v):
    if v < -2**62 or v > 2**62 - 1:
        raise Exn("Overflow")
    return v


# constant operands: the compiler may fold, reassociate or strength-reduce; each case is a small program text
def lit(ty, v):
    if ty in ("Int", "Int32", "Int64"):
        return "(%s%d : %s.int)" % ("~" if v < 0 else "", abs(v), ty)
    return "(0wx%x : %s.word)" % (v, ty)


ITY = {"Int": (-2**62, 2**62 - 1), "Int32": (-2**31, 2**31 - 1), "Int64": (-2**63, 2**63 - 1)}
WTY = {"Word": 63, "Word8": 8, "Word32": 32, "Word64": 64}


def ieval(ty, op, a, b):
    lo, hi = ITY[ty]
    f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "div": lambda: idiv(a, b), "mod": lambda: imod(a, b),
         "quot": lambda: quot(a, b), "rem": lambda: rem(a, b)}[op]
    v = f()
    if v < lo or v > hi:
        raise Exn("Overflow")
    return v


def weval(ty, op, a, b):
    m = 2 ** WTY[ty] - 1
    bits = WTY[ty]
    if op == "<<":
        return (a << b) & m if b < 200 else 0
    if op == ">>":
        return a >> b if b < 200 else 0
    if op == "~>>":
        return ((a - 2 ** bits if a >> (bits - 1) else a) >> min(b, 200)) & m
    return {"+": lambda: (a + b) & m, "-": lambda: (a - b) & m, "*": lambda: (a * b) & m, "div": lambda: idiv(a, b),
            "mod": lambda: imod(a, b), "andb": lambda: a & b, "orb": lambda: a | b, "xorb": lambda: a ^ b}[op]()


def gen_expr(s, ty, depth, env):
    """(text, thunk) -- evaluation order left to right; variables are run-time values"""
    isw = ty in WTY
    k = s.draw(10)
    if depth == 0 or k <= 1:
        if isw:
            v = edge_int(s, 0, 2 ** WTY[ty] - 1)
        else:
            k = s.draw(8)
            if k == 0:
                v = s.choice([-1, ITY[ty][0], ITY[ty][1], 2, 4, -2, 1, 0])
            elif k == 1:
                v = max(ITY[ty][0], min(ITY[ty][1], (1 << s.draw(63)) * s.choice([1, -1])))
            else:
                v = edge_int(s, *ITY[ty])
        return (lit(ty, v), lambda e: v)
    if k <= 4:
        i = s.draw(3)
        return ("x%d" % i, lambda e: e[i])
    if isw:
        op = s.choice(["+", "-", "*", "div", "mod", "andb", "orb", "xorb", "<<", ">>", "~>>"])
        l = gen_expr(s, ty, depth - 1, env)
        if op in ("<<", ">>", "~>>"):
            sh = s.choice([s.draw(WTY[ty] + 3), s.draw(9), 63, 64, 65])
            if s.draw(3) == 0:
                t = "(Word.fromInt %d + Word.andb(z, 0w0))" % sh
            else:
                t = "0w%d" % sh
            return ("(%s.%s (%s, %s))" % (ty, op, l[0], t), lambda e: weval(ty, op, l[1](e), sh))
        r = gen_expr(s, ty, depth - 1, env)
        return ("(%s.%s (%s, %s))" % (ty, op, l[0], r[0]), lambda e: (lambda a: weval(ty, op, a, r[1](e)))(l[1](e)))
    op = s.choice(["+", "-", "*", "div", "mod", "quot", "rem", "+", "-", "*"])
    l = gen_expr(s, ty, depth - 1, env)
    r = gen_expr(s, ty, depth - 1, env)
    return ("(%s.%s (%s, %s))" % (ty, op, l[0], r[0]), lambda e: (lambda a: ieval(ty, op, a, r[1](e)))(l[1](e)))


def gen_lit_case(s):
    ty = s.choice(list(ITY) + list(WTY))
    if ty in WTY:
        env = [edge_int(s, 0, 2 ** WTY[ty] - 1) for _ in range(3)]
    else:
        env = [edge_int(s, *ITY[ty]) for _ in range(3)]
    t, f = gen_expr(s, ty, s.choice([1, 1, 2, 3, 4]), env)
    cmp_ = s.draw(5)
    if cmp_ == 0:      # a comparison in a conditional
        u, g = gen_expr(s, ty, s.choice([0, 1, 2]), env)
        op = s.choice(["<", "<=", ">", ">="])
        cf = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}[op]

        def ev():
            a = f(env)
            b = g(env)
            return "1" if cf(a, b) else "0"
        return (ty, env, "C.w (if %s.%s (%s, %s) then \"1\" else \"0\")" % (ty, op, t, u), ev)

    def ev():
        v = f(env)
        return " ".join(("%016x" % u) if ty in WTY else str(u) for u in [v] + env)
    wr = {"Int": "C.wint", "Int32": "(fn x => C.winf(Int32.toLarge x))", "Int64": "(fn x => C.winf(Int64.toLarge x))",
          "Word": "C.wword", "Word8": "C.ww8", "Word32": "C.ww32", "Word64": "C.ww64"}[ty]
    # the variables are used again afterwards: evaluation must not disturb them
    return (ty, env, "%s %s; %s x0; %s x1; %s x2" % (wr, t, wr, wr, wr), ev)


class UseCtx:
    def stop(self):
        pass


def eval_lits(ctx, cases):
    import subprocess, tempfile
    d = tempfile.mkdtemp(prefix="c02-", dir=vbuild.WORK)
    try:
        src = [codec_text(), "val z = Word.fromInt (List.length (CommandLine.arguments ()) * 0);\n"]
        opaque = {"Int": "fun mk l = List.map (fn i => i) l",
                  }
        src.append("structure T = struct\n")
        for i, (ty, env, body, ev) in enumerate(cases):
            vals = ", ".join(lit(ty, v) for v in env)
            tn = ty + (".word" if ty in WTY else ".int")
            src.append("val r%d = ref (%s)\n" % (i, vals))
            src.append("fun t%d () = let val (x0 : %s, x1 : %s, x2 : %s) = !r%d in (%s) end\n" % (i, tn, tn, tn, i, body))
        src.append("val all = [%s]\nend\n" % ", ".join("T.t%d" % i for i in range(0)) if False else
                   "val all = [%s]\nend;\n" % ", ".join("t%d" % i for i in range(len(cases))))
        src.append("val _ = List.app (fn f => TextIO.print (\"=>\" ^ C.answer f ^ \"\\n\")) T.all;\n")
        p = os.path.join(d, "t.sml")
        open(p, "w").write("".join(src))
        try:
            r = subprocess.run([vbuild.TREE + "/bin/sml", p], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=vbuild.env(), timeout=300)
            out = r.stdout.decode("latin-1")
        except subprocess.TimeoutExpired:
            out = "timeout"
        got = [l[2:] for l in out.splitlines() if l.startswith("=>")]
        res = []
        if len(got) != len(cases):
            # locate the program the system did not survive
            if len(cases) == 1:
                return ["no result: " + out[-600:]]
            h = len(cases) // 2
            return eval_lits(ctx, cases[:h]) + eval_lits(ctx, cases[h:])
        for c, g in zip(cases, got):
            try:
                e = c[3]()
            except Exn as x:
                e = "!" + x.name
            res.append(None if e == g else "program [%s] with x = %r: expected %s, got %s" % (c[2], c[1], e, g))
        return res
    finally:
        subprocess.run(["rm", "-rf", d])


def parts():
    fi = int_table("Int", INT, -2**62, 2**62 - 1) + int_table("Int32", INT32, -2**31, 2**31 - 1) \
        + int_table("Int64", INT64, -2**63, 2**63 - 1)
    fw = word_table("Word", WORD, 63) + word_table("Word8", WORD8, 8) + word_table("Word32", WORD32, 32) \
        + word_table("Word64", WORD64, 64)
    ps = [table_part("int-ops", fi, prelude=PRELUDE, n=(160000, 3000000)),
          table_part("word-ops", fw, prelude=PRELUDE, n=(160000, 3000000)),
          table_part("conversions", cross_table(), prelude=PRELUDE, n=(160000, 2400000)),
          pbt.Part("constant-operands", gen_lit_case, None, None, n=(9600, 160000), evaluate=eval_lits, batch=200,
                   show=lambda c: "%s with x=%r" % (c[2], c[1]), key=lambda c: (c[2], tuple(c[1])),
                   nontrivial=lambda c: "x" in c[2])]
    return ps


if __name__ == "__main__":
    pbt.main("C02", "one public operation of Int/Int32/Int64/Word/Word8/Word32/Word64 per case with boundary-biased "
             "operands (limits, powers of two, operands whose exact result is near a limit, exact multiples), called directly "
             "and through a function value; plus program texts with literal operands compiled by the system; every distinct "
             "(operation, operands) pair counts as non-trivial, for program texts those that mix literals with run-time values",
             parts, ["oracle: Python's unbounded integers and the SML Basis text grammar"])
