"""C03: IntInf arithmetic is exact for integers of any size."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, prog
from table import *
from c02_fixed import idiv, imod, quot, rem, sgn, fmt_int, scan_int, PRELUDE, RADIX, gen_numtext, fmt_nat, WS

MAXB = pbt.tier(900, 2500)


def big(s):
    """operands: digit patterns that steer the 62-bit digit algorithms"""
    k = s.draw(9)
    if k <= 2:
        return gen_inf(s, MAXB)
    if k <= 4:      # explicit 62-bit (or 30-bit) digits, many of them extreme
        b = s.choice([62, 62, 62, 31, 30, 64])
        B = 1 << b
        n = 1 + s.draw(s.choice([2, 3, 5, 12]))
        v = 0
        for _ in range(n):
            d = s.weighted([(4, 0), (4, 1), (3, 2), (3, 3), (4, 4), (3, 5), (5, 6)])
            d = [0, B - 1, 1, B - 2, B // 2, B // 2 - 1, None][d]
            if d is None:
                d = s.draw(B)
            v = v * B + d
        v += s.int(-1, 1) if s.draw(3) == 0 else 0
        return -v if s.draw(2) else v
    if k == 5:
        return edge_int(s, -2**63, 2**64)
    if k == 6:
        return s.int(-20, 20)
    if k == 7:      # products and powers
        v = (s.draw(1 << 62) + 1) ** (1 + s.draw(6))
        return -v if s.draw(2) else v
    v = s.draw(1 << (1 + s.draw(MAXB)))
    return -v if s.draw(2) else v


BIG = INF.with_gen(big)


def pair_add(s):
    a = big(s)
    k = s.draw(5)
    if k <= 1:
        return (a, big(s))
    if k == 2:
        return (a, -a + s.int(-2, 2))
    if k == 3:      # carry chains
        n = 62 * (1 + s.draw(6))
        return (a, (1 << n) - (a % (1 << n)) + s.int(-1, 1))
    return (a, a + (1 << s.draw(400)) * s.int(-1, 1))


def pair_div(s):
    """a = q*b + r with r near 0 or b, q with extreme digits (quotient-digit correction)"""
    k = s.draw(6)
    if k == 0:
        return (big(s), big(s))
    b = big(s)
    if k == 1:
        b = s.int(-12, 12)
    if k == 2:      # divisor with high top digit / top digit just normalised
        n = 62 * (1 + s.draw(5))
        b = ((1 << n) - 1 - s.draw(4)) if s.draw(2) else (1 << (n - 1)) + s.draw(4)
        b = -b if s.draw(2) else b
    q = big(s)
    r = s.choice([0, 0, 1, -1, abs(b) - 1, abs(b) // 2])
    return (q * b + (r if s.draw(2) else -r), b)


def divmod_(a, b):
    if b == 0:
        raise Exn("Div")
    return (a // b, a % b)


def quotrem(a, b):
    if b == 0:
        raise Exn("Div")
    return (quot(a, b), rem(a, b))


def pow_(a, n):
    if n >= 0:
        return a ** n
    if a == 0:
        raise Exn("Div")
    return {1: 1, -1: (1 if n % 2 == 0 else -1)}.get(a, 0)


def log2(a):
    if a <= 0:
        raise Exn("Domain")
    return a.bit_length() - 1


SH = Ty("word", lambda s: s.choice([lambda: s.draw(70), lambda: 62 * s.draw(8) + s.draw(3), lambda: s.draw(1200)])(),
        "C.word", "C.wword", lambda v: "%016x" % v)

OPS2 = {"+": (lambda a, b: a + b, pair_add), "-": (lambda a, b: a - b, pair_add), "*": (lambda a, b: a * b, None),
        "div": (idiv, pair_div), "mod": (imod, pair_div), "quot": (quot, pair_div), "rem": (rem, pair_div),
        "orb": (lambda a, b: a | b, pair_add), "andb": (lambda a, b: a & b, pair_add), "xorb": (lambda a, b: a ^ b, pair_add),
        "min": (min, pair_add), "max": (max, pair_add)}


def table():
    fs = []
    for n, (f, g) in OPS2.items():
        fs.append(Fn("IntInf." + n, [BIG, BIG], BIG, "IntInf.%s ({0}, {1})" % n, f, gen=g, weight=3))

        # the result is equal (=, compare) to an independently built value: canonical representation
        def canon(a, b, f=f):
            try:
                return f(a, b)
            except Exn:
                return 0
        fs.append(Fn("canonical IntInf." + n, [BIG, BIG, BIG], TRIPLE(BOOL, BOOL, BOOL),
                     "let val r = IntInf.%s ({0}, {1}) in (r = {2}, IntInf.compare (r, {2}) = EQUAL, not (r <> {2}) andalso "
                     "not (IntInf.<(r,{2})) andalso not (IntInf.>(r,{2}))) end" % n,
                     lambda a, b, c, f=f: (f(a, b), (True, True, True))[1],
                     gen=lambda s, g=g, canon=canon: (lambda p: (p[0], p[1], canon(*p)))(g(s) if g else (big(s), big(s)))))
    fs.append(Fn("IntInf.divMod", [BIG, BIG], PAIR(BIG, BIG), "IntInf.divMod", divmod_, gen=pair_div, weight=3))
    fs.append(Fn("IntInf.quotRem", [BIG, BIG], PAIR(BIG, BIG), "IntInf.quotRem", quotrem, gen=pair_div, weight=3))
    for n, f in (("<", lambda a, b: a < b), ("<=", lambda a, b: a <= b), (">", lambda a, b: a > b), (">=", lambda a, b: a >= b)):
        fs.append(Fn("IntInf." + n, [BIG, BIG], BOOL, "IntInf.%s ({0}, {1})" % n, f,
                     gen=lambda s: (lambda a: (a, s.choice([big(s), a, a + 1, a - 1, -a, a ^ (1 << s.draw(300))])))(big(s))))
    cmpg = lambda s: (lambda a: (a, s.choice([big(s), a, a + 1, a - 1, -a, a ^ (1 << s.draw(300))])))(big(s))
    fs.append(Fn("IntInf.compare", [BIG, BIG], ORDER, "IntInf.compare", lambda a, b: sgn(a - b), gen=cmpg, weight=2))
    fs.append(Fn("IntInf.=", [BIG, BIG], BOOL, "{0} = {1}", lambda a, b: a == b, gen=cmpg))
    fs.append(Fn("IntInf.sameSign", [BIG, BIG], BOOL, "IntInf.sameSign", lambda a, b: sgn(a) == sgn(b)))
    fs.append(Fn("IntInf.sign", [BIG], INT, "IntInf.sign", sgn))
    fs.append(Fn("IntInf.~", [BIG], BIG, "IntInf.~", lambda a: -a))
    fs.append(Fn("IntInf.abs", [BIG], BIG, "IntInf.abs", abs))
    fs.append(Fn("IntInf.notb", [BIG], BIG, "IntInf.notb", lambda a: ~a))
    fs.append(Fn("IntInf.log2", [BIG], INT, "IntInf.log2", log2))
    fs.append(Fn("IntInf.<<", [BIG, SH], BIG, "IntInf.<< ({0}, {1})", lambda a, k: a << k, weight=2))
    fs.append(Fn("IntInf.~>>", [BIG, SH], BIG, "IntInf.~>> ({0}, {1})", lambda a, k: a >> k, weight=3))
    fs.append(Fn("IntInf.pow", [BIG, INT], BIG, "IntInf.pow", pow_,
                 gen=lambda s: (lambda e: ((big(s) if e < 4 else s.int(-2**20, 2**20)) if s.draw(4) else s.int(-3, 3), e))(
                     s.choice([s.draw(4), s.draw(30), -s.draw(5)])), weight=2))
    fs.append(Fn("IntInf.toString", [BIG], STR, "IntInf.toString", fmt_int, weight=3))
    fs.append(Fn("IntInf.fmt", [RADIX, BIG], STR, "IntInf.fmt {0} {1}", lambda r, a: fmt_int(a, r), weight=4))
    fs.append(Fn("IntInf round trip", [RADIX, BIG], OPT(PAIR(BIG, STR)), "viaScan (IntInf.scan {0}) (IntInf.fmt {0} {1})",
                 lambda r, a: (a, ""), weight=2))

    def text(s):
        radix = s.choice([10, 16, 8, 2])
        v = big(s)
        ds = fmt_nat(abs(v), radix)
        if s.draw(2):
            ds = ds.lower()
        ds = "0" * s.choice([0, 0, 0, 1, 2, 20, 62]) + ds
        sign = s.choice(["", "", "", "+", "~", "-", "~~", "- "])
        pre = s.choice(["", "", "", "0x", "0X", "0w", "x"])
        ws = "".join(s.choice(WS) for _ in range(s.choice([0, 0, 0, 1, 3])))
        tail = s.choice(["", "", "", " ", "x", "g", "9", ".5", "~", "w", "0", "a1", "\x00", ":", "/", "@", "G", "`"])
        return (radix, ws + sign + pre + s.choice([ds] * 7 + [""]) + tail)

    fs.append(Fn("IntInf.fromString", [STR], OPT(BIG), "IntInf.fromString",
                 lambda t: (lambda r: None if r is None else r[0])(scan_int(t)), gen=lambda s: (text(s)[1],), weight=2))
    for nm in ("viaScan", "viaList"):
        fs.append(Fn("IntInf.scan " + nm, [RADIX, STR], OPT(PAIR(BIG, STR)), nm + " (IntInf.scan {0}) {1}",
                     lambda r, t: scan_int(t, r), gen=lambda s: (lambda p: (p[0] if s.draw(4) else RADIX.gen(s), p[1]))(text(s)), weight=3))
    for M, lo, hi, ty in (("Int", -2**62, 2**62 - 1, INT), ("Int32", -2**31, 2**31 - 1, INT32), ("Int64", -2**63, 2**63 - 1, INT64)):
        def rng(v, lo=lo, hi=hi):
            if v < lo or v > hi:
                raise Exn("Overflow")
            return v
        g = lambda s, lo=lo, hi=hi: (s.choice([big(s), edge_int(s, lo * 4, hi * 4), edge_int(s, lo - 1, hi + 1)]),)
        fs.append(Fn(M + ".fromLarge", [BIG], ty, M + ".fromLarge", rng, gen=g))
        fs.append(Fn(M + ".toLarge", [ty], BIG, M + ".toLarge", lambda a: a))
    fs.append(Fn("IntInf.toInt", [BIG], INT, "IntInf.toInt",
                 lambda v: v if -2**62 <= v < 2**62 else (_ for _ in ()).throw(Exn("Overflow")),
                 gen=lambda s: (s.choice([big(s), edge_int(s, -2**64, 2**64)]),)))
    for M, bits, ty in (("Word", 63, WORD), ("Word8", 8, WORD8), ("Word32", 32, WORD32), ("Word64", 64, WORD64)):
        fs.append(Fn(M + ".fromLargeInt", [BIG], ty, M + ".fromLargeInt", lambda a, b=bits: a & (2**b - 1)))
        fs.append(Fn(M + ".toLargeInt", [ty], BIG, M + ".toLargeInt", lambda a: a))
        fs.append(Fn(M + ".toLargeIntX", [ty], BIG, M + ".toLargeIntX", lambda a, b=bits: a - (1 << b) if a >> (b - 1) else a))
    return fs


# ---------------------------------------------------------------- histories: results feed later operations

MACH = """
fun step (r : IntInf.int array, opc, d, a, b, k) = let
  val x = Array.sub (r, a) val y = Array.sub (r, b)
  val v = (case opc
    of 0 => x + y | 1 => x - y | 2 => x * y | 3 => x div y | 4 => x mod y | 5 => IntInf.quot (x, y) | 6 => IntInf.rem (x, y)
     | 7 => IntInf.andb (x, y) | 8 => IntInf.orb (x, y) | 9 => IntInf.xorb (x, y) | 10 => IntInf.<< (x, Word.fromInt k)
     | 11 => IntInf.~>> (x, Word.fromInt k) | 12 => ~ x | 13 => IntInf.notb x | 14 => abs x
     | 15 => #1 (IntInf.divMod (x, y)) | 16 => #2 (IntInf.quotRem (x, y))
     | 17 => valOf (IntInf.fromString (IntInf.toString x)) | 18 => if x = y then x else if x < y then y - x else x * x
     | 19 => IntInf.pow (x, k mod 4) | _ => raise Fail "op")
  in Array.update (r, d, v) end
fun machine () = let
  val regs = Array.fromList (C.list C.inf ())
  val prog = C.list (fn () => let val a = C.int () val b = C.int () val c = C.int () val d = C.int () val e = C.int () in (a,b,c,d,e) end) ()
  in
    List.app (fn (opc, d, a, b, k) => (step (regs, opc, d, a, b, k) handle Div => Array.update (regs, d, IntInf.fromInt k))) prog;
    C.wlist C.winf (Array.foldr (op ::) [] regs);
    C.wlist C.wbool (List.tabulate (4, fn i => Array.sub (regs, i) = Array.sub (regs, (i + 1) mod 4)))
  end
"""


def gen_mach(s):
    regs = [big(s) for _ in range(4)]
    n = 2 + s.draw(14)
    prog_ = [(s.draw(20), s.draw(4), s.draw(4), s.draw(4), s.choice([s.draw(70), 62 * s.draw(4)])) for _ in range(n)]
    return (regs, prog_)


def run_mach(regs, pr):
    r = list(regs)
    for o, d, a, b, k in pr:
        x, y = r[a], r[b]
        try:
            if o == 0: v = x + y
            elif o == 1: v = x - y
            elif o == 2: v = x * y
            elif o == 3: v = idiv(x, y)
            elif o == 4: v = imod(x, y)
            elif o == 5: v = quot(x, y)
            elif o == 6: v = rem(x, y)
            elif o == 7: v = x & y
            elif o == 8: v = x | y
            elif o == 9: v = x ^ y
            elif o == 10: v = x << k
            elif o == 11: v = x >> k
            elif o == 12: v = -x
            elif o == 13: v = ~x
            elif o == 14: v = abs(x)
            elif o == 15: v = idiv(x, y)
            elif o == 16: v = rem(x, y)
            elif o == 17: v = x
            elif o == 18: v = x if x == y else y - x if x < y else x * x
            else: v = x ** (k % 4)
        except Exn:
            v = k
        if v.bit_length() > 20000:
            return None
        r[d] = v
    return r


def mach_case(s):
    c = gen_mach(s)
    if run_mach(*c) is None:
        c = (c[0], c[1][:1])
    return c


def mach_req(c):
    return "0 %d %s %d %s" % (len(c[0]), " ".join(map(str, c[0])), len(c[1]), " ".join(" ".join(map(str, i)) for i in c[1]))


def mach_judge(c, a):
    r = run_mach(*c)
    if r is None:
        return None
    e = " ".join(["4"] + [str(x) for x in r] + ["4"] + ["1" if r[i] == r[(i + 1) % 4] else "0" for i in range(4)])
    return None if a == e else "expected %s, got %s" % (e[:400], a[:400])


# ---------------------------------------------------------------- literals and literal patterns

def sl(v):
    return ("~" if v < 0 else "") + (str(abs(v)))


def gen_lit(s):
    """literals in expressions and patterns (IntInf literals get special code)"""
    lits = []
    for _ in range(1 + s.draw(6)):
        k = s.draw(4)
        v = big(s) if k == 0 else edge_int(s, -2**64, 2**64) if k == 1 else s.int(-6, 6) if k == 2 else s.choice([1, -1]) * (1 << s.choice([61, 62, 63, 64, 124, 30, 31])) + s.int(-1, 1)
        if v not in lits:
            lits.append(v)
    arg = s.choice(lits) if s.draw(3) else s.choice([x + s.int(-1, 1) for x in lits] + [-lits[0]])
    opn = s.choice(["+", "-", "*", "div", "mod", "="])
    return (lits, arg, opn, s.draw(2))


def lit_render(c, i):
    lits, arg, opn, hexa = c
    w = (lambda v: ("~" if v < 0 else "") + "0x%x" % abs(v)) if hexa else sl
    d = "val a%d = ref (%s : IntInf.int)\n" % (i, sl(arg))
    d += "fun m%d (%s : IntInf.int) = 0\n" % (i, w(lits[0]))
    for k, l in enumerate(lits[1:]):
        d += "  | m%d %s = %d\n" % (i, w(l), k + 1)
    d += "  | m%d _ = ~1\n" % i
    if opn == "=":
        e = "C.wbool (x = %s)" % w(lits[0])
    else:
        e = "C.winf (x %s %s)" % (opn, w(lits[0]))
    d += "fun t%d () = let val x = !a%d in C.wint (m%d x); C.winf (%s); %s end" % (i, i, i, w(lits[-1]), e)
    return d, "t%d" % i


def lit_expect(c):
    lits, arg, opn, _ = c
    m = lits.index(arg) if arg in lits else -1
    l = lits[0]
    v = {"+": lambda: arg + l, "-": lambda: arg - l, "*": lambda: arg * l, "div": lambda: idiv(arg, l), "mod": lambda: imod(arg, l),
         "=": lambda: "1" if arg == l else "0"}[opn]()
    return "%d %d %s" % (m, lits[-1], v)


def parts():
    img = pbt.build_driver("intinf-mach", [("codec.sml", codec_text()),
                                           ("driver.sml", "structure Main = struct\n" + MACH + "\nval main = C.main (fn () => (C.int (); machine ()))\nend\n")],
                           ["$/basis.cm"])
    return [table_part("operations", table(), prelude=PRELUDE, n=(600000, 12000000), batch=200),
            pbt.Part("histories", mach_case, mach_req, mach_judge, n=(80000, 1600000), driver=lambda: pbt.Driver(img), batch=100),
            pbt.Part("literals", gen_lit, evaluate=prog.batch_eval(lit_render, lit_expect, "infix 7 div mod\n"), n=(4800, 60000), batch=100,
                     show=lambda c: "%s" % (c,), key=lambda c: repr(c))]


if __name__ == "__main__":
    pbt.main("C03", "one IntInf operation per case on operands with extreme 62-bit digit patterns, carry chains and "
             "near-exact quotients; histories of up to 16 operations over four registers; programs with IntInf literals in "
             "expressions and patterns.  Every distinct case counts as non-trivial.",
             parts, ["oracle: Python's unbounded integers"])
