"""C04: reals follow IEEE arithmetic and convert to text and back exactly."""
import math, os, re, struct, sys
from decimal import Decimal, getcontext, localcontext
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, prog
from table import *
from c02_fixed import PRELUDE, WS

INFY = float("inf")
NAN = float("nan")


def isneg(x):
    return math.copysign(1.0, x) < 0


def div(a, b):
    if b == 0:
        if a != a or a == 0:
            return NAN
        return INFY if isneg(a) == isneg(b) else -INFY
    return a / b if not (math.isinf(a) and math.isinf(b)) else NAN


def mul(a, b):
    return a * b


def pairs(s):
    """operands close to each other, of related magnitude, or unrelated"""
    a = gen_real(s)
    k = s.draw(6)
    if k <= 2:
        return (a, gen_real(s))
    if k == 3:
        return (a, -a if s.draw(2) else a)
    if k == 4 and math.isfinite(a):
        b = a
        for _ in range(1 + s.draw(2)):
            b = math.nextafter(b, INFY if s.draw(2) else -INFY)
        return (a, b if s.draw(2) else -b)
    if math.isfinite(a) and a != 0:
        m, e = math.frexp(a)
        e2 = max(-1074, min(1023, e + s.int(-56, 56)))
        return (a, math.ldexp(1.0 + s.draw(1 << 52) / (1 << 52), e2) if e2 < 1023 else a)
    return (a, gen_real(s))


def near_int(s):
    """values for the rounding functions: halves, near-halves, limits"""
    k = s.draw(9)
    if k == 0:
        return gen_real(s)
    if k == 1:
        v = float(s.int(-20, 20)) + s.choice([0.0, 0.5, 0.25, 0.75])
    elif k == 2:
        v = s.choice([0.5, 1.5, 2.5, 1.0, 2.0, 0.0])
        v = math.nextafter(v, s.choice([INFY, -INFY]))
        v = v if s.draw(2) else -v
    elif k == 3:
        v = float((1 << s.choice([51, 52, 53, 54])) + s.int(-8, 8)) + s.choice([0.0, 0.5])
        v = v if s.draw(2) else -v
    elif k == 4:
        v = float(1 << s.choice([61, 62, 63, 64, 31, 32, 30])) * s.choice([1.0, 1 - 2**-53, 1 + 2**-52])
        v = v if s.draw(2) else -v
    elif k == 5:
        v = s.choice([5e-324, 1e-310, 1e-20, 0.49999999999999994, 0.9999999999999999, 4503599627370495.5, 4503599627370497.5])
        v = v if s.draw(2) else -v
    elif k == 6:
        v = math.ldexp(s.draw(1 << 53), -s.draw(54))
        v = v if s.draw(2) else -v
    elif k == 7:
        v = math.ldexp(s.draw(1 << 53), s.draw(14))
        v = v if s.draw(2) else -v
    else:
        v = s.choice([INFY, -INFY, NAN, 0.0, -0.0, 1.7976931348623157e308, -5e-324])
    return v


def toint(f, lo=-2**62, hi=2**62 - 1):
    def g(x):
        if x != x:
            raise Exn("Domain")
        if math.isinf(x):
            raise Exn("Overflow")
        v = f(x)
        if lo is not None and not lo <= v <= hi:
            raise Exn("Overflow")
        return v
    return g


def rnd(x):      # half to even, exact
    return round(Fraction(x))


def rfl(x):
    return math.floor(x)


MODES = [("TO_NEAREST", rnd), ("TO_NEGINF", math.floor), ("TO_POSINF", math.ceil), ("TO_ZERO", math.trunc)]
MODE = Ty("mode", lambda s: s.draw(4), "mode", "", str)


def realint(f):
    def g(x):
        if x != x or math.isinf(x) or x == 0:
            return x
        v = f(x)
        if v == 0:
            return math.copysign(0.0, x)
        return float(v)
    return g


def zero_any(f):
    """sign of a zero result is not prescribed"""
    def g(*a):
        e = f(*a)
        if e == 0:
            return lambda ans: None if ans in ("0000000000000000", "8000000000000000") else "expected a zero, got " + ans
        return e
    return g


def approx(f, rel, abso=0.0):
    """tolerance for the elementary functions, which the Basis does not require to be correctly rounded"""
    def g(*a):
        e = f(*a)
        if e != e or math.isinf(e):
            return e

        def judge(ans):
            if not re.fullmatch(r"[0-9a-f]{16}", ans):
                return "expected %r, got %s" % (e, ans)
            v = h2f(ans)
            if abs(v - e) <= rel * abs(e) + abso:
                return None
            return "expected about %r, got %r" % (e, v)
        return judge
    return g


def safe(f):
    def g(*a):
        try:
            return f(*a)
        except ValueError:
            return NAN
        except OverflowError:
            return INFY
    return g


def rem_(x, y):
    if x != x or y != y or math.isinf(x) or y == 0:
        return NAN
    if math.isinf(y):
        return x
    return math.fmod(x, y)


def manexp(x):
    if x == 0 or x != x or math.isinf(x):
        return (x, 0)
    return math.frexp(x)


def ldexp_exact(m, e):
    if m == 0 or m != m or math.isinf(m):
        return m
    if e > 5000:
        return math.copysign(INFY, m)
    if e < -5000:
        return math.copysign(0.0, m)
    return f2d(Fraction(m) * Fraction(2) ** e, isneg(m))


def f2d(fr, neg=False):
    """correctly rounded double of a fraction"""
    if fr == 0:
        return -0.0 if neg else 0.0
    s = fr < 0
    fr = abs(fr)
    try:
        v = fr.numerator / fr.denominator     # correctly rounded in CPython
    except OverflowError:
        v = INFY
    return -v if s else v


def split_(x):
    if x != x:
        return (x, x)
    if math.isinf(x):
        return (x, math.copysign(0.0, x))
    w = float(math.trunc(x))
    return (math.copysign(w, x), math.copysign(x - w, x) if x == w else x - w)


def nextafter(a, b):
    if a != a or b != b:
        return NAN
    if a == b or math.isinf(a):
        return a
    return math.nextafter(a, b)


CLASS = Ty("class", None, "", "wclass", str)


def klass(x):
    if x != x:
        return 0
    if math.isinf(x):
        return 1
    if x == 0:
        return 2
    return 3 if abs(x) >= 2.2250738585072014e-308 else 4


def cmpr(a, b):
    if a != a or b != b:
        raise Exn("Unordered")
    return (a > b) - (a < b)


# ---------------------------------------------------------------- text

def shortest(x):
    """(neg, digits, exp) with value 0.d1d2... * 10^exp; shortest digits that identify the double"""
    neg = isneg(x)
    x = abs(x)
    if x == 0:
        return (neg, "", 0)
    m = re.fullmatch(r"(\d)(?:\.(\d+))?e([+-]\d+)", repr_sci(x))
    d = (m.group(1) + (m.group(2) or "")).rstrip("0")
    return (neg, d, int(m.group(3)) + 1)


def repr_sci(x):
    r = repr(x)
    d = Decimal(r)
    t = d.as_tuple()
    ds = "".join(map(str, t.digits)).lstrip("0") or "0"
    n = len("".join(map(str, t.digits)))
    e = t.exponent + n - 1
    return ds[0] + ("." + ds[1:] if len(ds) > 1 else "") + "e%+d" % e


FMTS = Ty("fmt", None, "rfmt", "", lambda v: "%d %d" % v)


def gen_fmt(s):
    k = s.draw(4)
    p = s.choice([-2, 0, 1, 2, 3, 6, 12, 15, 16, 17, 20, -1, s.draw(30), s.draw(18), s.draw(18)])
    if k == 3 and s.draw(4):
        p = max(p, 1)
    return (k, p)          # p = -2: NONE (default precision)


def gen_fmtreal(s):
    """a format and a real; often one whose shortest decimal has runs of nines, fives or zeros around the rounding position"""
    kp = gen_fmt(s)
    if s.draw(2):
        return (kp, gen_real(s))
    p = kp[1] if kp[1] >= 0 else 6
    nd = s.int(1, 17)
    pos = s.choice([p, p + 1, p - 1, s.draw(17)])
    ds = [s.choice([9, 9, 9, 0, 5, 4, 1, s.draw(10)]) for _ in range(nd)]
    if s.draw(2):
        for i in range(min(pos, nd)):
            ds[i] = 9
        if 0 <= pos < nd:
            ds[pos] = s.choice([5, 6, 9, 4, 9])
    e = s.choice([0, 1, -1, -2, -3, s.int(-8, 8), s.int(-20, 25), -p, 1 - p, s.int(-300, 300)])
    x = float("0." + "".join(map(str, ds)) + "E%d" % e)
    return (kp, -x if s.draw(4) == 0 else x)


def judge_fmt(kp, x):
    """the text denotes the shortest decimal of x correctly rounded to the requested digits (either neighbour on a tie)"""
    k, p = kp

    def judge(ans):
        if k != 0 and p == -1 or k == 3 and p == 0:
            return None if ans == "!Size" else "expected Size, got " + ans
        if ans.startswith("!"):
            return "unexpected exception " + ans
        t = bytes.fromhex(ans[1:]).decode("latin-1")
        if x != x:
            return None if t == "nan" else "expected nan, got " + t
        if math.isinf(x):
            e = "~inf" if x < 0 else "inf"
            return None if t == e else "expected %s, got %s" % (e, t)
        neg, ds, ex = shortest(x)
        val = Fraction(int(ds or "0")) * Fraction(10) ** (ex - len(ds)) if ds else Fraction(0)
        body = t
        if neg:
            if not t.startswith("~"):
                return "missing sign in %r" % t
            body = t[1:]
        if k == 0:           # EXACT
            exp = "0.0" if not ds else "0." + ds + ("E" + ("~" if ex < 0 else "") + str(abs(ex)) if ex else "")
            return None if body == exp else "expected %s, got %s" % (exp, body)
        prec = p if p >= 0 else {1: 6, 2: 6, 3: 12}[k]
        if k == 1:           # SCI
            m = re.fullmatch(r"(\d)%sE(~?)(\d+)" % (r"\.(\d{%d})" % prec if prec else "()"), body)
            if not m:
                return "not in scientific notation with %d digits: %s" % (prec, t)
            lead, frac, es, en = m.group(1), m.group(2), m.group(3), m.group(4)
            if len(en) > 1 and en[0] == "0":
                return "exponent with leading zero: %s" % t
            e10 = -int(en) if es else int(en)
            got = Fraction(int(lead + frac)) * Fraction(10) ** (e10 - prec)
            if val == 0:
                return None if got == 0 and e10 == 0 else "wrong zero %s" % t
            if lead == "0":
                return "mantissa not normalised: %s" % t
            ulp = Fraction(10) ** (ex - 1 - prec)
            if abs(got - val) * 2 > ulp:
                return "value %s is not %s rounded to %d digits" % (t, repr(x), prec)
            return None
        if k == 2:           # FIX
            if not re.fullmatch(r"(0|[1-9]\d*)" + (r"\.\d{%d}" % prec if prec else ""), body):
                return "not in fixed notation with %d digits: %s" % (prec, t)
            got = Fraction(body)
            if abs(got - val) * 2 > Fraction(10) ** -prec:
                return "value %s is not %s rounded to %d decimals" % (t, repr(x), prec)
            return None
        # GEN: at most prec significant digits, either notation
        m = re.fullmatch(r"(\d+)(?:\.(\d+))?(?:E(~?)(\d+))?", body)
        if not m:
            return "malformed %s" % t
        e10 = 0 if m.group(4) is None else (-int(m.group(4)) if m.group(3) else int(m.group(4)))
        got = Fraction(body.split("E")[0]) * Fraction(10) ** e10
        if val == 0:
            return None if body == "0" else "wrong zero " + t
        sig = (m.group(1) + (m.group(2) or "")).lstrip("0")
        if len(sig.rstrip("0")) > prec:
            return "more than %d significant digits: %s" % (prec, t)
        if abs(got - val) * 2 > Fraction(10) ** (ex - prec):
            return "value %s is not %s rounded to %d significant digits" % (t, repr(x), prec)
        if len(ds) <= prec and got != val:
            return "value %s is not exactly %s" % (t, repr(x))
        return None
    return judge


def scan_real(t):
    """(text of the number, value as Fraction or special, rest) or None"""
    i = 0
    while i < len(t) and t[i] in WS:
        i += 1
    m = re.compile(r"[+~-]?").match(t, i)
    neg = m.group(0) in ("~", "-")
    j = m.end()
    m = re.compile(r"(?:infinity|inf|nan)", re.I).match(t, j)
    if m:
        w = m.group(0).lower()
        return (("nan" if w == "nan" else "-inf" if neg else "inf"), t[m.end():])
    m = re.compile(r"([0-9]+(?:\.[0-9]*)?|\.[0-9]+)([eE][+~-]?[0-9]+)?").match(t, j)
    if not m:
        return None
    mant, ex = m.group(1), m.group(2)
    return (("-" if neg else "") + (mant.rstrip(".")) + ("e" + ex[1:].replace("~", "-") if ex else ""), t[m.end():],
            mant.endswith("."))


def dec_double(txt):
    """correctly rounded"""
    return float(txt)


def trunc17(txt):
    """the text cut to 17 significant digits"""
    m = re.fullmatch(r"(-?)([0-9]*)\.?([0-9]*)(?:e([+-]?[0-9]+))?", txt)
    sgn, w, f, e = m.groups()
    ds = (w + f)
    lead = len(ds) - len(ds.lstrip("0"))
    ds = ds.lstrip("0")
    exp = int(e or 0) - len(f)
    if len(ds) > 17:
        exp += len(ds) - 17
        ds = ds[:17]
    return "%s%se%d" % (sgn, ds or "0", exp)


def gen_dec(s):
    k = s.draw(10)
    if k <= 1:
        x = gen_real(s)
        if not math.isfinite(x):
            x = 1.5
        t = repr(abs(x))
    elif k == 2:
        x = abs(gen_real(s))
        t = ("%%.%de" % s.draw(17)) % (x if math.isfinite(x) else 2.5)
    elif k == 3:      # exactly half way between doubles, few digits
        m = (1 << 53) + 1 + 2 * s.draw(1 << 52)
        t = str(m * 5 ** s.draw(3)) + "e-%d" % s.draw(4)
        t = t if len(t) < 20 else str(m)
    elif k == 4:
        t = str(s.draw(10 ** (1 + s.draw(17)))) + "e%d" % s.int(-345, 312)
    elif k == 5:
        n = s.draw(10 ** (1 + s.draw(17)))
        q = str(n)
        i = s.draw(len(q) + 1)
        t = (q[:i] or s.choice(["0", "", "000"])) + "." + (q[i:] or "0")
        if s.draw(2):
            t += "e%d" % s.int(-330, 310)
    elif k == 6:
        t = str(s.draw(2000)) + s.choice(["", ".0", ".5", ".", ".25"])
    elif k == 7:      # more than 17 digits
        t = str(s.draw(10 ** (18 + s.draw(30)))) + s.choice(["", ".%d" % s.draw(10**6)]) + s.choice(["", "e%d" % s.int(-350, 280)])
    elif k == 8:
        t = s.choice(["0", "0.0", "000", ".0", "1e999", "1e-999", "1e99999999999999999999", "1e-99999999999999999999",
                      "4.9406564584124654e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "1.7976931348623157e308",
                      "1.7976931348623158e308", "1.7976931348623159e308", "2.2250738585072011e-308", "2.2250738585072014e-308",
                      "0e400", "0.000e-999", "3e-324", "2e-324", "5e-324", "inf", "nan", "infinity", "Inf", "NaN", "InFiNiTy", "infin", "in", "na"])
    else:
        t = s.choice(["", ".", "e5", ".e5", "1e", "1e+", "1.e5", "1..2", "1e5.5", "x", "+", "1 2", "1e~", "1E5", "12E-3x", "1.5f", "--1", "1,5"])
    if s.draw(2):
        t = t.replace("-", "~")
    if s.draw(4) == 0:
        t = t.replace("e", "E")
    pre = s.choice(["", "", "", "~", "-", "+", " ", "\n\t ", "\v\f\r~"])
    tail = s.choice(["", "", "", "x", " ", "e", ".", "E~", ".5", "-", "e+x"])
    return pre + t + tail


def text_res(t):
    r = scan_real(t)
    if r is None:
        return None
    dot_taken = len(r) > 2 and r[2]
    v = {"nan": NAN, "inf": INFY, "-inf": -INFY}.get(r[0])
    if v is None:
        v = dec_double(r[0])
        v2 = float(trunc17(r[0]))
    else:
        v2 = v
    return v, v2, r[1], dot_taken


def judge_scan(t, with_rest):
    r = text_res(t)

    def judge(ans):
        if r is None:
            return None if ans == "0" else "expected NONE, got " + ans
        v, v2, rest, dot = r
        w = norm(ans).split(" ")
        if w[0] != "1":
            return "expected %r, got %s" % (v, ans)
        if with_rest:
            got = bytes.fromhex(w[2][1:]).decode("latin-1")
            # "1." may be read as "1" leaving the point, or (as documented) with it
            if not (got == rest or dot and got == "." + rest):
                return "expected rest %r, got %r" % (rest, got)
        if w[1] == f2h(v):
            return None
        if v2 != v and w[1] == f2h(v2):
            return "TRUNC17 expected %r, got %s" % (v, h2f(w[1]))
        return "expected %r (%s), got %s" % (v, f2h(v), w[1])
    return judge


DEC = Ty("dec", None, "dec", "wdec", lambda v: "%d %d %d %s %d" % (v[0], v[1], len(v[2]), " ".join(map(str, v[2])), v[3]) if v[2] else "%d %d 0 %d" % (v[0], v[1], v[3]))


def to_dec(x):
    if x != x:
        return lambda a: None if a.split(" ")[0] == "0" else "expected NAN class, got " + a
    if math.isinf(x):
        return (1, 1 if x < 0 else 0, [], 0)
    neg, ds, ex = shortest(x)
    return (klass(x), 1 if neg else 0, [int(c) for c in ds], ex)


def gen_decapprox(s):
    c = s.draw(8)
    cl = 3 if c < 5 else [0, 1, 2][c - 5] if c < 8 else 4
    if s.draw(6) == 0:
        cl = 4
    n = s.size(0, 17)
    ds = [s.draw(10) for _ in range(n)]
    if s.draw(10) == 0 and ds:
        ds[s.draw(len(ds))] = s.choice([10, -1, 15])
    z = s.choice([0, 0, 0, 1, 3])
    ds = [0] * z + ds if len(ds) + z <= 17 else ds
    return (cl, s.draw(2), ds, s.choice([s.int(-5, 20), s.int(-345, 320)]))


def from_dec(d):
    cl, neg, ds, ex = d
    if cl == 0:
        return NAN
    if cl == 1:
        return -INFY if neg else INFY
    if cl == 2:
        return -0.0 if neg else 0.0
    if any(x < 0 or x > 9 for x in ds):
        return None
    v = float("%s0.%se%d" % ("-" if neg else "", "".join(map(str, ds)) or "0", ex))
    return v


def dec_str(d):
    cl, neg, ds, ex = d
    sg = "~" if neg else ""
    if cl == 0:
        return lambda a: None if a.startswith("s" + b"nan".hex()) else "expected nan.., got " + a
    if cl == 1:
        return sg + "inf"
    if cl == 2 or not ds:
        return sg + "0.0"
    return sg + "0." + "".join(map(str, ds)) + ("" if ex == 0 else "E" + ("~" if ex < 0 else "") + str(abs(ex)))


PRE = PRELUDE + """
fun mode () = (case C.int () of 0 => IEEEReal.TO_NEAREST | 1 => IEEEReal.TO_NEGINF | 2 => IEEEReal.TO_POSINF | _ => IEEEReal.TO_ZERO)
fun klassNum IEEEReal.NAN = 0 | klassNum IEEEReal.INF = 1 | klassNum IEEEReal.ZERO = 2 | klassNum IEEEReal.NORMAL = 3
  | klassNum IEEEReal.SUBNORMAL = 4
fun wclass c = C.wint (klassNum c)
fun numKlass () = (case C.int () of 0 => IEEEReal.NAN | 1 => IEEEReal.INF | 2 => IEEEReal.ZERO | 3 => IEEEReal.NORMAL | _ => IEEEReal.SUBNORMAL)
fun dec () = let val c = numKlass () val s = C.bool () val d = C.list C.int () val e = C.int () in {class = c, sign = s, digits = d, exp = e} end
fun wdec {class, sign, digits, exp} = (wclass class; C.wbool sign; C.wlist C.wint digits; C.wint exp)
fun rfmt () = let val k = C.int () val p = C.int () val p = if p = ~2 then NONE else SOME p
  in case k of 0 => StringCvt.EXACT | 1 => StringCvt.SCI p | 2 => StringCvt.FIX p | _ => StringCvt.GEN p end
fun rorder IEEEReal.LESS = 0 | rorder IEEEReal.EQUAL = 1 | rorder IEEEReal.GREATER = 2 | rorder IEEEReal.UNORDERED = 3
"""


def pow_oracle(x, y):
    """the special cases listed in the Basis; otherwise the usual power"""
    if y == 0:
        return 1.0
    if x != x or y != y:
        return NAN
    if math.isinf(y):
        if abs(x) == 1:
            return NAN
        return INFY if (abs(x) > 1) == (y > 0) else 0.0
    if x < 0 and math.isfinite(x) and y != math.floor(y):
        return NAN
    try:
        return math.pow(x, y)
    except OverflowError:
        odd = y == math.floor(y) and math.fmod(y, 2) != 0
        return -INFY if x < 0 and odd else INFY
    except ValueError:       # 0 to a negative power
        odd = y == math.floor(y) and math.fmod(y, 2) != 0
        return math.copysign(INFY, x) if odd else INFY


def tables():
    R = REAL
    ops = []

    def bin_(n, f, g=pairs, res=R, sml=None):
        sml = sml or "Real.%s ({0}, {1})" % n
        ops.append(Fn("Real." + n, [R, R], res, sml, f, gen=g))
        ops.append(Fn("indirect Real." + n, [R, R], res, "(indirect (Real.%s, fn _ => raise Fail \"\")) ({0}, {1})" % n, f, gen=g))
    bin_("+", lambda a, b: a + b)
    bin_("-", lambda a, b: a - b)
    bin_("*", mul)
    bin_("/", div)
    bin_("rem", zero_any(rem_))
    bin_("min", zero_any(lambda a, b: b if a != a else a if b != b else min(a, b)))
    bin_("max", zero_any(lambda a, b: b if a != a else a if b != b else max(a, b)))
    bin_("copySign", lambda a, b: math.copysign(a, b) if b == b else (_ for _ in ()).throw(Any()))
    bin_("nextAfter", zero_any(lambda a, b: (_ for _ in ()).throw(Any()) if math.isinf(a) and b != b else nextafter(a, b)))
    for n, f in (("<", lambda a, b: a < b), ("<=", lambda a, b: a <= b), (">", lambda a, b: a > b), (">=", lambda a, b: a >= b),
                 ("==", lambda a, b: a == b), ("!=", lambda a, b: not (a == b)),
                 ("?=", lambda a, b: a == b or a != a or b != b), ("unordered", lambda a, b: a != a or b != b)):
        bin_(n, f, res=BOOL)
        ops.append(Fn("branch on Real." + n, [R, R], INT, "if Real.%s ({0}, {1}) then 7 else 8" % n,
                      lambda a, b, f=f: 7 if f(a, b) else 8, gen=pairs))
        ops.append(Fn("branch on not Real." + n, [R, R], INT, "if not (Real.%s ({0}, {1})) then 7 else 8" % n,
                      lambda a, b, f=f: 8 if f(a, b) else 7, gen=pairs))
    ops.append(Fn("Real.compare", [R, R], ORDER, "Real.compare", cmpr, gen=pairs))
    ops.append(Fn("Real.compareReal", [R, R], INT, "rorder (Real.compareReal ({0}, {1}))",
                  lambda a, b: 3 if a != a or b != b else 1 + (a > b) - (a < b), gen=pairs))
    ops.append(Fn("Real.sameSign", [R, R], BOOL, "Real.sameSign", lambda a, b: isneg(a) == isneg(b) if a == a and b == b else (_ for _ in ()).throw(Any()), gen=pairs))
    ops.append(Fn("Real.~", [R], R, "Real.~", lambda a: -a))
    ops.append(Fn("Real.abs", [R], R, "Real.abs", abs))
    ops.append(Fn("top-level abs", [R], R, "(fn (x : real) => abs x)", abs))
    ops.append(Fn("Real.signBit", [R], BOOL, "Real.signBit", lambda a: isneg(a) if a == a else (_ for _ in ()).throw(Any())))

    def sign(a):
        if a != a:
            raise Exn("Domain")
        return (a > 0) - (a < 0)
    ops.append(Fn("Real.sign", [R], INT, "Real.sign", sign))
    ops.append(Fn("Real.isFinite", [R], BOOL, "Real.isFinite", math.isfinite))
    ops.append(Fn("Real.isNan", [R], BOOL, "Real.isNan", lambda a: a != a))
    ops.append(Fn("Real.isNormal", [R], BOOL, "Real.isNormal", lambda a: klass(a) == 3))
    ops.append(Fn("Real.class", [R], CLASS, "Real.class", klass))
    ops.append(Fn("Real.toManExp", [R], PAIR(R, INT), "let val {man, exp} = Real.toManExp {0} in (man, exp) end", manexp))
    gm = lambda s: (gen_real(s), s.choice([s.int(-60, 60), s.int(-1200, 1200), s.int(-2200, 2200), s.int(-1100, -1000)]))
    ops.append(Fn("Real.fromManExp", [R, INT], R, "Real.fromManExp {man = {0}, exp = {1}}", ldexp_exact, gen=gm, weight=2))
    ops.append(Fn("man-exp round trip", [R], R, "Real.fromManExp (Real.toManExp {0})", lambda a: a))
    ops.append(Fn("Real.split", [R], PAIR(R, R), "let val {whole, frac} = Real.split {0} in (whole, frac) end", split_, gen=lambda s: (near_int(s),)))
    ops.append(Fn("Real.realMod", [R], R, "Real.realMod", lambda a: split_(a)[1], gen=lambda s: (near_int(s),)))
    ops.append(Fn("Real.checkFloat", [R], R, "Real.checkFloat",
                  lambda a: a if math.isfinite(a) else (_ for _ in ()).throw(Exn("Div" if a != a else "Overflow"))))
    nr = lambda s: (near_int(s),)
    for n, f in (("realFloor", math.floor), ("realCeil", math.ceil), ("realTrunc", math.trunc), ("realRound", rnd)):
        ops.append(Fn("Real." + n, [R], R, "Real." + n, realint(f), gen=nr, weight=2))
    for n, f in (("floor", math.floor), ("ceil", math.ceil), ("trunc", math.trunc), ("round", rnd)):
        ops.append(Fn("Real." + n, [R], INT, "Real." + n, toint(f), gen=nr, weight=2))
        ops.append(Fn("top-level " + n, [R], INT, "(fn (x : real) => %s x)" % n, toint(f), gen=nr, weight=2))
    ops.append(Fn("Real.toInt", [MODE, R], INT, "Real.toInt {0} {1}", lambda m, x: toint(MODES[m][1])(x), gen=lambda s: (s.draw(4), near_int(s)), weight=2))
    ops.append(Fn("Real.toLargeInt", [MODE, R], INF, "Real.toLargeInt {0} {1}", lambda m, x: toint(MODES[m][1], None)(x),
                  gen=lambda s: (s.draw(4), near_int(s)), weight=3))

    def i2f(v):
        return f2d(Fraction(v))
    ints = lambda s: (s.choice([edge_int(s, -2**62, 2**62 - 1), s.choice([1, -1]) * ((1 << (53 + s.draw(9))) + s.int(-3, 3) * (1 << s.draw(9)))]),)
    ints2 = lambda s: (max(-2**62, min(2**62 - 1, ints(s)[0])),)
    ops.append(Fn("Real.fromInt", [INT], R, "Real.fromInt", i2f, gen=ints2, weight=2))
    ops.append(Fn("top-level real", [INT], R, "(fn (x : int) => real x)", i2f, gen=ints2))

    def bigs(s):
        k = s.draw(4)
        if k == 0:
            return (gen_inf(s, 1100),)
        e = s.draw(1000)
        m = (1 << 53) + s.draw(1 << 53)           # 54 bits: halfway cases
        v = (m << e) + s.choice([0, 1, -1, 1 << s.draw(e + 1)])
        return (v if s.draw(2) else -v,)
    ops.append(Fn("Real.fromLargeInt", [INF], R, "Real.fromLargeInt", i2f, gen=bigs, weight=3))
    ops.append(Fn("Real.*+", [R, R, R], R, "Real.*+ ({0}, {1}, {2})",
                  lambda a, b, c: (lambda p, q: (lambda ans: None if norm(ans) in (f2h(p), q) else "expected %s, got %s" % (f2h(p), ans)))(a * b + c, f2h(fma(a, b, c)))))
    ops.append(Fn("Real.*-", [R, R, R], R, "Real.*- ({0}, {1}, {2})",
                  lambda a, b, c: (lambda p, q: (lambda ans: None if norm(ans) in (f2h(p), q) else "expected %s, got %s" % (f2h(p), ans)))(a * b - c, f2h(fma(a, b, -c)))))
    ops.append(Fn("Real constants", [], LIST(R), "[Real.maxFinite, Real.minPos, Real.minNormalPos, Real.posInf, Real.negInf, Math.pi, Math.e]",
                  lambda: [1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, INFY, -INFY, math.pi, math.e]))
    ops.append(Fn("Real.radix precision", [], PAIR(INT, INT), "(Real.radix, Real.precision)", lambda: (2, 53)))
    # expressions of several operations (register pressure, spilling of floats, constant operands)
    ops.append(Fn("expression", [R, R, R], R, "(({0} + {1}) * ({1} - {2})) / (({0} * {2}) - 1.5) + ~{1}",
                  lambda a, b, c: div((a + b) * (b - c), (a * c) - 1.5) + -b))
    ops.append(Fn("real array sum", [LIST(R)], R, "let val a = RealArray.fromList {0} in RealArray.foldl (op +) 0.0 a end",
                  lambda l: _sum(l)))
    ops.append(Fn("PackReal64 round trip", [R], R, "PackReal64Little.fromBytes (PackReal64Little.toBytes {0})", lambda a: a))

    txt = []
    txt.append(Fn("Real.fmt", [FMTS, R], STR, "Real.fmt {0} {1}", lambda k, x: judge_fmt(k, x), gen=gen_fmtreal, weight=8))
    txt.append(Fn("Real.toString", [R], STR, "Real.toString", lambda x: judge_fmt((3, 12), x), weight=3))
    txt.append(Fn("EXACT round trip", [R], OPT(R), "Real.fromString (Real.fmt StringCvt.EXACT {0})", lambda x: x, weight=4))
    txt.append(Fn("17 digit round trip", [R], OPT(R), "Real.fromString (Real.fmt (StringCvt.SCI (SOME 16)) {0})", lambda x: x, weight=3))
    txt.append(Fn("GEN 17 round trip", [R], OPT(R), "Real.fromString (Real.fmt (StringCvt.GEN (SOME 17)) {0})", lambda x: x, weight=2))
    txt.append(Fn("Real.fromString", [STR], OPT(R), "Real.fromString", lambda t: judge_scan(t, False), gen=lambda s: (gen_dec(s),), weight=8))
    txt.append(Fn("Real.scan", [STR], OPT(PAIR(R, STR)), "viaScan Real.scan {0}", lambda t: judge_scan(t, True), gen=lambda s: (gen_dec(s),), weight=5))
    txt.append(Fn("Real.scan list", [STR], OPT(PAIR(R, STR)), "viaList Real.scan {0}", lambda t: judge_scan(t, True), gen=lambda s: (gen_dec(s),), weight=2))
    txt.append(Fn("Real.toDecimal", [R], DEC, "Real.toDecimal", to_dec, weight=3))
    txt.append(Fn("Real.fromDecimal", [DEC], OPT(R), "Real.fromDecimal", lambda d: from_dec(d), gen=lambda s: (gen_decapprox(s),), weight=3))
    txt.append(Fn("decimal round trip", [R], OPT(R), "Real.fromDecimal (Real.toDecimal {0})", lambda x: x, weight=2))
    txt.append(Fn("IEEEReal.toString", [DEC], STR, "IEEEReal.toString",
                  lambda d: dec_str(d) if all(0 <= x <= 9 for x in d[2]) else (_ for _ in ()).throw(Any()), gen=lambda s: (gen_decapprox(s),)))
    txt.append(Fn("IEEEReal text round trip", [R], OPT(R), "Option.mapPartial Real.fromDecimal (IEEEReal.fromString (IEEEReal.toString (Real.toDecimal {0})))",
                  lambda x: x))

    M = []
    big = lambda f: (lambda x: NAN if math.isinf(x) else f(x))
    small = lambda s: (s.choice([gen_real(s), s.int(-1000, 1000) / 64.0, (s.draw(1 << 53) / 2.0 ** 53 - 0.5) * s.choice([1, 2, 8, 40, 200])]),)
    M.append(Fn("Math.sqrt", [R], R, "Math.sqrt", safe(lambda x: NAN if x < 0 else math.sqrt(x)), weight=3))

    def lim(f, l):
        def g(x):
            if math.isfinite(x) and abs(x) > l:
                raise Any()
            return f(x)
        return g
    M.append(Fn("Math.sin", [R], R, "Math.sin", lim(approx(big(math.sin), 1e-9, 1e-12), 1e3), gen=small))
    M.append(Fn("Math.cos", [R], R, "Math.cos", lim(approx(big(math.cos), 1e-9, 1e-12), 1e3), gen=small))

    def tan(x):
        if math.isinf(x):
            return NAN
        if abs(math.cos(x)) < 1e-3:
            raise Any()
        return math.tan(x)
    M.append(Fn("Math.tan", [R], R, "Math.tan", lim(approx(tan, 1e-9, 1e-9), 1e3), gen=small))
    M.append(Fn("Math.asin", [R], R, "Math.asin", approx(safe(math.asin), 1e-7, 1e-9), gen=small))
    M.append(Fn("Math.acos", [R], R, "Math.acos", approx(safe(math.acos), 1e-7, 1e-9), gen=small))
    M.append(Fn("Math.atan", [R], R, "Math.atan", approx(math.atan, 1e-13), gen=small))
    M.append(Fn("Math.atan2", [R, R], R, "Math.atan2", approx(math.atan2, 1e-12), gen=lambda s: small(s) + small(s)))
    M.append(Fn("Math.exp", [R], R, "Math.exp", approx(safe(math.exp), 1e-13, 1e-307), gen=small))
    M.append(Fn("Math.ln", [R], R, "Math.ln", approx(lambda x: NAN if x < 0 or x != x else -INFY if x == 0 else math.log(x), 1e-13, 1e-16), gen=lambda s: (gen_real(s),)))
    M.append(Fn("Math.log10", [R], R, "Math.log10", approx(lambda x: NAN if x < 0 or x != x else -INFY if x == 0 else math.log10(x), 1e-12, 1e-16), gen=lambda s: (gen_real(s),)))
    M.append(Fn("Math.sinh", [R], R, "Math.sinh", lim(approx(lambda x: math.copysign(safe(math.sinh)(abs(x)), x), 1e-9, 1e-9), 708), gen=small))
    M.append(Fn("Math.cosh", [R], R, "Math.cosh", lim(approx(safe(math.cosh), 1e-9, 1e-9), 708), gen=small))
    M.append(Fn("Math.tanh", [R], R, "Math.tanh", approx(math.tanh, 1e-9, 1e-9), gen=small))

    def gpow(s):
        k = s.draw(5)
        if k == 0:
            return (gen_real(s), gen_real(s))
        if k == 1:
            return (float(s.int(-12, 12)), float(s.int(-20, 20)))
        if k == 2:
            return (s.choice([0.0, -0.0, 1.0, -1.0, INFY, -INFY, NAN, 0.5, -0.5, 2.0, -2.0]),
                    s.choice([0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 3.0, -3.0, INFY, -INFY, NAN, 0.5, -0.5, 1e300, -1e300, 9007199254740993.0]))
        return (s.draw(1 << 30) / 2.0 ** s.draw(31), s.int(-4000, 4000) / 128.0)
    M.append(Fn("Math.pow", [R, R], R, "Math.pow", approx(pow_oracle, 1e-9, 1e-306), gen=gpow, weight=3))
    return ops, txt, M


def _sum(l):
    a = 0.0
    for x in l:
        a = x + a
    return a


def fma(a, b, c):
    if not (math.isfinite(a) and math.isfinite(b) and math.isfinite(c)):
        return a * b + c
    v = Fraction(a) * Fraction(b) + Fraction(c)
    if v == 0:
        return a * b + c
    return f2d(v)


# ---------------------------------------------------------------- literals in programs

def lit(x):
    """an SML literal that denotes the double"""
    if x != x:
        return "(0.0 / 0.0)"
    if math.isinf(x):
        return "(1.0 / 0.0)" if x > 0 else "(~1.0 / 0.0)"
    r = repr(abs(x))
    if "e" in r:
        m, e = r.split("e")
        if "." not in m:
            m += ".0"
        r = m + "E" + e.replace("-", "~").replace("+", "")
    return ("~" if isneg(x) else "") + r


def gen_lits(s):
    k = s.draw(3)
    if k == 0:
        n = s.draw(10 ** (1 + s.draw(17)))
        q = str(n)
        i = 1 + s.draw(len(q))
        t = q[:i] + ("." + q[i:] if q[i:] else "")
        e = s.choice([None, s.int(-30, 30), s.int(-340, 308)])
        if "." not in t and e is None:
            t += ".0"
        if e is not None:
            t += s.choice("eE") + str(e)
        v = float(t.replace("E", "e"))
        if math.isinf(v):
            t, v = "1.0", 1.0
        t = s.choice(["", "~"]) + t
        v = -v if t[0] == "~" else v
        t = t.replace("-", "~")
    else:
        v = gen_real(s)
        if not math.isfinite(v):
            v = 2.5
        t = lit(v)
    x = gen_real(s)
    op = s.choice("+-*/<")
    return (t, v, x, op, s.draw(2))


def lits_render(c, i):
    t, v, x, op, sw = c
    d = "val x%d = ref (%s)\n" % (i, lit(x))
    e = "(%s) %s (!x%d)" % (t, op, i) if sw else "(!x%d) %s (%s)" % (i, op, t)
    w = "C.wbool" if op == "<" else "C.wreal"
    d += "fun t%d () = (C.wreal (%s); %s (%s))" % (i, t, w, e)
    return d, "t%d" % i


def lits_expect(c):
    t, v, x, op, sw = c
    a, b = (v, x) if sw else (x, v)
    r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: div(a, b), "<": lambda: a < b}[op]()
    return f2h(v) + " " + (("1" if r else "0") if op == "<" else f2h(r))


def known(c, m):
    if "TRUNC17" in m:
        return "C04-trunc17"
    return None


def parts():
    ops, txt, M = tables()
    return [table_part("operations", ops, prelude=PRE, n=(400000, 6000000), isreal=True),
            table_part("text", txt, prelude=PRE, n=(160000, 3000000), isreal=True, known=known),
            table_part("elementary functions", M, prelude=PRE, n=(60000, 1000000), isreal=True),
            pbt.Part("literals", gen_lits, evaluate=prog.batch_eval(lits_render, lits_expect, post=norm), n=(6000, 60000), batch=150,
                     show=lambda c: repr(c), key=lambda c: (c[0], c[2], c[3]))]


if __name__ == "__main__":
    pbt.main("C04", "one Real/Math/IEEEReal operation per case on doubles of all classes (special values, subnormals, halfway and "
             "neighbouring values, exponent limits) or on decimal texts; programs with real literals. Every distinct case counts.",
             parts, ["oracle: CPython doubles (IEEE binary64), exact rationals, CPython's correctly rounded decimal conversion",
                     "elementary functions other than sqrt are compared with a tolerance, as the Basis does not require correct rounding",
                     "formatting is judged on the shortest decimal that identifies the double, rounded; on a tie either neighbour is accepted"])
