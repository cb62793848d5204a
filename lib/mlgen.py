"""Generator of closed, well-typed, terminating core programs, with a reference interpreter and a renderer to SML.
A program is a list of bindings; its outcome is the trace of the values it emits and, possibly, an uncaught exception."""
import math, struct

INTS = {"int": 63, "i32": 32, "i64": 64}
WORDS = {"word": 63, "w8": 8, "w32": 32, "w64": 64}
SMLT = {"int": "int", "i32": "Int32.int", "i64": "Int64.int", "inf": "IntInf.int", "word": "word", "w8": "Word8.word", "w32": "Word32.word", "w64": "Word64.word",
        "real": "real", "str": "string", "char": "char", "bool": "bool", "unit": "unit"}
STRU = {"int": "Int", "i32": "Int32", "i64": "Int64", "inf": "IntInf", "word": "Word", "w8": "Word8", "w32": "Word32", "w64": "Word64"}
NUM = list(INTS) + list(WORDS) + ["inf", "real"]
BASE = ["int", "int", "int", "real", "str", "bool", "i64", "i32", "word", "w8", "w32", "w64", "inf", "char", "unit"]
T_INT, T_BOOL, T_UNIT, T_STR, T_REAL = ("int",), ("bool",), ("unit",), ("str",), ("real",)


class MLExn(Exception):
    def __init__(self, name, val=None):
        self.name, self.val = name, val


class Throw(Exception):
    def __init__(self, k, v):
        self.k, self.v = k, v


class Fuel(Exception):
    pass


class Ref:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Arr:
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = l


class Con:
    __slots__ = ("c", "a")

    def __init__(self, c, a=None):
        self.c, self.a = c, a


def tystr(t):
    k = t[0]
    if k in SMLT:
        return SMLT[k]
    if k == "tup":
        return "(" + " * ".join(tystr(x) for x in t[1]) + ")"
    if k == "rec":
        return "{" + ", ".join("%s : %s" % (l, tystr(x)) for l, x in t[1]) + "}"
    if k in ("list", "opt", "vec", "arr", "ref"):
        return "%s %s" % (tystr(t[1]), {"list": "list", "opt": "option", "vec": "vector", "arr": "array", "ref": "ref"}[k])
    if k == "fun":
        return "(%s -> %s)" % (tystr(t[1]), tystr(t[2]))
    if k == "dt":
        return t[1]
    raise ValueError(t)


def is_eq(t, prog):
    k = t[0]
    if k in ("real", "fun"):
        return False
    if k == "tup":
        return all(is_eq(x, prog) for x in t[1])
    if k == "rec":
        return all(is_eq(x, prog) for _, x in t[1])
    if k in ("list", "opt", "vec"):
        return is_eq(t[1], prog)
    if k == "dt":
        return prog.dts[t[1]]["eq"]
    return True


def equal(t, a, b, prog):
    k = t[0]
    if k == "tup":
        return all(equal(x, p, q, prog) for x, p, q in zip(t[1], a, b))
    if k == "rec":
        return all(equal(x, p, q, prog) for (_, x), p, q in zip(t[1], a, b))
    if k in ("list", "vec"):
        return len(a) == len(b) and all(equal(t[1], p, q, prog) for p, q in zip(a, b))
    if k == "opt":
        return (a is None) == (b is None) and (a is None or equal(t[1], a[0], b[0], prog))
    if k in ("ref", "arr"):
        return a is b
    if k == "dt":
        if a.c != b.c:
            return False
        at = prog.dts[t[1]]["cons"][a.c][1]
        return at is None or equal(at, a.a, b.a, prog)
    return a == b


# ------------------------------------------------------------------ literals
def strlit(b):
    o = []
    for c in b:
        if c in (34, 92):
            o.append("\\" + chr(c))
        elif 32 <= c < 127:
            o.append(chr(c))
        else:
            o.append("\\%03d" % c)
    return '"' + "".join(o) + '"'


def neg(s):
    return s.replace("-", "~")


def reallit(v):
    r = repr(v)
    if "e" in r:
        m, e = r.split("e")
        if "." not in m:
            m += ".0"
        return neg(m + "e" + str(int(e)))
    return neg(r)


def lit(t, v, ann=True):
    k = t[0]
    if k in INTS or k == "inf":
        s = neg(str(v))
        return s if k == "int" else "(%s : %s)" % (s, SMLT[k])
    if k in WORDS:
        s = "0w%d" % v if v % 3 else "0wx%x" % v
        return s if k == "word" else "(%s : %s)" % (s, SMLT[k])
    if k == "real":
        if v != v or v in (math.inf, -math.inf):
            raise ValueError
        return "(%s)" % reallit(v)
    if k == "str":
        return strlit(v)
    if k == "char":
        return "#" + strlit(bytes([v]))
    if k == "bool":
        return "true" if v else "false"
    if k == "unit":
        return "()"
    raise ValueError(t)


def g_lit(s, t):
    k = t[0]
    if k in INTS:
        w = INTS[k]
        c = s.draw(8)
        if c < 4:
            return s.int(-20, 30)
        if c == 4:
            return s.choice([(1 << (w - 1)) - 1, -(1 << (w - 1)), (1 << (w - 1)) - 2, 1 - (1 << (w - 1))])
        if c == 5:
            v = (1 << s.draw(w - 1)) + s.int(-1, 1)
            return -v if s.draw(2) else v
        return s.int(-(1 << (w - 1)), (1 << (w - 1)) - 1) if s.draw(2) else s.int(-100000, 100000)
    if k in WORDS:
        w = WORDS[k]
        c = s.draw(6)
        if c < 3:
            return s.draw(min(40, 1 << w))
        if c == 3:
            return (1 << w) - 1 - s.draw(3)
        if c == 4:
            return (1 << s.draw(w))
        return s.draw(1 << w)
    if k == "inf":
        c = s.draw(5)
        if c < 2:
            return s.int(-50, 50)
        v = s.draw(1 << s.choice([30, 31, 62, 63, 64, 65, 128, 200, 700]))
        return -v if s.draw(2) else v
    if k == "real":
        c = s.draw(6)
        if c < 3:
            return float(s.int(-20, 40)) / s.choice([1, 2, 4, 10, 3])
        if c == 3:
            return s.choice([0.0, 1e308, 5e-324, 1e-300, 0.1, 1.5e10, 123456789.123, 2.0 ** 62, 2.0 ** 53 + 2])
        m = s.draw(1 << 52)
        return struct.unpack("<d", struct.pack("<Q", m | (s.int(900, 1150) << 52) | (s.draw(2) << 63)))[0]
    if k == "str":
        n = s.choice([0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 31, 60])
        c = s.draw(3)
        if c == 0:
            return bytes([97 + s.draw(26)]) * n
        return bytes(s.draw(256) for _ in range(n)) if c == 1 and n < 20 else bytes((97 + i % 26) for i in range(n))
    if k == "char":
        return s.draw(256)
    if k == "bool":
        return bool(s.draw(2))
    if k == "unit":
        return ()


# ------------------------------------------------------------------ show
def show_val(t, v, prog):
    k = t[0]
    if k in INTS or k in WORDS or k == "inf":
        return str(v)
    if k == "real":
        return "nan" if v != v else struct.pack(">d", v).hex()
    if k == "str":
        return "s" + v.hex()
    if k == "char":
        return "c%d" % v
    if k == "bool":
        return "t" if v else "f"
    if k == "unit":
        return "u"
    if k == "tup":
        return "(" + ",".join(show_val(x, y, prog) for x, y in zip(t[1], v)) + ")"
    if k == "rec":
        return "{" + ",".join(show_val(x, y, prog) for (_, x), y in zip(t[1], v)) + "}"
    if k in ("list", "vec"):
        return "[" + "".join(show_val(t[1], y, prog) + ";" for y in v) + "]"
    if k == "arr":
        return "[" + "".join(show_val(t[1], y, prog) + ";" for y in v.l) + "]"
    if k == "opt":
        return "N" if v is None else "S" + show_val(t[1], v[0], prog)
    if k == "ref":
        return "r" + show_val(t[1], v.v, prog)
    if k == "fun":
        return "fn"
    if k == "dt":
        at = prog.dts[t[1]]["cons"][v.c][1]
        return "<%s>" % v.c if at is None else "<%s %s>" % (v.c, show_val(at, v.a, prog))
    raise ValueError(t)


def sh(t):
    """an SML expression for the show function of a type"""
    k = t[0]
    if k == "int":
        return "S.int"
    if k in ("i32", "i64", "inf", "word", "w8", "w32", "w64", "real", "str", "char", "bool", "unit"):
        return "S." + k
    if k == "tup":
        n = len(t[1])
        return "(fn (%s) => S.par [%s])" % (", ".join("a%d" % i for i in range(n)), ", ".join("%s a%d" % (sh(x), i) for i, x in enumerate(t[1])))
    if k == "rec":
        return "(fn {%s} => S.bra [%s])" % (", ".join("%s = a%d" % (l, i) for i, (l, _) in enumerate(t[1])), ", ".join("%s a%d" % (sh(x), i) for i, (_, x) in enumerate(t[1])))
    if k in ("list", "vec", "arr", "opt", "ref"):
        return "(S.%s %s)" % (k, sh(t[1]))
    if k == "fun":
        return "S.func"
    if k == "dt":
        return "sh_" + t[1]
    raise ValueError(t)


PRELUDE = r"""
structure S = struct
  fun neg s = String.map (fn #"~" => #"-" | c => c) s
  fun int i = neg (Int.toString i) fun i32 i = neg (Int32.toString i) fun i64 i = neg (Int64.toString i) fun inf i = neg (IntInf.toString i)
  fun word w = Word.fmt StringCvt.DEC w fun w8 w = Word8.fmt StringCvt.DEC w fun w32 w = Word32.fmt StringCvt.DEC w fun w64 w = Word64.fmt StringCvt.DEC w
  fun hx s = String.concat (map (fn c => StringCvt.padLeft #"0" 2 (String.map Char.toLower (Int.fmt StringCvt.HEX (ord c)))) (explode s))
  fun real r = if Real.isNan r then "nan" else hx (Byte.bytesToString (PackReal64Big.toBytes r))
  fun str s = "s" ^ hx s fun char c = "c" ^ Int.toString (ord c) fun bool b = if b then "t" else "f" fun unit () = "u"
  fun par l = "(" ^ String.concatWith "," l ^ ")" fun bra l = "{" ^ String.concatWith "," l ^ "}"
  fun list f l = "[" ^ String.concat (map (fn x => f x ^ ";") l) ^ "]"
  fun vec f v = list f (Vector.foldr (op ::) [] v) fun arr f a = list f (Array.foldr (op ::) [] a)
  fun opt f NONE = "N" | opt f (SOME x) = "S" ^ f x
  fun ref' f (ref x) = "r" ^ f x
  fun func _ = "fn"
  val tr : string list ref = ref []
  fun emit s = tr := s :: !tr
  exception E0 exception E1 of int exception E2 of string * real exception E3 of Int64.int
  fun exn e = (case e of E0 => "E0" | E1 n => "E1:" ^ int n | E2 (s, r) => "E2:" ^ par [str s, real r] | E3 n => "E3:" ^ i64 n | Fail s => "Fail:" ^ str s | _ => exnName e)
  fun run f = (f () : unit) handle e => emit ("!" ^ exn e)
  fun prog f = (tr := []; (use f) handle _ => emit "!"; print ("\n=>" ^ String.concatWith " " (rev (!tr)) ^ "\n"))
end;
exception E0 = S.E0 exception E1 = S.E1 exception E2 = S.E2 exception E3 = S.E3;
structure Op = struct
  fun int (i : int) = !(ref i) fun i32 (i : Int32.int) = !(ref i) fun i64 (i : Int64.int) = !(ref i) fun inf (i : IntInf.int) = !(ref i)
  fun word (i : word) = !(ref i) fun w8 (i : Word8.word) = !(ref i) fun w32 (i : Word32.word) = !(ref i) fun w64 (i : Word64.word) = !(ref i)
  fun real (i : real) = !(ref i) fun str (i : string) = !(ref i) fun char (i : char) = !(ref i) fun bool (i : bool) = !(ref i) fun unit () = ()
end;
structure P = struct fun id x = x fun fst (a, _) = a fun snd (_, b) = b fun swap (a, b) = (b, a) fun const a _ = a fun twice f x = f (f x) end;
"""
# "ref" is an identifier bound by the initial basis: its show function has another name
def _fix(x):
    return x.replace("(S.ref ", "(S.ref' ")


EXNS = {"E0": None, "E1": T_INT, "E2": ("tup", [T_STR, T_REAL]), "E3": ("i64",), "Fail": T_STR}


def show_exn(e, prog):
    if e.name in EXNS:
        t = EXNS[e.name]
        return e.name if t is None else e.name + ":" + show_val(t, e.val, prog)
    return e.name


# ------------------------------------------------------------------ primitive operations
def ovf(k, v):
    w = INTS[k]
    if not -(1 << (w - 1)) <= v < (1 << (w - 1)):
        raise MLExn("Overflow")
    return v


def idiv(a, b):
    if b == 0:
        raise MLExn("Div")
    return a // b


def imod(a, b):
    if b == 0:
        raise MLExn("Div")
    return a - b * (a // b)


def iquot(a, b):
    if b == 0:
        raise MLExn("Div")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def irem(a, b):
    return a - b * iquot(a, b)


def fdiv(a, b):
    if b == 0:
        if a != a or a == 0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def fmul(a, b):
    return a * b


BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "div": idiv, "mod": imod, "quot": iquot, "rem": irem}
CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def ashift(a, n, w):
    v = a - (1 << w) if a >> (w - 1) else a
    return (v >> min(n, w)) & ((1 << w) - 1)


def prim(op, k, a, b=None):
    if op in CMP:
        return CMP[op](a, b)
    if k in INTS:
        if op == "~":
            return ovf(k, -a)
        if op == "abs":
            return ovf(k, abs(a))
        if op == "min":
            return min(a, b)
        if op == "max":
            return max(a, b)
        r = BIN[op](a, b)
        return ovf(k, r)
    if k == "inf":
        if op == "~":
            return -a
        if op == "abs":
            return abs(a)
        if op == "min":
            return min(a, b)
        if op == "max":
            return max(a, b)
        return BIN[op](a, b)
    if k in WORDS:
        w = WORDS[k]
        m = (1 << w) - 1
        if op == "notb":
            return a ^ m
        if op == "~":
            return -a & m
        if op == "andb":
            return a & b
        if op == "orb":
            return a | b
        if op == "xorb":
            return a ^ b
        if op == "<<":
            return (a << b) & m if b < w else 0
        if op == ">>":
            return a >> b if b < w else 0
        if op == "~>>":
            return ashift(a, b, w)
        return BIN[op](a, b) & m
    if k == "real":
        if op == "~":
            return -a
        if op == "/":
            return fdiv(a, b)
        return BIN[op](a, b)
    raise ValueError(op)


def conv(a, frm, to):
    """value of a conversion"""
    if frm in WORDS and to in WORDS:
        return a & ((1 << WORDS[to]) - 1)
    if to in WORDS:
        return a & ((1 << WORDS[to]) - 1)
    if to == "inf":
        return a
    if to in INTS:
        return ovf(to, a)
    raise ValueError


def conv_text(x, frm, to):
    if frm in WORDS and to in WORDS:
        return "(%s.fromLarge (%s.toLarge %s))" % (STRU[to], STRU[frm], x)
    if frm in WORDS:
        return "(%s.fromLarge (%s.toLargeInt %s))" % (STRU[to], STRU[frm], x)
    if to in WORDS:
        return "(%s.fromLargeInt (%s.toLarge %s))" % (STRU[to], STRU[frm], x)
    return "(%s.fromLarge (%s.toLarge %s))" % (STRU[to], STRU[frm], x)


# ------------------------------------------------------------------ generation
class Prog:
    """one generated program: datatypes, bindings (patterns/functions), and the mode in which it is presented"""

    def __init__(self, s):
        self.s = s
        self.dts = {}
        self.nv = 0
        self.size = 0
        self.out = []          # top-level declarations: ("val", name, ty, expr) | ("fun", [..]) | ("emit", ty, expr)
        self.limit = 60 + s.size(0, 500)
        for i in range(s.draw(3)):
            self.g_dt(i)
        env = []
        for i in range(2 + s.size(0, 12)):
            d, new = self.g_dec(env, 3, top=True)
            self.out.append(d)
            env = env + new
        # observe everything bound at top level
        for n, t in env:
            if t[0] != "fun":
                self.out.append(("emit", t, ("var", n)))
        self.mode = s.weighted([(3, "struct"), (2, "units"), (2, "let"), (2, "functor")])

    def fresh(self, p="v"):
        self.nv += 1
        return "%s%d" % (p, self.nv)

    # -------------------------------------------------------------- types
    def g_dt(self, i):
        s = self.s
        name = "d%d" % i
        self.dts[name] = None
        n = 1 + s.choice([0, 1, 2, 3, 4, 6, 9])
        cons = {}
        for j in range(n):
            k = s.draw(6)
            if k < 2:
                at = None
            elif k == 2 and j > 0:        # recursive
                at = s.choice([("tup", [("dt", name), self.g_ty(1)]), ("dt", name), ("list", ("dt", name)), ("tup", [("dt", name), ("dt", name)])])
            else:
                at = self.g_ty(2, dts=i > 0)
            cons["K%d_%d" % (i, j)] = (j, at)
        if all(self.mentions(a, name) for _, a in cons.values() if a is not None) and all(a is not None for _, a in cons.values()):
            cons["K%d_%d" % (i, n)] = (n, None)
        self.dts[name] = {"cons": cons, "eq": True}
        # fixpoint of equality
        self.dts[name]["eq"] = all(a is None or is_eq(a, self) for _, a in cons.values())

    def mentions(self, t, name):
        k = t[0]
        if k == "dt":
            return t[1] == name
        if k == "tup":
            return any(self.mentions(x, name) for x in t[1])
        if k == "rec":
            return any(self.mentions(x, name) for _, x in t[1])
        if k in ("list", "opt", "vec", "arr", "ref"):
            return self.mentions(t[1], name)
        if k == "fun":
            return self.mentions(t[1], name) or self.mentions(t[2], name)
        return False

    def g_ty(self, d, dts=True, fn=False):
        s = self.s
        k = s.draw(10) if d > 0 else 0
        if k < 5:
            return (s.choice(BASE),)
        if k == 5:
            return ("tup", [self.g_ty(d - 1, dts) for _ in range(2 + s.choice([0, 0, 1, 2, 4]))])
        if k == 6:
            n = 1 + s.choice([1, 0, 2, 3, 5])
            return ("rec", [(l, self.g_ty(d - 1, dts)) for l in ["a", "b", "c", "d", "e", "f"][:n]])
        if k == 7:
            return (s.choice(["list", "opt", "list", "vec"]), self.g_ty(d - 1, dts))
        if k == 8:
            ok = [n for n, v in self.dts.items() if v] if dts else []
            return ("dt", s.choice(ok)) if ok else T_INT
        if fn and s.draw(2):
            return ("fun", self.g_ty(d - 1, dts), self.g_ty(d - 1, dts))
        return (s.choice(["ref", "arr"]), self.g_ty(d - 1, dts))

    # -------------------------------------------------------------- declarations
    def g_dec(self, env, d, top=False):
        s = self.s
        k = s.weighted([(6, "val"), (5, "fun"), (2, "pat"), (3, "rec"), (2, "emit"), (1, "many")])
        if k == "val":
            t = self.g_ty(2, fn=True)
            n = self.fresh()
            return ("val", n, t, self.g(t, env, d)), [(n, t)]
        if k == "pat":
            t = self.g_ty(2)
            bs = []
            p = self.g_pat(t, 2, bs, irref=s.draw(3) > 0)
            return ("pat", p, t, self.g(t, env, d)), bs
        if k == "emit":
            t = self.g_ty(1)
            return ("emit", t, self.g(t, env, d)), []
        if k == "many":         # a large number of values alive at once
            ns = []
            ds = []
            e2 = list(env)
            for _ in range(8 + s.draw(26)):
                t = (s.choice(["int", "int", "real", "i64", "word", "w64", "i32", "str"]),)
                n = self.fresh()
                ds.append(("val", n, t, self.g(t, e2, 1)))
                e2.append((n, t))
                ns.append((n, t))
            n = self.fresh()
            t = ("tup", [t for _, t in ns])
            return ("local", ds, ("val", n, t, ("tuple", [("var", x) for x, _ in ns]))), [(n, t)]
        if k == "fun":
            f = self.fresh("f")
            np = 1 + s.choice([0, 0, 1, 2, 3, 5, 8, 12])
            ps = [(self.fresh("p"), self.g_ty(1, fn=True)) for _ in range(np)]
            rt = self.g_ty(2)
            curried = s.draw(4) == 3 and np > 1
            body = self.g(rt, env + ps, d)
            t = rt
            if curried:
                for _, pt in reversed(ps):
                    t = ("fun", pt, t)
            else:
                t = ("fun", ps[0][1] if np == 1 else ("tup", [x for _, x in ps]), rt)
            return ("fun", f, ps, curried, rt, body), [(f, t)]
        # bounded recursion: the first parameter counts down
        f = self.fresh("r")
        n = self.fresh("n")
        ps = [(self.fresh("p"), self.g_ty(1)) for _ in range(s.choice([1, 1, 2, 3, 5, 7]))]
        rt = self.g_ty(1) if s.draw(3) else s.choice([x for _, x in ps])
        base = self.g(rt, env + ps, d - 1)
        self.rec_stack = getattr(self, "rec_stack", []) + [(f, n, ps, rt)]
        step = self.g(rt, env + [(n, T_INT)] + ps, d)
        self.rec_stack = self.rec_stack[:-1]
        t = ("fun", ("tup", [T_INT] + [x for _, x in ps]), rt)
        return ("rec", f, n, ps, rt, base, step), [(f, t)]

    # -------------------------------------------------------------- patterns
    def g_pat(self, t, d, bs, irref=False):
        s = self.s
        k = s.draw(6)
        if k == 0 or (irref and t[0] not in ("tup", "rec")):
            return ("wild",) if s.draw(3) == 0 else self.pvar(t, bs)
        if k == 1 or d <= 0:
            return self.pvar(t, bs)
        if k == 2 and not irref:
            n = self.fresh("w")
            bs.append((n, t))
            return ("as", n, self.g_pat(t, d - 1, bs))
        kk = t[0]
        if kk == "tup":
            return ("ptup", [self.g_pat(x, d - 1, bs, irref) for x in t[1]])
        if kk == "rec":
            fl = [(l, self.g_pat(x, d - 1, bs, irref)) for l, x in t[1]]
            if s.draw(3) == 0 and len(fl) > 1:
                keep = [f for f in fl if s.draw(2)]
                drop = [f for f in fl if f not in keep]
                for f in drop:
                    gone = pvars(f[1])
                    bs[:] = [b for b in bs if b[0] not in gone]
                return ("prec", keep, True, t)
            return ("prec", fl, False, t)
        if kk == "list":
            c = s.draw(4)
            if c == 0:
                return ("pnil",)
            if c == 1:
                return ("plist", [self.g_pat(t[1], d - 1, bs) for _ in range(s.draw(4))])
            return ("pcons", self.g_pat(t[1], d - 1, bs), self.g_pat(t, d - 1, bs))
        if kk == "opt":
            return ("pnone",) if s.draw(2) == 0 else ("psome", self.g_pat(t[1], d - 1, bs))
        if kk == "ref":
            return ("pref", self.g_pat(t[1], d - 1, bs))
        if kk == "dt":
            c = s.choice(list(self.dts[t[1]]["cons"]))
            at = self.dts[t[1]]["cons"][c][1]
            return ("pcon", c, None if at is None else self.g_pat(at, d - 1, bs))
        if kk in INTS or kk in WORDS or kk in ("str", "char", "inf"):
            v = g_lit(s, t)
            return ("plit", t, v)
        if kk == "bool":
            return ("plit", t, bool(s.draw(2)))
        if kk == "unit":
            return ("plit", t, ())
        return self.pvar(t, bs)

    def pvar(self, t, bs):
        n = self.fresh("w")
        bs.append((n, t))
        return ("pvar", n)

    # -------------------------------------------------------------- expressions
    def vars_of(self, env, t):
        return [n for n, x in env if x == t]

    def g(self, t, env, d):
        """an expression of type t"""
        s = self.s
        self.size += 1
        if d <= 0 or self.size > self.limit:
            vs = self.vars_of(env, t)
            if vs and s.draw(4):
                return ("var", s.choice(vs[-6:]))
            return self.g_leaf(t, env)
        k = s.weighted([(5, "leaf"), (7, "var"), (9, "intro"), (3, "if"), (4, "case"), (4, "let"), (4, "app"), (2, "handle"), (1, "raise"), (2, "seq"), (3, "proj"),
                        (2, "deref"), (2, "hof"), (1, "callcc"), (2, "iapp"), (2, "rec")])
        if k == "leaf":
            return self.g_leaf(t, env)
        if k == "var":
            vs = self.vars_of(env, t)
            if vs:
                return ("var", s.choice(vs[-8:]))
            return self.g_intro(t, env, d)
        if k == "intro":
            return self.g_intro(t, env, d)
        if k == "if":
            return ("if", self.g(T_BOOL, env, d - 1), self.g(t, env, d - 1), self.g(t, env, d - 1))
        if k == "case":
            st = s.choice([x for _, x in env if x[0] != "fun"]) if env and s.draw(3) and any(x[0] != "fun" for _, x in env) else self.g_ty(2)
            sc = self.g(st, env, d - 1)
            rules = []
            for _ in range(1 + s.draw(5)):
                bs = []
                p = self.g_pat(st, 3, bs)
                rules.append((p, self.g(t, env + bs, d - 1)))
            if s.draw(4):
                rules.append((("wild",), self.g(t, env, d - 1)))
            return ("case", st, sc, rules)
        if k == "let":
            ds = []
            e2 = list(env)
            for _ in range(1 + s.draw(3)):
                dd, new = self.g_dec(e2, d - 1)
                ds.append(dd)
                e2 = e2 + new
            return ("let", ds, self.g(t, e2, d - 1))
        if k in ("app", "rec"):
            st = getattr(self, "rec_stack", [])
            if k == "rec" and st:
                f, n, ps, rt = st[-1]
                if rt == t and (n, T_INT) in env:
                    return ("app", ("var", f), ("tuple", [("bin", "-", "int", ("var", n), ("lit", T_INT, 1 + s.draw(2)))] + [self.g(x, env, d - 1) for _, x in ps]))
            fs = [(n, x) for n, x in env if x[0] == "fun" and res_of(x, t) is not None]
            if fs:
                n, x = s.choice(fs[-8:])
                return self.g_apply(("var", n), x, res_of(x, t), env, d)
            return self.g_intro(t, env, d)
        if k == "iapp":        # a function value applied at once
            a = self.g_ty(1)
            bs = []
            p = self.g_pat(a, 2, bs, irref=True)
            return ("app", ("fn", p, a, self.g(t, env + bs, d - 1)), self.g(a, env, d - 1))
        if k == "handle":
            rules = []
            for _ in range(1 + s.draw(3)):
                x = s.choice(["Overflow", "Div", "Subscript", "Match", "Bind", "Size", "E0", "E1", "E2", "E3", "Fail", "Chr", "Empty", "Option", "Domain"])
                if x in EXNS and EXNS[x] is not None:
                    bs = []
                    p = self.g_pat(EXNS[x], 2, bs)
                    rules.append((x, p, self.g(t, env + bs, d - 1)))
                else:
                    rules.append((x, None, self.g(t, env, d - 1)))
            if s.draw(3) == 0:
                rules.append(("_", None, self.g(t, env, d - 1)))
            return ("handle", self.g(t, env, d - 1), rules)
        if k == "raise":
            x = s.choice(["E0", "E1", "E2", "E3", "Fail", "Overflow", "Subscript"])
            at = EXNS.get(x)
            return ("raise", x, None if at is None else self.g(at, env, d - 1))
        if k == "seq":
            return ("seq", [self.g_eff(env, d - 1) for _ in range(1 + s.draw(3))], self.g(t, env, d - 1))
        if k == "proj":
            cands = [(n, x, i) for n, x in env if x[0] == "tup" for i, y in enumerate(x[1]) if y == t]
            cands += [(n, x, i) for n, x in env if x[0] == "rec" for i, (_, y) in enumerate(x[1]) if y == t]
            if cands:
                n, x, i = s.choice(cands)
                return ("proj", x, i, ("var", n))
            m = 2 + s.draw(3)
            i = s.draw(m)
            ts = [t if j == i else self.g_ty(1) for j in range(m)]
            return ("proj", ("tup", ts), i, self.g(("tup", ts), env, d - 1))
        if k == "deref":
            c = s.draw(4)
            if c == 0:
                return ("deref", self.g(("ref", t), env, d - 1))
            ct = s.choice(["arr", "vec"])
            if c == 1:
                return ("sub", ct, self.g((ct, t), env, d - 1), self.g(T_INT, env, d - 1))
            vs = [n for n, x in env if x == ("ref", t)]
            if vs:
                return ("deref", ("var", s.choice(vs)))
            if c == 2:
                return ("hd", self.g(("list", t), env, d - 1))
            return ("valof", self.g(("opt", t), env, d - 1))
        if k == "hof":
            c = s.draw(3)
            a = self.g_ty(1)
            if c == 0:      # foldl
                x, y = self.fresh("x"), self.fresh("y")
                return ("foldl" if s.draw(2) else "foldr", x, a, y, t, self.g(t, env + [(x, a), (y, t)], d - 1), self.g(t, env, d - 1), self.g(("list", a), env, d - 1))
            if c == 1 and t[0] in ("list", "vec"):
                x = self.fresh("x")
                return ("map" if t[0] == "list" else "vmap", x, a, self.g(t[1], env + [(x, a)], d - 1), self.g((t[0], a), env, d - 1))
            return ("poly", s.choice(["id", "fst", "snd", "twice", "const"]), t, a, [self.g(t, env, d - 1), self.g(a, env, d - 1)], self.poly_fn(t, env, d))
        if k == "callcc":
            kk = self.fresh("k")
            return ("callcc", kk, t, self.g_thrower(kk, t, env, d - 1))
        raise ValueError(k)

    def poly_fn(self, t, env, d):
        x = self.fresh("x")
        return (x, self.g(t, env + [(x, t)], d - 1))

    def g_thrower(self, kk, t, env, d):
        s = self.s
        c = s.draw(3)
        if c == 0:
            return ("throw", kk, self.g(t, env, d))
        if c == 1:
            return ("if", self.g(T_BOOL, env, d), ("throw", kk, self.g(t, env, d)), self.g(t, env, d))
        n = self.fresh()
        a = self.g_ty(1)
        return ("let", [("val", n, a, ("if", self.g(T_BOOL, env, d), ("throw", kk, self.g(t, env, d)), self.g(a, env, d)))], self.g(t, env + [(n, a)], d))

    def g_apply(self, f, ft, depth, env, d):
        e = f
        for _ in range(depth):
            e = ("app", e, self.g(ft[1], env, d - 1))
            ft = ft[2]
        return e

    def g_eff(self, env, d):
        s = self.s
        c = s.draw(5)
        refs = [(n, t) for n, t in env if t[0] == "ref"]
        arrs = [(n, t) for n, t in env if t[0] == "arr"]
        if c < 2 and refs:
            n, t = s.choice(refs)
            return ("assign", ("var", n), self.g(t[1], env, d))
        if c < 3 and arrs:
            n, t = s.choice(arrs)
            return ("upd", ("var", n), self.g(T_INT, env, 0) if s.draw(3) else ("lit", T_INT, s.draw(3)), self.g(t[1], env, d))
        t = self.g_ty(1)
        return ("emit", t, self.g(t, env, d))

    def g_leaf(self, t, env):
        s = self.s
        k = t[0]
        if k in SMLT:
            e = ("lit", t, g_lit(s, t))
            return ("opq", t, e) if s.draw(3) == 0 else e
        if k == "tup":
            return ("tuple", [self.g_leaf(x, env) for x in t[1]])
        if k == "rec":
            return ("record", t, [self.g_leaf(x, env) for _, x in t[1]])
        if k in ("list", "vec"):
            return ("list" if k == "list" else "vector", t[1], [self.g_leaf(t[1], env) for _ in range(s.draw(4))])
        if k == "opt":
            return ("none", t) if s.draw(2) == 0 else ("some", self.g_leaf(t[1], env))
        if k == "ref":
            return ("mkref", self.g_leaf(t[1], env))
        if k == "arr":
            if s.draw(2):
                return ("array", t[1], s.draw(5), self.g_leaf(t[1], env))
            return ("arrl", t[1], [self.g_leaf(t[1], env) for _ in range(s.draw(4))])
        if k == "fun":
            bs = []
            p = self.g_pat(t[1], 1, bs, irref=True)
            vs = [n for n, x in bs if x == t[2]]
            return ("fn", p, t[1], ("var", s.choice(vs)) if vs else self.g_leaf(t[2], env))
        if k == "dt":
            cons = self.dts[t[1]]["cons"]
            ok = [c for c, (_, a) in cons.items() if a is None or not self.mentions(a, t[1])] or [c for c, (_, a) in cons.items() if a == ("list", t)]
            c = s.choice(ok)
            a = cons[c][1]
            if a == ("list", t):
                return ("con", c, ("list", t, []))
            return ("con", c, None if a is None else self.g_leaf(a, env))
        raise ValueError(t)

    def g_intro(self, t, env, d):
        s = self.s
        k = t[0]
        g = lambda x: self.g(x, env, d - 1)
        if k in INTS or k == "inf":
            c = s.draw(12)
            if c < 6:
                return ("bin", s.choice(["+", "-", "*", "+", "-"]), k, g(t), g(t))
            if c == 6:
                if k == "inf":
                    return ("bin", s.choice(["div", "mod"]), k, g(t), g(t))
                return ("bin", s.choice(["div", "mod", "quot", "rem"]), k, g(t), g(t) if s.draw(2) else ("lit", t, s.choice([1, 2, 3, 4, 7, 8, -1, -2, 10, 16, 0])))
            if c == 7:
                return ("un", s.choice(["~", "abs"]), k, g(t))
            if c == 8:
                return ("bin", s.choice(["min", "max"]), k, g(t), g(t))
            if c == 9 and k == "int":
                q = s.draw(4)
                if q == 0:
                    return ("size", g(T_STR))
                if q == 1:
                    return ("ord", g(("char",)))
                if q == 2:
                    a = self.g_ty(1)
                    return ("len", s.choice(["list", "vec", "arr"]), a, None)if False else self.g_len(env, d)
                return ("floor", s.choice(["floor", "trunc", "ceil", "round"]), g(T_REAL))
            f = s.choice([x for x in list(INTS) + list(WORDS) + ["inf"] if x != k])
            return ("conv", f, k, g((f,)))
        if k in WORDS:
            c = s.draw(10)
            if c < 4:
                return ("bin", s.choice(["+", "-", "*", "andb", "orb", "xorb"]), k, g(t), g(t))
            if c == 4:
                return ("bin", s.choice(["div", "mod"]), k, g(t), g(t))
            if c < 7:
                return ("bin", s.choice(["<<", ">>", "~>>"]), k, g(t), ("lit", ("word",), s.draw(70)) if s.draw(2) else g(("word",)))
            if c == 7:
                return ("un", s.choice(["notb", "~"]), k, g(t))
            f = s.choice([x for x in list(INTS) + list(WORDS) + ["inf"] if x != k])
            return ("conv", f, k, g((f,)))
        if k == "real":
            c = s.draw(7)
            if c < 4:
                return ("bin", s.choice(["+", "-", "*", "/"]), k, g(t), g(t))
            if c == 4:
                return ("un", "~", k, g(t))
            return ("i2r", g(T_INT))
        if k == "str":
            c = s.draw(6)
            if c < 3:
                return ("cat", g(t), g(t))
            if c == 3:
                return ("substr", g(t), g(T_INT), g(T_INT))
            if c == 4:
                tt = self.g_ty(1)
                return ("show", tt, g(tt))
            return ("implode", g(("list", ("char",))))
        if k == "char":
            return ("strsub", g(T_STR), g(T_INT)) if s.draw(2) else ("chr", g(T_INT))
        if k == "bool":
            c = s.draw(7)
            if c < 2:
                n = s.choice(NUM)
                return ("bin", s.choice(list(CMP)), n, g((n,)), g((n,)))
            if c < 4:
                x = self.g_ty(2)
                if is_eq(x, self):
                    return ("eq", s.draw(2), x, g(x), g(x))
                return ("not", g(t))
            if c == 4:
                return ("andalso" if s.draw(2) else "orelse", g(t), g(t))
            if c == 5:
                return ("not", g(t))
            return ("scmp", s.choice(list(CMP)), g(T_STR), g(T_STR))
        if k == "unit":
            return self.g_eff(env, d - 1)
        if k == "tup":
            return ("tuple", [g(x) for x in t[1]])
        if k == "rec":
            return ("record", t, [g(x) for _, x in t[1]])
        if k == "list":
            c = s.draw(5)
            if c < 2:
                return ("cons", g(t[1]), g(t))
            if c == 2:
                return ("append", g(t), g(t))
            if c == 3:
                return ("rev", g(t))
            return ("list", t[1], [g(t[1]) for _ in range(s.draw(4))])
        if k == "vec":
            if s.draw(2):
                return ("vlist", g(("list", t[1])))
            return ("vector", t[1], [g(t[1]) for _ in range(s.draw(6))])
        if k == "opt":
            return ("some", g(t[1])) if s.draw(4) else ("none", t)
        if k == "ref":
            return ("mkref", g(t[1]))
        if k == "arr":
            if s.draw(2):
                return ("array", t[1], s.draw(6), g(t[1]))
            return ("arrl", t[1], [g(t[1]) for _ in range(s.draw(5))])
        if k == "fun":
            bs = []
            p = self.g_pat(t[1], 2, bs, irref=s.draw(4) > 0)
            return ("fn", p, t[1], self.g(t[2], env + bs, d - 1))
        if k == "dt":
            c = s.choice(list(self.dts[t[1]]["cons"]))
            at = self.dts[t[1]]["cons"][c][1]
            return ("con", c, None if at is None else g(at))
        raise ValueError(t)

    def g_len(self, env, d):
        s = self.s
        k = s.choice(["list", "vec", "arr"])
        a = self.g_ty(1)
        return ("len", k, a, self.g((k, a), env, d - 1))


def pvars(p):
    k = p[0]
    if k == "pvar":
        return {p[1]}
    if k == "as":
        return {p[1]} | pvars(p[2])
    if k in ("ptup", "plist"):
        return set().union(*[pvars(x) for x in p[1]]) if p[1] else set()
    if k == "prec":
        return set().union(*[pvars(x) for _, x in p[1]]) if p[1] else set()
    if k == "pcons":
        return pvars(p[1]) | pvars(p[2])
    if k in ("psome", "pref"):
        return pvars(p[1])
    if k == "pcon":
        return pvars(p[2]) if p[2] else set()
    return set()


def res_of(ft, t):
    n = 0
    while ft[0] == "fun":
        n += 1
        ft = ft[2]
        if ft == t:
            return n
    return None


# ------------------------------------------------------------------ interpretation
class Interp:
    FUEL = 200000

    def __init__(self, prog):
        self.p = prog
        self.fuel = self.FUEL
        self.trace = []
        self.tlen = 0

    def emit(self, x):
        self.trace.append(x)
        self.tlen += len(x) + 1
        if self.tlen > 30000:
            raise Fuel()

    def run(self):
        env = {}
        try:
            for dcl in self.p.out:
                self.dec(dcl, env)
        except MLExn as e:
            self.emit("!" if self.p.mode in ("units", "functor") else "!" + show_exn(e, self.p))
        return " ".join(self.trace)

    def dec(self, d, env):
        k = d[0]
        if k == "val":
            env[d[1]] = self.ev(d[3], env)
        elif k == "pat":
            v = self.ev(d[3], env)
            b = {}
            if not self.match(d[1], v, b):
                raise MLExn("Bind")
            env.update(b)
        elif k == "emit":
            v = self.ev(d[2], env)
            self.emit(show_val(d[1], v, self.p))
        elif k == "local":
            e2 = dict(env)
            for x in d[1]:
                self.dec(x, e2)
            self.dec(d[2], e2)
            env[d[2][1]] = e2[d[2][1]]
        elif k == "fun":
            _, f, ps, curried, rt, body = d
            e2 = dict(env)
            if curried:
                def mk(i, e):
                    def fn(v):
                        e3 = dict(e)
                        e3[ps[i][0]] = v
                        return self.ev(body, e3) if i == len(ps) - 1 else mk(i + 1, e3)
                    return fn
                env[f] = mk(0, e2)
            else:
                def fn(v):
                    e3 = dict(e2)
                    if len(ps) == 1:
                        e3[ps[0][0]] = v
                    else:
                        for (n, _), x in zip(ps, v):
                            e3[n] = x
                    return self.ev(body, e3)
                env[f] = fn
        elif k == "rec":
            _, f, n, ps, rt, base, step = d
            e2 = dict(env)

            def fn(v):
                e3 = dict(e2)
                for (m, _), x in zip(ps, v[1:]):
                    e3[m] = x
                if min(v[0], 4) <= 0:
                    return self.ev(base, e3)
                e3[n] = min(v[0], 4)
                return self.ev(step, e3)
            e2[f] = fn
            env[f] = fn
        else:
            raise ValueError(k)

    def match(self, p, v, b):
        k = p[0]
        if k == "wild":
            return True
        if k == "pvar":
            b[p[1]] = v
            return True
        if k == "as":
            b[p[1]] = v
            return self.match(p[2], v, b)
        if k == "ptup":
            return all(self.match(x, y, b) for x, y in zip(p[1], v))
        if k == "prec":
            labs = [l for l, _ in p[3][1]]
            return all(self.match(x, v[labs.index(l)], b) for l, x in p[1])
        if k == "pnil":
            return v == []
        if k == "plist":
            return len(v) == len(p[1]) and all(self.match(x, y, b) for x, y in zip(p[1], v))
        if k == "pcons":
            return v != [] and self.match(p[1], v[0], b) and self.match(p[2], v[1:], b)
        if k == "pnone":
            return v is None
        if k == "psome":
            return v is not None and self.match(p[1], v[0], b)
        if k == "pref":
            return self.match(p[1], v.v, b)
        if k == "pcon":
            return v.c == p[1] and (p[2] is None or self.match(p[2], v.a, b))
        if k == "plit":
            return v == p[2]
        raise ValueError(k)

    def ev(self, e, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        k = e[0]
        ev = self.ev
        if k == "lit":
            return e[2]
        if k == "var":
            return env[e[1]]
        if k == "opq":
            return ev(e[2], env)
        if k == "bin":
            a = ev(e[3], env)
            b = ev(e[4], env)
            r = prim(e[1], e[2], a, b)
            if e[2] == "inf" and e[1] == "*" and abs(r).bit_length() > 20000:
                raise Fuel()
            return r
        if k == "un":
            return prim(e[1], e[2], ev(e[3], env))
        if k == "if":
            return ev(e[2], env) if ev(e[1], env) else ev(e[3], env)
        if k == "case":
            v = ev(e[2], env)
            for p, b in e[3]:
                bs = {}
                if self.match(p, v, bs):
                    e2 = dict(env)
                    e2.update(bs)
                    return ev(b, e2)
            raise MLExn("Match")
        if k == "let":
            e2 = dict(env)
            for d in e[1]:
                self.dec(d, e2)
            return ev(e[2], e2)
        if k == "app":
            f = ev(e[1], env)
            a = ev(e[2], env)
            return f(a)
        if k == "fn":
            p, body = e[1], e[3]
            cenv = dict(env)

            def fn(v):
                b = {}
                if not self.match(p, v, b):
                    raise MLExn("Match")
                e2 = dict(cenv)
                e2.update(b)
                return ev(body, e2)
            return fn
        if k == "tuple":
            return tuple(ev(x, env) for x in e[1])
        if k == "record":
            return tuple(ev(x, env) for x in e[2])
        if k == "proj":
            return ev(e[3], env)[e[2]]
        if k == "handle":
            try:
                return ev(e[1], env)
            except MLExn as x:
                for n, p, b in e[2]:
                    if n == "_":
                        return ev(b, env)
                    if n == x.name:
                        bs = {}
                        if p is None or self.match(p, x.val, bs):
                            e2 = dict(env)
                            e2.update(bs)
                            return ev(b, e2)
                raise
        if k == "raise":
            raise MLExn(e[1], None if e[2] is None else ev(e[2], env))
        if k == "seq":
            for x in e[1]:
                ev(x, env)
            return ev(e[2], env)
        if k == "assign":
            r = ev(e[1], env)
            r.v = ev(e[2], env)
            return ()
        if k == "upd":
            a = ev(e[1], env)
            i = ev(e[2], env)
            v = ev(e[3], env)
            if not 0 <= i < len(a.l):
                raise MLExn("Subscript")
            a.l[i] = v
            return ()
        if k == "emit":
            self.emit(show_val(e[1], ev(e[2], env), self.p))
            return ()
        if k == "deref":
            return ev(e[1], env).v
        if k == "sub":
            a = ev(e[2], env)
            i = ev(e[3], env)
            l = a.l if e[1] == "arr" else a
            if not 0 <= i < len(l):
                raise MLExn("Subscript")
            return l[i]
        if k == "hd":
            l = ev(e[1], env)
            if not l:
                raise MLExn("Empty")
            return l[0]
        if k == "valof":
            o = ev(e[1], env)
            if o is None:
                raise MLExn("Option")
            return o[0]
        if k in ("foldl", "foldr"):
            _, x, a, y, t, body, init, l = e
            v = ev(init, env)
            ls = ev(l, env)
            for z in (ls if k == "foldl" else reversed(ls)):
                e2 = dict(env)
                e2[x] = z
                e2[y] = v
                v = ev(body, e2)
            return v
        if k in ("map", "vmap"):
            _, x, a, body, l = e
            r = []
            for z in ev(l, env):
                e2 = dict(env)
                e2[x] = z
                r.append(ev(body, e2))
            return r
        if k == "poly":
            _, nm, t, a, (e1, e2_), (x, fb) = e
            if nm == "twice":
                v = ev(e1, env)
                for _ in range(2):
                    e2 = dict(env)
                    e2[x] = v
                    v = ev(fb, e2)
                return v
            v1 = ev(e1, env)
            v2 = ev(e2_, env)
            return v1
        if k == "callcc":
            tok = object()
            e2 = dict(env)
            e2[e[1]] = tok
            try:
                return ev(e[3], e2)
            except Throw as th:
                if th.k is tok:
                    return th.v
                raise
        if k == "throw":
            raise Throw(env[e[1]], ev(e[2], env))
        if k == "list" or k == "vector":
            return [ev(x, env) for x in e[2]]
        if k == "cons":
            a = ev(e[1], env)
            return [a] + ev(e[2], env)
        if k == "append":
            a = ev(e[1], env)
            r = a + ev(e[2], env)
            if len(r) > 3000:
                raise Fuel()
            return r
        if k == "rev":
            return list(reversed(ev(e[1], env)))
        if k == "vlist":
            return list(ev(e[1], env))
        if k == "some":
            return (ev(e[1], env),)
        if k == "none":
            return None
        if k == "mkref":
            return Ref(ev(e[1], env))
        if k == "array":
            v = ev(e[3], env)
            return Arr([v] * e[2])
        if k == "arrl":
            return Arr([ev(x, env) for x in e[2]])
        if k == "con":
            return Con(e[1], None if e[2] is None else ev(e[2], env))
        if k == "size":
            return len(ev(e[1], env))
        if k == "ord":
            return ev(e[1], env)
        if k == "chr":
            n = ev(e[1], env)
            if not 0 <= n < 256:
                raise MLExn("Chr")
            return n
        if k == "len":
            v = ev(e[3], env)
            return len(v.l if isinstance(v, Arr) else v)
        if k == "floor":
            v = ev(e[2], env)
            if v != v:
                raise MLExn("Domain")
            if v in (math.inf, -math.inf):
                raise MLExn("Overflow")
            r = {"floor": math.floor, "trunc": math.trunc, "ceil": math.ceil, "round": round}[e[1]](v)
            return ovf("int", r)
        if k == "conv":
            return conv(ev(e[3], env), e[1], e[2])
        if k == "i2r":
            return float(ev(e[1], env))
        if k == "cat":
            a = ev(e[1], env)
            r = a + ev(e[2], env)
            if len(r) > 4000:
                raise Fuel()
            return r
        if k == "substr":
            a = ev(e[1], env)
            i = ev(e[2], env)
            n = ev(e[3], env)
            if i < 0 or n < 0 or i + n > len(a):
                raise MLExn("Subscript")
            return a[i:i + n]
        if k == "show":
            return show_val(e[1], ev(e[2], env), self.p).encode()
        if k == "implode":
            return bytes(ev(e[1], env))
        if k == "strsub":
            a = ev(e[1], env)
            i = ev(e[2], env)
            if not 0 <= i < len(a):
                raise MLExn("Subscript")
            return a[i]
        if k == "eq":
            a = ev(e[3], env)
            b = ev(e[4], env)
            return equal(e[2], a, b, self.p) == (e[1] == 0)
        if k == "not":
            return not ev(e[1], env)
        if k == "andalso":
            return ev(e[1], env) and ev(e[2], env)
        if k == "orelse":
            return ev(e[1], env) or ev(e[2], env)
        if k == "scmp":
            a = ev(e[2], env)
            b = ev(e[3], env)
            return CMP[e[1]](a, b)
        raise ValueError(k)


# ------------------------------------------------------------------ rendering
def rpat(p):
    k = p[0]
    if k == "wild":
        return "_"
    if k == "pvar":
        return p[1]
    if k == "as":
        return "(%s as %s)" % (p[1], rpat(p[2]))
    if k == "ptup":
        return "(" + ", ".join(map(rpat, p[1])) + ")"
    if k == "prec":
        return "({" + ", ".join(["%s = %s" % (l, rpat(x)) for l, x in p[1]] + (["..."] if p[2] else [])) + "} : %s)" % tystr(p[3])
    if k == "pnil":
        return "nil"
    if k == "plist":
        return "[" + ", ".join(map(rpat, p[1])) + "]"
    if k == "pcons":
        return "(%s :: %s)" % (rpat(p[1]), rpat(p[2]))
    if k == "pnone":
        return "NONE"
    if k == "psome":
        return "(SOME %s)" % rpat(p[1])
    if k == "pref":
        return "(ref %s)" % rpat(p[1])
    if k == "pcon":
        return p[1] if p[2] is None else "(%s %s)" % (p[1], rpat(p[2]))
    if k == "plit":
        return lit(p[1], p[2])
    raise ValueError(k)


def r(e):
    k = e[0]
    if k == "lit":
        return lit(e[1], e[2])
    if k == "var":
        return e[1]
    if k == "opq":
        return "(Op.%s %s)" % (e[1][0], r(e[2]))
    if k == "bin":
        op, t = e[1], e[2]
        if op in ("quot", "rem", "min", "max"):
            return "(%s.%s (%s, %s))" % (STRU[t], op, r(e[3]), r(e[4]))
        if op in ("andb", "orb", "xorb", "<<", ">>", "~>>"):
            return "(%s.%s (%s, %s))" % (STRU[t], op, r(e[3]), r(e[4]))
        return "(%s %s (%s : %s))" % (r(e[3]), op, r(e[4]), SMLT[t])
    if k == "un":
        if e[1] == "notb":
            return "(%s.notb %s)" % (STRU[e[2]], r(e[3]))
        return "(%s (%s : %s))" % (e[1], r(e[3]), SMLT[e[2]])
    if k == "if":
        return "(if %s then %s else %s)" % (r(e[1]), r(e[2]), r(e[3]))
    if k == "case":
        return "(case (%s : %s) of %s)" % (r(e[2]), tystr(e[1]), " | ".join("%s => %s" % (rpat(p), r(b)) for p, b in e[3]))
    if k == "let":
        return "let %s in %s end" % (" ".join(rdec(d) for d in e[1]), r(e[2]))
    if k == "app":
        return "(%s %s)" % (r(e[1]), r(e[2]) if e[2][0] in ("tuple", "var") else "(" + r(e[2]) + ")")
    if k == "fn":
        return "(fn (%s : %s) => %s)" % (rpat(e[1]), tystr(e[2]), r(e[3]))
    if k == "tuple":
        return "(" + ", ".join(map(r, e[1])) + ")"
    if k == "record":
        return "{" + ", ".join("%s = %s" % (l, r(x)) for (l, _), x in zip(e[1][1], e[2])) + "}"
    if k == "proj":
        t, i = e[1], e[2]
        return "(#%s (%s : %s))" % (i + 1 if t[0] == "tup" else t[1][i][0], r(e[3]), tystr(t))
    if k == "handle":
        return "(%s handle %s)" % (r(e[1]), " | ".join("%s%s => %s" % (n, "" if p is None else " " + rpat(p), r(b)) for n, p, b in e[2]))
    if k == "raise":
        return "(raise %s%s)" % (e[1], "" if e[2] is None else " (" + r(e[2]) + ")")
    if k == "seq":
        return "(" + "; ".join([r(x) for x in e[1]] + [r(e[2])]) + ")"
    if k == "assign":
        return "(%s := %s)" % (r(e[1]), r(e[2]))
    if k == "upd":
        return "(Array.update (%s, %s, %s))" % (r(e[1]), r(e[2]), r(e[3]))
    if k == "emit":
        return "(S.emit (%s (%s)))" % (_fix(sh(e[1])), r(e[2]))
    if k == "deref":
        return "(! (%s))" % r(e[1])
    if k == "sub":
        return "(%s.sub (%s, %s))" % ("Array" if e[1] == "arr" else "Vector", r(e[2]), r(e[3]))
    if k == "hd":
        return "(hd (%s))" % r(e[1])
    if k == "valof":
        return "(valOf (%s))" % r(e[1])
    if k in ("foldl", "foldr"):
        _, x, a, y, t, body, init, l = e
        return "(%s (fn (%s : %s, %s : %s) => %s) (%s) (%s))" % (k, x, tystr(a), y, tystr(t), r(body), r(init), r(l))
    if k in ("map", "vmap"):
        _, x, a, body, l = e
        return "(%s (fn (%s : %s) => %s) (%s))" % ("map" if k == "map" else "Vector.map", x, tystr(a), r(body), r(l))
    if k == "poly":
        _, nm, t, a, (e1, e2), (x, fb) = e
        if nm == "id":
            return "(#1 (P.id (%s, %s)))" % (r(e1), r(e2))
        if nm == "fst":
            return "(P.fst (%s, %s))" % (r(e1), r(e2))
        if nm == "snd":
            return "(P.snd (P.swap (%s, %s)))" % (r(e1), r(e2))
        if nm == "const":
            return "(P.const (%s) (%s))" % (r(e1), r(e2))
        return "(P.twice (fn (%s : %s) => %s) (%s))" % (x, tystr(t), r(fb), r(e1))
    if k == "callcc":
        return "(SMLofNJ.Cont.callcc (fn %s => (%s : %s)))" % (e[1], r(e[3]), tystr(e[2]))
    if k == "throw":
        return "(SMLofNJ.Cont.throw %s (%s))" % (e[1], r(e[2]))
    if k == "list":
        return "([%s] : %s list)" % (", ".join(map(r, e[2])), tystr(e[1]))
    if k == "vector":
        return "(#[%s] : %s vector)" % (", ".join(map(r, e[2])), tystr(e[1]))
    if k == "cons":
        return "(%s :: %s)" % (r(e[1]), r(e[2]))
    if k == "append":
        return "(%s @ %s)" % (r(e[1]), r(e[2]))
    if k == "rev":
        return "(rev (%s))" % r(e[1])
    if k == "vlist":
        return "(Vector.fromList (%s))" % r(e[1])
    if k == "some":
        return "(SOME (%s))" % r(e[1])
    if k == "none":
        return "(NONE : %s)" % tystr(e[1])
    if k == "mkref":
        return "(ref (%s))" % r(e[1])
    if k == "array":
        return "(Array.array (%d, %s))" % (e[2], r(e[3]))
    if k == "arrl":
        return "(Array.fromList ([%s] : %s list))" % (", ".join(map(r, e[2])), tystr(e[1]))
    if k == "con":
        return e[1] if e[2] is None else "(%s (%s))" % (e[1], r(e[2]))
    if k == "size":
        return "(size (%s))" % r(e[1])
    if k == "ord":
        return "(ord (%s))" % r(e[1])
    if k == "chr":
        return "(chr (%s))" % r(e[1])
    if k == "len":
        return "(%s.length (%s))" % ({"list": "List", "vec": "Vector", "arr": "Array"}[e[1]], r(e[3]))
    if k == "floor":
        return "(%s (%s))" % (e[1], r(e[2]))
    if k == "conv":
        return conv_text("(%s)" % r(e[3]), e[1], e[2])
    if k == "i2r":
        return "(real (%s))" % r(e[1])
    if k == "cat":
        return "(%s ^ %s)" % (r(e[1]), r(e[2]))
    if k == "substr":
        return "(substring (%s, %s, %s))" % (r(e[1]), r(e[2]), r(e[3]))
    if k == "show":
        return "(%s (%s))" % (_fix(sh(e[1])), r(e[2]))
    if k == "implode":
        return "(implode (%s))" % r(e[1])
    if k == "strsub":
        return "(String.sub (%s, %s))" % (r(e[1]), r(e[2]))
    if k == "eq":
        return "(%s %s (%s : %s))" % (r(e[3]), "=" if e[1] == 0 else "<>", r(e[4]), tystr(e[2]))
    if k == "not":
        return "(not (%s))" % r(e[1])
    if k in ("andalso", "orelse"):
        return "(%s %s %s)" % (r(e[1]), k, r(e[2]))
    if k == "scmp":
        return "(String.%s (%s, %s))" % (e[1], r(e[2]), r(e[3]))
    raise ValueError(k)


def rdec(d):
    k = d[0]
    if k == "val":
        return "val %s : %s = %s" % (d[1], tystr(d[2]), r(d[3]))
    if k == "pat":
        return "val (%s : %s) = %s" % (rpat(d[1]), tystr(d[2]), r(d[3]))
    if k == "emit":
        return "val _ = S.emit (%s (%s))" % (_fix(sh(d[1])), r(d[2]))
    if k == "local":
        return "local %s in %s end" % (" ".join(rdec(x) for x in d[1]), rdec(d[2]))
    if k == "fun":
        _, f, ps, curried, rt, body = d
        if curried:
            a = " ".join("(%s : %s)" % (n, tystr(t)) for n, t in ps)
        else:
            a = "(" + ", ".join("%s : %s" % (n, tystr(t)) for n, t in ps) + ")"
        return "fun %s %s : %s = %s" % (f, a, tystr(rt), r(body))
    if k == "rec":
        _, f, n, ps, rt, base, step = d
        a = ", ".join(["%s : int" % n] + ["%s : %s" % (m, tystr(t)) for m, t in ps])
        return "fun %s (%s) : %s = let val %s = Int.min (%s, 4) in if %s <= 0 then %s else %s end" % (f, a, tystr(rt), n, n, n, r(base), r(step))
    raise ValueError(k)


def rdts(prog):
    o = []
    for n, d in prog.dts.items():
        o.append("datatype %s = %s" % (n, " | ".join(c if a is None else "%s of %s" % (c, tystr(a)) for c, (_, a) in d["cons"].items())))
        o.append("fun sh_%s x = (case x of %s)" % (n, " | ".join(
            '%s => "<%s>"' % (c, c) if a is None else '%s a => "<%s " ^ %s a ^ ">"' % (c, c, _fix(sh(a))) for c, (_, a) in d["cons"].items())))
    return "\n".join(o)


def render(prog):
    """text of the program; running it leaves its outcome in S.tr.  In the modes which bind at top level an uncaught exception ends the text early."""
    decs = [rdec(d) for d in prog.out]
    if prog.mode == "units":
        return rdts(prog) + ";\n" + ";\n".join(decs) + ";\n"
    if prog.mode == "functor":
        return "functor F (X : sig val start : unit -> unit end) = struct\n%s\nval _ = X.start ()\n%s\nend;\nstructure Z = F (val start = fn () => ());\n" % (rdts(prog), "\n".join(decs))
    if prog.mode == "struct":
        return "structure Q = struct\n%s\nfun go () = let\n%s\nin () end\nend;\nval _ = S.run Q.go;\n" % (rdts(prog), "\n".join(decs))
    return "fun go () = let\n%s\n%s\nin () end;\nval _ = S.run go;\n" % (rdts(prog), "\n".join(decs))
