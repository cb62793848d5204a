"""Table-driven checks: every entry is a public function, with its SML type, and an oracle in Python.
   The SML driver is generated from the table; requests are "<index> <args...>"."""
import os, struct
import pbt, vbuild
from pbt import edge_int


class Exn(Exception):
    """the oracle says: this SML exception is raised"""
    def __init__(self, name):
        self.name = name


class Any(Exception):
    """the specification leaves the result open for this argument"""


class Ty:
    def __init__(self, name, gen, rd, wr, enc, sml=None):
        self.name, self.gen, self.rd, self.wr, self.enc = name, gen, rd, wr, enc
        self.sml = sml

    def with_gen(self, gen):
        return Ty(self.name, gen, self.rd, self.wr, self.enc)


def hexs(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return "s" + b.hex()


def f2h(x):
    if x != x:
        return "nan"
    return struct.pack(">d", x).hex()


def h2f(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


def int_ty(name, lo, hi, rd, wr):
    return Ty(name, lambda s: edge_int(s, lo, hi), rd, wr, str)


INT = int_ty("int", -2**62, 2**62 - 1, "C.int", "C.wint")
INT32 = int_ty("Int32.int", -2**31, 2**31 - 1, "(fn () => Int32.fromLarge(C.inf()))", "(fn x => C.winf(Int32.toLarge x))")
INT31 = int_ty("Int31.int", -2**30, 2**30 - 1, "(fn () => Int31.fromLarge(C.inf()))", "(fn x => C.winf(Int31.toLarge x))")
INT64 = int_ty("Int64.int", -2**63, 2**63 - 1, "(fn () => Int64.fromLarge(C.inf()))", "(fn x => C.winf(Int64.toLarge x))")


def word_ty(name, bits, rd, wr):
    return Ty(name, lambda s: edge_int(s, 0, 2**bits - 1), rd, wr, lambda v: "%016x" % v)


WORD = word_ty("word", 63, "C.word", "C.wword")
WORD8 = word_ty("Word8.word", 8, "C.w8", "C.ww8")
WORD32 = word_ty("Word32.word", 32, "C.w32", "C.ww32")
WORD64 = word_ty("Word64.word", 64, "C.w64", "C.ww64")
SHIFT = Ty("word", lambda s: s.weighted([(6, 0), (1, 1)]) and s.choice([62, 63, 64, 65, 127, 128, 255, 256, 2**32, 2**62, 2**63 - 1])
           or s.draw(70), "C.word", "C.wword", lambda v: "%016x" % v)
BOOL = Ty("bool", lambda s: bool(s.draw(2)), "C.bool", "C.wbool", lambda v: "1" if v else "0")
UNIT = Ty("unit", lambda s: None, "C.unit", "C.wunit", lambda v: "u")
ORDER = Ty("order", lambda s: s.draw(3) - 1, "C.order", "C.worder", lambda v: str(v + 1))


def gen_inf(s, maxbits=700):
    k = s.draw(12)
    if k <= 2:
        v = edge_int(s, -2**64, 2**64)
        return v
    if k <= 4:
        v = edge_int(s, -2**130, 2**130)
        return v
    if k <= 7:    # near power of two / all ones patterns
        v = (1 << s.draw(maxbits)) + s.int(-3, 3)
    elif k == 8:  # runs of ones and zeros (hard cases of digit-wise algorithms)
        v = 0
        for _ in range(1 + s.draw(7)):
            n = 1 + s.draw(100)
            v = (v << n) | (((1 << n) - 1) if s.draw(2) else 0)
        v += s.int(-1, 1)
    elif k == 9:
        v = 10 ** s.draw(maxbits // 4) + s.int(-2, 2)
    else:
        v = s.draw(1 << (1 + s.draw(maxbits)))
    return -v if s.draw(2) else v


INF = Ty("IntInf.int", gen_inf, "C.inf", "C.winf", str)


def gen_char(s):
    k = s.draw(8)
    if k <= 3:
        return s.choice("aAzZ09 _-~")
    if k <= 5:
        return chr(32 + s.draw(95))
    if k == 6:
        return chr(s.choice([0, 7, 8, 9, 10, 11, 12, 13, 27, 34, 92, 94, 127, 128, 160, 255, 31, 1, 26]))
    return chr(s.draw(256))


def gen_str(s, hi=24):
    k = s.draw(4)
    if k == 0:
        return "".join(s.choice("ab") for _ in range(s.size(0, hi)))
    if k == 1:
        return "".join(s.choice("aAbB01 \t\n") for _ in range(s.size(0, hi)))
    return "".join(gen_char(s) for _ in range(s.size(0, hi)))


CHAR = Ty("char", gen_char, "C.chr", "C.wchr", lambda c: str(ord(c)))
STR = Ty("string", gen_str, "C.str", "C.wstr", hexs)


def gen_real(s):
    k = s.draw(14)
    if k == 0:
        return s.choice([0.0, -0.0, 1.0, -1.0, 0.5, 2.0, float("inf"), float("-inf"), 5e-324, -5e-324,
                         2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308, 1e22, 1e23, 0.1])
    if k <= 2:
        return float(s.int(-1000, 1000))
    if k <= 4:
        return s.int(-100000, 100000) / s.choice([2.0, 4.0, 10.0, 100.0, 1000.0, 3.0, 7.0])
    if k <= 6:
        return h2f("%016x" % (s.draw(1 << 64)) if True else 0)
    if k == 7:    # near integers boundary
        v = float(s.int(-3, 3)) + 2.0 ** s.draw(70) * (1 if s.draw(2) else -1) + s.choice([0.0, 0.5, 0.25, -0.5])
        return v
    if k == 8:    # subnormal
        v = h2f("%016x" % s.draw(1 << (1 + s.draw(52))))
        return -v if s.draw(2) else v
    if k == 9:    # decimal literal with few digits
        v = float("%de%d" % (s.int(-99999, 99999), s.int(-320, 305)))
        return v
    if k == 10:   # power of two neighbourhood
        e = s.int(-1074, 1023)
        b = int(struct.pack(">d", 2.0 ** e).hex(), 16) + s.int(-2, 2)
        return h2f("%016x" % max(0, b))
    if k == 11:
        return s.choice([float("nan"), 1.5, 2.5, -0.5, -1.5, 0.5, 3.5])
    if k == 12:
        return h2f("%04x%012x" % (s.choice([0x3ff0, 0x3fe0, 0x4000, 0xbff0, 0xc000, 0x4330, 0x4340, 0x43e0]), s.draw(1 << 48)))
    return (s.draw(1 << 53) - (1 << 52)) * 2.0 ** s.int(-60, 20)


REAL = Ty("real", gen_real, "C.real", "C.wreal", f2h)


def LIST(t, hi=16):
    return Ty("%s list" % t.name, lambda s: s.list(t.gen, 0, hi), "(C.list %s)" % t.rd, "(C.wlist %s)" % t.wr,
              lambda v: " ".join([str(len(v))] + [t.enc(x) for x in v]))


def OPT(t):
    return Ty("%s option" % t.name, lambda s: t.gen(s) if s.draw(3) else None, "(C.opt %s)" % t.rd,
              "(C.wopt %s)" % t.wr, lambda v: "0" if v is None else "1 " + t.enc(v))


def PAIR(a, b):
    return Ty("(%s * %s)" % (a.name, b.name), lambda s: (a.gen(s), b.gen(s)), "(C.pair (%s, %s))" % (a.rd, b.rd),
              "(C.wpair (%s, %s))" % (a.wr, b.wr), lambda v: a.enc(v[0]) + " " + b.enc(v[1]))


def TRIPLE(a, b, c):
    return Ty("(%s * %s * %s)" % (a.name, b.name, c.name), lambda s: (a.gen(s), b.gen(s), c.gen(s)),
              "(C.triple (%s, %s, %s))" % (a.rd, b.rd, c.rd), "(C.wtriple (%s, %s, %s))" % (a.wr, b.wr, c.wr),
              lambda v: " ".join((a.enc(v[0]), b.enc(v[1]), c.enc(v[2]))))


class Fn:
    def __init__(self, name, args, res, sml, oracle, gen=None, weight=1):
        """sml: a function expression over the tuple of arguments (or the single argument), or a string with
           {0} {1} ... placeholders for the argument variables"""
        self.name, self.args, self.res, self.sml, self.oracle, self.gen = name, args, res, sml, oracle, gen
        self.weight = weight

    def gen_args(self, s):
        if self.gen:
            return tuple(self.gen(s))
        return tuple(a.gen(s) for a in self.args)


def driver_text(fns, prelude=""):
    out = ["structure Main = struct\n", prelude, "\n"]
    for i, f in enumerate(fns):
        vs = ["a%d" % k for k in range(len(f.args))]
        out.append("fun f%d () = let\n" % i)
        for v, a in zip(vs, f.args):
            out.append("  val %s = %s ()\n" % (v, a.rd))
        if "{0}" in f.sml or not f.args:
            e = f.sml
            for k, v in enumerate(vs):
                e = e.replace("{%d}" % k, v)
        else:
            e = "(%s) (%s)" % (f.sml, ", ".join(vs))
        out.append("  in (%s) (%s) end\n" % (f.res.wr, e))
    out.append("val table : (unit -> unit) vector = Vector.fromList [%s]\n" % ", ".join("f%d" % i for i in range(len(fns))))
    out.append("val main = C.main (fn () => (Vector.sub (table, C.int ())) ())\nend\n")
    return "".join(out)


def codec_text():
    return open(os.path.join(vbuild.VERIF, "sml", "codec.sml")).read()


def norm(ans):
    """all NaNs are alike"""
    if "7ff" in ans or "fff" in ans:
        out = []
        for t in ans.split(" "):
            if len(t) == 16 and (t.startswith("7ff") or t.startswith("fff")):
                v = int(t, 16)
                if (v & 0x7ff0000000000000) == 0x7ff0000000000000 and (v & 0xfffffffffffff):
                    t = "nan"
            out.append(t)
        return " ".join(out)
    return ans


def table_part(name, fns, libs=("$/basis.cm",), prelude="", n=(20000, 400000), nontrivial=None, extra_sml=(),
               known=None, isreal=False, batch=400, timeout=60, jobs=None, env=None):
    """builds the driver now and returns the Part"""
    img = pbt.build_driver(name, [("codec.sml", codec_text())] + list(extra_sml) +
                           [("driver.sml", driver_text(fns, prelude))], libs)
    wts = [(f.weight, i) for i, f in enumerate(fns)]

    def gen(s):
        i = s.weighted(wts)
        return (i, fns[i].gen_args(s))

    def req(c):
        i, args = c
        return "%d %s" % (i, " ".join(t.enc(a).replace("nan", "7ff8000000000000") if isreal else t.enc(a)
                                      for t, a in zip(fns[i].args, args)))

    def judge(c, ans):
        i, args = c
        f = fns[i]
        try:
            exp = f.oracle(*args)
            if callable(exp):
                return exp(ans)
            exp = f.res.enc(exp)
        except Exn as e:
            exp = "!" + e.name
        except Any:
            return None
        got = norm(ans) if isreal else ans
        if got != exp:
            return "%s%r: expected %s, got %s" % (f.name, args, exp, got)
        return None

    return pbt.Part(name, gen, req, judge, n=n, driver=lambda: pbt.Driver(img, timeout=timeout, env=env), batch=batch,
                    show=lambda c: "%s%r" % (fns[c[0]].name, c[1]),
                    nontrivial=nontrivial or (lambda c: True),
                    classify=lambda c: [fns[c[0]].name], known=known, jobs=jobs)
