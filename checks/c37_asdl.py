"""C37: ASDL pickles: the SML and C++ libraries write and read the documented format."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, vbuild

TMP = os.path.join(vbuild.WORK, "asdl")
IMG = None


# ------------------------------------------------------------------ the format (asdl/doc/manual-3.0/pickles.tex)
def p_uint(n):
    for k, lim in enumerate((0x3f, 0x3fff, 0x3fffff, 0x3fffffff)):
        if n <= lim:
            return (n | k << (8 * k + 6)).to_bytes(k + 1, "big")
    raise Exception(n)


def p_int(n):
    s, u = (1, -(n + 1)) if n < 0 else (0, n)
    for k, lim in enumerate((0x1f, 0x1fff, 0x1fffff, 0x1fffffff)):
        if u <= lim:
            return (u | (s << (8 * k + 5)) | k << (8 * k + 6)).to_bytes(k + 1, "big")
    raise Exception(n)


def p_integer(n):
    s, u = (0x40, -n) if n < 0 else (0, n)
    ds = []
    while u >= 64:
        ds.insert(0, u & 0x7f)
        u >>= 7
    ds.insert(0, u | s)
    return bytes([d | 0x80 for d in ds[:-1]] + ds[-1:])


def p_str(b):
    return p_uint(len(b)) + b


def pickle(t, v):
    if t == "int":
        return p_int(v)
    if t == "uint":
        return p_uint(v)
    if t == "bool":
        return bytes([2 if v else 1])
    if t in ("str", "id"):
        return p_str(v)
    if t == "tag8":
        return bytes([v])
    if t == "integer":
        return p_integer(v[1])
    if t == "pt":
        return p_int(v[0]) + p_uint(v[1]) + p_str(v[2])
    if t[-1] == "?":
        if v is None:
            return b"\0"
        if t in ("bool?", "col?", "big?"):
            return pickle({"bool?": "bool", "col?": "tag8", "big?": "uint"}[t], v)
        return b"\1" + pickle(t[:-1], v)
    if t[-1] == "*":
        e = {"col": "tag8", "big": "uint"}.get(t[:-1], t[:-1])
        return p_uint(len(v)) + b"".join(pickle(e, x) for x in v)
    raise Exception(t)


def hx(b):
    return "x" + b.hex()


# the C++ driver's notation
def c_val(t, v):
    if t in ("int", "uint", "tag8", "col", "big"):
        return str(v)
    if t == "bool":
        return "1" if v else "0"
    if t == "str":
        return hx(v)
    if t == "integer":
        k, n = v
        return "%s %s" % (k, hx(p_integer(n)) if k == "p" else n)
    if t == "pt":
        return "%d %d %s" % (v[0], v[1], hx(v[2]))
    if t[-1] == "?":
        return "0" if v is None else "1 " + c_val(t[:-1], v)
    return " ".join([str(len(v))] + [c_val(t[:-1], x) for x in v])


def fits(n, lo, hi):
    return str(n) if lo <= n <= hi else "ov"


def c_read(t, v):
    if t == "integer":
        n = v[1]
        # (the sign bit alone decides the magnitude of the unsigned conversions of negative numbers, which are not specified)
        i32, i64 = fits(n, -2**31, 2**31 - 1), fits(n, -2**63, 2**63 - 1)
        u32, u64 = (fits(n, 0, 2**32 - 1), fits(n, 0, 2**64 - 1)) if n >= 0 else ("*", "*")
        return " ".join(["-1" if n < 0 else "1", i32, u32, i32, i64, u32, u64, hx(p_integer(n))])
    if t[-1] == "?" and v is not None:
        return "1 " + c_read(t[:-1], v)
    return c_val(t, v)


def s_val(t, v):
    if t == "integer":
        return str(v[1])
    if t in ("str", "id"):
        return hx(v)
    if t == "bool?":
        return "n" if v is None else "1" if v else "0"
    return c_val(t, v)


CT = ["int", "uint", "bool", "str", "tag8", "integer", "int?", "uint?", "bool?", "str?", "integer?", "col?", "big?", "col*", "big*", "pt?", "pt*", "int*", "uint*"]
ST = ["int", "uint", "bool", "bool?", "str", "id", "integer", "tag8"]
EDGE = sorted(set(b + d for k in (5, 6, 7, 8, 13, 14, 15, 16, 21, 22, 23, 24, 28, 29) for b in (1 << k,) for d in (-2, -1, 0, 1)))


def g_mag(s, bits):
    if s.draw(3) == 0:
        return s.choice([e for e in EDGE if e < 1 << bits])
    return s.draw(1 << (1 + s.draw(bits)))


def g_big(s):
    k = s.draw(6)
    if k == 0:
        n = s.draw(200)
    elif k == 1:
        n = max(0, (1 << s.draw(200)) - 1 + s.draw(3))
    elif k == 2:
        n = s.choice([2**31, 2**32, 2**63, 2**64]) - 2 + s.draw(4)
    else:
        n = 0
        for _ in range(1 + s.draw(8)):
            n = n << 31 | s.draw(1 << 31)
        n >>= s.draw(31)
    return -n if s.draw(2) else n


def g_val(s, t, cpp):
    if t == "int":
        n = g_mag(s, 29)
        return -n - 1 if s.draw(2) else n
    if t == "uint":
        return g_mag(s, 30)
    if t == "bool":
        return s.draw(2) == 1
    if t in ("str", "id"):
        n = s.choice([0, 1, 2, 5, 62, 63, 64, 65, 300]) if s.draw(20) else s.choice([16383, 16384, 16385])
        a, b = s.draw(256), s.draw(256)
        return bytes((a + i * b) % 256 for i in range(n))
    if t == "tag8":
        return s.draw(256)
    if t == "integer":
        n = g_big(s)
        if not cpp:
            return ("p", n)
        ks = ["p"] + [k for k, lo, hi in (("i32", -2**31, 2**31 - 1), ("u32", 0, 2**32 - 1), ("i64", -2**63, 2**63 - 1), ("u64", 0, 2**64 - 1), ("zero", 0, 0)) if lo <= n <= hi]
        return (s.choice(ks), n)
    if t == "col":
        return 1 + s.draw(255)
    if t == "big":
        return 1 + g_mag(s, 29)
    if t == "pt":
        return (g_val(s, "int", cpp), g_val(s, "uint", cpp), g_val(s, "str", cpp))
    if t[-1] == "?":
        return None if s.draw(3) == 0 else g_val(s, t[:-1], cpp)
    return [g_val(s, t[:-1], cpp) for _ in range(s.choice([0, 1, 2, 3, 7]) if s.draw(12) else s.choice([63, 64, 70]))]


def gen(types, cpp):
    def g(s):
        mode, kind = s.choice(["w", "r"]), s.choice(["m", "m", "m", "f"])
        items = []
        for _ in range(1 + s.size(0, 12)):
            t = s.choice(types)
            items.append((t, g_val(s, t, cpp)))
        items.append(("uint", 0x155))       # notices what is read too little or too much
        return mode, kind, items
    return g


def req(val):
    def r(c):
        mode, kind, items = c
        if mode == "w":
            return " ".join(["w", kind] + [t + " " + val(t, v) for t, v in items])
        return " ".join(["r", kind, hx(b"".join(pickle(t, v) for t, v in items))] + [t for t, v in items])
    return r


def judge(rd):
    def j(c, a):
        mode, kind, items = c
        if mode == "w":
            exp = hx(b"".join(pickle(t, v) for t, v in items))
            return None if a == exp else "the pickle is %s; the format says %s" % (a[:300], exp[:300])
        exp = [w for t, v in items for w in rd(t, v).split()]
        got = a.split()
        if len(got) == len(exp) and all(e in ("*", g) for e, g in zip(exp, got)):
            return None
        return "read %s; expected %s" % (" ".join(got)[:300], " ".join(exp)[:300])
    return j


def show(c):
    return "%s %s: %s" % ({"w": "write to", "r": "read from"}[c[0]], {"m": "memory", "f": "a file"}[c[1]], " ".join("%s %s" % (t, v if not isinstance(v, bytes) else v[:60]) for t, v in c[2]))


class Cpp(pbt.Driver):
    def __init__(self):
        pbt.Driver.__init__(self, "", cwd=TMP)
        self.cmd = [os.path.join(TMP, "drv")]


def parts():
    global IMG
    os.makedirs(os.path.join(TMP, "inc", "asdl"), exist_ok=True)
    vbuild.put(os.path.join(TMP, "inc", "asdl", "config.h"), b"#define SIZEOF_INT 4\n")
    src = os.path.join(vbuild.REPO, "asdl", "src", "lib", "cpp")
    r = subprocess.run(["g++", "-std=c++17", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-w", "-I" + os.path.join(TMP, "inc"), "-I" + os.path.join(TMP, "inc", "asdl"), "-I" + os.path.join(src, "include"), "-o", os.path.join(TMP, "drv"),
                        os.path.join(vbuild.VERIF, "cpp", "asdl_drv.cpp")] + sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith((".cpp", ".cxx", ".cc"))), capture_output=True, text=True)
    if r.returncode:
        raise pbt.DriverBuildError("the C++ library does not compile:\n" + r.stderr[-3000:])
    IMG = pbt.build_driver("asdl", [("asdl.sml", open(os.path.join(vbuild.VERIF, "sml", "asdl.sml")).read())], ["$/basis.cm", "$/smlnj-lib.cm", "$/asdl-lib.cm"])
    nt = dict(rule="at least two values", nontrivial=lambda c: len(c[2]) > 2, show=show, key=show, classify=lambda c: [c[0] + c[1]] + sorted(set(t for t, _ in c[2])))
    return [pbt.Part("C++", gen(CT, True), req(c_val), judge(c_read), n=(40000, 2000000), driver=Cpp, **nt),
            pbt.Part("SML", gen(ST, False), req(s_val), judge(s_val), n=(20000, 1000000), driver=lambda: pbt.Driver(IMG, cwd=TMP), **nt)]


if __name__ == "__main__":
    pbt.main("C37", "a case is a sequence of typed values, pickled or unpickled by the C++ or SML library, judged by the documented format", parts, [])
