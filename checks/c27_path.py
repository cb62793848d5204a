"""C27: OS.Path against an executable model of the Basis chapter."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from table import *


def gen_arc(s, bad=False):
    k = s.draw(12)
    if k < 3:
        return s.choice(["a", "b", "c"])
    if k < 5:
        return s.choice([".", "..", "...", ".a", "a.", "a.b", "a.b.c", "..b", "a..b", ".a.b", ".."])
    if k == 5:
        return ""
    if k == 6:
        return "".join(s.choice("ab.~ \\:\xff\x01-") for _ in range(s.size(0, 8)))
    if k == 7 and bad:
        return s.choice(["a/b", "/", "a\0", "\0", "/a", "a/"])
    return s.choice("abcd")


def gen_path(s):
    p = "".join(s.choice(["a", "b", ".", "..", "/", "/", "//"]) for _ in range(s.size(0, 9))) if s.draw(3) == 0 else "/".join(gen_arc(s) for _ in range(s.size(0, 6)))
    k = s.draw(6)
    return "/" + p if k < 3 else p + "/" if k == 3 else p


PATH = Ty("string", gen_path, "C.str", "C.wstr", hexs)
ARC = Ty("string", lambda s: gen_arc(s, True), "C.str", "C.wstr", hexs)
ARCS = LIST(ARC, 6)
VOL = Ty("string", lambda s: s.choice(["", "", "", "", "C:", "/", "a"]), "C.str", "C.wstr", hexs)


def rel_pair(s):
    """often with a common prefix"""
    a = gen_path(s)
    if s.draw(2):
        return (a, gen_path(s))
    pre = a if s.draw(3) else "/" + a
    return tuple(pre + ("/" if s.draw(2) else "") + gen_path(s).lstrip("/" if s.draw(2) else "") for _ in range(2))


def exn(n):
    raise Exn(n)


def fs(p):
    """absolute?, arcs"""
    if p == "":
        return False, []
    return (True, p[1:].split("/")) if p[0] == "/" else (False, p.split("/"))


def ok(a):
    return "/" not in a and "\0" not in a


def ts(isabs, arcs):
    if not isabs and arcs and arcs[0] == "":
        exn("Path")
    if not all(map(ok, arcs)):
        exn("InvalidArc")
    return ("/" if isabs else "") + "/".join(arcs)


def to_string(isabs, vol, arcs):
    bad = set()
    if vol or (not isabs and arcs and arcs[0] == ""):
        bad.add("Path")
    if not all(map(ok, arcs)):
        bad.add("InvalidArc")
    if len(bad) == 2:
        return lambda ans: None if ans in ("!Path", "!InvalidArc") else "toString%r = %s; expected Path or InvalidArc" % ((isabs, vol, arcs), ans)
    if bad:
        exn(bad.pop())
    return ts(isabs, arcs)


def parent(p):
    a, l = fs(p)
    if a and l == [""]:
        return p
    if not l:
        return ".."
    if l[-1] == ".":
        l = l[:-1] + [".."]
    elif l[-1] == "":
        l = l[:-1] + [".."]
    elif l[-1] == "..":
        l = l + [".."]
    else:
        l = l[:-1]
        if not l:
            return "/" if a else "."
    return ts(a, l)


def split_df(p):
    a, l = fs(p)
    return (ts(a, l[:-1]), l[-1] if l else "")


def cat(l, m):
    return (l[:-1] if l and l[-1] == "" else l) + m


def join_df(d, f):
    if not ok(f):
        exn("InvalidArc")
    if d == "":
        return f
    a, l = fs(d)
    return ts(a, cat(l, [f]))


def split_be(p):
    i = p.rfind("/") + 1
    f = p[i:]
    j = f.rfind(".")
    if j > 0 and j < len(f) - 1:
        return (p[:i + j], f[j + 1:])
    return (p, None)


def join_be(b, e):
    if e is None or e == "":
        return b
    if not ok(e):
        raise Any
    return b + "." + e


def canon(p):
    a, l = fs(p)
    out = []
    for x in l:
        if x in ("", "."):
            continue
        if x == "..":
            if out and out[-1] != "..":
                out.pop()
                continue
            if a:
                continue
        out.append(x)
    return "/" + "/".join(out) if a else "/".join(out) or "."


def mk_abs(p, r):
    if not fs(r)[0]:
        exn("Path")
    if fs(p)[0]:
        return p
    return canon(ts(True, cat(fs(r)[1], fs(p)[1])))


def mk_rel(p, r):
    a, l = fs(p)
    if not fs(r)[0]:
        exn("Path")
    if not a:
        return p
    c = canon(r)
    if p == c:
        return "."
    m = fs(c)[1]
    if m == [""]:
        m = []
    if l == [""]:
        l = []
    while l and m and l[0] == m[0]:
        l, m = l[1:], m[1:]
    res = [".."] * len(m) + l
    if res and res[0] == "":     # a path that starts with an empty arc is not relative: any equivalent one will do
        def law(ans):
            q = bytes.fromhex(ans[1:]).decode("latin-1") if ans[:1] == "s" else None
            if q is None or q == "" or q[0] == "/" or canon(c + "/" + q) != canon(p):
                return "mkRelative{path=%r, relativeTo=%r} = %s, which is not equivalent" % (p, r, ans if q is None else repr(q))
        return law
    return "/".join(res) or "."


def concat(p, q):
    if fs(q)[0]:
        exn("Path")
    (a, l), (_, m) = fs(p), fs(q)
    return ts(a, cat(l, m))


OS_ = OPT(Ty("string", lambda s: s.choice(["", "a", "b.c", "tar", ".", "x/y"]), "C.str", "C.wstr", hexs))
P3 = Ty("x", None, None, "(fn {isAbs, vol, arcs} => (C.wbool isAbs; C.wstr vol; C.wlist C.wstr arcs))", lambda v: " ".join([BOOL.enc(v[0]), hexs(v[1]), LIST(STR).enc(v[2])]))
DF = Ty("x", None, None, "(fn {dir, file} => (C.wstr dir; C.wstr file))", lambda v: hexs(v[0]) + " " + hexs(v[1]))
BE = Ty("x", None, None, "(fn {base, ext} => (C.wstr base; C.wopt C.wstr ext))", lambda v: hexs(v[0]) + (" 0" if v[1] is None else " 1 " + hexs(v[1])))
FNS = [
    Fn("fromString", [PATH], P3, "OS.Path.fromString", lambda p: (fs(p)[0], "", fs(p)[1])),
    Fn("toString", [BOOL, VOL, ARCS], STR, "OS.Path.toString {{isAbs={0}, vol={1}, arcs={2}}}".replace("{{", "{").replace("}}", "}"), to_string, weight=2),
    Fn("toString o fromString", [PATH], STR, "OS.Path.toString (OS.Path.fromString {0})", lambda p: p),
    Fn("validVolume", [BOOL, VOL], BOOL, "OS.Path.validVolume {isAbs={0}, vol={1}}", lambda a, v: v == ""),
    Fn("getVolume", [PATH], STR, "OS.Path.getVolume", lambda p: ""),
    Fn("getParent", [PATH], STR, "OS.Path.getParent", parent, weight=2),
    Fn("splitDirFile", [PATH], DF, "OS.Path.splitDirFile", split_df, weight=2),
    Fn("joinDirFile", [PATH, ARC], STR, "OS.Path.joinDirFile {dir={0}, file={1}}", join_df, weight=2),
    Fn("dir", [PATH], STR, "OS.Path.dir", lambda p: split_df(p)[0]), Fn("file", [PATH], STR, "OS.Path.file", lambda p: split_df(p)[1]),
    Fn("splitBaseExt", [PATH], BE, "OS.Path.splitBaseExt", split_be, weight=2),
    Fn("joinBaseExt", [PATH, OS_], STR, "OS.Path.joinBaseExt {base={0}, ext={1}}", join_be, weight=2),
    Fn("joinBaseExt o splitBaseExt", [PATH], STR, "OS.Path.joinBaseExt (OS.Path.splitBaseExt {0})", lambda p: p),
    Fn("base", [PATH], STR, "OS.Path.base", lambda p: split_be(p)[0]), Fn("ext", [PATH], OPT(STR), "OS.Path.ext", lambda p: split_be(p)[1]),
    Fn("mkCanonical", [PATH], STR, "OS.Path.mkCanonical", canon, weight=4), Fn("isCanonical", [PATH], BOOL, "OS.Path.isCanonical", lambda p: p == canon(p), weight=2),
    Fn("mkAbsolute", [PATH, PATH], STR, "OS.Path.mkAbsolute {path={0}, relativeTo={1}}", mk_abs, gen=rel_pair, weight=3),
    Fn("mkRelative", [PATH, PATH], STR, "OS.Path.mkRelative {path={0}, relativeTo={1}}", mk_rel, gen=rel_pair, weight=4),
    Fn("mkAbsolute o mkRelative", [PATH, PATH], STR, "OS.Path.mkCanonical (OS.Path.mkAbsolute {path=OS.Path.mkRelative {path={0}, relativeTo={1}}, relativeTo={1}})",
       lambda p, r: canon(p) if fs(p)[0] else mk_abs(p, r), gen=lambda s: ["/" + x for x in rel_pair(s)], weight=3),
    Fn("isAbsolute", [PATH], BOOL, "OS.Path.isAbsolute", lambda p: fs(p)[0]), Fn("isRelative", [PATH], BOOL, "OS.Path.isRelative", lambda p: not fs(p)[0]),
    Fn("isRoot", [PATH], BOOL, "OS.Path.isRoot", lambda p: p == "/"),
    Fn("concat", [PATH, PATH], STR, "OS.Path.concat", concat, weight=2),
    Fn("fromUnixPath", [PATH], STR, "OS.Path.fromUnixPath", lambda p: p), Fn("toUnixPath", [PATH], STR, "OS.Path.toUnixPath", lambda p: p),
]


def parts():
    return [table_part("paths", FNS, n=(60000, 2000000), nontrivial=lambda c: any(isinstance(x, str) and len(x) > 2 for x in c[1]))]


if __name__ == "__main__":
    pbt.main("C27", "a case is one OS.Path function on generated paths (empty, current, parent and dotted arcs, repeated and trailing separators); it counts when a path of more than two characters is involved", parts, [])
