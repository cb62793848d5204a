"""C07: garbage collection never changes what a program observes."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import graphmodel as gm
import pbt, prog, vbuild
from table import codec_text

ALLOCS = ["128k", "512k", "150k", "200k", "256k", "1M", "4M"]
NGENS = [5, 2, 3, 4, 6, 7, 14, 1]
VMC = [None, 0, 1, 2, 3, 5]
IMG = None

MAIN = """
structure Main = struct
  fun main (_ : string, _ : string list) = C.main G.run ("", [])
end
"""


def driver_files():
    return [("codec.sml", codec_text()), ("graph.sml", open(os.path.join(vbuild.VERIF, "sml", "graph.sml")).read()),
            ("main.sml", MAIN)]


def heap_args(cfg):
    a = ["@SMLalloc=" + cfg[0], "@SMLngens=%d" % cfg[1]]
    if cfg[2] is not None:
        a.append("@SMLvmcache=%d" % cfg[2])
    return a


def gen_cfg(s):
    return (s.choice(ALLOCS), s.choice(NGENS), s.choice(VMC))


def gen(s):
    return (gen_cfg(s), gm.gen_history(s, 4, 160))


def run_img(img, args, inp, timeout=60, cwd=None):
    p = subprocess.Popen([vbuild.TREE + "/bin/sml", "@SMLload=" + img] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=vbuild.env(), cwd=cwd, start_new_session=True)
    try:
        out, err = p.communicate(inp, timeout=timeout)
        return p.returncode, out.decode("latin-1"), err.decode("latin-1")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return "timeout", "", ""


def evaluate(ctx, cases):
    res = []
    for cfg, ops in cases:
        rc, out, err = run_img(IMG, heap_args(cfg), (gm.line(ops) + "\n").encode())
        lines = out.splitlines()
        if rc != 0 or len(lines) != 1:
            res.append("the program ended with status %s, output %r, stderr %r" % (rc, out[:200], err[-300:]))
            continue
        res.append(gm.judge(ops, lines[0].split()))
    return res


# ------------------------------------------------------------------ volume
PRESS_MAIN = """
structure Main = struct
  fun main (_ : string, _ : string list) = C.main Press.run ("", [])
end
"""
PIMG = None
KINDS = ["int array", "array of refs", "array of pairs", "bytes", "real array", "string", "int vector", "vector of refs", "real vector", "list",
         "list of strings", "big integer", "tree", "closures", "reals", "array of pairs from an array", "array of one ref", "mixed"]


def gen_phase(s):
    if s.draw(6) == 5:      # plain arrays, large among small
        lo = 500 + s.draw(12000)
        lo2 = s.choice([300, 100, 505])
        c2 = s.choice([80, 40, 120])
        return (s.choice([16, 16, 0]), 50 + s.draw(250), lo, lo + s.draw(8000), s.choice([20, 60, 2000]), 0, s.choice([0, 100]), s.choice([-1, 1]),
                0, c2, lo2, lo2 + s.draw(10), s.choice([2000, 300]))
    k = s.draw(18)
    big = s.draw(4)
    if k in (12,):
        lo, hi = s.draw(12), 11
    elif big == 0:
        lo = 1 + s.draw(40)
        hi = lo + s.draw(100)
    elif big == 1:
        lo = 200 + s.draw(400)
        hi = lo + s.draw(800)
    elif big == 2:
        lo = s.choice([500, 511, 512, 513, 1000, 2000, 4000])
        hi = lo + s.draw(3000)
    else:
        lo = 4000 + s.draw(12000)
        hi = lo + s.draw(6000)
    if k < 12 and lo < 1:
        lo = 1
    hi = max(lo, hi)
    words = max(1, (lo + hi) // 2 * (1 if k in (0, 1, 4, 6, 8, 16) else 3))
    cnt = 1 + s.draw(max(2, min(600, 1200000 // words)))
    slots = s.choice([2000, 1, 10, 60, 300, 2000])
    if k == 17 and s.draw(8) == 7:
        k = -1
    touch = s.draw(6) if s.draw(2) else 0
    every = s.choice([0, 0, max(1, cnt // 2), max(1, cnt // 5)])
    second = (0, 0, 1, 1, 1)
    if s.draw(2):
        lo2 = s.choice([1, 10, 100, 300, 300, 505, 520])
        c2 = s.choice([1, 5, 20, 80])
        second = (s.choice([0, 5, 2, 9, 13, 4, 3, 7]), c2, lo2, lo2 + s.draw(20), s.choice([1, 100, 2000]))
        cnt = max(2, min(cnt, 1500000 // (words + c2 * (lo2 + 10))))
    return (k, cnt, lo, hi, slots, touch, every, s.choice([-1, 0, 1, 2, 7])) + second


def gen_press(s):
    return (gen_cfg(s), 1 + s.draw(1 << 30), [gen_phase(s) for _ in range(1 + s.size(0, 7))])


def press_line(c):
    return "%d %d %s" % (len(c[2]), c[1], " ".join(str(x) for p in c[2] for x in p))


def ev_press(ctx, cases):
    res = []
    for c in cases:
        rc, out, err = run_img(PIMG, heap_args(c[0]), (press_line(c) + "\n").encode(), timeout=100)
        o = out.split()
        if rc == "timeout":
            res.append("the program did not end within 100 s")
        elif rc != 0 or o != ["ok"]:
            res.append("the program ended with status %s, output %r, stderr %r" % (rc, out[:200], err[-300:]))
        else:
            res.append(None)
    return res


def show_press(c):
    return "heap %s, seed %d: %s" % (" ".join(heap_args(c[0])), c[1], "; ".join(
        "%d x %s of size %d..%d into %d slots, %d updates each, check every %d after collecting %d%s" % (p[1], KINDS[p[0]] if p[0] >= 0 else "dropping", *p[2:8],
                                                                                                       ", after up to %d x %s of size %d..%d into %d slots" % (p[9], KINDS[p[8]], *p[10:]) if p[9] else "") for p in c[2]))


# ------------------------------------------------------------------ code objects
def gen_code(s):
    n = 4 + s.size(0, 26)
    ops = []
    for _ in range(n):
        k = s.weighted([(5, "def"), (2, "drop"), (3, "gc"), (2, "churn"), (4, "call")])
        if k == "def":
            ops.append((k, s.draw(12), s.draw(6), s.draw(1000), s.choice([1, 3, 30, 120])))
        elif k == "drop":
            ops.append((k, s.draw(12)))
        elif k == "gc":
            ops.append((k, s.draw(8)))
        elif k == "churn":
            ops.append((k, s.choice([1000, 20000, 200000])))
        else:
            ops.append((k, s.draw(12), s.draw(50)))
    return (gen_cfg(s), ops)


def code_fn(shape, x, size):
    """an SML function expression of type int -> string, and its meaning"""
    pad = " ".join("| %d => \"c%d\"" % (1000 + i, i * x) for i in range(size))
    if shape == 0:
        return 'fn 0 => "zero" %s | n => Int.toString (n * %d)' % (pad, x), lambda n: "zero" if n == 0 else str(n * x)
    if shape == 1:
        return 'let val l = [%s] in fn n => String.concat (List.map Int.toString (n :: l)) end' % ", ".join(str(x + i) for i in range(size)), \
            lambda n: str(n) + "".join(str(x + i) for i in range(size))
    if shape == 2:
        return 'fn n => Int.toString (Real.floor (real n * %d.5 + 0.25)) ^ "%s"' % (x, "s" * size), lambda n: str((n * (2 * x + 1) * 2 + 1) // 4) + "s" * size
    if shape == 3:
        return 'fn n => IntInf.toString (IntInf.fromInt n * %d)' % (7 ** size * (x + 1)), lambda n: str(n * 7 ** size * (x + 1))
    if shape == 4:
        return 'let fun f (0, a) = a | f (k, a) = f (k - 1, (a * 31 + %d) mod 9973) in fn n => Int.toString (f (n * %d, 1)) end' % (x, size), lambda n: iter31(n * size, x)
    return 'let val r = ref %d in fn n => (r := !r + 0; if n mod 2 = 0 then raise Fail "even" else Int.toString (!r + n)) handle Fail s => s end' % x, \
        lambda n: "even" if n % 2 == 0 else str(x + n)


def iter31(k, x):
    a = 1
    for _ in range(k):
        a = (a * 31 + x) % 9973
    return str(a)


CODE_PRE = """
val fs : (int -> string) array = Array.array (12, fn _ => "none");
fun call (i, n) = print (String.concat ["=>", Array.sub (fs, i) n, "\\n"]);
fun churn n = let fun lp (0, l) = length l | lp (k, l) = lp (k - 1, if k mod 500 = 0 then [] else k :: l) in ignore (lp (n, [])) end;
"""


def ev_code(ctx, cases):
    res = []
    for cfg, ops in cases:
        src = [CODE_PRE]
        cur = [lambda n: "none"] * 12
        exp = []
        for o in ops:
            if o[0] == "def":
                t, m = code_fn(o[2], o[3], o[4])
                src.append("val _ = Array.update (fs, %d, %s);\n" % (o[1], t))
                cur[o[1]] = m
            elif o[0] == "drop":
                src.append('val _ = Array.update (fs, %d, fn _ => "none");\n' % o[1])
                cur[o[1]] = lambda n: "none"
            elif o[0] == "gc":
                src.append("val _ = SMLofNJ.Internals.GC.doGC %d;\n" % o[1])
            elif o[0] == "churn":
                src.append("val _ = churn %d;\n" % o[1])
            else:
                src.append("val _ = call (%d, %d);\n" % (o[1], o[2]))
                exp.append(cur[o[1]](o[2]))
        for i in range(12):
            src.append("val _ = call (%d, 5);\n" % i)
            exp.append(cur[i](5))
        rc, out = prog.sml("".join(src), args=heap_args(cfg), timeout=100)
        got = [l[2:] for l in out.splitlines() if l.startswith("=>")]
        if rc != 0 or len(got) != len(exp):
            res.append("the session ended with status %s after %d of %d answers: %s" % (rc, len(got), len(exp), out[-300:]))
            continue
        bad = [(g, e) for g, e in zip(got, exp) if g != e]
        res.append("a compiled function answered %s; expected %s" % (bad[0][0][:200], bad[0][1][:200]) if bad else None)
    return res


def show_code(c):
    return "heap %s: %s" % (" ".join(heap_args(c[0])), "; ".join(" ".join(map(str, o)) for o in c[1]))


def show(c):
    return "heap %s: %s" % (" ".join(heap_args(c[0])), gm.nstr(c[1]))


def classify(c):
    return ["alloc " + c[0][0], "ngens %d" % c[0][1]]


def parts():
    global IMG, PIMG
    IMG = pbt.build_driver("graph", driver_files(), ["$/basis.cm"])
    PIMG = pbt.build_driver("press", [("codec.sml", codec_text()), ("press.sml", open(os.path.join(vbuild.VERIF, "sml", "press.sml")).read()), ("main.sml", PRESS_MAIN)],
                            ["$/basis.cm"])
    return [pbt.Part("object graphs", gen, evaluate=evaluate, n=(3000, 60000), batch=10, show=show, classify=classify,
                     key=lambda c: show(c), rule="a history of allocations, updates, reads and collections with at least one collection",
                     nontrivial=lambda c: any(o[0] in "gG" for o in c[1]), shrink_budget=600),
            pbt.Part("volume", gen_press, evaluate=ev_press, n=(900, 15000), batch=4, show=show_press, key=show_press,
                     rule="allocates at least a nursery full", nontrivial=lambda c: sum(p[1] * p[2] for p in c[2]) * 8 > 150000, shrink_budget=150),
            pbt.Part("code objects", gen_code, evaluate=ev_code, n=(400, 6000), batch=4, show=show_code, key=show_code,
                     rule="defines a function and collects or allocates", nontrivial=lambda c: any(o[0] == "def" for o in c[1]) and any(o[0] in ("gc", "churn") for o in c[1]),
                     shrink_budget=100)]


if __name__ == "__main__":
    pbt.main("C07", "a case is a history of operations on an object graph under one heap configuration; it counts when it forces or provokes a collection",
             parts, [])
