"""C29: exported heap images resume with the complete program state."""
import os, shutil, subprocess, sys, tempfile, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import graphmodel as gm
import pbt, prog, vbuild
from table import codec_text
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c29_pickle
from c07_gc import heap_args, gen_cfg, code_fn, CODE_PRE

IMG = None

# The local variables of the loop (an int, a real, a string and a list) live in closures and continuations across exports.
MAIN = r"""
structure Main = struct
  fun hello (n, r, s, l) = (C.out := []; C.wint n; C.wreal r; C.wstr s; C.wlist C.wint l;
        C.wstr (CommandLine.name ()); C.wlist C.wstr (CommandLine.arguments ());
        TextIO.print (String.concatWith " " (List.rev (!C.out)) ^ "\n"))
  fun loop (n : int, r : real, s : string, l : int list) = (case TextIO.inputLine TextIO.stdIn
         of NONE => OS.Process.success
          | SOME line => (
              C.setLine line;
              case C.tok ()
               of "O" => (TextIO.output (TextIO.stdOut, C.answer G.run ^ "\n"); TextIO.flushOut TextIO.stdOut; loop (n+1, r * 1.5, s ^ "x", n :: l))
                | "M" => let val f = C.str () in
                    Unsafe.setVar [s, Int.toString n];
                    if SMLofNJ.exportML f then (print (String.concatWith "," (Unsafe.getVar ()) ^ "\n"); hello (n, r, s, l); loop (n+1, r + 0.5, s ^ "m", n :: l))
                    else (TextIO.print "exported\n"; loop (n, r, s, l)) end
                | "F" => let val f = C.str () in
                    SMLofNJ.exportFn (f, fn (name, args) => (
                      C.out := []; C.wstr name; C.wlist C.wstr args; TextIO.print (String.concatWith " " (List.rev (!C.out)) ^ "\n");
                      hello (n, r, s, l); loop (n+1, r - 0.25, s ^ "f", n :: l)));
                    OS.Process.failure end
                | t => raise C.Protocol t))
  fun main (_ : string, _ : string list) = loop (0, 1.0, "", [])
end
"""


def arg(s):
    k = s.draw(8)
    if k == 0:
        return "a" * s.choice([0, 1, 7, 8, 9, 100, 4000, 20000])
    if k == 1:
        return s.choice(["-x", "--", "@", "@SM", "@sml", "", " ", "a b", "%", "\xff\xfe", "'\"", "~1"])
    return "".join(chr(33 + s.draw(94)) for _ in range(s.draw(12))).replace("@SML", "")


def gen(s):
    """a chain of processes; each starts from the image its predecessor wrote, and runs operations"""
    m = gm.Model()
    nodes = []
    n = 2 + s.size(0, 2)
    for i in range(n):
        k = s.draw(12)
        pressure = s.draw(4) == 3
        ops = []
        for _ in range(s.size(2, 80)):
            op = gm.gen_pressure(s, m) if pressure else gm.gen_op(s, m)
            if pressure and op[0] == "a":
                op = op[:4]
            m.step(op)
            ops.append(op)
        ops.append(("?", 3000))
        args = [arg(s) for _ in range(s.choice([0, 0, 1, 2, 5, 300]))]
        nodes.append(dict(cfg=gen_cfg(s), ops=ops, exp=s.choice(["M", "F", "M"]), args=args, name=s.choice([None, None, "prog", "/x/y"]),
                          after=s.draw(2), extra=s.draw(3)))
    return nodes


def h(s):
    return "s" + s.encode("latin-1").hex()


def launch(img, node, inp, d):
    a = ["@SMLload=" + img] + heap_args(node["cfg"])
    if node["name"]:
        a.append("@SMLcmdname=" + node["name"])
    cmd = [(x.encode("latin-1")) for x in [vbuild.TREE + "/bin/sml"] + a + node["args"]]
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vbuild.env(), cwd=d, start_new_session=True)
    try:
        out, err = p.communicate(inp, timeout=60)
        return p.returncode, out.decode("latin-1").splitlines(), err.decode("latin-1")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return "timeout", [], ""


def f2h(x):
    return gm.f2h(x)


def hello_tok(st, name, args):
    n, r, s, l = st
    return " ".join([str(n), f2h(r), h(s), str(len(l))] + [str(x) for x in l] + [h(name), str(len(args))] + [h(x) for x in args])


EXTRA = [[("r", 0, 1), ("g", 15), ("?", 3000)], [("a", 3, 1000, 2), ("fa", 3, 0, 900, 0, 5), ("G", 0, 200), ("?", 3000)], [("G", 1, 600), ("g", 2), ("?", 3000)]]


def name_of(node):
    return node["name"] or vbuild.TREE + "/bin/sml"


def one(nodes, d):
    img = IMG
    ops_all, toks_all = [], []
    st = (0, 1.0, "", [])
    ex = None
    for i, nd in enumerate(nodes):
        last = i == len(nodes) - 1
        path = os.path.join(d, "img%d" % i)
        inp = "O " + gm.line(nd["ops"]) + "\n"
        expect = []
        if ex == "F":
            expect.append(" ".join([h(name_of(nd)), str(len(nd["args"]))] + [h(x) for x in nd["args"]]))
        if ex == "M":
            expect.append("%s,%d" % (st[2], st[0]))
        if ex:
            expect.append(hello_tok(st, name_of(nd), nd["args"]))
            n, r, s, l = st
            st = (n + 1, r + 0.5, s + "m", [n] + l) if ex == "M" else (n + 1, r - 0.25, s + "f", [n] + l)
        n, r, s, l = st
        st = (n + 1, r * 1.5, s + "x", [n] + l)
        if not last:
            inp += "%s %s\n" % (nd["exp"], h(path))
            if nd["exp"] == "M" and nd["after"]:
                inp += "O " + gm.line(EXTRA[nd["extra"]]) + "\n"
        rc, out, err = launch(img, nd, inp.encode(), d)
        where = "process %d of %d" % (i + 1, len(nodes))
        if rc != 0:
            return "%s ended with status %s, output %s, stderr %r" % (where, rc, [o[:100] for o in out], err[-300:])
        for e in expect:
            if not out or out[0] != e:
                return "%s: the resumed program announces %s; expected %s" % (where, (out or ["nothing"])[0][:300], e[:300])
            out = out[1:]
        if not out:
            return "%s: no answer" % where
        ops_all += nd["ops"]
        toks_all += out[0].split()
        e = gm.judge(ops_all, toks_all)
        if e:
            return "%s: %s" % (where, e)
        out = out[1:]
        if not last and nd["exp"] == "M":
            if not out or out[0] != "exported":
                return "%s: exportML did not return: %s" % (where, out[:1])
            if nd["after"]:
                if len(out) != 2:
                    return "%s: the exporting process did not continue" % where
                e = gm.judge(ops_all + EXTRA[nd["extra"]], toks_all + out[1].split())
                if e:
                    return "%s, after exporting: %s" % (where, e)
        ex = nd["exp"]
        if i > 0:
            os.unlink(img)
        if not last:
            if not os.path.exists(path):
                p = [x for x in os.listdir(d) if x.startswith("img%d" % i)]
                if not p:
                    return "%s wrote no image" % where
                path = os.path.join(d, p[0])
        img = path
    return None


def evaluate(ctx, cases):
    res = []
    for c in cases:
        d = tempfile.mkdtemp(prefix="verif-")
        try:
            res.append(one(c, d))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return res


def show(c):
    return " | ".join("[%s%s%s] %s; export %s%s" % (" ".join(heap_args(x["cfg"])), " name " + x["name"] if x["name"] else "", " %d args %s" % (len(x["args"]), [a[:30] for a in x["args"][:4]]) if x["args"] else "",
                                            gm.nstr(x["ops"]), x["exp"], " and continue" if x["after"] else "") for x in c)


# ------------------------------------------------------------------ interactive sessions
def gen_sess(s):
    procs = []
    for _ in range(2 + s.size(0, 2)):
        ops = []
        for _ in range(1 + s.size(0, 8)):
            k = s.weighted([(5, "def"), (2, "drop"), (2, "gc"), (1, "churn"), (4, "call"), (2, "type"), (2, "useType"), (1, "lib")])
            if k == "def":
                ops.append((k, s.draw(12), s.draw(6), s.draw(1000), s.choice([1, 3, 30, 120])))
            elif k == "drop":
                ops.append((k, s.draw(12)))
            elif k == "gc":
                ops.append((k, s.draw(8)))
            elif k == "churn":
                ops.append((k, s.choice([1000, 20000, 200000])))
            elif k == "call":
                ops.append((k, s.draw(12), s.draw(50)))
            elif k == "lib":
                ops.append((k, s.draw(100)))
            else:
                ops.append((k, s.draw(4), s.draw(100)))
        procs.append((gen_cfg(s), ops))
    return procs


def one_sess(procs, d):
    cur = [lambda n: "none"] * 12
    types = {}
    img = None
    for i, (cfg, ops) in enumerate(procs):
        src, exp = [], []
        if i == 0:
            src.append(CODE_PRE)
        for o in ops:
            if o[0] == "def":
                t, m = code_fn(o[2], o[3], o[4])
                src.append("val _ = Array.update (fs, %d, %s);\n" % (o[1], t))
                cur[o[1]] = m
            elif o[0] == "drop":
                src.append('val _ = Array.update (fs, %d, fn _ => "none");\n' % o[1])
                cur[o[1]] = lambda n: "none"
            elif o[0] == "gc":
                src.append("val _ = SMLofNJ.Internals.GC.doGC %d;\n" % o[1])
            elif o[0] == "churn":
                src.append("val _ = churn %d;\n" % o[1])
            elif o[0] == "call":
                src.append("val _ = call (%d, %d);\n" % (o[1], o[2]))
                exp.append(cur[o[1]](o[2]))
            elif o[0] == "type":
                src.append("structure S%d = struct datatype t = A%d of int | B of t * t fun f (A%d n) = n + %d | f (B (x, y)) = f x * f y fun ++ (x, y) = B (x, y) end;\n"
                           % (o[1], o[1], o[1], o[2]))
                types[o[1]] = o[2]
            elif o[0] == "lib":
                src.append('val _ = print (String.concat ["=>", Int.toString (IntBinaryMap.numItems (IntBinaryMap.insert (IntBinaryMap.singleton (1, 2), %d, 3))), "\\n"]);\n' % o[1])
                exp.append("1" if o[1] == 1 else "2")
            elif o[1] in types:
                src.append('val _ = print (let open S%d in String.concat ["=>", Int.toString (f (++ (A%d 3, A%d %d))), "\\n"] end);\n' % (o[1], o[1], o[1], o[2]))
                exp.append(str((3 + types[o[1]]) * (o[2] + types[o[1]])))
        for k in range(12):
            src.append("val _ = call (%d, 5);\n" % k)
            exp.append(cur[k](5))
        last = i == len(procs) - 1
        if not last:
            src.append('val _ = print (if SMLofNJ.exportML "i%d" then "resumed\\n" else "=>saved\\n");\n' % i)
            exp.append("saved")
            exp.append(cur[i % 12](7))
        a = heap_args(cfg) + (["@SMLload=" + img] if img else [])
        rc, out = run_stdin(a, "".join(src).encode("latin-1"), b"" if last else b"val _ = call (%d, 7);\n" % (i % 12), d)
        got = [l[l.index("=>") + 2:] for l in out.splitlines() if "=>" in l]
        where = "session %d of %d" % (i + 1, len(procs))
        if rc != 0 or len(got) != len(exp):
            return "%s ended with status %s after %d of %d answers: %s" % (where, rc, len(got), len(exp), out[-400:])
        bad = [(g, e) for g, e in zip(got, exp) if g != e]
        if bad:
            return "%s: answer %s; expected %s" % (where, bad[0][0][:200], bad[0][1][:200])
        if i and not out.splitlines()[0].endswith("resumed"):
            return "%s: the resumed image did not continue after the export: %r" % (where, out[:200])
        if not last:
            c = [x for x in os.listdir(d) if x == "i%d" % i or x.startswith("i%d." % i)]
            if not c:
                return "%s wrote no image" % where
            if img:
                os.unlink(os.path.join(d, img))
            img = c[0]
    return None


def run_stdin(args, inp, tail, d):
    """what follows the export is sent after it, since input which was already read belongs to the exported state"""
    p = subprocess.Popen([vbuild.TREE + "/bin/sml"] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=vbuild.env(), cwd=d, start_new_session=True)
    timer = threading.Timer(100, lambda: os.killpg(p.pid, 9))
    timer.start()
    buf = []

    def rd():
        for l in p.stdout:
            buf.append(l)
            if l.endswith(b"=>saved\n"):
                saved.set()
        saved.set()
    saved = threading.Event()
    t = threading.Thread(target=rd)
    t.start()
    try:
        p.stdin.write(inp)
        p.stdin.flush()
        if tail:
            saved.wait(100)
            p.stdin.write(tail)
        p.stdin.close()
    except OSError:
        pass
    p.wait()
    t.join()
    timer.cancel()
    return p.returncode, b"".join(buf).decode("latin-1")


def ev_sess(ctx, cases):
    res = []
    for c in cases:
        d = tempfile.mkdtemp(prefix="verif-")
        try:
            res.append(one_sess(c, d))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return res


def show_sess(c):
    return " | export | ".join("[%s] %s" % (" ".join(heap_args(cfg)), "; ".join(" ".join(map(str, o)) for o in ops)) for cfg, ops in c)


def parts():
    global IMG
    IMG = pbt.build_driver("heapx", [("codec.sml", codec_text()), ("graph.sml", open(os.path.join(vbuild.VERIF, "sml", "graph.sml")).read()), ("main.sml", MAIN)],
                           ["$/basis.cm"])
    return [c29_pickle.part(),
            pbt.Part("images", gen, evaluate=evaluate, n=(2600, 50000), batch=4, show=show, key=show, classify=lambda c: ["%d processes" % len(c), "first export " + c[0]["exp"]],
                     rule="at least 5 operations before the first export", nontrivial=lambda c: len(c[0]["ops"]) > 5, shrink_budget=200),
            pbt.Part("sessions", gen_sess, evaluate=ev_sess, n=(300, 3000), batch=2, show=show_sess, key=show_sess,
                     rule="a function or type is defined before an export", nontrivial=lambda c: any(o[0] in ("def", "type") for o in c[0][1]), shrink_budget=60)]


if __name__ == "__main__":
    pbt.main("C29", "a case is a chain of processes, each resuming from the image its predecessor exported; it counts when state was built before the export", parts, [])
