"""C35: signals, masks, handlers, interval timers and alarms, for every history; computations are not disturbed by handlers."""
import os, re, signal, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, vbuild
from table import codec_text

IMG = None
MAIN = "structure Main = struct val main = GD.main end\n"
NAMES = ["HUP", "INT", "QUIT", "USR1", "USR2", "PIPE", "ALRM", "TERM", "CHLD", "CONT", "TSTP", "TTIN", "TTOU", "URG", "VTALRM", "WINCH", "IO", "GC"]
NUM = {n: getattr(signal, "SIG" + n) for n in NAMES if n != "GC"}
ORDER = sorted(NUM, key=lambda n: NUM[n])
QUIET = ("CHLD", "CONT", "URG", "WINCH")       # the default action is to ignore
ACTIVE = ["HUP", "INT", "QUIT", "TERM", "PIPE"]     # may have handlers which act on the others
PASSIVE = ["USR1", "USR2", "IO", "WINCH", "URG", "CONT", "CHLD", "VTALRM", "ALRM", "TTIN", "TTOU"]
ALL = ACTIVE + PASSIVE


class Skip(Exception):
    pass


def tok(x):
    if isinstance(x, str):
        return "s" + x.encode().hex()
    if isinstance(x, Raw):
        return x.t
    if isinstance(x, tuple):
        return " ".join(tok(y) for y in x)
    if isinstance(x, list):
        return " ".join([str(len(x))] + [tok(y) for y in x])
    return str(x)


class Raw:
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return self.t


def enc_act(a):
    if a[0] in "ID":
        return Raw(a[0])
    return (Raw("H"), a[1], enc_body(a[2]))


def enc_body(b):
    k = b[0]
    if k in ("gc", "alloc"):
        return (Raw(k), b[1])
    if k == "kill":
        return (Raw(k), NUM[b[1]], b[2])
    if k == "set":
        return (Raw(k), b[1], enc_act(b[2]))
    if k == "mask":
        return (Raw(k), list(b[1]))
    return Raw(k)


def enc(o):
    k = o[0]
    if k in ("set", "ovr"):
        return (Raw(k), o[1], enc_act(o[2]), o[3])
    if k in ("kill",):
        return (Raw(k), NUM[o[1]], o[2])
    if k == "esc":
        return (Raw(k), NUM[o[1]], o[2])
    if k == "exn":
        return (Raw(k), NUM[o[1]])
    if k == "pause":
        return (Raw(k), o[1], NUM[o[2]], o[3])
    if k in ("mask", "unmask"):
        return (Raw(k), list(o[1]))
    if k == "timer":
        return (Raw(k), (1, o[1]) if o[1] is not None else 0)
    return (Raw(k),) + o[1:]


def line(ops):
    return "hist " + " ".join([str(len(ops))] + [tok(enc(o)) for o in ops])


def show_op(o):
    return "%s(%s)" % (o[0], ", ".join(str(x) for x in o[1:]))


class Model:
    def __init__(self, ign):
        self.act = {n: ("I",) if n in ign or n == "GC" else ("D",) for n in NAMES}
        self.mask = {n: 0 for n in NAMES}
        self.pend = set()
        self.saved = [("D",)] * 8
        self.thr = 1
        self.timer = None       # seconds, rounded, until the alarm
        self.log = {}
        self.esc = False
        self.waits = 0

    def kind(self, a):
        return a[0] if a[0] in "ID" else "H" + a[1]

    def setact(self, s, a):
        # whether a masked signal survives being ignored for a while is not specified
        if s in self.pend and (a[0] == "I" or a[0] == "D" and s in QUIET):
            raise Skip()
        self.act[s] = a

    def hit(self, s, n):
        """n deliveries of an unmasked signal"""
        a = self.act[s]
        if a[0] == "I" or a[0] == "D" and s in QUIET:
            return False
        if a[0] == "D":
            raise Skip()
        b = a[2]
        if b[0] == "kill" and n > 1:
            raise Skip()
        self.log[(s, a[1])] = self.log.get((s, a[1]), 0) + n
        if b[0] == "kill":
            return self.send(b[1], b[2])
        elif b[0] == "set":
            self.setact(b[1], b[2])
        elif b[0] == "gc" and s != "GC" and self.act["GC"][0] == "H" and b[1] >= self.thr:
            self.send("GC", 1)
        return b[0] == "esc"

    def send(self, s, n):
        # the system: SIGCONT discards pending stop signals, and these discard a pending SIGCONT
        if s == "CONT":
            self.pend -= {"TTIN", "TTOU", "TSTP"}
        elif s in ("TTIN", "TTOU", "TSTP"):
            self.pend.discard("CONT")
        if self.mask[s]:
            if self.act[s][0] == "I" or self.act[s][0] == "D" and s in QUIET:
                raise Skip()
            self.pend.add(s)
            return False
        return self.hit(s, n)

    def flush(self):
        go = [s for s in self.pend if not self.mask[s]]
        if len(go) > 1 and any(self.act[s][0] == "H" and self.act[s][2][0] in ("kill", "set") for s in go):
            raise Skip()
        for s in go:
            self.pend.discard(s)
        for s in go:
            self.hit(s, 1)

    def do(self, o):
        k = o[0]
        if k == "set":
            old = self.act[o[1]]
            self.chk(o[1], o[2])
            self.setact(o[1], o[2])
            self.saved[o[3]] = old
            return [self.kind(old)]
        if k == "ovr":
            old = self.act[o[1]]
            if old[0] != "I":
                self.chk(o[1], o[2])
                self.setact(o[1], o[2])
            self.saved[o[3]] = old
            return [self.kind(old)]
        if k == "inq":
            return [self.kind(self.act[o[1]])]
        if k == "restore":
            a = self.saved[o[2]]
            if o[1] not in ACTIVE and a[0] == "H" and a[2][0] in ("kill", "set") or o[1] == "GC" and a[0] == "H" and a[2][0] not in ("ret", "alloc"):
                raise Skip()
            self.chk(o[1], a)
            old = self.act[o[1]]
            self.setact(o[1], a)
            return [self.kind(old)]
        if k in ("mask", "unmask"):
            l = NAMES if o[1] == ["ALL"] else set(o[1])
            for s in l:
                self.mask[s] = self.mask[s] + 1 if k == "mask" else max(0, self.mask[s] - 1)
            self.flush()
            return []
        if k == "masked":
            l = [s for s in NAMES if self.mask[s]]
            return ["ALL"] if len(l) == len(NAMES) else [str(len(l))] + sorted(l)
        if k == "kill":
            self.send(o[1], o[2])
            return []
        if k == "esc":
            e = self.send(o[1], 1)
            return ["escaped" if e else "returned", "1"]
        if k == "exn":
            return ["raised" if self.send(o[1], 1) else "returned"]
        if k == "gc":
            # the number of collections is not determined, but a forced one counts
            if self.act["GC"][0] == "H" and o[1] >= self.thr:
                self.send("GC", 1)
            return []
        if k == "thr":
            self.thr = max(0, o[1])
            return []
        if k == "churn":
            return []
        if k == "list":
            return [str(len(NAMES))] + ORDER[:] + ["GC"]
        if k == "from":
            return ["1", o[1]] if o[1] in NAMES else ["0"]
        if k == "alarm":
            r = self.timer
            self.timer = float(o[1]) if o[1] else None
            return ["~%g" % (r or 0.0)]
        if k == "timer":
            self.timer = o[1] / 1e6 if o[1] is not None else None
            return []
        if k == "ticks":
            if self.act["ALRM"][0] != "H" or self.mask["ALRM"] or self.act["ALRM"][2][0] == "gc":
                raise Skip()
            self.wait()
            self.timer = None
            self.log[("ALRM", self.act["ALRM"][1])] = None      # how often is judged by the time
            return ["ticks"]
        if k == "pause":
            d, s, how = o[1:]
            if self.act[s][0] != "H" or self.mask[s] or self.act[s][2][0] != "ret" or s in ("CHLD", "GC") or self.timer is not None and how == 2:
                raise Skip()
            self.wait()
            self.send(s, 1)
            if not self.mask["CHLD"] or self.act["CHLD"][0] == "H":
                self.send("CHLD", 1)
            else:
                raise Skip()
            return ["1", "1"]
        if k == "sleep":
            self.wait()
            return ["1"]
        raise Exception(k)

    def wait(self):
        self.waits += 1
        if self.waits > 2:
            raise Skip()

    def chk(self, s, a):
        if a[0] == "D" and s in self.pend and s not in QUIET and s != "GC":
            raise Skip()        # it would end the process when unmasked


def run_model(ign, ops):
    import copy
    m = Model(ign)
    done, exp = [], []
    for o in ops:
        q = copy.deepcopy(m)
        q.log = {}
        try:
            e = q.do(o)
        except Skip:
            continue
        if any(q.act[s][0] == "D" and s not in QUIET + ("GC",) for s in q.pend):
            continue
        m = q
        done.append(o)
        exp.append((e, dict(m.log), m.act["GC"][0] == "H"))
    return done, exp


def spawn(text, al, ign, limit=15):
    def pre():
        for n in ORDER:
            signal.signal(NUM[n], signal.SIG_IGN if n in ign else signal.SIG_DFL)
        signal.pthread_sigmask(signal.SIG_SETMASK, [])
    try:
        p = subprocess.run([vbuild.TREE + "/bin/.run/run.amd64-linux", "@SMLload=" + IMG + ".amd64-linux", "@SMLalloc=" + al], input=(text + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=vbuild.env(), timeout=limit, preexec_fn=pre, start_new_session=True)
        return p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1")
    except subprocess.TimeoutExpired:
        return None


def one(c):
    al, ign, ops = c
    done, exp = run_model(ign, ops)
    if not done:
        return None
    hist = "; ".join(show_op(o) for o in done)
    r = spawn(line(done), al, ign)
    if r is None:
        return "the program did not end: " + hist
    rc, out, err = r
    got = [g.split() for g in out.split("\n")[0].split(";")[1:]]
    if rc != 0 or len(got) != len(done):
        return "the program ended with status %s, output %r, stderr %r after %s" % (rc, out[-200:], err[-200:], hist)
    for i, (o, g, (e, lg, gch)) in enumerate(zip(done, got, exp)):
        if "{" not in g:
            return "operation %d, %s, answered %s" % (i, show_op(o), " ".join(g))
        at = g.index("{")
        ans, log, gc = g[:at], {}, 0
        for x in g[at + 1:-1]:
            s, id, n = x.split("/")
            if s == "GC":
                gc += int(n)
                gid = id
                continue
            log[(s, id)] = log.get((s, id), 0) + int(n)
        want = {q: v for q, v in lg.items() if q[0] != "GC"}
        wgc = [v for q, v in lg.items() if q[0] == "GC"]
        where = "operation %d, %s" % (i, show_op(o))
        tail = " in " + "; ".join(show_op(q) for q in done[:i])
        if wgc and gc == 0:
            return where + ": the handler of the GC signal was not called" + tail
        if gc and not gch and not wgc and not (o[0] in ("set", "ovr", "restore")):
            return where + ": the handler of the GC signal was called" + tail
        if o[0] == "ticks":
            us, n = o[1:]
            el, cnt = int(ans[0]), int(ans[1])
            if el < n * us - 500 or cnt < n or cnt > el // us + 1:
                return where + ": %d ticks came in %d microseconds" % (cnt, el) + tail
            continue
        if o[0] == "masked" and ans and ans[0] != "ALL":
            ans = ans[:1] + sorted(ans[1:])
        if e and e[0][0] == "~":
            t = float(e[0][1:])
            if not (t - 1.01 <= int(ans[0]) <= t + 0.51 or t == 0.0 and ans[0] == "0") or t > 0 and ans[0] == "0":
                return where + " answered %s; %g seconds were left" % (ans[0], t) + tail
            ans = e
        if ans != e:
            return where + " answered %s; expected %s;" % (" ".join(ans), " ".join(e)) + tail
        if log != want:
            return where + ": the handlers were called for %s; expected %s;" % (sh(log), sh(want)) + tail
    return None


def sh(l):
    return "{" + ", ".join("%s by %s: %d" % (s, i, n) for (s, i), n in sorted(l.items())) + "}"


# ------------------------------------------------------------------ generators
def g_body(s, active):
    k = s.weighted([(5, "ret"), (2, "gc"), (2, "alloc"), (2, "esc"), (1, "exn"), (1, "cc"), (1, "mask")] + ([(3, "kill"), (2, "set")] if active else []))
    if k == "gc":
        return (k, s.draw(4))
    if k == "alloc":
        return (k, s.choice([10, 500, 5000]))
    if k == "kill":
        return (k, s.choice(PASSIVE), 1 + s.draw(4))
    if k == "set":
        t = s.choice(PASSIVE)
        return (k, t, ("I",) if s.draw(3) == 0 or t in () else ("H", "x%d" % s.draw(50), ("ret",)))
    if k == "mask":
        return (k, tuple(sorted(set(s.choice(ALL) for _ in range(1 + s.draw(3))))) if s.draw(3) else ("ALL",))
    return (k,)


def g_act(s, n, c):
    k = s.weighted([(8, "H"), (2, "I"), (2, "D")])
    if k != "H":
        return (k,)
    c[0] += 1
    b = g_body(s, n in ACTIVE)
    if n == "GC":
        b = ("alloc", 20) if s.draw(2) else ("ret",)
    return ("H", "h%d" % c[0], b)


def gen(s):
    ops, c = [], [0]
    pool = [s.choice(ALL + ["GC"]) for _ in range(1 + s.draw(5))]
    if s.draw(2):
        pool += ["ALRM"]
    ign = sorted(set(s.choice(ORDER) for _ in range(s.draw(3)))) if s.draw(3) == 0 else []
    for n in pool:
        if s.draw(5):
            ops.append(("set", n, g_act(s, n, c), s.draw(8)))
    sysp = [n for n in pool if n != "GC"] or ["USR1"]

    def g_mask():
        if s.draw(5) == 0:
            return ["ALL"]
        return [s.choice(pool if s.draw(4) else ALL + ["GC"]) for _ in range(s.draw(5))]
    for _ in range(1 + s.size(2, 50)):
        k = s.weighted([(5, "set"), (2, "ovr"), (3, "inq"), (2, "restore"), (6, "mask"), (6, "unmask"), (3, "masked"), (14, "kill"), (3, "esc"), (2, "exn"), (2, "gc"), (1, "thr"), (1, "churn"),
                        (1, "list"), (1, "from"), (2, "alarm"), (2, "timer"), (1, "ticks"), (1, "pause"), (1, "sleep")])
        n = s.choice(pool)
        if k in ("set", "ovr"):
            ops.append((k, n, g_act(s, n, c), s.draw(8)))
        elif k == "inq":
            ops.append((k, s.choice(NAMES)))
        elif k == "restore":
            ops.append((k, n, s.draw(8)))
        elif k in ("mask", "unmask"):
            ops.append((k, g_mask()))
        elif k in ("masked", "list"):
            ops.append((k,))
        elif k == "kill":
            ops.append((k, s.choice(sysp), s.choice([1, 1, 1, 2, 3, 10])))
        elif k == "esc":
            ops.append((k, s.choice(sysp), s.choice([0, 100, 3000])))
        elif k == "exn":
            ops.append((k, s.choice(sysp)))
        elif k in ("gc", "thr"):
            ops.append((k, s.draw(7) - (1 if k == "thr" else 0)))
        elif k == "churn":
            ops.append((k, s.choice([100, 5000, 60000])))
        elif k == "from":
            ops.append((k, s.choice(NAMES + ["", "FOO", "SIGHUP", "hup", "KILL", "GCX"])))
        elif k == "alarm":
            ops.append((k, s.choice([0, 0, 100, 7, 1000000])))
        elif k == "timer":
            ops.append((k, s.choice([None, None, 5200000, 8200000, 3600000000, 100000100000, 7800000])))
        elif k == "ticks":
            ops.append((k, 120000 + s.draw(100000), 1) if s.draw(3) == 0 else (k, s.choice([1000, 5000, 20000, 33333]), 1 + s.draw(3)))
        elif k == "pause":
            ops.append((k, 60, s.choice(sysp), s.draw(3)))
        else:
            ops.append((k, s.choice([0, 1, 999, 1000, 20000])))
    return (s.choice(["128k", "256k", "1M"]), ign, ops)


def show(c):
    return "%s ignoring %s: %s" % (c[0], c[1], "; ".join(show_op(o) for o in c[2]))


COMP = {"fib": (12, 22), "sort": (10, 300), "inf": (50, 700), "real": (20, 800), "str": (50, 1500), "exn": (20, 2000), "cc": (20, 2000), "tree": (50, 700), "arr": (20, 1000), "fp": (20, 2000), "gc": (4, 40)}


def gen_int(s):
    jobs = []
    for _ in range(1 + s.draw(6)):
        k = s.choice(sorted(COMP))
        lo, hi = COMP[k]
        jobs.append((k, lo + s.draw(hi - lo)))
    return (s.choice(["128k", "256k", "1M"]), jobs, s.choice(["ret", "gc", "alloc", "switch", "switch", "switch", "switchgc", "comp"]), s.choice([60, 60, 100, 200, 500]), 5 + s.draw(30))


def one_int(c):
    al, jobs, mode, us, reps = c
    if mode == "comp":
        us = max(us, 3000)      # the handler computes for a while
    if mode == "gc" or mode == "switchgc":
        us = max(us, 500)
    for us in (us, us * 10, us * 100):      # where a machine is too slow for the interval, the handler is all that runs
        t = "int " + " ".join([str(len(jobs))] + ["%s %d" % j for j in jobs] + [mode, str(us), str(reps)])
        r = spawn(t, al, [], 20)
        if r is not None:
            break
    else:
        return "the program did not end"
    rc, out, err = r
    x = out.split()
    if rc != 0 or len(x) != 3:
        return "the program ended with status %s, output %r, stderr %r" % (rc, out[-200:], err[-200:])
    if x[0] != "0":
        return "%s results differ from those of the undisturbed computations (%s ticks, %s switches)" % tuple(x)
    return None


def evaluator(f):
    def ev(ctx, cases):
        return [f(c) for c in cases]
    return ev


def parts():
    global IMG
    IMG = pbt.build_driver("sig", [("codec.sml", codec_text()), ("sig.sml", open(os.path.join(vbuild.VERIF, "sml", "sig.sml")).read()), ("main.sml", MAIN)], ["$/basis.cm"])
    return [pbt.Part("histories", gen, evaluate=evaluator(one), n=(6000, 200000), batch=8, show=show, key=show, classify=lambda c: sorted(set(o[0] for o in c[2])),
                     rule="a handler is installed and a signal sent", nontrivial=lambda c: any(o[0] == "set" and o[2][0] == "H" for o in c[2]) and any(o[0] == "kill" for o in c[2])),
            pbt.Part("interrupts", gen_int, racy=60, evaluate=evaluator(one_int), n=(1600, 60000), batch=4, show=str, key=str, classify=lambda c: [c[2]] + sorted(set(j[0] for j in c[1])),
                     rule="at least two computations under the timer", nontrivial=lambda c: len(c[1]) > 1)]


if __name__ == "__main__":
    pbt.main("C35", "a case is a history of signal operations judged by a model, or computations under timer signals judged by their undisturbed results", parts, [])
