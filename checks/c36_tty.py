"""C36: terminal control (Posix.TTY and friends) on pseudo terminals, against a twin terminal driven through the host's C library."""
import errno, fcntl, os, select, signal, struct, subprocess, sys, termios, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, vbuild

IMG = None
NCCS = 32
SPEEDS = [termios.B0, termios.B50, termios.B75, termios.B110, termios.B134, termios.B150, termios.B200, termios.B300, termios.B600, termios.B1200, termios.B1800, termios.B2400, termios.B4800, termios.B9600, termios.B19200, termios.B38400]
T = termios
ACT = {"now": T.TCSANOW, "drain": T.TCSADRAIN, "flush": T.TCSAFLUSH}
QUEUE = {"i": T.TCIFLUSH, "o": T.TCOFLUSH, "io": T.TCIOFLUSH}
FLOW = {"ooff": T.TCOOFF, "oon": T.TCOON, "ioff": T.TCIOFF, "ion": T.TCION}


# ------------------------------------------------------------------ histories
def bits(s, names):
    w = 0
    for n in names:
        if s.draw(2):
            w |= getattr(T, n)
    return w


def g_set(s):
    i = bits(s, ["BRKINT", "ICRNL", "IGNBRK", "IGNCR", "IGNPAR", "INLCR", "INPCK", "ISTRIP", "IXOFF", "IXON", "PARMRK"])
    o = bits(s, ["OPOST", "ONLCR"])
    c = bits(s, ["CLOCAL", "CREAD", "CSTOPB", "HUPCL", "PARENB", "PARODD"]) | s.choice([T.CS8, T.CS5, T.CS6, T.CS7])
    l = bits(s, ["ECHO", "ECHOE", "ECHOK", "ECHONL", "IEXTEN", "NOFLSH", "ISIG"]) | s.choice([0, T.ICANON])
    cc = bytearray(s.int(0, 255) if s.draw(4) == 0 else s.int(0, 31) for _ in range(NCCS))
    for n in ("VINTR", "VQUIT", "VSUSP"):      # no controlling process: signals go nowhere, but keep them rare in the data
        cc[getattr(T, n)] = s.choice([0, 3, 26, 28])
    if not l & T.ICANON:
        cc[T.VMIN], cc[T.VTIME] = s.choice([0, 1, 1, 5]), s.choice([0, 0, 1])
    return ["set", s.choice(list(ACT)), i, o, c, l, bytes(cc).hex(), s.choice(SPEEDS), s.choice(SPEEDS)]


def data(s):
    return bytes(s.choice([s.int(32, 126), s.int(32, 126), 10, 13, s.int(0, 31), s.int(0, 255)]) for _ in range(s.int(1, 12)))


def gen(s):
    ops = []
    for _ in range(s.int(1, 14)):
        k = s.int(0, 20)
        if k <= 3:
            ops.append(g_set(s))
        elif k == 4:
            ops.append(["upd", s.int(0, NCCS - 1), s.int(0, 255), s.choice(SPEEDS)])
        elif k <= 7:
            ops.append(["input", (data(s) + s.choice([b"", b"\n"])).hex()])
        elif k <= 10:
            ops.append(["read", s.choice([1, 3, 100])])
        elif k <= 12:
            ops.append(["write", data(s).hex()])
        elif k == 13:
            ops.append(["flush", s.choice(list(QUEUE))])
        elif k == 14:
            ops.append(["flow", s.choice(list(FLOW))])
        elif k == 15:
            ops.append(["resize", s.choice([0, 1, 24, s.int(0, 65535)]), s.choice([0, 1, 80, s.int(0, 65535)])])
        elif k == 16:
            ops.append([s.choice(["brk", "drain"])])
        elif k == 17:
            ops.append(["winsz"])
        elif k == 18:
            ops.append(["names"])
        elif k == 19:
            ops.append(["bad", s.choice(["get", "flush", "flow", "brk", "drain", "winsz", "isatty", "ttyname", "getpgrp", "set", "setpgrp"]), s.choice(["null", "closed", "pipe"]), s.choice(list(QUEUE)), s.choice(list(FLOW))])
        else:
            ops.append(["get"])
    return ops


def name(e):
    n = errno.errorcode[e].lower()
    return "!" + n[1:] if n.startswith("e") else "!" + n


def attr(fd):
    a = T.tcgetattr(fd)
    cc = bytes(x if isinstance(x, int) else x[0] for x in a[6])
    return "%d %d %d %d x%s %d %d" % (a[0], a[1], a[2], a[3], cc.hex(), a[4], a[5])


def tset(fd, act, i, o, c, l, cc, isp, osp):
    ca = [bytes([b]) for b in bytes.fromhex(cc)]
    if not l & T.ICANON:
        ca[T.VMIN], ca[T.VTIME] = ca[T.VMIN][0], ca[T.VTIME][0]
    T.tcsetattr(fd, ACT[act], [i, o, c, l, isp, osp, ca])


def fail(f):
    try:
        return f()
    except termios.error as e:
        return name(e.args[0])
    except OSError as e:
        return name(e.errno)


def settle(fd):
    """everything that has arrived at this end"""
    out = b""
    while select.select([fd], [], [], 0.004)[0]:
        try:
            b = os.read(fd, 4096)
        except OSError:
            break
        if not b:
            break
        out += b
    return out


class Pty:
    def __init__(self):
        self.m, self.s = os.openpty()
        self.name = os.ttyname(self.s)
        os.set_blocking(self.m, False)
        os.set_blocking(self.s, False)

    def close(self):
        os.close(self.m)
        os.close(self.s)


class Sys:
    """the system under test and the twin"""
    def __init__(self, drv):
        self.drv = drv
        self.a, self.b = Pty(), Pty()

    def close(self):
        self.drv.one("close")
        self.a.close()
        self.b.close()


def run_case(drv, ops):
    x = Sys(drv)
    try:
        r = drv.one("open %s 0" % x.a.name)
        if not r.isdigit():
            return "opening the terminal: " + r
        null = os.open("/dev/null", os.O_RDWR)
        pr, pw = os.pipe()
        try:
            for n, op in enumerate(ops):
                m = step(x, op, null, pr)
                if m:
                    return "step %d %s: %s" % (n, " ".join(map(str, op)), m)
                ga, gb = attr(x.a.s), attr(x.b.s)
                if ga != gb:
                    return "step %d %s: the terminal's attributes are %s; they should be %s" % (n, " ".join(map(str, op)), ga, gb)
                oa, ob = settle(x.a.m), settle(x.b.m)
                if len(oa) < len(ob):
                    time.sleep(0.05)
                    oa += settle(x.a.m)
                if len(ob) < len(oa):
                    time.sleep(0.05)
                    ob += settle(x.b.m)
                if oa != ob:
                    return "step %d %s: the terminal's other end received %r; it should receive %r" % (n, " ".join(map(str, op)), oa, ob)
        finally:
            for fd in (null, pr, pw):
                os.close(fd)
        return None
    finally:
        x.close()


def step(x, op, null, pipe):
    k = op[0]
    a, b, drv = x.a, x.b, x.drv
    ask = drv.one

    def same(got, exp):
        return None if got == exp else "answered %s; expected %s" % (got, exp)
    ok = lambda f: fail(lambda: (f(), "ok")[1])
    if k == "set":
        return same(ask("set t %s %d %d %d %d x%s %d %d" % tuple(op[1:])), ok(lambda: tset(b.s, *op[1:])))
    if k == "upd":
        def f():
            at = T.tcgetattr(b.s)
            cc = bytearray(y if isinstance(y, int) else y[0] for y in at[6])
            cc[op[1]] = op[2]
            at[6] = [bytes([y]) for y in cc]
            at[4] = at[5] = op[3]
            if not at[3] & T.ICANON:
                at[6][T.VMIN], at[6][T.VTIME] = cc[T.VMIN], cc[T.VTIME]
            T.tcsetattr(b.s, T.TCSANOW, at)
        return same(ask("upd t %d %d %d" % tuple(op[1:])), ok(f))
    if k == "get":
        return same(ask("get t"), attr(b.s))
    if k == "input":
        d = bytes.fromhex(op[1])
        for p in (a, b):
            fail(lambda: os.write(p.m, d))
        time.sleep(0.002)
        return None
    if k == "read":
        e = fail(lambda: "x" + os.read(b.s, op[1]).hex())
        return same(ask("read %d" % op[1]), e)
    if k == "write":
        d = bytes.fromhex(op[1])
        return same(ask("write x" + op[1]), fail(lambda: str(os.write(b.s, d))))
    if k == "flush":
        return same(ask("flush t " + op[1]), ok(lambda: T.tcflush(b.s, QUEUE[op[1]])))
    if k == "flow":
        return same(ask("flow t " + op[1]), ok(lambda: T.tcflow(b.s, FLOW[op[1]])))
    if k == "brk":
        return same(ask("brk t 0"), ok(lambda: T.tcsendbreak(b.s, 0)))
    if k == "drain":
        return same(ask("drain t"), ok(lambda: T.tcdrain(b.s)))
    if k == "resize":
        for p in (a, b):
            fcntl.ioctl(p.m, T.TIOCSWINSZ, struct.pack("HHHH", op[1], op[2], 0, 0))
        return None
    if k == "winsz":
        r, c, _, _ = struct.unpack("HHHH", fcntl.ioctl(b.s, T.TIOCGWINSZ, b"\0" * 8))
        return same(ask("winsz t"), "%d %d" % (r, c))
    if k == "names":
        return same(ask("ttyname t"), a.name) or same(ask("isatty t"), "1") or same(ask("ctermid"), "/dev/tty")
    if k == "bad":
        what, where, q, fl = op[1:]
        fd = {"null": "0", "closed": "77", "pipe": "1"}[where]      # the driver's standard input and output are pipes
        py = {"null": pipe, "closed": 777, "pipe": pipe}[where]
        args = {"flush": " " + q, "flow": " " + fl, "brk": " 0", "setpgrp": " me", "set": " now 0 0 0 0 x%s 15 15" % ("00" * NCCS)}.get(what, "")
        g = ask("%s %s%s" % (what, fd, args))
        if what == "winsz":
            e = "NONE"
        elif what == "isatty":
            e = "0"
        elif what == "ttyname":
            e = "!SysErr"
        elif what == "drain":
            e = ok(lambda: T.tcdrain(py))
        elif what == "brk":
            e = ok(lambda: T.tcsendbreak(py, 0))
        else:
            e = "!badf" if where == "closed" else "!notty"
        return same(g, e)
    raise Exception(k)


class Drv(pbt.Driver):
    def start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env, cwd=self.cwd, start_new_session=True,
                                  preexec_fn=lambda: signal.signal(signal.SIGTTOU, signal.SIG_IGN))
        os.set_blocking(self.p.stdout.fileno(), False)
        os.set_blocking(self.p.stdin.fileno(), False)
        self.rbuf = b""


def ev(f):
    def e(drv, cases):
        out = []
        for c in cases:
            m = None
            for _ in range(3):       # data crosses a pseudo terminal asynchronously: only what fails every time counts
                m = f(drv, c)
                if not m:
                    break
                drv.stop()
            out.append(m)
        return out
    return e


# ------------------------------------------------------------------ job control
def jgen(s):
    return [s.choice(["get", "get", "me", "kid", "kidnow", "other", "bad"]) for _ in range(s.int(1, 10))]


def run_job(drv, ops):
    drv.stop()
    p = Pty()
    try:
        me = drv.one("pid")
        r = drv.one("open %s 1" % p.name)
        if not r.isdigit():
            return "opening the terminal: " + r
        fg, kid = me, None
        if drv.one("ctermid") != "/dev/tty":
            return "ctermid"
        for n, op in enumerate(ops):
            if op == "get":
                g, e = drv.one("getpgrp t"), fg
            elif op == "me":
                g, e = drv.one("setpgrp t me"), "ok"
                fg = me
            elif op == "kid":
                kid = drv.one("kid")
                if not kid.isdigit():
                    return "fork: " + kid
                continue
            elif op == "kidnow":
                if kid is None:
                    continue
                g, e = drv.one("setpgrp t kid"), "ok"
                fg = kid
            elif op == "other":
                g, e = drv.one("setpgrp t 1"), "!perm"
            else:
                g, e = drv.one("setpgrp t 4000000"), "!srch"
            if g != e:
                return "step %d %s: answered %s; expected %s" % (n, op, g, e)
            if os.tcgetpgrp(p.m) != int(fg):
                return "step %d %s: the foreground group is %d; it should be %s" % (n, op, os.tcgetpgrp(p.m), fg)
        return None
    finally:
        drv.one("close")
        drv.stop()
        p.close()


def const(drv, cases):
    out = []
    for c in cases:
        got = dict(x.split("=") for x in drv.one("const").split())
        bad = [(k, v, getattr(T, k)) for k, v in got.items() if int(v) != getattr(T, k)]
        out.append("the constant %s is %s; the host says %d" % bad[0] if bad else None)
    return out


def parts():
    global IMG
    IMG = pbt.build_driver("tty", [("tty.sml", open(os.path.join(vbuild.VERIF, "sml", "tty.sml")).read())], ["$/basis.cm"])
    mk = lambda: Drv(IMG, timeout=10)
    show = lambda c: "; ".join(" ".join(map(str, o)) if isinstance(o, list) else o for o in c) if c else ""
    return [pbt.Part("constants", lambda s: [s.draw(2)], evaluate=const, n=(2, 2), driver=mk, jobs=1, show=lambda c: "all constants"),
            pbt.Part("terminal", gen, evaluate=ev(run_case), n=(2400, 120000), driver=mk, batch=25, rule="at least three operations, one of them a change of attributes", nontrivial=lambda c: len(c) > 2 and any(o[0] in ("set", "upd") for o in c),
                     classify=lambda c: sorted(set(o[0] for o in c)), show=show),
            pbt.Part("job control", jgen, evaluate=ev(run_job), n=(120, 3000), driver=mk, batch=10, rule="the foreground group changes", nontrivial=lambda c: "me" in c or "kidnow" in c, show=show)]


if __name__ == "__main__":
    pbt.main("C36", "a case is a history of terminal operations on a pseudo terminal; a second one driven through the host's C library is the oracle", parts, [])
