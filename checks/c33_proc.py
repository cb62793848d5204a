"""C33: processes, command line, environment, system databases, error codes and polling through the Basis."""
import errno, fcntl, grp, os, pwd, resource, select, shutil, signal, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, vbuild
from table import codec_text

ROOT = os.getuid() == 0
UID = 65534 if ROOT else None
IMG = HELPER = KILLREC = None
MAIN = "structure Main = struct val main = PD.main end\n"


def sml(name):
    return open(os.path.join(vbuild.VERIF, "sml", name)).read()


def tok(x):
    if isinstance(x, bytes):
        return "s" + x.hex()
    if isinstance(x, (list, tuple)):
        return " ".join([str(len(x))] + [tok(y) for y in x])
    return str(x)


def line(ops):
    return " ".join([str(len(ops))] + [" ".join([o[0]] + [tok(x) for x in o[1:]]) for o in ops])


def launch(ops, cwd, args=(), env=None, uid=UID, gid=None, groups=(), timeout=60, fullenv=None):
    kw = dict(user=uid, group=gid if gid is not None else uid, extra_groups=list(groups)) if uid is not None else {}
    e = fullenv if fullenv is not None else vbuild.env(env)
    p = subprocess.Popen([os.fsencode(vbuild.TREE + "/bin/.run/run.amd64-linux"), b"@SMLload=" + os.fsencode(IMG) + b".amd64-linux"] + list(args), stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, start_new_session=True, umask=0o22, **kw)
    try:
        out, err = p.communicate((line(ops) + "\n").encode(), timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        rc, out, err = "timeout", b"", b""
    try:                       # nothing may outlive the case
        os.killpg(p.pid, 9)
    except OSError:
        pass
    return p.pid, rc, out.decode("latin-1"), err.decode("latin-1")


def answers(out, n):
    ls = out.splitlines()
    if len(ls) != 1:
        return None
    got = [g.split() for g in ls[0].split(";")[1:]]
    return got if len(got) == n else None


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vc33-")
        os.chmod(self.d, 0o777)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def h(b):
    return "s" + b.hex()


def evaluator(one):
    def ev(ctx, cases):
        out = []
        for c in cases:
            with Scratch() as d:
                out.append(one(c, d))
        return out
    return ev


def cmp(ops, got, exp):
    for i, (o, x, y) in enumerate(zip(ops, got, exp)):
        if x != y:
            return "operation %d, %s, answered %s; expected %s" % (i, show_op(o), " ".join(x)[:300], " ".join(y)[:300])
    return None


def show_op(o):
    return "%s(%s)" % (o[0], ", ".join(str(x)[:120] for x in o[1:]))


def g_text(s, nonul=True, lo=0):
    k = s.draw(6)
    if k == 0:
        return s.choice([b"a", b"x=y", b"-c", b" ", b"'\"$`", b"\xff\xfe", b"--", b"*"])
    n = lo + s.choice([0, 1, 2, 6, 7, 8, 9, 15, 16, 17, 40])
    return bytes(1 + s.draw(255) for _ in range(n)) if k < 4 else bytes([97 + s.draw(26)]) * n


ALLOC = [b"@SMLalloc=128k", b"@SMLalloc=512k", b"@SMLalloc=1M"]


# ------------------------------------------------------------------ command line and environment
def gen_env(s):
    args = [g_text(s) for _ in range(s.size(0, 12))]
    args = [a for a in args if not a.startswith(b"@SML")]
    env = {}
    for i in range(s.size(0, 12)):
        env[s.choice([b"A", b"B", b"HOMEX", b"n" * 40, b"X_%d" % i, b"\xe9"])] = g_text(s)
    k = s.draw(8)
    if k == 7:        # a great many small variables
        for i in range(s.choice([300, 600, 1200, 3000, 6000])):
            env[b"V%d" % i] = b""
    elif k == 6:      # large values
        for i in range(1 + s.draw(12)):
            env[b"L%d" % i] = b"x" * s.choice([4070, 4090, 4096, 5000, 20000, 60000])
    elif k == 5:      # many arguments
        args = args + [b"p%d" % i for i in range(s.choice([300, 600, 2000, 5000]))]
    elif k == 4:
        args = args + [bytes([97 + i % 26]) * s.choice([4080, 4096, 9000, 50000]) for i in range(1 + s.draw(8))]
    q = [s.choice(sorted(env) + [b"NOT_THERE", b"", b"A", b"X_"]) for _ in range(s.draw(5))]
    rep = 1 + s.draw(3)
    return (s.choice(ALLOC), args, env, q, rep)


def one_env(c, d):
    al, args, env, q, rep = c
    ops = ([("args",), ("env",)] + [("getenv", x) for x in q] + [("pgetenv", x) for x in q] + [("gc", 0)]) * rep + [("args",), ("env",)]
    pid, rc, out, err = launch(ops, d, [al] + args, fullenv=env)
    got = answers(out, len(ops))
    if rc != 0 or got is None:
        return "the program ended with status %s, output %r, stderr %r" % (rc, out[:200], err[-300:])
    es = sorted(k + b"=" + v for k, v in env.items())
    ea = [str(len(args))] + [h(a) for a in args]
    ee = [str(len(es))] + [h(x) for x in es]
    g = [["1", h(env[x])] if x in env else ["0"] for x in q]
    exp = ([ea, ee] + g + g + [["u"]]) * rep + [ea, ee]
    return cmp(ops, got, exp)


def show_env(c):
    al, args, env, q, rep = c
    return "%s args %d %r env %d %r ask %r x%d" % (al.decode(), len(args), [a[:30] for a in args[:8]], len(env), [(k, v[:20]) for k, v in list(env.items())[:6]], q, rep)


# ------------------------------------------------------------------ child processes
SIGS = [1, 2, 3, 6, 9, 10, 12, 13, 14, 15]


def g_strs(s, hi=8):
    l = [g_text(s) for _ in range(s.size(0, hi))]
    if s.draw(8) == 7:
        l += [b"m%d" % i for i in range(s.choice([100, 511, 512, 600, 1500, 4000]))]
    return l


def g_code(s):
    return s.choice([0, 1, 2, 3, 127, 128, 255, s.draw(256)])


def g_pop(s, i):
    k = s.weighted([(3, "forkexit"), (1, "forkosexit"), (3, "forksig"), (2, "forks"), (2, "waitany"), (1, "waitnone"), (2, "waitnh"), (2, "stop"),
                    (6, "exec"), (3, "execfail"), (4, "system"), (3, "ucat"), (1, "ubin"), (3, "uenv"), (2, "ukill"), (2, "ureap"), (1, "setsid"), (1, "setpgid"), (1, "gc")])
    if k in ("forkexit", "waitnh", "stop", "ureap"):
        return (k, g_code(s))
    if k == "forkosexit":
        return (k, s.draw(2))
    if k in ("forksig", "ukill"):
        return (k, s.choice(SIGS))
    if k in ("forks", "waitany"):
        return (k, [g_code(s) for _ in range(s.draw(5))])
    if k in ("waitnone", "setsid"):
        return (k,)
    if k == "setpgid":
        return (k, s.draw(4))
    if k == "exec":
        return (k, s.draw(3), b"out%d" % i, s.choice([os.fsencode(HELPER), b"./helper", b"helper", b"nosuch", b"/dev/null"]), [b"h"] + g_strs(s), g_envl(s))
    if k == "execfail":
        return (k, s.draw(3), s.choice([b"/nosuch", b"nosuch", b"/dev/null", b".", b"plain/x"]), [b"h"] + g_strs(s), g_envl(s))
    if k == "system":
        c = g_code(s)
        return (k, s.choice([b"exit %d" % c, b"kill -%d $$" % s.choice([1, 2, 9, 15]), b"true", b"false", b"test \"$A\" = b; exit $?", b"(exit %d) | true" % c]))
    if k in ("ucat", "ubin"):
        return (k, s.choice([0, 1, 100, 4095, 4096, 4097, 30000, 60000]), 1 + s.draw(20))
    if k == "uenv":
        return (k, os.fsencode(HELPER), g_strs(s), g_envl(s))
    if k == "gc":
        return (k, s.draw(3))


def g_envl(s):
    l = [b"E%d=%s" % (i, g_text(s)) for i in range(s.size(0, 6))]
    if s.draw(8) == 7:
        l += [b"F%d=" % i for i in range(s.choice([100, 600, 2000]))]
    return l


def gen_proc(s):
    al = s.choice(ALLOC)
    return (al, [g_pop(s, i) for i in range(1 + s.size(0, 10))])


def st(rc):
    return "E%d" % rc if rc >= 0 else "K%d" % -rc


def dump(args, env):
    return b"".join(b"a" + a.hex().encode() + b"\n" for a in args) + b"".join(b"e" + e.hex().encode() + b"\n" for e in env)


def bighash(b):
    v = 7
    for c in b:
        v = (v * 31 + c) & (2**63 - 1)
    return ["%d" % len(b), "%016x" % v]


def one_proc(c, d):
    al, ops = c
    shutil.copy(HELPER, d + "/helper")
    os.chmod(d + "/helper", 0o755)
    fullenv = {b"PATH": os.fsencode(d) + b":/usr/bin:/bin", b"A": b"b", b"Z": b"z" * 9}
    pid, rc, out, err = launch(ops, d, [al], fullenv=fullenv)
    got = answers(out, len(ops))
    if rc != 0 or got is None:
        return "the program ended with status %s, output %r, stderr %r" % (rc, out[:200], err[-300:])
    envl = [k + b"=" + v for k, v in fullenv.items()]
    exp = []
    files = []
    for i, o in enumerate(ops):
        k = o[0]
        if k == "forkexit":
            e = ["1", st(o[1])]
        elif k == "forkosexit":
            e = ["1", st(o[1])]
        elif k == "forksig":
            e = ["1", "K%d" % o[1]]
        elif k == "forks":
            e = [x for n in reversed(o[1]) for x in ("1", st(n))]
        elif k == "waitany":
            x = got[i]
            e = None
            if len(x) != 2 * len(o[1]) or sorted(x[0::2]) != sorted(map(str, o[1])) or any(x[j + 1] != "E" + x[j] for j in range(0, len(x), 2)):
                return "operation %d, %s, answered %s" % (i, show_op(o), " ".join(x))
        elif k == "waitnone":
            e = ["!child:10"]
        elif k == "waitnh":
            e = ["0", "0", "1", st(o[1])]
        elif k == "stop":
            e = ["1", "T%d" % signal.SIGSTOP, "1", st(o[1])]
        elif k in ("exec", "execfail"):
            how, path, args, env = (o[1], o[3], o[4], o[5]) if k == "exec" else o[1:]
            er = exec_errno(how, path, d)
            if k == "execfail":
                e = ["!%s:%d" % (errno.errorcode[er][1:].lower(), er)]
            else:
                e = ["1", st(100 + er) if er else "E3"]
                files.append((o, d + "/" + o[2].decode(), b"" if er else dump(args, env if how == 1 else envl)))
        elif k == "system":
            cmd = o[1]
            if cmd.startswith(b"kill"):
                e = ["0", "E1"]
            elif cmd == b"true" or cmd.startswith(b"test") or b"|" in cmd:
                e = ["1", "E0"]
            elif cmd == b"false":
                e = ["0", "E1"]
            else:
                n = int(cmd.split()[1])
                e = ["1" if n == 0 else "0", st(n)]
        elif k in ("ucat", "ubin"):
            e = bighash(bytes((j * o[2] + j // 251) & 255 for j in range(o[1]))) + ["E0"] * (2 if k == "ucat" else 1)
        elif k == "uenv":
            e = [h(dump([b"helper"] + list(o[2]), o[3])), "E3"]
        elif k == "ukill":
            e = ["K%d" % o[1]]
        elif k == "ureap":
            e = [st(o[1])]
        elif k in ("setsid", "setpgid"):
            e = ["1", "E7"]
        else:
            e = ["u"]
        if e is not None and got[i] != e:
            return "operation %d, %s, answered %s; expected %s" % (i, show_op(o), " ".join(got[i])[:300], " ".join(e)[:300])
    for o, p, want in files:
        have = open(p, "rb").read()
        if sorted(have.splitlines()) != sorted(want.splitlines()) or [x for x in have.splitlines() if x[:1] == b"a"] != [x for x in want.splitlines() if x[:1] == b"a"]:
            return "%s ran the program with %s; expected %s" % (show_op(o), have[:300], want[:300])
    return None


def exec_errno(how, path, d):
    if how == 2 and b"/" not in path:
        if path == b"helper":
            return 0
        if path == b".":
            return errno.EACCES
        return errno.ENOENT
    return {os.fsencode(HELPER): 0, b"./helper": 0, b"helper": 0, b"nosuch": errno.ENOENT, b"/dev/null": errno.EACCES, b"/nosuch": errno.ENOENT,
            b".": errno.EACCES, b"plain/x": errno.ENOENT}[path]


def show_proc(c):
    return c[0].decode() + ": " + "; ".join(show_op(o) for o in c[1])


# ------------------------------------------------------------------ how a process ends
def gen_exit(s):
    ops = [("atexit", b"log", s.draw(12)) for _ in range(s.draw(5))]
    return ops + [("finish", s.draw(11), g_code(s))]


def one_exit(ops, d):
    pid, rc, out, err = launch(ops, d)
    got = answers(out, len(ops))
    if got is None or any(x != ["u"] for x in got):
        return "unreadable answer %r (status %s, stderr %r)" % (out[:200], rc, err[-200:])
    _, k, n = ops[-1]
    want = {0: 0, 1: 1, 2: 0, 3: 1, 4: 0, 5: 1, 6: n, 7: 1, 8: n, 9: -9, 10: n}[k]
    if rc != want:
        return "the process ended with status %s, expected %s" % (rc, want)
    acts = [o[2] for o in ops[:-1]]
    # actions run last-registered first, each of them once, when the program ends in an orderly way
    runs = list(reversed(acts)) if k in (0, 1, 2, 3, 7, 10) else []
    try:
        have = [int(x) for x in open(d + "/log").read().split()]
    except OSError:
        have = []
    if have != runs:
        return "exit actions ran %s, expected %s" % (have, runs)
    return None


# ------------------------------------------------------------------ identity, databases, constants
SC = ["ARG_MAX", "CHILD_MAX", "CLK_TCK", "NGROUPS_MAX", "OPEN_MAX", "STREAM_MAX", "TZNAME_MAX", "JOB_CONTROL", "SAVED_IDS", "VERSION", "PAGESIZE", "LINE_MAX"]


def gen_sys(s):
    uid = s.choice([65534, 65534, 1234, 60001, 1, 0x7ffffffe]) if ROOT else None
    gid = s.choice([65534, 100, 4294967294, 7]) if ROOT else None
    groups = [s.choice([4, 5, 100, 1000, 65534, 70000, 4000000000]) for _ in range(s.draw(6))] if ROOT else []
    if ROOT and s.draw(10) == 9:
        groups = list(range(2000, 2000 + s.choice([16, 64, 200, 1000, 3000, 20000])))
    pws, grs = pwd.getpwall(), grp.getgrall()
    ops = [("ids",), ("uname",)]
    for _ in range(1 + s.draw(5)):
        k = s.draw(6)
        if k == 0:
            ops.append(("pwnam", s.choice(pws).pw_name.encode() if s.draw(5) else b"nosuchuser"))
        elif k == 1:
            ops.append(("pwuid", s.choice(pws).pw_uid if s.draw(5) else 54321))
        elif k == 2:
            ops.append(("grnam", s.choice(grs).gr_name.encode() if s.draw(5) else b"nosuchgroup"))
        elif k == 3:
            ops.append(("grgid", s.choice(grs).gr_gid if s.draw(5) else 54321))
        elif k == 4:
            ops.append(("sysconf", s.choice(SC).encode()))
        else:
            ops.append((s.choice(["time", "now"]),))
    return (uid, gid, groups, ops)


def one_sys(c, d):
    uid, gid, groups, ops = c
    t0 = time.time()
    pid, rc, out, err = launch(ops, d, uid=uid, gid=gid, groups=groups)
    t1 = time.time()
    got = answers(out, len(ops))
    if rc != 0 or got is None:
        return "the program ended with status %s, output %r, stderr %r" % (rc, out[:200], err[-300:])
    for i, (o, x) in enumerate(zip(ops, got)):
        k = o[0]
        if k == "ids":
            u = uid if uid is not None else os.getuid()
            g = gid if gid is not None else os.getgid()
            gs = sorted(set(groups)) if ROOT else os.getgroups()
            n = int(x[4])
            have = [int(v) for v in x[5:5 + n]]
            if [int(v) for v in x[:4]] != [u, u, g, g] or sorted(set(have)) != sorted(set(gs)) or [int(v) for v in x[5 + n:]] != [pid, pid, os.getpid()]:
                return "the process sees the identity %s; it was started with uid %s gid %s groups %s as process %d of session %d by %d" % (" ".join(x), u, g, gs[:20], pid, pid, os.getpid())
            continue
        if k == "uname":
            u = os.uname()
            e = ["5"] + [h(v.encode()) for p in (("sysname", u.sysname), ("nodename", u.nodename), ("release", u.release), ("version", u.version), ("machine", u.machine)) for v in p]
        elif k in ("pwnam", "pwuid"):
            try:
                p = pwd.getpwnam(o[1].decode()) if k == "pwnam" else pwd.getpwuid(o[1])
                e = [h(p.pw_name.encode()), str(p.pw_uid), str(p.pw_gid), h(p.pw_dir.encode()), h(p.pw_shell.encode())]
            except KeyError:
                e = None
        elif k in ("grnam", "grgid"):
            try:
                p = grp.getgrnam(o[1].decode()) if k == "grnam" else grp.getgrgid(o[1])
                e = [h(p.gr_name.encode()), str(p.gr_gid), str(len(p.gr_mem))] + [h(m.encode()) for m in p.gr_mem]
            except KeyError:
                e = None
        elif k == "sysconf":
            v = os.sysconf("SC_" + o[1].decode())
            e = [str(v)] if v >= 0 else None
        elif k == "time":
            if not int(t0) - 1 <= int(x[0]) <= t1 + 1:
                return "Posix.ProcEnv.time gave %s between %f and %f" % (x[0], t0, t1)
            continue
        elif k == "now":
            if not t0 * 1e6 - 1e5 <= int(x[0]) <= t1 * 1e6 + 1e5:
                return "Time.now gave %s us between %f and %f" % (x[0], t0, t1)
            continue
        if e is None:
            if len(x) != 1 or not x[0].startswith("!") or x[0].startswith("!exn"):
                return "operation %d, %s, answered %s; OS.SysErr was expected" % (i, show_op(o), " ".join(x)[:300])
        elif x != e:
            return "operation %d, %s, answered %s; expected %s" % (i, show_op(o), " ".join(x)[:300], " ".join(e)[:300])
    return None


# ------------------------------------------------------------------ error codes
def gen_err(s):
    return [("err", s.choice(sorted(errno.errorcode)) if s.draw(4) else 1 + s.draw(150)) for _ in range(12)] + [("sigs",)] + \
        [("errname", s.choice([errno.errorcode[e] for e in sorted(errno.errorcode)])[1:].lower().encode()) for _ in range(6)] + \
        [("errname", s.choice([b"", b"nosuch", b"ENOENT", b"Noent", b"ok"]))]


SIGNAMES = ["ABRT", "ALRM", "FPE", "HUP", "ILL", "INT", "KILL", "PIPE", "QUIT", "SEGV", "TERM", "USR1", "USR2", "CHLD", "CONT", "STOP", "TSTP", "TTIN", "TTOU"]
# the errors Posix.Error names
POSIX_ERR = {n.lower()[1:]: getattr(errno, n) for n in (
    "EACCES EAGAIN EBADF EBADMSG EBUSY ECHILD EDEADLK EDOM EEXIST EFAULT EFBIG EINPROGRESS EINTR EINVAL EIO EISDIR ELOOP EMFILE EMLINK EMSGSIZE "
    "ENAMETOOLONG ENFILE ENODEV ENOENT ENOEXEC ENOLCK ENOMEM ENOSPC ENOSYS ENOTDIR ENOTEMPTY ENOTTY ENXIO EPERM EPIPE ERANGE EROFS ESPIPE ESRCH EXDEV").split()}
POSIX_ERR["toobig"] = errno.E2BIG
POSIX_ERR["canceled"] = errno.ECANCELED
POSIX_ERR["notsup"] = errno.ENOTSUP


def one_err(ops, d):
    pid, rc, out, err = launch(ops, d)
    got = answers(out, len(ops))
    if rc != 0 or got is None:
        return "the program ended with status %s, output %r, stderr %r" % (rc, out[:200], err[-300:])
    rev = {}
    for k, v in POSIX_ERR.items():
        rev.setdefault(v, k)
    for o, x in zip(ops, got):
        if o[0] == "sigs":
            e = [str(int(getattr(signal, "SIG" + n))) for n in SIGNAMES]
            if x != e:
                return "Posix.Signal numbers are %s, expected %s" % (x, e)
        elif o[0] == "err":
            n = o[1]
            # names are checked for the errors of the POSIX_ERROR signature; messages and codes for every error
            if len(x) < 7 or int(x[0]) != n:
                return "Posix.Error.fromWord %d answered %s" % (n, " ".join(x))
            nm = bytes.fromhex(x[1][1:]).decode()
            msgs = [bytes.fromhex(v[1:]).decode() for v in x[3:5]]
            if n in rev and nm not in [k for k, v in POSIX_ERR.items() if v == n] + [errno.errorcode[n][1:].lower()]:
                return "Posix.Error.errorName of error %d is %s, expected %s" % (n, nm, rev[n])
            if x[1] != x[2] or msgs != [os.strerror(n)] * 2:
                return "error %d: names %s, messages %s, expected message %r" % (n, x[1:3], msgs, os.strerror(n))
            if n in rev and x[5:] != ["1", "1", "1", "1"]:
                return "error %d (%s): syserror (errorName e) is not SOME e: %s" % (n, nm, x[5:])
        else:
            w = POSIX_ERR.get(o[1].decode())
            if w is not None and x != ["1", str(w)]:
                return "Posix.Error.syserror %s answered %s, expected SOME %d" % (o[1], " ".join(x), w)
            if w is None and o[1] in (b"", b"nosuch") and x != ["0"]:
                return "Posix.Error.syserror %s answered %s, expected NONE" % (o[1], " ".join(x))
    return None


# ------------------------------------------------------------------ polling
def gen_poll(s):
    items = [(s.draw(11), s.draw(8)) for _ in range(s.size(0, 12))]
    if items and items[0][0] == 10:
        items[0] = (0, items[0][1])
    return items, s.choice([0, 0, 0, 1, 15, 30]), s.choice([1, 1, 1, 1, 2, 10, 40]) if items else 1


def mkfd(k, d, keep):
    def pipe():
        r, w = os.pipe()
        keep.extend([r, w])
        return r, w
    if k in (0, 1, 2, 3):
        r, w = pipe()
        if k in (1, 3):
            os.write(w, b"xyz")
        if k in (2, 3):
            os.close(w)
            keep.remove(w)
        return r
    if k in (4, 5, 6):
        r, w = pipe()
        if k == 5:
            os.close(r)
            keep.remove(r)
        if k == 6:
            os.set_blocking(w, False)
            try:
                while True:
                    os.write(w, b"A" * 4096)
            except BlockingIOError:
                pass
        return w
    f = os.open(d if k == 7 else d + "/twin" if k == 8 else "/dev/null", os.O_RDONLY if k == 7 else os.O_WRONLY | os.O_CREAT if k == 8 else os.O_RDWR)
    keep.append(f)
    return f


def one_poll(c, d):
    items, ms, rep = c
    ops = [("poll", [x for x in items], ms)]
    req = "1 poll %d %s %d %d" % (len(items), " ".join("%d %d" % i for i in items), ms, rep)
    keep = []
    exp = []
    try:
        f = first = None
        for i, (k, fl) in enumerate(items):
            if k != 10:
                f, first = mkfd(k, d, keep), i
            r = select.select([f] if fl & 1 else [], [f] if fl & 2 else [], [f] if fl & 4 else [], 0)
            if any(r):
                exp.append([str(first)] + ["1" if t else "0" for t in r])
        exp = exp * rep
    finally:
        for f in keep:
            os.close(f)
    global line
    old = line
    line = lambda ops: req
    try:
        pid, rc, out, err = launch(ops, d)
    finally:
        line = old
    got = answers(out, 1)
    if rc != 0 or got is None:
        return "the program ended with status %s, output %r, stderr %r" % (rc, out[:200], err[-300:])
    x = got[0]
    kinds = []
    for k, _ in items:
        kinds.append(kinds[-1] if k == 10 else "pipe" if k < 7 else {7: "dir", 8: "file", 9: "tty"}[k])
    e = [str(len(exp))] + [t for r in exp for t in r] + kinds
    if x[1:] != e:
        return "OS.IO.poll and kind on %s, %d times, answered %s; expected %s" % (items, rep, " ".join(x[1:]), " ".join(e))
    if not exp and int(x[0]) < ms - 1:
        return "OS.IO.poll returned after %s ms without an event; the timeout was %d ms" % (x[0], ms)
    return None


# ------------------------------------------------------------------ kill targets (recorded, not sent)
def gen_kill(s):
    return [(s.draw(3), 2 + s.draw(30000), s.choice([0, 1, 2, 9, 15, 10])) for _ in range(1 + s.draw(6))]


def one_kill(c, d):
    # run under an account of its own, with a stand-in for kill that only records
    ops = [("kill", 0, 2147483646, 0)] + [("kill",) + x for x in c]
    env = {b"LD_PRELOAD": os.fsencode(KILLREC), b"KILLREC": os.fsencode(d + "/rec")}
    pid, rc, out, err = launch(ops[:1], d, fullenv=env, uid=61234 if ROOT else None)
    if answers(out, 1) != [["u"]]:
        return None          # the stand-in is not in effect: the case cannot be run
    os.remove(d + "/rec")
    pid, rc, out, err = launch(ops, d, fullenv=env, uid=61234 if ROOT else None)
    got = answers(out, len(ops))
    if rc != 0 or got is None:
        return "the program ended with status %s, output %r, stderr %r" % (rc, out[:200], err[-300:])
    have = [tuple(map(int, l.split())) for l in open(d + "/rec")]
    want = [({0: p, 1: -p, 2: 0}[k], sg) for k, p, sg in [o[1:] for o in ops]]
    if have != want:
        return "kill %s reached the system as kill%s, expected kill%s" % (c, have[1:], want[1:])
    return None


# ------------------------------------------------------------------ record locks held by another process
def gen_lock(s):
    def rng(hi):
        k = s.draw(8)
        if k == 5:
            return s.draw(hi), 0                       # to the end of the file, wherever that comes to be
        if k == 6:
            return 10 + s.draw(hi), -1 - s.draw(8)     # the bytes before the start
        if k == 7:
            b = 1 << s.int(12, 60)
            return b + s.draw(3), s.choice([0, 1, b - 5, 1 << 33])
        return s.draw(hi), 1 + s.draw(10)
    held = [(s.draw(2),) + rng(20) for _ in range(s.draw(4))]
    return held, [(s.draw(2),) + rng(25) for _ in range(1 + s.draw(4))]


def one_lock(c, d):
    held, qs = c
    p = d + "/lk"
    open(p, "w").write("x" * 40)
    os.chmod(p, 0o666)
    rr, rw = os.pipe()
    qr, qw = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rr)
            os.close(qw)
            f = os.open(p, os.O_RDWR)
            for t, st_, ln in held:
                fcntl.fcntl(f, fcntl.F_SETLK, struct.pack("hhqqi4x", [fcntl.F_RDLCK, fcntl.F_WRLCK][t], 0, st_, ln, 0))
            os.write(rw, b"x")
            os.read(qr, 1)
        finally:
            os._exit(0)
    try:
        os.close(rw)
        os.close(qr)
        os.read(rr, 1)
        ops = [("lockq", p.encode(), t, a, n) for t, a, n in qs]
        # what the system says: asked by this process about the same lock
        f = os.open(p, os.O_RDWR)
        exp = []
        for t, a, n in qs:
            fl = struct.pack("hhqqi4x", [fcntl.F_RDLCK, fcntl.F_WRLCK][t], 0, a, n, 0)
            r = struct.unpack("hhqqi4x", fcntl.fcntl(f, fcntl.F_GETLK, fl))
            e = [{fcntl.F_RDLCK: "rd", fcntl.F_WRLCK: "wr", fcntl.F_UNLCK: "un"}[r[0]], str(r[2]), str(r[3])]
            if r[0] == fcntl.F_UNLCK:
                exp.append((e, None, ["u"]))
            else:
                exp.append((e, r[4], ["!again:11"]))
        os.close(f)
        _, rc, out, err = launch(ops, d)
        got = answers(out, len(ops))
        if rc != 0 or got is None:
            return "the program ended with status %s, output %r, stderr %r" % (rc, out[:200], err[-300:])
        for o, x, (e, owner, tail) in zip(ops, got, exp):
            w = e + ["1"] + ([str(owner)] if owner is not None else [x[4] if len(x) > 4 else "?"]) + tail
            if x != w:
                return "with locks %s held by process %d: %s answered %s; expected %s" % (held, pid, show_op(o), " ".join(x), " ".join(w))
        return None
    finally:
        os.close(rr)
        os.write(qw, b"x")
        os.close(qw)
        os.waitpid(pid, 0)


def parts():
    global IMG, HELPER, KILLREC
    hard = resource.getrlimit(resource.RLIMIT_CORE)[1]     # children may leave (small) core files in the scratch directories
    resource.setrlimit(resource.RLIMIT_CORE, (65536 if hard == resource.RLIM_INFINITY else min(hard, 65536), hard))
    IMG = pbt.build_driver("proc", [("codec.sml", codec_text()), ("proc.sml", sml("proc.sml")), ("main.sml", MAIN)], ["$/basis.cm", "$/unix-lib.cm"])
    HELPER = os.path.join(vbuild.WORK, "helper")
    KILLREC = os.path.join(vbuild.WORK, "killrec.so")
    subprocess.run(["gcc", "-O1", "-o", HELPER, os.path.join(vbuild.VERIF, "sml", "helper.c")], check=True)
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", KILLREC, os.path.join(vbuild.VERIF, "sml", "killrec.c")], check=True)
    os.chmod(HELPER, 0o755)
    P = pbt.Part
    kw = dict(batch=10, shrink_budget=200)
    return [
        P("command line and environment", gen_env, evaluate=evaluator(one_env), n=(1200, 20000), show=show_env, key=show_env, rule="an argument or variable is present",
          nontrivial=lambda c: bool(c[1] or c[2]), **kw),
        P("child processes", gen_proc, evaluate=evaluator(one_proc), n=(5000, 60000), show=show_proc, key=show_proc, rule="every case starts at least one process", **kw),
        P("process end", gen_exit, evaluate=evaluator(one_exit), n=(2000, 20000), show=lambda c: "; ".join(map(show_op, c)), key=str, rule="every case", **kw),
        P("identity and databases", gen_sys, evaluate=evaluator(one_sys), n=(2500, 30000), show=lambda c: "uid %s gid %s groups %s: %s" % (c[0], c[1], c[2][:8], "; ".join(map(show_op, c[3]))),
          key=str, rule="every case", **kw),
        P("error codes", gen_err, evaluate=evaluator(one_err), n=(300, 3000), show=lambda c: "; ".join(map(show_op, c)), key=str, rule="every case", **kw),
        P("poll", gen_poll, evaluate=evaluator(one_poll), n=(5000, 60000), show=str, key=str, rule="at least one descriptor", nontrivial=lambda c: bool(c[0]), **kw),
        P("kill targets", gen_kill, evaluate=evaluator(one_kill), n=(600, 6000), show=str, key=str, rule="every case", **kw),
        P("record locks", gen_lock, evaluate=evaluator(one_lock), n=(2500, 30000), show=str, key=str, rule="the other process holds a lock", nontrivial=lambda c: bool(c[0]), **kw),
    ]


if __name__ == "__main__":
    pbt.main("C33", "a case is one run of a program that uses the process and environment interfaces; it counts by the rule of its part", parts, [])
