"""C31: the OS and Posix structures do what the operating system calls they name do."""
import os, random, shutil, stat as st_, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ostwin, pbt, vbuild
from table import codec_text

UID = 65534 if os.getuid() == 0 else None
IMG = None
MAIN = """
structure Main = struct
  fun main (_ : string, _ : string list) = C.main OSD.run ("", [])
end
"""


def sml(name):
    return open(os.path.join(vbuild.VERIF, "sml", name)).read()


def driver_files():
    return [("codec.sml", codec_text()), ("os.sml", sml("os.sml")), ("main.sml", MAIN)]


# ------------------------------------------------------------------ generators
NAMES = [b"a", b"b", b"c", b"d", b"f1", b"f2", b"sub dir", b"\xc3\xa9t\xff", b"n" * 7, b"n" * 8, b"n" * 15, b"n" * 16, b"n" * 255, b"n" * 256, b".h", b"...", b"..a", b".b.", b"....x", b". ", b".. ", b"\\", b"a\n", b"-"]


def g_path(s, files=True):
    k = s.draw(13)
    if k == 12:
        return s.choice(NAMES[14:])
    if k < 7:
        return s.choice(NAMES[:6])
    if k < 9:
        return s.choice(NAMES[:6]) + b"/" + s.choice(NAMES[:6])
    if k == 9:
        return s.choice(NAMES)
    if k == 10:
        return b"/".join(s.choice(NAMES[:6] + [b".", b"..", b""]) for _ in range(1 + s.draw(4))).lstrip(b"/") or b"."
    return s.choice([b".", b"", b"..", b"a/", b"a/.", b"b/..", b"./a", b"a//b", b"n" * 200 + b"/" + b"m" * 100])


def g_mode(s):
    return s.choice([0o755, 0o644, 0o700, 0o777, 0o600, 0o444, 0, 0o111, 0o555, 0o6755, 0o2777, 0o666, 0o200]) if s.draw(4) else s.draw(0o6777 + 1) & 0o6777


def g_dmode(s):
    return s.choice([0o755, 0o777, 0o700]) if s.draw(5) else g_mode(s)


def g_time(s):
    k = s.draw(5)
    sec = [s.draw(100), s.draw(1 << 30), (1 << 31) + s.draw(1 << 30), s.draw(1500000000), s.choice([0, 1000, 10**6, 10**9, 1 << 30, 1 << 31, 1 << 32, 1 << 20, 60, 86400]) * (1 + s.draw(3))][k]
    return sec * 1000000 + s.choice([0, 1, 999999, 500000, 123456])


def g_fd(s):
    return s.draw(ostwin.NF)


def g_data(s):
    n = s.choice([0, 1, 3, 7, 8, 9, 15, 16, 17, 64, 100, 500])
    x = s.draw(256)
    return bytes((x + i * 37) & 255 for i in range(n))


def g_wop(s):
    d = g_data(s)
    off = s.draw(len(d) + 1)
    if s.draw(2):
        off = 0
    n = len(d) - off if s.draw(2) else s.draw(len(d) - off + 1)
    return d, off, n


PC = [b"LINK_MAX", b"NAME_MAX", b"PATH_MAX", b"PIPE_BUF", b"NO_TRUNC", b"CHOWN_RESTRICTED", b"VDISABLE", b"MAX_CANON", b"MAX_INPUT"]
WH = (0, 1, 2)


def g_op(s, danger):
    k = s.weighted([
        (8, "mkdir"), (2, "omkdir"), (3, "rmdir"), (1, "ormdir"), (4, "unlink"), (1, "oremove"), (4, "link"), (5, "symlink"), (5, "rename"),
        (2, "orename"), (3, "readlink"), (1, "oreadlink"), (6, "stat"), (5, "lstat"), (5, "fstat"), (4, "access"), (2, "oaccess"), (4, "chmod"),
        (2, "fchmod"), (2, "chown"), (1, "fchown"), (4, "utime"), (1, "utimenow"), (2, "osettime"), (2, "omodtime"), (3, "ofilesize"),
        (2, "oisdir"), (2, "oislink"), (3, "ofileid"), (3, "ofullpath"), (3, "orealpath"), (2, "mkfifo"), (2, "umask"), (3, "chdir"), (2, "getcwd"),
        (4, "ftruncate"), (2, "pathconf"), (1, "fpathconf"), (9, "openf"), (12, "createf"), (4, "creat"), (3, "opendir"), (2, "readn"), (4, "readall"),
        (1, "closedir"), (3, "close"), (10, "rv"), (6, "ra"), (9, "wv"), (6, "wa"), (2, "wbig"), (3, "rbig"), (10, "lseek"), (4, "dup"), (2, "dup2"),
        (3, "dupfd"), (2, "getfd"), (2, "setfd"), (5, "getfl"), (3, "setfl"), (4, "lock"), (3, "pipe"), (1, "fsync"), (1, "gc"), (3, "via")])
    p = lambda: g_path(s)
    f = lambda: g_fd(s)
    m = (lambda: g_mode(s)) if danger else (lambda: 0o755)
    if k == "mkdir":
        return (k, p(), g_dmode(s) if danger else 0o755)
    if k == "mkfifo":
        return (k, p(), g_mode(s))
    if k == "chmod":
        return (k, p(), g_dmode(s) if danger and s.draw(2) else m())
    if k in ("omkdir", "rmdir", "ormdir", "unlink", "oremove", "readlink", "oreadlink", "stat", "lstat", "utimenow", "omodtime", "ofilesize",
             "oisdir", "oislink", "ofullpath", "orealpath", "chdir"):
        return (k, p())
    if k in ("link", "rename", "orename", "ofileid"):
        return (k, p(), p())
    if k == "symlink":
        return (k, p() if s.draw(4) else s.choice([b"a/../b", b"../w/a", b"x" * 1000, b"..", b"c"]), p())
    if k in ("fstat", "close", "getfd", "getfl", "fsync"):
        return (k, f())
    if k in ("access", "oaccess"):
        return (k, p(), s.draw(8))
    if k == "fchmod":
        return (k, f(), g_mode(s))
    if k == "chown":
        return (k, p(), s.choice([-1, 65534, 0]), s.choice([-1, 65534, 0]))
    if k == "fchown":
        return (k, f(), s.choice([-1, 65534, 0]), s.choice([-1, 65534, 0]))
    if k == "utime":
        return (k, p(), g_time(s), g_time(s))
    if k == "osettime":
        return (k, p(), g_time(s))
    if k == "umask":
        return (k, s.choice([0o22, 0, 0o77, 0o27, 0o777, 0o2]))
    if k == "getcwd":
        return (k,)
    if k == "ftruncate":
        return (k, f(), s.choice([0, 1, 5, 8, 100, 5000, 70000, -1]))
    if k == "pathconf":
        return (k, p(), s.choice(PC))
    if k == "fpathconf":
        return (k, f(), s.choice(PC))
    if k == "openf":
        return (k, f(), p(), s.draw(3), s.choice([0, 0, 0, 1, 8, 16, 32, s.draw(64)]))
    if k == "createf":
        return (k, f(), p(), s.choice([2, 1, 0, 2]), s.choice([0, 0, 0, 1, 2, 8, 16, 32, s.draw(64)]), g_mode(s) if s.draw(3) == 2 else 0o644)
    if k == "creat":
        return (k, f(), p(), g_mode(s) if s.draw(3) == 2 else 0o644)
    if k == "opendir":
        return (k, s.draw(4), p() if s.draw(2) else b".")
    if k == "readn":
        return (k, s.draw(4), s.draw(4))
    if k in ("readall", "closedir"):
        return (k, s.draw(4))
    if k == "rv":
        return (k, f(), s.choice([1, 2, 7, 8, 9, 16, 24, 100, 511, 512, 513, 4096]))
    if k == "ra":
        n = s.choice([1, 8, 9, 40])
        off = s.draw(n + 1)
        return (k, f(), n, off, s.draw(n - off + 1))
    if k in ("wv", "wa"):
        return (k, f()) + g_wop(s)
    if k == "wbig":
        return (k, f(), s.choice([1000, 4088, 4096, 8192, 20000]), 1 + s.draw(9))
    if k == "rbig":
        return (k, f(), s.choice([4000, 4088, 4096, 4104, 10000, 40000]))
    if k == "lseek":
        return (k, f(), s.int(-20, 120) if s.draw(4) else s.choice([5000, -5000, 1 << 33, 4096, 0]), s.draw(3))
    if k == "dup":
        return (k, f(), f())
    if k == "dup2":
        return (k, f(), f(), 50 + s.draw(4))
    if k == "dupfd":
        return (k, f(), f(), 50 + s.draw(6))
    if k == "setfd":
        return (k, f(), s.draw(2))
    if k == "setfl":
        return (k, f(), s.draw(2), s.draw(2))
    if k == "lock":
        return (k, s.draw(2), f(), s.draw(3), s.draw(3), s.int(-2, 30), s.int(-2, 30))
    if k == "pipe":
        i = f()
        return (k, i, (i + 1 + s.draw(ostwin.NF - 1)) % ostwin.NF)
    if k == "via":
        return (k, s.draw(5))
    if k == "gc":
        return (k, s.draw(3))
    raise ValueError(k)


def gen(s):
    danger = s.draw(3) == 2
    n = 3 + s.size(0, 60)
    ops = [g_op(s, danger) for _ in range(n)]
    ops += [("opendir", 0, b"."), ("readall", 0)]
    tail = [(s.choice(["lstat", "stat"]), g_path(s)) for _ in range(2)]
    return (ops, tail)


# ------------------------------------------------------------------ execution
def tok(x):
    return "s" + x.hex() if isinstance(x, bytes) else str(x)


def line(ops):
    return " ".join([str(len(ops))] + [" ".join([o[0]] + [tok(x) for x in o[1:]]) for o in ops])


def popen(args, cwd, inp, timeout=60, user=UID, env=None):
    kw = dict(user=user, group=user, extra_groups=[]) if user is not None else {}
    p = subprocess.Popen([vbuild.TREE + "/bin/sml", "@SMLload=" + IMG] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=vbuild.env(env), cwd=cwd, start_new_session=True, umask=0o22, **kw)
    try:
        out, err = p.communicate(inp, timeout=timeout)
        return p.returncode, out.decode("latin-1"), err.decode("latin-1")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return "timeout", "", ""


def near(a, b, now):
    """equal times, or both times of the run itself"""
    return a // 1000 == b // 1000 or (abs(a - now) < 3600 * 10**9 and abs(b - now) < 3600 * 10**9)


def same(o, x, y, ra, rb, now):
    """x: answer of the system under test in directory ra; y: the twin's in rb"""
    k = o[0]
    if y == ["?"]:
        return len(x) == 1 and x[0].isdigit() and int(x[0]) <= o[2]
    if x == y:
        return True
    if len(x) == len(y) == 1 and x[0].startswith("!") and x[0].split(":")[1:] == y[0].split(":")[1:] != []:
        return True             # the names of errors are C33's business
    if k in ("stat", "lstat", "fstat") and y[0][0] == "S" and len(x) == len(y):
        if st_ctime_skip(x, y, now):
            return x[:6] == y[:6] or (y[0] == "Sd" and x[:5] == y[:5])   # directory sizes are the file system's business
        return False
    if k == "omodtime" and len(x) == 2 == len(y) and x[0] == y[0] == "T":
        return near(int(x[1]), int(y[1]), now)
    if k in ("getcwd", "ofullpath") and len(x) == len(y) == 1 and x[0][:1] == "s" == y[0][:1]:
        a, b = bytes.fromhex(x[0][1:]), bytes.fromhex(y[0][1:])
        ra, rb = os.fsencode(ra), os.fsencode(rb)
        if b == os.path.dirname(rb) or len(b) < len(rb):
            return a == b
        return a.startswith(ra) and b.startswith(rb) and a[len(ra):] == b[len(rb):]
    if k in ("ofullpath", "orealpath") and x and y and x[0][:1] == "!" == y[0][:1]:
        return True
    return False


def st_ctime_skip(x, y, now):
    return all(near(int(x[i]), int(y[i]), now) for i in (6, 7, 8))


def tree(root):
    out = {}

    def walk(d, rel):
        for e in sorted(os.listdir(d)):
            p = os.path.join(d, e)
            r = rel + b"/" + e
            s = os.lstat(p)
            ty = st_.S_IFMT(s.st_mode)
            ent = [ty, s.st_mode & 0o7777, s.st_nlink, s.st_uid, s.st_gid, s.st_mtime_ns]
            if ty == st_.S_IFREG:
                ent.append(s.st_size)
                ent.append(open(p, "rb").read() if s.st_size < 1 << 20 else b"(large)")
            elif ty == st_.S_IFLNK:
                ent.append(os.readlink(p))
            out[r] = ent
            if ty == st_.S_IFDIR:
                walk(p, r)
    walk(os.fsencode(root), b"")
    return out


def one(case):
    ops, tail = case
    alls = ops + tail
    top = tempfile.mkdtemp(prefix="vc31-")
    try:
        os.chmod(top, 0o755)
        deep = top + "/1/2/3/4/5/6/7/8"          # so that no generated path leaves the scratch directory
        os.makedirs(deep)
        A, B = deep + "/A", deep + "/B"
        for d in (A, B):
            os.mkdir(d, 0o755)
            os.mkdir(d + "/w", 0o755)
            if UID is not None:
                os.chown(d + "/w", UID, UID)
        now = time.time_ns()
        exp, end = ostwin.run_forked(alls, B + "/w", UID)
        if exp is None:
            return None
        rc, out, err = popen([], A + "/w", (line(alls) + "\n").encode())
        ls = out.splitlines()
        if rc != 0 or len(ls) != 1:
            return "the program ended with status %s, output %r, stderr %r" % (rc, out[:200], err[-300:])
        got = [g.split() for g in ls[0].split(";")[1:]]
        if len(got) != len(exp):
            return "unreadable answer %r" % ls[0][:300]
        for i, (o, x, y) in enumerate(zip(alls, got, exp)):
            if not same(o, x, y, A, B, now):
                return "operation %d, %s, answered %s; the same call sequence made directly gives %s" % (i, shop(o), " ".join(x)[:300], " ".join(y)[:300])
        # the final stat calls, against the tree itself
        endA = A + end[len(B):] if end.startswith(B) and "(deleted)" not in end else None
        if endA is not None and os.path.isdir(endA):
            for o, x in zip(tail, got[len(ops):]):
                if x[0][0] != "S":
                    continue
                p = os.path.join(os.fsencode(endA), o[1])
                try:
                    s = os.stat(p) if o[0] == "stat" else os.lstat(p)
                except OSError:
                    continue
                y = ostwin.Twin().stat(s)
                y[6:9] = [str(int(t) // 1000 * 1000) for t in y[6:9]]     # Time.time counts microseconds
                if x[:6] + x[7:] != y[:6] + y[7:] or not near(int(x[6]), int(y[6]), now):
                    return "%s answered %s; the file has %s" % (shop(o), " ".join(x), " ".join(y))
        ta, tb = tree(A + "/w"), tree(B + "/w")
        if ta.keys() != tb.keys():
            return "the resulting trees differ: %r against %r" % (sorted(ta.keys() - tb.keys())[:4], sorted(tb.keys() - ta.keys())[:4])
        for p in ta:
            x, y = ta[p], tb[p]
            if x[:5] != y[:5] or x[6:] != y[6:] or not near(x[5], y[5], now):
                return "the resulting trees differ at %r: %r against %r" % (p, str(x)[:200], str(y)[:200])
        return None
    finally:
        shutil.rmtree(top, ignore_errors=True)


def evaluate(ctx, cases):
    return [one(c) for c in cases]


def shop(o):
    return "%s(%s)" % (o[0], ", ".join(repr(x)[1:] if isinstance(x, bytes) and len(x) < 40 else (repr(x[:20]) + "..." if isinstance(x, bytes) else str(x)) for x in o[1:]))


def show(c):
    return "; ".join(shop(o) for o in c[0] + c[1])


def parts():
    global IMG
    IMG = pbt.build_driver("os", driver_files(), ["$/basis.cm"])
    return [pbt.Part("file system histories", gen, evaluate=evaluate, n=(8000, 150000), batch=10, show=show, key=show,
                     rule="at least one call that changes the file system or a descriptor", nontrivial=lambda c: any(o[0] in MUT for o in c[0]))]


MUT = {"mkdir", "omkdir", "createf", "creat", "openf", "symlink", "mkfifo", "pipe", "chmod", "utime", "rename", "link"}

if __name__ == "__main__":
    pbt.main("C31", "a case is a history of operating-system calls made through the Basis in a scratch directory, compared with the same history of "
             "direct calls in a twin directory; it counts when it creates or changes something", parts, [])
