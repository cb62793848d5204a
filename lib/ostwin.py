"""The twin of sml/os.sml: executes the same history of operating-system calls with Python's os module."""
import errno, fcntl, os, signal, stat as st_, struct, sys

NF = 8


class Skip(Exception):
    pass


def s2h(b):
    return "s" + b.hex()


def errtok(e):
    if e.errno is None:
        return "!none"
    return "!%s:%d" % (errno.errorcode.get(e.errno, "E?")[1:].lower(), e.errno)


class Twin:
    def __init__(self):
        self.fds = [None] * NF
        self.dirs = [None] * 4

    def fd(self, i):
        if self.fds[i] is None:
            raise Skip()
        return self.fds[i]

    def setfd(self, i, f):
        if self.fds[i] is not None:
            try:
                os.close(self.fds[i])
            except OSError:
                pass
        self.fds[i] = f

    def stat(self, s):
        ty = {st_.S_IFDIR: "d", st_.S_IFCHR: "c", st_.S_IFBLK: "b", st_.S_IFREG: "r", st_.S_IFIFO: "p", st_.S_IFLNK: "l",
              st_.S_IFSOCK: "s"}.get(st_.S_IFMT(s.st_mode), "?")
        return ["S" + ty, str(s.st_mode & 0o6777), str(s.st_nlink), str(s.st_uid), str(s.st_gid), str(s.st_size), str(s.st_atime_ns),
                str(s.st_mtime_ns), str(s.st_ctime_ns), "%X" % s.st_ino, "%X" % s.st_dev]

    def oflags(self, m, w, p, creat=False):
        f = [os.O_RDONLY, os.O_WRONLY, os.O_RDWR][m]
        for b, fl in enumerate([os.O_APPEND, os.O_EXCL, os.O_NOCTTY, os.O_NONBLOCK, os.O_SYNC, os.O_TRUNC]):
            if w >> b & 1:
                f |= fl
        if self.isfifo(p):
            f |= os.O_NONBLOCK
        return f | (os.O_CREAT if creat else 0)

    def isfifo(self, p):
        try:
            return st_.S_ISFIFO(os.stat(p).st_mode)
        except OSError:
            return False

    def open(self, p, fl, mode=0o777):
        f = os.open(p, fl, mode)
        os.set_inheritable(f, True)
        return f

    def reachable(self):
        if not os.access(os.getcwd(), os.X_OK):
            raise Skip()

    def fullpath(self, p):
        if p == b"":
            p = b"."
        os.stat(p)
        return os.path.realpath(p)

    def do(self, o):
        k, a = o[0], list(o[1:])
        if k in ("mkdir",):
            os.mkdir(a[0], a[1])
        elif k == "omkdir":
            os.mkdir(a[0], 0o777)
        elif k in ("rmdir", "ormdir"):
            os.rmdir(a[0])
        elif k in ("unlink", "oremove"):
            os.unlink(a[0])
        elif k == "link":
            os.link(a[0], a[1])
        elif k == "symlink":
            os.symlink(a[0], a[1])
        elif k in ("rename", "orename"):
            os.rename(a[0], a[1])
        elif k in ("readlink", "oreadlink"):
            return [s2h(os.readlink(a[0]))]
        elif k == "stat":
            return self.stat(os.stat(a[0]))
        elif k == "lstat":
            return self.stat(os.lstat(a[0]))
        elif k == "fstat":
            return self.stat(os.fstat(self.fd(a[0])))
        elif k in ("access", "oaccess"):
            return ["1" if os.access(a[0], a[1]) else "0"]
        elif k == "chmod":
            os.chmod(a[0], a[1])
        elif k == "fchmod":
            os.fchmod(self.fd(a[0]), a[1])
        elif k == "chown":
            os.chown(a[0], a[1], a[2])
        elif k == "fchown":
            os.fchown(self.fd(a[0]), a[1], a[2])
        elif k == "utime":
            os.utime(a[0], ns=(a[1] * 1000, a[2] * 1000))
        elif k == "utimenow":
            os.utime(a[0])
        elif k == "osettime":
            os.utime(a[0], ns=(a[1] * 1000, a[1] * 1000))
        elif k == "omodtime":
            return ["T", str(os.stat(a[0]).st_mtime_ns)]
        elif k == "ofilesize":
            return [str(os.stat(a[0]).st_size)]
        elif k == "oisdir":
            return ["1" if st_.S_ISDIR(os.stat(a[0]).st_mode) else "0"]
        elif k == "oislink":
            return ["1" if st_.S_ISLNK(os.lstat(a[0]).st_mode) else "0"]
        elif k == "ofileid":
            x, y = os.stat(a[0]), os.stat(a[1])
            return ["1" if (x.st_dev, x.st_ino) == (y.st_dev, y.st_ino) else "0", "1", "1"]
        elif k == "ofullpath":
            self.reachable()
            return [s2h(self.fullpath(a[0]))]
        elif k == "orealpath":
            self.reachable()
            return [s2h(os.path.relpath(self.fullpath(a[0]), os.path.realpath(os.getcwdb())))]
        elif k == "mkfifo":
            os.mkfifo(a[0], a[1])
        elif k == "umask":
            return [str(os.umask(a[0]))]
        elif k == "chdir":
            os.chdir(a[0])
        elif k == "getcwd":
            return [s2h(os.getcwdb())]
        elif k == "ftruncate":
            os.ftruncate(self.fd(a[0]), a[1])
        elif k in ("pathconf", "fpathconf"):
            n = os.pathconf_names["PC_" + a[1].decode()]
            v = os.pathconf(a[0], n) if k == "pathconf" else os.fpathconf(self.fd(a[0]), n)
            return ["0"] if v < 0 else ["1", str(v)]
        elif k == "openf":
            self.setfd(a[0], self.open(a[1], self.oflags(a[2], a[3], a[1]), 0))
        elif k == "createf":
            self.setfd(a[0], self.open(a[1], self.oflags(a[2], a[3], a[1], True), a[4]))
        elif k == "creat":
            if self.isfifo(a[1]):
                raise Skip()
            self.setfd(a[0], self.open(a[1], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, a[2]))
        elif k == "opendir":
            # an open descriptor of the directory plays the part of the stream
            i = a[0]
            if self.dirs[i] is not None and self.dirs[i] >= 0:
                os.close(self.dirs[i])
            self.dirs[i] = None
            self.dirs[i] = os.open(a[1], os.O_RDONLY | os.O_DIRECTORY | os.O_CLOEXEC | os.O_NONBLOCK)
        elif k in ("readn", "readall", "closedir"):
            d = self.dirs[a[0]]
            if d is None:
                raise Skip()
            if k == "closedir":
                if d >= 0:
                    os.close(d)
                    self.dirs[a[0]] = -1
                return ["u"]
            if d < 0:
                return ["!none"] if not (k == "readn" and a[1] == 0) else ["0"]
            if k == "readn":
                return ["?"]
            names = sorted(os.fsencode(x) for x in os.listdir(d))
            return [str(len(names))] + [s2h(x) for x in names]
        elif k == "close":
            f = self.fd(a[0])
            self.fds[a[0]] = None
            os.close(f)
        elif k == "rv":
            return [s2h(os.read(self.fd(a[0]), a[1]))]
        elif k == "ra":
            arr = bytearray((i * 7) & 255 for i in range(a[1]))
            n = os.readv(self.fd(a[0]), [memoryview(arr)[a[2]:a[2] + a[3]]]) if a[3] else len(os.read(self.fd(a[0]), 0))
            return [str(n), s2h(bytes(arr))]
        elif k in ("wv", "wa"):
            return [str(os.write(self.fd(a[0]), a[1][a[2]:a[2] + a[3]]))]
        elif k == "wbig":
            return [str(os.write(self.fd(a[0]), bytes((i * a[2] + i // 251) & 255 for i in range(a[1]))))]
        elif k == "rbig":
            b = os.read(self.fd(a[0]), a[1])
            h = 7
            for c in b:
                h = (h * 31 + c) & (2**63 - 1)
            return [str(len(b)), "%016x" % h]
        elif k == "lseek":
            return [str(os.lseek(self.fd(a[0]), a[1], a[2]))]
        elif k == "dup":
            f = os.dup(self.fd(a[1]))
            os.set_inheritable(f, True)
            self.setfd(a[0], f)
        elif k == "dup2":
            os.dup2(self.fd(a[1]), a[2], True)
            self.fds = [None if x == a[2] else x for x in self.fds]
            self.setfd(a[0], a[2])
        elif k == "dupfd":
            f = fcntl.fcntl(self.fd(a[1]), fcntl.F_DUPFD, a[2])
            self.setfd(a[0], f)
            return [str(f)]
        elif k == "getfd":
            return [str(fcntl.fcntl(self.fd(a[0]), fcntl.F_GETFD) & fcntl.FD_CLOEXEC)]
        elif k == "setfd":
            fcntl.fcntl(self.fd(a[0]), fcntl.F_SETFD, a[1])
        elif k == "getfl":
            f = fcntl.fcntl(self.fd(a[0]), fcntl.F_GETFL)
            return ["1" if f & os.O_APPEND else "0", "1" if f & os.O_NONBLOCK else "0",
                    "1" if f & os.O_SYNC == os.O_SYNC else "0", ["r", "w", "rw"][f & 3]]
        elif k == "setfl":
            g = self.fd(a[0])
            nb = a[2] or st_.S_ISFIFO(os.fstat(g).st_mode)
            fcntl.fcntl(g, fcntl.F_SETFL, (os.O_APPEND if a[1] else 0) | (os.O_NONBLOCK if nb else 0))
        elif k == "lock":
            g, f, t, wh, s, ln = a
            fl = struct.pack("hhqqi4x", [fcntl.F_RDLCK, fcntl.F_WRLCK, fcntl.F_UNLCK][t], wh, s, ln, 0)
            r = struct.unpack("hhqqi4x", fcntl.fcntl(self.fd(f), fcntl.F_GETLK if g == 0 else fcntl.F_SETLK, fl))
            return [{fcntl.F_RDLCK: "rd", fcntl.F_WRLCK: "wr", fcntl.F_UNLCK: "un"}[r[0]], ["set", "cur", "end"][r[1]], str(r[2]), str(r[3])]
        elif k == "pipe":
            r, w = os.pipe()
            for f in (r, w):
                os.set_inheritable(f, True)
                os.set_blocking(f, False)
            self.setfd(a[0], r)
            self.setfd(a[1], w)
        elif k == "fsync":
            os.fsync(self.fd(a[0]))
        elif k in ("gc", "via"):
            pass
        else:
            raise ValueError(k)
        return ["u"]

    def run(self, ops):
        out = []
        for o in ops:
            try:
                r = self.do(o)
            except OSError as e:
                r = [errtok(e)]
            except Skip:
                r = ["skip"]
            out.append(r)
        return out


def run_forked(ops, cwd, uid, umask=0o22):
    """run the history in a child process in directory cwd as user uid; returns the answers and the final directory"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(30)
            os.umask(umask)
            os.chdir(cwd)
            if uid is not None:
                os.setgroups([])
                os.setgid(uid)
                os.setuid(uid)
            for f in range(50, 80):
                try:
                    os.close(f)
                except OSError:
                    pass
            res = Twin().run(ops)
            end = os.readlink("/proc/self/cwd")
            os.write(w, pickle.dumps((res, end)))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (None, None)      # a history that blocks
