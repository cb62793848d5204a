"""C34: sockets and network databases behave as the operating system's, for every history of operations."""
import ctypes, errno, fcntl, os, re, select, shutil, socket, struct, subprocess, sys, tempfile, termios
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, vbuild
from table import codec_text

IMG = None
MAIN = "structure Main = struct val main = SD.main end\n"
NS = 40


class Skip(Exception):
    pass


class Stop(Exception):
    pass


def tok(x):
    if isinstance(x, bytes):
        return "s" + x.hex()
    if isinstance(x, tuple):
        return " ".join(tok(y) for y in x)
    if isinstance(x, list):
        return " ".join([str(len(x))] + [tok(y) for y in x])
    if x is None:
        return "0"
    return str(x)


def line(ops):
    return " ".join([str(len(ops))] + [" ".join([o[0]] + [tok(x) for x in o[1:]]) for o in ops])


def show_op(o):
    return "%s(%s)" % (o[0], ", ".join(str(x)[:120] for x in o[1:]))


def h(b):
    return "s" + b.hex()


def payload(n, k):
    if k == 77:
        return b"q" * n
    return bytes((j * k + j // 251) & 255 for j in range(n))


def bighash(b):
    v = 7
    for c in b:
        v = (v * 31 + c) & (2**63 - 1)
    return [str(len(b)), "%016x" % v]


def errtok(e):
    return "!%s:%d" % (errno.errorcode.get(e.errno, "E?")[1:].lower(), e.errno)


KIND = {"us": (socket.AF_UNIX, socket.SOCK_STREAM), "ud": (socket.AF_UNIX, socket.SOCK_DGRAM), "ts": (socket.AF_INET, socket.SOCK_STREAM), "ti": (socket.AF_INET, socket.SOCK_DGRAM)}
OPT = {"DEBUG": socket.SO_DEBUG, "REUSEADDR": socket.SO_REUSEADDR, "KEEPALIVE": socket.SO_KEEPALIVE, "DONTROUTE": socket.SO_DONTROUTE, "BROADCAST": socket.SO_BROADCAST,
       "OOBINLINE": socket.SO_OOBINLINE, "SNDBUF": socket.SO_SNDBUF, "RCVBUF": socket.SO_RCVBUF}


class Twin:
    """performs the same history on sockets of its own"""

    def __init__(self):
        self.s = [None] * NS
        self.inet = [False] * NS
        self.stream = [False] * NS
        self.sv = [None] * 16
        self.backlog = {}
        self.pend = {}
        self.conn = {}
        self.oob = False
        self.peer = {}
        self.later = 0

    def close(self):
        for x in self.s:
            if x is not None:
                x.close()

    def sk(self, i):
        if self.s[i] is None or self.s[i].fileno() < 0:
            raise Skip()
        self.s[i].setblocking(False)
        return self.s[i]

    def put(self, i, s, kind):
        if self.s[i] is not None:
            raise Skip()
        s.setblocking(False)
        self.s[i] = s
        self.inet[i] = kind[0] == "t"
        self.stream[i] = kind[1] == "s"

    def addr(self, a, want_inet):
        """an address for a socket of the family"""
        k = a[0]
        if k == "u":
            if want_inet:
                raise Skip()
            if len(a[1]) > 107:
                raise Long()
            return a[1]
        if k == "any":
            if not want_inet:
                raise Skip()
            return ("0.0.0.0", a[1])
        if k == "in":
            if not want_inet:
                raise Skip()
            return (a[1].decode(), a[2])
        if k == "lo":
            s = self.sk(a[1])
            if self.inet[a[1]] != want_inet:
                raise Skip()
            n = s.getsockname()
            if self.inet[a[1]]:
                return ("127.0.0.1", n[1])
            n = self.un(n)
            if n == b"":
                raise Skip()
            return n
        n = self.sv[a[1]]
        if n is None or isinstance(n, tuple) != want_inet or n == b"":
            raise Skip()
        return n

    def un(self, n):
        if n is None:
            return b""
        return n if isinstance(n, bytes) else os.fsencode(n)

    def wad(self, n):
        if isinstance(n, tuple):
            return "I%s#%d" % n
        return "U" + self.un(n).decode("latin-1")

    def ready(self, i, ev):
        p = select.poll()
        p.register(self.s[i], ev)
        return bool(p.poll(0))

    def taken(self, port, stream):
        return any(x is not None and x.fileno() >= 0 and self.inet[j] and self.stream[j] == stream and x.getsockname()[1] == port for j, x in enumerate(self.s))

    def do(self, o):
        k, a = o[0], list(o[1:])
        if k == "mk":
            i, kd = a
            if self.s[i] is not None:
                raise Skip()
            if kd == "bad":
                socket.socket(socket.AF_INET, socket.SOCK_DGRAM, 6)
                return ["u"]
            kk = {"gs": "ts"}.get(kd, kd.rstrip("'"))
            pr = {"ts'": 6, "ti'": 17}.get(kd, 0)
            self.put(i, socket.socket(*KIND[kk], pr), kk)
            return ["u"]
        if k == "pair":
            i, j, kd = a
            if self.s[i] is not None or self.s[j] is not None or i == j:
                raise Skip()
            x, y = socket.socketpair(*KIND[kd.rstrip("'")])
            self.put(i, x, kd)
            self.put(j, y, kd)
            self.peer[i], self.peer[j] = j, i
            return ["u"]
        if k == "bind":
            s = self.sk(a[0])
            if a[1][0] == "u" and (a[1][1].startswith(b"/") or b".." in a[1][1]):
                raise Skip()
            if a[1][0] == "u" and a[1][1] == b"" or a[1][0] == "any" and a[1][1] != 0:
                raise Skip()
            n = self.addr(a[1], self.inet[a[0]])
            if self.inet[a[0]] and n[1] >= 1024 and not self.taken(n[1], self.stream[a[0]]):
                raise Skip()        # a port which another process may have
            s.bind(n)
            return ["u"]
        if k == "listen":
            s = self.sk(a[0])
            if self.inet[a[0]] and self.stream[a[0]]:
                pass
            s.listen(a[1])
            self.backlog[a[0]] = a[1]
            self.pend.setdefault(a[0], 0)
            return ["u"]
        if k in ("accept", "acceptNB"):
            i, j, v = a
            s = self.sk(i)
            if self.s[j] is not None or not self.stream[i]:
                raise Skip()
            if k == "accept" and i in self.backlog and not self.ready(i, select.POLLIN):
                raise Skip()
            try:
                n, ad = s.accept()
            except BlockingIOError:
                if k == "accept":
                    raise Stop()
                return ["0"]
            self.pend[i] = self.pend.get(i, 1) - 1
            self.put(j, n, "ts" if self.inet[i] else "us")
            self.sv[v] = ad if isinstance(ad, tuple) else self.un(ad)
            return (["1"] if k == "acceptNB" else []) + [self.wad(ad)]
        if k in ("connect", "connectNB"):
            i, ad = a
            s = self.sk(i)
            self.peer.pop(i, None)
            self.peer.pop(ad[1] if ad[0] == "lo" else None, None)
            if i in self.backlog:
                raise Skip()
            n = self.addr(ad, self.inet[i])
            if ad[0] not in ("lo", "u"):
                raise Skip()
            if ad[0] == "lo" and self.inet[i] and self.stream[i]:
                j = ad[1]
                if j not in self.backlog or not self.stream[j]:
                    if self.stream[j] or n[1] == 0:     # the port of a stream socket which does not listen may be anyone's
                        raise Skip()
                elif self.pend[j] >= self.backlog[j]:
                    raise Skip()
            if ad[0] == "lo" and self.inet[i] and n[1] == 0:
                raise Skip()
            try:
                s.connect(n)
            except BlockingIOError as e:
                if e.errno == errno.EINPROGRESS:
                    if not self.ready(i, select.POLLOUT):
                        raise Stop()
                    self.bump(ad)
                    if k == "connect":
                        s.connect(n)      # completes the state change of the socket, as a blocking connect does
                        return ["u"]
                    return ["0"]
                if k == "connect":
                    raise Stop()
                return ["0"]
            self.bump(ad)
            return ["u"] if k == "connect" else ["1"]
        if k == "close":
            self.sk(a[0]).close()
            return ["u"]
        if k == "shut":
            if not self.stream[a[0]]:
                raise Skip()
            self.sk(a[0]).shutdown([socket.SHUT_RD, socket.SHUT_WR, socket.SHUT_RDWR][a[1]])
            return ["u"]
        if k == "get":
            return self.get(*a)
        if k == "set":
            nm, i, v = a
            s = self.sk(i)
            if nm == "LINGER":
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", int(v >= 0), max(v, 0)))
            elif nm == "NODELAY":
                if not (self.inet[i] and self.stream[i]):
                    raise Skip()
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, v)
            else:
                s.setsockopt(socket.SOL_SOCKET, OPT[nm], v)
            return ["u"]
        if k == "same":
            x, y = self.rawaddr(a[0]), self.rawaddr(a[1])
            if isinstance(x, tuple) != isinstance(y, tuple):
                raise Skip()
            return ["1" if x == y else "0"]
        if k == "addr":
            return [self.wad(self.rawaddr(a[0]))]
        if k == "save":
            n = self.rawaddr(a[1])
            self.sv[a[0]] = n
            return [self.wad(n)]
        if k == "kind":
            self.sk(a[0])
            return ["sock"]
        if k == "samedesc":
            self.sk(a[0]), self.sk(a[1])
            return ["1" if a[0] == a[1] else "0"]
        if k == "select":
            r, w, x, t = a
            ls = [[(i, self.sk(i)) for i in l] for l in (r, w, x)]
            if t is None and not any(self.ready(i, select.POLLIN) for i in r) and not any(self.ready(i, select.POLLOUT) for i in w):
                raise Skip()
            res = select.select(*[[s for _, s in l] for l in ls], 0)
            if t is None and not any(res):
                raise Skip()
            out = []
            for l, rs in zip(ls, res):
                ids = [i for i, s in l if any(s is q for q in rs)]
                out += [str(len(ids))] + [str(i) for i in ids]
            return out
        if k in ("send", "sendTo"):
            how, nb, fl, i, dr, oob = a[:6]
            s = self.sk(i)
            if self.stream[i] != (k == "send"):
                raise Skip()
            n, kk, off, tail = a[-1]
            f = ((socket.MSG_DONTROUTE if dr else 0) | (socket.MSG_OOB if oob else 0)) if fl else 0
            if k == "sendTo":
                ad = self.addr(a[6], self.inet[i])
                if self.inet[i] and (ad[1] == 0 or ad[0] != "127.0.0.1"):
                    raise Skip()
                if n == 0:
                    raise Skip()
            elif n == 0:
                return (["1"] if nb else []) + ["0"]
            self.oob = self.oob or bool(f & socket.MSG_OOB)
            try:
                m = s.sendto(payload(n, kk), f, ad) if k == "sendTo" else s.send(payload(n, kk), f)
            except BlockingIOError:
                if not nb or self.inet[i]:
                    raise Stop()
                return ["0"]
            if m < n and (not nb or self.inet[i]):
                raise Stop()
            if k == "sendTo":
                return ["1"] if nb else ["u"]
            return (["1"] if nb else []) + [str(m)]
        if k in ("recv", "recvFrom"):
            how, nb, fl, i, peek, oob, n, off, tail = a[:9]
            s = self.sk(i)
            if self.stream[i] != (k == "recv"):
                raise Skip()
            if n == 0:
                if k == "recvFrom":
                    raise Skip()
                return (["1"] if nb else []) + bighash(b"") + ["1"]
            f = ((socket.MSG_PEEK if peek else 0) | (socket.MSG_OOB if oob else 0)) if fl else 0
            try:
                if k == "recv":
                    b = s.recv(n, f)
                else:
                    b, ad = s.recvfrom(n, f)
            except BlockingIOError:
                if not nb:
                    if self.oob:        # a failed attempt moves the mark of urgent data
                        raise Stop()
                    raise Skip()
                return ["0"]
            out = (["1"] if nb else []) + bighash(b) + ["1"]
            if k == "recvFrom":
                ad = ad if isinstance(ad, tuple) else self.un(ad)
                self.sv[a[9]] = ad
                out.append(self.wad(ad))
                if how == "v":
                    out += bighash(b) + ["1"]
            return out
        if k == "recvName":
            i, n, dg = a
            s = self.sk(i)
            if self.stream[i] == bool(dg):
                raise Skip()
            try:
                b = s.recv(n, socket.MSG_PEEK)
                if b"\0" in b or b"/" in b or b == b"":
                    if self.oob:
                        raise Stop()
                    raise Skip()
                b = s.recv(n)
            except BlockingIOError:
                if self.oob:
                    raise Stop()
                raise Skip()
            return [str(len(b)), "1" if os.access(b, os.F_OK) else "0"]
        if k == "gc":
            return ["u"]
        if k == "later":
            i, j, n = a
            x, y = self.sk(i), self.sk(j)
            if self.peer.get(i) != j or self.ready(i, select.POLLIN) or not self.ready(j, select.POLLOUT) or self.oob or self.later > 1:
                raise Skip()
            self.later += 1
            try:
                y.send(b"q" * n)
                return bighash(x.recv(1000)) + ["1"]
            except OSError:
                raise Stop()
        raise Exception(k)

    def bump(self, ad):
        if ad[0] == "lo" and ad[1] in self.pend:
            self.pend[ad[1]] += 1

    def rawaddr(self, a):
        k = a[0]
        if k == "u":
            if len(a[1]) > 107:
                raise Long()
            return a[1]
        if k == "any":
            return ("0.0.0.0", a[1])
        if k == "in":
            return (a[1].decode(), a[2])
        if k == "lo":
            s = self.sk(a[1])
            n = s.getsockname()
            return ("127.0.0.1", n[1]) if self.inet[a[1]] else self.un(n)
        if self.sv[a[1]] is None or self.sv[a[1]] == b"":
            raise Skip()
        return self.sv[a[1]]

    def get(self, nm, i):
        s = self.sk(i)
        if nm in ("SNDBUF", "RCVBUF"):
            return [str(s.getsockopt(socket.SOL_SOCKET, OPT[nm]))]
        if nm in OPT:
            return ["1" if s.getsockopt(socket.SOL_SOCKET, OPT[nm]) else "0"]
        if nm == "NODELAY":
            if not (self.inet[i] and self.stream[i]):
                raise Skip()
            return ["1" if s.getsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY) else "0"]
        if nm == "LINGER":
            on, t = struct.unpack("ii", s.getsockopt(socket.SOL_SOCKET, socket.SO_LINGER, 8))
            return ["1", str(t)] if on else ["0"]
        if nm == "TYPE":
            return ["STREAM", "1", "0"] if self.stream[i] else ["DGRAM", "0", "1"]
        if nm == "ERROR":
            return ["1" if s.getsockopt(socket.SOL_SOCKET, socket.SO_ERROR) else "0"]
        if nm == "NREAD":
            return [str(struct.unpack("i", fcntl.ioctl(s, termios.FIONREAD, b"\0" * 4))[0])]
        if nm == "ATMARK":
            if not self.stream[i]:
                raise Skip()
            return ["1" if struct.unpack("i", fcntl.ioctl(s, 0x8905, b"\0" * 4))[0] else "0"]
        if nm == "PEER":
            return [self.wad(s.getpeername())]
        if nm == "NAME":
            return [self.wad(s.getsockname())]
        raise Exception(nm)


class Long(Exception):
    pass


PATHS = [b"a", b"b", b"c" * 8, b"d" * 90, b"e" * 107, b"no/x", b"f" * 108, b"g" * 109, b"h" * 200, b"i" * 5000]
NAMES = [b"q" * n for n in (2, 8, 9, 16, 24)]


def g_addr(s, m):
    k = s.weighted([(6, "lo"), (3, "u"), (2, "any"), (2, "in"), (3, "sv")])
    if k == "lo":
        return (k, s.choice(m) if m else 0)
    if k == "u":
        return (k, s.choice(PATHS[:6]) if s.draw(4) else s.choice(PATHS))
    if k == "any":
        return (k, 0)
    if k == "in":
        return (k, s.choice([b"127.0.0.1", b"127.0.0.2", b"0.0.0.0", b"10.1.2.3", b"255.255.255.255"]), s.choice([0, 0, 0, 1, 255, 256, 8080, 65535]))
    return (k, s.draw(6))


def g_size(s):
    return s.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 100, 1000, 1023, 1024, 1025, 4096, 8192, 20000, 30000, s.draw(300)])


def g_slice(s):
    if s.draw(4) == 3:
        return (s.choice([2, 8, 9, 16, 24]), 77, s.choice([0, 1]), 0)
    return (g_size(s), 1 + s.draw(20), s.choice([0, 0, 1, 3, 8]), s.choice([0, 0, 1, 9]))


OPTS = sorted(OPT) + ["LINGER", "NODELAY"]


def gen(s):
    ops, live, nxt = [], [], [0]

    def new():
        i = nxt[0]
        nxt[0] += 1
        live.append(i)
        return i
    # a start which gives the history something to work on
    k = s.draw(8)
    if k < 2:
        a, b = new(), new()
        ops.append(("pair", a, b, s.choice(["us", "ud", "us'", "ud'"])))
    elif k < 5:
        l, c, z = new(), new(), new()
        kd = s.choice(["us", "ts", "ts'", "gs", "us'"])
        un = kd[0] == "u"
        ops += [("mk", l, kd), ("bind", l, ("u", s.choice(PATHS[:5])) if un else ("any", 0)), ("listen", l, 5), ("mk", c, kd)]
        if s.draw(2):
            ops.append(("bind", c, ("u", s.choice(PATHS[:5])) if un else ("any", 0)))
        ops += [
                (s.choice(["connect", "connectNB"]), c, ("lo", l)), (s.choice(["accept", "acceptNB"]), l, z, s.draw(6))]
    elif k < 7:
        a, b = new(), new()
        kd = s.choice(["ud", "ti", "ti'", "ud'"])
        for q, p in ((a, b"a"), (b, b"b")):
            ops += [("mk", q, kd), ("bind", q, ("u", p) if kd[0] == "u" else ("any", 0))]
    for _ in range(1 + s.size(1, 40)):
        if nxt[0] > NS - 3:
            break
        k = s.weighted([(2, "mk"), (1, "pair"), (3, "bind"), (2, "listen"), (3, "accept"), (4, "connect"), (1, "close"), (2, "shut"), (6, "get"), (4, "set"), (1, "same"), (1, "addr"),
                        (2, "save"), (1, "kind"), (1, "samedesc"), (3, "select"), (14, "send"), (10, "sendTo"), (14, "recv"), (10, "recvFrom"), (4, "recvName"), (1, "gc"), (2, "later")])
        if k == "mk":
            ops.append((k, new(), s.choice(["us", "ud", "ts", "ti", "us'", "ud'", "ts'", "ti'", "gs", "bad"])))
            continue
        if k == "pair":
            ops.append((k, new(), new(), s.choice(["us", "ud", "us'", "ud'", "ts"])))
            continue
        if k == "gc":
            ops.append((k, s.draw(6)))
            continue
        if not live:
            continue
        i = s.choice(live)
        if k == "later":
            ops.append((k, i, s.choice(live), s.choice([1, 8, 100])))
        elif k == "bind":
            ops.append((k, i, s.choice([("u", s.choice(PATHS)), ("any", 0), ("in", b"127.0.0.1", 0), g_addr(s, live)])))
        elif k == "listen":
            ops.append((k, i, s.choice([0, 1, 2, 5, 100])))
        elif k == "accept":
            ops.append((s.choice(["accept", "acceptNB"]), i, new(), s.draw(6)))
        elif k == "connect":
            ops.append((s.choice(["connect", "connectNB"]), i, g_addr(s, live)))
        elif k in ("close", "kind"):
            ops.append((k, i))
        elif k == "shut":
            ops.append((k, i, s.draw(3)))
        elif k == "get":
            ops.append((k, s.choice(OPTS + ["TYPE", "ERROR", "NREAD", "NREAD", "ATMARK", "PEER", "NAME", "PEER", "NAME"]), i))
        elif k == "set":
            nm = s.choice(OPTS)
            v = s.choice([0, 1, 100, 5000, 70000, 400000]) if nm.endswith("BUF") else s.choice([-1, 0, 1, 5, 300]) if nm == "LINGER" else s.draw(2)
            ops.append((k, nm, i, v))
        elif k == "same":
            ops.append((k, g_addr(s, live), g_addr(s, live)))
        elif k == "addr":
            ops.append((k, g_addr(s, live)))
        elif k == "save":
            ops.append((k, s.draw(6), g_addr(s, live)))
        elif k == "samedesc":
            ops.append((k, i, s.choice(live)))
        elif k == "select":
            ops.append((k, [s.choice(live) for _ in range(s.draw(4))], [s.choice(live) for _ in range(s.draw(4))], [s.choice(live) for _ in range(s.draw(3))], s.choice([(1, 0), (1, 0), (1, 1), None])))
        elif k == "send":
            sl = g_slice(s) if s.draw(6) else (8, 0, 0, 0)
            ops.append((k, s.choice("va"), s.draw(2), s.draw(2), i, s.draw(4) // 3, s.draw(4) // 3, sl))
        elif k == "sendTo":
            ops.append((k, s.choice("va"), s.draw(2), s.draw(2), i, s.draw(4) // 3, s.draw(8) // 7, g_addr(s, live), g_slice(s)))
        elif k in ("recv", "recvFrom"):
            o = (k, s.choice("va"), s.draw(2), s.draw(2), i, s.draw(2), s.draw(4) // 3, g_size(s) if s.draw(3) else s.choice([40000, 70000, 200000]), s.choice([0, 0, 1, 5, 8]), s.choice([0, 0, 1, 8]))
            ops.append(o + ((s.draw(6),) if k == "recvFrom" else ()))
        else:
            ops.append((k, i, s.choice([2, 8, 16, 24, 9, 100]), s.draw(2)))
    return (s.choice(["128k", "256k", "1M"]), ops)


def canon(toks):
    """ports the system chose are renamed in order of appearance"""
    m = {}
    out = []
    for t in toks:
        r = []
        for x in t:
            q = re.match(r"^(I[0-9.]+#)(\d+)$", x)
            if q and int(q.group(2)) >= 10000 and q.group(2) != "65535":
                x = q.group(1) + "p%d" % m.setdefault(q.group(2), len(m))
            r.append(x)
        out.append(r)
    return out


def twin_run(ops):
    t = Twin()
    done, exp = [], []
    try:
        for o in ops:
            try:
                e = t.do(o)
            except Skip:
                continue
            except Stop:
                break
            except Long:
                e = None
            except OSError as x:
                e = [errtok(x)]
            done.append(o)
            exp.append(e)
    finally:
        t.close()
    return done, exp


def one(c, d):
    al, ops = c
    dirs = [d + "/t", d + "/s"]
    here = os.getcwd()
    for p in dirs:
        os.mkdir(p)
        for n in NAMES:
            open(os.path.join(os.fsencode(p), n), "w").close()
    try:
        os.chdir(dirs[0])
        done, exp = twin_run(ops)
    finally:
        os.chdir(here)
    if not done:
        return None
    return compare(al, done, exp, dirs[1])


def compare(al, done, exp, cwd):
    try:
        p = subprocess.run([vbuild.TREE + "/bin/.run/run.amd64-linux", "@SMLload=" + IMG + ".amd64-linux", "@SMLalloc=" + al], input=(line(done) + "\n").encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=vbuild.env(), timeout=10)
        rc, out, err = p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1")
    except subprocess.TimeoutExpired:
        return "the program did not end: %s" % "; ".join(show_op(o) for o in done)
    ls = out.split("\n")
    got = [g.split() for g in ls[0].split(";")[1:]]
    if rc != 0 or len(ls) != 2 or len(got) != len(done):
        return "the program ended with status %s, output %r, stderr %r after %s" % (rc, out[:200], err[-200:], "; ".join(show_op(o) for o in done))
    for i, (o, x, y) in enumerate(zip(done, canon(got), canon(exp_fill(exp, got)))):
        if exp[i] is None:
            if x[0][0] != "!":
                return "operation %d, %s, answered %s; expected an exception (the path is too long)" % (i, show_op(o), " ".join(x)[:200])
        elif x != y and not (len(x) == 1 and x[0].startswith("!<UNKNOWN>:") and y[0].split(":")[-1] == x[0].split(":")[-1] and y[0][0] == "!"):
            return "operation %d, %s, answered %s; expected %s; in %s" % (i, show_op(o), " ".join(x)[:200], " ".join(y)[:200], "; ".join(show_op(q) for q in done[:i]))
    return None


def exp_fill(exp, got):
    return [e if e is not None else g for e, g in zip(exp, got)]


def evaluator(f):
    def ev(ctx, cases):
        res = []
        for c in cases:
            d = tempfile.mkdtemp(prefix="vc34-")
            try:
                res.append(f(c, d))
            finally:
                shutil.rmtree(d, ignore_errors=True)
        return res
    return ev


def show(c):
    return c[0] + ": " + "; ".join(show_op(o) for o in c[1])


# ------------------------------------------------------------------ databases and addresses
libc = ctypes.CDLL(None)


class Ent(ctypes.Structure):
    _fields_ = [("name", ctypes.c_char_p), ("aliases", ctypes.POINTER(ctypes.c_char_p)), ("port", ctypes.c_int), ("proto", ctypes.c_char_p)]


class Net(ctypes.Structure):
    _fields_ = [("name", ctypes.c_char_p), ("aliases", ctypes.POINTER(ctypes.c_char_p)), ("af", ctypes.c_int), ("net", ctypes.c_uint32)]


for _f in ("getservbyname", "getservbyport", "getprotobyname", "getprotobynumber"):
    getattr(libc, _f).restype = ctypes.POINTER(Ent)
for _f in ("getnetbyname", "getnetbyaddr"):
    getattr(libc, _f).restype = ctypes.POINTER(Net)


def al(e):
    out, i = [], 0
    while e.aliases[i] is not None:
        out.append(e.aliases[i])
        i += 1
    return [str(len(out))] + [h(x) for x in out]


def words(s):
    """the numbers of a dotted address, or None"""
    m = re.match(r"^((?:0[xX][0-9a-fA-F]+|[1-9][0-9]*|0[0-7]*)(?:\.(?:0[xX][0-9a-fA-F]+|[1-9][0-9]*|0[0-7]*)){0,3})$", s)
    if not m:
        return None
    ws = [int(x, 16) if x[:2].lower() == "0x" else int(x, 8) if x[0] == "0" else int(x) for x in s.split(".")]
    lim = [256] * (len(ws) - 1) + [1 << (8 * (5 - len(ws)))]
    if any(w >= l for w, l in zip(ws, lim)):
        return None
    v = 0
    for w in ws[:-1]:
        v = v << 8 | w
    return (v << 8 * (5 - len(ws))) | ws[-1]


def dot(v):
    return ".".join(str(v >> k & 255) for k in (24, 16, 8, 0))


def services():
    out = [(b"http", 80)]
    try:
        for l in open("/etc/services", "rb"):
            q = re.match(rb"^([^\s#]+)\s+(\d+)/", l)
            if q:
                out.append((q.group(1), int(q.group(2))))
    except OSError:
        pass
    return out


SERVICES = services()


def gen_db(s):
    ops = []
    for _ in range(1 + s.size(1, 12)):
        k = s.choice(["host", "hosta", "hostname", "serv", "port", "prot", "protn", "net", "neta", "haddr", "naddr", "hscan", "haddr", "naddr", "afs", "tys", "serv", "port"])
        if k == "host":
            ops.append((k, s.choice([b"localhost", b"127.0.0.1", b"10.1.2.3", b"1.2", b"0x7f.1"])))
        elif k == "hosta":
            ops.append((k, b"127.0.0.1"))
        elif k in ("hostname", "afs", "tys"):
            ops.append((k,))
        elif k == "serv":
            ops.append((k, s.choice([b"http", b"ftp", b"ssh", b"domain", b"smtp", b"www", b"nosuch", b"telnet", b"echo", b"x" * 40, s.choice(SERVICES)[0]]), g_opt(s, [b"tcp", b"udp", b"xyz"])))
        elif k == "port":
            ops.append((k, s.choice([80, 21, 22, 53, 25, 7, 443, 20480, 0, 1, 256, 6000, 65535, s.draw(1024), s.choice(SERVICES)[1], s.choice(SERVICES)[1]]), g_opt(s, [b"tcp", b"udp", b"xyz"])))
        elif k == "prot":
            ops.append((k, s.choice([b"tcp", b"udp", b"icmp", b"TCP", b"nosuch", b"ip", b"ipv6"])))
        elif k == "protn":
            ops.append((k, s.choice([0, 1, 6, 17, 255, 256, s.draw(140)])))
        elif k == "net":
            ops.append((k, s.choice([b"loopback", b"link-local", b"default", b"nosuch"])))
        elif k == "neta":
            ops.append((k, s.choice([b"127.0.0.0", b"169.254.0.0", b"0.0.0.0", b"9.0.0.0", b"127", b"169.254"])))
        else:
            n = 1 + s.draw(4)
            ws = [s.choice([0, 1, 7, 8, 9, 10, 127, 128, 255, s.draw(256)]) for _ in range(n)]
            if s.draw(3) == 0:
                b = 8 * (5 - n)
                ws[-1] = s.choice([(1 << b) - 1, 1 << (b - 1), s.draw(1 << b), 1 << b if s.draw(2) else 0])
            t = ".".join(s.choice(["%d", "0x%x", "0%o", "%d", "0X%X", "%d"]) % w for w in ws)
            if k == "hscan":
                t += s.choice(["", " ", ":80", "/24", "x", "-1"])
            elif s.draw(8) == 7:
                t = s.choice(["", "x", ".1", "-1.2.3.4"])
            ops.append((k, t.encode()))
    return ops


def g_opt(s, l):
    return (1, s.choice(l)) if s.draw(3) else 0


def exp_db(o):
    k = o[0]
    if k in ("host", "hosta"):
        try:
            n, als, ads = (socket.gethostbyname_ex if k == "host" else socket.gethostbyaddr)(o[1].decode())
        except OSError:
            return ["0"]
        return ["1", h(n.encode()), str(len(als))] + [h(x.encode()) for x in als] + ["INET", str(len(ads))] + ads + [ads[0]]
    if k == "hostname":
        return [h(socket.gethostname().encode())]
    if k in ("serv", "port"):
        p = o[2][1] if o[2] else None
        e = libc.getservbyname(o[1], p) if k == "serv" else libc.getservbyport(socket.htons(o[1]), p)
        if not e:
            return ["0"]
        e = e.contents
        return ["1", h(e.name)] + al(e) + [str(socket.ntohs(e.port & 0xffff)), h(e.proto)]
    if k in ("prot", "protn"):
        e = libc.getprotobyname(o[1]) if k == "prot" else libc.getprotobynumber(o[1])
        if not e:
            return ["0"]
        e = e.contents
        return ["1", h(e.name)] + al(e) + [str(e.port)]
    if k in ("net", "neta"):
        e = libc.getnetbyname(o[1]) if k == "net" else libc.getnetbyaddr(words(o[1].decode()), socket.AF_INET)
        if not e:
            return ["0"]
        e = e.contents
        return ["1", h(e.name)] + al(e) + ["INET", dot(e.net)]
    if k in ("haddr", "naddr"):
        v = words(o[1].decode())
        return None if v is None else ["1", dot(v)]
    if k == "hscan":
        t = o[1].decode()
        m = re.match(r"[0-9a-fA-FxX.]*", t)
        cut = t
        for x in (" ", ":80", "/24", "-1"):
            if t.endswith(x):
                cut = t[:-len(x)]
        if t.endswith("x"):
            cut = t[:-1]
        v = words(cut)
        if v is None or (t.endswith("x") and cut.split(".")[-1] == "0"):
            return None
        return ["1", dot(v), h(t[len(cut):].encode())]
    if k == "afs":
        return ["1", "UNIX", "1", "1", "INET", "1", "0"]
    return ["1", "STREAM", "1", "1", "DGRAM", "1", None, None]


def one_db(ops, d):
    exp = [exp_db(o) for o in ops]
    p = subprocess.run([vbuild.TREE + "/bin/.run/run.amd64-linux", "@SMLload=" + IMG + ".amd64-linux"], input=(line(ops) + "\n").encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=vbuild.env(), timeout=60)
    out = p.stdout.decode("latin-1")
    ls = out.split("\n")
    got = [g.split() for g in ls[0].split(";")[1:]]
    if p.returncode != 0 or len(ls) != 2 or len(got) != len(ops):
        return "the program ended with status %s, output %r, stderr %r" % (p.returncode, out[:200], p.stderr[-200:])
    for o, x, y in zip(ops, got, exp):
        if o[0] == "tys":
            if x[:6] != y[:6] or x[-1] != "0":
                return "%s answered %s" % (show_op(o), x)
        elif y is None:
            if o[0] != "hscan" and x[0] == "1":
                return "%s answered %s; the text is no address" % (show_op(o), " ".join(x))
        elif x != y:
            return "%s answered %s; expected %s" % (show_op(o), " ".join(x)[:300], " ".join(y)[:300])
    return None


def parts():
    global IMG
    IMG = pbt.build_driver("sock", [("codec.sml", codec_text()), ("sock.sml", open(os.path.join(vbuild.VERIF, "sml", "sock.sml")).read()), ("main.sml", MAIN)], ["$/basis.cm"])
    return [pbt.Part("sockets", gen, evaluate=evaluator(one), n=(30000, 1000000), batch=8, show=show, key=show, classify=lambda c: sorted(set(o[0] for o in c[1])),
                     rule="the history transfers data (a send and a receive)", nontrivial=lambda c: any(o[0].startswith("send") for o in c[1]) and any(o[0].startswith("recv") for o in c[1])),
            pbt.Part("databases", gen_db, evaluate=evaluator(one_db), n=(1200, 30000), batch=4, show=lambda c: "; ".join(show_op(o) for o in c), key=lambda c: "; ".join(show_op(o) for o in c),
                     rule="at least two queries", nontrivial=lambda c: len(c) > 1)]


if __name__ == "__main__":
    pbt.main("C34", "a case is a history of socket operations performed by the program and by a twin on the same kernel; it counts when data moves", parts, [])
