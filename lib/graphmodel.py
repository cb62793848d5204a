"""Python model of sml/graph.sml: generates operation histories and judges the observed output."""
import struct

NSLOTS = 24


def nxt(x):
    return (x * 1103515245 + 12345) % 2147483648


def byte(x):
    return (x // 65536) % 256


def hsh(h, x):
    v = h * 31 + x + 7
    return v % 1000000007 if v >= 0 else -((-v) % 1000000007)


def fold(xs):
    h = 1
    for x in xs:
        h = hsh(h, x)
    return h


def f2h(x):
    return struct.pack(">d", x).hex()


class O:
    __slots__ = ("k", "f", "x", "cleared", "may", "h")

    def __init__(self, k, f=None, x=None):
        self.k, self.f, self.x = k, f, x      # f: children (list), x: data
        self.cleared = self.may = False
        self.h = None


def ofold(o):
    """the hash of an immutable sequence, computed once"""
    if o.h is None:
        o.h = fold(o.x)
    return o.h


N = O("n")


def mkstring(n, seed):
    x, out = seed, []
    for _ in range(n):
        x = nxt(x)
        out.append(byte(x))
    return out


def chain(n, seed):
    x, acc = seed, N
    for _ in range(n):
        x = nxt(x)
        acc = O("p", [O("r", [O("i", None, x)]), acc])
    return acc


def deep(n, x):
    l = [x]
    for k in range(1, n + 1):
        if k % 97 == 0:
            y = l[-1]
            l.append(k + x + 1 + (y % 1000 if y >= 0 else -((-y) % 1000)))
    return l[::-1]


class Mismatch(Exception):
    pass


class Model:
    """executes operations; out tokens are compared with toks (an iterator position) when toks is given"""

    def __init__(self, toks=None):
        self.s = [N] * NSLOTS
        self.weaks = []
        self.toks = toks
        self.pos = 0
        self.exp = 0

    # ---- observation
    def emit(self, t):
        if self.toks is None:
            return
        if self.pos >= len(self.toks):
            raise Mismatch("output ends early, expected %s" % t)
        g = self.toks[self.pos]
        if g != t:
            raise Mismatch("output token %d: expected %s, got %s (context: %s)"
                           % (self.pos, t, g, " ".join(self.toks[max(0, self.pos - 12):self.pos + 3])))
        self.pos += 1

    def peek(self):
        return self.toks[self.pos] if self.pos < len(self.toks) else "<end>"

    def dump_all(self, budget):
        if self.toks is None:
            # force the suspensions the dump would force: done lazily, identity is by object anyway
            pass
        num = {}
        cnt = {}
        left = budget
        stack = []
        for o in reversed(self.s):
            stack.append(o)
        emit = self.emit
        while stack:
            o = stack.pop()
            if type(o) is str:
                emit(o)
                continue
            if left <= 0:
                emit("#")
                return
            left -= 1
            k = o.k
            if k in "rabdkj":
                if k != "r" and k not in "abdkj":
                    raise AssertionError
                key = id(o)
                new = key not in num
                if new:
                    num[key] = cnt.get(k, 0)
                    cnt[k] = num[key] + 1
                emit(k + str(num[key]))
                if not new:
                    continue
                if k == "r":
                    stack.append(o.f[0])
                elif k == "a":
                    emit(str(len(o.f)))
                    self.push_elems(stack, o.f)
                elif k == "b":
                    emit("%d.%d" % (len(o.x), fold(o.x)))
                elif k in "dj":
                    emit("%d.%d" % (len(o.x), fold(o.x)))
                elif k == "k":
                    emit(str(o.x))
            elif k == "n":
                emit("n")
            elif k == "i":
                emit("i%d" % o.x)
            elif k in ("p", "t3", "t5", "t8", "e1"):
                emit(k)
                stack.extend(reversed(o.f))
            elif k == "e2":
                emit(k)
                emit(str(o.x))
                stack.append(o.f[0])
            elif k == "v":
                emit("v")
                emit(str(len(o.f)))
                self.push_elems(stack, o.f)
            elif k == "s":
                emit("s%d.%d" % (len(o.x), ofold(o)))
            elif k == "x":
                emit("x%d.%d" % (len(o.x), ofold(o)))
            elif k == "f":
                emit(f2h(o.x))
            elif k == "c":
                emit("c")
                stack.append(closure_value(o))
            elif k == "w":
                if self.toks is not None and self.peek() == "w0":
                    if not (o.may or o.cleared):
                        raise Mismatch("weak pointer cleared while its target was reachable (token %d)" % self.pos)
                    o.cleared = True
                    emit("w0")
                else:
                    if o.cleared:
                        raise Mismatch("a cleared weak pointer is not empty (token %d: %s)" % (self.pos, self.peek()))
                    emit("w1")
                    stack.append(o.f[0])
            elif k == "u":
                emit("u")
                stack.append(force(o))
            elif k == "z":
                emit("z")
                emit(str(o.x))
            elif k == "l":
                emit("l%d.%d" % (len(o.x), ofold(o)))
            elif k == "m":
                kk = o.x
                emit("m")
                emit(str(kk))
                emit(f2h(kk / 4.0))
                emit("%016x" % ((kk * 65537) % 2**64))
                emit(str(-kk))
                emit("s" + str(kk).encode().hex())
                emit("%016x" % (kk % 256))
                stack.append(o.f[0])
            else:
                raise AssertionError(k)
        emit(";")

    @staticmethod
    def push_elems(stack, f):
        out, run = [], 0
        for x in f:
            if x.k == "n":
                run += 1
            else:
                if run:
                    out.append("*%d" % run)
                    run = 0
                out.append(x)
        if run:
            out.append("*%d" % run)
        stack.extend(reversed(out))

    # ---- strong reachability
    def update_weaks(self):
        ws = [w for w in self.weaks if not w.may]
        if not ws:
            return
        seen = set()
        st = list(self.s)
        while st:
            o = st.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if o.k == "w":
                continue
            if o.f:
                st.extend(o.f)
        for w in ws:
            if id(w.f[0]) not in seen:
                w.may = True

    def step(self, op):
        s = self.s
        c, a = op[0], op[1:]
        if c == "i":
            s[a[0]] = O("i", None, a[1])
        elif c == "p":
            s[a[0]] = O("p", [s[a[1]], s[a[2]]])
        elif c == "t3":
            s[a[0]] = O("t3", [s[a[1]], s[a[2]], s[a[3]]])
        elif c == "t5":
            s[a[0]] = O("t5", [s[a[1]], s[a[2]], s[a[3]], s[a[1]], N])
        elif c == "t8":
            s[a[0]] = O("t8", [s[a[1]], s[a[2]], s[a[3]], s[a[1]], N, s[a[2]], O("i", None, 3), s[a[3]]])
        elif c == "r":
            s[a[0]] = O("r", [s[a[1]]])
        elif c == "a":
            s[a[0]] = O("a", [s[a[2]]] * a[1])
        elif c in ("at", "v"):
            n = a[1]
            s[a[0]] = O("a" if c == "at" else "v",
                        [s[a[2]] if i % 37 == 0 else s[a[3]] if i == n - 1 else N for i in range(n)])
        elif c == "vl":
            n = a[1]
            s[a[0]] = O("v", [s[a[2]] if i == 0 else s[a[3]] if i == n - 1 else N for i in range(n)])
        elif c == "s":
            s[a[0]] = O("s", None, mkstring(a[1], a[2]))
        elif c == "sc":
            t = mkstring(a[1], a[2])
            s[a[0]] = O("s", None, t + [45] + t + t)
        elif c == "b":
            s[a[0]] = O("b", None, [a[2] % 256] * a[1])
        elif c == "d":
            s[a[0]] = O("d", None, [a[2]] * a[1])
        elif c == "k":
            s[a[0]] = O("k", None, a[1])
        elif c == "j":
            s[a[0]] = O("j", None, [a[2]] * a[1])
        elif c == "f":
            s[a[0]] = O("f", None, a[1] / 8.0)
        elif c == "c":
            s[a[0]] = O("c", [s[a[1]], s[a[2]]], a[3])
        elif c == "w":
            t = s[a[1]]
            if t.k == "r":
                w = O("w", [t])
                self.weaks.append(w)
                s[a[0]] = w
        elif c == "wo":
            w = O("w", [s[a[1]]])
            if s[a[1]] is not N:
                self.weaks.append(w)
            s[a[0]] = w
        elif c == "us":
            s[a[0]] = O("u", [s[a[1]]], False)
        elif c == "z":
            x, acc = a[2], 1
            for _ in range(a[1]):
                x = nxt(x)
                acc = acc * 1000000007 + x
            s[a[0]] = O("z", None, acc)
        elif c == "l":
            x, acc = a[2], []
            for _ in range(a[1]):
                x = nxt(x)
                acc.append(x)
            s[a[0]] = O("l", None, acc[::-1])
        elif c == "x":
            s[a[0]] = O("e1", [s[a[1]]])
        elif c == "y":
            s[a[0]] = O("e2", [s[a[1]]], a[2])
        elif c == "m":
            s[a[0]] = O("m", [s[a[1]]], a[2])
        elif c == "vw":
            s[a[0]] = O("x", None, [(i * a[2] + 3) % 256 for i in range(a[1])])
        elif c == ":=":
            if s[a[0]].k == "r":
                s[a[0]].f[0] = s[a[1]]
        elif c == ":n":
            if s[a[0]].k == "r":
                s[a[0]].f[0] = N
        elif c == "u":
            o = s[a[0]]
            if o.k == "a" and o.f:
                o.f[a[1] % len(o.f)] = s[a[2]]
        elif c == "un":
            o = s[a[0]]
            if o.k == "a" and o.f:
                o.f[a[1] % len(o.f)] = N
        elif c == "uf":
            o = s[a[0]]
            if o.k == "a":
                j, k = a[1], 0
                while k < a[2] and j < len(o.f):
                    o.f[j] = O("r", [O("i", None, j + a[3])])
                    j += a[3]
                    k += 1
        elif c == "fa":
            o = s[a[0]]
            if o.k == "a":
                for j in range(a[1], min(len(o.f), a[1] + a[2])):
                    o.f[j] = fresh(j, a[3], a[4])
        elif c == "uk":
            if s[a[0]].k == "k":
                s[a[0]].x = a[1]
        elif c in ("uj", "ub", "ud"):
            o = s[a[0]]
            if o.k == c[1] and o.x:
                o.x[a[1] % len(o.x)] = a[2] % 256 if c == "ub" else a[2]
        elif c == ".":
            s[a[0]] = field(s[a[1]], a[2])
        elif c == "=":
            s[a[0]] = s[a[1]]
        elif c == "0":
            s[a[0]] = N
        elif c in ("g", "G", "XB", "XE"):
            pass
        elif c == "cp":
            x, y = s[a[0]], s[a[1]]
            if x.k == "a" and y.k == "a" and a[2] + len(x.f) <= len(y.f):
                y.f[a[2]:a[2] + len(x.f)] = list(x.f)
        elif c == "h":
            s[a[0]] = chain(a[1], a[2])
        elif c == "hs":
            o, h, n = s[a[0]], 1, 0
            while o.k == "p" and o.f[0].k == "r":
                v = o.f[0].f[0]
                h = hsh(h, v.x if v.k == "i" else 5)
                n += 1
                o = o.f[1]
            self.emit(str(n))
            self.emit(str(h))
        elif c == "hm":
            o, i = s[a[0]], 0
            while o.k == "p" and o.f[0].k == "r":
                if i % a[1] == 0:
                    o.f[0].f[0] = N if a[2] == 0 else O("i", None, i * a[2]) if a[2] == 1 else \
                        O("p", [O("i", None, i), O("i", None, a[2])])
                i += 1
                o = o.f[1]
        elif c == "q":
            if self.toks is not None:
                l = deep(a[0], a[1])
                self.emit(str(len(l)))
                self.emit(str(fold(l)))
        elif c == "mx":
            n, k = a
            b, w, l = k, 1, 0
            for m in range(n, 0, -1):
                b += m
                w = ((w << 1) % 2**64) ^ m
                l = 1 if m % 16 == 0 else l + 1
            self.emit(f2h(0.25 + 0.5 * n))
            self.emit(str(b))
            self.emit("%016x" % w)
            self.emit(str(l))
        elif c == "ex":
            k = 17
            for n in range(1, a[0] + 1):
                k = (k * 7 + n) % 10007
            self.emit(str(k))
        elif c == "kt":
            acc = 1
            for i in range(a[0], 0, -1):
                acc = (acc * 31 + i) % 1000003
            self.emit(str(acc))
        elif c == "?":
            if self.toks is not None:
                # an object which is not strongly reachable can never become reachable again (dumps do not store
                # what they read through weak pointers), so it is enough to compute reachability here
                self.update_weaks()
                self.dump_all(a[0])
            # dumping forces the suspensions it meets; force in the model happens on demand and is idempotent
        else:
            raise AssertionError(c)


def fresh(j, kind, sz):
    if kind == 0:
        return O("r", [O("i", None, j)])
    if kind == 1:
        return O("j", None, [j] * sz)
    if kind == 2:
        return O("s", None, mkstring(sz, j))
    if kind == 3:
        return O("p", [O("i", None, j), O("p", [O("i", None, sz), N])])
    if kind == 4:
        return O("d", None, [j] * sz)
    if kind == 5:
        r = O("r", [O("i", None, j)])
        return O("a", [r] * sz)
    if kind == 6:
        return O("v", [O("i", None, j) if k == 0 else N for k in range(sz)])
    return O("b", None, [j % 256] * sz)


def closure_value(o):
    return O("t3", [o.f[0], O("f", None, float(o.x)), O("p", [o.f[1], O("i", None, o.x)])])


def force(o):
    if not o.x:
        o.x = True
        o.f[0] = O("p", [O("r", [o.f[0]]), O("i", None, 1)])
    return o.f[0]


def field(o, f):
    if o.k in ("p", "t3", "t5", "t8", "a", "v"):
        return o.f[f % len(o.f)] if o.f else N
    if o.k == "r":
        return o.f[0]
    if o.k == "c":
        return closure_value(o)
    if o.k == "u":
        return force(o)
    if o.k in ("e1", "e2", "m"):
        return o.f[0]
    return N


SIZES = [0, 1, 2, 3, 5, 8, 31, 32, 33, 64, 100, 255, 256, 257, 300, 510, 511, 512, 513, 514, 600, 1000, 1023, 1024, 1025, 2000, 4000, 5000, 20000]


def size(s, cap=20000):
    v = SIZES[s.draw(len(SIZES))] if s.draw(3) else s.draw(1200)
    return min(v, cap)


def strsize(s):
    """sizes in bytes, around word and 512-word boundaries"""
    k = s.draw(4)
    if k == 0:
        return s.draw(40)
    if k == 1:
        return 8 * s.choice([0, 1, 2, 32, 64, 511, 512, 513, 514, 1024, 4096]) + s.draw(17)
    if k == 2:
        return s.draw(6000)
    return s.draw(300)


def gen_op(s, m, weights=None):
    """one operation given the model state (for the kinds of the slots)"""
    k = s.draw(100)
    sl = lambda: s.draw(NSLOTS)

    def of(kind):
        c = [i for i in range(NSLOTS) if m.s[i].k == kind]
        return s.choice(c) if c else None
    if k < 4:
        return ("i", sl(), s.int(-1000, 1000))
    if k < 10:
        return ("p", sl(), sl(), sl())
    if k < 14:
        return (s.choice(["t3", "t5", "t8"]), sl(), sl(), sl(), sl())
    if k < 20:
        return ("r", sl(), sl())
    if k < 24:
        return ("a", sl(), size(s), sl() if s.draw(3) == 0 else first_nil(m, s))
    if k < 28:
        return (s.choice(["at", "v", "vl"]), sl(), size(s, 5000), sl(), sl())
    if k < 31:
        c = s.choice(["s", "sc", "vw"])
        return (c, sl(), strsize(s), s.draw(1000))
    if k < 33:
        return ("b", sl(), strsize(s), s.draw(256))
    if k < 35:
        return ("d", sl(), size(s, 5000), s.draw(100))
    if k < 37:
        return ("k", sl(), s.int(-5000, 5000)) if s.draw(2) else ("j", sl(), size(s, 5000), s.int(-50, 50))
    if k < 38:
        return ("f", sl(), s.int(-500, 500))
    if k < 40:
        return ("c", sl(), sl(), sl(), s.int(-500, 500))
    if k < 43:
        t = of("r")
        if s.draw(3) == 2:
            return ("wo", sl(), sl())
        return ("w", sl(), t) if t is not None else ("r", sl(), sl())
    if k < 45:
        return ("us", sl(), sl())
    if k < 46:
        return ("z", sl(), s.draw(60), s.draw(1000))
    if k < 47:
        return ("l", sl(), size(s), s.draw(1000))
    if k < 49:
        return s.choice([("x", sl(), sl()), ("y", sl(), sl(), s.int(-99, 99)), ("m", sl(), sl(), s.int(-999, 999))])
    if k < 58:
        t = of("r")
        if t is None:
            return ("r", sl(), sl())
        return (":=", t, sl()) if s.draw(6) else (":n", t)
    if k < 66:
        t = of("a")
        if t is None:
            return ("a", sl(), size(s), sl())
        n = len(m.s[t].f)
        z = s.draw(10)
        i = s.draw(max(n, 1)) if z < 6 else (n - 1 if z < 8 else 0)
        i = max(i, 0)
        z = s.draw(7)
        if z == 6:
            kind = s.draw(8)
            cnt = 1 + s.choice([5, 40, 200, 1000])
            return ("fa", t, i if s.draw(2) else 0, cnt, kind, s.draw(max(2, min(600, 20000 // cnt))))
        if z == 0:
            return ("un", t, i)
        if z == 1:
            return ("uf", t, i, 1 + s.draw(40), 1 + s.draw(50))
        return ("u", t, i, sl())
    if k < 70:
        c = s.choice(["uk", "uj", "ub", "ud"])
        t = of(c[1])
        if t is None:
            return {"uk": ("k", sl(), 5), "uj": ("j", sl(), size(s), 3), "ub": ("b", sl(), 700, 1), "ud": ("d", sl(), 700, 2)}[c]
        if c == "uk":
            return ("uk", t, s.int(-5000, 5000))
        return (c, t, s.draw(max(1, len(m.s[t].x))), s.draw(250))
    if k < 75:
        return (".", sl(), sl(), s.draw(6000))
    if k < 78:
        return ("=", sl(), sl())
    if k < 82:
        return ("0", sl())
    if k < 88:
        return ("g", s.choice([0, 1, 0, 1, 2, 3, 4, 5, 6, 15]))
    if k < 92:
        return ("G", s.draw(5), s.choice([1, 20, 60, 200, 200, 600, 1500]))
    if k < 94:
        t, u = of("a"), of("a")
        if t is None:
            return ("a", sl(), size(s), sl())
        d = max(0, len(m.s[u].f) - len(m.s[t].f))
        return ("cp", t, u, s.draw(d + 1))
    if k < 96:
        z = s.draw(3)
        c = [i for i in range(NSLOTS) if m.s[i].k == "p" and m.s[i].f[0].k == "r"]
        if z == 0 or not c:
            return ("h", sl(), s.choice([10, 100, 1000, 5000, 20000]), s.draw(1000))
        if z == 1:
            return ("hm", s.choice(c), 1 + s.draw(500), s.draw(4))
        return ("hs", s.choice(c))
    if k < 97:
        return ("q", s.choice([10, 1000, 5000, 30000]), s.draw(100)) if s.draw(2) else ("mx", s.choice([10, 1000, 20000]), s.draw(100))
    if k < 98:
        return ("ex", s.choice([3, 50, 2000])) if s.draw(2) else ("kt", s.choice([3, 100, 5000]))
    return ("?", 300)


def first_nil(m, s):
    for i in range(NSLOTS):
        if m.s[i].k == "n":
            return i
    return s.draw(NSLOTS)


def gen_pressure(s, m):
    """few kinds of operations which fill the arenas of the first generation with live data"""
    c = [i for i in range(6) if m.s[i].k == "a" and len(m.s[i].f) >= 100]
    k = s.draw(10)
    if not c or k == 0:
        return ("a", s.draw(6), 1000, 23)
    if k <= 5:
        cnt = s.choice([20, 60, 150, 400])
        kind = s.draw(8)
        return ("fa", s.choice(c), s.draw(900), cnt, kind, s.choice([3, 40, 60000 // cnt // (8 if kind in (2, 7) else 1) % 500 + 8]))
    if k <= 7:
        return (s.choice(["a", "vl", "at"]), 6 + s.draw(10), s.choice([600, 3000, 9000, 14000, 20000]), s.draw(6), s.draw(6))
    if k == 8:
        return ("0", 6 + s.draw(10)) if s.draw(3) else ("g", s.draw(4))
    return ("G", s.draw(5), s.choice([20, 60, 200]))


def gen_history(s, lo, hi, final=4000):
    m = Model()
    if s.draw(5) == 4:
        ops = []
        for _ in range(lo + s.draw(60)):
            op = gen_pressure(s, m)
            if op[0] == "a":
                op = op[:4]
            m.step(op)
            ops.append(op)
        ops.append(("?", final))
        return ops
    n = lo + s.draw(hi - lo + 1)
    ops = []
    for _ in range(n):
        op = gen_op(s, m)
        m.step(op)
        ops.append(op)
    ops.append(("?", final))
    return ops


def line(ops):
    return "%d " % len(ops) + " ".join(" ".join(str(x) for x in o) for o in ops)


def nstr(ops):
    return "; ".join(" ".join(str(x) for x in o) for o in ops)


def judge(ops, toks):
    m = Model(toks)
    try:
        for i, o in enumerate(ops):
            try:
                m.step(o)
            except Mismatch as e:
                return "operation %d (%s): %s" % (i, " ".join(map(str, o)), e)
        if m.pos != len(toks):
            return "extra output: %s" % " ".join(toks[m.pos:m.pos + 10])
    except Mismatch as e:
        return str(e)
    return None
