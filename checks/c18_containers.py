"""C18: hash tables, hash sets, dynamic and bit arrays, queues, priority queues, union-find references against their models."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, vbuild
from table import codec_text, hexs

KINDS = {"t0": "HashTable", "t1": "HashTableFn(string)", "t2": "HashTableFn(collisions)", "t3": "IntHashTable", "t4": "WordHashTable", "t5": "AtomTable", "h2": "Hash2TableFn", "hs": "HashSetFn",
         "da": "DynamicArray", "ba": "BitArray", "ff": "Fifo", "qu": "Queue", "pq": "LeftPriorityQFn", "ur": "URef"}
T_OPS = "clear insert insert insert insertWith insertWithi range range drop inDomain lookup find findAndRemove findAndRemove remove remove listItems app appi map mapi fold foldi modify modifyi filter filteri copy".split()
H_OPS = "clear insert insert insert insert range inDomain1 inDomain2 lookup1 lookup2 find1 find2 remove1 remove2 remove1 remove2 listItems app appi map mapi fold foldi filter filteri copy".split()
S_OPS = ("mkSingleton mkFromList copy toList listItems add add add' addc addList addSet subtract subtract subtract' subtractc without subtractList subtractSet delete member isEmpty isSubset disjoint union "
         "intersection difference map mapPartial app fold partition filter exists all find").split()
D_OPS = "array subArray subArray fromList tabulate default sub update update update truncate".split()
B_OPS = ("fromString bits array fromList fromList tabulate toString isZero extend0 extend1 eqBits equal andb orb xorb notb shl shr lshift rshift setBit clrBit sub update union intersection complement copy modify "
         "modifyi foldr foldli foldri appi findi exists all collate").split()
F_OPS = "empty enqueue enqueue enqueue enqueue dequeue next delete head peek app map foldl foldr isEmpty".split()
Q_OPS = "clear enqueue enqueue enqueue enqueue dequeue next delete head peek app map foldl foldr isEmpty".split()
P_OPS = "empty singleton fromList insert insert insert insert remove next findAndRemove delete merge isEmpty".split()
U_OPS = "equal get update unify unify link link new".split()


def gen(s):
    kind = s.choice(sorted(KINDS))
    span = s.choice([3, 10, 40, 150])
    key = lambda: s.int(-span, span)
    reg = lambda: s.draw(3) if s.draw(3) == 0 else 0
    q = lambda: s.choice([1, 2, 3, 5, 1000])
    ks = lambda n=12: [key() for _ in range(s.size(0, n))]
    ln = lambda: s.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 64]) if s.draw(5) else s.int(-2, 70)
    hdr = [s.choice([0, 1, 32, 33, 100, -1]) for _ in range(3)] if kind[0] in "th" else [s.choice([0, 1, 5, 40]) for _ in range(3)] if kind == "da" else []
    if kind == "hs":
        hdr = [s.choice([0, 1, 32, 100]) for _ in range(3)]
    hdr = [max(0, x) for x in hdr]
    ops = []
    for _ in range(1 + s.size(0, 40)):
        if kind[0] == "t":
            o = s.choice(T_OPS)
            a = [reg()]
            if o in ("insert", "insertWith", "insertWithi"):
                a += [key(), s.draw(50)]
            elif o in ("range", "drop"):
                a += [key(), s.choice([1, 2, 7, -3]), s.size(1, 80)]
            elif o in ("inDomain", "lookup", "find", "findAndRemove", "remove"):
                a += [key()]
            elif o in ("map", "mapi", "copy"):
                a += [reg()]
            elif o in ("filter", "filteri"):
                a += [q()]
        elif kind == "h2":
            o = s.choice(H_OPS)
            a = [reg()]
            if o == "insert":
                a += [key(), key(), s.draw(50)]
            elif o == "range":
                a += [key(), key(), s.size(1, 60)]
            elif o[-1] in "12":
                a += [key()]
            elif o in ("map", "mapi", "copy"):
                a += [reg()]
            elif o in ("filter", "filteri"):
                a += [q()]
        elif kind == "hs":
            o = s.choice(S_OPS)
            a = [reg()]
            if o == "mkSingleton":
                a += [key(), s.draw(3)]
            elif o == "mkFromList":
                l = ks()
                a += [len(l)] + l + [s.draw(3)]
            elif o == "copy":
                a += [s.draw(3)]
            elif o in ("addList", "subtractList"):
                l = ks()
                a += [len(l)] + l
            elif o in ("addSet", "subtractSet", "isSubset", "disjoint"):
                a += [s.draw(3)]
            elif o in ("union", "intersection", "difference"):
                a += [s.draw(3), s.draw(3)]
            elif o in ("map", "mapPartial"):
                a += [q(), s.draw(3)]
            elif o == "partition":
                a += [q(), s.draw(3), s.draw(3)]
            elif o == "filter":
                a += [q()]
            elif o not in ("toList", "listItems", "isEmpty", "app", "fold"):
                a += [key()]
        elif kind == "da":
            o = s.choice(D_OPS)
            ix = lambda: s.int(-1, 12) if s.draw(2) else s.int(0, 80)
            a = [reg()]
            if o == "array":
                a += [s.int(-1, 20), s.draw(200)]
            elif o == "subArray":
                lo = s.int(0, 30)
                a += [s.draw(3), lo, lo + s.int(-1, 40)]
            elif o == "fromList":
                l = [s.draw(200) for _ in range(s.size(0, 20))]
                a += [len(l)] + l + [s.draw(200)]
            elif o == "tabulate":
                a += [s.int(-1, 30), s.draw(200)]
            elif o == "sub":
                a += [ix()]
            elif o == "update":
                a += [ix(), s.draw(200)]
            elif o == "truncate":
                a += [s.int(0, 40)]
        elif kind == "ba":
            o = s.choice(B_OPS)
            a = [reg()]
            d = s.draw(3)
            if o == "fromString":
                a += [hexs("".join(s.choice("0123456789abcdefABCDEF") for _ in range(s.size(0, 18))) + (s.choice(["", "", "", "g", " "])))] + [d]
            elif o == "bits":
                n = ln()
                l = [s.int(0, max(0, n - 1)) if s.draw(12) else s.choice([-1, n, n + 3]) for _ in range(s.size(0, 10))]
                a += [n, len(l)] + l + [d]
            elif o == "array":
                a += [ln(), s.draw(2), d]
            elif o == "fromList":
                l = [s.draw(2) for _ in range(s.size(0, 70))]
                a += [len(l)] + l + [d]
            elif o in ("tabulate", "extend0", "extend1"):
                a += [ln(), d]
            elif o in ("eqBits", "equal", "union", "intersection", "collate"):
                a += [reg()]
            elif o in ("andb", "orb", "xorb"):
                a += [reg(), ln(), d]
            elif o == "notb":
                a += [d]
            elif o in ("shl", "shr"):
                a += [s.int(0, 40), d]
            elif o in ("lshift", "rshift"):
                a += [s.int(0, 40), d]
            elif o in ("setBit", "clrBit", "sub"):
                a += [s.int(-1, 40)]
            elif o == "update":
                a += [s.int(-1, 40), s.draw(2)]
            elif o == "copy":
                a += [reg(), s.int(-1, 20)]
        elif kind in ("ff", "qu"):
            o = s.choice(F_OPS if kind == "ff" else Q_OPS)
            a = [reg()]
            if o == "enqueue":
                a += [key()]
            elif o == "delete":
                a += [q()]
            if kind == "ff" and o in ("empty", "enqueue", "dequeue", "next", "delete", "map") or o == "map":
                a += [reg()]
        elif kind == "pq":
            o = s.choice(P_OPS)
            a = [reg()]
            if o == "singleton" or o == "insert":
                a += [key(), s.draw(50)]
            elif o == "fromList":
                l = ks()
                a += [len(l)] + l
            elif o in ("findAndRemove", "delete"):
                a += [q()]
            elif o == "merge":
                a += [reg()]
            if o != "isEmpty":
                a += [a[0] if s.draw(2) else reg()]
        else:
            o = s.choice(U_OPS)
            a = [s.draw(12), s.draw(12)]
            if o == "get":
                a = a[:1]
            elif o in ("update", "new"):
                a[1] = s.draw(900)
        ops.append((o, a))
    return kind, hdr, ops


def show(c):
    return "%s %s: %s" % (KINDS[c[0]], c[1], "; ".join("%s %s" % (o, a) for o, a in c[2]))


def req(c):
    return " ".join([c[0]] + [str(x) for x in c[1]] + [str(len(c[2]))] + ["%s %s" % (o, " ".join(map(str, a))) for o, a in c[2]])


def lst(l):
    return [str(len(l))] + [str(x) for x in l]


def h31(it):
    a = 7
    for v in it:
        a = (a * 31 + v) % 65521
    return a


def b(x):
    return "1" if x else "0"


def table(ops):
    r = [{}, {}, {}]
    out = []
    for o, a in ops:
        out.append(o)
        m = r[a[0]]
        ans = []
        if o == "clear":
            m.clear()
        elif o == "insert":
            m[a[1]] = a[2]
        elif o in ("insertWith", "insertWithi"):
            m[a[1]] = m[a[1]] * 3 + a[2] + (a[1] if o[-1] == "i" else 0) if a[1] in m else a[2]
        elif o == "range":
            for i in range(a[3]):
                m[a[1] + i * a[2]] = i
        elif o == "drop":
            for i in range(a[3]):
                m.pop(a[1] + i * a[2], None)
        elif o == "inDomain":
            ans = [b(a[1] in m)]
        elif o in ("lookup", "remove"):
            if a[1] not in m:
                out.append("!NF")
                continue
            ans = [str(m[a[1]])]
            if o == "remove":
                del m[a[1]]
        elif o in ("find", "findAndRemove"):
            ans = ["1", str(m[a[1]])] if a[1] in m else ["0"]
            if o != "find":
                m.pop(a[1], None)
        elif o in ("listItems", "app"):
            ans = lst(sorted(m.values()))
        elif o == "appi":
            ans = lst(sorted(k * 1000 + v for k, v in m.items()))
        elif o == "map":
            r[a[1]] = {k: v * 2 + 1 for k, v in m.items()}
        elif o == "mapi":
            r[a[1]] = {k: v * 2 + k for k, v in m.items()}
        elif o == "fold":
            ans = [str(1 + sum(v * v for v in m.values()))]
        elif o == "foldi":
            ans = [str(1 + sum(v * k for k, v in m.items()))]
        elif o in ("modify", "modifyi"):
            for k in m:
                m[k] = m[k] * 2 + (1 if o == "modify" else k)
        elif o in ("filter", "filteri"):
            for k in list(m):
                if (m[k] + (k if o[-1] == "i" else 0)) % a[1]:
                    del m[k]
        elif o == "copy":
            r[a[1]] = dict(m)
        out += ans + [str(len(x)) for x in r]
    out.append("end")
    for m in r:
        out += [str(len(m)), str(len(m))] + [str(x) for k in sorted(m) for x in (k, m[k])] + [str(len(m))]
    return out


def hash2(ops):
    r = [[], [], []]
    out = []
    ins = lambda m, k, l, v: [t for t in m if t[0] != k and t[1] != l] + [(k, l, v)]
    for o, a in ops:
        out.append(o)
        m = r[a[0]]
        ans = []
        if o == "clear":
            r[a[0]] = []
        elif o == "insert":
            r[a[0]] = ins(m, a[1], a[2], a[3])
        elif o == "range":
            for i in range(a[3]):
                m = ins(m, a[1] + i, a[2] + 3 * i, i)
            r[a[0]] = m
        elif o[-1] in "12":
            hit = [t for t in m if t[int(o[-1]) - 1] == a[1]]
            if o.startswith("inDomain"):
                ans = [b(hit)]
            elif o.startswith("find"):
                ans = ["1", str(hit[0][2])] if hit else ["0"]
            else:
                if not hit:
                    out.append("!NF")
                    continue
                ans = [str(hit[0][2])]
                if o.startswith("remove"):
                    r[a[0]] = [t for t in m if t not in hit]
        elif o in ("listItems", "app"):
            ans = lst(sorted(t[2] for t in m))
        elif o == "appi":
            ans = lst(sorted(t[0] * 7 + t[1] + t[2] for t in m))
        elif o == "map":
            r[a[1]] = [(k, l, v * 2 + 1) for k, l, v in m]
        elif o == "mapi":
            r[a[1]] = [(k, l, v * 2 + k + l) for k, l, v in m]
        elif o == "fold":
            ans = [str(1 + sum(t[2] ** 2 for t in m))]
        elif o == "foldi":
            ans = [str(1 + sum(t[0] * t[1] + t[2] for t in m))]
        elif o == "filter":
            r[a[0]] = [t for t in m if t[2] % a[1] == 0]
        elif o == "filteri":
            r[a[0]] = [t for t in m if sum(t) % a[1] == 0]
        elif o == "copy":
            r[a[1]] = list(m)
        out += ans + [str(len(x)) for x in r]
    out.append("end")
    for m in r:
        out += [str(len(m))] + [str(x) for k, l, v in sorted(m) for x in (k, l * 1000 + v)]
    return out


def hset(ops):
    r = [set(), set(), set()]
    out = []
    for o, a in ops:
        out.append(o)
        m = r[a[0]]
        ans = []
        if o == "mkSingleton":
            r[a[2]] = {a[1]}
        elif o == "mkFromList":
            r[a[-1]] = set(a[2:-1])
        elif o == "copy":
            r[a[1]] = set(m)
        elif o in ("toList", "listItems", "app"):
            ans = lst(sorted(m))
        elif o in ("add", "add'", "addc"):
            m.add(a[1])
        elif o == "addList":
            m |= set(a[2:])
        elif o == "addSet":
            m |= r[a[1]]
        elif o in ("subtract", "subtract'", "subtractc", "without"):
            m.discard(a[1])
        elif o == "subtractList":
            m -= set(a[2:])
        elif o == "subtractSet":
            r[a[0]] -= set(r[a[1]])
        elif o == "delete":
            ans = [b(a[1] in m)]
            m.discard(a[1])
        elif o == "member":
            ans = [b(a[1] in m)]
        elif o == "isEmpty":
            ans = [b(not m)]
        elif o == "isSubset":
            ans = [b(m <= r[a[1]])]
        elif o == "disjoint":
            ans = [b(not m & r[a[1]])]
        elif o == "union":
            r[a[2]] = m | r[a[1]]
        elif o == "intersection":
            r[a[2]] = m & r[a[1]]
        elif o == "difference":
            r[a[2]] = m - r[a[1]]
        elif o == "map":
            r[a[2]] = {k // a[1] for k in m}
        elif o == "mapPartial":
            r[a[2]] = {-k for k in m if k % a[1]}
        elif o == "fold":
            ans = [str(1 + sum(k * k for k in m))]
        elif o == "partition":
            x, y = {k for k in m if k % a[1] == 0}, {k for k in m if k % a[1]}
            r[a[2]] = x
            r[a[3]] = y
        elif o == "filter":
            r[a[0]].intersection_update({k for k in m if k % a[1] == 0})
        elif o == "exists":
            ans = [b(a[1] in m)]
        elif o == "all":
            ans = [b(a[1] not in m)]
        elif o == "find":
            ans = ["1", str(a[1])] if a[1] in m else ["0"]
        # registers may now share a set object only if the library shares it, too: none of the operations does
        out += ans + [str(len(x)) for x in r]
    out.append("end")
    for m in r:
        out += lst(sorted(m))
    return out


class DArr:
    def __init__(self, dflt, vals=()):
        self.d, self.v = dflt, dict(enumerate(vals))

    def get(self, k):
        return self.v.get(k, self.d)


def dyn(ops):
    """tokens, with a function where several answers are right"""
    r = [DArr(i) for i in range(3)]
    out = []
    for o, a in ops:
        out.append(o)
        m = r[a[0]]
        if o == "array":
            if a[1] < 0:
                out += ["!Size", "!Size"]
            else:
                r[a[0]] = DArr(a[2])
        elif o == "subArray":
            if a[2] > a[3] + 1:
                out += ["!Size", "!Size"]
            else:
                r[a[1]] = DArr(m.d, [m.get(k) for k in range(a[2], a[3] + 1)])
        elif o == "fromList":
            r[a[0]] = DArr(a[-1], a[2:-1])
        elif o == "tabulate":
            if a[1] < 0:
                out += ["!Size", "!Size"]
            else:
                r[a[0]] = DArr(a[2], [k * k % 251 for k in range(a[1])])
        elif o == "default":
            out += [str(m.d)] * 2
        elif o == "sub":
            out += ["!Subscript"] * 2 if a[1] < 0 else [str(m.get(a[1]))] * 2
        elif o == "update":
            if a[1] < 0:
                out += ["!Subscript"] * 2
            else:
                m.v[a[1]] = a[2]
        elif o == "truncate":
            m.v = {k: v for k, v in m.v.items() if k < a[1]}
    out.append("end")
    return out, r


def bits(ops):
    r = [[], [], []]
    out = []

    def cut(l, n):
        return (l + [False] * n)[:n]

    class E(Exception):
        pass
    for o, a in ops:
        out.append(o)
        m = r[a[0]]
        ans = []
        try:
            if o == "fromString":
                t = bytes.fromhex(a[1][1:]).decode()
                if all(c in "0123456789abcdefABCDEF" for c in t):
                    r[a[2]] = [bool(int(c, 16) >> i & 1) for c in reversed(t) for i in range(4)]
                else:
                    ans = ["none"]
            elif o == "bits":
                n, l = a[1], a[3:-1]
                if n < 0:
                    raise E("!Size")
                if any(not 0 <= x < n for x in l):
                    raise E("!Subscript")
                r[a[-1]] = [i in l for i in range(n)]
            elif o == "array":
                if a[1] < 0:
                    raise E("!Size")
                r[a[3]] = [bool(a[2])] * a[1]
            elif o == "fromList":
                r[a[-1]] = [bool(x) for x in a[2:-1]]
            elif o == "tabulate":
                if a[1] < 0:
                    raise E("!Size")
                r[a[2]] = [i % 3 == 1 for i in range(a[1])]
            elif o == "toString":
                n = (len(m) + 3) // 4
                v = sum(x << i for i, x in enumerate(m))
                ans = [hexs("%0*x" % (n, v) if n else "")]
            elif o == "isZero":
                ans = [b(not any(m))]
            elif o in ("extend0", "extend1"):
                if a[1] < 0:
                    raise E("!Size")
                r[a[2]] = m + [o == "extend1"] * (a[1] - len(m))
            elif o == "eqBits":
                ans = [b([i for i, x in enumerate(m) if x] == [i for i, x in enumerate(r[a[1]]) if x])]
            elif o == "equal":
                ans = [b(m == r[a[1]])]
            elif o in ("andb", "orb", "xorb"):
                if a[2] < 0:
                    raise E("!Size")
                x, y = cut(m, a[2]), cut(r[a[1]], a[2])
                r[a[3]] = [{"andb": p and q, "orb": p or q, "xorb": p != q}[o] for p, q in zip(x, y)]
            elif o == "notb":
                r[a[1]] = [not x for x in m]
            elif o in ("shl", "lshift"):
                r[a[2]] = [False] * a[1] + m
            elif o in ("shr", "rshift"):
                r[a[2]] = m[a[1]:]
            elif o in ("setBit", "clrBit", "sub", "update"):
                if not 0 <= a[1] < len(m):
                    raise E("!Subscript")
                if o == "sub":
                    ans = [b(m[a[1]])]
                else:
                    m[a[1]] = {"setBit": True, "clrBit": False}.get(o, bool(a[-1]))
            elif o == "union":
                y = cut(r[a[1]], len(m))
                m[:] = [p or q for p, q in zip(m, y)]
            elif o == "intersection":
                y = cut(r[a[1]], len(m))
                m[:] = [p and q for p, q in zip(m, y)]
            elif o == "complement" or o == "modify":
                m[:] = [not x for x in m]
            elif o == "copy":
                d, di = r[a[1]], a[2]
                if di < 0 or di + len(m) > len(d):
                    raise E("!Subscript")
                d[di:di + len(m)] = list(m)
            elif o == "modifyi":
                m[:] = [x != (i % 2 == 0) for i, x in enumerate(m)]
            elif o in ("foldr", "foldli", "foldri"):
                v = 7
                for i, x in (list(enumerate(m)) if o == "foldli" else reversed(list(enumerate(m)))):
                    v = (v * 3 + ((1 if o == "foldr" else i) if x else 2)) % 65521
                ans = [str(v)]
            elif o == "appi":
                ans = [str(i) for i, x in enumerate(m) if x]
            elif o == "findi":
                ans = ["1", str(m.index(True))] if any(m) else ["0"]
            elif o == "exists":
                ans = [b(any(m))]
            elif o == "all":
                ans = [b(all(m))]
            elif o == "collate":
                ans = [str(0 if m < r[a[1]] else 2 if m > r[a[1]] else 1)]
        except E as e:
            out.append(str(e))
            continue
        out += ans + [str(len(x)) for x in r]
        r = [list(x) for x in r]
    out.append("end")
    for m in r:
        out += [".", "b" + "".join("1" if x else "0" for x in m)] + lst([i for i, x in enumerate(m) if x])
    return out


def fifo(ops, fun):
    r = [[], [], []]
    out = []
    for o, a in ops:
        out.append(o)
        m = r[a[0]]
        ans = []
        new = None
        fail = None
        if o in ("empty", "clear"):
            new = []
        elif o == "enqueue":
            new = m + [a[1]]
        elif o in ("dequeue", "head"):
            if not m:
                fail = "!Dequeue"
            else:
                ans = [str(m[0])]
                if o == "dequeue":
                    new = m[1:]
        elif o == "next":
            if fun:
                ans = [str(m[0])] if m else ["none"]
            else:
                ans = ["1", str(m[0])] if m else ["0"]
            new = m[1:] if m else None
        elif o == "delete":
            new = [x for x in m if x % a[1]]
        elif o == "peek":
            ans = ["1", str(m[0])] if m else ["0"]
        elif o == "app":
            ans = [str(x) for x in m]
        elif o == "map":
            ans = [str(x) for x in m]
            new = [x * 2 + 1 for x in m]
        elif o in ("foldl", "foldr"):
            ans = [str(h31(m if o == "foldl" else reversed(m)))]
        elif o == "isEmpty":
            ans = [b(not m)]
        if fail and not fun:
            out.append(fail)
            continue
        if fail:
            ans = [fail]
        if new is not None:
            r[a[-1] if fun or o == "map" else a[0]] = new
        out += ans + [str(len(x)) for x in r]
    out.append("end")
    for m in r:
        out += lst(m)
    return out


def prio(ops):
    r = [[], [], []]       # priorities, highest first
    out = []
    for o, a in ops:
        out.append(o)
        m = r[a[0]]
        ans, new = [], None
        if o == "empty":
            new = []
        elif o == "singleton":
            new = [a[1]]
        elif o == "fromList":
            new = a[2:-1]
        elif o == "insert":
            new = m + [a[1]]
        elif o == "remove":
            if not m:
                out.append("!Empty")
                continue
            ans, new = [str(m[0])], m[1:]
        elif o == "next":
            ans, new = ([str(m[0])], m[1:]) if m else (["none"], None)
        elif o == "findAndRemove":
            i = next((i for i, x in enumerate(m) if x % a[1] == 0), None)
            ans, new = (["none"], None) if i is None else ([str(m[i])], m[:i] + m[i + 1:])
        elif o == "delete":
            new = [x for x in m if x % a[1]]
        elif o == "merge":
            new = m + r[a[1]]
        elif o == "isEmpty":
            ans = [b(not m)]
        if new is not None:
            r[a[-1]] = sorted(new, reverse=True)
        out += ans + [str(len(x)) for x in r]
    out.append("end")
    for m in r:
        out += lst(m)
    return out


def uref(ops):
    cls = list(range(12))
    val = {i: i for i in range(12)}
    nxt = 12
    out = []
    for o, a in ops:
        out.append(o)
        if o == "new":
            cls[a[0]] = nxt
            val[nxt] = a[1]
            nxt += 1
            continue
        x = cls[a[0]]
        if o == "get":
            out.append(str(val[x]))
        elif o == "update":
            val[x] = a[1]
        else:
            y = cls[a[1]]
            if o == "equal":
                out.append(b(x == y))
            else:
                out.append(b(x != y))
                v = (val[x] * 3 + val[y]) % 1009 if o == "unify" else val[y]
                cls = [y if c == x else c for c in cls]
                val[y] = v
    out.append("end")
    for i in range(12):
        out += [str(val[cls[i]])] + [b(cls[i] == c) for c in cls]
    return out


def judge_dyn(c, got):
    exp, r = dyn(c[2])
    n = len(exp)
    if got[:n] != exp:
        return diff(c, got, exp)
    t = got[n:]
    for rep in range(2):
        for i, m in enumerate(r):
            e = [str(m.d), "90"] + [str(m.get(k)) for k in range(90)]
            nm = "%s no. %d at the end" % (["DynamicArray", "DynamicArrayFn"][rep], i)
            if t[:92] != e:
                return "%s is %s; expected %s" % (nm, " ".join(t[:92]), " ".join(e))
            bound = int(t[92])
            top = max([k for k, v in m.v.items() if v != m.d], default=-1)
            k = int(t[93])
            l = t[94:94 + k]
            t = t[94 + k:]
            if bound < top:
                return "%s: bound %d, but index %d was changed" % (nm, bound, top)
            if k != bound + 1 or l != [str(m.get(j)) for j in range(k)]:
                return "%s: toList gives %s with bound %d; expected the elements %s" % (nm, l, bound, [m.get(j) for j in range(bound + 1)])
    return None if not t else "too long an answer"


def diff(c, got, exp):
    if got == exp:
        return None
    i = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
    j = max([k for k in range(min(i + 1, len(exp))) if exp[k][0].isalpha()], default=0)
    return "%s, %s: ...%s; expected %s" % (KINDS[c[0]], exp[j], " ".join(got[j:i + 6])[:300], " ".join(exp[j:i + 6])[:300])


def judge(c, ans):
    got = ans.split(" ")
    k = c[0]
    if k == "da":
        try:
            return judge_dyn(c, got)
        except (IndexError, ValueError):
            return "DynamicArray: " + ans[:300]
    exp = {"h2": hash2, "hs": hset, "ba": bits, "pq": prio, "ur": uref, "ff": lambda o: fifo(o, True), "qu": lambda o: fifo(o, False)}.get(k, table)(c[2])
    return diff(c, got, exp)


def parts():
    img = pbt.build_driver("containers", [("codec.sml", codec_text()), ("containers.sml", open(os.path.join(vbuild.VERIF, "sml", "containers.sml")).read())], ["$/basis.cm", "$/smlnj-lib.cm"])
    return [pbt.Part("histories", gen, req, judge, n=(60000, 2000000), driver=lambda: pbt.Driver(img, timeout=20), batch=200, rule="at least five operations", nontrivial=lambda c: len(c[2]) > 4,
                     classify=lambda c: [KINDS[c[0]]], show=show)]


if __name__ == "__main__":
    pbt.main("C18", "a case is a history of operations on three instances of one container; it counts when it has at least five operations", parts, [])
