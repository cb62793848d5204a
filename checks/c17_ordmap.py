"""C17: ordered maps and sets against mathematical maps and sets, all implementations."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, vbuild
from table import codec_text

MAPS = ["IntBinaryMap", "IntListMap", "IntRedBlackMap", "WordRedBlackMap", "BinaryMapFn(string)", "ListMapFn(reversed)", "RedBlackMapFn(string)", "SplayMapFn(reversed)"]
SETS = [m.replace("Map", "Set") for m in MAPS[:4]] + ["BinarySetFn(string)", "ListSetFn(reversed)", "RedBlackSetFn(reversed)", "SplaySetFn(string)"]
# the order of keys is that of the integers they stand for: reversed instances map n to ~n under the reversed order

M2 = ["unionWith", "unionWithi", "intersectWith", "intersectWithi"]
MOPS = [(1, "empty"), (1, "singleton"), (6, "insert"), (2, "insert'"), (2, "insertWith"), (2, "insertWithi"), (5, "range"), (5, "drop"), (2, "find"), (2, "lookup"), (1, "inDomain"),
        (3, "findAndRemove"), (4, "remove"), (1, "first"), (1, "firsti"), (1, "isEmpty"), (1, "listItems"), (1, "listItemsi"), (1, "listKeys")] + \
       [(2, x) for x in M2] + [(2, "mergeWith"), (2, "mergeWithi"), (2, "equiv"), (2, "collate"), (2, "extends"), (1, "app"), (1, "appi"), (1, "map"), (1, "mapi"), (1, "foldl"),
                               (1, "foldli"), (1, "foldr"), (1, "foldri"), (1, "filter"), (1, "filteri"), (1, "mapPartial"), (1, "mapPartiali"), (1, "exists"), (1, "existsi"), (1, "all"), (1, "alli")]
SOPS = [(1, "empty"), (1, "singleton"), (2, "fromList"), (1, "toList"), (1, "listItems"), (5, "add"), (2, "add'"), (2, "addList"), (3, "subtract"), (2, "subtract'"), (2, "subtractList"),
        (4, "delete"), (5, "range"), (5, "drop"), (1, "member"), (1, "isEmpty"), (1, "minItem"), (1, "maxItem"), (2, "equal"), (2, "compare"), (2, "isSubset"), (2, "disjoint"), (3, "union"),
        (3, "intersection"), (3, "difference"), (2, "combineWith"), (1, "map"), (1, "mapPartial"), (1, "app"), (1, "foldl"), (1, "foldr"), (1, "partition"), (1, "filter"), (1, "exists"), (1, "all"), (1, "find")]
IOPS = [(1, "empty"), (1, "universe"), (2, "singleton"), (2, "fromList"), (4, "interval"), (1, "isEmpty"), (1, "isUniverse"), (2, "member"), (1, "toList"), (5, "add"), (2, "add'"), (5, "addInt"),
        (2, "addInt'"), (3, "complement"), (4, "union"), (4, "intersect"), (4, "difference"), (1, "app"), (1, "foldl"), (1, "foldr"), (2, "filter"), (2, "filter3"), (1, "exists"), (1, "all"), (1, "appInt"),
        (1, "foldlInt"), (1, "foldrInt"), (2, "filterInt"), (1, "existsInt"), (1, "allInt"), (2, "compare"), (2, "isSubset")]


def gen(s):
    kind = s.choice("mmssi")
    which = s.draw(8) if kind != "i" else 0
    span = s.choice([4, 12, 40, 200])
    key = lambda: s.int(-span, span) if kind != "i" else s.int(-20, 40)
    reg = lambda: s.draw(5) if s.draw(3) == 0 else s.draw(2)
    ops = []
    for _ in range(1 + s.size(0, 40)):
        o = s.weighted({"m": MOPS, "s": SOPS, "i": IOPS}[kind])
        a = [reg()]
        if o in ("empty", "universe"):
            pass
        elif o == "singleton":
            a += [key()] + ([s.draw(50)] if kind == "m" else [])
        elif o == "interval":
            a += sorted([key(), key()])
        elif o in ("addInt", "addInt'"):
            a += [reg()] + sorted([key(), key()])
        elif o == "fromList":
            l = [key() for _ in range(s.size(0, 20))]
            a += [len(l)] + l
        elif o in ("addList", "subtractList"):
            l = [key() for _ in range(s.size(0, 20))]
            a += [reg(), len(l)] + l
        elif o in ("insert", "insert'", "insertWith", "insertWithi"):
            a += [reg(), key(), s.draw(50)]
        elif o in ("range", "drop"):
            a += [reg(), key(), s.choice([1, -1, 2, -2, 3, 7, -5, 13]), s.size(1, 60)]
        elif o in ("find", "lookup", "inDomain", "findAndRemove", "remove", "add", "add'", "subtract", "subtract'", "delete", "member") and not (kind == "s" and o == "find"):
            a += [reg(), key()]
        elif o in ("mergeWith", "mergeWithi", "combineWith"):
            a += [s.choice([1, 2, 3, 5, 1000]) if kind == "m" else s.draw(4), reg(), reg()]
        elif o in M2 + ["equiv", "collate", "extends", "equal", "compare", "isSubset", "disjoint", "union", "intersection", "intersect", "difference"]:
            a += [reg(), reg()]
        elif o in ("filter", "filteri", "filter3", "mapPartial", "mapPartiali", "partition", "filterInt") or kind == "s" and o == "map":
            a += [s.choice([1, 2, 3, 5, 1000]), reg()]
        elif o in ("exists", "existsi", "all", "alli", "existsInt", "allInt") or kind == "s" and o == "find":
            a += [key() if kind != "m" or o[-1] == "i" else s.draw(50), reg()]
        else:
            a += [reg()]
        ops.append((o, a))
    return kind, which, ops


def req(c):
    kind, which, ops = c
    return "%s %d %s" % (kind + (str(which) if kind != "i" else ""), len(ops), " ".join("%s %s" % (o, " ".join(map(str, a))) for o, a in ops))


def h31(it):
    a = 7
    for v in it:
        a = (a * 31 + v) % 65521
    return a


def cmp(x, y):
    return 0 if x < y else 2 if x > y else 1


def prefix(l, f):
    """the elements looked at until one satisfies f, and whether one did"""
    out = []
    for x in l:
        out.append(x)
        if f(x):
            return out, True
    return out, False


def ints(l):
    return [str(x) for x in l]


def run_map(ops):
    r = [{} for _ in range(5)]
    out = []

    def dump(m):
        t = [len(m)]
        for k in sorted(m):
            t += [k, m[k]]
        return ints(t)
    for o, a in ops:
        out.append(o)
        d = a[0]
        new, ans, tail = None, [], []
        R = [r[x] if 0 <= x < 5 else None for x in a]
        if o == "empty":
            new = {}
        elif o == "singleton":
            new = {a[1]: a[2]}
        elif o in ("insert", "insert'", "insertWith", "insertWithi"):
            new = dict(R[1])
            v = a[3]
            hit = a[2] in new
            if hit and o.startswith("insertWith"):
                v = new[a[2]] * 3 + v + (7 * a[2] if o[-1] == "i" else 0)
            new[a[2]] = v
            if o.startswith("insertWith"):
                tail = ["1" if hit else "0"]
        elif o in ("range", "drop"):
            new = dict(R[1])
            for i in range(a[4]):
                if o == "range":
                    new[a[2] + i * a[3]] = i
                else:
                    new.pop(a[2] + i * a[3], None)
        elif o == "find":
            ans = ["1", str(R[1][a[2]])] if a[2] in R[1] else ["0"]
        elif o == "lookup":
            ans = [str(R[1][a[2]])] if a[2] in R[1] else ["!NotFound"]
        elif o == "inDomain":
            ans = ["1" if a[2] in R[1] else "0"]
        elif o in ("findAndRemove", "remove"):
            if a[2] in R[1]:
                ans = [str(R[1][a[2]])]
                new = dict(R[1])
                del new[a[2]]
            else:
                ans = ["0" if o == "findAndRemove" else "!NotFound"]
        elif o in ("first", "firsti"):
            m = R[1]
            ans = ["0"] if not m else ["1"] + ([str(min(m))] if o[-1] == "i" else []) + [str(m[min(m)])]
        elif o == "isEmpty":
            ans = ["0" if R[1] else "1"]
        elif o in ("listItems", "listItemsi", "listKeys"):
            m = R[1]
            ans = [str(len(m))]
            for k in sorted(m):
                ans += ([str(k)] if o != "listItems" else []) + ([str(m[k])] if o != "listKeys" else [])
        elif o in M2:
            m, n = R[1], R[2]
            f = (lambda k: m[k] * 3 + n[k] + 7 * k) if o[-1] == "i" else (lambda k: m[k] * 3 + n[k])
            both = set(m) & set(n)
            new = {k: f(k) for k in both}
            if o[0] == "u":
                new = dict(m, **{}) if False else {**m, **n, **new}
            tail = [str(len(both))]
        elif o in ("mergeWith", "mergeWithi"):
            m, n = R[2], R[3]
            new = {}
            for k in set(m) | set(n):
                v = m.get(k, 1000) * 3 + n.get(k, 1000) + (k if o[-1] == "i" else 0)
                if v % a[1]:
                    new[k] = v
            tail = [str(len(set(m) | set(n)))]
        elif o == "equiv":
            m, n = R[1], R[2]
            ans = ["1" if set(m) == set(n) and all(m[k] % 3 == n[k] % 3 for k in m) else "0"]
        elif o == "collate":
            m, n = R[1], R[2]
            ans = [str(cmp([(k, m[k] % 3) for k in sorted(m)], [(k, n[k] % 3) for k in sorted(n)]))]
        elif o == "extends":
            m, n = R[1], R[2]     # the domain of the second is a subset of the first's; rngEx (f x, g x)
            ans = ["1" if set(n) <= set(m) and all(m[k] % 3 <= n[k] % 3 for k in n) else "0"]
        elif o in ("app", "appi"):
            for k in sorted(R[1]):
                ans += ([str(k)] if o == "appi" else []) + [str(R[1][k])]
        elif o in ("map", "mapi"):
            new = {k: v * 2 + (1 if o == "map" else k) for k, v in R[1].items()}
        elif o in ("foldl", "foldr", "foldli", "foldri"):
            ks = sorted(R[1], reverse=o[4] == "r")
            ans = ints(ks if o[-1] == "i" else [R[1][k] for k in ks]) + [str(h31(R[1][k] for k in ks))]
        elif o in ("filter", "filteri", "mapPartial", "mapPartiali"):
            m = R[2]
            i = o[-1] == "i"
            ks = sorted(m)
            ans = ints(ks if i else [m[k] for k in ks])
            t = lambda k: (m[k] + (k if i else 0)) % a[1] == 0
            new = {k: m[k] for k in ks if t(k)} if o[0] == "f" else {k: m[k] + 1 for k in ks if not t(k)}
        elif o in ("exists", "existsi", "all", "alli"):
            m = R[2]
            i = o[-1] == "i"
            l, b = prefix([k if i else m[k] for k in sorted(m)], lambda x: x == a[1])
            ans = ints(l) + ["1" if b == (o[0] == "e") else "0"]
        else:
            raise AssertionError(o)
        out += ans
        if new is not None:
            r[d] = new
            out += dump(new)
        out += tail
    out.append("end")
    for m in r:
        out += dump(m)
    return out


def run_set(ops):
    r = [frozenset() for _ in range(5)]
    out = []

    def dump(m):
        return [str(len(m))] + ints(sorted(m))
    for o, a in ops:
        out.append(o)
        d = a[0]
        new, ans = None, []
        R = [r[x] if 0 <= x < 5 else None for x in a] + [None] * 3
        X, Y = R[1], R[2]
        if o == "empty":
            new = set()
        elif o == "singleton":
            new = {a[1]}
        elif o == "fromList":
            new = set(a[2:])
        elif o in ("toList", "listItems"):
            ans = dump(X)
        elif o in ("add", "add'"):
            new = X | {a[2]}
        elif o == "addList":
            new = X | set(a[3:])
        elif o in ("subtract", "subtract'"):
            new = X - {a[2]}
        elif o == "subtractList":
            new = X - set(a[3:])
        elif o == "delete":
            if a[2] in X:
                new = X - {a[2]}
            else:
                ans = ["!NotFound"]
        elif o in ("range", "drop"):
            z = {a[2] + i * a[3] for i in range(a[4])}
            new = X | z if o == "range" else X - z
        elif o == "member":
            ans = ["1" if a[2] in X else "0"]
        elif o == "isEmpty":
            ans = ["0" if X else "1"]
        elif o in ("minItem", "maxItem"):
            ans = [str((min if o == "minItem" else max)(X))] if X else ["!Empty"]
        elif o == "equal":
            ans = ["1" if X == Y else "0"]
        elif o == "compare":
            ans = [str(cmp(sorted(X), sorted(Y)))]
        elif o == "isSubset":
            ans = ["1" if X <= Y else "0"]
        elif o == "disjoint":
            ans = ["0" if X & Y else "1"]
        elif o == "union":
            new = X | Y
        elif o == "intersection":
            new = X & Y
        elif o == "difference":
            new = X - Y
        elif o == "combineWith":
            P, Q = R[2], R[3]
            new = {k for k in P | Q if (k + (k in P) + 2 * (k in Q)) % 3 != a[1]}
        elif o == "map":
            new = {k // a[1] for k in Y}
        elif o == "mapPartial":
            new = {-k for k in Y if k % a[1]}
        elif o == "app":
            ans = ints(sorted(X))
        elif o in ("foldl", "foldr"):
            l = sorted(X, reverse=o == "foldr")
            ans = ints(l) + [str(h31(l))]
        elif o == "partition":
            ans = dump({k for k in Y if k % a[1] == 0})
            new = {k for k in Y if k % a[1]}
        elif o == "filter":
            new = {k for k in Y if k % a[1] == 0}
        elif o in ("exists", "all"):
            l, b = prefix(sorted(Y), lambda x: x == a[1])
            ans = ints(l) + ["1" if b == (o[0] == "e") else "0"]
        elif o == "find":
            ans = ["1", str(a[1])] if a[1] in Y else ["0"]
        else:
            raise AssertionError(o)
        out += ans
        if new is not None:
            r[d] = frozenset(new)
            out += dump(new)
    out.append("end")
    for m in r:
        out += dump(m)
    return out


U = frozenset(range(-20, 41))


def runs(x):
    l = []
    for k in sorted(x):
        if l and l[-1][1] == k - 1:
            l[-1][1] = k
        else:
            l.append([k, k])
    return [tuple(p) for p in l]


def run_int(ops):
    r = [frozenset() for _ in range(5)]
    out = []

    def dump(m):
        t = runs(m)
        return [str(len(t))] + ints(x for p in t for x in p)
    for o, a in ops:
        out.append(o)
        d = a[0]
        new, ans = None, []
        R = [r[x] if 0 <= x < 5 else None for x in a] + [None] * 3
        X, Y = R[1], R[2]
        if o == "empty":
            new = set()
        elif o == "universe":
            new = U
        elif o == "singleton":
            new = {a[1]}
        elif o == "fromList":
            new = set(a[2:])
        elif o == "interval":
            new = set(range(a[1], a[2] + 1))
        elif o == "isEmpty":
            ans = ["0" if X else "1"]
        elif o == "isUniverse":
            ans = ["1" if X == U else "0"]
        elif o == "member":
            ans = ["1" if a[2] in X else "0"]
        elif o == "toList":
            ans = [str(len(X))] + ints(sorted(X))
        elif o in ("add", "add'"):
            new = X | {a[2]}
        elif o in ("addInt", "addInt'"):
            new = X | set(range(a[2], a[3] + 1))
        elif o == "complement":
            new = U - X
        elif o == "union":
            new = X | Y
        elif o == "intersect":
            new = X & Y
        elif o == "difference":
            new = X - Y
        elif o == "app":
            ans = ints(sorted(X))
        elif o in ("foldl", "foldr"):
            l = sorted(X, reverse=o == "foldr")
            ans = ints(l) + [str(h31(l))]
        elif o in ("filter", "filter3"):
            new = {k for k in Y if (k % a[1] == 0) == (o == "filter")}
        elif o == "exists":
            ans = ["1" if a[1] in Y else "0"]
        elif o == "all":
            ans = ["0" if a[1] in Y else "1"]
        elif o == "appInt":
            ans = ints(x for p in runs(X) for x in p)
        elif o in ("foldlInt", "foldrInt"):
            t = runs(X)
            if o == "foldrInt":
                t.reverse()
            ans = ints(p[0] for p in t)
            v = 7
            for k, l in t:
                v = (v * 31 + k - l) % 65521
            ans.append(str(v))
        elif o == "filterInt":
            new = set().union(*[set(range(k, l + 1)) for k, l in runs(Y) if (k + l) % a[1] == 0])
        elif o == "existsInt":
            ans = ["1" if any(l == a[1] for _, l in runs(Y)) else "0"]
        elif o == "allInt":
            ans = ["0" if any(l == a[1] for _, l in runs(Y)) else "1"]
        elif o == "compare":
            ans = [str(cmp(runs(X), runs(Y)))]
        elif o == "isSubset":
            ans = ["1" if X <= Y else "0"]
        out += ans
        if new is not None:
            r[d] = frozenset(new)
            out += dump(new)
    out.append("end")
    for m in r:
        out += dump(m)
    return out


def name(c):
    return {"m": MAPS, "s": SETS, "i": ["IntervalSetFn"]}[c[0]][c[1]]


def judge(c, ans):
    exp = {"m": run_map, "s": run_set, "i": run_int}[c[0]](c[2])
    got = ans.split(" ")
    if got == exp:
        return None
    i = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
    j = max([k for k in range(min(i + 1, len(exp))) if exp[k][0].isalpha()], default=0)
    return "%s, operation %s (no. %d): ...%s; expected %s" % (name(c), exp[j], sum(t[0].isalpha() for t in exp[:j + 1]), " ".join(got[j:i + 6])[:300], " ".join(exp[j:i + 6])[:300])


def parts():
    img = pbt.build_driver("ordmap", [("codec.sml", codec_text()), ("ordmap.sml", open(os.path.join(vbuild.VERIF, "sml", "ordmap.sml")).read())], ["$/basis.cm", "$/smlnj-lib.cm"])
    return [pbt.Part("histories", gen, req, judge, n=(60000, 2000000), driver=lambda: pbt.Driver(img, timeout=20), batch=200, rule="at least five operations", nontrivial=lambda c: len(c[2]) > 4,
                     classify=lambda c: [name(c)], show=lambda c: "%s: %s" % (name(c), "; ".join("%s %s" % (o, a) for o, a in c[2])))]


if __name__ == "__main__":
    pbt.main("C17", "a case is a history of operations on five versions of one container implementation; it counts when it has at least five operations", parts, [])
