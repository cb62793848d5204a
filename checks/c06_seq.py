"""C06: arrays, vectors and their slices, monomorphic and polymorphic, against Python lists; lists and pair lists by table."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, vbuild

IMG = None
NONE = -1000000
KINDS = ["int", "char", "word8", "real", "box", "rpoly"]


class X(Exception):
    pass


def lst(l):
    return ",".join(str(x) if x >= 0 else "~%d" % -x for x in l)


class Model:
    def __init__(self):
        self.a = [[], [], [], []]
        self.v = [[], [], [], []]

    def span(self, l, i, n):
        if n == NONE:
            if i < 0 or i > len(l):
                raise X("Subscript")
            return i, len(l) - i
        if i < 0 or n < 0 or i + n > len(l):
            raise X("Subscript")
        return i, n

    def run(self, op):
        k, p = op[0], op[1:]
        A, V = self.a, self.v

        def size(n):
            if n < 0 or n > 10 ** 9:
                raise X("Size")

        def idx(l, i):
            if i < 0 or i >= len(l):
                raise X("Subscript")
            return i

        def hi(l, o=0):
            f1 = f2 = f3 = f4 = 1
            for i, x in enumerate(l):
                f1 = (f1 * 31 + x) % 65521
                f3 = (f3 * 31 + x + 7 * i) % 65521
            for i in range(len(l) - 1, -1, -1):
                f2 = (f2 * 31 + l[i]) % 65521
                f4 = (f4 * 31 + l[i] + 7 * i) % 65521
            return lst([f1, f2, f3, f4])

        def coll(x, y):
            x, y = [i % 16 for i in x], [i % 16 for i in y]
            return "L" if x < y else "G" if x > y else "E"

        def find(l, a, b):
            r = [x for x in l if x % a < b]
            return (str(r[0]) if r else "N") + str(int(bool(r))) + str(int(len(r) == len(l)))

        def findi(l, a, b):
            for i, x in enumerate(l):
                if (x + i) % a < b:
                    return "%d:%d" % (i, x)
            return "N"

        def copy(src, d, di):
            if di < 0 or di + len(src) > len(d):
                raise X("Subscript")
            d[di:di + len(src)] = list(src)
            return ""
        appi = lambda l: lst([i * 1000 + x for i, x in enumerate(l)])
        if k in ("arr", "atab", "vtab"):
            size(p[1])
            if k == "arr":
                A[p[0]] = [p[2]] * p[1]
            else:
                (A if k == "atab" else V)[p[0]] = [(p[2] + p[3] * i) % 256 for i in range(p[1])]
            return ""
        if k == "alist":
            A[p[0]] = list(p[1])
            return ""
        if k == "vlist":
            V[p[0]] = list(p[1])
            return ""
        if k == "alias":
            A[p[1]] = A[p[0]]
            return ""
        if k == "asub":
            return str(A[p[0]][idx(A[p[0]], p[1])])
        if k == "vsub":
            return str(V[p[0]][idx(V[p[0]], p[1])])
        if k == "aupd":
            A[p[0]][idx(A[p[0]], p[1])] = p[2]
            return ""
        if k == "vupd":
            idx(V[p[0]], p[1])
            V[p[0]] = V[p[0]][:p[1]] + [p[2]] + V[p[0]][p[1] + 1:]
            return ""
        if k == "avec":
            V[p[1]] = list(A[p[0]])
            return ""
        if k == "acopy":
            return copy(A[p[0]], A[p[1]], p[2])
        if k == "acopyv":
            return copy(V[p[0]], A[p[1]], p[2])
        if k == "alen":
            return lst([len(A[p[0]]), len(V[p[1]])])
        if k == "vcat":
            V[p[0]] = sum((V[i] for i in p[1]), [])
            return ""
        if k == "dump":
            return lst(A[p[0]]) + ";" + lst(V[p[1]])
        if k == "gc":
            return ""
        if k == "tcat":
            r = []
            for r3 in p[1]:
                i, n = self.span(V[r3[0]], r3[1], r3[2])
                r += V[r3[0]][i:i + n]
            V[p[0]] = r
            return ""
        # a whole sequence, or a slice of one
        def seq():
            nonlocal p
            if k[0] in "av":
                l = (A if k[0] == "a" else V)[p[0]]
                p = p[1:]
                return l, 0, len(l)
            l = (A if k[0] == "s" else V)[p[0]]
            i, n = self.span(l, p[1], p[2])
            p = p[3:]
            return l, i, n
        if k == "scopy":
            l, i, n = seq()
            return copy(l[i:i + n], A[p[0]], p[1])
        if k == "scopyv":
            i, n = self.span(V[p[0]], p[1], p[2])
            return copy(V[p[0]][i:i + n], A[p[3]], p[4])
        l, i, n = seq()
        w = l[i:i + n]
        o = k[1:]
        if o == "app":
            return lst(w)
        if o == "appi":
            return appi(w)
        if o == "mod":
            l[i:i + n] = [(p[0] * x + p[1]) % 256 for x in w]
            return ""
        if o == "modi":
            l[i:i + n] = [(p[0] * x + p[1] * j) % 256 for j, x in enumerate(w)]
            return ""
        if o == "map":
            if k[0] == "v":
                V[op[1]] = [(p[0] * x + p[1]) % 256 for x in w]
            else:
                V[p[0]] = [(p[1] * x + p[2]) % 256 for x in w]
            return ""
        if o == "mapi":
            if k[0] == "v":
                V[op[1]] = [(p[0] * x + p[1] * j) % 256 for j, x in enumerate(w)]
            else:
                V[p[0]] = [(p[1] * x + p[2] * j) % 256 for j, x in enumerate(w)]
            return ""
        if o == "fold":
            return hi(w)
        if o == "find":
            return find(w, *p)
        if o == "findi":
            return findi(w, *p)
        if o == "coll":
            l2, i2, n2 = seq()
            return coll(w, l2[i2:i2 + n2])
        if o == "len":
            return "%d%d" % (n, n == 0)
        if o == "base":
            return lst(l) + ";" + lst([i, n])
        if o == "sub":
            return str(w[idx(w, p[0])])
        if o == "upd":
            idx(w, p[0])
            l[i + p[0]] = p[1]
            return ""
        if o == "subsl":
            i2, n2 = self.span(w, p[0], p[1])
            return lst([i + i2, n2]) + ";" + lst(w[i2:i2 + n2])
        if o == "vec":
            V[p[0]] = w
            return ""
        if o == "get":
            return "%d;%s" % (w[0], lst(w[1:])) if w else "N"
        raise Exception(k)


OPS = {  # argument kinds: a array, v vector, i index, x element, A/V slice, f function, p predicate, n length, L list, r target
    "arr": "rnx", "alist": "rL", "atab": "rnxx", "vlist": "rL", "vtab": "rnxx", "alias": "ar", "asub": "ai", "aupd": "aix", "vsub": "vi", "vupd": "vix", "avec": "ar", "acopy": "aai", "acopyv": "vai",
    "aapp": "a", "aappi": "a", "amod": "af", "amodi": "af", "afold": "a", "afind": "ap", "afindi": "ap", "acoll": "aa", "alen": "av", "vapp": "v", "vappi": "v", "vmap": "vf", "vmapi": "vf", "vfold": "v", "vfind": "vp",
    "vfindi": "vp", "vcoll": "vv", "vcat": "rR", "slen": "A", "sbase": "A", "ssub": "Ai", "supd": "Aix", "ssubsl": "Aij", "svec": "Ar", "scopy": "Aai", "scopyv": "Vai", "sget": "A", "sapp": "A", "sappi": "A", "smod": "Af", "smodi": "Af",
    "sfold": "A", "sfind": "Ap", "sfindi": "Ap", "scoll": "AA", "tlen": "V", "tbase": "V", "tsub": "Vi", "tsubsl": "Vij", "tvec": "Vr", "tcat": "rS", "tget": "V", "tapp": "V", "tappi": "V", "tmap": "Vrf", "tmapi": "Vrf", "tfold": "V",
    "tfind": "Vp", "tfindi": "Vp", "tcoll": "VV", "dump": "av", "gc": "g"}
NAMES = sorted(OPS)


def ix(s, n):
    return s.choice([0, 1, n - 1, n, n + 1, -1, s.int(0, max(0, n - 1)), s.int(0, max(0, n - 1)), s.int(0, max(0, n)), s.int(0, max(0, n)), 2 ** 61, -2 ** 62, 2 ** 62 - 1] if s.draw(6) == 0 else [s.int(0, max(0, n - 1)), s.int(0, n)])


def gen(s):
    kind = s.choice(KINDS)
    m = Model()
    ops = []

    def sl(regs):
        r = s.int(0, 3)
        n = len(regs[r])
        i = ix(s, n)
        c = s.draw(4)
        k = NONE if c == 0 else ix(s, n - i if 0 <= i <= n else n)
        return [r, i, k], (max(0, (n - i if k == NONE else k)) if 0 <= i <= n else 0)
    for r in range(2):
        ops.append(["alist", r, [s.int(0, 255) for _ in range(s.size(0, 20))]])
        ops.append(["vlist", r, [s.int(0, 255) for _ in range(s.size(0, 20))]])
    for o in ops:
        m.run(o)
    for _ in range(s.int(1, 25)):
        k = s.choice(NAMES)
        op = [k]
        ref = 0
        for c in OPS[k]:
            if c in "av":
                r = s.int(0, 3)
                op.append(r)
                ref = len((m.a if c == "a" else m.v)[r])
                if k in ("acopy", "acopyv", "scopy", "scopyv") and len(op) > 2:
                    pass
            elif c == "r":
                op.append(s.int(0, 3))
            elif c == "i":
                op.append(ix(s, ref) if "copy" not in k else s.choice([0, 0, ix(s, ref), s.int(0, 6)]))
            elif c == "j":
                i = ix(s, ref)
                op.append(s.choice([NONE, ix(s, max(0, ref - i) if abs(i) < 10 ** 6 else ref)]))
                continue
            elif c == "x":
                op.append(s.int(0, 255))
            elif c == "n":
                op.append(s.choice([s.int(0, 30), s.int(0, 30), s.int(0, 30), s.int(0, 700), 0, -1] + ([2 ** 61, -2 ** 62] if s.draw(3) == 0 else [1])))
            elif c == "L":
                op.append([s.int(0, 255) for _ in range(s.size(0, 30))])
            elif c == "R":
                op.append([s.int(0, 3) for _ in range(s.size(0, 5))])
            elif c == "f":
                op += [s.int(0, 255), s.int(0, 255)]
            elif c == "p":
                op += [s.int(1, 9), s.int(0, 9)]
            elif c == "g":
                op.append(s.int(0, 3))
            elif c in "AV":
                l, ref = sl(m.a if c == "A" else m.v)
                op += l
            elif c == "S":
                op.append([sl(m.v)[0] for _ in range(s.size(0, 5))])
        try:
            m.run(op)
        except X:
            pass
        if any(len(l) > 3000 for l in m.a + m.v):
            break
        ops.append(op)
    return (kind, ops)


def flat(op):
    out = []
    for x in op:
        if isinstance(x, list):
            out.append(str(len(x)))
            for y in x:
                out += [str(z) for z in y] if isinstance(y, list) else [str(y)]
        else:
            out.append(str(x))
    return " ".join(out)


def req(c):
    return c[0] + " " + " ".join(flat(o) + " /" for o in c[1]) + " ."


def judge(c, a):
    m = Model()
    got = a.split("|")
    exp = []
    for o in c[1]:
        try:
            exp.append(m.run(o))
        except X as e:
            exp.append("!" + e.args[0])
    exp += [lst(l) for l in m.a + m.v]
    if got == exp:
        return None
    for k, (g, e) in enumerate(zip(got, exp)):
        if g != e:
            what = flat(c[1][k]) if k < len(c[1]) else "final contents"
            return "step %d (%s): %s; expected %s" % (k, what, g[:200], e[:200])
    return "answered %s" % a[:300]


def parts():
    global IMG
    IMG = pbt.build_driver("seq", [("seq.sml", open(os.path.join(vbuild.VERIF, "sml", "seq.sml")).read())], ["$/basis.cm"])
    import c06_lists
    return [pbt.Part("arrays, vectors, slices", gen, req, judge, n=(60000, 2000000), driver=lambda: pbt.Driver(IMG), rule="at least six operations, at least one on a slice",
                     nontrivial=lambda c: len(c[1]) > 9 and any(o[0][0] in "st" for o in c[1]), classify=lambda c: [c[0]] + sorted(set(o[0] for o in c[1])),
                     show=lambda c: c[0] + ": " + "; ".join(flat(o) for o in c[1]), key=req)] + c06_lists.parts()


if __name__ == "__main__":
    pbt.main("C06", "a case is a history of array, vector and slice operations over one element type, or one call of a list function; the model is Python lists", parts, [])
