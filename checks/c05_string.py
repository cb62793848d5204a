"""C05: Char, String, Substring, StringCvt, Bool text, Byte agree with the Basis."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from table import *
from c02_fixed import PRELUDE

PRE = PRELUDE + r"""
fun has set c = let fun lp i = i < String.size set andalso (String.sub (set, i) = c orelse lp (i+1)) in lp 0 end
(* keep the tuple syntax of substrings short *)
fun SS (s, i, n) = Substring.substring (s, i, n)
fun B ss = let val (s, i, n) = Substring.base ss in (s, (i, n)) end
fun ord' (a, b) = if Char.ord a mod 32 < Char.ord b mod 32 then LESS else if Char.ord a mod 32 > Char.ord b mod 32 then GREATER else EQUAL
fun ulist f = let val l = ref [] in f (fn c => l := c :: !l); List.rev (!l) end
fun w8v s = Word8Vector.tabulate (String.size s, fn i => Word8.fromInt (Char.ord (String.sub (s, i))))
fun v8s v = String.implode (List.tabulate (Word8Vector.length v, fn i => Char.chr (Word8.toInt (Word8Vector.sub (v, i)))))
"""

SUBSCRIPT = Exn("Subscript")
UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOW = UP.lower()
DIG = "0123456789"
HEXD = DIG + "abcdefABCDEF"
SPACE = " \t\r\n\v\f"
PRINT = [chr(i) for i in range(32, 127)]


def isprint(c):
    return " " <= c <= "~"


def char_tostr(c):
    m = {"\a": "\\a", "\b": "\\b", "\t": "\\t", "\n": "\\n", "\v": "\\v", "\f": "\\f", "\r": "\\r", '"': '\\"', "\\": "\\\\"}
    if c in m:
        return m[c]
    if isprint(c):
        return c
    if ord(c) < 32:
        return "\\^" + chr(ord(c) + 64)
    return "\\%03d" % ord(c)


def char_toc(c):
    m = {"\a": "\\a", "\b": "\\b", "\t": "\\t", "\n": "\\n", "\v": "\\v", "\f": "\\f", "\r": "\\r", '"': '\\"', "\\": "\\\\",
         "?": "\\?", "'": "\\'"}
    if c in m:
        return m[c]
    if isprint(c):
        return c
    return "\\%03o" % ord(c)


def char_scan(t, i, dq=False):
    """Char.scan at offset i: (char, next) or None.  The SML syntax: an unescaped double quote is not a character."""
    while True:
        if i >= len(t):
            return None
        c = t[i]
        if c != "\\":
            if not isprint(c) or (c == '"' and not dq):
                return None
            return (c, i + 1)
        if i + 1 >= len(t):
            return None
        d = t[i + 1]
        m = {"\\": "\\", '"': '"', "a": "\a", "b": "\b", "t": "\t", "n": "\n", "v": "\v", "f": "\f", "r": "\r"}
        if d in m:
            return (m[d], i + 2)
        if d == "^":
            if i + 2 < len(t) and 64 <= ord(t[i + 2]) <= 95:
                return (chr(ord(t[i + 2]) - 64), i + 3)
            return None
        if d == "u":
            h = t[i + 2:i + 6]
            if len(h) == 4 and all(x in HEXD for x in h) and int(h, 16) < 256:
                return (chr(int(h, 16)), i + 6)
            return None
        if d in DIG:
            h = t[i + 1:i + 4]
            if len(h) == 3 and all(x in DIG for x in h) and int(h) < 256:
                return (chr(int(h)), i + 4)
            return None
        if d in SPACE:
            j = i + 1
            while j < len(t) and t[j] in SPACE:
                j += 1
            if j < len(t) and t[j] == "\\":
                i = j + 1
                continue
            return None
        return None


def str_scan(t):
    """String.scan: the longest prefix of characters and gaps; None only if the text starts with something illegal"""
    i = 0
    out = ""
    while i < len(t):
        if t[i] == "\\" and i + 1 < len(t) and t[i + 1] in SPACE:
            j = i + 1
            while j < len(t) and t[j] in SPACE:
                j += 1
            if j < len(t) and t[j] == "\\":
                i = j + 1
                continue
            break
        r = char_scan(t, i, True)
        if r is None:
            break
        out += r[0]
        i = r[1]
    return out, i


def str_scan_o(t):
    if '"' in t.replace('\\"', ""):
        raise Any()             # the Basis does not say whether an unescaped double quote is accepted
    out, i = str_scan(t)
    if i == len(t) or out:
        return (out, t[i:])
    if i > 0:
        raise Any()             # a gap, then an illegal character: implementations differ
    return None


def c_scan(t, i):
    if i >= len(t):
        return None
    c = t[i]
    if c != "\\":
        return (c, i + 1) if isprint(c) else None
    if i + 1 >= len(t):
        return None
    d = t[i + 1]
    m = {"\\": "\\", '"': '"', "a": "\a", "b": "\b", "t": "\t", "n": "\n", "v": "\v", "f": "\f", "r": "\r", "'": "'", "?": "?"}
    if d in m:
        return (m[d], i + 2)
    if d == "^":
        raise Any()
    if d == "x":
        j = i + 2
        while j < len(t) and t[j] in HEXD:
            j += 1
        if j == i + 2 or int(t[i + 2:j], 16) > 255:
            return None
        return (chr(int(t[i + 2:j], 16)), j)
    j = i + 1
    while j < len(t) and j < i + 4 and t[j] in "01234567":
        j += 1
    if j == i + 1 or int(t[i + 1:j], 8) > 255:
        return None
    return (chr(int(t[i + 1:j], 8)), j)


def c_fromstr(t):
    i, out = 0, ""
    while i < len(t):
        r = c_scan(t, i)
        if r is None:
            if out or i:
                raise Any()     # a prefix or NONE: the Basis text does not settle it
            return None
        if t[i] in "\"'?" :
            raise Any()
        out += r[0]
        i = r[1]
    return out


def gen_esc(s):
    """text rich in escape sequences, well-formed and not"""
    out = ""
    for _ in range(s.size(0, 8)):
        k = s.draw(14)
        if k <= 2:
            out += gen_char(s)
        elif k == 3:
            out += "\\" + s.choice("abtnvfr\\\"'?xue0 9")
        elif k == 4:
            out += "\\%03d" % s.choice([0, 9, 65, 127, 128, 255, 256, 260, 300, 999, s.draw(256)])
        elif k == 5:
            out += "\\" + str(s.draw(300))
        elif k == 6:
            out += "\\^" + chr(s.choice([63, 64, 65, 90, 95, 96, 97, 91]))
        elif k == 7:
            out += "\\u" + s.choice(["0041", "00ff", "00FF", "0100", "004", "00g1", "%04x" % s.draw(300)])
        elif k == 8:
            out += "\\" + "".join(s.choice(SPACE) for _ in range(s.size(1, 4))) + s.choice(["\\", "\\", "\\", "x", ""])
        elif k == 9:
            out += "\\x" + s.choice(["41", "0", "00041", "ff", "FF", "100", "g", "fffffffffffffffffffff", "%x" % s.draw(260)])
        elif k == 10:
            out += "\\" + s.choice(["0", "7", "12", "101", "377", "400", "777", "8", "18"])
        elif k == 11:
            out += "\\"
        else:
            out += s.choice(["a", "Z", " ", "0", "~"])
    return out


ESC = Ty("string", gen_esc, "C.str", "C.wstr", hexs)
SETS = ["", "a", "b", " ", "ab", " \t\n", "aA01", "\x00\xff", "abAB01 "]


def gen_set(s):
    return s.choice(SETS) if s.draw(4) else gen_str(s, 4)


SET = Ty("string", gen_set, "C.str", "C.wstr", hexs)


def idx(s, n):
    """an index near the ends of 0..n, sometimes outside, sometimes huge"""
    k = s.draw(10)
    if k == 0:
        return s.choice([-1, -2, n + 1, n + 2, 2**61, -2**62, 2**62 - 1, 2**32, -2**32, 2**62 - n - 1])
    return s.choice([0, n, max(0, n - 1), min(1, n), s.int(0, n), s.int(0, n)])


def gen_sub(s, hi=20):
    t = gen_str(s, hi)
    i = s.int(0, len(t)) if s.draw(3) else 0
    n = s.int(0, len(t) - i) if s.draw(3) else len(t) - i
    return (t, i, n)


def v(ss):
    return ss[0][ss[1]:ss[1] + ss[2]]


SUB = Ty("substring", gen_sub, "(fn () => SS (C.triple (C.str, C.int, C.int) ()))", "(fn ss => C.wtriple (C.wstr, C.wint, C.wint) (Substring.base ss))",
         lambda v: "%s %d %d" % (hexs(v[0]), v[1], v[2]))


def tokens(p, t):
    out, cur = [], None
    for c in t:
        if c in p:
            if cur is not None:
                out.append(cur)
            cur = None
        else:
            cur = (cur or "") + c
    if cur is not None:
        out.append(cur)
    return out


def fields(p, t):
    out, cur = [], ""
    for c in t:
        if c in p:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur]


def tokens_pos(p, ss):
    t, i, n = ss
    out, st = [], None
    for j in range(i, i + n):
        if t[j] in p:
            if st is not None:
                out.append((t, st, j - st))
            st = None
        elif st is None:
            st = j
    if st is not None:
        out.append((t, st, i + n - st))
    return out


def fields_pos(p, ss):
    t, i, n = ss
    out, st = [], i
    for j in range(i, i + n):
        if t[j] in p:
            out.append((t, st, j - st))
            st = j + 1
    return out + [(t, st, i + n - st)]


def cmp(a, b):
    return (a > b) - (a < b)


def collate(a, b, key=lambda c: ord(c) % 32):
    return cmp([key(c) for c in a], [key(c) for c in b])


def near(s):
    """two related strings: equal, prefix, suffix, infix, one character changed"""
    a = gen_str(s)
    k = s.choice([0, 1, 2, 3, 4, 5, 6, 6, 6, 7])
    i, j = s.int(0, len(a)), s.int(0, len(a))
    if k == 0:
        return (a, a)
    if k == 1:
        return (a[:i], a)
    if k == 2:
        return (a[i:], a)
    if k == 3:
        return (a[min(i, j):max(i, j)], a)
    if k == 4:
        return (a, a[:i] + gen_char(s) + a[i + 1:])
    if k == 5:
        return (a, a + gen_str(s, 3))
    if k == 6:    # periodic strings: partial matches of the searched pattern
        al = s.choice(["ab", "abc", "abcd"])
        u = "".join(s.choice(al) for _ in range(s.size(1, 4)))
        p = (u * 6)[:s.int(0, 10)] + s.choice(["", "a", "b", "c"])
        if s.draw(2):
            p = u + u[:s.int(0, len(u))] + s.choice(al) + s.choice([u, "", s.choice(al)])
        t = "".join(s.choice([u, p[:-1], s.choice(al), s.choice(al), p[:s.int(0, len(p))], p[s.int(0, len(p)):], u * 2]) for _ in range(s.size(0, 6)))
        t = t + s.choice(["", p, p[1:], p[:-1]])
        return (p, t)
    return (a, gen_str(s))


def rng(t, i, n):
    if i < 0 or n < 0 or i + n > len(t):
        raise SUBSCRIPT
    return t[i:i + n]


def ext(t, i, o):
    if i < 0 or i > len(t):
        raise SUBSCRIPT
    if o is None:
        return t[i:]
    return rng(t, i, o)


def gidx(s):
    t = gen_str(s)
    return (t, idx(s, len(t)))


def gidx2(s):
    t = gen_str(s)
    i = idx(s, len(t))
    return (t, i, idx(s, max(0, len(t) - i) if 0 <= i <= len(t) else len(t)))


def gext(s):
    t, i, n = gidx2(s)
    return (t, i, None if s.draw(2) else n)


def sub_(t, i):
    if i < 0 or i >= len(t):
        raise SUBSCRIPT
    return t[i]


def tables():
    ch, st, su = [], [], []

    def f(l, name, args, res, sml, oracle, **k):
        l.append(Fn(name, args, res, sml, oracle, **k))
    cls = {"isLower": LOW, "isUpper": UP, "isDigit": DIG, "isAlpha": UP + LOW, "isHexDigit": HEXD, "isAlphaNum": UP + LOW + DIG,
           "isPrint": "".join(PRINT), "isSpace": SPACE, "isGraph": "".join(PRINT[1:]),
           "isPunct": "".join(c for c in PRINT[1:] if c not in UP + LOW + DIG),
           "isCntrl": "".join(chr(i) for i in list(range(32)) + [127]), "isAscii": "".join(chr(i) for i in range(128))}
    for n, cs in cls.items():
        f(ch, "Char." + n, [CHAR], BOOL, "Char." + n, lambda c, cs=cs: c in cs)
    f(ch, "Char.toUpper", [CHAR], CHAR, "Char.toUpper", lambda c: c.upper() if c in LOW else c)
    f(ch, "Char.toLower", [CHAR], CHAR, "Char.toLower", lambda c: c.lower() if c in UP else c)

    def chr_(i):
        if not 0 <= i <= 255:
            raise Exn("Chr")
        return chr(i)
    gi = lambda s: (s.choice([s.int(-2, 258), s.int(0, 255), edge_int(s, -2**62, 2**62 - 1)]),)
    f(ch, "Char.chr", [INT], CHAR, "Char.chr", chr_, gen=gi)
    f(ch, "chr", [INT], CHAR, "chr", chr_, gen=gi)
    f(ch, "Char.ord", [CHAR], INT, "Char.ord", ord)
    f(ch, "Char.succ", [CHAR], CHAR, "Char.succ", lambda c: chr_(ord(c) + 1))
    f(ch, "Char.pred", [CHAR], CHAR, "Char.pred", lambda c: chr_(ord(c) - 1))
    f(ch, "Char.compare", [CHAR, CHAR], ORDER, "Char.compare", cmp)
    for op, o in (("<", lambda a, b: a < b), ("<=", lambda a, b: a <= b), (">", lambda a, b: a > b), (">=", lambda a, b: a >= b)):
        f(ch, "Char." + op, [CHAR, CHAR], BOOL, "Char.%s" % op, o)
        f(st, "String." + op, [STR, STR], BOOL, "String.%s" % op, o, gen=near)
    f(ch, "Char.contains", [SET, CHAR], BOOL, "Char.contains {0} {1}", lambda a, c: c in a)
    f(ch, "Char.notContains", [SET, CHAR], BOOL, "Char.notContains {0} {1}", lambda a, c: c not in a)
    f(ch, "Char.toString", [CHAR], STR, "Char.toString", char_tostr, weight=2)
    f(ch, "Char.toCString", [CHAR], STR, "Char.toCString", char_toc, weight=2)

    def csc(t):
        r = char_scan(t, 0)
        return None if r is None else (r[0], t[r[1]:])

    def cfs(t):
        r = char_scan(t, 0)
        return None if r is None else r[0]

    def ccs(t):
        if t[:1] in ('"', "'", "?"):
            raise Any()
        r = c_scan(t, 0)
        return None if r is None else r[0]
    f(ch, "Char.scan", [ESC], OPT(PAIR(CHAR, STR)), "viaScan Char.scan {0}", csc, weight=4)
    f(ch, "Char.scan list", [ESC], OPT(PAIR(CHAR, STR)), "viaList Char.scan {0}", csc, weight=2)
    f(ch, "Char.fromString", [ESC], OPT(CHAR), "Char.fromString", cfs, weight=4)
    f(ch, "Char.fromCString", [ESC], OPT(CHAR), "Char.fromCString", ccs, weight=4)
    f(ch, "Char text round trip", [CHAR], PAIR(OPT(CHAR), OPT(CHAR)),
      "(Char.fromString (Char.toString {0}), Char.fromCString (Char.toCString {0}))", lambda c: (c, c), weight=2)
    f(ch, "Byte", [CHAR], CHAR, "Byte.byteToChar (Byte.charToByte {0})", lambda c: c)
    # Bool
    def gbool(s):
        t = s.choice(["true", "false", "True", "FALSE", "tRuE", "falsee", "tru", "t", "fals", "", "truefalse", "faLse x"])
        return ("".join(s.choice(SPACE) for _ in range(s.choice([0, 0, 1, 2]))) + t + s.choice(["", "", " ", "z", "\n"]),)

    def bsc(t):
        u = t.lstrip(SPACE)
        for w, b in (("true", True), ("false", False)):
            if u.lower().startswith(w):
                return (b, u[len(w):])
        return None
    f(ch, "Bool.scan", [STR], OPT(PAIR(BOOL, STR)), "viaScan Bool.scan {0}", bsc, gen=gbool)
    f(ch, "Bool.fromString", [STR], OPT(BOOL), "Bool.fromString", lambda t: None if bsc(t) is None else bsc(t)[0], gen=gbool)
    f(ch, "Bool.toString", [BOOL], STR, "Bool.toString", lambda b: "true" if b else "false")

    # String
    f(st, "String.sub", [STR, INT], CHAR, "String.sub", sub_, gen=gidx)
    f(st, "CharVector.sub", [STR, INT], CHAR, "CharVector.sub", sub_, gen=gidx)
    f(st, "String.size", [STR], INT, "String.size", len)
    f(st, "String.str", [CHAR], STR, "String.str", lambda c: c)
    f(st, "String.extract", [STR, INT, OPT(INT)], STR, "String.extract", ext, gen=gext, weight=3)
    f(st, "String.substring", [STR, INT, INT], STR, "String.substring", rng, gen=gidx2, weight=3)
    f(st, "substring", [STR, INT, INT], STR, "substring", rng, gen=gidx2)
    f(st, "^", [STR, STR], STR, "op ^", lambda a, b: a + b)
    SL = LIST(STR.with_gen(lambda s: gen_str(s, 6)), 8)
    f(st, "String.concat", [SL], STR, "String.concat", lambda l: "".join(l))
    f(st, "concat", [SL], STR, "concat", lambda l: "".join(l))
    f(st, "String.concatWith", [SET, SL], STR, "String.concatWith {0} {1}", lambda a, l: a.join(l))
    f(st, "String.concatWithMap", [SET, SL], STR, "String.concatWithMap {0} (fn x => x ^ x) {1}", lambda a, l: a.join(x + x for x in l))
    f(st, "String.implode", [LIST(CHAR)], STR, "String.implode", lambda l: "".join(l))
    f(st, "String.implodeRev", [LIST(CHAR)], STR, "String.implodeRev", lambda l: "".join(reversed(l)))
    f(st, "String.explode", [STR], LIST(CHAR), "String.explode", list)
    f(st, "String.rev", [STR], STR, "String.rev", lambda t: t[::-1])
    f(st, "String.map", [STR], STR, "String.map (fn c => Char.chr (255 - Char.ord c)) {0}", lambda t: "".join(chr(255 - ord(c)) for c in t))
    f(st, "String.translate", [SET, STR], STR, "String.translate (fn c => if has {0} c then \"\" else if c = #\"A\" then {0} ^ {0} else String.str c) {1}",
      lambda a, t: "".join("" if c in a else a + a if c == "A" else c for c in t))
    TL = LIST(STR)
    f(st, "String.tokens", [SET, STR], TL, "String.tokens (has {0}) {1}", tokens, weight=3)
    f(st, "String.fields", [SET, STR], TL, "String.fields (has {0}) {1}", fields, weight=3)
    f(st, "String.isPrefix", [STR, STR], BOOL, "String.isPrefix {0} {1}", lambda a, b: b.startswith(a), gen=near, weight=2)
    f(st, "String.isSuffix", [STR, STR], BOOL, "String.isSuffix {0} {1}", lambda a, b: b.endswith(a), gen=near, weight=2)
    f(st, "String.isSubstring", [STR, STR], BOOL, "String.isSubstring {0} {1}", lambda a, b: a in b, gen=near, weight=4)
    f(st, "String.isSubstring staged", [STR, STR, STR], PAIR(BOOL, BOOL),
      "let val g = String.isSubstring {0} in (g {1}, g {2}) end", lambda a, b, c: (a in b, a in c),
      gen=lambda s: (lambda p: (p[0], p[1], s.choice([p[1][1:], p[1][:-1], p[0], gen_str(s, 6)])))(near(s)), weight=2)
    f(st, "String.compare", [STR, STR], ORDER, "String.compare", cmp, gen=near, weight=2)
    f(st, "String.=", [STR, STR], BOOL, "op =", lambda a, b: a == b, gen=near, weight=2)
    f(st, "String.collate", [STR, STR], ORDER, "String.collate ord' ({0}, {1})", collate, gen=near, weight=2)
    f(st, "String.toString", [STR], STR, "String.toString", lambda t: "".join(map(char_tostr, t)))
    f(st, "String.toCString", [STR], STR, "String.toCString", lambda t: "".join(map(char_toc, t)))

    def str_from(t):
        r = str_scan_o(t)
        return None if r is None else r[0]
    f(st, "String.fromString", [ESC], OPT(STR), "String.fromString", str_from, weight=5)
    f(st, "String.scan", [ESC], OPT(PAIR(STR, STR)), "viaScan String.scan {0}", str_scan_o, weight=5)
    f(st, "String.fromCString", [ESC], OPT(STR), "String.fromCString", c_fromstr, weight=5)
    f(st, "String text round trip", [STR], PAIR(OPT(STR), OPT(STR)),
      "(String.fromString (String.toString {0}), String.fromCString (String.toCString {0}))", lambda t: (t, t), weight=3)
    f(st, "Byte round trip", [STR], PAIR(STR, STR), "(Byte.bytesToString (Byte.stringToBytes {0}), v8s (Byte.stringToBytes {0}))", lambda t: (t, t))
    f(st, "Byte.unpackStringVec", [STR, INT, INT], STR, "Byte.unpackStringVec (Word8VectorSlice.slice (w8v {0}, {1}, SOME {2}))", rng, gen=gidx2)
    f(st, "Byte.unpackString", [STR, INT, OPT(INT)], STR,
      "Byte.unpackString (Word8ArraySlice.slice (Word8Array.fromList (Word8Vector.foldr (op ::) [] (w8v {0})), {1}, {2}))", ext, gen=gext)

    def pack(t, i, ss):
        w = v(ss)
        if i < 0 or i + len(w) > len(t):
            raise SUBSCRIPT
        return t[:i] + w + t[i + len(w):]

    def gpack(s):
        t = gen_str(s)
        ss = gen_sub(s, 6)
        return (t, idx(s, max(0, len(t) - ss[2])), ss)
    f(st, "Byte.packString", [STR, INT, SUB], STR,
      "let val a = Word8Array.fromList (Word8Vector.foldr (op ::) [] (w8v {0})) in Byte.packString (a, {1}, {2}); v8s (Word8Array.vector a) end", pack, gen=gpack)

    def pad(c, n, t, left):
        if n <= len(t):
            return t
        return c * (n - len(t)) + t if left else t + c * (n - len(t))
    gp = lambda s: (gen_char(s), s.choice([s.int(-1, 12), -2**62, s.int(0, 30)]), gen_str(s, 10))
    f(st, "StringCvt.padLeft", [CHAR, INT, STR], STR, "StringCvt.padLeft {0} {1} {2}", lambda c, n, t: pad(c, n, t, True), gen=gp)
    f(st, "StringCvt.padRight", [CHAR, INT, STR], STR, "StringCvt.padRight {0} {1} {2}", lambda c, n, t: pad(c, n, t, False), gen=gp)

    def span(p, t):
        i = 0
        while i < len(t) and t[i] in p:
            i += 1
        return (t[:i], t[i:])
    f(st, "StringCvt.splitl", [SET, STR], PAIR(STR, STR), "let val (a, l) = StringCvt.splitl (has {0}) List.getItem (String.explode {1}) in (a, String.implode l) end", span)
    f(st, "StringCvt.takel", [SET, STR], STR, "StringCvt.takel (has {0}) List.getItem (String.explode {1})", lambda p, t: span(p, t)[0])
    f(st, "StringCvt.dropl", [SET, STR], STR, "String.implode (StringCvt.dropl (has {0}) List.getItem (String.explode {1}))", lambda p, t: span(p, t)[1])
    f(st, "StringCvt.skipWS", [STR], STR, "Substring.string (StringCvt.skipWS Substring.getc (Substring.full {0}))", lambda t: t.lstrip(SPACE))
    f(st, "StringCvt.scanString", [SET, STR], OPT(STR),
      "StringCvt.scanString (fn rd => fn st => let val (a, st) = StringCvt.splitl (has {0}) rd st in if a = \"\" then NONE else SOME (a, st) end) {1}",
      lambda p, t: span(p, t)[0] or None)
    for nm, fn in (("all", all), ("exists", any)):
        f(st, "CharVector." + nm, [SET, STR], BOOL, "CharVector.%s (has {0}) {1}" % nm, lambda p, t, fn=fn: fn(c in p for c in t))

    # Substring
    f(su, "Substring.substring", [STR, INT, INT], SUB, "Substring.substring", lambda t, i, n: (rng(t, i, n), (t, i, n))[1], gen=gidx2, weight=2)
    f(su, "Substring.extract", [STR, INT, OPT(INT)], SUB, "Substring.extract",
      lambda t, i, o: (ext(t, i, o), (t, i, len(t) - i if o is None else o))[1], gen=gext, weight=2)
    f(su, "Substring.full", [STR], SUB, "Substring.full", lambda t: (t, 0, len(t)))
    f(su, "Substring.string", [SUB], STR, "Substring.string", v)
    f(su, "Substring.isEmpty", [SUB], BOOL, "Substring.isEmpty", lambda a: a[2] == 0)
    f(su, "Substring.size", [SUB], INT, "Substring.size", lambda a: a[2])
    f(su, "Substring.getc", [SUB], OPT(PAIR(CHAR, SUB)), "Substring.getc", lambda a: None if a[2] == 0 else (v(a)[0], (a[0], a[1] + 1, a[2] - 1)))
    f(su, "Substring.first", [SUB], OPT(CHAR), "Substring.first", lambda a: v(a)[0] if a[2] else None)

    def size_exn(k):
        if k < 0:
            raise SUBSCRIPT
    gk = lambda s: (s.choice([s.int(0, 8), s.int(0, 30), -1, 2**62 - 1, -2**62]), gen_sub(s))

    def triml(k, a):
        size_exn(k)
        j = min(k, a[2])
        return (a[0], a[1] + j, a[2] - j)

    def trimr(k, a):
        size_exn(k)
        j = min(k, a[2])
        return (a[0], a[1], a[2] - j)
    f(su, "Substring.triml", [INT, SUB], SUB, "Substring.triml {0} {1}", triml, gen=gk, weight=2)
    f(su, "Substring.trimr", [INT, SUB], SUB, "Substring.trimr {0} {1}", trimr, gen=gk, weight=2)

    def sslice(a, i, o):
        ext(v(a), i, o)
        return (a[0], a[1] + i, a[2] - i if o is None else o)

    def gsl(s):
        a = gen_sub(s)
        i = idx(s, a[2])
        return (a, i, None if s.draw(2) else idx(s, max(0, a[2] - i) if 0 <= i <= a[2] else a[2]))
    f(su, "Substring.slice", [SUB, INT, OPT(INT)], SUB, "Substring.slice", sslice, gen=gsl, weight=3)
    f(su, "Substring.sub", [SUB, INT], CHAR, "Substring.sub", lambda a, i: sub_(v(a), i), gen=lambda s: (lambda a: (a, idx(s, a[2])))(gen_sub(s)))
    SUL = LIST(SUB.with_gen(lambda s: gen_sub(s, 6)), 6)
    f(su, "Substring.concat", [SUL], STR, "Substring.concat", lambda l: "".join(map(v, l)))
    f(su, "Substring.concatWith", [SET, SUL], STR, "Substring.concatWith {0} {1}", lambda p, l: p.join(map(v, l)))
    f(su, "Substring.explode", [SUB], LIST(CHAR), "Substring.explode", lambda a: list(v(a)))

    def gpre(s):
        p, t = near(s)
        b = gen_str(s, 4)
        e = gen_str(s, 4)
        if s.draw(5) == 0:
            e = p + e        # the pattern continues beyond the end of the substring
        if s.draw(5) == 0:
            b = b + p
        return (p, (b + t + e, len(b), len(t)))
    f(su, "Substring.isPrefix", [STR, SUB], BOOL, "Substring.isPrefix {0} {1}", lambda p, a: v(a).startswith(p), gen=gpre, weight=2)
    f(su, "Substring.isSuffix", [STR, SUB], BOOL, "Substring.isSuffix {0} {1}", lambda p, a: v(a).endswith(p), gen=gpre, weight=2)
    f(su, "Substring.isSubstring", [STR, SUB], BOOL, "Substring.isSubstring {0} {1}", lambda p, a: p in v(a), gen=gpre, weight=3)

    def position(p, a):
        k = v(a).find(p)
        if k < 0:
            k = a[2]
        return ((a[0], a[1], k), (a[0], a[1] + k, a[2] - k))
    f(su, "Substring.position", [STR, SUB], PAIR(SUB, SUB), "Substring.position {0} {1}", position, gen=gpre, weight=5)

    def gcmp(s):
        p, t = near(s)
        b, e = gen_str(s, 4), gen_str(s, 4)
        b2, e2 = gen_str(s, 4), gen_str(s, 4)
        return ((b2 + p + e2, len(b2), len(p)), (b + t + e, len(b), len(t)))
    f(su, "Substring.compare", [SUB, SUB], ORDER, "Substring.compare", lambda a, b: cmp(v(a), v(b)), gen=gcmp, weight=3)
    f(su, "Substring.collate", [SUB, SUB], ORDER, "Substring.collate ord' ({0}, {1})", lambda a, b: collate(v(a), v(b)), gen=gcmp, weight=2)

    def cut(a, k):
        return ((a[0], a[1], k), (a[0], a[1] + k, a[2] - k))

    def lrun(p, a):
        k = 0
        while k < a[2] and v(a)[k] in p:
            k += 1
        return k

    def rrun(p, a):
        k = a[2]
        while k > 0 and v(a)[k - 1] in p:
            k -= 1
        return k
    for nm, o in (("splitl", lambda p, a: cut(a, lrun(p, a))), ("splitr", lambda p, a: cut(a, rrun(p, a)))):
        f(su, "Substring." + nm, [SET, SUB], PAIR(SUB, SUB), "Substring.%s (has {0}) {1}" % nm, o, weight=2)
    for nm, o in (("dropl", lambda p, a: cut(a, lrun(p, a))[1]), ("takel", lambda p, a: cut(a, lrun(p, a))[0]),
                  ("dropr", lambda p, a: cut(a, rrun(p, a))[0]), ("taker", lambda p, a: cut(a, rrun(p, a))[1])):
        f(su, "Substring." + nm, [SET, SUB], SUB, "Substring.%s (has {0}) {1}" % nm, o, weight=2)

    def splitat(a, i):
        if i < 0 or i > a[2]:
            raise SUBSCRIPT
        return cut(a, i)
    f(su, "Substring.splitAt", [SUB, INT], PAIR(SUB, SUB), "Substring.splitAt", splitat, gen=lambda s: (lambda a: (a, idx(s, a[2])))(gen_sub(s)), weight=2)

    def gspan(s):
        t = gen_str(s)
        i, j = s.int(0, len(t)), s.int(0, len(t))
        n, m = s.int(0, len(t) - i), s.int(0, len(t) - j)
        t2 = t if s.draw(6) else gen_str(s)
        if t2 != t:
            j, m = 0, len(t2)
        return (t, (i, n), t2, (j, m), bool(t2 == t))

    def span2(t, a, t2, b, same):
        if not same:
            raise Exn("Span")
        if b[0] + b[1] < a[0]:
            raise Exn("Span")
        return (t, a[0], b[0] + b[1] - a[0])
    IP = PAIR(INT, INT)
    f(su, "Substring.span", [STR, IP, STR, IP, BOOL], SUB,
      "let val (i, n) = {1} val (j, m) = {3} in Substring.span (Substring.substring ({0}, i, n), Substring.substring (if {4} then {0} else {2}, j, m)) end", span2, gen=gspan, weight=2)
    f(su, "Substring.translate", [SET, SUB], STR, "Substring.translate (fn c => if has {0} c then \"\" else String.str c ^ {0}) {1}",
      lambda p, a: "".join("" if c in p else c + p for c in v(a)))
    f(su, "Substring.tokens", [SET, SUB], LIST(SUB), "Substring.tokens (has {0}) {1}", tokens_pos, weight=3)
    f(su, "Substring.fields", [SET, SUB], LIST(SUB), "Substring.fields (has {0}) {1}", fields_pos, weight=3)
    f(su, "Substring.foldl", [SUB], STR, "String.implode (Substring.foldl (op ::) [] {0})", lambda a: v(a)[::-1])
    f(su, "Substring.foldr", [SUB], STR, "String.implode (Substring.foldr (op ::) [] {0})", v)
    f(su, "Substring.app", [SUB], LIST(CHAR), "ulist (fn f => Substring.app f {0})", lambda a: list(v(a)))
    return ch, st, su


def parts():
    ch, st, su = tables()
    return [table_part("characters", ch, prelude=PRE, n=(80000, 1500000)),
            table_part("strings", st, prelude=PRE, n=(200000, 4000000)),
            table_part("substrings", su, prelude=PRE, n=(200000, 4000000))]


if __name__ == "__main__":
    pbt.main("C05", "one Char/String/Substring/StringCvt/Byte/Bool function per case on generated strings, offsets and escape texts; every "
             "distinct case counts", parts,
             ["oracle: an executable model of the Basis text written in Python",
              "where the Basis text leaves the result open (unescaped double quotes, NONE or a prefix after an illegal C escape) any result is accepted"])
