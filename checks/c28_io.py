"""C28: stream I/O (TextIO, BinIO, StreamIO; files, vectors, custom readers and writers) against a byte-sequence model."""
import os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, vbuild

IMG = None
TMP = os.path.join(vbuild.WORK, "io")
CONV = {"Text": """    fun str (s : string) = s
    fun vec (s : string) = s
    fun el (c : char) = c
    fun chr (c : char) = c
    val inputLine = TextIO.inputLine and sInputLine = TextIO.StreamIO.inputLine
    val outputSubstr = TextIO.outputSubstr
    val openString = TextIO.openString
    fun pipeIn fd = T.mkInstream (S.mkInstream (Posix.IO.mkTextReader {fd = fd, name = "pipe", initBlkMode = true}, ""))
    fun scanInt s = TextIO.scanStream (IntInf.scan StringCvt.DEC) s
""", "Bin": """    val str = Byte.bytesToString and vec = Byte.stringToBytes and el = Byte.charToByte and chr = Byte.byteToChar
    fun inputLine _ = raise Fail "line"
    fun sInputLine _ = raise Fail "line"
    fun openString s = BinIO.mkInstream (BinIO.StreamIO.mkInstream (BinPrimIO.openVector (vec s), vec ""))
    fun pipeIn fd = T.mkInstream (S.mkInstream (Posix.IO.mkBinReader {fd = fd, name = "pipe", initBlkMode = true}, vec ""))
    fun scanInt _ = raise Fail "scan"
    fun outputSubstr (s, ss) = BinIO.output (s, vec (Substring.string ss))
"""}


def text():
    s = open(os.path.join(vbuild.VERIF, "sml", "io.sml")).read()
    a, b = s.index("(*TEMPLATE*)"), s.index("(*END*)")
    t = s[a:b]
    out = ""
    for k in ("Text", "Bin"):
        el = "Char" if k == "Text" else "Word8"
        out += t.replace("@CONV", CONV[k]).replace("M_@", "M_" + k).replace("@IO", k + "IO").replace("@PrimIO", k + "PrimIO").replace("@VS", el + "VectorSlice").replace("@AS", el + "ArraySlice")
    return s[:a] + out + s[b:]


def hx(b):
    return "x" + b.hex()


def g_data(s, big=False):
    if big and s.draw(150) == 149:
        n = s.choice([65535, 65536, 65537, 131072, s.int(0, 300000)])
        w = bytes(s.int(0, 255) for _ in range(s.int(1, 61)))
        return (w * (n // len(w) + 1))[:n]
    k = s.int(0, 9)
    if k <= 5:
        n = s.size(0, 40)
    elif k <= 7:
        n = s.int(0, 300)
    else:
        n = s.choice([1023, 1024, 1025, 4095, 4096, 4097, 8192, s.int(0, 9000)])
    if n > 60:
        w = bytes(s.choice([s.int(0, 255), 10, 97]) for _ in range(s.int(1, 40)))
        return (w * (n // len(w) + 1))[:n]
    if s.draw(4) == 0:
        return bytes(s.choice(b"0123456789 -~+\nx") for _ in range(n))
    return bytes(s.choice([s.int(97, 122), s.int(97, 122), 10, 13, s.int(0, 255)]) for _ in range(n))


SRC = ["file", "file", "pipe", "str", "ostr", "vec", "vecnb", "arr", "pre"]


def gen(s):
    mode = s.choice("tb")
    ops = []
    inp = s.draw(3) != 2
    kinds = {}
    live = {}
    regs = {}
    outs = {}
    pos = {}
    if inp:
        for i in range(s.int(1, 2)):
            k = s.choice(SRC)
            ops.append(["src", i, k, hx(g_data(s, k in ("file", "str", "ostr"))), [s.int(1, 9) for _ in range(s.size(0, 4))] if s.draw(2) else [], s.choice([1, 2, 3, 16, 1024, 4096])])
            kinds[i], live[i] = k, True
            ops.append(["geti", i, i])
            regs[i] = i
    else:
        for i in range(s.int(1, 2)):
            k = s.choice(["file", "file", "app", "vec", "arr"])
            ops.append(["snk", i, k, [s.int(1, 9) for _ in range(s.size(0, 4))] if s.draw(2) else [], s.choice([1, 2, 3, 16, 1024])])
            outs[i] = k
    for _ in range(s.int(1, 25)):
        if s.draw(30) == 29:
            ops.append(["gc", s.int(0, 2)])
            continue
        if inp:
            i = s.choice(sorted(kinds))
            f = s.choice(sorted(regs))
            if s.draw(2) == 0 and live[i]:
                o = s.choice(["in1", "inN", "in", "line", "peek", "can", "eos", "geti", "seti", "all", "in1", "inN", "in", "peek", "closei"] if s.draw(3) == 0 else ["in1", "inN", "in", "peek", "eos", "line", "geti", "scan"])
                if o in ("line", "scan") and mode == "b":
                    o = "inN"
                if o in ("inN", "can"):
                    ops.append([o, i, s.choice([0, 1, 2, 5, 30, 1024, 5000, s.int(0, 60)] + ([-1] if s.draw(4) == 0 else []))])
                elif o == "geti":
                    r = s.int(0, 4)
                    regs[r] = i
                    ops.append([o, i, r])
                elif o == "seti":
                    fs = [r for r in sorted(regs) if regs[r] == i]
                    if fs:
                        ops.append([o, i, s.choice(fs)])
                elif o == "closei":
                    if s.draw(6) == 0:
                        ops.append([o, i])
                        live[i] = False
                        regs = {r: v for r, v in regs.items() if v != i}
                        if not regs:
                            break
                else:
                    ops.append([o, i])
            else:
                o = s.choice(["f1", "fN", "fin", "fline", "fcan", "feos", "fpos", "cp", "fall"])
                r = s.int(0, 4)
                if o == "fline" and mode == "b":
                    o = "fN"
                if o == "fpos":
                    if kinds[regs[f]] != "file":
                        continue
                    ops.append([o, f])
                elif o in ("fN",):
                    ops.append([o, f, s.choice([0, 1, 2, 5, 30, 1024, 5000, s.int(0, 60)] + ([-1] if s.draw(4) == 0 else [])), r])
                    if ops[-1][2] >= 0:
                        regs[r] = regs[f]
                elif o == "fcan":
                    ops.append([o, f, s.int(0, 40)])
                elif o == "feos":
                    ops.append([o, f])
                elif o in ("f1", "fin", "fline", "fall", "cp"):
                    ops.append([o, f, r])
                    regs[r] = regs[f]
        else:
            i = s.choice(sorted(outs))
            o = s.choice(["out", "out", "out", "out1", "outs", "fout", "flush", "mode", "seen", "seen", "rewr", "gp", "fp", "sp", "closeo", "snk"])
            d = g_data(s, outs[i] in ("file", "app"))
            isf = outs[i] in ("file", "app")
            if o in ("out", "fout"):
                ops.append([o, i, hx(d)])
            elif o == "out1":
                ops.append([o, i, hx(d[:40])])
            elif o == "outs":
                a = s.int(0, len(d))
                ops.append([o, i, hx(d), a, s.int(0, len(d) - a)])
            elif o == "mode":
                ops.append([o, i, s.choice("bln")])
            elif o == "seen":
                if s.draw(2):
                    ops.append(["flush", i])
                ops.append([o, i, 1 if isf else 0])
            elif o in ("gp", "sp"):
                if outs[i] == "file":
                    p = s.int(0, 2)
                    if o == "gp":
                        pos[p] = i
                        ops.append([o, i, p])
                    elif pos.get(p) == i:
                        ops.append([o, i, p])
            elif o == "fp":
                if outs[i] == "file":
                    ops.append([o, i])
            elif o == "snk":
                if s.draw(3) == 0:
                    k = s.choice(["file", "app", "vec", "arr"])
                    ops += [["closeo", i], ["snk", i, k, [s.int(1, 9) for _ in range(s.size(0, 4))] if s.draw(2) else [], s.choice([1, 2, 16, 1024])]]
                    outs[i] = k
                    pos = {p: v for p, v in pos.items() if v != i}
            elif o == "closeo":
                if s.draw(6) == 0:
                    ops.append([o, i])
            else:
                ops.append([o, i])
    for i, k in outs.items():
        ops += [["closeo", i], ["seen", i, 1 if k in ("file", "app") else 0]]
    return (mode, ops)


def flat(op):
    return " ".join(" ".join(map(str, [len(x)] + x)) if isinstance(x, list) else str(x) for x in op)


def req(c):
    return c[0] + " " + " ".join(flat(o) + " /" for o in c[1]) + " ."


class Bad(Exception):
    pass


class In:
    def __init__(self, data, kind):
        self.data, self.kind, self.pos = data, kind, 0


class Model:
    def __init__(self, mode):
        self.mode = mode
        self.ins, self.f, self.outs, self.files, self.memo, self.poss, self.fresh = {}, {}, {}, {0: bytearray(), 1: bytearray()}, {}, {}, 0

    def step(self, op, a):
        """checks the answer a; raises Bad"""
        k = op[0]

        def need(cond, msg):
            if not cond:
                raise Bad(msg)

        def eq(exp):
            need(a == exp, "expected %s" % exp[:300])
        if k == "gc" or k == "rewr":
            return eq("")
        if k == "src":
            self.ins[op[1]] = In(bytes.fromhex(op[3][1:]), op[2])
            return eq("")
        if k in ("in1", "inN", "in", "scan", "line", "all", "peek", "can", "eos", "geti", "seti", "closei"):
            st = self.ins[op[1]]
            d, p = st.data, st.pos
        elif k[0] == "f" and k in ("f1", "fN", "fin", "fline", "fall", "fcan", "feos", "fpos"):
            st, p, ident = self.f[op[1]]
            d = st.data
        rem = len(d) - p if k in ("in1", "inN", "in", "scan", "line", "all", "peek", "can", "eos", "geti", "f1", "fN", "fin", "fline", "fall", "fcan", "feos", "fpos") else 0

        def adv(n, reg=None):
            if k[0] == "f":
                self.fresh += 1
                self.f[reg] = (st, p + n, self.fresh)
            else:
                st.pos = p + n
        reg = op[-1]
        if k in ("in1", "f1"):
            eq(hx(d[p:p + 1]) if rem else "N")
            if rem:
                adv(1, reg)
            elif k == "f1":
                self.f[reg] = self.f[op[1]]
            return
        if k in ("inN", "fN"):
            n = op[2]
            if n < 0:
                return eq("!Size")
            eq(hx(d[p:p + n]))
            return adv(min(n, rem), reg)
        if k in ("in", "fin"):
            need(a[:1] == "x", "a vector expected")
            got = bytes.fromhex(a[1:])
            need(d[p:p + len(got)] == got and (got or not rem), "expected a non-empty prefix of %s" % hx(d[p:p + 60]))
            if k == "fin":
                need(self.memo.setdefault(ident, got) == got, "the same stream gave %s before" % hx(self.memo[ident]))
            return adv(len(got), reg)
        if k in ("line", "fline"):
            if not rem:
                if k == "fline":
                    self.f[reg] = self.f[op[1]]
                return eq("N")
            j = d.find(b"\n", p)
            l = d[p:j + 1] if j >= 0 else d[p:] + b"\n"
            eq(hx(l))
            return adv(j + 1 - p if j >= 0 else rem, reg)
        if k == "scan":
            m = re.compile(rb"[ \t\n\v\f\r]*([-+~]?)(\d+)").match(d, p)
            if not m:
                return eq("N")
            n = int(m.group(2))
            eq(("~" if n and m.group(1) in (b"-", b"~") else "") + str(n))
            return adv(m.end() - p)
        if k in ("all", "fall"):
            eq(hx(d[p:]))
            return adv(rem, reg)
        if k == "peek":
            return eq(hx(d[p:p + 1]) if rem else "N")
        if k in ("can", "fcan"):
            n = op[2]
            if n < 0 and a == "!Size":
                return
            if a == "!Io:NonblockingNotSupported" and st.kind in ("vec", "arr", "pre"):
                return
            need(a.isdigit() and int(a) <= min(n, rem) and (int(a) > 0 or not rem or not n), "expected between %d and %d" % (bool(rem and n), min(n, rem)))
            return
        if k in ("eos", "feos"):
            return eq("0" if rem else "1")
        if k == "fpos":
            return eq(str(p))
        if k == "geti":
            self.fresh += 1
            self.f[op[2]] = (st, p, self.fresh)
            return eq("")
        if k == "seti":
            st.pos = self.f[op[2]][1]
            return eq("")
        if k == "closei":
            return eq("")
        if k == "cp":
            self.f[op[2]] = self.f[op[1]]
            return eq("")
        # output
        i = op[1]
        if k == "snk":
            if op[2] != "app" and op[2] != "file":
                self.outs[i] = dict(kind=op[2], buf=bytearray(), pos=0, low=0, mode="b", open=True, seek=False)
            else:
                if op[2] == "file":
                    self.files[i] = bytearray()
                self.outs[i] = dict(kind=op[2], buf=self.files[i], pos=len(self.files[i]), low=len(self.files[i]), mode="b", open=True, seek=False)
            return eq("")
        o = self.outs[i]
        if k in ("out", "out1", "outs", "fout"):
            b = bytes.fromhex(op[2][1:])
            if k == "outs":
                b = b[op[3]:op[3] + op[4]]
            if not o["open"]:
                if k == "out1" and not b:
                    return eq("")
                return eq("!Io:ClosedStream")
            eq("")
            o["buf"][o["pos"]:o["pos"] + len(b)] = b
            o["pos"] += len(b)
            if o["mode"] == "n":
                o["low"] = o["pos"]
            elif o["mode"] == "l" and self.mode == "t" and b"\n" in b:
                o["low"] = max(o["low"], o["pos"] - len(b) + b.rindex(b"\n") + 1)
            return
        if k == "flush":
            if o["open"]:
                eq("")
                o["low"] = o["pos"]
            return
        if k == "closeo":
            eq("")
            o["open"] = False
            o["low"] = o["pos"]
            return
        if k == "mode":
            if o["open"]:
                eq(op[2])
                o["mode"] = op[2]
                if op[2] == "n":
                    o["low"] = o["pos"]
            return
        if k in ("gp", "fp", "sp"):
            if not o["open"]:
                return
            if k == "gp":
                self.poss[op[2]] = o["pos"]
                return eq("")
            if k == "fp":
                return eq(str(o["pos"]))
            if op[2] not in self.poss:
                return
            o["pos"] = self.poss[op[2]]
            o["seek"] = True
            return eq("")
        if k == "seen":
            need(a[:1] == "x", "contents expected")
            got = bytes.fromhex(a[1:])
            full = bytes(o["buf"])
            if not o["open"] or o["low"] == o["pos"] and not o["seek"]:
                return need(got == full, "expected %s" % hx(full)[:300])
            if not o["seek"]:
                need(full.startswith(got) and len(got) >= o["low"], "expected at least %d bytes of %s" % (o["low"], hx(full)[:300]))
            return
        raise Exception(k)


def judge(c, a):
    m = Model(c[0])
    got = a.split("|")
    if len(got) != len(c[1]):
        return "answered %s" % a[:300]
    for n, (o, g) in enumerate(zip(c[1], got)):
        try:
            m.step(o, g)
        except Bad as e:
            return "step %d (%s): %s; %s" % (n, flat(o)[:120], g[:300], e)
    return None


# ------------------------------------------------------------------ the end of the program
def gen_leave(s):
    ops = []
    for _ in range(s.int(0, 8)):
        o = s.choice(["s", "s", "1", "p", "e", "t", "t", "b", "c", "f", "m", "g", "i"])
        if o in ("t", "b"):
            ops.append((o, str(s.int(0, 2)), hx(g_data(s))))
        elif o == "c":
            ops.append((o, str(s.int(0, 2))))
        elif o in ("f", "g"):
            ops.append((o,))
        elif o == "m":
            ops.append((o, s.choice("bln")))
        elif o == "i":
            ops.append((o, str(s.int(0, 50))))
        else:
            ops.append((o, hx(g_data(s)[:2000])))
    k = s.choice(["ret", "ret", "exit", "raise", "term", "atexit"])
    end = (k, hx(g_data(s)[:50]) if k in ("raise", "atexit") else s.choice("01"))
    return ops + [end], g_data(s), s.choice(["pipe", "file"])


SER = 0


def eval_leave(ctx, cases):
    global SER
    out = []
    for ops, inp, kind in cases:
        SER += 1
        d = os.path.join(TMP, "leave%d-%d" % (os.getpid(), SER))
        os.makedirs(d)
        args = [x for o in ops for x in o]
        so, files, closed, err = bytearray(), {}, set(), bytearray()
        ip = 0
        for o in ops:
            h = bytes.fromhex(o[-1][1:]) if o[-1][:1] == "x" else b""
            if o[0] in ("s", "1", "p", "atexit"):
                so += h
            elif o[0] == "e":
                err += h
            elif o[0] == "t":
                f = "e" + o[1]
                if f not in files or f in closed:
                    files[f] = bytearray()      # opened again: truncated
                    closed.discard(f)
                files[f] += h
            elif o[0] == "b":
                files.setdefault("eb" + o[1], bytearray()).extend(h)
            elif o[0] == "c":
                f = "e" + o[1]
                if f not in files or f in closed:
                    files[f] = bytearray()
                closed.add(f)
            elif o[0] == "i":
                so += inp[ip:ip + int(o[1])]
                ip = min(len(inp), ip + int(o[1]))
        msg = None
        try:
            of = open(d + "/out", "w+b") if kind == "file" else subprocess.PIPE
            p = subprocess.run([vbuild.TREE + "/bin/sml", "@SMLload=" + IMG, d, "leave"] + args, input=bytes(inp), stdout=of, stderr=subprocess.PIPE, env=vbuild.env(), timeout=60)
            if kind == "file":
                of.seek(0)
                got = of.read()
                of.close()
            else:
                got = p.stdout
            end, arg = ops[-1]
            rc = {"raise": 1, "atexit": 0}.get(end, int(arg) if arg in "01" else 0)
            if p.returncode != rc:
                msg = "exit status %d, expected %d; %s" % (p.returncode, rc, p.stderr[-200:])
            elif end == "term":
                if not bytes(so).startswith(got):
                    msg = "standard output %s is not a prefix of %s" % (hx(got)[:300], hx(so)[:300])
            elif got != bytes(so):
                msg = "standard output is %s, expected %s" % (hx(got)[:300], hx(so)[:300])
            elif not p.stderr.startswith(bytes(err)) or end != "raise" and p.stderr != bytes(err):
                msg = "standard error is %s, expected %s" % (hx(p.stderr)[:300], hx(err)[:300])
            if not msg:
                for f, c in sorted(files.items()):
                    g = open(os.path.join(d, f), "rb").read() if os.path.exists(os.path.join(d, f)) else None
                    if g is None or (g != bytes(c) if end != "term" or f in closed else not bytes(c).startswith(g)):
                        msg = "file %s holds %s, expected %s" % (f, g if g is None else hx(g)[:300], hx(c)[:300])
                        break
        except subprocess.TimeoutExpired:
            msg = "no end after 60 s"
        finally:
            shutil.rmtree(d, ignore_errors=True)
        out.append(msg)
    return out


def parts():
    global IMG
    os.makedirs(TMP, exist_ok=True)
    IMG = pbt.build_driver("io", [("io.sml", text())], ["$/basis.cm"])
    return [pbt.Part("streams", gen, req, judge, n=(60000, 1500000), driver=lambda: pbt.Driver(IMG, args=[TMP]), rule="at least five operations after opening", nontrivial=lambda c: len(c[1]) > 7,
                     classify=lambda c: [c[0] + ("in" if c[1][0][0] == "src" else "out")] if os.environ.get("VERIF_SURVEY") else [c[0]] + sorted(set(o[0] for o in c[1])), show=lambda c: c[0] + ": " + "; ".join(flat(o) for o in c[1])[:3000], key=req),
            pbt.Part("end of the program", gen_leave, evaluate=eval_leave, n=(6000, 60000), batch=20, rule="at least two writes before the end", nontrivial=lambda c: sum(o[0] in "s1petb" for o in c[0]) > 1,
                     classify=lambda c: [c[0][-1][0], c[2]], show=lambda c: " ".join(x for o in c[0] for x in o)[:3000] + " input " + hx(c[1])[:500], key=lambda c: str(c))]


if __name__ == "__main__":
    pbt.main("C28", "a case is a history of operations on input or output streams over files, vectors and custom readers and writers; the model is the byte sequence", parts, [])
