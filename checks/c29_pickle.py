"""Values written with Unsafe.blastWrite and read with blastRead (part of C29)."""
import os, tempfile
import pbt, vbuild
from table import codec_text, gen_inf, gen_real, gen_str, hexs, f2h, edge_int

SML = r"""
structure Main = struct
  datatype v = I of int | W of Word64.word | R of real | S of string | Z of IntInf.int | N | T of v * v * v | L of v list | V of v vector
    | X of v ref | A of v array | B of Word8Array.array | D of Real64Array.array | P of int list | Q of (int * real * string) list | U of Word8Vector.vector
    | O of v option | Y of Word32.word * char * bool * Int32.int
  structure GC = SMLofNJ.Internals.GC
  fun build () = let
        val n = C.int ()
        val a = Array.array (n, N)
        val todo = ref ([] : (unit -> unit) list)
        fun get () = Array.sub (a, C.int ())
        fun node i = Array.update (a, i, case C.tok ()
           of "i" => I (C.int ()) | "w" => W (C.w64 ()) | "r" => R (C.real ()) | "s" => S (C.str ()) | "z" => Z (C.inf ()) | "n" => N
            | "t" => T (get (), get (), get ()) | "l" => L (C.list get ()) | "v" => V (Vector.fromList (C.list get ()))
            | "o" => O (SOME (get ())) | "k" => O NONE
            | "y" => Y (C.w32 (), C.chr (), C.bool (), Int32.fromLarge (C.inf ()))
            | "x" => let val r = ref N val k = C.int () in todo := (fn () => r := Array.sub (a, k)) :: !todo; X r end
            | "a" => let val l = C.list C.int () val r = Array.array (List.length l, N)
                in todo := (fn () => ignore (List.foldl (fn (k, j) => (Array.update (r, j, Array.sub (a, k)); j+1)) 0 l)) :: !todo; A r end
            | "b" => B (Word8Array.fromList (List.map (Word8.fromInt o Char.ord) (String.explode (C.str ()))))
            | "u" => U (Byte.stringToBytes (C.str ()))
            | "S" => let val k = C.int () val c = C.int () in S (CharVector.tabulate (k, fn j => Char.chr ((c + j * 7) mod 256))) end
            | "d" => D (Real64Array.fromList (C.list C.real ()))
            | "p" => let val k = C.int () in P (List.tabulate (k, fn j => j * j)) end
            | "q" => let val k = C.int () in Q (List.tabulate (k, fn j => (j, real j, Int.toString j))) end
            | "g" => (GC.doGC (C.int ()); N)
            | t => raise C.Protocol t)
        fun lp i = if i = n then () else (node i; lp (i+1))
        in lp 0; List.app (fn f => f ()) (!todo); Array.sub (a, n-1) end
  fun dump v = let
        val budget = ref 3000
        val seen = ref ([] : (v ref * int) list) and seenA = ref ([] : (v array * int) list) and seenB = ref ([] : (Word8Array.array * int) list)
        val cnt = ref 0
        fun find (l, x) = let fun f [] = (cnt := !cnt + 1; l := (x, !cnt) :: !l; NONE) | f ((y, k) :: r) = if x = y then SOME k else f r in f (!l) end
        fun t s = C.out := s :: !C.out
        fun d v = if !budget = 0 then () else (budget := !budget - 1; case v
           of I n => (t "i"; C.wint n) | W w => (t "w"; C.ww64 w) | R r => (t "r"; C.wreal r) | S s => (t "s"; C.wstr s) | Z z => (t "z"; C.winf z)
            | N => t "n" | T (x, y, z) => (t "t"; d x; d y; d z) | L l => (t "l"; C.wint (List.length l); List.app d l)
            | V l => (t "v"; C.wint (Vector.length l); Vector.app d l) | O NONE => t "k" | O (SOME x) => (t "o"; d x)
            | Y (w, c, b, i) => (t "y"; C.ww32 w; C.wchr c; C.wbool b; C.winf (Int32.toLarge i))
            | X r => (case find (seen, r) of SOME k => (t "="; C.wint k) | NONE => (t "x"; d (!r)))
            | A r => if Array.length r = 0 then t "a0" else (case find (seenA, r) of SOME k => (t "="; C.wint k) | NONE => (t "a"; C.wint (Array.length r); Array.app d r))
            | B r => if Word8Array.length r = 0 then t "b0" else (case find (seenB, r) of SOME k => (t "="; C.wint k) | NONE => (t "b"; C.wstr (Byte.bytesToString (Word8Array.vector r))))
            | U u => (t "u"; C.wstr (Byte.bytesToString u))
            | D r => (t "d"; C.wint (Real64Array.length r); Real64Array.app C.wreal r)
            | P l => (t "p"; C.wint (List.length l); C.wint (List.foldl op+ 0 l))
            | Q l => (t "q"; C.wint (List.length l); C.wint (List.foldl (fn ((i, r, s), a) => a + i + floor r + size s) 0 l)))
        in d v; t "|" end
  (* the copy is independent of the original *)
  fun spoil (X r) = r := N | spoil (A r) = Array.modify (fn _ => N) r | spoil (T (a, b, c)) = (spoil a; spoil b; spoil c) | spoil (L l) = List.app spoil l
    | spoil (V l) = Vector.app spoil l | spoil (B r) = Word8Array.modify (fn _ => 0w7) r | spoil (D r) = Real64Array.modify (fn _ => 7.0) r | spoil (O (SOME v)) = spoil v
    | spoil _ = ()
  fun writeF (f, b) = let val h = BinIO.openOut f in BinIO.output (h, b); BinIO.closeOut h end
  fun readF f = let val h = BinIO.openIn f in BinIO.inputAll h before BinIO.closeIn h end
  fun gc 0 = () | gc k = GC.doGC (k - 1)
  val main = C.main (fn () => case C.tok ()
     of "W" => let val f = C.str () val g = C.int () val v = build () val _ = gc g val b = Unsafe.blastWrite v
          in writeF (f, b); dump v;
             let val c : v = Unsafe.blastRead b val _ = gc g in dump c; spoil c end;
             let val e : v = Unsafe.blastRead b in dump e; dump v end end
      | "R" => let val f = C.str () val g = C.int () val v : v = Unsafe.blastRead (readF f) in gc g; dump v end
      | t => raise C.Protocol t)
end
"""


def gen(s):
    """nodes: a letter with literal data or with indices of other nodes (later ones only from refs and arrays)"""
    n = 1 + s.size(0, 40)
    out = []
    big = 0
    for i in range(n):
        k = s.weighted([(2, "i"), (1, "w"), (2, "r"), (3, "s"), (2, "z"), (1, "n"), (1, "u"), (2, "b"), (2, "d"), (1, "S"), (1, "p"), (1, "q"), (1, "g"), (1, "k"), (1, "y"), (4, "x"), (4, "a")]
                       + ([(5, "t"), (3, "l"), (3, "v"), (2, "o")] if i else []))
        prev = lambda: i - 1 - s.size(0, i - 1)
        if k == "i":
            out.append((k, edge_int(s, -2**62, 2**62 - 1)))
        elif k == "w":
            out.append((k, s.draw(2**64)))
        elif k == "r":
            out.append((k, gen_real(s)))
        elif k in "su":
            out.append((k, gen_str(s, 40)))
        elif k == "b":
            out.append((k, gen_str(s, 40)))
        elif k == "z":
            out.append((k, gen_inf(s)))
        elif k == "t":
            out.append((k, prev(), prev(), prev()))
        elif k in "lv":
            out.append((k, [prev() for _ in range(s.draw(6))]))
        elif k == "o":
            out.append((k, prev()))
        elif k == "x":
            out.append((k, s.draw(n)))
        elif k == "a":
            out.append((k, [s.draw(n) for _ in range(s.choice([0, 1, 2, 5, 12]))]))
        elif k == "d":
            out.append((k, [gen_real(s) for _ in range(s.draw(5))]))
        elif k in "Spq":
            m = s.choice({"S": [0, 7, 8, 9, 100, 511, 512, 1000, 4096, 20000, 60000], "p": [0, 1, 10, 500, 3000], "q": [0, 1, 10, 200, 800]}[k])
            big += m * {"S": 1, "p": 24, "q": 90}[k]
            if big > 150000:
                m = 3
            out.append((k, m, s.draw(256)) if k == "S" else (k, m))
        elif k == "g":
            out.append((k, s.draw(5)))
        elif k == "y":
            out.append((k, s.draw(2**32), s.draw(256), s.draw(2), edge_int(s, -2**31, 2**31 - 1)))
        else:
            out.append((k,))
    return (out, s.draw(6), s.draw(6))


def nodes(c):
    t = [str(len(c))]
    for o in c:
        k = o[0]
        t.append(k)
        if k == "w":
            t.append("%016x" % o[1])
        elif k == "r":
            t.append(f2h(o[1]).replace("nan", "7ff8000000000000"))
        elif k in "sub":
            t.append(hexs(o[1]))
        elif k in "lva":
            t += [str(len(o[1]))] + [str(x) for x in o[1]]
        elif k == "d":
            t += [str(len(o[1]))] + [f2h(x).replace("nan", "7ff8000000000000") for x in o[1]]
        elif k == "y":
            t += ["%016x" % o[1]] + [str(x) for x in o[2:]]
        else:
            t += [str(x) for x in o[1:]]
    return " ".join(t)


def model(c):
    out, seen, st = [], {}, [3000]

    def d(i):
        if st[0] == 0:
            return
        st[0] -= 1
        o = c[i]
        k = o[0]
        if k in ("g", "n"):
            out.append("n")
        elif k in "iz":
            out.extend([k, str(o[1])])
        elif k == "w":
            out.extend([k, "%016x" % o[1]])
        elif k == "r":
            out.extend([k, f2h(o[1])])
        elif k in "su":
            out.extend([k, hexs(o[1])])
        elif k == "S":
            out.extend(["s", "s" + bytes((o[2] + j * 7) % 256 for j in range(o[1])).hex()])
        elif k == "t":
            out.append("t")
            d(o[1]), d(o[2]), d(o[3])
        elif k in "lv":
            out.extend([k, str(len(o[1]))])
            for x in o[1]:
                d(x)
        elif k == "o":
            out.append("o")
            d(o[1])
        elif k == "k":
            out.append("k")
        elif k == "y":
            out.extend([k, "%016x" % o[1], str(o[2]), str(o[3]), str(o[4])])
        elif k == "d":
            out.extend([k, str(len(o[1]))] + [f2h(x) for x in o[1]])
        elif k == "p":
            out.extend([k, str(o[1]), str(sum(j * j for j in range(o[1])))])
        elif k == "q":
            out.extend([k, str(o[1]), str(sum(2 * j + len(str(j)) for j in range(o[1])))])
        else:
            if k in "ab" and not o[1]:
                out.append(k + "0")
                return
            if i in seen:
                out.extend(["=", str(seen[i])])
                return
            seen[i] = len(seen) + 1
            if k == "x":
                out.append("x")
                d(o[1])
            elif k == "b":
                out.extend(["b", hexs(o[1])])
            else:
                out.extend(["a", str(len(o[1]))])
                for x in o[1]:
                    d(x)
    d(len(c) - 1)
    out.append("|")
    return " ".join(out)


def nrm(t):
    return " ".join("nan" if len(x) == 16 and x[:3] in ("7ff", "fff") and int(x, 16) & 0xfffffffffffff and int(x, 16) & 0x7ff0000000000000 == 0x7ff0000000000000 else x for x in t.split(" "))


class Two:
    def __init__(self, img):
        self.a, self.b = pbt.Driver(img), pbt.Driver(img, args=["@SMLalloc=2M"])
        self.d = None

    def stop(self):
        self.a.stop()
        self.b.stop()


def evaluate(two, cases):
    with tempfile.TemporaryDirectory(prefix="verif-") as d:
        fs = ["%s/%d" % (d, i) for i in range(len(cases))]
        w = two.a.batch(["W %s %d %s" % (hexs(f), c[1], nodes(c[0])) for f, c in zip(fs, cases)])
        r = two.b.batch(["R %s %d" % (hexs(f), c[2]) if os.path.exists(f) else "R s2f 0" for f, c in zip(fs, cases)])
    res = []
    for c, x, y in zip(cases, w, r):
        m = nrm(model(c[0]))
        x, y = nrm(x), nrm(y)
        e = None
        if x != " ".join([m] * 4):
            p = x.split(" |")
            names = ["the value before it is written", "the value read back", "the value read a second time, after the first copy was changed", "the original, after the copy was changed"]
            e = "the writing process: " + x[:300]
            for nm, q in zip(names, p):
                if q.strip() + " |" != m:
                    e = "%s is %s; expected %s" % (nm, q.strip()[:400], m[:400])
                    break
        elif y != m:
            e = "the value read in another process is %s; expected %s" % (y[:400], m[:400])
        res.append(e)
    return res


def part():
    img = pbt.build_driver("pickle", [("codec.sml", codec_text()), ("main.sml", SML)], ["$/basis.cm"])
    return pbt.Part("pickles", gen, evaluate=evaluate, n=(16000, 500000), batch=50, driver=lambda: Two(img), show=lambda c: "%s, collections %d and %d" % (c[0], c[1], c[2]), key=str,
                    rule="at least five nodes, one of them mutable", nontrivial=lambda c: len(c[0]) > 4 and any(o[0] in "xabd" for o in c[0]), classify=lambda c: sorted(set(o[0] for o in c[0])))
