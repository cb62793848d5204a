"""C01: compiled programs compute what the Definition says."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mlgen, pbt, prog, vbuild

sys.setrecursionlimit(20000)
CONFIGS = [[], [], [], [], ["Control.FLINT.inlineThreshold := 0"], ["Control.FLINT.inlineThreshold := 60", "Control.FLINT.unrollThreshold := 60"],
           ["Control.FLINT.specialize := false"], ["Control.FLINT.dropinvariant := false"], ["Control.FLINT.maxargs := 2"], ["Control.FLINT.maxargs := 12"],
           ['Control.FLINT.phases := ["wrap", "reify"]'], ['Control.FLINT.phases := ["lcontract", "wrap", "reify", "fcontract"]'],
           ["Control.FLINT.sharewrap := false"]]
HEAPS = [[], [], ["@SMLalloc=128k"], ["@SMLalloc=256k", "@SMLngens=2"]]


class Case:
    pass


def gen(s):
    c = Case()
    c.cfg = s.draw(len(CONFIGS))
    c.heap = s.draw(len(HEAPS))
    p = mlgen.Prog(s)
    c.mode = p.mode
    c.skip = False
    try:
        it = mlgen.Interp(p)
        c.want = it.run()
        c.steps = it.FUEL - it.fuel
    except (mlgen.Fuel, RecursionError, OverflowError):
        c.skip, c.want, c.steps = True, "", 0
        p.out = []
    c.text = mlgen.render(p)
    return c


def session(cases):
    """the programs of one session share the compiler settings and the heap shape of the first"""
    files = {"p%d.sml" % i: c.text for i, c in enumerate(cases)}
    src = mlgen.PRELUDE + "".join("val _ = %s;\n" % x for x in ["Control.MC.matchRedundantError := false", "Control.Print.signatures := 0"] + CONFIGS[cases[0].cfg])
    src += "".join('val _ = S.prog "p%d.sml";\n' % i for i in range(len(cases)))
    return prog.sml(src, timeout=120, files=files, args=HEAPS[cases[0].heap])


def evaluate(ctx, cases):
    res = [None] * len(cases)
    groups = {}
    for i, c in enumerate(cases):
        if not c.skip:
            groups.setdefault((c.cfg, c.heap), []).append(i)

    def go(ix):
        cs = [cases[i] for i in ix]
        rc, out = session(cs)
        got = [l[2:] for l in out.splitlines() if l.startswith("=>")]
        if rc != 0 or len(got) != len(cs):
            if len(cs) == 1:
                res[ix[0]] = "no outcome (status %s): %s" % (rc, out[-600:])
                return
            h = len(ix) // 2
            go(ix[:h])
            go(ix[h:])
            return
        for i, c, g in zip(ix, cs, got):
            if g != c.want:
                k = next((j for j, (a, b) in enumerate(zip(g.split(" "), c.want.split(" "))) if a != b), min(len(g.split(" ")), len(c.want.split(" "))))
                res[i] = "outcome differs at item %d: %s; expected %s%s" % (k, " ".join(g.split(" ")[k:k + 3])[:300], " ".join(c.want.split(" ")[k:k + 3])[:300],
                                                                          ("; " + "".join(l for l in out.splitlines() if "Error" in l)[:400]) if len(cs) == 1 else "")
    for ix in groups.values():
        go(ix)
    return res


def show(c):
    return "[%s; %s; %s]\n%s" % (c.mode, CONFIGS[c.cfg], HEAPS[c.heap], c.text)


def parts():
    return [pbt.Part("programs", gen, evaluate=evaluate, n=(2600, 60000), batch=60, show=show, key=lambda c: c.text, nontrivial=lambda c: not c.skip and c.steps > 30,
                     classify=lambda c: [c.mode if not c.skip else "discarded (too long)", "raises" if c.want.rpartition(" ")[2].startswith("!") else "returns"],
                     rule="the reference interpreter needs more than 30 steps", shrink_budget=250)]


if __name__ == "__main__":
    pbt.main("C01", "a case is one generated program, presented in one of four ways under one setting of the optimiser and the heap; it counts when it takes more than 30 steps",
             parts, ["the reference interpreter (lib/mlgen.py) is an independent reading of the Definition; programs are bounded in size and recursion depth"])
