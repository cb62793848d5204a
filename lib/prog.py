"""Running generated program texts on the freshly built system."""
import os, subprocess, tempfile
import vbuild, pbt

TMP = os.environ.get("TMPDIR", "/tmp")


def sml(text, timeout=120, args=(), env=None, name="t.sml", files=None, pre=(), stdin=None):
    """run the program text (as a file given to the interactive system); returns (rc or 'timeout', output)"""
    d = tempfile.mkdtemp(prefix="verif-", dir=TMP)
    try:
        for fn, t in (files or {}).items():
            p = os.path.join(d, fn)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(t.encode("latin-1") if isinstance(t, str) else t)
        cmd = [vbuild.TREE + "/bin/sml"] + list(pre)
        if text is not None:
            open(os.path.join(d, name), "wb").write(text.encode("latin-1") if isinstance(text, str) else text)
            cmd.append(name)
        cmd += list(args)
        p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             env=vbuild.env(env), start_new_session=True)
        try:
            out, _ = p.communicate(stdin, timeout=timeout)
            return p.returncode, out.decode("latin-1")
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            out, _ = p.communicate()
            return "timeout", out.decode("latin-1")
    finally:
        subprocess.run(["rm", "-rf", d])


def batch_eval(render, expected, prelude="", timeout=200, mark="=>", post=None):
    """returns an evaluate(ctx, cases) function: render(case, i) -> (declarations, name of a unit -> unit function which
       writes its answer with structure C); expected(case) -> string.  A whole batch is one program; if it does not
       give one answer per case it is split in halves until the culprit is alone."""
    from table import codec_text, Exn

    def ev(ctx, cases):
        src = [codec_text(), prelude, "\nstructure T = struct\n"]
        names = []
        for i, c in enumerate(cases):
            decls, fn = render(c, i)
            src.append(decls + "\n")
            names.append(fn)
        src.append("val all : (unit -> unit) list = [%s]\nend;\n" % ", ".join(names))
        src.append('val _ = List.app (fn f => TextIO.print ("%s" ^ C.answer f ^ "\\n")) T.all;\n' % mark)
        rc, out = sml("".join(src), timeout=timeout if len(cases) > 1 else min(timeout, 60))
        got = [l[len(mark):] for l in out.splitlines() if l.startswith(mark)]
        if len(got) != len(cases):
            if len(cases) == 1:
                return ["no result (rc %s): %s" % (rc, out[-700:])]
            h = len(cases) // 2
            return ev(ctx, cases[:h]) + ev(ctx, cases[h:])
        res = []
        for c, g in zip(cases, got):
            try:
                e = expected(c)
            except Exn as x:
                e = "!" + x.name
            if post:
                g = post(g)
            if callable(e):
                res.append(e(g))
            else:
                res.append(None if e == g else "expected %s, got %s" % (e, g))
        return res
    return ev
