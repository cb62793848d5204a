"""Builds the SML/NJ system under test from /repo's working tree into a private tree.

The private tree (/verif/.build/tree, git-ignored) is a content-synchronised mirror of the files git
tracks (or would track) in /repo.  It is rebuilt incrementally with the project's own machinery:
   * cmb-make (batch compiler, driven by the seed compiler in /opt/smlnj-boot) for the compiler,
     Basis and the libraries the compiler is linked from;
   * config/install.sh -nolib for the C runtime and the heap image;
   * all other libraries are compiled on demand by the freshly built compiler through CM path anchors
     which point at their sources in the private tree.
/repo itself is only read.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
TREE = os.path.join(WORK, "tree")
SEED = "/opt/smlnj-boot/amd64"
ARCH = "amd64-unix"

# what the compiler (the boot directory) is made of, besides base/
BASE_DEPS = ("base/", "smlnj-lib/", "MLRISC/", "ml-yacc/lib/", "ml-yacc/tool/", "ml-lex/tool/", "pgraph/",
             "asdl/src/lib/sml/", "trace-debug-profile/", "config/")
SKIP = ("doc/", "osx-dist/", "win-dist/", "unix-dist/", ".github/", "smlnj-lib/Doc/", "eXene/")


class BuildError(Exception):
    pass


def log(msg):
    print("[vbuild] " + msg, file=sys.stderr, flush=True)


def env(extra=None):
    e = {k: v for k, v in os.environ.items()
         if k in ("VERIF_SEED", "VERIF_TIER", "VERIF_REPO", "VERIF_BUILD", "TMPDIR")}
    e["HOME"] = "/root"
    e["LANG"] = "C.UTF-8"
    e["PATH"] = TREE + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CM_VERBOSE"] = "false"
    if os.path.exists(WORK + "/pathconfig"):
        e["CM_PATHCONFIG"] = WORK + "/pathconfig"
    if extra:
        e.update(extra)
    return e


def repo_files():
    p = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "-c", "-o",
                        "--exclude-standard"], stdout=subprocess.PIPE, check=True)
    out = []
    for f in sorted(set(p.stdout.decode("utf-8", "surrogateescape").split("\0"))):
        if f and not f.startswith(SKIP) and os.path.isfile(os.path.join(REPO, f)):
            out.append(f)
    return out


def sync():
    """Mirror REPO into TREE by content; returns the set of changed relative paths."""
    mf = os.path.join(WORK, "manifest.json")
    try:
        old = json.load(open(mf))
    except Exception:
        old = {}
    new, changed = {}, set()
    for f in repo_files():
        src, dst = os.path.join(REPO, f), os.path.join(TREE, f)
        with open(src, "rb") as h:
            data = h.read()
        ex = os.access(src, os.X_OK)
        hs = hashlib.sha1(data).hexdigest() + ("x" if ex else "")
        new[f] = hs
        if old.get(f) != hs or not os.path.exists(dst):
            changed.add(f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            if os.path.lexists(dst):
                os.remove(dst)
            with open(dst, "wb") as h:
                h.write(data)
            os.chmod(dst, 0o755 if ex else 0o644)
    for f in old:
        if f not in new:
            changed.add(f)
            try:
                os.remove(os.path.join(TREE, f))
            except OSError:
                pass
    return changed, new, mf


def run(cmd, cwd, logf, e=None, timeout=800, inp=None):
    with open(logf, "wb") as h:
        p = subprocess.run(cmd, cwd=cwd, stdout=h, stderr=subprocess.STDOUT, env=env(e), timeout=timeout,
                           stdin=subprocess.DEVNULL if inp is None else None,
                           input=inp)
    return p.returncode, open(logf, "rb").read().decode("utf-8", "replace")


def tail(t, n=25):
    return "\n".join(t.splitlines()[-n:])


def gen_parsers():
    """The six generated parsers/lexers of the compiler and version.sml (as the project's makeml does)."""
    t = os.path.join(WORK, "gen")
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    jobs = [("yacc", "base/cm/parse/cm.grm", ("sig", "sml")), ("lex", "base/cm/parse/cm.lex", ("sml",)),
            ("yacc", "base/compiler/Parse/parse/ml.grm", ("sig", "sml")),
            ("yacc", "base/compiler/Parse/parse/sml.grm", ("sig", "sml")),
            ("lex", "base/compiler/Parse/lex/ml.lex", ("sml",)),
            ("lex", "base/compiler/Parse/lex/sml.lex", ("sml",))]
    for kind, src, outs in jobs:
        b = os.path.basename(src)
        shutil.copy(os.path.join(TREE, src), os.path.join(t, b))
        cmd = [SEED + "/bin/ml-yacc", b] if kind == "yacc" else [SEED + "/bin/ml-ulex", "--ml-lex-mode", b]
        run(cmd, t, os.path.join(WORK, "gen.log"), {"CM_PATHCONFIG": SEED + "/lib/pathconfig"})
        for s in outs:
            g = os.path.join(t, b + "." + s)
            if not os.path.exists(g) or os.path.getsize(g) == 0:
                raise BuildError("no %s.%s generated" % (src, s))
            put(os.path.join(TREE, src + "." + s), open(g, "rb").read())
    v = open(os.path.join(TREE, "config/version")).readline().strip()
    d = open(os.path.join(TREE, "config/releasedate")).readline().strip()
    v, _, suf = v.partition("-")
    tm = open(os.path.join(TREE, "base/system/smlnj/internal/version.template")).read()
    tm = tm.replace("%V", v.replace(".", ","), 1).replace("%S", suf).replace("%D", d).replace("%F", "version.sml")
    put(os.path.join(TREE, "base/system/smlnj/internal/version.sml"), tm.encode())
    shutil.rmtree(t, ignore_errors=True)


def put(path, data):
    if os.path.exists(path) and open(path, "rb").read() == data:
        return
    with open(path, "wb") as h:
        h.write(data)


def dir_hash(d):
    h = hashlib.sha1()
    for root, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, d).encode())
            h.update(open(p, "rb").read())
    return h.hexdigest()


def rmtree(p):
    if os.path.lexists(p):
        shutil.rmtree(p, ignore_errors=True)


def wipe_cm(top):
    for root, ds, fs in os.walk(top):
        if ".cm" in ds:
            shutil.rmtree(os.path.join(root, ".cm"), ignore_errors=True)
            ds.remove(".cm")
        if root == top and "base" in ds:
            ds.remove("base")
            rmtree(os.path.join(top, "base/old-basis/.cm"))


LIB_ANCHORS = {
    "basis-2004.cm": "base/old-basis/2004", "unix-lib.cm": "smlnj-lib/Unix",
    "hash-cons-lib.cm": "smlnj-lib/HashCons", "html-lib.cm": "smlnj-lib/HTML",
    "html4-lib.cm": "smlnj-lib/HTML4", "inet-lib.cm": "smlnj-lib/INet", "json-lib.cm": "smlnj-lib/JSON",
    "pp-extras-lib.cm": "smlnj-lib/PP", "regexp-lib.cm": "smlnj-lib/RegExp",
    "reactive-lib.cm": "smlnj-lib/Reactive", "sexp-lib.cm": "smlnj-lib/SExp", "uuid-lib.cm": "smlnj-lib/UUID",
    "xml-lib.cm": "smlnj-lib/XML", "cml": "cml/src", "cml-lib": "cml/cml-lib/cm-descr",
    "ckit-lib.cm": "ckit/src", "ml-lpt-lib.cm": "ml-lpt/lib",
    "ml-ulex-tool.cm": "ml-lpt/ml-ulex/tool", "ml-antlr-tool.cm": "ml-lpt/ml-antlr/tool",
    "mllex-tool.cm": "ml-lpt/ml-ulex/tool", "lex-ext.cm": "ml-lex/tool",
    "mlyacc-tool.cm": "ml-yacc/tool", "grm-ext.cm": "ml-yacc/tool",
    "mlburg-tool.cm": "ml-burg/tool", "burg-ext.cm": "ml-burg/tool",
    "OTHER-MLRISC": "MLRISC/cm", "Control.cm": "SMLNJ-MLRISC", "Lib.cm": "SMLNJ-MLRISC",
    "Visual.cm": "SMLNJ-MLRISC", "MLRISC.cm": "SMLNJ-MLRISC", "MLTREE.cm": "SMLNJ-MLRISC",
    "Graphs.cm": "SMLNJ-MLRISC", "RA.cm": "MLRISC/cm",
    "asdl-lib.cm": "asdl/src/lib/sml",
}


def write_pathconfig():
    lines = {}
    for l in open(os.path.join(TREE, "lib/pathconfig")):
        w = l.split(None, 1)
        if len(w) == 2:
            p = w[1].strip()
            if not os.path.isabs(p):
                p = os.path.normpath(os.path.join(TREE, "lib", p))
            lines[w[0]] = p
    for a, d in LIB_ANCHORS.items():
        if d == "SMLNJ-MLRISC":
            lines[a] = os.path.join(TREE, "lib/SMLNJ-MLRISC")
        else:
            lines[a] = os.path.join(TREE, d)
    for a, d in (("basis.cm", "basis"), ("controls-lib.cm", "smlnj-lib"), ("ml-yacc-lib.cm", "ml-yacc"),
                 ("pp-lib.cm", "smlnj-lib"), ("smlnj-lib.cm", "smlnj-lib")):
        lines[a] = os.path.join(TREE, "lib/smlnj", d)
    lines["smlnj-tdp"] = lines.get("smlnj-tdp", os.path.join(TREE, "trace-debug-profile"))
    lines["bindir"] = os.path.join(TREE, "bin")
    put(os.path.join(WORK, "pathconfig"), "".join("%s %s\n" % kv for kv in sorted(lines.items())).encode())


def build_base(clean):
    boot = os.path.join(TREE, "base/system/sml.boot." + ARCH)
    if clean:
        rmtree(os.path.join(TREE, "base/system/sml.bin." + ARCH))
        for root, ds, fs in os.walk(os.path.join(TREE, "base")):
            if ".cm" in ds:
                shutil.rmtree(os.path.join(root, ".cm"), ignore_errors=True)
                ds.remove(".cm")
    gen_parsers()
    rmtree(boot)
    lf = os.path.join(WORK, "cmb.log")
    rc, out = run(["./cmb-make", "-64", SEED + "/bin/sml"], TREE + "/base/system", lf,
                  {"CM_PATHCONFIG": SEED + "/lib/pathconfig",
                   "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"})
    if "New boot directory has been built" not in out or "Error:" in out or not os.path.exists(boot + "/BOOTLIST"):
        raise BuildError("compiling the compiler failed:\n" + tail(out))
    return dir_hash(boot)


def build_runtime_and_heap(runtime, bootkey):
    for d in ("bin", "lib", "sml.boot." + ARCH):
        if d == "bin" and not runtime and os.path.exists(TREE + "/bin/.run"):
            # keep the runtime, drop the heap
            for x in os.listdir(TREE + "/bin"):
                if x != ".run":
                    p = TREE + "/bin/" + x
                    rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
        else:
            rmtree(os.path.join(TREE, d))
    shutil.copytree(os.path.join(TREE, "base/system/sml.boot." + ARCH), os.path.join(TREE, "sml.boot." + ARCH))
    if os.path.exists(WORK + "/pathconfig"):
        os.remove(WORK + "/pathconfig")
    if runtime:
        objs = TREE + "/base/runtime/objs"
        subprocess.run("make clean; rm -f run.* runx.*", shell=True, cwd=objs, env=env(),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    rc, out = run(["config/install.sh", "-64", "-nolib"], TREE, os.path.join(WORK, "install.log"),
                  {"MAKEFLAGS": ""})
    if rc != 0 or not os.path.exists(TREE + "/bin/sml") or not os.path.isdir(TREE + "/bin/.heap"):
        raise BuildError("installing runtime and heap failed:\n" + tail(out))
    write_pathconfig()


def state_path():
    return os.path.join(WORK, "state.json")


def load_state():
    try:
        return json.load(open(state_path()))
    except Exception:
        return {}


def save_state(s):
    with open(state_path() + ".tmp", "w") as h:
        json.dump(s, h)
    os.replace(state_path() + ".tmp", state_path())


def ensure():
    """Bring the private tree up to date with REPO.  Raises BuildError if REPO does not build."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            return _ensure(False)
        except BuildError as e:
            log("incremental build failed (%s); building from scratch" % str(e)[:300])
            return _ensure(True)


def _ensure(clean):
    t0 = time.time()
    if clean:
        rmtree(TREE)
        for f in ("manifest.json", "state.json", "pathconfig"):
            if os.path.exists(os.path.join(WORK, f)):
                os.remove(os.path.join(WORK, f))
        rmtree(os.path.join(WORK, "drv"))
        rmtree(os.path.join(WORK, "tools"))
    os.makedirs(TREE, exist_ok=True)
    st = load_state()
    changed, new, mf = sync()
    if changed:
        st.setdefault("dirty", [])
        st["dirty"] = sorted(set(st["dirty"]) | changed)
        save_state(st)
        with open(mf + ".tmp", "w") as h:
            json.dump(new, h)
        os.replace(mf + ".tmp", mf)
    dirty = st.get("dirty", [])
    if not dirty and st.get("ok") and os.path.exists(TREE + "/bin/sml"):
        return
    need_base = not st.get("boot") or any(f.startswith(BASE_DEPS) and not f.startswith("base/runtime/")
                                          for f in dirty)
    need_rt = not st.get("rt") or any(f.startswith(("base/runtime/", "config/")) for f in dirty)
    bk = st.get("boot")
    if need_base or not os.path.isdir(os.path.join(TREE, "base/system/sml.boot." + ARCH)):
        old = bk
        st["boot"] = None
        save_state(st)
        bk = build_base(clean)
        log("compiler built (%.0f s)%s" % (time.time() - t0, "" if bk != old else " [unchanged]"))
        if bk != old:
            wipe_cm(TREE)
            st["heap"] = None
            rmtree(os.path.join(WORK, "drv"))
            rmtree(os.path.join(WORK, "tools"))
        st["boot"] = bk
    if need_rt or st.get("heap") != bk or not os.path.exists(TREE + "/bin/sml"):
        st["rt"] = None
        st["heap"] = None
        save_state(st)
        build_runtime_and_heap(need_rt, bk)
        log("runtime and heap built (%.0f s)" % (time.time() - t0))
        st["rt"] = True
        st["heap"] = bk
        # heap images of drivers and tools embed the runtime's view of the world
        rmtree(os.path.join(WORK, "drv"))
        rmtree(os.path.join(WORK, "tools"))
    if any(f.startswith(("ml-yacc/", "ml-lex/", "ml-lpt/", "ml-burg/", "smlnj-lib/", "heap2asm/", "asdl/"))
           for f in dirty):
        rmtree(os.path.join(WORK, "tools"))
    st["dirty"] = []
    st["ok"] = True
    save_state(st)
    log("tree up to date (%.0f s)" % (time.time() - t0))


if __name__ == "__main__":
    try:
        ensure()
    except BuildError as e:
        print(e)
        sys.exit(2)
