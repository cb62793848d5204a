"""A small property-based-testing engine: choice-sequence generators with integrated shrinking (in the style of
Hypothesis), batch execution of the generated cases on the real system through pipes, several workers, evidence."""
import hashlib, json, multiprocessing as mp, os, random, selectors, signal, subprocess, sys, tempfile, threading, time, traceback
import vbuild

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SURVEY = bool(os.environ.get("VERIF_SURVEY"))   # development aid: list all kinds of failures of a part
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
VERIF = vbuild.VERIF
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))


def tier(q, t):
    return q if TIER == "quick" else t


# ------------------------------------------------------------------ choices

class Src:
    """Source of choices.  Random, or replaying a recorded choice sequence (missing choices are 0)."""
    __slots__ = ("rng", "pre", "i", "rec")

    def __init__(self, rng=None, pre=None):
        self.rng = rng
        self.pre = pre
        self.i = 0
        self.rec = []

    def draw(self, n):
        """an integer in [0, n); 0 is the simplest"""
        if n <= 1:
            return 0
        if self.pre is not None:
            v = self.pre[self.i] if self.i < len(self.pre) else 0
            if v >= n:
                v = n - 1
            self.i += 1
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def chance(self, p_num, p_den):
        """True with probability p_num/p_den; False is simplest"""
        return self.draw(p_den) >= p_den - p_num

    def choice(self, xs):
        return xs[self.draw(len(xs))]

    def weighted(self, pairs):
        """pairs (weight, value); the first value is simplest"""
        tot = sum(w for w, _ in pairs)
        k = self.draw(tot)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        return pairs[-1][1]

    def int(self, lo, hi):
        """uniform in [lo, hi], simplest = the value nearest 0"""
        if lo <= 0 <= hi:
            k = self.draw(hi - lo + 1)
            # 0, 1, 2 .. hi, -1 .. lo
            return k if k <= hi else hi - k
        if lo > 0:
            return lo + self.draw(hi - lo + 1)
        return hi - self.draw(hi - lo + 1)

    def size(self, lo, hi):
        """a size, biased to small values"""
        if hi <= lo:
            return lo
        k = self.draw(4)
        if k == 0:
            return lo + self.draw(min(hi - lo, 3) + 1)
        if k <= 2:
            return lo + self.draw(min(hi - lo, 12) + 1)
        return lo + self.draw(hi - lo + 1)

    def list(self, f, lo=0, hi=20):
        n = self.size(lo, hi)
        return [f(self) for _ in range(n)]


def edge_int(s, lo, hi):
    """boundary biased integer of a fixed range"""
    k = s.draw(10)
    if k == 0:
        return max(lo, min(hi, s.int(-3, 12)))
    if k == 1:
        return max(lo, min(hi, s.int(-300, 300)))
    if k == 2:
        return hi - s.draw(4)
    if k == 3:
        return lo + s.draw(4)
    if k in (4, 5):       # near a power of two
        b = max(abs(lo), abs(hi)).bit_length()
        v = (1 << s.draw(b + 1)) + s.int(-2, 2)
        if s.draw(2) and lo < 0:
            v = -v
        return max(lo, min(hi, v))
    if k in (6, 7):       # random magnitude
        b = max(abs(lo), abs(hi)).bit_length()
        v = s.draw(1 << s.draw(b + 1))
        if s.draw(2) and lo < 0:
            v = -v
        return max(lo, min(hi, v))
    if k == 8:            # near sqrt of the range / divisors
        b = max(abs(lo), abs(hi)).bit_length()
        v = (1 << ((b + 1) // 2)) + s.int(-40, 40)
        if s.draw(2) and lo < 0:
            v = -v
        return max(lo, min(hi, v))
    return lo + s.draw(hi - lo + 1)


# ------------------------------------------------------------------ SML driver processes

class Died(Exception):
    pass


class DriverBuildError(Exception):
    pass


def build_driver(name, files, libs, main="Main.main", extra_files=None):
    """files: list of (filename, text) in order; returns path prefix of the heap image."""
    d = os.path.join(vbuild.WORK, "drv", name)
    os.makedirs(d, exist_ok=True)
    for fn, text in list(files) + list(extra_files or []):
        p = os.path.join(d, fn)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        vbuild.put(p, text.encode() if isinstance(text, str) else text)
    cm = "Group is\n" + "".join("  %s\n" % l for l in libs) + "".join("  %s\n" % f for f, _ in files)
    vbuild.put(os.path.join(d, "sources.cm"), cm.encode())
    logf = os.path.join(vbuild.WORK, name + ".drv.log")
    for attempt in (0, 1):
        img = os.path.join(d, "image")
        for x in os.listdir(d):
            if x.startswith("image."):
                os.remove(os.path.join(d, x))
        try:
            rc, out = vbuild.run([vbuild.TREE + "/bin/ml-build", "sources.cm", main, "image"], d, logf, timeout=500)
        except subprocess.TimeoutExpired:
            rc, out = 99, "timeout while compiling the driver"
        if rc == 0 and os.path.exists(img + ".amd64-linux"):
            return img
        subprocess.run(["rm", "-rf", os.path.join(d, ".cm")])
    raise DriverBuildError("driver %s does not compile:\n%s" % (name, vbuild.tail(out, 40)))


class Driver:
    """One SML process serving the line protocol."""

    def __init__(self, img, args=(), timeout=60, env=None, cwd=None):
        self.cmd = [vbuild.TREE + "/bin/sml", "@SMLload=" + img] + list(args)
        self.timeout = timeout
        self.env = vbuild.env(env)
        self.cwd = cwd
        self.p = None

    def start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=self.env, cwd=self.cwd)
        os.set_blocking(self.p.stdout.fileno(), False)
        os.set_blocking(self.p.stdin.fileno(), False)
        self.rbuf = b""

    def stop(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            except Exception:
                pass
            self.p = None

    def batch(self, reqs):
        """answers, one per request; a string "#died ..." / "#hang" stands for a request the process did not survive"""
        out = []
        k = 0
        while k < len(reqs):
            got, status = self._batch(reqs[k:])
            out.extend(got)
            k += len(got)
            if k < len(reqs):
                out.append(status)
                k += 1
                self.stop()
        return out

    def _batch(self, reqs):
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        data = memoryview("".join(r + "\n" for r in reqs).encode("latin-1"))
        fi, fo = self.p.stdin.fileno(), self.p.stdout.fileno()
        sel = selectors.DefaultSelector()
        sel.register(fo, selectors.EVENT_READ)
        if data:
            sel.register(fi, selectors.EVENT_WRITE)
        off = 0
        lines = []
        last = time.monotonic()
        status = None
        while len(lines) < len(reqs):
            evs = sel.select(1.0)
            now = time.monotonic()
            for key, _ in evs:
                if key.fd == fi:
                    try:
                        off += os.write(fi, data[off:off + 65536])
                    except BlockingIOError:
                        pass
                    except (BrokenPipeError, OSError):
                        off = len(data)
                    if off >= len(data):
                        sel.unregister(fi)
                else:
                    try:
                        b = os.read(fo, 1 << 16)
                    except BlockingIOError:
                        continue
                    if not b:
                        self.p.wait()
                        status = "#died rc=%s" % self.p.returncode
                        break
                    self.rbuf += b
                    if b"\n" in b:
                        ls = self.rbuf.split(b"\n")
                        self.rbuf = ls.pop()
                        lines.extend(x.decode("latin-1") for x in ls)
                        last = now
            if status:
                break
            if now - last > self.timeout:
                status = "#hang (no answer in %d s)" % self.timeout
                break
        sel.close()
        return lines[:len(reqs)], status

    def one(self, req):
        return self.batch([req])[0]


# ------------------------------------------------------------------ parts

class Part:
    """One generated check.  Subclass or pass functions.
       gen(src)            -> case
       req(case)           -> request line
       judge(case, answer) -> None if the property held, else a message
       nontrivial(case)    -> bool
       show(case)          -> printable form
       key(case)           -> hashable identity (default: request line)"""

    def __init__(self, name, gen, req=None, judge=None, n=(2000, 20000), nontrivial=None, show=None, driver=None,
                 batch=200, evaluate=None, classify=None, jobs=None, setup=None, key=None, shrink_budget=400,
                 rule="", known=None, shrink_time=90, racy=0):
        self.racy = racy        # a schedule cannot be replayed exactly: two failures in that many replays are believed
        self.name = name
        self.gen, self._req, self._judge = gen, req, judge
        self.n = n
        self.nontrivial = nontrivial or (lambda c: True)
        self.show = show or (lambda c: c)
        self.driver = driver
        self.batchsize = batch
        self._evaluate = evaluate
        self.classify = classify
        self.jobs = jobs
        self.setup = setup
        self.key = key
        self.shrink_budget = shrink_budget
        self.shrink_time = shrink_time
        self.rule = rule
        self.known = known        # (case, msg) -> finding id or None

    def count(self):
        return self.n[0] if TIER == "quick" else self.n[1]

    def evaluate(self, ctx, cases):
        """list of None / message, for each case"""
        if self._evaluate:
            return self._evaluate(ctx, cases)
        reqs = [self._req(c) for c in cases]
        ans = ctx.batch(reqs)
        out = []
        for c, a in zip(cases, ans):
            if a.startswith("#"):
                out.append("the system under test %s" % a[1:])
                continue
            try:
                out.append(self._judge(c, a))
            except Exception as e:
                out.append("unreadable answer %r (%s: %s)" % (a[:400], type(e).__name__, e))
        return out


def _rng(seed, part, k):
    h = hashlib.sha256(("%d/%s/%d" % (seed, part, k)).encode()).digest()
    return random.Random(int.from_bytes(h, "big"))


def _shrink(part, ctx, choices, budget):
    """greedy minimisation of the choice sequence, keeping some failure"""
    evals = [0]
    t0 = time.monotonic()
    best = list(choices)

    def attempt(ch):
        nonlocal best
        if evals[0] >= budget or time.monotonic() - t0 > part.shrink_time:
            return False
        evals[0] += 1
        s = Src(pre=ch)
        try:
            c = part.gen(s)
        except Exception:
            return False
        if (len(s.rec), s.rec) >= (len(best), best):
            return False
        try:
            m = part.evaluate(ctx, [c])[0]
        except Exception:
            return False
        if m is not None and not (part.known and part.known(c, m)):
            best = list(s.rec)
            return True
        return False

    improved = True
    while improved and evals[0] < budget and time.monotonic() - t0 < part.shrink_time:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += size
                if evals[0] >= budget:
                    break
            size //= 2
        i = 0
        while i < len(best):
            v = best[i]
            if v:
                if attempt(best[:i] + [0] + best[i + 1:]):
                    improved = True
                else:
                    lo, hi = 0, v
                    while hi - lo > 1 and i < len(best):
                        mid = (lo + hi) // 2
                        if attempt(best[:i] + [mid] + best[i + 1:]):
                            improved = True
                            hi = mid
                        else:
                            lo = mid
                        if evals[0] >= budget:
                            break
            i += 1
    return best


def _worker(part, k, njobs, stop, q):
    try:
        random.seed(0)
        n = part.count()
        mine = n // njobs + (1 if k < n % njobs else 0)
        rng = _rng(SEED, part.name, k)
        ctx = part.driver() if part.driver else None
        stats = {"evals": 0, "nontrivial": 0, "samples": [], "classes": {}, "known": {}}
        seen = set()
        fail = None
        done = 0
        while done < mine and not stop.is_set():
            b = min(part.batchsize, mine - done)
            recs, cases = [], []
            for _ in range(b):
                s = Src(rng=rng)
                cases.append(part.gen(s))
                recs.append(s.rec)
            msgs = part.evaluate(ctx, cases)
            for rec, c, m in zip(recs, cases, msgs):
                stats["evals"] += 1
                nt = part.nontrivial(c)
                if nt:
                    kk = part.key(c) if part.key else (part._req(c) if part._req else repr(c))
                    hk = hash(kk)
                    if hk not in seen:
                        seen.add(hk)
                        stats["nontrivial"] += 1
                        if len(stats["samples"]) < 2:
                            stats["samples"].append(str(part.show(c))[:600])
                if part.classify:
                    for cl in part.classify(c):
                        stats["classes"][cl] = stats["classes"].get(cl, 0) + 1
                if m is not None:
                    kf = part.known(c, m) if part.known else None
                    if kf:
                        stats["known"][kf] = stats["known"].get(kf, 0) + 1
                        continue
                    if SURVEY:
                        cl = ",".join(part.classify(c)) if part.classify else "".join("#" if ch in "0123456789" else ch for ch in m)[:40]
                        sv = stats.setdefault("survey", {})
                        sv.setdefault(cl, [0, m])[0] += 1
                        if len(m) < len(sv[cl][1]):
                            sv[cl][1] = m
                        continue
                    # replay three times, in fresh processes, before believing it
                    again, mm = 0, None
                    for _ in range(part.racy or 3):
                        cc = part.gen(Src(pre=rec))
                        if ctx is not None and hasattr(ctx, "stop"):
                            ctx.stop()
                        mm = part.evaluate(ctx, [cc])[0]
                        if mm is not None:
                            again += 1
                            m = mm
                        elif stop.is_set():
                            break
                        if part.racy and again == 2:
                            break
                    if again == (2 if part.racy else 3):
                        fail = (rec, m)
                        break
                    fl = stats.setdefault("flaky", [])
                    stats["nflaky"] = stats.get("nflaky", 0) + 1
                    if len(fl) < 3:
                        fl.append([str(part.show(c))[:500], m[:500]])
            done += b
            if fail:
                break
        if fail:
            stop.set()
            rec, m = fail
            best = _shrink(part, ctx, rec, part.shrink_budget)
            c = part.gen(Src(pre=best))
            mm = part.evaluate(ctx, [c])[0] or m
            q.put(("fail", k, stats, {"choices": best, "show": str(part.show(c))[:20000], "message": mm,
                                      "request": (part._req(c)[:20000] if part._req else None)}, None))
        else:
            q.put(("ok", k, stats, None, None))
        if ctx is not None and hasattr(ctx, "stop"):
            ctx.stop()
    except Exception:
        q.put(("error", k, None, traceback.format_exc(), None))


def run_part(part):
    njobs = min(part.jobs or JOBS, max(1, part.count()))
    ctx = mp.get_context("fork")
    stop = ctx.Event()
    q = ctx.Queue()
    ps = [ctx.Process(target=_worker, args=(part, k, njobs, stop, q), daemon=False) for k in range(njobs)]
    for p in ps:
        p.start()
    res = []
    while len(res) < njobs:
        try:
            res.append(q.get(timeout=5))
        except Exception:
            if not any(p.is_alive() for p in ps):
                try:
                    while len(res) < njobs:
                        res.append(q.get(timeout=1))
                except Exception:
                    break
    for p in ps:
        p.join()
    return res, njobs


class CheckError(Exception):
    pass


def load_known():
    try:
        return json.load(open(os.path.join(VERIF, "known_findings.json")))
    except FileNotFoundError:
        return []


class Check:
    def __init__(self, pid, rule, assumptions=(), level="exploration"):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.level = level
        self.t0 = time.time()
        self.parts = []
        self.probes = []
        self.stats = {"evals": 0, "nontrivial": 0, "samples": [], "classes": {}, "known": {}, "parts": {}}

    def evidence(self, violations):
        os.makedirs(EVID, exist_ok=True)
        cov = {"evaluations": self.stats["evals"], "distinct_nontrivial": self.stats["nontrivial"], "rule": self.rule,
               "samples": self.stats["samples"][:40], "parts": self.stats["parts"],
               "classes": dict(sorted(self.stats["classes"].items()))}
        if self.stats["known"]:
            cov["known_finding_hits"] = self.stats["known"]
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
            h.write("\n")

    def violation(self, part, rec):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        safe = "".join(ch if ch.isalnum() or ch in "-_" else "_" for ch in part)
        f = os.path.join(d, "%s-%s.json" % (self.pid, safe))
        rec = dict(rec, property=self.pid, part=part, seed=SEED, tier=TIER)
        with open(f, "w") as h:
            json.dump(rec, h, indent=1)
        print("part %s: %s" % (part, str(rec.get("message"))[:3000]))
        print("case: %s" % str(rec.get("show"))[:3000])
        print("VIOLATION property=%s replay=%s" % (self.pid, f), flush=True)
        self.evidence(1)
        sys.exit(1)

    def add_stats(self, name, stats_list, rule=None):
        a = {"evaluations": 0, "distinct_nontrivial": 0}
        for s in stats_list:
            a["evaluations"] += s["evals"]
            a["distinct_nontrivial"] += s["nontrivial"]
            for k, v in s["classes"].items():
                kk = name + ": " + k
                self.stats["classes"][kk] = self.stats["classes"].get(kk, 0) + v
            for k, v in s["known"].items():
                self.stats["known"][k] = self.stats["known"].get(k, 0) + v
        sm = [x for s in stats_list for x in s["samples"]]
        self.stats["samples"].extend("[%s] %s" % (name, x) for x in sm[:2])
        self.stats["evals"] += a["evaluations"]
        self.stats["nontrivial"] += a["distinct_nontrivial"]
        if rule:
            a["rule"] = rule
        self.stats["parts"][name] = a

    def run(self, parts):
        only = os.environ.get("VERIF_PART")
        for part in parts:
            if only and only not in part.name:
                continue
            t = time.time()
            if part.setup:
                part.setup()
            res, njobs = run_part(part)
            errs = [r for r in res if r[0] == "error"]
            fails = [r for r in res if r[0] == "fail"]
            self.add_stats(part.name, [r[2] for r in res if r[2]], part.rule)
            print("[%s] %-28s %7d cases, %7d distinct non-trivial, %.1f s"
                  % (self.pid, part.name, self.stats["parts"][part.name]["evaluations"],
                     self.stats["parts"][part.name]["distinct_nontrivial"], time.time() - t), flush=True)
            if SURVEY:
                sv = {}
                for r in res:
                    for k, (n, m) in (r[2] or {}).get("survey", {}).items():
                        o = sv.setdefault(k, [0, m])
                        o[0] += n
                        if len(m) < len(o[1]):
                            o[1] = m
                for k in sorted(sv)[:40]:
                    print("  SURVEY %s x%d: %s" % (k, sv[k][0], sv[k][1][:700]))
            if fails:
                fails.sort(key=lambda r: len(r[3]["choices"]))
                self.violation(part.name, fails[0][3])
            nf = sum((r[2] or {}).get("nflaky", 0) for r in res)
            if nf:
                fl = [f for r in res for f in (r[2] or {}).get("flaky", [])]
                print("  %d not reproducible (not counted as failures), e.g. %s / %s" % (nf, fl[0][0], fl[0][1]))
                self.stats["parts"][part.name]["not_reproducible"] = nf
            if errs:
                raise CheckError("part %s: %s" % (part.name, errs[0][3]))
            if len(res) < njobs:
                raise CheckError("part %s: a worker was lost" % part.name)

    def finish(self):
        self.evidence(0)
        print("[%s] held on everything explored: %d cases, %d distinct non-trivial (%.0f s, seed %d, %s)"
              % (self.pid, self.stats["evals"], self.stats["nontrivial"], time.time() - self.t0, SEED, TIER))


def findings_for(pid):
    return [f for f in load_known() if f.get("property") == pid and f.get("status") == "known"]


def plain_signals():
    """a shell starts background jobs with some signals ignored; the programs under test must not inherit that"""
    import signal
    for g in range(1, 32):
        if g not in (signal.SIGPIPE, signal.SIGXFSZ) and signal.getsignal(g) == signal.SIG_IGN:
            signal.signal(g, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])


def main(pid, rule, make_parts, assumptions=(), probes=None, post=None):
    """make_parts() -> parts (builds its drivers).  probes: {finding id: function() -> True if it still fails}"""
    ck = Check(pid, rule, assumptions)
    plain_signals()
    try:
        vbuild.ensure()
    except vbuild.BuildError as e:
        print("the tree in %s does not build: %s" % (vbuild.REPO, e))
        sys.exit(2)
    try:
        parts = make_parts()
        if len(sys.argv) > 1 and sys.argv[1] == "--prebuild":
            sys.exit(0)
        if len(sys.argv) > 2 and sys.argv[1] == "--replay":
            sys.exit(replay(parts, sys.argv[2]))
        ck.run(parts)
        if post:
            post(ck)
        for f in findings_for(pid):
            pr = (probes or {}).get(f["id"])
            still = True if pr is None else pr()
            if still:
                print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
        ck.finish()
    except DriverBuildError as e:
        ck.violation("driver", {"message": "a well-typed client of the public API no longer compiles or links",
                                "show": str(e), "choices": []})
    except CheckError as e:
        print("check error: %s" % e)
        sys.exit(2)
    sys.exit(0)


def replay(parts, f):
    r = json.load(open(f))
    for p in parts:
        if p.name == r["part"]:
            if p.setup:
                p.setup()
            ctx = p.driver() if p.driver else None
            c = p.gen(Src(pre=r["choices"]))
            m = p.evaluate(ctx, [c])[0]
            print("case: %s\nresult: %s" % (p.show(c), m or "held"))
            if ctx is not None and hasattr(ctx, "stop"):
                ctx.stop()
            return 1 if m else 0
    print("no part %s" % r["part"])
    return 2
