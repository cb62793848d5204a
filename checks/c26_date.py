"""C26: Time and Date, against integer arithmetic, the proleptic Gregorian calendar and the C library's zone rules."""
import os, re, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt, vbuild

IMG = None
FIXED = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "XXX-5:30", "AAA-12:45BBB,M9.5.0/2:45,M4.1.0/3:45", "WST10", "CET-1CEST,M3.5.0,M10.5.0/3"]
ZONES = FIXED + ["America/New_York", "Europe/London", "Asia/Kolkata", "Pacific/Apia", "Australia/Lord_Howe", "Europe/Moscow", "America/Sao_Paulo", "Pacific/Kiritimati"]
DAYS = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
MAX_NS = 1 << 64
cur = [None]


class Date(Exception):
    pass


class Any(Exception):
    pass


def tz(z):
    if cur[0] != z:
        os.environ["TZ"] = z
        time.tzset()
        cur[0] = z


# ------------------------------------------------------------------ calendar
def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


MLEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def year_start(y):
    """days from 1970-01-01 to the first of January of year y"""
    p = y - 1
    return p * 365 + p // 4 - p // 100 + p // 400 - 719162


def days(y, m, d):
    return year_start(y) + sum(MLEN[:m - 1]) + (1 if m > 2 and leap(y) else 0) + d - 1


def civil(n):
    y = n // 366 + 1970 if n >= 0 else n // 365 + 1970
    while year_start(y + 1) <= n:
        y += 1
    while year_start(y) > n:
        y -= 1
    yd = n - year_start(y)
    m, d = 1, yd
    for k, l in enumerate(MLEN):
        l += k == 1 and leap(y)
        if d < l:
            break
        d -= l
        m += 1
    return y, m, d + 1, (n + 4) % 7, yd


def split(sec):
    d, s = divmod(sec, 86400)
    y, m, dd, wd, yd = civil(d)
    return [y, m, dd, s // 3600, s // 60 % 60, s % 60, wd, yd]


def secs(f):
    return days(f[0], f[1], f[2]) * 86400 + f[3] * 3600 + f[4] * 60 + f[5]


def local(sec):
    t = time.localtime(sec)
    return [t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, (t.tm_wday + 1) % 7, t.tm_yday - 1], t.tm_isdst


# ------------------------------------------------------------------ the model of a date: (fields, isDst, offset in microseconds)
def model(d):
    k = d[0]
    if k in "ul":
        t = d[1]
        if t < 0 or t * 1000 >= MAX_NS:
            raise Date
        if k == "u":
            return split(t // 1000000), "0", 0
        f, i = local(t // 1000000)
        return f, str(i), None
    y, mo, dd, h, mi, s, off = d[1:]
    sec = days(y, mo, 1) * 86400 + (dd - 1) * 86400 + h * 3600 + mi * 60 + s
    if off is not None:
        q = abs(off) // 1000000
        q, r = divmod(q, 86400)
        sg = -1 if off < 0 else 1
        sec += sg * q * 86400
        off = sg * r * 1000000
    f = split(sec)
    if f[0] < 1:
        raise Date
    return f, "n", off


def to_time(d):
    """the set of instants (in seconds) the date may denote; an empty list: Date is raised; Any: a time that does not exist in the zone"""
    f, dst, off = model(d)
    if off is not None:
        return [secs(f) + off // 1000000]
    if f[0] < 1902 or f[0] > 2600:
        return []
    base = secs(f)
    cand = set()
    for o in range(base - 2 * 86400, base + 2 * 86400, 3600):      # offsets in effect around the date
        t = time.localtime(o)
        r = base - t.tm_gmtoff
        g, i = local(r)
        if g == f and (dst == "n" or i == int(dst)):
            cand.add(r)
    if not cand:
        raise Any
    return [r for r in cand]


def fmt_model(s, m, zone, d):
    f, dst, off = m
    y, mo, dd, h, mi, sc, wd, yd = f

    def conv(c):
        if c == "a": return DAYS[wd][:3]
        if c == "A": return DAYS[wd]
        if c == "b": return MONTHS[mo - 1][:3]
        if c == "B": return MONTHS[mo - 1]
        if c == "c": return "%s %s %2d %02d:%02d:%02d %d" % (DAYS[wd][:3], MONTHS[mo - 1][:3], dd, h, mi, sc, y)
        if c == "d": return "%02d" % dd
        if c == "H": return "%02d" % h
        if c == "I": return "%02d" % ((h + 11) % 12 + 1)
        if c == "j": return "%03d" % (yd + 1)
        if c == "m": return "%02d" % mo
        if c == "M": return "%02d" % mi
        if c == "p": return "AM" if h < 12 else "PM"
        if c == "S": return "%02d" % sc
        if c == "U": return "%02d" % ((yd + 7 - wd) // 7)
        if c == "w": return "%d" % wd
        if c == "W": return "%02d" % ((yd + 7 - (wd + 6) % 7) // 7)
        if c == "x": return "%02d/%02d/%02d" % (mo, dd, y % 100)
        if c == "X": return "%02d:%02d:%02d" % (h, mi, sc)
        if c == "y": return "%02d" % (y % 100)
        if c == "Y": return "%d" % y
        if c == "Z": return time.localtime(d[1] // 1000000).tm_zone
        return c
    out, k = [], 0
    while k < len(s):
        if s[k] != "%":
            out.append(s[k])
            k += 1
        elif k + 1 == len(s):
            out.append("%")
            k += 1
        else:
            out.append(conv(s[k + 1]))
            k += 2
    return "".join(out)


def fields(m):
    f, dst, off = m
    return " ".join(map(str, f + [dst, "n" if off is None else off]))


def hx(s):
    return "s" + s.encode("latin-1").hex()


DATE_RE = re.compile(r"[ \t\n\r\v\f]*(Sun|Mon|Tue|Wed|Thu|Fri|Sat) (Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) (\d\d| \d) (\d\d):(\d\d):(\d\d) (\d+)", re.S | re.A)
TIME_RE = re.compile(r"[ \t\n\r\v\f]*([-+~]?)(?:(\d+)(?:\.(\d+))?|\.(\d+))", re.S | re.A)


def scan_time(s):
    m = TIME_RE.match(s)
    if not m:
        return None
    fr = m.group(3) or m.group(4) or ""
    v = int(m.group(2) or 0) * 1000000 + int((fr + "000000")[:6])
    return (-v if m.group(1) in ("-", "~") else v), s[m.end():]


def time_fmt(n, t):
    a = abs(t)
    if n > 6:
        s = "%d.%06d%s" % (a // 1000000, a % 1000000, "0" * (n - 6))
    else:
        q = 10 ** (6 - n)
        w, r = divmod(a, q)
        if 2 * r > q or (2 * r == q and w % 2):
            w += 1
        p = 10 ** n
        s = "%d" % w if n == 0 else "%d.%0*d" % (w // p, n, w % p)
    return s


def okfmt(got, n, t):
    s = time_fmt(n, t)
    return got == hx(("~" if t < 0 else "") + s) or (t < 0 and not s.strip("0.") and got == hx(s))


# ------------------------------------------------------------------ generators
def transitions(z):
    """instants at which the zone's offset changes (computed once per zone)"""
    if z in TR:
        return TR[z]
    tz(z)
    out = []
    step = 86400 * 10
    for a in range(0, 5 * 10 ** 9, step):
        if time.localtime(a).tm_gmtoff != time.localtime(a + step).tm_gmtoff or time.localtime(a).tm_isdst != time.localtime(a + step).tm_isdst:
            lo, hi = a, a + step
            k = (time.localtime(lo).tm_gmtoff, time.localtime(lo).tm_isdst)
            while hi - lo > 1:
                mid = (lo + hi) // 2
                t = time.localtime(mid)
                if (t.tm_gmtoff, t.tm_isdst) == k:
                    lo = mid
                else:
                    hi = mid
            out.append(hi)
    TR[z] = out
    return out


TR = {}


def g_us(s, z):
    """an instant in microseconds"""
    k = s.int(0, 9)
    fr = s.choice([0, 0, 1, 999999, 500000, s.int(0, 999999)])
    if k <= 2:
        return s.int(0, 4 * 10 ** 9) * 1000000 + fr
    if k == 3:
        return s.int(0, 200000) * 1000000 + fr
    if k == 4:
        return s.int(0, 18446744073) * 1000000 + fr
    if k == 5 and transitions(z):
        return max(0, (s.choice(transitions(z)) + s.int(-7500, 7500)) * 1000000 + fr)
    if k == 6:      # around a year boundary or leap day
        y = s.int(1970, 2500)
        return max(0, (days(y, *s.choice([(1, 1), (2, 28), (3, 1), (12, 31)])) * 86400 + s.int(-90000, 90000)) * 1000000 + fr)
    if k == 7:
        return s.choice([0, 1, 999999, 2 ** 31 * 1000000, (2 ** 31 - 1) * 1000000, 2 ** 32 * 1000000, (1 << 64) // 1000 - 1, (1 << 64) // 1000, (1 << 64) // 1000 + 1, -1, -1000000, 1 << 63, 9223372036854775, 9223372036854776])
    if k == 8:
        return -s.int(1, 10 ** 17)
    return s.int(0, 2 ** 31) * 1000000 + fr


def near(s, lo, hi):
    return s.choice([lo, hi, s.int(lo, hi), s.int(lo, hi), s.int(lo, hi)])


def g_fields(s, z):
    off = s.choice([None, None, 0, 0, s.int(-1440, 1440) * 60000000, s.int(-90000, 90000) * 1000000, s.int(-400000, 400000) * 1000000])
    k = s.int(0, 5)
    if k == 0 and transitions(z):
        f = local(s.choice(transitions(z)) + s.int(-4000, 4000))[0]
        return ["d"] + f[:6] + [s.choice([None, off])]
    y = s.choice([s.int(1970, 2100), s.int(1970, 2500), s.int(1, 9999), s.choice([1, 4, 100, 400, 1600, 1700, 1900, 1969, 1970, 2000, 2100, 2400, 9999]), s.int(1, 60000)])
    m = s.int(1, 12)
    if k <= 2:
        return ["d", y, m, near(s, 1, MLEN[m - 1] + (m == 2 and leap(y))), near(s, 0, 23), near(s, 0, 59), near(s, 0, 59), off]
    big = s.choice([40, 400, 5000, 800000])
    return ["d", y, m, s.int(-big, big), s.choice([s.int(0, 23), s.int(-big, big)]), s.choice([s.int(0, 59), s.int(-big, big)]), s.choice([s.int(0, 59), s.int(-big * 100, big * 100)]), off]


def g_date(s, z):
    k = s.int(0, 3)
    return ["u", g_us(s, z)] if k == 0 else ["l", g_us(s, z)] if k == 1 else g_fields(s, z)


def in_time(s, z):
    d = g_date(s, z)
    return d


LIT = "abcXYZ 0123-/:,.\t\n\x7f\xe9\"\\#~'"


def g_fmt(s, z, zone_ok):
    convs = "aAbBcdHIjmMpSUwWxXyY%" * 3 + "qL_#" + ("ZZ" if zone_ok else "")
    out = []
    long = s.int(0, 12) == 0
    for _ in range(s.int(0, 120 if long else 8)):
        k = s.int(0, 3)
        if k == 0:
            out.append("".join(s.choice(LIT) for _ in range(s.int(1, 12))))
        else:
            out.append("%" + s.choice(convs))
    if long and s.int(0, 2) == 0:
        out.insert(s.int(0, len(out)), "x" * s.int(400, 700))
    if s.int(0, 15) == 0:
        out.append("%")
    return "".join(out)


def g_big(s):
    return s.choice([s.int(-10 ** 6, 10 ** 6), s.int(-10 ** 12, 10 ** 12), s.int(-10 ** 20, 10 ** 20), s.int(-(1 << 63) - 2, (1 << 63) + 2), s.int(-3, 3) * s.choice([10 ** 3, 10 ** 6, 10 ** 9]) + s.int(-2, 2),
                   s.int(-10 ** 7, 10 ** 7) * 500 + s.choice([0, 0, 1, -1])])


def g_time_text(s):
    out = s.choice(["", "", " ", "\n\t "]) + s.choice(["", "", "~", "-", "+", "--", "+~"])
    out += "".join(s.choice("0123456789") for _ in range(s.choice([0, 1, 2, 5, 12, 25])))
    out += s.choice(["", ".", ".", ".", "..", "e"])
    out += "".join(s.choice("0123456789") for _ in range(s.choice([0, 1, 2, 5, 6, 7, 12, 25])))
    return out + s.choice(["", "", " ", "x", ".", "e3", "s"])


def g_date_text(s, z):
    f = split(s.int(-2 * 10 ** 10, 10 ** 11))
    t = "%s%s %s %s %02d:%02d:%02d %s%s" % (s.choice(["", "", " ", "\n  "]), DAYS[s.int(0, 6)][:3], MONTHS[f[1] - 1][:3], s.choice(["%02d" % f[2], "%2d" % f[2]]), f[3], f[4], f[5], s.choice(["%d" % abs(f[0]), "%04d" % abs(f[0])]), s.choice(["", "", " ", "x", "\n"]))
    if s.int(0, 3) == 0:
        k = s.int(0, len(t))
        t = t[:k] + s.choice(["", " ", "x", "0", ":"]) + t[k + s.int(0, 2):]
    return t


def gen(s):
    z = s.choice(ZONES)
    k = s.int(0, 20)
    if k <= 3:
        return (z, "fields", g_date(s, z))
    if k <= 7:
        return (z, "time", g_date(s, z))
    if k <= 10:
        if s.int(0, 3) == 0 and z in FIXED:
            return (z, "fmt", g_fmt(s, z, True), ["l", s.int(0, 4 * 10 ** 9) * 1000000])
        return (z, "fmt", g_fmt(s, z, False), g_date(s, z))
    if k <= 11:
        return (z, "str", g_date(s, z))
    if k == 12:
        return (z, "scan", g_date_text(s, z))
    if k == 13:
        a = g_date(s, z)
        b = s.choice([g_date(s, z), a, None])
        if b is None:
            b = list(a)
            j = s.int(1, min(6, len(a) - 1))
            b[j] += s.choice([-1, 1]) if j != 2 else 0
        return (z, "cmp", a, b)
    if k == 14:
        return (z, s.choice(["off", "now"]))
    if k == 15:
        a = g_big(s)
        return (z, "t2", a, s.choice([g_big(s), a, -a, a + 1]))
    if k == 16:
        return (z, "tto", g_big(s))
    if k == 17:
        return (z, "tfrom", g_big(s))
    if k == 18:
        return (z, "tfmt", s.int(-1, 12), g_big(s))
    if k == 19:
        return (z, s.choice(["tscan", "tfs"]), g_time_text(s))
    return (z, "timer", s.int(1, 30)) if s.int(0, 40) == 0 else (z, "time", g_fields(s, z))


def rd(d):
    return " ".join("n" if x is None else str(x) for x in d)


def req(c):
    z, op = c[:2]
    a = c[2:]
    if op in ("fields", "time", "str"):
        b = rd(a[0])
    elif op == "fmt":
        b = hx(a[0]) + " " + rd(a[1])
    elif op == "cmp":
        b = rd(a[0]) + " " + rd(a[1])
    elif op in ("scan", "tscan", "tfs"):
        b = hx(a[0])
    else:
        b = " ".join(map(str, a))
    return z + "|" + (op + " " + b).strip()


def expect(c):
    """the set of acceptable answers"""
    z, op = c[:2]
    a = c[2:]
    if op == "fields":
        return [fields(model(a[0]))]
    if op == "time":
        ts = to_time(a[0])
        f, dst, off = model(a[0])
        if off is not None:
            frac = 0
            if a[0][0] == "d" and a[0][-1] is not None and a[0][-1] % 1000000:
                raise Any
            return [str(t * 1000000) for t in ts]
        return ["!Date" if t < 0 or t * 10 ** 9 >= MAX_NS else str(t * 1000000) for t in ts] or ["!Date"]
    if op == "fmt":
        m = model(a[1])
        if m[0][0] > 9999:
            raise Any
        return [hx(fmt_model(a[0], m, z, a[1]))]
    if op == "str":
        m = model(a[0])
        if m[0][0] > 9999:
            raise Any
        return [hx(fmt_model("%a %b %d %H:%M:%S %Y", m, z, a[0])) + " " + fields((m[0], "n", None))]
    if op == "scan":
        m = DATE_RE.match(a[0])
        if not m:
            if re.match(r"\s*\w+ \w+ .{11}\s\s", a[0], re.S):
                raise Any       # more white space than one blank before the year: accepted or not
            return ["NONE"]
        try:
            r = model(["d", int(m.group(7)), [x[:3] for x in MONTHS].index(m.group(2)) + 1, int(m.group(3)), int(m.group(4)), int(m.group(5)), int(m.group(6)), None])
        except Date:
            return ["NONE"]
        if r[0][0] > 10 ** 6:
            raise Any
        return [fields(r) + " " + hx(a[0][m.end():])]
    if op == "cmp":
        x, y = model(a[0])[0][:6], model(a[1])[0][:6]
        return ["L" if x < y else "G" if x > y else "E"]
    if op == "t2":
        x, y = a
        return ["%d %d %s %d %d %d %d %d" % (x + y, x - y, "L" if x < y else "G" if x > y else "E", x < y, x <= y, x > y, x >= y, x == y)]
    if op == "tto":
        x = a[0]
        q = lambda n: (abs(x) // n) * (-1 if x < 0 else 1)
        return ["%d %d %d %d" % (q(1000000), q(1000), x, x * 1000)]
    if op == "tfrom":
        x = a[0]
        return ["%d %d %d %d" % (x * 1000000, x * 1000, x, (abs(x) // 1000) * (-1 if x < 0 else 1))]
    r = scan_time(a[0])
    if r is None:
        return ["NONE"]
    return ["%d %s" % (r[0], hx(r[1]))] if op == "tscan" else [str(r[0])]


def judge(c, a):
    z, op = c[:2]
    tz(z)
    if op == "now":
        v, lo, hi = a.split()
        return None if int(lo) - 2000 <= int(v) <= int(hi) + 2000 else "Time.now is %s, the clock was between %s and %s" % (v, lo, hi)
    if op == "off":
        v, lo, hi = a.split()
        ok = [-time.localtime(int(x) // 1000000).tm_gmtoff * 1000000 for x in (lo, hi)]
        return None if int(v) in ok else "Date.localOffset() is %s us; the zone is %s us west of UTC" % (v, ok[0])
    if op == "tfmt":
        n, t = c[2:]
        if n < 0:
            return None if a == "!Size" else "answered %s; Size expected" % a
        g = a.split()
        return None if len(g) == 2 and okfmt(g[0], n, t) and okfmt(g[1], 3, t) else "answered %s; expected %s and %s" % (a, hx(time_fmt(n, t)), hx(time_fmt(3, t)))
    if op == "timer":
        usr, sys_, nu, ns, gu, gs, g, pu, ps, re_, wall = map(int, a.split())
        bad = []
        if usr < 0 or sys_ < 0 or abs(usr + sys_ - pu - ps) > 60000:
            bad.append("CPU timer %d+%d us, times() %d+%d us" % (usr, sys_, pu, ps))
        if not (0 <= gu + gs <= nu + ns + gu + gs and nu + gu >= usr and ns + gs >= sys_ and nu + gu + ns + gs <= usr + sys_ + 60000):
            bad.append("checkCPUTimes %d %d %d %d, checkCPUTimer %d %d" % (nu, ns, gu, gs, usr, sys_))
        if not -2000 <= re_ <= wall + 2000:
            bad.append("real timer %d us, the clock advanced %d us" % (re_, wall))
        return "; ".join(bad) or None
    try:
        exp = expect(c)
    except Date:
        exp = ["!Date"]
    except Any:
        return None
    if a in exp:
        return None
    return "answered %s; expected %s" % (a, " or ".join(exp[:3]))


class Driver(pbt.Driver):
    """one process per zone"""
    def __init__(self):
        self.per = {}

    def batch(self, reqs):
        ans = [None] * len(reqs)
        group = {}
        for k, r in enumerate(reqs):
            z, b = r.split("|", 1)
            group.setdefault(z, []).append((k, b))
        for z, rs in group.items():
            if z not in self.per:
                self.per[z] = pbt.Driver(IMG, env={"TZ": z})
            lo = time.time_ns() // 1000
            out = self.per[z].batch([b for _, b in rs])
            hi = time.time_ns() // 1000
            for (k, b), a in zip(rs, out):
                ans[k] = a + " %d %d" % (lo, hi) if b in ("now", "off") and not a.startswith("#") else a
        return ans

    def stop(self):
        for d in self.per.values():
            d.stop()
        self.per = {}


def nontrivial(c):
    z, op = c[:2]
    if op in ("fields", "time", "str", "fmt", "cmp"):
        try:
            tz(z)
            model(c[-1])
        except Date:
            return False
    return True


def parts():
    global IMG
    IMG = pbt.build_driver("date", [("date.sml", open(os.path.join(vbuild.VERIF, "sml", "date.sml")).read())], ["$/basis.cm"])
    return [pbt.Part("time and date", gen, req, judge, n=(60000, 3000000), driver=Driver, batch=1500, nontrivial=nontrivial, rule="the date is one the implementation supports (or the operation is on times)",
                     classify=lambda c: [c[1]] + ([c[1] + ":" + c[-1][0]] if isinstance(c[-1], list) else []), show=lambda c: "TZ=" + repr(c), key=req)]


if __name__ == "__main__":
    pbt.main("C26", "a case is an operation of Time, Date or Timer in a time zone; the calendar, integer arithmetic and the host's zone rules give the answer", parts, [])
