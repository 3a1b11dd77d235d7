"""P24: statistics, random numbers, complex numbers, Fourier transform and the programs on top of them."""
import cmath, collections, datetime, hashlib, math, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P24", rule="a distinct request or program run whose result was compared with a reference or a statistical bound")
PROGS = ["stats", "hist", "avg", "rand", "markov"]
BIN = {}


def close(a, b, tol=1e-12):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1e-300, abs(a), abs(b))


def nums(want, tol=1e-12, tail=None):
    def judge(rep):
        t = rep.split()
        if tail is not None:
            if t[-1:] != [tail]:
                return "memory isn't given back"
            t = t[:-1]
        if len(t) != len(want):
            return "%d numbers instead of %d" % (len(t), len(want))
        for i, (g, w) in enumerate(zip(t, want)):
            if not close(float(g), w, tol):
                return "number %d is %s instead of %r" % (i, g, w)
    return judge


def rval(r):
    k = r.randrange(6)
    if k == 0:
        return float(r.randrange(-10, 11))
    if k == 1:
        return r.uniform(-1, 1)
    if k == 2:
        return r.choice([0.0, -0.5, 1e-9, 1e9, -1e9, 123456.75, 3.0, 3.0 + 1e-7, 3.0 - 1e-9, 2e-9])
    if k == 3:
        return float(r.randrange(3))
    return r.gauss(50, 20)


def stats_case(r, i):
    xs, want, line, exact = [], [], "stats", set()
    sign = r.choice([None, None, 1, -1])
    for _ in range(r.choice([1, 2, 5, 17, 40, 120])):
        if not xs or r.random() < 0.6:
            x = rval(r)
            if sign:
                x = sign * (abs(x) + 0.5)
            xs.append(x)
            line += " a:%r" % x
            continue
        q = r.choice("pppmlhsvdc")
        srt = sorted(xs)
        if q in "pmlhc":
            exact.add(len(want))
        if q == "p":
            p = r.choice([0, 1, 5, 25, 33, 49, 50, 51, 75, 99, 100, r.randrange(101), r.randrange(101)])
            line += " p:%d" % p
            want.append(srt[min(len(xs) - 1, len(xs) * p // 100)])
            continue
        line += " " + q
        m = sum_(xs) / len(xs)
        if q == "d" and len(xs) == 1:
            want.append(float("nan"))
            continue
        want.append({"m": lambda: srt[len(xs) // 2], "l": lambda: srt[0], "h": lambda: srt[-1], "s": lambda: sum_(xs), "v": lambda: m,
                     "d": lambda: math.sqrt(sum_([(x - m) ** 2 for x in xs]) / (len(xs) - 1)), "c": lambda: float(len(xs))}[q]())
    if r.random() < 0.02:
        line, want = "stats c p:50 p:0 p:100 p:101 p:-1", [0.0] * 6
    return Case(line, nums_abs(want, xs, exact), "stats/%d" % i, line[:300])


def sum_(xs):
    # python 3.12's sum compensates, the program needn't
    s = 0.0
    for x in xs:
        s += x
    return s


def nums_abs(want, xs, exact):
    scale = max([1e-300] + [abs(x) for x in xs]) * max(1, len(xs))

    def judge(rep):
        t = rep.split()
        if t[-1:] != ["1"]:
            return "memory isn't given back"
        if len(t) - 1 != len(want):
            return "%d numbers instead of %d" % (len(t) - 1, len(want))
        for i, (g, w) in enumerate(zip(t, want)):
            g = float(g)
            if math.isnan(w):
                if not math.isnan(g) and g != 0:
                    return "number %d is %r instead of no number" % (i, g)
            elif not (g == w if i in exact else abs(g - w) <= 1e-11 * scale):
                return "number %d is %r instead of %r" % (i, g, w)
    return judge


def norm_case(r, i):
    xs = [abs(rval(r)) + 0.001 for _ in range(r.choice([1, 2, 3, 10, 50]))]
    s = sum(xs)
    return Case("norm " + " ".join(repr(x) for x in xs), nums([x / s for x in xs], 1e-11), "norm/%d" % i)


def chi(counts, probs):
    """Chi-square against the expectation, as a number of standard deviations above its mean."""
    n = sum(counts)
    c, df = 0.0, -1
    for g, p in zip(counts, probs):
        if p == 0:
            if g:
                return float("inf")
            continue
        df += 1
        c += (g - n * p) ** 2 / (n * p)
    if df <= 0:
        return 0.0
    # Wilson-Hilferty
    return ((c / df) ** (1 / 3) - (1 - 2 / (9 * df))) / math.sqrt(2 / (9 * df))


LIMIT = 7.5     # standard deviations: about 3e-14 for a fair generator
worst = [0.0]


def fair(counts, probs, what):
    z = chi(counts, probs)
    worst[0] = max(worst[0], z)
    if z > LIMIT:
        return "%s: %.1f standard deviations from fair (%s)" % (what, z, counts[:20])


def sample_case(r, i):
    freqs = [r.choice([0, 1, 1, 2, 3, 10, 100]) for _ in range(r.choice([1, 2, 3, 5, 12]))]
    if r.random() < 0.2:
        freqs = [0] * r.randrange(3) + [r.randrange(1, 50)] + [0] * r.randrange(3)
    if sum(freqs) == 0:
        freqs[-1] = 1
    n = 4000
    s = sum(freqs)

    def judge(rep):
        t = rep.split()
        if len(t) != len(freqs):
            return "wrong reply"
        g = [int(x) for x in t]
        if sum(g) != n:
            return "%d draws instead of %d" % (sum(g), n)
        return fair(g, [f / s for f in freqs], "choice by frequency %r" % freqs)
    return Case("sample %d %d %s" % (r.getrandbits(63), n, " ".join(map(str, freqs))), judge, "sample/%d" % i)


def intn_case(r, i):
    k = r.choice([1, 2, 3, 5, 6, 7, 8, 10, 16, 26])
    n = 20000

    def judge(rep):
        t = rep.split()
        if t[0] == "OUT":
            return "a number outside [0, %d)" % k
        g = [int(x) for x in t]
        m = fair(g[:k], [1 / k] * k, "numbers below %d" % k)
        if m:
            return m
        return fair(g[k:], [1 / k / k] * (k * k), "pairs of numbers below %d" % k)
    return Case("intn %d %d %d" % (r.getrandbits(63), k, n), judge, "intn/%d" % i)


def u_case(r, i):
    def judge(rep):
        t = rep.split()
        if t[0] != "1":
            return "a value outside [0, 1)"
        return fair([int(x) for x in t[1:]], [1 / 16] * 16, "fractions")
    return Case("u %d 20000" % r.getrandbits(63), judge, "u/%d" % i)


def complex_case(r, i):
    a, b = complex(rval(r), rval(r)), complex(rval(r), rval(r))
    want = []
    for z in (a + b, a - b, complex(a.real * b.real - a.imag * b.imag, a.real * b.imag + a.imag * b.real), complex(a.real * b.real, a.imag * b.real)):
        want += [z.real, z.imag]
    want += [abs(a), a.real ** 2 + a.imag ** 2]
    return Case("complex %r %r %r %r" % (a.real, a.imag, b.real, b.imag), nums(want, 1e-12), "complex/%d" % i)


def dft(x, inv):
    n = len(x)
    tw = [cmath.exp((2j if inv else -2j) * cmath.pi * k / n) for k in range(n)]
    return [sum(x[j] * tw[j * k % n] for j in range(n)) for k in range(n)]


def fft_case(r, i, n=None):
    n = n or r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 20, 21, 25, 27, 30, 32, 35, 49, 60, 64, 77, 97, 100, 120, 121, 128, 144])
    kind = r.randrange(4)
    if kind == 0:
        x = [complex(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(n)]
    elif kind == 1:
        x = [complex(0) for _ in range(n)]
        x[r.randrange(n)] = complex(1, r.choice([0, -1]))
    elif kind == 2:
        x = [complex(math.cos(2 * math.pi * 3 * k / n)) for k in range(n)]
    else:
        x = [complex(r.randrange(-100, 100), 0) for _ in range(n)]
    inv = r.randrange(2)
    want = dft(x, inv)
    scale = max(1e-9, max(abs(z) for z in x)) * n

    def judge(rep):
        t = rep.split()
        if t[-1] != "1":
            return "memory isn't given back"
        g = [float(v) for v in t[:-1]]
        if len(g) != 2 * n:
            return "%d numbers instead of %d" % (len(g), 2 * n)
        for k in range(n):
            if not abs(complex(g[2 * k], g[2 * k + 1]) - want[k]) <= 1e-9 * scale:
                return "bin %d of %d is %r instead of %r" % (k, n, complex(g[2 * k], g[2 * k + 1]), want[k])
    return Case("fft %d %d %s" % (inv, r.randrange(4), " ".join("%r %r" % (z.real, z.imag) for z in x)), judge, "fft/%d/%d" % (n, i))


# ---- programs --------------------------------------------------------------

def go(key, tool, args, data, judge):
    res = run([BIN[tool]] + [str(a) for a in args], data, env=ck.che_env("san"), timeout=60, outcap=64 << 20)
    ck.saw("%s/%s" % (tool, hashlib.md5(repr((args, data)).encode()).hexdigest()))
    ck.count("runs_" + tool)
    info = {"tool": tool, "args": repr(args), "input": repr(data[:6000]), "stdout": repr(res.out[-3000:]), "stderr": res.etext[-3000:]}
    if res.timeout:
        ck.violation(key, "%s doesn't finish" % tool, info)
    elif res.san or (res.rc is not None and res.rc < 0):
        ck.violation(key, "%s: %s" % (tool, res.san or "killed by signal %d" % -res.rc), info)
    else:
        msg = judge(res)
        if msg:
            ck.violation(key, "%s %s: %s" % (tool, " ".join(map(str, args)), msg), info)


def refused(res):
    if res.rc != 1 or not res.err.strip() or res.out:
        return "status %s, output %r instead of a refusal" % (res.rc, res.out[:200])


def num_text(r, x):
    return r.choice(["%g", "%.3f", "%r"]) % x


def prog_stats(r, i):
    k = r.choice([1, 1, 2, 3, 10])
    rows = [[float(num_text(r, rval(r))) for _ in range(k)] for _ in range(r.choice([1, 2, 3, 10, 60, 200]))]
    text = "".join(r.choice([" ", "\t", "  "]).join(repr(x) for x in row) + "\n" for row in rows)
    if r.random() < 0.3:
        text = text[:-1]
    cols = list(zip(*rows))
    n = len(rows)

    def judge(res):
        if res.rc != 0:
            return "status %s: %s" % (res.rc, res.etext[-200:])
        lines = [x.split("\t") for x in res.out.decode().split("\n")[:-1]]
        names = ["avg", "min", "max", "N", "sum", "0.05", "0.25", "0.33", "0.50", "0.66", "0.75", "0.95", "0.99"]
        if [x[0] for x in lines] != names or any(len(x) != k + 1 for x in lines):
            return "prints %r" % lines
        for j, c in enumerate(cols):
            srt = sorted(c)
            m = sum_(c) / n
            a, d = lines[0][j + 1].split(" ± ")
            if abs(float(a) - m) > 0.00501 + abs(m) * 1e-9:
                return "average of column %d is %s instead of %f" % (j, a, m)
            sd = math.sqrt(sum_([(x - m) ** 2 for x in c]) / (n - 1)) if n > 1 else None
            if sd is not None and abs(float(d) - sd) > 0.00501 + sd * 1e-9 + max(map(abs, c)) * 1e-11:
                return "deviation of column %d is %s instead of %f" % (j, d, sd)
            for row, w in ((1, srt[0]), (2, srt[-1])):
                if abs(float(lines[row][j + 1]) - w) > 0.00501 + abs(w) * 1e-12:
                    return "%s of column %d is %s instead of %f" % (names[row], j, lines[row][j + 1], w)
            if lines[3][j + 1] != str(n):
                return "count is %s instead of %d" % (lines[3][j + 1], n)
            s = sum_(c)
            if abs(float(lines[4][j + 1]) - s) > 1e-6 + sum(map(abs, c)) * 1e-12:
                return "sum of column %d is %s instead of %f" % (j, lines[4][j + 1], s)
            for row in range(5, 13):
                p = int(names[row][2:])
                w = srt[n * p // 100]
                if abs(float(lines[row][j + 1]) - w) > 0.0501 + abs(w) * 1e-12:
                    return "percentile %d of column %d is %s instead of %f" % (p, j, lines[row][j + 1], w)
    go("pstats/%d" % i, "stats", [], text.encode(), judge)


def stats_bad():
    go("pstats/empty", "stats", [], b"", refused)
    go("pstats/ragged", "stats", [], b"1 2\n1\n", refused)
    go("pstats/ragged2", "stats", [], b"1 2\n1 2 3\n", refused)
    go("pstats/blank", "stats", [], b"1 2\n\n1 2\n", refused)
    go("pstats/11", "stats", [], b"1 " * 11 + b"\n", refused)


def hist_check(out, xs, nbins):
    rows = [x.split("\t") for x in out.decode().split("\n")[:-1]]
    if len(rows) != nbins:
        return "%d bins instead of %d" % (len(rows), nbins)
    b = [float(x[0]) for x in rows]
    c = [int(x[1]) for x in rows]
    if not xs:
        return "counts without values" if any(c) else None
    top = max(abs(b[0]), abs(b[-1]), abs(max(xs)), abs(min(xs)))
    eps = 1.1e-5 * top
    step = (b[-1] - b[0]) / (nbins - 1)
    if sum(c) != len(xs):
        return "the counts add up to %d instead of %d" % (sum(c), len(xs))
    for k in range(nbins):
        if abs(b[k] - (b[0] + k * step)) > 2 * eps:
            return "bins aren't equal: %r" % b
    if b[0] > min(xs) + eps or b[-1] + step < max(xs) - 3 * eps:
        return "the bins %g..%g don't cover %g..%g" % (b[0], b[-1] + step, min(xs), max(xs))
    if max(xs) > b[0] + eps and (max(xs) - b[0]) < nbins * step / 2 - 3 * eps:
        return "the bins %g..%g are too wide for %g..%g" % (b[0], b[-1] + step, min(xs), max(xs))
    cum = 0
    for k in range(1, nbins):
        cum += c[k - 1]
        lo = sum(1 for x in xs if x < b[k] - eps)
        hi = sum(1 for x in xs if x < b[k] + eps)
        if not lo <= cum <= hi:
            return "%d values below %g instead of %d" % (cum, b[k], lo)


def prog_hist(r, i):
    n = r.choice([1, 2, 5, 30, 200])
    k = r.randrange(7)
    if k == 0:
        xs = [float(r.randrange(-5, 6)) for _ in range(n)]
    elif k == 1:
        xs = [r.choice([0.0, 5.0, 0.009, 3e-5, -7.0, 1e6])] * n
    elif k == 2:
        xs = [r.gauss(100, 15) for _ in range(n)]
    elif k == 3:
        xs = [abs(r.gauss(0, 1)) * 10 ** r.randrange(-6, 7) for _ in range(n)]
    elif k == 4:
        lo = r.randrange(1, 10) * float("1e%d" % r.randrange(-6, 5))
        xs = [lo] + [lo * r.uniform(1, 30) for _ in range(n - 1)]
    elif k == 5:
        xs = [-abs(r.gauss(0, 1)) * 10 ** r.randrange(-3, 4) for _ in range(n)]
    else:
        xs = [r.uniform(-1000, 1000) for _ in range(n)]
    text = "".join("%r\n" % x for x in xs).encode()
    nb = r.choice([None, None, 2, 3, 7, 40])
    nbins = nb or 10
    args = ["-n", nb] if nb else []
    go("hist/%d" % i, "hist", args + ["-r"], text, lambda res: "status %s: %s" % (res.rc, res.etext[-200:]) if res.rc else hist_check(res.out, xs, nbins))
    # the drawing has the same counts
    w = r.choice([None, None, 1, 3, 10, 30, 31, 100])
    raw = run([BIN["hist"]] + [str(a) for a in args] + ["-r"], text, env=ck.che_env("san"), timeout=60)
    counts = [int(x.split("\t")[1]) for x in raw.text.split("\n")[:-1]]
    labels = [x.split("\t")[0] for x in raw.text.split("\n")[:-1]]
    while counts and counts[-1] == 0:
        counts.pop()

    def judge(res):
        if res.rc:
            return "status %s: %s" % (res.rc, res.etext[-200:])
        lines = res.out.decode().split("\n")[:-1]
        if len(lines) != len(counts) + 1:
            return "%d bins drawn instead of %d" % (len(lines) - 1, len(counts))
        width = w or 30
        scale = min(1.0, width / max(counts))
        for line, c, lab in zip(lines[1:], counts, labels):
            m = re.fullmatch(r" *(\S+) \|(█*)( *) ([0-9]+)", line)
            if not m:
                return "a line %r" % line
            if int(m.group(4)) != c or m.group(1) != lab:
                return "the line %r instead of %s: %d" % (line, lab, c)
            if len(m.group(2)) + len(m.group(3)) != width:
                return "the bar takes %d columns instead of %d" % (len(m.group(2)) + len(m.group(3)), width)
            if abs(len(m.group(2)) - c * scale) > 1.000001 or len(m.group(2)) > width:
                return "the bar of %d is %d long, the greatest is %d" % (c, len(m.group(2)), max(counts))
        if len({len(x) - len(str(c)) for x, c in zip(lines[1:], counts)}) > 1:
            return "the lines aren't aligned"
    go("histd/%d" % i, "hist", args + (["-w", w] if w else []), text, judge)


def hist_bad():
    go("hist/1", "hist", ["-n", 1], b"1\n", refused)
    go("hist/0", "hist", ["-n", 0], b"1\n2\n", refused)
    go("hist/x", "hist", [], b"1\nx\n", refused)
    go("hist/inf", "hist", [], b"1\ninf\n", refused)
    go("hist/none", "hist", ["-r"], b"", lambda res: None if res.rc == 0 else "status %s" % res.rc)


def prog_avg(r, i):
    w = r.choice([None, 1, 2, 3, 4, 10])
    n = r.choice([0, 1, 3, 5, 20])
    t = datetime.datetime(2024, 1, 1) + datetime.timedelta(seconds=r.randrange(10**8))
    rows = []
    for _ in range(n):
        t += datetime.timedelta(milliseconds=r.randrange(100000))
        rows.append((t.strftime("%Y-%m-%dT%H:%M:%S.") + "%03dZ" % (t.microsecond // 1000), r.choice([0, 1, -5, r.randrange(10**6), 2**31 - 1, -2**31])))
    text = "".join("%s\t%d\n" % x for x in rows)
    if r.random() < 0.3:
        text = text[:-1]
    k = w or 5
    want = [(rows[j + k // 2][0], sum(x[1] for x in rows[j:j + k]) / k) for j in range(n - k + 1)]

    def judge(res):
        if res.rc:
            return "status %s: %s" % (res.rc, res.etext[-200:])
        got = [x.split("\t") for x in res.text.split("\n")[:-1]]
        if len(got) != len(want):
            return "%d lines instead of %d" % (len(got), len(want))
        for g, x in zip(got, want):
            if g[0] != x[0] or abs(float(g[1]) - x[1]) > 0.0501 + abs(x[1]) * 1e-12:
                return "%r instead of %r" % (g, x)
    go("avg/%d" % i, "avg", ["-w", w] if w else [], text.encode(), judge)


def avg_bad():
    go("avg/0", "avg", ["-w", 0], b"2024-01-01T00:00:00Z\t1\n", refused)
    go("avg/novalue", "avg", ["-w", 1], b"2024-01-01T00:00:00Z\n", lambda res: None if res.rc in (0, 1) else "status %s" % res.rc)


LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ1234567890"
SPECIAL = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"


def prog_rand(r, i):
    a = r.choice([None, "a", "n", "s", "an", "as", "sn", "ans", "nn"])
    n = r.choice([None, 0, 1, 2, 7])
    l = r.choice([None, 0, 1, 5, 64])
    seed = r.getrandbits(r.choice([3, 32, 64]))
    args = (["-a", a] if a else []) + (["-n", n] if n is not None else []) + (["-l", l] if l is not None else [])
    sel = a or "an"
    alpha = set((LETTERS if "a" in sel else "") + ("0123456789" if "n" in sel else "") + (SPECIAL if "s" in sel else ""))
    outs = []

    def judge(res):
        if res.rc:
            return "status %s: %s" % (res.rc, res.etext[-200:])
        lines = res.text.split("\n")[:-1]
        outs.append(res.text)
        if len(lines) != (1 if n is None else n) or any(len(x) != (16 if l is None else l) for x in lines):
            return "prints %r" % lines
        if set("".join(lines)) - alpha:
            return "characters outside the alphabet: %r" % (set("".join(lines)) - alpha)
        if len(outs) > 1 and outs[0] != outs[1]:
            return "the same seed gave %r and %r" % (outs[0], outs[1])
    go("rand/%d" % i, "rand", args + ["-s", seed], b"", judge)
    go("rand/%d" % i, "rand", args + ["-s", seed], b"", judge)


def rand_all(a, alpha):
    # all characters turn up, and about equally often
    def judge(res):
        c = collections.Counter(res.text.replace("\n", ""))
        n = sum(c.values())
        if n != 40000:
            return "%d characters instead of 40000" % n
        if set(c) != set(alpha):
            return "the characters %r never turn up, %r do" % (set(alpha) - set(c), set(c) - set(alpha))
        return fair([c[x] for x in sorted(set(alpha))], [alpha.count(x) / len(alpha) for x in sorted(set(alpha))], "characters of rand -a " + a)
    go("rand/all/" + a, "rand", ["-a", a, "-n", 400, "-l", 100, "-s", 12345], b"", judge)


def rand_other(r):
    seen = set()
    for k in range(6):
        go("rand/seeds/%d" % k, "rand", ["-s", k, "-l", 30], b"", lambda res: seen.add(res.text))
    if len(seen) < 6:
        ck.violation("rand/seeds", "different seeds gave the same strings", {"seen": repr(seen)})
    go("rand/sel", "rand", ["-a", "x"], b"", refused)


def prog_markov(r, i):
    alpha = r.choice(["ab", "abc", "xyzé", "aбв€", "a😀b", "lmnop"])
    words = ["".join(r.choice(alpha) for _ in range(r.choice([1, 2, 3, 5, 9]))) for _ in range(r.choice([1, 2, 5, 20]))]
    if r.random() < 0.05:
        words.append("".join(r.choice("qrst") for _ in range(r.choice([98, 99, 100, 101, 250]))))
    lines = list(words)
    if r.random() < 0.2:
        lines.insert(r.randrange(len(lines) + 1), "")
    text = "\n".join(lines) + ("\n" if r.random() < 0.8 else "")
    pairs = set()
    for w in words:
        s = "\0" + w + "\0"
        pairs |= set(zip(s, s[1:]))

    def judge(res):
        if res.rc:
            return "status %s: %s" % (res.rc, res.etext[-200:])
        got = res.out.decode("utf-8", "replace").split("\n")[:-1]
        if len(got) != 10:
            return "%d words instead of 10" % len(got)
        for w in got:
            s = "\0" + w + "\0"
            for p in zip(s, s[1:]):
                if p not in pairs:
                    return "the word %r has %r, which isn't in the input" % (w, p)
            if not w:
                return "an empty word"
    go("markov/%d" % i, "markov", [], text.encode(), judge)


def markov_variety():
    def none(res):
        if res.rc == 0 or res.out:
            return "no words were given but it wrote %r, status %s" % (res.out[:80], res.rc)
    go("markov/none", "markov", [], b"", none)
    go("markov/empty", "markov", [], b"\n\n", none)

    def judge(res):
        words = res.text.split("\n")[:-1]
        if len(set(words)) < 2:
            return "ten words from 26 starting letters are all %r" % words[0]
    go("markov/variety", "markov", [], "".join("%c%c\n" % (97 + k, 97 + (k * 7) % 26) for k in range(26)).encode(), judge)
    got = []
    for k in range(20):
        go("markov/often/%d" % k, "markov", [], b"xb\n" * 150 + b"xc\n" + b"xb\n" * 150, lambda res: got.extend(res.text.split()))
    if len(got) != 200 or got.count("xc") > 30:
        ck.violation("markov/often", "%d of %d words are the one seen once in 301" % (got.count("xc"), len(got)), {"words": got})
    go("markov/empty", "markov", [], b"", refused)


def main_check():
    ck.build_che()

    def build(p):
        if p == "numbers":
            BIN[p] = ck.harness("numbers")
            return
        BIN[p] = os.path.join(ck.scratch, "prog-" + p)
        res = ck.che_build(os.path.join(REPO, "prog", p, p + ".c"), BIN[p])
        if res.rc != 0 or not os.path.exists(BIN[p]):
            raise CheckError("%s does not build: %s %s" % (p, res.text[-500:], res.etext[-1500:]))
    ck.pmap(build, ["numbers"] + PROGS)
    r = ck.rng("cases")
    cases = [Case("top", expect("1"), "top")]
    for fn, q, t in ((stats_case, 1500, 20000), (norm_case, 150, 2000), (sample_case, 120, 1500), (intn_case, 80, 1000), (u_case, 30, 400), (complex_case, 300, 4000), (fft_case, 350, 4000)):
        for i in range(ck.n(q, t)):
            cases.append(fn(r, i))
    for n in list(range(1, 65)) + [125, 200, 210, 256, 243, 343]:
        cases.append(fft_case(r, 100000, n))
    run_cases(ck, BIN["numbers"], cases, batch=60)
    # the same seed gives the same sequence, also in another process; other seeds and no seed give others
    seqs = [Case("seq %d %d 40" % (s, n), lambda rep: None, "seq") for s in (0, 1, 2, 12345, 2**63, 2**64 - 1) for n in (10, 1000, 2**32 - 1)]
    again = [Case(c.line, lambda rep, c=c: None if rep == c.reply else "the same seed gave %r first" % c.reply[:100], "seq/again") for c in seqs]
    run_cases(ck, BIN["numbers"], seqs)
    run_cases(ck, BIN["numbers"], again + again[::-1])
    if len({c.reply.split()[-1] for c in seqs}) < 5:
        ck.violation("seq/seeds", "different seeds give the same sequence", {"replies": [c.reply for c in seqs]})
    for c in seqs:
        n = int(c.line.split()[2])
        if any(int(x) >= n for x in c.reply.split()[:-1]):
            ck.violation("seq/range", "a number outside [0, %d): %s" % (n, c.reply), {})
    free = set()
    for _ in range(8):
        free.add(run([BIN["numbers"]], b"seq none 1000000 10\n", env=ck.che_env("san")).text)
    if len(free) < 2:
        ck.violation("seq/unseeded", "every run without a seed gives the same numbers", {"runs": repr(free)})
    jobs = [stats_bad, hist_bad, avg_bad, markov_variety, lambda: rand_other(ck.rng("other")), lambda: rand_all("a", LETTERS), lambda: rand_all("n", "0123456789"),
            lambda: rand_all("s", SPECIAL), lambda: rand_all("sn", "0123456789" + SPECIAL)]
    for fn, q, t in ((prog_stats, 150, 2000), (prog_hist, 250, 3000), (prog_avg, 120, 1500), (prog_rand, 60, 600), (prog_markov, 120, 1500)):
        for i in range(ck.n(q, t)):
            jobs.append(lambda fn=fn, i=i: fn(ck.rng(fn.__name__, i), i))
    ck.pmap(lambda j: j(), jobs)
    ck.sample("greatest deviation from fairness seen: %.2f standard deviations (limit %.1f)" % (worst[0], LIMIT))
    ck.finish()


main(main_check)
