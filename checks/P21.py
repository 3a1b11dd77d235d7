"""P21: times, durations, subtitles and cue sheets are read, converted and written exactly."""
import os, sys, calendar, datetime
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P21", rule="a distinct request (time, duration, cue sheet) or a distinct subtitle file")


# ---- durations ---------------------------------------------------------

def durfmt(us, fmt):
    ms, s, m, h = us // 1000 % 1000, us // 1000000 % 60, us // 60000000 % 60, us // 3600000000
    if fmt == "logfile":
        t = "%f s" % ((ms + 1000 * s) / 1000.0)
        return "%dm %s" % (m + 60 * h, t) if m + 60 * h else t
    if fmt == "mm:ss":
        return "%02d:%02d" % (m + 60 * h, s)
    if fmt == "mm:ss.ms":
        return "%02d:%02d.%03d" % (m + 60 * h, s, ms)
    if fmt == "hh:mm:ss,ms":
        return "%02d:%02d:%02d,%03d" % (h, m, s, ms)
    return ("%d:%02d:%02d.%03d" % (h, m, s, ms)) if h else "%d:%02d.%03d" % (m, s, ms)


def dur_cases(r, n):
    cases = []
    marks = [0, 1, 999, 1000, 9999, 10000, 99999, 100000, 999999, 1000000, 59999999, 60000000, 3599999999, 3600000000, 2147483647, 2147483648, 4294967296, 86400000000,
             36 * 60 * 1000000, 360000000000]
    for _ in range(n):
        us = r.choice([r.choice(marks) + r.choice([0, 0, 1, -1, 1000, 50000]), r.randrange(10 ** r.randrange(1, 13))])
        us = max(0, us)
        f = r.choice(["logfile", "mm:ss", "mm:ss.ms", "hh:mm:ss,ms", "[h]:mm:ss.mmm"])
        want = durfmt(us, f)
        for size in (100, len(want) + 1, len(want)):
            cases.append(Case("durfmt %d %s %d" % (us, hx(f), size), expect(hx(want) if size > len(want) else "small"), "fmt/" + f, us))
        # parsing
        h, m, s = r.choice([None, 0, 1, 10, 99, 500]), r.choice([0, 5, 35, 36, 59, 60, 71, 99, 1000]), r.randrange(60)
        frac = r.choice(["", "", ".5", ".05", ".123", ".29", ".999999", ".1234567", ".000001", ".0000009", ".57", ".", ".12345678901234"])
        if h is not None:
            m %= 60
        t = ("" if h is None else "%02d:" % h) + r.choice(["%d:%02d", "%02d:%02d", "%d:%d"]) % (m, s) + frac
        us = ((h or 0) * 3600 + m * 60 + s) * 10**6 + int((frac[1:] + "000000")[:6] if len(frac) > 1 else 0)
        tail = r.choice(["", "", " title", "x"])
        cases.append(Case("durparse %s" % hx(t + tail), expect("1 0 %d" % us), "parse", t))
        a, b = r.randrange(10**6), r.randrange(10**6)
        cases.append(Case("durops %d %d" % (a, b), expect("%d %d %d %d" % (a * 1000, b * 10**6, b * 6 * 10**7, a * 1000 + b * 10**6)), "ops"))
    for bad in ("", "abc", ":10", "12", "x1:20", " 1:20", "-1:20"):
        cases.append(Case("durparse %s" % hx(bad), lambda rep: None if rep.startswith("0 1 ") else "not refused", "parse-bad", bad))
    return cases


# ---- times -------------------------------------------------------------

def randtime(r):
    y = r.choice([1970, 1972, 1999, 2000, 2001, 2004, 2023, 2024, 2025, 2026, 2037, 2038, 2039, 2099, 2100, 2101, r.randrange(1971, 2300)])
    mo = r.choice([1, 2, 2, 3, 3, 10, 10, 12, r.randrange(1, 13)])
    last = calendar.monthrange(y, mo)[1]
    d = r.choice([1, last, last, r.randrange(1, last + 1), 25, 26, 27, 28, 29])
    d = min(d, last)
    h, mi, s = r.choice([(0, 0, 0), (23, 59, 59), (0, 59, 59), (r.randrange(24), r.choice([0, 1, 29, 30, 59]), r.randrange(60)), (r.randrange(24), r.randrange(60), r.randrange(60))])
    return y, mo, d, h, mi, s


def isotext(r, t, zones=True):
    frac = r.choice(["", "", ".1", ".12", ".123", ".999", ".000", ".001", ".5000", ".278901", ".01"])
    z = r.choice(["Z", "Z", "Z", "+00:00"] + (["+02:00", "-05:00", "+05:45", "-03:30", "+14:00", "-12:00", "-00:30"] if zones else []))
    ms = int((frac[1:] + "000")[:3]) if frac else 0
    off = 0 if z == "Z" else (int(z[1:3]) * 60 + int(z[4:])) * (-1 if z[0] == "-" else 1)
    return "%04d-%02d-%02dT%02d:%02d:%02d%s%s" % (t + (frac, z)), ms, off


def unix(t, off):
    return calendar.timegm(t + (0, 0, 0)) - off * 60


def time_cases(r, n):
    cases = []
    for _ in range(n):
        t = randtime(r)
        s, ms, off = isotext(r, t)
        sign = -1 if off < 0 else 1
        zh, zm = sign * (abs(off) // 60), sign * (abs(off) % 60)
        fmt = "%04d-%02d-%02dT%02d:%02d:%02d.%03d" % (t + (ms,)) + ("Z" if off == 0 else "%s%02d:%02d" % ("-" if off < 0 else "+", abs(zh), abs(zm)))
        u = unix(t, off)
        loc = time.localtime(u)[:6]
        head = " ".join(map(str, t + (ms, zh, zm)))
        tail = " ".join(map(str, loc + (ms, 0, 0)))
        for size in (100, len(fmt) + 1, len(fmt)):
            cases.append(Case("iso %s %d" % (hx(s), size), expect("%s %s %s" % (head, hx(fmt) if size > len(fmt) else "small", tail)), "iso", s))
        t2 = randtime(r) if r.random() < 0.6 else t[:3] + (r.randrange(24),) + t[4:]
        s2, ms2, off2 = isotext(r, t2)
        cases.append(Case("sub %s %s" % (hx(s), hx(s2)), expect(str((u - unix(t2, off2)) * 1000 + ms - ms2)), "sub", [s, s2]))
        v = r.choice([u, r.randrange(-10**9, 5 * 10**9), 0, -1, 86399, 86400, 951782400, 951868799, 2**31, 2**32])
        g = time.gmtime(v)[:6]
        cases.append(Case("unix %d" % v, expect(" ".join(map(str, g + (0, 0, 0)))), "unix", v))

    def now(rep):
        w = list(map(int, rep.split()))
        got = calendar.timegm(tuple(w[:6]) + (0, 0, 0))
        if abs(got - time.time()) > 600 or not 0 <= w[6] < 1000:
            return "the current time is told as %s" % rep
    cases.append(Case("now", now, "now"))
    return cases


def refused(rep):
    if not rep.startswith("!1"):
        return "not refused: %s" % rep[:100]


refused.accepts_exit = True


def bad_times(r, n):
    cases = []
    for _ in range(n):
        s = isotext(r, randtime(r))[0]
        k = r.randrange(4)
        if k == 0:
            s = s[:r.randrange(len(s) - 6) if s[-1] != "Z" else r.randrange(len(s))]
        elif k == 1:
            i = r.choice([4, 7, 10, 13, 16])
            s = s[:i] + r.choice("x _;") + s[i + 1:]
        elif k == 2:
            s = s.replace("Z", "X").replace("+", "#")
            if "-" in s[19:]:
                s = s[:19] + "?"
        else:
            s = r.choice(["", "-", "T", "2020", "yesterday", "2020-01-01", "2020-01-01 10:00:00Z", "2020-01-01T10:00Z", "2020-01-01T10:00:00"])
        cases.append(Case("iso %s 100" % hx(s), refused, "iso-bad", s))
    return cases


# ---- cue sheets --------------------------------------------------------

def text(r, n, bad="\"\n\r\0"):
    s = "".join(r.choice(["a", "b", "Z", " ", "'", "(", "\u00e9", "\u65e5", "-", ".", "1", ",", "\\", "#", "&", "%s"]) for _ in range(n))
    return "".join(c for c in s if c not in bad)


def fit(s, n):
    while len(s.encode()) > n:
        s = s[:-1]
    return s


def cue_cases(r, n):
    cases = []
    for _ in range(n):
        nl = r.choice(["\n", "\n", "\r\n"])
        out = []
        for _ in range(r.randrange(4)):
            out.append(r.choice(['REM GENRE "%s"' % fit(text(r, 5), 50), "REM DATE 2006", 'PERFORMER "%s"' % fit(text(r, 9), 99), 'TITLE "%s"' % fit(text(r, 9), 99), "REM COMMENT x " + fit(text(r, 200), 900)]))
        if r.random() < 0.7:
            out.append('FILE "%s" %s' % (fit(text(r, r.choice([5, 90])), 99), r.choice(["MP3", "WAVE"])))
        tracks = []
        for i in range(r.choice([0, 1, 2, 10, 30, 99, 100])):
            ind = r.choice(["", "  ", "\t", "    "])
            t = fit(text(r, r.choice([0, 1, 10, 99])), 99)
            mi, s, f = r.choice([0, 4, 59, 60, 99, 600]), r.randrange(60), r.choice([0, 0, 1, 37, 74, r.randrange(75)])
            out.append(ind + "TRACK %02d AUDIO" % (i + 1))
            body = [ind * 2 + 'TITLE "%s"' % t, ind * 2 + 'PERFORMER "%s"' % fit(text(r, 6), 99)]
            if r.random() < 0.5:
                body.reverse()
            out += body
            if r.random() < 0.3:
                out.append(ind * 2 + "INDEX 00 %02d:%02d:%02d" % (mi, s, f))
                f = r.randrange(75)
                mi += 1
            out.append(ind * 2 + "INDEX 01 %02d:%02d:%02d" % (mi, s, f))
            tracks.append((mi * 60 + s, f, t))
            if r.random() < 0.1:
                out.append("")
        doc = nl.join(out) + r.choice([nl, nl, "", nl * 2] if out else [""])

        def judge(rep, tracks=tracks):
            w = rep.split()
            if w[0] != str(len(tracks)) or w[-2:] != ["1", "1"] or len(w) != 3 + 2 * len(tracks):
                return "%s tracks, leftovers %s" % (w[0], w[-2:])
            for i, (sec, f, t) in enumerate(tracks):
                us = int(w[1 + 2 * i])
                if abs(us - (sec * 10**6 + Fraction(f * 10**6, 75))) >= 1:
                    return "track %d is at %d us instead of %d:%02d and %d frames" % (i + 1, us, sec // 60, sec % 60, f)
                if unhx(w[2 + 2 * i]).decode("utf-8", "replace") != t:
                    return "title of track %d: %r" % (i + 1, unhx(w[2 + 2 * i]))
        cases.append(Case("cue %s" % hx(doc), judge, "cue", doc[:1000]))
    # too many tracks, index before any track: an error and no sheet
    for doc in ("".join("TRACK %02d AUDIO\n" % i for i in range(101)), "INDEX 01 00:00:00\n", "TITLE \"x\"\nINDEX 01 00:00:00\n"):
        cases.append(Case("cue %s" % hx(doc), expect("error 1 1"), "cue-bad", doc[:100]))
    for doc in ("BLAH 1\n", "TRACK x AUDIO\n", "TRACK 01 AUDIO\nTITLE \"unfinished\n", "TITLE noquotes\n", "TRACK 01 AUDIO\nINDEX 01 00:00\n", "TRACK 01 AUDIO\nINDEX x\n",
                'TITLE "%s"\n' % ("t" * 100), 'TITLE "%s"\n' % ("t" * 5000), "TRACK 01 AUDIO\nINDEX 01 " + "0" * 400 + ":00:00\n", "X" * 3000 + "\n", "TRACK 01 AUDIO\nINDEX 02 00:00:00\n"):
        cases.append(Case("cue %s" % hx(doc), refused, "cue-refuse", doc[:100]))
    return cases


def clock_cases(r, n):
    """The current time lies between two readings of the clock; sleeping takes as long as asked, not much longer."""
    cases = []

    def between(rep):
        w = list(map(int, rep.split()))
        t = datetime.datetime(*w[1:7], w[7] * 1000, tzinfo=datetime.timezone.utc)
        us = int(t.timestamp()) * 10**6 + w[7] * 1000
        if not w[0] // 1000 * 1000 <= us <= w[-1]:
            return "the clock went from %d to %d us, the time read in between is %s" % (w[0], w[-1], t)
    for _ in range(n):
        cases.append(Case("clock", between, "clock"))
        cases.append(Case("sleep %d" % r.randrange(3000), lambda rep: None, "sleep"))
    for us in (0, 1, 999, 1000, 1500, 20000, 250000, 999999, 1000000, 1000001, 1250000):
        def slept(rep, us=us):
            ok, ns = map(int, rep.split())
            if not ok or ns < us * 1000:
                return "sleeping %d us took %d ns, result %d" % (us, ns, ok)
            if ns > us * 1000 + 20 * 10**9:
                return "sleeping %d us took %d s" % (us, ns // 10**9)
        cases.append(Case("sleep %d" % us, slept, "sleep", us))
    return cases


def any_of(rep):
    """Broken input: anything but a crash."""
    return None


any_of.accepts_exit = True


# ---- subtitles ---------------------------------------------------------

def line(r, n):
    s = text(r, n).replace("<", "").strip()
    return s or "x"


def stamp(ms, sep):
    return "%02d:%02d:%02d%s%03d" % (ms // 3600000, ms // 60000 % 60, ms // 1000 % 60, sep, ms % 1000)


def srt_doc(r):
    nl = r.choice(["\n", "\r\n"])
    blocks, out, t = [], [], r.choice([0, 5, 3599000, 35999990])
    i = r.choice([1, 1, 1, 7])
    for _ in range(r.choice([1, 1, 2, 5, 20])):
        t += r.choice([1, 10, 99, 100, 999, 1000, 61234, 3600000])
        b = t
        t += r.choice([1, 50, 1500, 2000])
        lines = [r.choice([lambda: line(r, r.choice([1, 20, 60])), lambda: str(r.choice([1, 2, 42, 1999])), lambda: "- " + line(r, 10), lambda: '"%s" <i>x</i>' % line(r, 5)])()
                 for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < 0.05:
            lines = []
        if r.random() < 0.05:
            lines = [line(r, 220) for _ in range(2)]
        rng = stamp(b, ",") + " --> " + stamp(t, ",")
        txt = "\n".join(lines)
        if len(txt.encode()) > 980:
            txt, lines = "x", ["x"]
        out += [str(i), rng] + lines + [""] * r.choice([1, 1, 1, 2])
        blocks.append((i, rng, txt, b, t))
        i += 1
    doc = nl.join(out)
    if blocks[-1][2]:
        doc = doc.rstrip("\r\n") + r.choice(["", nl, nl, nl * 2, nl * 3])
    else:
        doc += nl
    return doc, blocks


def srt_check(binary, adjust, r, i):
    doc, blocks = srt_doc(r)
    res = run([binary], doc.encode(), env=ck.che_env("san"), timeout=60)
    ck.saw("srt/" + hashlib.md5(doc.encode()).hexdigest())
    ck.count("subtitles", len(blocks))
    what = res.san or ("rc=%s %s" % (res.rc, res.etext[-200:]) if res.rc else None)
    if not what:
        try:
            got = [json.loads(x) for x in res.text.split("\n") if x]
            want = [{"n": n, "range": rng, "text": t} for n, rng, t, _, _ in blocks]
            if got != want:
                k = next((k for k, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                what = "%d of %d subtitles; number %d came as %s instead of %s" % (len(got), len(want), k + 1, got[k:k + 1], want[k:k + 1])
        except ValueError as e:
            what = "the output is not JSON: %s" % e
    if what:
        ck.violation("srt2jsonl", what[:600], {"input": doc, "output": res.text[:3000], "stderr": res.etext[-2000:]})
    # adjusting
    h1, h2 = r.choice([(0, 1000), (blocks[0][3], blocks[0][3] + 60000), (10000, 4000000)])
    k = r.choice([Fraction(1), Fraction(1), Fraction(25, 24), Fraction(24, 25), Fraction(2), Fraction(1001, 1000)])
    w1 = h1 * k + r.choice([0, 500, 3600000, 1])
    w1 = w1.numerator // w1.denominator
    w2 = w1 + int((h2 - h1) * k)
    k = Fraction(w2 - w1, h2 - h1)
    s = w1 - h1 * k
    if any(x * k + s < 0 for b in blocks for x in (b[3], b[4])):
        return
    args = [stamp(x, ",") for x in (h1, w1, h2, w2)]
    res = run([adjust] + args, doc.encode(), env=ck.che_env("san"), timeout=60)
    ck.saw("adj/" + hashlib.md5((doc + str(args)).encode()).hexdigest())
    what = res.san or ("rc=%s %s" % (res.rc, res.etext[-200:]) if res.rc else None)
    if not what:
        want = ""
        pos = 0
        out = res.text
        for n, rng, t, b, e in blocks:
            m = re.compile(r"(\d+)\n(\d+):(\d\d):(\d\d),(\d{3}) --> (\d+):(\d\d):(\d\d),(\d{3})\n", re.A).match(out, pos)
            if not m or int(m.group(1)) != n:
                what = "subtitle %d is written as %r" % (n, out[pos:pos + 100])
                break
            v = list(map(int, m.groups()))
            got = [((v[1] * 60 + v[2]) * 60 + v[3]) * 1000 + v[4], ((v[5] * 60 + v[6]) * 60 + v[7]) * 1000 + v[8]]
            if any(abs(g - (x * k + s)) > 1 for g, x in zip(got, (b, e))):
                what = "subtitle %d was moved from %s to %s, expected %s" % (n, (b, e), got, [float(x * k + s) for x in (b, e)])
                break
            pos = m.end()
            if not out.startswith(t + "\n\n", pos):
                what = "text of subtitle %d: %r instead of %r" % (n, out[pos:pos + 100], t)
                break
            pos += len(t) + 2
        else:
            if pos != len(out):
                what = "extra output %r" % out[pos:pos + 100]
    if what:
        ck.violation("srtadjust", what[:600], {"args": args, "input": doc, "output": res.text[:3000], "stderr": res.etext[-2000:]})


def vtt_doc(r):
    nl = r.choice(["\n", "\n", "\r\n"])
    out = ["WEBVTT"] + r.sample(["Kind: captions", "Language: de", "X: y: z"], r.randrange(3)) + [""]
    cues, t = [], 0
    for _ in range(r.choice([0, 1, 2, 10, 40])):
        t += r.choice([1, 100, 1000, 3600000])
        b = t
        t += r.choice([1, 999, 2270])
        rng = stamp(b, ".") + " --> " + stamp(t, ".")
        lines, txt = [], ""
        if not cues and r.random() < 0.3:
            # the text as long as some power of two times 100
            n = r.choice([100, 200, 400, 800, 1600, 3200]) - r.choice([0, 1, 1, 2, 3])
            k = r.choice([1, 5, 20, n // 2])
            lines = ["a" * k, "b" * (n - k - 1)]
            out += [rng] + lines + [""]
            cues.append((rng, "\n".join(lines)))
            continue
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            # a line in pieces, some of them tags
            parts, clean = "", ""
            for _ in range(r.choice([1, 2, 4])):
                if r.random() < 0.4 and parts.count("<") < 5:
                    parts += r.choice(["<c>", "</c>", "<00:00:01.000>", "<i>", "<c.color>"])
                s = line(r, r.choice([1, 10, 30, 110])).replace(">", "")
                if r.random() < 0.05:
                    s = line(r, r.choice([300, 900, 1500])).replace(">", "")
                if len((parts + s).encode()) > 4000:
                    break
                parts += s
                clean += s
            lines.append(parts)
            txt = txt + "\n" + clean if txt else clean
        out += [rng + r.choice(["", "", " align:start position:0%"])] + lines + [""] * r.choice([1, 1, 2])
        cues.append((rng, txt))
    doc = nl.join(out)
    if cues:
        doc = doc.rstrip("\r\n") + r.choice(["", nl, nl * 2, nl * 3])
    else:
        doc += nl
    return doc, cues


def vtt_check(binary, r, i):
    doc, cues = vtt_doc(r)
    res = run([binary], doc.encode(), env=ck.che_env("san"), timeout=60)
    ck.saw("vtt/" + hashlib.md5(doc.encode()).hexdigest())
    ck.count("subtitles", len(cues))
    what = res.san or ("rc=%s %s" % (res.rc, res.etext[-200:]) if res.rc else None)
    if not what:
        try:
            got = [json.loads(x) for x in res.text.split("\n") if x]
            got = [(x["range"].strip(), x["text"]) for x in got]
            if got != cues:
                k = next((k for k, (x, y) in enumerate(zip(got, cues)) if x != y), min(len(got), len(cues)))
                what = "%d of %d subtitles; number %d came as %s instead of %s" % (len(got), len(cues), k + 1, got[k:k + 1], cues[k:k + 1])
        except (ValueError, KeyError) as e:
            what = "the output is not as expected: %s" % e
    if what:
        ck.violation("vtt2jsonl", what[:600], {"input": doc[:5000], "output": res.text[:3000], "stderr": res.etext[-2000:]})


def broken(progs, r, i):
    """Cut and mangled files: refused or read, but nothing outside the buffers is touched."""
    kind = r.choice(["srt2jsonl", "srtadjust", "vtt2jsonl"])
    doc = (vtt_doc(r) if kind == "vtt2jsonl" else srt_doc(r))[0].encode()
    k = r.randrange(6)
    if k == 0:
        doc = doc[:r.randrange(len(doc) + 1)]
    elif k == 1:
        doc = bytearray(doc)
        for _ in range(r.choice([1, 5, 30])):
            doc[r.randrange(len(doc))] = r.choice([r.randrange(256), 10, 48, 45, 58])
        doc = bytes(doc)
    elif k == 2:
        p = r.randrange(len(doc))
        doc = doc[:p] + r.choice([b"9", b"a", b"\n", b"0:"]) * r.choice([30, 39, 40, 41, 100, 990, 1000, 1010, 4094, 4095, 4096, 4097, 10000]) + doc[p:]
    elif k == 3:
        doc = doc.replace(b" --> ", r.choice([b"-->", b" ->", b" --> 9", b""]))
    elif k == 4:
        doc = r.randbytes(r.choice([0, 1, 50, 5000]))
    else:
        doc = r.choice([b"", b"\n", b"\n\n\n", b"1", b"1\n", b"1\n00:00:01,000 --> 00:00:02,000", b"WEBVTT", b"WEBVTT\n", b"WEBVTT\n\n", b"\xef\xbb\xbf1\n", b"WEBVTT\n\n00:00:01.000 --> "])
    res = run([progs[kind]] + (["00:00:01,000", "00:00:02,000", "00:01:01,000", "00:01:02,000"] if kind == "srtadjust" else []), doc, env=ck.che_env("san"), timeout=60)
    ck.saw("broken/" + kind + hashlib.md5(doc).hexdigest())
    ck.count("broken_files")
    if res.san or res.timeout or res.rc not in (0, 1):
        ck.violation("broken/%s" % kind, res.san or "rc=%s timeout=%s" % (res.rc, res.timeout), {"input": doc.hex(), "stderr": res.etext[-3000:]})


def main_check():
    ck.build_che()
    binary = ck.harness("timeh")
    progs = {}
    for p in ("srt2jsonl", "srtadjust", "vtt2jsonl"):
        progs[p] = os.path.join(ck.scratch, p)
        res = ck.che_build(os.path.join(REPO, "prog", p, p + ".c"), progs[p])
        if res.rc != 0:
            raise CheckError("%s does not build: %s %s" % (p, res.text[-500:], res.etext[-1500:]))
    run_cases(ck, binary, dur_cases(ck.rng("dur"), ck.n(500, 10000)), tag="dur/")
    r = ck.rng("time")
    for tz in ("UTC", "XYZ-5:45", "EET-2EEST,M3.5.0/3,M10.5.0/4", "PST8PDT,M3.2.0,M11.1.0", "ABC12", "DEF-14", "NST3:30", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"):
        os.environ["TZ"] = tz
        time.tzset()
        env = ck.che_env("san")
        env["TZ"] = tz
        cs = time_cases(r, ck.n(120, 3000))
        run_cases(ck, binary, cs, tag="time/%s/" % tz, env=env)
    os.environ["TZ"] = "UTC"
    time.tzset()
    run_cases(ck, binary, bad_times(ck.rng("bad"), ck.n(100, 1000)), tag="time/", batch=20)
    run_cases(ck, binary, clock_cases(ck.rng("clock"), ck.n(60, 600)), tag="clock/", batch=20)
    pos = []
    for _ in range(200):
        ms = r.choice([0, 999, 1000, 3599999, 2147483647, r.randrange(10**9)])
        pos.append(Case("srtpos %s" % hx(stamp(ms, ",")), expect(str(ms * 1000)), "srtpos", stamp(ms, ",")))
    run_cases(ck, binary, pos, tag="srt/")
    run_cases(ck, binary, cue_cases(ck.rng("cue"), ck.n(150, 3000)), tag="cue/")
    junk = []
    r = ck.rng("junk")
    for c in cue_cases(r, ck.n(150, 3000)):
        doc = unhx(c.line.split()[1])
        if not doc:
            continue
        doc = bytearray(doc)
        for _ in range(r.choice([1, 3, 10])):
            p = r.randrange(len(doc))
            doc[p:p + r.choice([0, 1, 1, 5])] = r.choice([b"", b"\"", b"\n", b"TRACK ", b"INDEX ", bytes([r.randrange(1, 256)]), b"x" * r.choice([100, 300, 1000])])
        junk.append(Case("cue %s" % hx(bytes(b or 1 for b in doc)), any_of, "cue-junk"))
    run_cases(ck, binary, junk, tag="cue/", batch=10)
    ck.pmap(lambda i: srt_check(progs["srt2jsonl"], progs["srtadjust"], ck.rng("srt", i), i), range(ck.n(150, 3000)))
    ck.pmap(lambda i: vtt_check(progs["vtt2jsonl"], ck.rng("vtt", i), i), range(ck.n(150, 3000)))
    ck.pmap(lambda i: broken(progs, ck.rng("broken", i), i), range(ck.n(400, 6000)))
    ck.sample("2024-03-31T03:00:00.5+02:00 under TZ=EET-2EEST: parsed, formatted, converted to local time, subtracted")
    ck.sample("srt file with lines of digits and CRLF: every subtitle once, with its text")
    ck.finish()


main(main_check)
