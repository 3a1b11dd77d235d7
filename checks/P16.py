"""P16: strings, tokens, lines, bytes, UTF-8 and tables are taken apart and put together as documented, within their buffers."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P16", rule="a distinct request (operation and operands) whose reply was compared with a reference")
WS = b" \t\n\v\f\r"


def text(r, alpha=b"ab :,\t\nXy\xc3\xa9\xff", top=40):
    n = r.choice([0, 1, 1, 2, 3, 5, 9, r.randrange(top + 1)])
    return bytes(r.choice(alpha) for _ in range(n))


def low(b):
    return bytes(c + 32 if 65 <= c <= 90 else c for c in b)


# ---- strings ---------------------------------------------------------------

def strings_part(out):
    r = ck.rng("str")

    def add(op, a, b, want, n1=None, n2=None):
        line = "str %s %s %s" % (op, hx(a), hx(b)) + ("" if n1 is None else " %d %d" % (n1, n2))
        out.append(Case(line, expect("%s 1" % want), "str/%s" % op, "%s %r %r %s %s" % (op, a, b, n1, n2)))

    for _ in range(ck.n(3000, 40000)):
        op = r.choice(["trim", "rtrim", "casecmp", "starts", "startsi", "ends", "eq", "upper", "newstr", "newsubstr", "split", "size", "digit"])
        if op == "trim":
            # the characters that both ends take for spaces
            t = text(r, b" \t\r\na \xe9b")
            add(op, t, b"", hx(t.strip(b" \t\r\n")))
        elif op == "rtrim":
            t, s = text(r, b"abc/;\xff"), text(r, b"abc/;\xff", 5)
            add(op, t, s, hx(t.rstrip(s) if s else t))
        elif op in ("casecmp", "starts", "startsi", "ends", "eq"):
            alpha = r.choice([b"ab", b"aA", b"aAzZ[@{`", b"a\xe9\xc9", b"Qq-"])
            a = text(r, alpha, 8)
            k = r.randrange(4)
            if k == 0:
                b = text(r, alpha, 8)
            elif k == 1:
                b = a[:r.randrange(len(a) + 1)]
            elif k == 2:
                b = a[r.randrange(len(a) + 1):]
            else:
                b = bytearray(a)
                if b:
                    i = r.randrange(len(b))
                    b[i] = b[i] ^ 32 or 32
                b = bytes(b)
            if r.random() < 0.5 and op != "eq":
                b = bytes(c ^ 32 if (65 <= c <= 90 or 97 <= c <= 122) and r.random() < 0.5 else c for c in b)
            if r.random() < 0.3:
                a, b = b, a
            w = {"casecmp": low(a) == low(b), "starts": a.startswith(b), "startsi": low(a).startswith(low(b)),
                 "ends": a.endswith(b), "eq": a == b}[op]
            add(op, a, b, int(w))
        elif op == "upper":
            t = text(r, r.choice([b"ABZ09 -", b"ABCa", b"A\xe9\xc9[", b"z"]))
            add(op, t, b"", int(not any(97 <= c <= 122 for c in t)))
        elif op == "newstr":
            a, b, n = text(r, top=3000 if r.random() < 0.1 else 20), text(r), r.randrange(-2**31, 2**31)
            add(op, a, b, hx(a + b"%d" % n + b), n, 0)
        elif op == "newsubstr":
            a = text(r)
            i = r.randrange(len(a) + 1)
            j = r.randrange(i, len(a) + 1)
            add(op, a, b"", hx(a[i:j]), i, j)
        elif op == "size":
            n = r.choice([0, 1, 1023, 1024, 1025, 2**20, 2**20 + 1, 2**20 - 1, 2**30, 2**30 + 1, 2**30 - 1, r.randrange(2**20), r.randrange(2**32), r.randrange(2**45)])
            cap = r.choice([1, 2, 5, 20, 40])
            for u, f in ((2**30, "GB"), (2**20, "MB"), (2**10, "KB")):
                if n > u:
                    s = "%.2f %s" % (n / u, f)
                    break
            else:
                s = "%d B" % n
            add(op, str(n).encode(), b"", hx(s[:cap - 1]), cap, 0)
        elif op == "digit":
            n, c = r.randrange(10), r.randrange(256)
            add(op, b"", b"", "%d %d" % (48 + n, c - 48 if 48 <= c <= 57 else -1), n, c)
        elif op == "split":
            sep = r.choice([b",", b"ab", b"aa", b", ", b"\xc3\xa9", b"aba", b"\n"])
            s = bytes(b"".join(r.choice([sep, sep[:1], b"a", b"xyz", b""]) for _ in range(r.randrange(12))))
            n = r.choice([0, 1, 2, 3, 5, 50])
            parts = s.split(sep, n - 1) if n else []
            out.append(Case("split %s %s %d" % (hx(sep), hx(s), n), expect(" ".join([str(len(parts))] + [hx(p) for p in parts] + ["1"])),
                            "split", "%r %r %d" % (sep, s, n)))


# ---- tokenizer -------------------------------------------------------------

class Tok:
    def __init__(s, data):
        s.d, s.p, s.row, s.col = data, 0, 1, 1

    def peek(s):
        return s.d[s.p] if s.p < len(s.d) else -1

    def get(s):
        c = s.peek()
        if c >= 0:
            s.p += 1
            if c == 10:
                s.row += 1
                s.col = 1
            else:
                s.col += 1
        return c

    def take(s, n):
        p = s.p
        for _ in range(n):
            s.get()
        return s.d[p:s.p]

    def run(s, m):
        return s.take(len(m.group(0)))


def tok_op(r, t):
    op = r.choice(["peek", "get", "get", "more", "tail", "skipset", "skip", "readset", "spaces", "hspaces", "id", "num", "lit", "follows", "pos", "skipuntil", "until"])
    rest = t.d[t.p:]
    arg, cap = b"", 0
    if op == "peek":
        w = str(t.peek())
    elif op == "get":
        w = str(t.get())
    elif op == "more":
        w = str(int(t.peek() >= 0))
    elif op == "tail":
        cap = r.choice([1, 2, 5, 20, 99, 100, 101, 120])
        # at most 100 characters are looked ahead
        w = hx(rest[:min(cap - 1, 100)])
    elif op in ("skipset", "readset"):
        arg = r.choice([b"ab", b" \n", b"0123456789", b"\xc3\xa9", b"abcdef_", b""])
        n = 0
        while n < len(rest) and rest[n] in arg:
            n += 1
        got = t.take(n)
        w = "ok" if op == "skipset" else hx(got)
    elif op == "skip":
        arg = r.choice([b"a", b"\n", b"-", rest[:1] if rest and rest[0] < 128 else b"z"])
        w = str(int(t.peek() == arg[0]))
        if w == "1":
            t.get()
    elif op == "spaces":
        n = len(rest) - len(rest.lstrip(WS))
        t.take(n)
        w = str(int(n > 0))
    elif op == "hspaces":
        t.take(len(rest) - len(rest.lstrip(b" \t")))
        w = "ok"
    elif op == "id":
        cap = r.choice([1, 2, 3, 10, 100])
        m = re.match(rb"[A-Za-z_][A-Za-z_0-9]*", rest)
        w = "1 " + hx(t.run(m)[:cap - 1]) if m else "0"
    elif op == "num":
        cap = r.choice([1, 2, 3, 10, 100])
        # longest prefix of the number grammar that the reader commits to
        m = re.match(rb"-?([0-9]+(\.([0-9]+)?)?)?", rest)
        s = m.group(0)
        ok = bool(re.fullmatch(rb"-?[0-9]+(\.[0-9]+)?", s))
        if ok:
            e = re.match(rb"[eE][-+]?([0-9]*)", rest[len(s):])
            if e:
                s += e.group(0)
                ok = bool(e.group(1))
        if s == b"-":
            ok = False
        t.take(len(s))
        if ok and len(s) >= cap:
            ok = False
        w = "1 " + hx(s) if ok else "0"
    elif op in ("lit", "follows"):
        k = r.choice([1, 2, 5, 40, 99, 100])
        arg = rest[:k] if r.random() < 0.6 else r.choice([b"ab", b"//", b"\n", b"null"])
        if arg and r.random() < 0.2:
            arg = arg[:-1] + b"z"
        ok = rest.startswith(arg)
        w = str(int(ok))
        if ok and op == "lit":
            t.take(len(arg))
    elif op == "pos":
        w = "%d:%d" % (t.row, t.col)
    elif op == "skipuntil":
        arg = r.choice([b"ab", b"*/", b"\n", b"\xc3\xa9", b"aab"])
        i = rest.find(arg)
        w = hx(t.take(len(rest) if i < 0 else i))
    elif op == "until":
        arg = r.choice([b"\n", b",", b"a", b"0"])
        cap = r.choice([1, 2, 5, 50, 1000])
        i = rest.find(arg)
        n = len(rest) if i < 0 else i
        if n > cap - 1:
            t.take(cap - 1)
            w = "0"
        else:
            w = "1 " + hx(t.take(n))
    return "%s:%s:%d" % (op, hx(arg), cap), w


def tok_part(out):
    r = ck.rng("tok")
    pieces = [b"abc", b"_x1", b"aaaa", b"aab", b" ", b"\t", b"\n", b"\n\n", b"-12.5e+3", b"0", b"12345678901234567890", b"1.", b"2e", b"-", b"7e-", b"*/", b"//", b"null",
              b"\xc3\xa9", b"\xff", b"\x80", b"\v\f\r", b",", b"0.5", b"x" * 120, b"word9 ", b"1e5 "]
    for i in range(ck.n(1500, 20000)):
        data = b"".join(r.choice(pieces) for _ in range(r.choice([0, 1, 2, 5, 15, 60])))
        if r.random() < 0.02:
            data = r.choice([b"a", b"\xc3\xa9", b" ", b"0"]) * r.choice([9998, 9999, 10000, 10001, 25000]) + data
        t = Tok(data)
        ops, want = [], []
        for _ in range(r.choice([1, 3, 10, 40])):
            o, w = tok_op(r, t)
            ops.append(o)
            want.append(w)
        src = r.choice(["str", "file", "slow:1", "slow:2", "slow:7", "slow:99"])
        out.append(Case("tok %s %s %s" % (src, hx(data), " ".join(ops)), expect(" ".join(want + ["1"])), "tok/" + src.split(":")[0],
                        "%r %s" % (data[:300], ops)))
        ck.count("token_operations", len(ops))


# ---- lines and bytes -------------------------------------------------------

def lines_part(out):
    r = ck.rng("lines")
    for i in range(ck.n(300, 4000)):
        ls = []
        for _ in range(r.choice([0, 1, 2, 5, 30])):
            n = r.choice([0, 1, 5, 80, 4094, 4095, 4096, 8191, 8192, 20000] if r.random() < 0.2 else [0, 1, 5, 80])
            ls.append(bytes(r.choice(b"ab\r\xff \xc3\x80") for _ in range(n)) + b"\n")
        data = b"".join(ls)
        if r.random() < 0.4 and data:
            data = data[:-1]
        want = data.splitlines(True) if False else [x + b"\n" for x in data.split(b"\n")]
        if data.endswith(b"\n") or not data:
            want = want[:-1]
        else:
            want[-1] = want[-1][:-1]
        out.append(Case("lines " + hx(data), expect(" ".join([hx(x) for x in want] + ["0"])), "lines", "%r" % data[:300]))
    for i in range(ck.n(200, 2000)):
        data = bytes(r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(r.choice([0, 1, 4, 20, 60])))
        p = "%s/bytes%d" % (ck.scratch, i)
        with open(p, "wb") as f:
            f.write(data)
        pos, ops, want, over = 0, [], [], False
        for _ in range(r.choice([1, 4, 20])):
            o = r.choice("ccpp24e")
            if o == "p" or o == "c":
                want.append(str(data[pos] if pos < len(data) else -1))
                if pos >= len(data):
                    over = True
                elif o == "c":
                    pos += 1
            elif o in "24":
                k = int(o)
                if pos + k > len(data):
                    continue
                want.append(str(int.from_bytes(data[pos:pos + k], "big")))
                pos += k
            else:
                want.append(str(int(over)))
            ops.append(o)
        out.append(Case("bytes %s %s" % (p, " ".join(ops)) if ops else "bytes " + p, expect(" ".join(want)), "bytes", "%r %s" % (data, ops)))
    out.append(Case("bytes %s/nothing c" % ck.scratch, expect("none"), "bytes/missing"))


# ---- UTF-8 -----------------------------------------------------------------

def encode(c):
    if c > 0x10FFFF:
        c = 0xFFFD
    return chr(c).encode("utf-8", "surrogatepass")


def decode(b):
    """the first rune of b and its length; malformed: U+FFFD and one byte"""
    if not b:
        return 0, 1
    for n in (1, 2, 3, 4):
        try:
            return ord(b[:n].decode("utf-8", "surrogatepass")), n
        except UnicodeDecodeError:
            pass
        except TypeError:
            pass
    return 0xFFFD, 1


def runes(b):
    p, o = 0, []
    while p < len(b):
        c, n = decode(b[p:])
        o.append((c, n, p))
        p += n
    return o


def full(b):
    if not b:
        return False
    need = 1 if b[0] < 0x80 else 2 if b[0] < 0xE0 else 3 if b[0] < 0xF0 else 4
    return len(b) >= need


def someutf(r):
    o = b""
    for _ in range(r.choice([0, 1, 2, 4, 10])):
        k = r.random()
        if k < 0.7:
            o += encode(r.choice([65, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xfffd, 0xd7ff, 0xe000, 0xd800, 0xe9, 0x20ac, 0x1f600, r.randrange(1, 0x110000)]))
        elif k < 0.85:
            o += bytes([r.randrange(1, 256)])
        else:
            o += r.choice([b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80",
                           b"\xf8\x80\x80\x80", b"\xfb\xbf\xbf\xbf", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80"])
    return o.replace(b"\0", b"")


def judge_utf(s, n, c, sub, cap):
    rs = runes(s)

    def judge(rep):
        m = re.fullmatch(r"\[([^\]]*)\](.*)", rep)
        got = [tuple(map(int, x.split(":"))) for x in m.group(1).split(",") if x]
        if got != [(a, b) for a, b, _ in rs]:
            return "decoded as %r, expected %r" % (got, [(a, b) for a, b, _ in rs])
        w = m.group(2).split()
        if int(w[0]) != len(rs):
            return "%s runes instead of %d" % (w[0], len(rs))
        p = k = 0
        while p < n:
            if s[p] >= 0x80 and not full(s[p:n]):
                break
            p += decode(s[p:])[1]
            k += 1
        if int(w[1]) != k or int(w[2]) != k:
            return "%s and %s complete runes in the first %d bytes instead of %d" % (w[1], w[2], n, k)
        if (int(w[3]) != 0) != full(s):
            return "fullrune is %s" % w[3]
        at = [q for a, _, q in rs if a == c]
        want = [str(at[0]) if at else "NULL", str(at[-1]) if at else "NULL"]
        if c == 0:
            want = [str(len(s))] * 2
        if w[4:6] != want:
            return "found %s, expected %s" % (w[4:6], want)
        i = s.find(sub)
        # a match is searched at rune boundaries of valid text
        if valid(s) and valid(sub) and w[6] != (str(i) if i >= 0 else "NULL"):
            return "substring found at %s instead of %d" % (w[6], i)
        if cap == 0:
            return None if w[7] == "0" else "wrote into an empty buffer"
        cp = unhx(w[8])
        if len(cp) >= cap or not s.startswith(cp) or int(w[7]) != len(cp):
            return "copied as %r (end at %s)" % (cp, w[7])
        if len(s) < cap:
            return None if cp == s else "%r copied as %r" % (s, cp)
        if valid(s):
            if not valid(cp):
                return "a rune was cut: %r" % cp
            if len(cp) < cap - 1 - 4:
                return "only %r of %r copied to %d bytes" % (cp, s, cap)
    return judge


def valid(b):
    return all(a != 0xFFFD or b[p:p + n] == b"\xef\xbf\xbd" for a, n, p in runes(b))


def r3(l):
    return b"".join(c.to_bytes(3, "big") for c in l)


def utf_part(out):
    r = ck.rng("utf")
    step = 4096
    spans = [(i, min(i + step, 0x110010)) for i in range(0, 0x110010, step)]
    if ck.quick:
        spans = spans[:20] + r.sample(spans[20:-2], 20) + spans[-2:]
    for a, b in spans:
        w = []
        for c in range(a, b):
            e = encode(c)
            w.append("%s %d %d %d" % (e.hex(), len(e), min(c, 0x110000) if c <= 0x10FFFF else 0xFFFD, len(e)))
        out.append(Case("runes %d %d" % (a, b), expect(" ".join(w)), "runes"))
        ck.count("runes_round_tripped", b - a)
    for i in range(ck.n(3000, 40000)):
        s = someutf(r)
        n = r.randrange(len(s) + 1)
        rs = runes(s)
        c = r.choice(rs)[0] if rs and r.random() < 0.7 else r.choice([0, 65, 0xe9, 0x20ac, 0x10ffff, 0xfffd, 0x41, 0x80])
        sub = s[n:n + r.randrange(6)] if r.random() < 0.5 else someutf(r)[:6]
        if rs and r.random() < 0.5:
            j = r.randrange(len(rs))
            sub = s[rs[j][2]:rs[min(len(rs) - 1, j + r.randrange(3))][2]]
        cap = r.choice([0, 1, 2, 3, 4, 5, 8, len(s), len(s) + 1, len(s) + 5])
        out.append(Case("utf %s %d %d %s %d" % (hx(s), n, c, hx(sub), cap), judge_utf(s, n, c, sub, cap), "utf", "%r %d %x %r %d" % (s, n, c, sub, cap)))
    A = [1, 2, 0x41, 0xe9, 0x20ac, 0x10ffff, 0xffff]
    for i in range(ck.n(2000, 20000)):
        k = r.randrange(1, len(A) + 1)
        a = [r.choice(A[:k]) for _ in range(r.choice([0, 1, 2, 3, 6, 12]))]
        b = [r.choice(A[:k]) for _ in range(r.choice([0, 1, 2, 3, 6]))]
        if r.random() < 0.3:
            j = r.randrange(len(a) + 1)
            b = a[j:j + r.randrange(4)]
        if r.random() < 0.15:
            b = list(a)
        n = r.choice([0, 1, 2, 3, len(a), len(a) + 1, len(b), len(b) + 1, 20])
        c = r.choice(A + [0, 0x42])
        op = r.choice(["cat", "ncat", "chr", "str", "cmp", "cpy", "ncpy", "ecpy", "dup", "len"])

        def lst(l):
            return "".join("%d " % x for x in l) + "|"
        az, bz = a + [0], b + [0]
        if op == "cat":
            w = "1 " + lst(a + bz)
        elif op == "ncat":
            w = "1 " + lst(a + b[:n] + [0])
        elif op == "chr":
            at = [j for j, x in enumerate(az) if x == c]
            w = "%s %s" % (at[0], at[-1]) if at else "NULL NULL"
        elif op == "str":
            at = [j for j in range(len(a) - len(b) + 1) if a[j:j + len(b)] == b]
            w = str(at[0]) if at else "NULL"
        elif op == "cmp":
            def cmp(x, y):
                return (x > y) - (x < y)
            w = "%d %d" % (cmp(az, bz), cmp(az[:n], bz[:n]))
        elif op == "cpy":
            w = "1 " + lst(az)
        elif op == "ncpy":
            w = "1 " + lst((a + [0] * n)[:n])
        elif op == "ecpy":
            if n == 0:
                w = "0"
            else:
                m = a[:n - 1]
                w = "%d " % len(m) + lst(m + [0])
        elif op == "dup":
            w = lst(az) + " 1"
        else:
            w = str(sum(len(encode(x)) for x in a))
        out.append(Case("rstr %s %s %s %d %d" % (op, hx(r3(a)), hx(r3(b)), n, c), expect(w), "rstr/" + op, "%s %s %s %d %x" % (op, a, b, n, c)))


def older():
    """per question, the characters on which early and current Unicode differ"""
    out = {}
    for l in open(os.path.join(VERIF, "lib", "unicode_old.txt")):
        if l[0] != "#":
            w = l.split()
            out[w[0]] = set(c for x in w[1:] for c in range(int(x.split("-")[0], 16), int(x.split("-")[-1], 16) + 1))
    return out


def cases_part(out):
    step = 2048
    older_ = older()

    def judge(a):
        def f(rep):
            for i, x in enumerate(rep.split()):
                c = a + i
                lo, up, ti, fl = map(int, x.split(","))
                if 0xD800 <= c < 0xE000 or c > 0xFFFF:
                    if (lo, up, ti, fl) != (c, c, c, 0):
                        return "%x has a case" % c
                    continue
                ch = chr(c)
                pl, pu, pt = ch.lower(), ch.upper(), ch.title()
                old = 0x10a0 <= c <= 0x10c5 or 0x10d0 <= c <= 0x10f5 or c in (0x18e, 0x258)   # paired differently by early Unicode
                if lo != c and not old and lo != ord(pl[0]):
                    return "the lower case of %x is %x" % (c, lo)
                if up != c and not old and up != ord(pu[0]) and up != ord(pt[0]):
                    return "the upper case of %x is %x" % (c, up)
                if ti != c and ti != ord(pt[0]):
                    return "the title case of %x is %x" % (c, ti)
                def one(x):
                    return ord(x) if len(x) == 1 else c
                for k, v, w in (("lower", lo, one(pl)), ("upper", up, one(pu)), ("title", ti, one(pt)), ("islower", bool(fl & 1), ch.islower()),
                                ("alpha", bool(fl & 2), ch.isalpha()), ("istitle", bool(fl & 4), ch.istitle() and not ch.isupper()), ("space", bool(fl & 8), ch.isspace())):
                    if v != w and c not in older_[k]:
                        return "%s of %x is %x" % (k, c, v)
                if (fl & 1) and not fl & 2:
                    return "%x is lower case but not alphabetic" % c
                if c < 128 and bool(fl & 2) != ch.isalpha():
                    return "%x: alphabetic is %d" % (c, fl & 2)
                if c < 128 and bool(fl & 1) != ch.islower():
                    return "%x: lower case is %d" % (c, fl & 1)
                if (fl & 8) and not (ch.isspace() or c in (0x200b, 0xfeff)):
                    return "%x is not a space" % c
                if ch in " \t\n\xa0\u2003\u3000" and not fl & 8:
                    return "%x is a space" % c
        return f
    for a in range(0, 0x10800, step):
        out.append(Case("cases %d %d" % (a, a + step), judge(a), "cases"))


# ---- tables ----------------------------------------------------------------

def table_part(b):
    r = ck.rng("table")

    def one(i):
        rr = ck.rng("table", i)
        cols = rr.choice([1, 2, 3, 7])
        rows = [[text(rr, b"abc. %d-", 15) for _ in range(cols)] for _ in range(rr.choice([0, 1, 2, 10, 99, 100, 101, 250]))]
        vals = [v for row in rows for v in row]
        res = run([b], ("table %d%s\n" % (cols, "".join(" " + hx(v) for v in vals))).encode(), env=ck.che_env("san"), timeout=60)
        ck.saw("table/%s" % hashlib.md5(repr(rows).encode()).hexdigest())
        ck.count("tables_printed")
        lines = res.out.split(b"\n")
        key = "table/%d" % i
        if res.rc != 0 or lines[-3:-1] != [b";", b"end"] and lines[-4:-1] != [b";", b"end"]:
            if res.rc != 0:
                ck.violation(key, "printing failed: %s %s" % (res.rc, res.san or res.etext[-300:]), {"rows": repr(rows)})
                return
        body = res.out.split(b"\n", 1)[1].split(b";\n")[0]
        got = body.split(b"\n")[:-1]
        if len(got) != len(rows):
            ck.violation(key, "%d rows printed as %d lines" % (len(rows), len(got)), {"rows": repr(rows), "out": repr(body)})
            return
        # every column begins at the same offset in all rows, values are whole and apart
        widths = [max([len(row[c]) for row in rows] or [0]) for c in range(cols)]
        lens = set(len(l) for l in got)
        if len(lens) > 1:
            ck.violation(key, "lines of different length", {"rows": repr(rows), "out": repr(body)})
            return
        for row, l in zip(rows, got):
            gap = (len(l) - sum(widths)) // cols if cols else 0
            if gap < 1:
                ck.violation(key, "columns are not apart", {"rows": repr(rows), "out": repr(body)})
                return
            p = 0
            for c, v in enumerate(row):
                cell = l[p:p + widths[c] + gap]
                if cell.rstrip(b" ") != v.rstrip(b" ") or not cell.startswith(v):
                    ck.violation(key, "value %r printed as %r" % (v, cell), {"rows": repr(rows), "out": repr(body)})
                    return
                p += widths[c] + gap
    ck.pmap(one, range(ck.n(40, 300)))


def main_check():
    ck.build_che()
    b = ck.harness("texth")
    out = []
    strings_part(out)
    tok_part(out)
    lines_part(out)
    utf_part(out)
    cases_part(out)
    ck.rng("order").shuffle(out)
    for c in out[:8]:
        ck.sample((c.desc or c.line)[:200])
    run_cases(ck, b, out, batch=200)
    table_part(b)
    ck.finish()


main(main_check)
