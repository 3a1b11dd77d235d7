"""P27: XML documents are walked as written, definitions are read as written, generated documents obey them."""
import os, re, sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P27", rule="a distinct document walked, script of moves, damaged document, definition or generated text whose "
           "observations were compared with a model of the tree",
           assumptions=["documents of the supported kind: elements and attributes, no text, comments or CDATA, names of letters"])
LET = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
MAXDEPTH = 4          # open parents the cursor can hold


def name(r, long=False):
    if r.random() < 0.3:
        return r.choice(["a", "b", "ab", "item", "x"])
    n = r.choice([1, 2, 3, 7, 14, 15] if long else [1, 2, 3, 5])
    return "".join(r.choice(LET) for _ in range(n))


class Node:
    def __init__(self, nm, attrs, kids, mono):
        self.name, self.attrs, self.kids, self.mono = nm, attrs, kids, mono

    def height(self):
        """parents held while this node is passed over"""
        return 0 if self.mono else 1 + max([k.height() for k in self.kids] or [0])


def value(r):
    x = r.random()
    if x < 0.1:
        return ""
    if x < 0.15:
        return "v" * r.choice([100, 4000, 4094, 4095])
    return "".join(r.choice(LET + "0123456789 .,:;/<>='&#\n\té€") for _ in range(r.randrange(1, 20)))


def node(r, depth):
    attrs = []
    for _ in range(r.choice([0, 0, 1, 2, 3, 8]) if r.random() < 0.97 else r.choice([63, 64])):
        n = name(r, True)
        if n not in [a for a, _ in attrs]:
            attrs.append((n, value(r) if len(attrs) < 10 else str(len(attrs))))
    kids = [node(r, depth - 1) for _ in range(r.randrange(0, 4))] if depth > 0 else []
    mono = not kids and r.random() < 0.6
    return Node(name(r, True), attrs, kids, mono)


def sp(r, must=False):
    if must:
        return r.choice([" ", " ", "  ", "\n", "\t", " \n  "])
    return r.choice(["", "", "", " ", "\n", "\r\n\t"])


def render(n, r):
    """text and the offsets of interest: list of (kind, offset, node)"""
    out = []

    def go(n):
        s = "<" + n.name
        for a, v in n.attrs:
            s += sp(r, True) + a + '="' + v + '"'
        s += sp(r)
        out.append(("open", n, s + ("/>" if n.mono else ">")))
        if not n.mono:
            for k in n.kids:
                out.append(("sp", None, sp(r)))
                go(k)
            out.append(("sp", None, sp(r)))
            out.append(("close", n, "</%s>" % n.name))
    out.append(("head", None, sp(r) + r.choice(['<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8" standalone="yes"?>', "<?xml?>"]) + sp(r)))
    go(n)
    out.append(("tail", None, sp(r)))
    return out


def allnames(n):
    s = set(a for a, _ in n.attrs)
    for k in n.kids:
        s |= allnames(k)
    return s


def show(depth, n, names):
    if n is None:
        return "@%d -" % depth
    d = dict(n.attrs)
    s = "@%d %s" % (depth, n.name)
    for a in names:
        if a in d:
            s += " %s=%s;" % (a, d[a].encode().hex())
    return s


def walk_lines(n, names):
    """lines of a full walk with, per line, the number of parents held"""
    out = []

    def go(n, depth):
        out.append(show(depth, n, names))
        for k in n.kids:
            go(k, depth + 1)
    go(n, 0)
    return out


def launch(idx, text, args):
    p = os.path.join(ck.scratch, "d%s.xml" % idx)
    with open(p, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())
    r = run([WALK, p] + args, timeout=30, cpu=20, env=ck.che_env("san"))
    os.unlink(p)
    return r


def bad_run(r):
    if r.timeout:
        return "does not finish"
    if r.san:
        return "sanitizer: " + r.etext[-300:]
    if r.rc not in (0, 1) or r.rc == 1 and "*** panic at" not in r.etext:
        return "ended with %s: %s" % (r.rc, r.etext[-200:])
    return None


def reported(r):
    """an error was told: on the standard output with a position, or by a panic"""
    return r.rc == 1 or re.search(r" at \d+:\d+$", r.out.decode("latin-1"), re.M) is not None


def walks(i):
    r = ck.rng("walk", i)
    while True:
        root = node(r, r.choice([0, 1, 2, 3, 3]))
        if root.height() <= MAXDEPTH:
            break
    parts = render(root, r)
    text = "".join(p[2] for p in parts)
    names = sorted(allnames(root))[:80] + ["zzz"]
    g = launch("w%d" % i, text, ["walk"] + names)
    want = walk_lines(root, names) + ["@end"]
    got = [l for l in g.text.split("\n") if l]
    ck.saw("walk/%d/%d/%d" % (len(want), root.height(), len(names)), len(want))
    e = bad_run(g)
    if e or g.rc or got != want:
        k = next((k for k in range(min(len(want), len(got))) if want[k] != got[k]), min(len(want), len(got)))
        ck.violation("walk:%d" % i, e or "walk of a document: line %d is %r, expected %r (%s)" % (k, got[k:k + 1], want[k:k + 1], g.etext[-200:]), text)
        return
    ck.sample({"document": text[:200], "visited": len(want) - 1})
    # scripts of moves
    for j in range(3):
        script, want, stop = "", [show(0, root, names)], None
        stack, cur, level = [], (root, [root], 0), 0     # node, siblings, index
        for _ in range(r.randrange(1, 25)):
            n = cur[0]
            op = r.choice("eeennnl")
            if op == "l" and not stack:
                op = "n"
            if op == "e":
                if n is None or n.mono:
                    want.append("@e 0")
                else:
                    if len(stack) + 1 > MAXDEPTH and stop is None:
                        stop = len(want)
                    stack.append(cur)
                    want.append("@e 1")
                    cur = (n.kids[0] if n.kids else None, n.kids, 0)
            elif op == "n":
                if n is not None:
                    if len(stack) + n.height() > MAXDEPTH and stop is None:
                        stop = len(want)
                    k = cur[2] + 1
                    cur = (cur[1][k] if k < len(cur[1]) else None, cur[1], k)
            else:
                if n is not None and stop is None and len(stack) + max(k.height() for k in cur[1][cur[2]:]) > MAXDEPTH:
                    stop = len(want)
                c = stack.pop()
                k = c[2] + 1
                cur = (c[1][k] if k < len(c[1]) else None, c[1], k)
            script += op
            want.append(show(len(stack), cur[0], names))
        want.append("@end")
        g = launch("s%d-%d" % (i, j), text, ["script", script] + names)
        got = [l for l in g.text.split("\n") if l]
        ck.saw("script/" + script[:8], len(want))
        e = bad_run(g)
        if not e and g.rc == 1 and stop is not None:
            if got != want[:len(got)] or len(got) < stop:
                e = "stopped after %d observations, the nesting limit is met after %d" % (len(got), stop)
        elif not e and (g.rc or got != want):
            k = next((k for k in range(min(len(want), len(got))) if want[k] != got[k]), min(len(want), len(got)))
            e = "after the moves %r observation %d is %r, expected %r (%s)" % (script, k, got[k:k + 1], want[k:k + 1], g.etext[-200:])
        if e:
            ck.violation("script:%d-%d" % (i, j), e, {"document": text, "moves": script})
            return


def damage(i):
    r = ck.rng("damage", i)
    while True:
        root = node(r, r.choice([1, 2, 2, 3]))
        if root.height() <= MAXDEPTH:
            break
    parts = render(root, r)
    text = "".join(p[2] for p in parts).encode()
    names = sorted(allnames(root))[:80]
    full = walk_lines(root, names)
    kind = r.choice(["cut", "cut", "close", "noclose", "text", "attr", "longname", "attrs", "value", "head", "swap", "eof-name"])
    line = None
    idx = [k for k, p in enumerate(parts) if p[0] == "close"]
    oidx = [k for k, p in enumerate(parts) if p[0] == "open"]
    ps = [p[2] for p in parts]

    def enc():
        return "".join(ps).encode()
    if kind == "cut":
        end = len(text) - len(ps[-1].encode())
        bad = text[:r.randrange(0, end)]
    elif kind == "close" and idx:
        k = r.choice(idx)
        nm = parts[k][1].name
        ps[k] = "</%s>" % r.choice([nm + "x" if len(nm) < 15 else "x", nm[:-1] or "q", nm.swapcase(), "other" + nm[:1]])
        line = ("".join(ps[:k + 1])).count("\n") + 1
        bad = enc()
    elif kind == "noclose" and idx:
        k = r.choice(idx)
        # something of another name has to follow, or a missing tag could be read as a different nesting
        if any(q[1].name == parts[k][1].name for n2, q in enumerate(parts) if q[0] == "close" and n2 != k):
            return
        ps[k] = ""
        bad = enc()
    elif kind == "text":
        k = r.choice(oidx)
        if parts[k][1].mono and parts[k][1] is root:
            return
        ps[k] += r.choice(["text", "1", "&amp;", "<!-- c -->", "<![CDATA[x]]>", "]", ">", "<>", "< a/>"])
        bad = enc()
    elif kind == "attr":
        k = r.choice(oidx)
        tail = "/>" if parts[k][1].mono else ">"
        ps[k] = ps[k][:-len(tail)] + r.choice([' q', ' q=1', " q='1'", ' q="1', ' q=', ' ="x"', ' 1="x"', ' q="1" =', " q 'x'", ' / ']) + tail
        bad = enc()
    elif kind == "longname":
        k = r.choice(oidx)
        ps[k] = "<" + "n" * r.choice([16, 17, 100, 5000]) + ps[k][1 + len(parts[k][1].name):]
        bad = enc()
    elif kind == "attrs":
        k = r.choice(oidx)
        tail = "/>" if parts[k][1].mono else ">"
        extra = r.choice(["".join(' k%s="1"' % (LET[q % 52] + LET[q // 52]) for q in range(65)), ' %s="1"' % ("k" * r.choice([16, 64, 5000]))])
        ps[k] = ps[k][:-len(tail)] + extra + tail
        bad = enc()
    elif kind == "value":
        k = r.choice(oidx)
        tail = "/>" if parts[k][1].mono else ">"
        ps[k] = ps[k][:-len(tail)] + ' q="%s"' % ("v" * r.choice([4096, 4097, 10000, 300000])) + tail
        bad = enc()
    elif kind == "head":
        ps[0] = r.choice(["", "<xml>", "?xml?>", "<!DOCTYPE x>"])
        bad = enc()
    elif kind == "swap":
        if len(idx) < 2:
            return
        a, b = r.sample(idx, 2)
        if parts[a][1].name == parts[b][1].name:
            return
        ps[a], ps[b] = ps[b], ps[a]
        bad = enc()
    elif kind == "eof-name":
        bad = ps[0].encode() + r.choice([b"<", b"</", b"<a", b"<a ", b"<a b", b"<a b=", b'<a b="', b'<a b="x', b'<a b="x"', b"<a/", b"<a", b"", b"</a>", b"<a></", b"<a></a", b"<a><"])
    else:
        return
    g = launch("x%d" % i, bad, ["walk"] + names)
    ck.saw("damage/%s/%d" % (kind, i % 40), 1)
    e = bad_run(g)
    out = g.out.decode("latin-1")
    seen = [l for l in out.split("\n") if l.startswith("@") and l != "@end"]
    if not e and not reported(g):
        e = "a damaged document (%s) is walked to its end without an error" % kind
    elif not e and kind in ("cut", "close", "swap") and seen != full[:len(seen)]:
        k = next(k for k in range(len(seen)) if k >= len(full) or seen[k] != full[k])
        e = "a damaged document (%s) shows %r where the document says %r" % (kind, seen[k], full[k:k + 1])
    elif not e and line is not None and g.rc == 0:
        m = re.search(r" at (\d+):\d+$", out, re.M)
        if int(m.group(1)) != line:
            e = "the wrong closing tag is on line %d, the error says %s" % (line, m.group(0))
    if e:
        ck.violation("damage:%d" % i, e + " " + g.etext[-150:], bad if len(bad) < 5000 else bad[:5000])


# ---------------------------------------------------------------- definitions
def dname(r):
    n = "".join(r.choice(LET + "_") for _ in range(r.choice([1, 2, 4, 8, 12])))
    return n


def children(r, depth):
    """(text, canonical)"""
    items = []
    many = r.randrange(1, 5)
    for _ in range(many):
        if depth > 0 and r.random() < 0.2:
            items.append(children(r, depth - 1))
        elif r.random() < 0.15:
            items.append(("#PCDATA", "#PCDATA"))
        else:
            n = dname(r)
            q = r.choice(["", "", "*", "?", "+"])
            items.append((n + q, n + q))
    j = r.choice("|,")
    q = r.choice(["", "", "*", "?", "+"])

    def s():
        return r.choice(["", " ", "  ", "\t"])
    t = "(" + (s() + j + " ").join(x for x, _ in items).replace(j + " ", j + s()) + s() + ")" + q
    return t, "(" + j.join(c for _, c in items) + ")" + q


def definition(r):
    lines, elems, atts = [], [], []
    names = [dname(r) for _ in range(r.randrange(1, 12))]
    for _ in range(r.randrange(1, 20)):
        n = r.choice(names)
        g = r.choice([" ", "  ", "\t", "\t \t"])
        if r.random() < 0.65:
            if r.random() < 0.2:
                t, c = "EMPTY" + r.choice(["", " "]), "()"
            else:
                t, c = children(r, 2)
            line = "<!ELEMENT " + r.choice(["", "  ", "\t"]) + n + g + t + ">"
            if len(line) > 199:
                continue
            elems.append((n, c))
        else:
            al = []
            s = "<!ATTLIST " + r.choice(["", "  ", "\t"]) + n
            for _ in range(r.randrange(1, 5)):
                a, t, f = dname(r), r.randrange(1, 4), r.randrange(1, 3)
                s += g + a + " " + r.choice(["", " "]) + ["ID", "IDREF", "CDATA"][t - 1] + r.choice([" ", "\t"]) + ["#REQUIRED", "#IMPLIED"][f - 1]
                al.append("%s.%d.%d" % (a, t, f))
            line = s + r.choice(["", " "]) + ">"
            if len(line) > 199:
                continue
            atts.append((n, "/".join([n] + al)))
        lines.append(r.choice(["", "  ", "\t", "\n"]) + line)
    text = "\n".join(lines) + r.choice(["", "\n", "\n\n  "])
    ask = r.sample(names, min(3, len(names))) + ["nosuch"]
    rep = "".join(n + c + " " for n, c in elems) + "#" + "".join(a + " " for _, a in atts)
    for n in ask:
        rep += "#" + dict(reversed(elems)).get(n, "-") + "#" + dict(reversed(atts)).get(n, "-")
    return text, ask, rep, lines


def refuse():
    def judge(rep):
        if rep.startswith("!1\n") and "*** panic at" in rep:
            return None
        return "not refused: " + rep[:200]
    judge.accepts_exit = True
    return judge


def dtds():
    r = ck.rng("dtd")
    cases = []
    for i in range(ck.n(400, 4000)):
        text, ask, rep, lines = definition(r)
        cases.append(Case("dtd %s %s" % (hx(text), " ".join(hx(a) for a in ask)), expect(rep), "dtd/%d" % (hash(rep) % 1000), text))
    # at the limits
    for n in (99, 100):
        text = "\n".join("<!ELEMENT e%s EMPTY>" % ("_" * k) for k in range(90)[:n])
        cases.append(Case("dtd %s" % hx("\n".join("<!ELEMENT e EMPTY>" for _ in range(n))), expect("e() " * n + "#"), "elements/%d" % n, "many"))
        cases.append(Case("dtd %s" % hx("\n".join("<!ATTLIST e a ID #IMPLIED>" for _ in range(n))), expect("#" + "e/a.1.2 " * n), "attlists/%d" % n, "many"))
        ks = ",".join("a" for _ in range(n - 15))
        cases.append(Case("dtd %s" % hx("<!ELEMENT e (%s)>" % ks), expect("e(%s) #" % ks), "children/%d" % n, "many"))
    cases.append(Case("dtd %s" % hx("<!ELEMENT %s EMPTY>" % ("n" * 99)), expect("n" * 99 + "() #"), "longest name", "name of 99"))
    cases.append(Case("dtd %s" % hx("<!ATTLIST e" + "".join(" %s ID #IMPLIED" % c for c in LET[:10]) + ">"),
                      expect("#e" + "".join("/%s.1.2" % c for c in LET[:10]) + " "), "ten attributes", "ten attributes"))
    many = []
    many.append("\n".join("<!ELEMENT e EMPTY>" for _ in range(101)))
    many.append("\n".join("<!ATTLIST e a ID #IMPLIED>" for _ in range(101)))
    many.append("\n".join("<!ATTLIST e a ID #IMPLIED>" for _ in range(300)))
    many.append("<!ELEMENT %s EMPTY>" % ("n" * 100))
    many.append("<!ELEMENT %s EMPTY>" % ("n" * 170))
    many.append("<!ATTLIST %s a ID #IMPLIED>" % ("n" * 120))
    many.append("<!ATTLIST a %s ID #IMPLIED>" % ("n" * 120))
    many.append("<!ELEMENT e (%s)>" % ("n" * 120))
    many.append("<!ELEMENT e (%s)>" % ("a,b" * 100))
    many.append("<!ELEMENT e (%s)>" % ("a," * 5000 + "b"))
    many.append("<!ATTLIST e" + "".join(" %s ID #IMPLIED" % c for c in LET[:11]) + ">")
    many += ["<!ELEMENT e>", "<!ELEMENT EMPTY>", "<!ELEMENT e ()>", "<!ELEMENT e (a,)>", "<!ELEMENT e (a b)>", "<!ELEMENT e (a|b,c)>", "<!ELEMENT e (a,b|c)>",
             "<!ELEMENT e (a>", "<!ELEMENT e (a)", "<!ELEMENT e (a)>x", "<!ELEMENT e ((a)>", "<!ELEMENT e ANY>", "<!ELEMENT  (a)>", "ELEMENT e (a)>",
             "<!ELEMENT e (a)**>", "<!ATTLIST e a>", "<!ATTLIST e a ID>", "<!ATTLIST e a NMTOKEN #IMPLIED>", "<!ATTLIST e a ID #FIXED>", "<!ATTLIST e a ID #IMPLIED",
             "<!ATTLIST e a ID #IMPLIED>x", "<!ATTLIST e ID #IMPLIED>", "<!ATTLIST e #IMPLIED>", "<!ATTLIST>", "hello", "<", "<!ELEMENT e (,a)>", "<!ELEMENT e (a,,b)>"]
    for m in many:
        cases.append(Case("dtd " + hx(m), refuse(), "refuse/" + m[:30], m[:300]))
    return cases


# ---------------------------------------------------------------- texts
SYL = re.compile(r"[a-z]+")


def ipsums():
    r = ck.rng("ipsum")
    bad = []
    cases = [Case("dict %s %s" % (hx("fruit"), " ".join(hx(x) for x in ("apple", "pear", "fig tree", "plum"))), expect("ok"), "dict", "a dictionary"),
             Case("dict %s %s" % (hx("one"), hx("single")), expect("ok"), "dict1", "a dictionary of one")]

    def emit(spec, n, f):
        def judge(rep):
            outs = re.findall(r"\[([^\]]*)\]", rep)
            if len(outs) != n or "[" + "][".join(outs) + "]" != rep:
                return "%d texts, expected %d: %s" % (len(outs), n, rep[:200])
            return f(outs)
        cases.append(Case("emit %d %s" % (n, hx(spec)), judge, spec[:40], spec))

    def ints(lo, hi, n):
        def f(outs):
            for o in outs:
                if not re.fullmatch(r"\d+", o) or not lo <= int(o) <= hi or str(int(o)) != o:
                    return "irand[%d..%d] gave %r" % (lo, hi, o)
            if hi - lo < 12 and n >= 400 and len(set(outs)) != hi - lo + 1:
                return "irand[%d..%d] gave only %s in %d draws" % (lo, hi, sorted(set(outs)), n)
        return f
    for lo, hi in [(0, 0), (1, 1), (0, 1), (1, 10), (5, 9), (0, 11), (10, 999), (1000, 9999), (123456, 98765432), (0, 999999999)]:
        emit("irand[%d..%d]" % (lo, hi), 500, ints(lo, hi, 500))

    def floats(lo, hi, n):
        def f(outs):
            v = []
            for o in outs:
                if not re.fullmatch(r"\d+\.\d\d", o) or not lo - 0.00501 <= float(o) <= hi + 0.00501:
                    return "f2[%s,%s] gave %r" % (lo, hi, o)
                v.append(float(o))
            m = sum(v) / len(v)
            if abs(m - (lo + hi) / 2) > 7 * (hi - lo) / math.sqrt(12 * n) + 0.006:
                return "f2[%s,%s]: mean of %d draws is %s" % (lo, hi, n, m)
        return f
    import math
    for lo, hi in [(0, 1), (1.5, 15), (10, 100), (50, 250), (3, 3.5), (7, 7)]:
        emit("f2[%s,%s]" % (lo, hi), 500, floats(lo, hi, 500))

    def texts(lo, hi, n):
        def f(outs):
            sps = []
            for o in outs:
                if not re.fullmatch(r"[a-z]+( [a-z]+)*", o):
                    return "text[%d..%d] gave %r" % (lo, hi, o)
                if o.count(" ") > 4 * hi or len(o) > 4 * hi * 20:
                    return "text[%d..%d] is too long: %r" % (lo, hi, o)
                sps.append(len(o))
            return None
        return f
    for lo, hi in [(1, 1), (1, 4), (5, 5), (2, 9)]:
        emit("text[%d..%d]" % (lo, hi), 200, texts(lo, hi, 200))

    def words(outs):
        for o in outs:
            if not re.fullmatch(r"[a-z]{2,16}", o):
                return "word gave %r" % o
        if len(set(outs)) < 150:
            return "only %d different words of 300" % len(set(outs))
    emit("word", 300, words)

    def dict_(outs):
        if set(outs) != {"apple", "pear", "fig tree", "plum"}:
            return "entries drawn: %s" % sorted(set(outs))[:6]
        if any(not 60 <= outs.count(x) <= 140 for x in set(outs)):
            return "entries are not drawn evenly: %s" % {x: outs.count(x) for x in set(outs)}
    emit("dict(fruit)", 400, dict_)
    emit("dict(one)", 5, lambda o: None if o == ["single"] * 5 else "a dictionary of one entry gives %s" % o)
    for _ in range(40):
        lit = "".join(r.choice(LET + "0123456789 .,:;/<>=()-+%\"") for _ in range(r.choice([0, 1, 5, 30, 98, 99])))
        emit("'%s'" % lit, 1, lambda o, lit=lit: None if o == [lit] else "literal %r gives %r" % (lit, o))
        a, b = r.randrange(100), r.randrange(100, 200)
        g = r.choice(["", " ", "  ", "\n"])
        pat = re.escape(lit) + r"\d+" + "-" + "(apple|pear|fig tree|plum)" + r"\d+\.\d\d"
        emit(g.join(["", "'%s'" % lit, "irand[%d..%d]" % (a, b), "'-'", "dict(fruit)", "f2[%d,%d]" % (a, b), ""]), 3,
             lambda o, p=pat: None if all(re.fullmatch(p, x) for x in o) else "sequence gives %r" % o)
    for m in ["dict(nosuch)", "dict()", "dict(fruit", "irand[1..]", "irand[..3]", "irand[1.3]", "irand[1..3", "irand[a..b]", "text[1..2", "text[]", "f2[1]", "f2[1,", "f2[,1]",
              "'abc", "unknown", "word!", "irand[1..2] $", "'" + "x" * 100 + "'", "'" + "x" * 3000 + "'", "irand[1..10000000000]", "f2[1,%s]" % ("9" * 40), "dict(%s)" % ("n" * 200)]:
        bad.append(Case("emit 1 " + hx(m), refuse(), "refuse/" + m[:20], m[:200]))
    return cases, bad


# ---------------------------------------------------------------- generated documents
DTD = {}


def model():
    for line in """site regions,categories,catgraph,people,open_auctions,closed_auctions
categories category+
regions africa,asia,australia,europe,namerica,samerica
europe item*
australia item*
africa item*
namerica item*
samerica item*
asia item*
catgraph edge*
edge EMPTY from to
category name,description id
item location,quantity,name,payment,description,shipping,incategory+,mailbox id featured
description text|parlist
parlist listitem*
listitem (text|parlist)*
incategory EMPTY category
mailbox mail*
mail from,to,date,text
people person*
person name,emailaddress,phone?,address?,homepage?,creditcard?,profile?,watches? id
address street,city,country,province?,zipcode
profile interest*,education?,gender?,business,age? income
interest EMPTY category
watches watch*
watch EMPTY open_auction
open_auctions open_auction*
open_auction initial,reserve?,bidder*,current,privacy?,itemref,seller,annotation,quantity,type,interval id
itemref EMPTY item
bidder date,time,personref,increase
personref EMPTY person
seller EMPTY person
interval start,end
closed_auctions closed_auction*
closed_auction seller,buyer,itemref,price,date,quantity,type,annotation?
buyer EMPTY person
annotation author,description?,happiness
author EMPTY person""".split("\n"):
        w = line.split(" ")
        c = w[1]
        if c != "EMPTY":
            c = re.sub(r"\w+", lambda m: "(?:%s;)" % m.group(0), c).replace(",", "")
            c = re.compile("(?:%s)" % c if "|" in c and not c.endswith("*") else c)
        DTD[w[0]] = (c, w[2:])


def rng_(lo, hi):
    return lambda s: re.fullmatch(r"\d+", s) and lo <= int(s) <= hi


def f2_(lo, hi):
    return lambda s: re.fullmatch(r"\d+\.\d\d", s) and lo - 0.006 <= float(s) <= hi + 0.006


def date_(s):
    m = re.fullmatch(r"(\d+)/(\d+)/(\d+)", s)
    return m and 1 <= int(m.group(1)) <= 12 and 1 <= int(m.group(2)) <= 28 and 1998 <= int(m.group(3)) <= 2001


def one_of(*a):
    return lambda s: s in a


TEXTS = {"age": rng_(18, 45), "quantity": rng_(1, 10), "happiness": rng_(1, 10), "zipcode": rng_(1000, 9999), "date": date_, "start": date_, "end": date_,
         "price": f2_(10, 100), "amount": f2_(10, 100), "current": f2_(1.5, 115), "increase": f2_(1.5, 15), "initial": f2_(0, 100), "reserve": f2_(50, 250),
         "business": one_of("yes", "no"), "privacy": one_of("yes", "no"), "gender": one_of("male", "female"), "type": one_of("Regular", "Featured"),
         "education": one_of("High School", "College", "Graduate School", "Other"), "payment": one_of("Money order", "Creditcard", "Personal Check", "Cash"),
         "shipping": one_of("only within country", "internationally", "Buyer pays fixed shipping charges"),
         "creditcard": lambda s: re.fullmatch(r"[1-9]\d{3}( [1-9]\d{3}){3}", s),
         "time": lambda s: re.fullmatch(r"(\d|1\d|2[0-3]):[1-5]?\d:[1-5]?\d", s),
         "phone": lambda s: re.fullmatch(r"\+[1-9]\d? \([1-9]\d{1,2}\) \d{6,8}", s),
         "homepage": lambda s: re.fullmatch(r"https://[a-z]+\.[a-z-]+", s),
         "street": lambda s: re.fullmatch(r"([1-9]\d?|100) \S+ st\.", s)}


def canonical(e, level, out):
    ind = "  " * level
    c, attrs = DTD.get(e.tag, ("#", []))
    head = ind + "<" + e.tag + "".join(' %s="%s"' % (a, e.get(a)) for a in attrs)
    if c == "EMPTY":
        out.append(head + " />\n")
    elif c == "#":
        out.append(head + ">" + (e.text or "") + "</%s>\n" % e.tag)
    else:
        out.append(head + ">\n")
        for k in e:
            canonical(k, level + 1, out)
        out.append(ind + "</%s>\n" % e.tag)


def generated(i):
    r = run([GEN], timeout=60, cpu=30, env=ck.che_env("san"))
    if r.rc or r.san or r.timeout:
        ck.violation("xmlgen-run:%d" % i, "generator ended with %s: %s" % (r.rc, r.etext[-300:]), r.text[-500:])
        return None
    try:
        t = ET.fromstring(r.out)
    except ET.ParseError as e:
        ck.violation("xmlgen-form:%d" % i, "the generated document is not well-formed: %s" % e, r.text)
        return None
    bad = []
    stats = {"items": [], "incat": []}

    def go(e, level):
        c, attrs = DTD.get(e.tag, ("#", []))
        ck.saw("element/" + e.tag)
        if list(e.attrib) != attrs or any(not re.fullmatch(r"\d{1,6}", v) for v in e.attrib.values()):
            bad.append("<%s> has the attributes %s" % (e.tag, e.attrib))
        if c == "#":
            f = TEXTS.get(e.tag)
            if not e.text or len(e) or f and not f(e.text):
                bad.append("<%s> contains %r" % (e.tag, e.text))
        elif c == "EMPTY":
            if len(e) or e.text:
                bad.append("<%s> is not empty" % e.tag)
        else:
            s = "".join(k.tag + ";" for k in e)
            if level < 20 and not c.fullmatch(s):
                bad.append("children of <%s> at level %d: %s" % (e.tag, level, s))
            if "item;" in s or e.tag in ("africa", "asia", "europe"):
                stats["items"].append(len(e))
            if e.tag == "item":
                stats["incat"].append(s.count("incategory;"))
            if max([0] + [len(list(g)) for _, g in __import__("itertools").groupby(e, key=lambda k: k.tag)]) > 3 and e.tag != "listitem":
                bad.append("more than three in a row in <%s>: %s" % (e.tag, s))
        for k in e:
            go(k, level + 1)
    go(t, 0)
    if bad:
        ck.violation("xmlgen-valid:%d" % i, "the generated document breaks its definition: " + bad[0], r.text)
        return None
    out = ['<?xml version="1.0" standalone="yes"?>\n']
    canonical(t, 0, out)
    if "".join(out) != r.text:
        a, b = "".join(out).split("\n"), r.text.split("\n")
        k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), 0)
        ck.violation("xmlgen-layout:%d" % i, "line %d of the generated document is %r, its tree says %r" % (k + 1, b[k], a[k]), r.text)
        return None
    return stats


def main_check():
    global WALK, GEN
    ck.build_che()
    model()
    WALK = ck.harness("xmlwalk", "san")
    H = ck.harness("dtdh", "san")
    GEN = os.path.join(ck.scratch, "xmlgen")
    b = ck.che_build(os.path.join(REPO, "prog/xmlgen/xmlgen.c"), GEN, "san")
    if b.rc != 0:
        raise CheckError("xmlgen does not build: " + b.text + b.etext)
    ck.pmap(walks, range(ck.n(250, 2500)))
    ck.pmap(damage, range(ck.n(700, 7000)))
    for j in range(20):
        g = launch("nofile%d" % j, b"", ["walk"])
        if bad_run(g) or not reported(g):
            ck.violation("empty", "an empty file gives no error: %s %s" % (g.text, g.etext[-200:]), "")
        break
    run_cases(ck, H, dtds(), tag="dtd")
    good, bad = ipsums()
    run_cases(ck, H, good, tag="ipsum", batch=1000)
    run_cases(ck, H, bad, tag="ipsum")
    sts = [s for s in ck.pmap(generated, range(ck.n(16, 160))) if s]
    if sts and not ck.violations:
        items = set(x for s in sts for x in s["items"])
        inc = set(x for s in sts for x in s["incat"])
        if items != {0, 1, 2, 3} or inc != {1, 2, 3}:
            ck.violation("xmlgen-counts", "numbers of items seen: %s, of categories: %s" % (sorted(items), sorted(inc)), "")
        ck.count("generated_documents", len(sts))
    ck.finish()


main(main_check)
