"""P25: regular expressions: leftmost-longest matches, groups, substitution."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P25", rule="a distinct request (expression, text, range, template) whose reply was compared with an independent matcher")
META = ".*+?[]()|\\^$"
sys.setrecursionlimit(10000)


class Bad(Exception):
    pass


# ---- an independent reader of the notation ----------------------------------

class Parser:
    def __init__(self, s, literal, nl):
        self.toks = []
        self.groups = 0
        self.classes = 0
        self.nl = nl
        i = 0
        while i < len(s):
            if literal:
                self.toks.append(("lit", s[i])) if s[i] != "\\" else None
                if s[i] == "\\":
                    i += 1
                    if i == len(s):
                        break
                    self.toks.append(("lit", s[i]))
                i += 1
                continue
            if s[i] == "\\":
                if i + 1 == len(s):
                    break
                self.toks.append(("lit", s[i + 1]))
                i += 2
            elif s[i] == "[":
                i, c = self.cls(s, i + 1)
                self.toks.append(c)
            elif s[i] in "*+?|()":
                self.toks.append((s[i],))
                i += 1
            elif s[i] == ".":
                self.toks.append(("any",))
                i += 1
            elif s[i] in "^$":
                self.toks.append(({"^": "bol", "$": "eol"}[s[i]],))
                i += 1
            else:
                self.toks.append(("lit", s[i]))
                i += 1
        self.p = 0

    def cls(self, s, i):
        neg = False
        spans = []
        if i < len(s) and s[i] == "^":
            neg = True
            i += 1
        while True:
            if i >= len(s):
                raise Bad("class")
            if s[i] == "]":
                i += 1
                break
            if s[i] == "-":
                if not spans:
                    raise Bad("class")
                i += 1
                if i >= len(s) or s[i] == "]":
                    raise Bad("class")
                if s[i] == "\\":
                    i += 1
                    if i >= len(s):
                        raise Bad("class")
                spans[-1] = (spans[-1][0], s[i])
                i += 1
                continue
            if s[i] == "\\":
                i += 1
                if i >= len(s):
                    raise Bad("class")
            spans.append((s[i], s[i]))
            i += 1
        self.classes += 1
        return i, ("cls", neg, tuple(spans))

    def peek(self):
        return self.toks[self.p] if self.p < len(self.toks) else None

    def parse(self):
        if not self.toks:
            return ("cat", ())
        x = self.e0()
        if self.p != len(self.toks):
            raise Bad("trailing")
        return x

    def e0(self):
        x = self.e1()
        while self.peek() == ("|",):
            self.p += 1
            x = ("or", x, self.e1())
        return x

    def e1(self):
        xs = [self.e2()]
        while self.peek() and self.peek()[0] not in ("|", ")"):
            xs.append(self.e2())
        return xs[0] if len(xs) == 1 else ("cat", tuple(xs))

    def e2(self):
        t = self.peek()
        if not t or t[0] in "*+?|)":
            raise Bad("operand")
        self.p += 1
        if t == ("(",):
            self.groups += 1
            k = self.groups
            x = self.e0()
            if self.peek() != (")",):
                raise Bad("paren")
            self.p += 1
            x = ("grp", k, x)
        else:
            x = t
        while self.peek() and self.peek()[0] in ("*", "+", "?"):
            x = ({"*": "star", "+": "plus", "?": "quest"}[self.peek()[0]], x)
            self.p += 1
        return x


# ---- the matcher ------------------------------------------------------------

class Matcher:
    """All ways to match, as a set of (end, groups); groups are left out on demand."""

    def __init__(self, text, end, nl, groups, budget=200000):
        self.t, self.end, self.nl, self.g, self.left = text, end, nl, groups, budget
        self.memo = {}

    def go(self, x, i, caps):
        key = (id(x), i, caps)
        if key in self.memo:
            return self.memo[key]
        self.left -= 1
        if self.left < 0:
            raise OverflowError
        r = self.go1(x, i, caps)
        self.memo[key] = r
        return r

    def go1(self, x, i, caps):
        k = x[0]
        t = self.t
        if k in ("lit", "any", "cls"):
            if i >= self.end:
                return frozenset()
            c = t[i]
            if k == "lit":
                ok = c == x[1]
            elif k == "any":
                ok = self.nl or c != "\n"
            else:
                ok = any(a <= c <= b for a, b in x[2]) != x[1]
                if x[1] and c == "\n":
                    ok = False
            return frozenset([(i + 1, caps)]) if ok else frozenset()
        if k == "bol":
            return frozenset([(i, caps)]) if i == 0 or t[i - 1] == "\n" else frozenset()
        if k == "eol":
            return frozenset([(i, caps)]) if i == self.end or t[i] == "\n" else frozenset()
        if k == "cat":
            cur = {(i, caps)}
            for y in x[1]:
                cur = {z for (j, c) in cur for z in self.go(y, j, c)}
            return frozenset(cur)
        if k == "or":
            return self.go(x[1], i, caps) | self.go(x[2], i, caps)
        if k == "quest":
            return self.go(x[1], i, caps) | {(i, caps)}
        if k == "grp":
            r = set()
            for j, c in self.go(x[2], i, caps):
                if self.g:
                    c = c[:x[1]] + ((i, j),) + c[x[1] + 1:]
                r.add((j, c))
            return frozenset(r)
        # star, plus
        seen = set()
        todo = [(i, caps)]
        out = set(todo) if k == "star" else set()
        while todo:
            j, c = todo.pop()
            for z in self.go(x[1], j, c):
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
                    out.add(z)
        return frozenset(out)


def oracle(ast, text, start, end, nl, groups):
    """(begin, end, set of group tuples or None) or None"""
    for want_groups in (True, False):
        m = Matcher(text, end, nl, want_groups)
        none = (None,) * (groups + 1) if want_groups else ()
        try:
            for i in range(start, end + 1):
                r = m.go(ast, i, none)
                if r:
                    best = max(j for j, _ in r)
                    return i, best, ({c for j, c in r if j == best} if want_groups else None)
            return None
        except OverflowError:
            if not want_groups:
                raise
    return None


# ---- generators -------------------------------------------------------------

ALPHAS = ["ab", "abc", "ab\n", "aé", "a€b", "😀a\n", "abcdefgh", "a.*", "-]a"]


def gchar(r, alpha):
    c = r.choice(alpha)
    if c in META or r.random() < 0.05:
        return "\\" + c
    return c


def gclass(r, alpha):
    s = "[" + r.choice(["", "^"])
    n = r.choice([1, 1, 2, 3]) if r.random() < 0.9 else r.choice([10, 20, 28])
    for _ in range(n):
        a, b = sorted((r.choice(alpha + "acz09"), r.choice(alpha + "acz09")))

        def esc(c):
            return "\\" + c if c in "]-^\\" else c
        s += esc(a)
        if r.random() < 0.4:
            s += "-" + esc(b)
    return s + "]"


def gre(r, alpha, d):
    k = r.random()
    if d <= 0 or k < 0.25:
        j = r.random()
        if j < 0.6:
            return gchar(r, alpha)
        if j < 0.75:
            return "."
        if j < 0.9:
            return gclass(r, alpha)
        return r.choice("^$")
    if k < 0.5:
        return "".join(gre(r, alpha, d - 1) for _ in range(r.randrange(2, 4)))
    if k < 0.75:
        x = gre(r, alpha, d - 2)
        if r.random() < 0.7:
            x = "(" + x + ")"
        return x + r.choice(["*", "+", "?"])
    if k < 0.9:
        return "(" + gre(r, alpha, d - 1) + "|" + gre(r, alpha, d - 1) + ")"
    return gre(r, alpha, d - 1) + "|" + gre(r, alpha, d - 1)


def template(r, alpha):
    return "".join(r.choice(["&", "\\0", "\\1", "\\2", "\\3", "\\9", "\\\\", "x", "-", "\\n", "\\&", r.choice(alpha.replace("\n", "n")), "\\"]) for _ in range(r.randrange(6)))


def subst(tpl, units, got, ms):
    """units: list of items of the text; tpl: list of characters; returns a list of items."""
    out = []
    i = 0
    enc = units[1]
    t = units[0]

    def put(k):
        if k < ms and got[k][0] >= 0:
            out.extend(t[got[k][0]:got[k][1]])
    while i < len(tpl):
        c = tpl[i]
        if c == "\\":
            i += 1
            if i == len(tpl):
                break
            c = tpl[i]
            if c in "0123456789":
                put(int(c))
            else:
                out.extend(enc(c))
        elif c == "&":
            put(0)
        else:
            out.extend(enc(c))
        i += 1
    return out


def one(r, i, pattern=None, text=None):
    alpha = r.choice(ALPHAS)
    kind = r.choice(["n", "n", "n", "n", "d", "l"])
    wild = pattern is None and r.random() < 0.12
    if pattern is None:
        if wild:
            pattern = "".join(r.choice("aab()|*+?.^$[]-\\") for _ in range(r.choice([1, 2, 3, 4, 6, 9])))
        elif kind == "l":
            pattern = "".join(r.choice(alpha.replace("\n", "") + "*.(") for _ in range(r.choice([1, 2, 3])))
        else:
            pattern = gre(r, alpha, r.choice([1, 2, 3, 4, 5]))
    if text is None:
        text = "".join(r.choice(alpha) for _ in range(r.choice([0, 1, 2, 3, 4, 6, 8, 12]))) + ("".join(r.choice("ab\n") for _ in range(3)) if r.random() < 0.2 else "")
        if kind == "l" and r.random() < 0.6:
            k = r.randrange(len(text) + 1)
            text = text[:k] + pattern + text[k:]
    p = None
    ast = None
    try:
        p = Parser(pattern, kind == "l", kind == "d")
        ast = p.parse()
        if any(t[0] == "cls" and any(a > b for a, b in t[2]) for t in p.toks) or "[^-" in pattern:
            return None
        if p.groups >= 32 or p.classes > 16:
            raise Bad("limits")
    except Bad:
        pass
    deep = pattern.count("(") > 4 or len(pattern) > 60
    ms = r.choice([0, 1, 2, 3, 5, 10, 10, 40])
    start, end = -1, -1
    if ms > 0 and r.random() < 0.25:
        start = r.randrange(len(text) + 1)
    if ms > 0 and r.random() < 0.25:
        end = r.randrange(max(start, 0), len(text) + 1)
    tpl = template(r, alpha)
    room = r.choice([0, 1, 2, 5, 40, 200])
    rune = r.random() < 0.4
    if not rune:
        off = [0]
        for c in text:
            off.append(off[-1] + len(c.encode()))
        units = (text.encode(), lambda c: c.encode())
    else:
        off = list(range(len(text) + 1))
        units = ([ord(c) for c in text], lambda c: [ord(c)])
    other = r.choice(["x", "(a|b)*c", "[a-z]+", "^.$"])
    if kind == "l":
        other = "qq"
    line = "%s %s %s %s %s %d %d %d %s %d" % ("rre" if rune else "re", kind, hx(pattern), hx(other), hx(text), -1 if start < 0 else off[start], -1 if end < 0 else off[end], ms, hx(tpl), room)
    desc = "%r on %r [%d:%d] groups %d template %r room %d" % (pattern, text, start, end, ms, tpl, room)
    if ast is None:
        def refuse(rep):
            if rep.startswith("!1\n") and "regerror" in rep:
                return None
            return "the bad expression isn't refused"
        refuse.accepts_exit = True
        return Case(line, refuse, "bad/%s" % i, desc)
    try:
        want = oracle(ast, text, max(start, 0), len(text) if end < 0 else end, kind == "d", p.groups)
    except OverflowError:
        return None

    def judge(rep):
        if rep.startswith("!"):
            if deep and rep.startswith("!1\n") and "stack overflow" in rep:
                return None
            return "the expression is refused"
        t = rep.split(" ")
        if t[-1] != "1":
            return "memory isn't given back"
        t = t[:-1]
        rv = int(t[0])
        if rv < 0:
            return None if len(pattern) > (25 if rune else 120) else "no answer"
        if (rv > 0) != (want is not None):
            return "%s, expected %s" % ("a match" if rv else "no match", want and want[:2])
        got = [(int(t[1 + 2 * k]), int(t[2 + 2 * k])) for k in range(ms)]
        if rv == 0:
            return None if all(g == (-1, -1) for g in got) else "groups without a match"
        if ms == 0:
            return None
        if got[0] != (off[want[0]], off[want[1]]):
            return "match at %s instead of %s" % (got[0], (off[want[0]], off[want[1]]))
        if ms > 1 and want[2] is not None:
            n = min(ms, p.groups + 1)
            poss = {tuple((-1, -1) if c[k] is None else (off[c[k][0]], off[c[k][1]]) for k in range(1, n)) for c in want[2]}
            if tuple(got[1:n]) not in poss:
                return "groups %s, possible are %s" % (got[1:n], sorted(poss)[:5])
        for k in range(p.groups + 1, ms):
            if got[k] != (-1, -1):
                return "group %d isn't in the expression" % k
        if room == 0:
            return None
        w = subst(tpl, units, got, ms)[:room - 1]
        if rune:
            g = [int(x) for x in t[1 + 2 * ms:]]
            return None if g == w else "substituted %r instead of %r" % (g, w)
        g = unhx(t[1 + 2 * ms])
        return None if g == bytes(w) else "substituted %r instead of %r" % (g, bytes(w))
    judge.accepts_exit = True
    return Case(line, judge, "re/%s" % i, desc)


FIXED = [("^b", "\nb"), ("^b", "a\n\nb"), ("^", "\n"), ("$", "a\n"), ("^$", "a\n\n"), ("(a*)*", "b"), ("(a*)+", "aab"), ("a**", "aa"), ("(a|ab)(c|bcd)(d*)", "abcd"),
         ("(a+|b+)*", "aabba"), ("x*", ""), ("", "abc"), ("(^a|b$)", "cab\n"), (".*", "ab\ncd"), ("[^a]*", "bb\nb"), ("(a?)*b", "aab"), ("((a)|b)*", "ab"),
         ("(" * 5 + "a" + ")" * 5, "a"), ("a|b|c|d|e|f|g|h|i|j|k", "k"), ("(coma|research|pipe|pyxis|inet|hunny|gauss)!(.*)", "xpipe!a!b")]

RULES = [("^[^!@]+$", "/bin/upas/aliasmail '&'"), ("^local!(.*)$", "/mail/box/\\1/mbox"), ("^plan9!(.*)$", "\\1"), ("^helix!(.*)$", "\\1"), ("^([^!]+)@([^!@]+)$", "\\2!\\1"),
         ("^(uk\\.[^!]*)(!.*)$", "/bin/upas/uk2uk '\\1' '\\2'"), ("^[^!]*\\.[^!]*!.*$", "inet!&"), ("^\u263a$", "smiley"),
         ("^(coma|research|pipe|pyxis|inet|hunny|gauss)!(.*)$", "/mail/lib/qmail '\\s' 'net!\\1' '\\2'"), ("^.*$", "/mail/lib/qmail '\\s' 'net!research' '&'")]


def prog(binary, text):
    import re
    want = ""
    for pat, sub in RULES:
        want += "%s VIA %s" % (text, pat)
        m = re.match(pat[:-1] + r"\Z", text)
        if m:
            s = re.sub(r"\\([0-9])|&|\\(.)", lambda x: m.group(0) if x.group(0) == "&" else m.group(int(x.group(1))) if x.group(1) else x.group(2), sub)
            want += " sub %s -> %s" % (sub, s)
        want += "\n"
    res = run([binary, text], b"", env=ck.che_env("san"), timeout=60)
    ck.saw("prog/" + text)
    if res.san or res.rc != 0 or res.out.decode() != want:
        ck.violation("prog/" + text, "libregexp9 %r: %s" % (text, res.san or "status %s, output differs" % res.rc), {"arg": text, "stdout": res.text, "want": want, "stderr": res.etext})


def main_check():
    ck.build_che()
    binary = ck.harness("regexps", prog="libregexp9")
    r = ck.rng("cases")
    cases = []
    for i in range(ck.n(9000, 120000)):
        c = one(r, i)
        if c:
            cases.append(c)
    for k, (p, t) in enumerate(FIXED):
        for j in range(8):
            c = one(r, "fixed%d" % k, p, t)
            if c:
                cases.append(c)
    run_cases(ck, binary, cases, batch=100)
    exe = os.path.join(ck.scratch, "libregexp9")
    if ck.che_build(os.path.join(REPO, "prog/libregexp9/libregexp9.c"), exe).rc != 0:
        raise CheckError("libregexp9 does not build")
    texts = ["joe", "local!joe", "plan9!x", "helix!y!z", "joe@host", "uk.ac!x", "a.b!c", "\u263a", "pipe!a", "gauss!", "research!joe", "a!b", "", "joe@a@b", "x" * 60]
    for _ in range(ck.n(30, 200)):
        texts.append("".join(r.choice(["local", "!", "@", ".", "uk.", "pipe", "a", "\u263a"]) for _ in range(r.randrange(1, 6))))
    ck.pmap(lambda t: prog(exe, t), texts)
    ck.finish()


main(main_check)
