import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P02", rule="random terminating programs of nested if/else, while, for, switch, switch str, break, continue and "
           "return, bodies braced or not; every executed statement prints a trace line; non-trivial: a distinct "
           "(construct inside construct, jump taken) shape of a generated program whose trace was compared",
           assumptions=["the reference trace is gcc's run of the same tree with every body braced, every case ended by a break, "
                        "and the subject of a string switch evaluated once"])

NAMES = ["red", "green", "blue", "", "re", "redd", "a b", "%d"]


class G:
    def __init__(self, r):
        self.r = r
        self.nid = 0
        self.nt = 0
        self.shapes = set()
        self.funcs = []

    def fresh(self, p):
        self.nid += 1
        return "%s%d" % (p, self.nid)

    def expr(self, vs):
        r = self.r
        a, b = r.choice(vs), r.choice(vs)
        return r.choice(["%s" % a, "%s" % a, "(%s + %s)" % (a, b), "(%s * 3)" % a, "((%s + 7) & 15)" % a, "(%s - %s)" % (a, b), "(%s ^ %s)" % (a, b),
                         str(r.randrange(20))])

    def cond(self, vs):
        r = self.r
        a, b = r.choice(vs), r.choice(vs)
        return r.choice(["%s < %s" % (a, b), "(%s & 1) == 0" % a, "%s > %d" % (a, r.randrange(8)), "%s & 2" % a, "!(%s & 1)" % a,
                         "%s > 2 && %s < 9" % (a, b), "%s == 3 || %s != 5" % (a, b), "!(%s < %s)" % (a, b), "chk(%d, %s & 1)" % (self.tid(), a)])

    def tid(self):
        self.nt += 1
        return self.nt

    # each statement: ("kind", ...) trees; rendered twice
    def block(self, vs, depth, inloop, infn, n=None, path=()):
        r = self.r
        vs = list(vs)
        out = []
        n = n or r.randrange(1, 4)
        for _ in range(n):
            out += self.stmt(vs, depth, inloop, infn, path)
        return out

    def body(self, vs, depth, inloop, infn, path):
        """a body that may be rendered without braces when it is a single statement"""
        r = self.r
        if r.random() < 0.4:
            for _ in range(5):
                b = self.stmt(list(vs), depth, inloop, infn, path, single=True)
                if len(b) == 1 and b[0][0] != "decl":
                    return b
        return self.block(vs, depth, inloop, infn, path=path)

    def note(self, path, k):
        p = [x for x in path if x != "fn"][-2:]
        self.shapes.add(">".join(p + [k]))

    def stmt(self, vs, depth, inloop, infn, path, single=False):
        r = self.r
        ch = r.random()
        wr = [v for v in vs if v[0] in "vp"]
        if depth <= 0 or ch < 0.16:
            return [("tr", self.tid(), self.expr(vs))]
        if ch < 0.26 and wr:
            v = r.choice(wr)
            return [("ex", r.choice(["%s = %s" % (v, self.expr(vs)), "%s += %d" % (v, r.randrange(1, 5)), "%s++" % v, "%s--" % v]))]
        if ch < 0.33 and not single:
            # sometimes shadows a name of an outer scope
            v = self.fresh("v")
            if r.random() < 0.3 and path and path[-1] != "fn":
                cands = [x for x in vs if x[0] == "v" and x not in self.local[-1]]
                if cands:
                    v = r.choice(cands)
            if v in self.local[-1]:
                v = self.fresh("v")
            e = self.expr([x for x in vs if x != v] or ["g"])
            self.local[-1].add(v)
            if v not in vs:
                vs.append(v)
            self.note(path, "decl")
            return [("decl", v, e), ("tr", self.tid(), v)]
        if ch < 0.53:
            self.note(path, "if")
            c = self.cond(vs)
            self.local.append(set())
            a = self.body(vs, depth - 1, inloop, infn, path + ("if",))
            self.local.pop()
            e = None
            if r.random() < 0.55:
                self.local.append(set())
                e = self.body(vs, depth - 1, inloop, infn, path + ("else",))
                self.local.pop()
                self.note(path, "else")
            return [("if", c, a, e)]
        if ch < 0.60:
            if inloop and r.random() < 0.7:
                j = r.choice(["break", "continue"])
                # a break directly inside a string switch is left out: see DESIGN.md
                lastsw = None
                for p in path[::-1]:
                    if p in ("while", "for", "for3", "forever", "switch", "sswitch"):
                        lastsw = p
                        break
                if j == "break" and "sswitch" in path:
                    i1 = max(i for i, p in enumerate(path) if p == "sswitch")
                    i2 = max([i for i, p in enumerate(path) if p in ("while", "for", "for3", "forever", "switch")] or [-1])
                    if i1 > i2:
                        j = "continue"
                if j == "continue" and not any(p in ("while", "for", "for3", "forever") for p in path):
                    return [("tr", self.tid(), self.expr(vs))]
                self.note(path, j)
                return [("if", self.cond(vs), [("tr", self.tid(), "1"), (j,)], None)]
            if infn and r.random() < 0.5:
                self.note(path, "return")
                return [("if", self.cond(vs), [("ret", self.expr(vs))], None)]
            return [("tr", self.tid(), self.expr(vs))]
        if ch < 0.72:
            kind = r.choice(["while", "for", "for3", "forever"])
            self.note(path, kind)
            k = self.fresh("c")
            lim = r.randrange(0, 5)
            self.local.append(set())
            b = self.body(vs + [k], depth - 1, True, infn, path + (kind,))
            self.local.pop()
            pre = [] if kind == "for" else [("decl", k, "0")]
            if kind == "while":
                # the counter steps first so that continue can't loop forever
                return pre + [("while", r.choice(["%s < %d", "(%s < %d) && chk(0, 1)"]) % (k, lim), [("ex", k + "++")] + b)] if not single else [("tr", self.tid(), "2")]
            if kind == "for":
                return [("for", "int %s = 0" % k, "%s < %d" % (k, lim), r.choice(["%s++", "++%s", "%s += 1"]) % k, b)]
            if single:
                return [("tr", self.tid(), "3")]
            if kind == "for3":
                return pre + [("for", "%s = 0" % k, "%s < %d" % (k, lim), "%s++" % k, b)]
            return pre + [("for", "", "", "", [("if", "%s >= %d" % (k, lim), [("break",)], None), ("ex", k + "++")] + b)]
        if ch < 0.84:
            self.note(path, "switch")
            mode = r.choice(["int", "enum", "char", "def"])
            labs = {"int": ["0", "1", "2", "3", "0x4", "5"], "enum": ["EA", "EB", "EC", "ED", "EE"], "char": ["'a'", "'b'", "'\\n'", "'\\''", "'\"'", "'\\\\'", "'0'"],
                    "def": ["DA", "DB", "DC"]}[mode]
            labs = list(labs)
            r.shuffle(labs)
            cases = []
            while labs and r.random() < 0.8:
                vals = [labs.pop()]
                while labs and r.random() < 0.3:
                    vals.append(labs.pop())
                self.local.append(set())
                b = self.block(vs, depth - 1, True, infn, path=path + ("switch",))
                self.local.pop()
                if r.random() < 0.25:
                    b = b + [("break",)]
                    self.note(path + ("switch",), "endbreak")
                cases.append((vals, b))
            d = None
            if r.random() < 0.6 or not cases:
                self.local.append(set())
                d = self.block(vs, depth - 1, True, infn, path=path + ("switch",))
                self.local.pop()
            subj = {"int": "(%s & 7)", "enum": "(%s & 7)", "char": "CH[%s & 7]", "def": "(%s & 3) + 10"}[mode] % r.choice(vs)
            return [("switch", subj, cases, d)]
        if ch < 0.94:
            self.note(path, "sswitch")
            labs = list(NAMES)
            r.shuffle(labs)
            cases = []
            while labs and (r.random() < 0.75 or not cases):
                vals = ['"%s"' % labs.pop()]
                while labs and r.random() < 0.3:
                    vals.append('"%s"' % labs.pop())
                self.local.append(set())
                b = self.block(vs, depth - 1, inloop, infn, path=path + ("sswitch",))
                self.local.pop()
                cases.append((vals, b))
            d = None
            if r.random() < 0.6:
                self.local.append(set())
                d = self.block(vs, depth - 1, inloop, infn, path=path + ("sswitch",))
                self.local.pop()
            subj = r.choice(["NM[%s & 7]", "NM[(%s + 3) & 7]", "nameof(%d, %%s)" % self.tid()]) % r.choice(vs)
            if subj.startswith("nameof"):
                self.note(path, "sswitch-call")
            return [("sswitch", subj, cases, d)]
        if self.funcs:
            f = r.choice(self.funcs)
            self.note(path, "call")
            return [("tr", self.tid(), "%s(%s, %s)" % (f, self.expr(vs), self.expr(vs)))]
        return [("tr", self.tid(), self.expr(vs))]

    def func(self, name):
        vs = ["p1", "p2", "g"]
        self.local = [set()]
        b = self.block(vs, self.r.randrange(2, 5), False, True, n=self.r.randrange(3, 7), path=("fn",))
        rec = self.r.random() < 0.3
        t = [("enter",), ("tr", 0, "p1 + p2")] + b
        if rec:
            t.append(("if", "p1 > 0 && p1 < 6", [("ret", "%s(p1 - 1, p2 + 1) + 1" % name)], None))
            self.shapes.add("recursion")
        t.append(("ret", self.expr(["p1", "p2"])))
        self.funcs.append(name)
        return t


def render(b, ind, chem, r):
    """chem: che source with random brace omission; otherwise braced C"""
    t = "\t" * ind
    out = []

    def body(bb, follow_else=False):
        if chem and len(bb) == 1 and bb[0][0] != "decl" and r.random() < 0.6:
            if not (follow_else and ends_open_if(bb[0])):
                sep = r.choice([" ", "\n" + t + "\t"])
                return sep + render(bb, 0, chem, r).strip("\n")
        return " {\n" + render(bb, ind + 1, chem, r) + t + "}"

    for s in b:
        k = s[0]
        if k == "tr":
            out.append("%str(%d, %s);" % (t, s[1], s[2]))
        elif k == "enter":
            out.append(t + "fuel();")
        elif k == "ex":
            out.append(t + s[1] + ";")
        elif k == "decl":
            out.append("%sint %s = %s;" % (t, s[1], s[2]))
        elif k in ("break", "continue"):
            out.append(t + k + ";")
        elif k == "ret":
            out.append("%sreturn %s;" % (t, s[1]))
        elif k == "if":
            x = "%sif (%s)%s" % (t, s[1], body(s[2], s[3] is not None))
            if s[3] is not None:
                x += ("\n" + t if not x.endswith("}") or r.random() < 0.3 else " ") + "else" + body(s[3])
            out.append(x)
        elif k == "while":
            out.append("%swhile (%s)%s" % (t, s[1], body(s[2])))
        elif k == "for":
            out.append("%sfor (%s; %s; %s)%s" % (t, s[1], s[2], s[3], body(s[4])))
        elif k == "switch":
            x = "%sswitch (%s) {\n" % (t, s[1])
            for vals, bb in s[2]:
                if chem:
                    x += "%scase %s: {\n%s%s}\n" % (t, ", ".join(vals), render(bb, ind + 1, chem, r), t)
                else:
                    x += "".join("%scase %s:\n" % (t, v) for v in vals) + "%s{\n%s%s}\n%sbreak;\n" % (t, render(bb, ind + 1, chem, r), t, t)
            if s[3] is not None:
                x += "%sdefault: {\n%s%s}\n" % (t, render(s[3], ind + 1, chem, r), t)
            out.append(x + t + "}")
        elif k == "sswitch":
            if chem:
                x = "%sswitch str (%s) {\n" % (t, s[1])
                for vals, bb in s[2]:
                    x += "%scase %s: {\n%s%s}\n" % (t, ", ".join(vals), render(bb, ind + 1, chem, r), t)
                if s[3] is not None:
                    x += "%sdefault: {\n%s%s}\n" % (t, render(s[3], ind + 1, chem, r), t)
                out.append(x + t + "}")
            else:
                x = "%s{ const char *sv = %s;\n" % (t, s[1])
                for n, (vals, bb) in enumerate(s[2]):
                    x += "%s%sif (%s) {\n%s%s}\n" % (t, "else " if n else "", " || ".join("(strcmp(sv, %s) == 0)" % v for v in vals),
                                                   render(bb, ind + 1, chem, r), t)
                if s[3] is not None:
                    x += "%selse {\n%s%s}\n" % (t, render(s[3], ind + 1, chem, r), t)
                out.append(x + t + "}")
    return "\n".join(out) + "\n"


def ends_open_if(s):
    """would a following else attach to this statement?"""
    if s[0] == "if":
        return s[3] is None or any(ends_open_if(x) for x in s[3][-1:])
    if s[0] == "while":
        return any(ends_open_if(x) for x in s[2][-1:])
    if s[0] == "for":
        return any(ends_open_if(x) for x in s[4][-1:])
    return False


COMMON = r"""
enum { EA, EB, EC = 4, ED = 6, EE };
int g = 3;
int FUEL = 0;
int CH[8] = { 'a', 'b', '\n', '\'', '"', '\\', '0', 'z' };
void fuel() { FUEL++; if (FUEL > 3000) { printf("fuel\n"); exit(0); } }
void tr(int n, int v) { FUEL++; if (FUEL > 3000) { printf("fuel\n"); exit(0); } printf("%d=%d\n", n, v); }
bool chk(int n, int v) { printf("c%d\n", n); return v != 0; }
"""
CHE_PRE = "#define DA 10\n#define DB 11\n#define DC 12\n" + COMMON + r"""
const char *NM[8] = { "red", "green", "blue", "", "re", "redd", "a b", "%d" };
const char *nameof(int n, v) { printf("n%d\n", n); return NM[v & 7]; }
void use() { g = CH[0] + EA + EB + EC + ED + EE + DA + DB + DC; if (chk(0, 0)) { printf("%s", nameof(0, 0)); } }
"""
REF_PRE = "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdbool.h>\n#define DA 10\n#define DB 11\n#define DC 12\n" + COMMON + r"""
static const char *NM[8] = { "red", "green", "blue", "", "re", "redd", "a b", "%d" };
static const char *nameof(int n, int v) { printf("n%d\n", n); return NM[v & 7]; }
"""


def one(idx):
    if len(ck.violations) >= 8:
        return
    r = ck.rng("prog", idx)
    g = G(r)
    fns = []
    for q in range(ck.n(8, 10)):
        name = "f%d" % q
        fns.append((name, g.func(name)))
    order = list(fns)
    r.shuffle(order)
    src = CHE_PRE
    for name, b in order:
        src += "int %s(int p1, p2) {\n%s}\n" % (name, render(b, 1, True, r))
    ref = REF_PRE
    for name, b in fns:
        ref += "static int %s(int p1, int p2);\n" % name
    for name, b in fns:
        ref += "static int %s(int p1, int p2) {\n%s}\n" % (name, render(b, 1, False, r))
    m = ""
    for name, _ in fns:
        for a in [(0, 0), (1, 2), (3, 4), (5, 1), (2, 7), (6, 3), (7, 5), (4, 6)]:
            m += "\tprintf(\"%s %d %d\\n\"); FUEL = 0; g = 3; tr(0, %s(%d, %d));\n" % (name, a[0], a[1], name, a[0], a[1])
    src += "int main() {\n\tif (g > 1000) { use(); }\n" + m + "\treturn g & 63;\n}\n"
    ref += "int main(void) {\n" + m + "\treturn g & 63;\n}\n"
    d = "p%d" % idx
    sp, rp = ck.write(d + "/p.c", src), ck.write(d + "/ref.c", ref)
    D = os.path.dirname(sp)
    b = run(["gcc", "-std=c99", "-w", "-O0", "-fwrapv", rp, "-o", D + "/ref"], timeout=60)
    if b.rc != 0:
        raise CheckError("reference: " + b.etext[:1500])
    w = run([D + "/ref"], timeout=60, cpu=60)
    b = ck.che_build(sp, D + "/out", "plain")
    if b.rc != 0 or not os.path.exists(D + "/out"):
        ck.saw()
        ck.violation("rejected:%d" % idx, "a well-formed program is rejected: " + (b.etext + b.text)[-500:], src)
        return
    o = run([D + "/out"], timeout=60, cpu=60)
    ck.saw(None, len(w.text.split("\n")))
    with ck.lock:
        ck.distinct |= g.shapes
    ck.count("programs")
    if o.out != w.out or o.rc != w.rc:
        a, c = w.text.split("\n"), o.text.split("\n")
        n = next((i for i in range(min(len(a), len(c))) if a[i] != c[i]), min(len(a), len(c)))
        ck.violation("trace:%d" % idx, "trace differs at event %d: expected %r, got %r (exit %s vs %s)" % (n, a[n:n + 1], c[n:n + 1], w.rc, o.rc),
                     "expected ...%s\ngot ...%s\n\n%s\n\n/* reference */\n%s" % (a[max(0, n - 12):n + 3], c[max(0, n - 12):n + 3], src, ref))
    else:
        ck.sample({"program": idx, "events": len(w.text.split("\n")), "first": src[len(CHE_PRE):len(CHE_PRE) + 400]})
    shutil.rmtree(D, ignore_errors=True)


def main_():
    ck.build_che()
    ck.pmap(one, range(ck.n(220, 2500)))
    ck.finish()


main(main_)
