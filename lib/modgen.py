"""Random multi-module projects with a reference interpretation (P05, P09)."""
import os, re

DIRS = ["", "a", "a/b", "c", "c/d e"]


class Mod:
    pass


class Project:
    def __init__(self, r):
        self.r = r
        n = r.randrange(2, 9)
        self.mods = []
        self.feats = set()
        nlib = r.choice([0, 0, 1, 2, 3])
        # 0 is main; edges go from lower to higher numbers
        for i in range(n):
            m = Mod()
            m.i = i
            m.lib = i > 0 and i >= n - nlib
            if i == 0:
                m.dir, m.base = r.choice(["", "a", "c"]), r.choice(["main", "my-prog", "x.y", "prog"])
            elif m.lib:
                m.dir, m.base = r.choice(["", "sub"]), r.choice(["u", "v", "lib", "w%d" % i])
            else:
                m.dir, m.base = r.choice(DIRS[:4] if r.random() < .9 else DIRS[4:] if False else DIRS[:4]), r.choice(["u", "v", "lib", "w%d" % i, "m%d" % i])
            for k in range(20):
                if not any(o.lib == m.lib and o.dir == m.dir and o.base == m.base for o in self.mods):
                    break
                m.base += "x"
            self.mods.append(m)
            m.one, m.two, m.ka, m.s0 = r.randrange(1, 6), r.randrange(6, 60), r.randrange(90), r.randrange(90)
            m.p, m.q = r.randrange(1, 9), r.randrange(90)
            m.same = r.random() < .3
            m.shadow = r.random() < .4
        for m in self.mods:
            cand = [o for o in self.mods if o.i > m.i and (o.lib or not m.lib)]
            r.shuffle(cand)
            m.imps = []
            k = r.randrange(1 if m.i == 0 else 0, 4)
            for o in cand:
                if len(m.imps) >= k:
                    break
                if any(x.base == o.base for x in m.imps):
                    continue
                m.imps.append(o)
            if m.i == 0 and not m.imps:
                m.imps = cand[:1]
        # drop unreachable modules
        seen = set()

        def walk(m):
            if m.i in seen:
                return
            seen.add(m.i)
            for o in m.imps:
                walk(o)
        walk(self.mods[0])
        self.live = [m for m in self.mods if m.i in seen]
        indeg = {}
        for m in self.live:
            for o in m.imps:
                indeg[o.i] = indeg.get(o.i, 0) + 1
        for i, d in indeg.items():
            if d > 1:
                self.feats.add("shared")
                dirs = {(m.lib, m.dir) for m in self.live if self.mods[i] in m.imps}
                if len(dirs) > 1:
                    self.feats.add("shared/dirs")
        for m in self.live:
            for o in self.live:
                if m.i < o.i and m.base == o.base:
                    self.feats.add("samebase")
        for m in self.mods:
            m.fieldimp = r.choice([None] + m.imps) if m.imps else None
            m.arrimp = r.choice([None] + m.imps) if m.imps else None
            m.bumpimps = [o for o in m.imps if r.random() < .7]

    # ---- source ----
    def path(self, m, home):
        d = os.path.join(home, "lib") if m.lib else self.root
        return os.path.join(d, m.dir, m.base + ".c") if m.dir else os.path.join(d, m.base + ".c")

    def imp(self, m, o):
        """text of an import of o in m"""
        r = self.r
        if o.lib and (not m.lib or r.random() < .5):
            self.feats.add("imp/lib" + ("sub" if o.dir else ""))
            return (o.dir + "/" if o.dir else "") + o.base
        rel = os.path.relpath("/r/" + (o.dir + "/" if o.dir else "") + o.base + ".c", "/r/" + m.dir)
        k = r.random()
        if k < .25:
            rel = "./" + rel
            self.feats.add("imp/dot")
        elif k < .4 and m.dir:
            rel = "../" * (m.dir.count("/") + 1) + (m.dir + "/") + rel
            self.feats.add("imp/around")
        elif ".." in rel:
            self.feats.add("imp/up")
        elif "/" in rel:
            self.feats.add("imp/down")
        else:
            self.feats.add("imp/same")
        return rel

    def source(self, m):
        r = self.r
        imps = "".join("#import %s\n" % self.imp(m, o) for o in m.imps)
        E = []
        used = set()

        def U(o):
            used.add(o.i)
            return o.base
        E.append("enum { KA = %d, KB }" % m.ka)
        E.append("pub enum { ONE = %d, TWO = %d, THREE }" % (m.one, m.two))
        E.append("int state = %d;" % m.s0)
        E.append("typedef { int k; } priv_t;")
        hb = ["priv_t pp = { .k = (x * %d + %d) %% 1000 + KA };" % (m.p, m.q), "return pp.k + KB - KB;"]
        E.append("int helper(int x) {\n\t%s\n}" % "\n\t".join(hb))
        g = "helper(x) + state + ONE + THREE"
        for o in m.imps:
            g += " + %s.get(x %% 10) * %s.%s" % (U(o), o.base, "TWO")
            self.feats.add("use/fn")
            self.feats.add("use/const")
        x = "get" if m.same else "x"
        E.append("pub int get(int %s) {\n\treturn (%s) %% 1000;\n}" % (x, re.sub(r"\bx\b", x, g) if not m.same else re.sub(r"\bx\b", "get", g)))
        if m.same:
            self.feats.add("param-named-as-fn")
        b = ["state += n;"] + ["%s.bump(n + 1);" % o.base for o in m.bumpimps]
        E.append("pub void bump(int n) {\n\t%s\n}" % "\n\t".join(b))
        fields = "\tint a;\n"
        if m.fieldimp:
            fields += "\t%s.t b;\n" % U(m.fieldimp)
            self.feats.add("use/type-in-struct")
        if m.arrimp:
            fields += "\tint c[%s.TWO];\n" % U(m.arrimp)
            self.feats.add("use/const-in-size")
        tdef = "pub typedef {\n%s} t;" % fields
        mk = ["t r = { .a = helper(x) };"]
        rd = "v->a * 7"
        if m.fieldimp:
            mk.append("r.b = %s.make(x + 1);" % m.fieldimp.base)
            rd += " + %s.rd(&v->b)" % m.fieldimp.base
            self.feats.add("use/struct-by-value")
        if m.shadow and m.imps:
            o = m.imps[0]
            mk = ["%s.t %s = {};" % (o.base, o.base), "(&%s)->a = x;" % o.base] + mk + ["r.a += (&%s)->a;" % o.base]
            self.feats.add("ns-shadowed")
            used.add(o.i)
            if m.fieldimp is o:
                # the namespace is shadowed by the variable now: build the field first
                mk = ["t r = { .a = helper(x) };", "r.b = %s.make(x + 1);" % o.base, "%s.t %s = {};" % (o.base, o.base), "(&%s)->a = x;" % o.base, "r.a += (&%s)->a;" % o.base]
        E.append("pub t make(int x) {\n\t%s\n\treturn r;\n}" % "\n\t".join(mk))
        E.append("pub int rd(t *v) {\n\treturn (%s) %% 1000;\n}" % rd)
        E.append("pub int app(cb_t *f, int x) {\n\treturn f(x) + helper(ONE);\n}")
        sw = ["switch (x) {", "case ONE: { return 1; }", "case TWO: { return 2; }"]
        sw += ["default: {}", "}"]
        for o in m.imps:
            sw += ["switch (x) {", "case %s.ONE: { return %d; }" % (o.base, 10 * o.i + 1), "case %s.TWO: { return %d; }" % (o.base, 10 * o.i + 2), "default: {}", "}"]
            self.feats.add("use/const-in-case")
        E.append("pub int which(int x) {\n\t%s\n\treturn 0;\n}" % "\n\t".join(sw))
        types = ["pub typedef int cb_t(int);", tdef]
        r.shuffle(E)
        pos = sorted(r.randrange(len(E) + 1) for _ in types)
        for k, (p, t) in enumerate(zip(pos, types)):
            E.insert(p + k, t)
        if m.i == 0:
            E.append(self.main(m))
        if m.imps and r.random() < .1:
            # an import may come after declarations
            lines = imps.splitlines()
            self.feats.add("imp/late")
            E.insert(r.randrange(len(E) + 1), lines[-1])
            return "\n".join(lines[:-1]) + "\n\n" + "\n\n".join(E) + "\n"
        return imps + "\n" + "\n\n".join(E) + "\n"

    def main(self, m):
        r = self.r
        L = []
        self.exp = []
        st = {o.i: o.s0 for o in self.mods}

        def helper(o, x):
            return (x * o.p + o.q) % 1000 + o.ka

        def get(o, x):
            return (helper(o, x) + st[o.i] + o.one + o.two + 1 + sum(get(q, x % 10) * q.two for q in o.imps)) % 1000

        def bump(o, n):
            st[o.i] += n
            for q in o.bumpimps:
                bump(q, n + 1)

        def make(o, x):
            a = helper(o, x)
            if o.shadow and o.imps:
                a += x
            return (a, make(o.fieldimp, x + 1) if o.fieldimp else None)

        def rd(o, v):
            return (v[0] * 7 + (rd(o.fieldimp, v[1]) if o.fieldimp else 0)) % 1000

        def which(o, x):
            if x == o.one:
                return 1
            if x == o.two:
                return 2
            for q in o.imps:
                if x == q.one:
                    return 10 * q.i + 1
                if x == q.two:
                    return 10 * q.i + 2
            return 0
        for k in range(r.randrange(12, 30)):
            o = r.choice([m] + m.imps * 2)
            ns = "" if o is m else o.base + "."
            x = r.randrange(50)
            op = r.randrange(7)
            if op == 0:
                L.append('printf("%%d\\n", %sget(%d));' % (ns, x))
                self.exp.append(get(o, x))
            elif op == 1:
                L.append("%sbump(%d);" % (ns, x))
                bump(o, x)
            elif op == 2:
                L.append('%st v%d = %smake(%d); printf("%%d\\n", %srd(&v%d));' % (ns, k, ns, x, ns, k))
                self.exp.append(rd(o, make(o, x)))
            elif op == 3:
                q = r.choice([m] + m.imps)
                fn = ("" if q is m else q.base + ".") + "get"
                L.append('printf("%%d\\n", %sapp(%s, %d));' % (ns, fn, x))
                v = get(q, x) + helper(o, o.one)
                self.exp.append(v)
                self.feats.add("use/fnptr")
            elif op == 4:
                c = r.choice([("ONE", o.one), ("TWO", o.two), ("THREE", o.two + 1)])
                L.append('printf("%%d\\n", %s%s + 0);' % (ns, c[0]))
                self.exp.append(c[1])
            elif op == 5:
                y = r.choice([o.one, o.two, x] + [q.two for q in o.imps])
                L.append('printf("%%d\\n", %swhich(%d));' % (ns, y))
                self.exp.append(which(o, y))
            else:
                L.append('%scb_t *f%d = %sget; printf("%%d\\n", f%d(%d));' % (ns, k, ns, k, x))
                self.exp.append(get(o, x))
                self.feats.add("use/fntype")
        for o in m.imps:
            L.append('printf("%%d\\n", %s.get(1));' % o.base)
            self.exp.append(get(o, 1))
        L.append('printf("%d\\n", state);')
        self.exp.append(st[0])
        return "int main() {\n\t%s\n\treturn 0;\n}" % "\n\t".join(L)


def layout(P, D):
    P.root = os.path.join(D, "src")
    P.home = os.path.join(D, "home")
    for d in ("home/tmp", "home/bin", "home/lib/sub"):
        os.makedirs(os.path.join(D, d))
    for d in DIRS[:4]:
        os.makedirs(os.path.join(P.root, d), exist_ok=True)
    P.src = {}
    for m in P.live:
        p = P.path(m, P.home)
        P.src[m.i] = P.source(m)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(P.src[m.i])


def dump(P):
    return "\n".join("=== %s%s\n%s" % ("LIB " if m.lib else "", (m.dir + "/" if m.dir else "") + m.base, P.src.get(m.i, "")) for m in P.live)
