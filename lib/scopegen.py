"""Programs in which names are declared again in inner scopes, with other types; the expected output is computed here."""

NAMES = ["x", "y", "zed", "time", "round"]
TYPES = ["int", "double", "str", "pt", "pp", "arr", "ip"]


class Scopes:
    def __init__(self, r):
        self.r = r
        self.k = 0
        self.feats = set()
        self.cells = 0

    # ---- generating: (lines of source, tree for the interpreter) ----

    def num(self):
        self.k += 1
        return self.k

    def decl(self, name, t, ind):
        v = self.r.randrange(1, 50)
        src = {"int": "int %s = %d;", "double": "double %s = %d.5;", "str": "char *%s = \"s%d\";", "pt": "pt_t %s = {.a = %d, .b = 0.5};",
               "pp": None, "arr": "int %s[] = {%d, 7, 8};", "ip": None}[t]
        if t == "pp":
            self.cells += 1
            c = "cell%d" % self.cells
            return [ind + "pt_t %s = {.a = %d, .b = 0.25};" % (c, v), ind + "pt_t *%s = &%s;" % (name, c)], v
        if t == "ip":
            self.cells += 1
            c = "cell%d" % self.cells
            return [ind + "int %s = %d;" % (c, v), ind + "int *%s = &%s;" % (name, c)], v
        return [ind + src % (name, v)], v

    def observe(self, name, t):
        """an expression of the right type and the function from the value to what is printed"""
        r = self.r
        n = name
        return r.choice({
            "int": [("oi(%s);" % n, lambda v: "%d" % v), ("oi(%s / 2 + %s %% 3);" % (n, n), lambda v: "%d" % (v // 2 + v % 3)), ("oi((%s << 1) | (%s & 1));" % (n, n), lambda v: "%d" % (v << 1 | v & 1))],
            "double": [("of(%s / 2);" % n, lambda v: "%.3f" % ((v + 0.5) / 2)), ("of(%s * %s);" % (n, n), lambda v: "%.3f" % ((v + 0.5) ** 2))],
            "str": [("puts(%s);" % n, lambda v: "s%d" % v), ("oi(%s[0]);" % n, lambda v: "115"), ("oi(*%s == 's');" % n, lambda v: "1"), ("switch str (%s) { case \"none\": { oi(0); } default: { puts(%s + 1); } }" % (n, n), lambda v: "%d" % v)],
            "pt": [("oi(%s.a);" % n, lambda v: "%d" % v), ("of(%s.b);" % n, lambda v: "0.500")],
            "pp": [("oi(%s->a);" % n, lambda v: "%d" % v), ("of((*%s).b);" % n, lambda v: "0.250"), ("oi((*%s).a + %s->a);" % (n, n), lambda v: "%d" % (2 * v))],
            "arr": [("oi(%s[0] + %s[2]);" % (n, n), lambda v: "%d" % (v + 8)), ("oi((int) (sizeof(%s) / sizeof(%s[0])));" % (n, n), lambda v: "3"), ("oi((int) nelem(%s));" % n, lambda v: "3")],
            "ip": [("oi(*%s);" % n, lambda v: "%d" % v), ("oi(%s[0] * 2);" % n, lambda v: "%d" % (v * 2))],
            "fn": [("oi(%s());" % n, lambda v: "%d" % v), ("oi(%s() + 1);" % n, lambda v: "%d" % (v + 1))],
            "enum": [("oi(%s);" % n, lambda v: "%d" % v)],
        }[t])

    def bump(self, name, t):
        return {"int": "%s++;", "double": "%s += 1;", "pt": "%s.a++;", "pp": "%s->a += 1;", "arr": "%s[0]++;", "ip": "(*%s)++;"}.get(t, "") % name if t in ("int", "double", "pt", "pp", "arr", "ip") else None

    def block(self, d, outer, ind, taken=(), n=None):
        """outer: list of scopes {name: type}; returns (lines, nodes)"""
        r = self.r
        scope = {}
        scopes = outer + [scope]
        lines, nodes = [], []

        def visible():
            seen = {}
            for s in scopes:
                seen.update(s)
            return seen

        for _ in range(n or r.randrange(2, 7)):
            vis = visible()
            c = r.random()
            free = [x for x in NAMES if x not in scope and x not in taken]
            if c < 0.35 and free:
                name = r.choice(free)
                t = r.choice(TYPES)
                if name in vis:
                    self.feats.add("%s over %s at %d" % (t, vis[name], min(len(scopes), 6)))
                ls, v = self.decl(name, t, ind)
                scope[name] = t
                o, f = self.observe(name, t)
                lines += ls + [ind + o]
                nodes += [("decl", name, v), ("obs", name, f)]
            elif c < 0.65 and vis:
                name = r.choice(sorted(vis))
                o, f = self.observe(name, vis[name])
                lines.append(ind + o)
                nodes.append(("obs", name, f))
            elif c < 0.75 and vis:
                name = r.choice(sorted(vis))
                b = self.bump(name, vis[name])
                if b:
                    lines.append(ind + b)
                    nodes.append(("bump", name))
            elif d > 0:
                self.nested(d - 1, scopes, ind, lines, nodes)
        return lines, nodes

    def nested(self, d, scopes, ind, lines, nodes):
        r = self.r
        k = r.randrange(7)
        i2 = ind + "\t"
        if k == 0:
            a, na = self.block(d, scopes, i2)
            lines += [ind + "if (one == 1) {"] + a + [ind + "}"]
            nodes.append(("block", na))
        elif k == 1:
            a, na = self.block(d, scopes, i2)
            b, nb = self.block(d, scopes, i2)
            yes = r.randrange(2)
            lines += [ind + "if (one == %d) {" % yes] + a + [ind + "} else {"] + b + [ind + "}"]
            nodes.append(("block", na if yes else nb))
        elif k == 2:
            c = "c%d" % self.num()
            m = r.randrange(3)
            a, na = self.block(d, scopes, i2)
            lines += [ind + "int %s = %d;" % (c, m), ind + "while (%s-- > 0) {" % c] + a + [ind + "}"]
            nodes.append(("loop", None, m, na))
        elif k == 3:
            name = r.choice(NAMES)
            m = r.randrange(3)
            vis = {}
            for s in scopes:
                vis.update(s)
            if name in vis:
                self.feats.add("loop counter over %s at %d" % (vis[name], min(len(scopes), 6)))
            a, na = self.counter(d, scopes, i2, name)
            lines += [ind + "for (int %s = 0; %s < %d; %s++) {" % (name, name, m, name)] + a + [ind + "}"]
            nodes.append(("loop", name, m, na))
        elif k == 4:
            subj = r.randrange(3)
            lines.append(ind + "switch (one + %d) {" % subj)
            for c in range(1, 4):
                a, na = self.block(d, scopes, i2 + "\t")
                lines += [i2 + "case %d: {" % c] + a + [i2 + "}"]
                if c == one_plus(subj):
                    nodes.append(("block", na))
            lines += [i2 + "default: {}", ind + "}"]
        elif k == 5:
            subj = r.choice("abz")
            lines.append(ind + "switch str (name_%s) {" % subj)
            chosen = None
            for c in "ab":
                a, na = self.block(d, scopes, i2 + "\t")
                lines += [i2 + "case \"%s\": {" % c] + a + [i2 + "}"]
                if c == subj:
                    chosen = na
            a, na = self.block(d, scopes, i2 + "\t")
            lines += [i2 + "default: {"] + a + [i2 + "}", ind + "}"]
            nodes.append(("block", chosen if chosen is not None else na))
        else:
            f = r.choice(self.fns) if self.fns else None
            if f:
                args = [r.randrange(1, 9) for _ in f[1]]
                lines.append(ind + "%s(%s);" % (f[0], ", ".join("%d" % a if t == "int" else "%d.5" % a if t == "double" else "\"s%d\"" % a for a, (_, t) in zip(args, f[1]))))
                nodes.append(("call", f, args))

    def counter(self, d, scopes, ind, name):
        """the body of a loop whose counter is `name`; the counter is read but never changed"""
        lines, nodes = [ind + "oi(%s);" % name], [("obs", name, lambda v: "%d" % v)]
        a, na = self.block(d, scopes + [{name: "enum"}], ind)
        return lines + a, nodes + na

    # ---- interpreting ----

    def execute(self, nodes, env, out):
        """env: list of scopes {name: [value]}"""
        for nd in nodes:
            if len(out) > 4000:
                raise OverflowError
            if nd[0] == "decl":
                env[-1][nd[1]] = [nd[2]]
            elif nd[0] == "obs":
                out.append(nd[2](self.find(env, nd[1])[0]))
            elif nd[0] == "bump":
                self.find(env, nd[1])[0] += 1
            elif nd[0] == "block":
                self.execute(nd[1], env + [{}], out)
            elif nd[0] == "loop":
                for i in range(nd[2]):
                    self.execute(nd[3], env + [{nd[1]: [i]} if nd[1] else {}, {}], out)
            elif nd[0] == "call":
                f, args = nd[1], nd[2]
                self.execute(f[2], [env[0], {p: [a] for a, (p, _) in zip(args, f[1])}], out)

    def find(self, env, name):
        for s in reversed(env):
            if name in s:
                return s[name]
        raise KeyError(name)

    def build(self):
        r = self.r
        self.fns = []
        names = list(NAMES)
        glob = {}
        genv = {}
        top = []
        # a function, an enum member and variables under names that will be declared again inside
        r.shuffle(names)
        if r.random() < 0.5:
            n = names.pop()
            if n not in ("time", "round"):
                v = r.randrange(50)
                top.append("int %s() { return %d; }" % (n, v))
                glob[n], genv[n] = "fn", [v]
        if r.random() < 0.4:
            n = names.pop()
            if n not in ("time", "round"):
                top.append("enum { %s = 13 }" % n)
                glob[n], genv[n] = "enum", [13]
        for n in names:
            if n not in ("time", "round") and r.random() < 0.5:
                t = r.choice(["int", "double", "str", "pt", "arr"])
                ls, v = self.decl(n, t, "")
                top += ls
                glob[n], genv[n] = t, [v]
        texts = []
        for i in range(r.randrange(0, 3)):
            params = [(p, r.choice(["int", "double", "str"])) for p in r.sample(NAMES, r.randrange(0, 3))]
            lines, nodes = [], []
            for p, t in params:
                o, f = self.observe(p, t)
                lines.append("\t" + o)
                nodes.append(("obs", p, f))
                if p in glob:
                    self.feats.add("parameter %s over module %s" % (t, glob[p]))
            a, na = self.block(2, [glob, dict(params)], "\t", taken=[p for p, _ in params])
            texts.append("void f%d(%s) {\n%s\n}" % (i, ", ".join("%s %s" % ({"str": "char *"}.get(t, t), p) for p, t in params), "\n".join(lines + a)))
            self.fns.append(("f%d" % i, params, nodes + na))
        a, na = self.block(4, [glob], "\t", n=r.randrange(6, 14))
        use, nuse = [], []
        for n in sorted(glob):
            o, f = self.observe(n, glob[n])
            use.append("\t" + o)
            nuse.append(("obs", n, f))
        for f in self.fns:
            use.append("\t%s(%s);" % (f[0], ", ".join({"int": "1", "double": "1.5", "str": "\"s1\""}[t] for _, t in f[1])))
            nuse.append(("call", f, [1] * len(f[1])))
        out = []
        self.execute(nuse + na, [genv, {}], out)
        body = "\n".join(top + texts)
        text = "typedef { int a; double b; } pt_t;\nint one = 1;\nchar *name_a = \"a\";\nchar *name_b = \"b\";\nchar *name_z = \"z\";\n" \
                "void oi(int v) { printf(\"%d\\n\", v); }\nvoid of(double v) { printf(\"%.3f\\n\", v); }\n" \
                + body + "\nvoid keep() {\n\tif (one == 2) {\n\t\toi(0);\n\t\tof(0);\n\t\tpt_t k = {.a = 1, .b = 2};\n\t\toi(k.a);\n\t}\n\tif (one == 3) {\n\t\tputs(name_a);\n\t\tputs(name_b);\n\t\tputs(name_z);\n\t}\n}\n" \
                + "int main() {\n\tkeep();\n" + "\n".join(use + a) + "\n\treturn 0;\n}\n"
        return text, out


def one_plus(s):
    return 1 + s
