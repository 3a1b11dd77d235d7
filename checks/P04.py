import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *
from scopegen import Scopes

ck = Check("P04", rule="random modules of enums, struct and union types, aliases, function types, initialised variables and functions declared in "
           "random order with random export markers; sizes, field offsets, enum values, all initialised scalars and call results observed at run time are compared "
           "with the same declarations compiled as C in dependency order; non-trivial: a distinct (declaration kind, feature) combination observed",
           assumptions=["a struct member held by value is declared after the type of that member, as in C"])

SC = ["int", "char", "double", "float", "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t", "size_t", "bool", "ptrdiff_t"]


class Gen:
    def __init__(self, r):
        self.r = r
        self.feats = set()
        self.che = []     # module-level elements that may be shuffled (functions, vars keep relative needs)
        self.ordered = []  # types and enums, in order
        self.cfwd, self.ctypes, self.cprotos, self.cbody = [], [], [], []
        self.out_che, self.out_c = [], []   # statements of main
        self.structs = []  # (name, fields)
        self.consts = {}
        self.nobs = 0
        self.uses = []
        self.cvars = []

    def pub(self, what):
        p = self.r.random() < 0.4
        if p:
            self.feats.add(what + "/pub")
        return "pub " if p else ""

    def obs(self, che, c=None):
        n = self.nobs
        self.nobs += 1
        self.out_che.append("o(%d, %s);" % (n, che))
        self.out_c.append("o(%d, %s);" % (n, c or che))

    def obsf(self, e):
        n = self.nobs
        self.nobs += 1
        self.out_che.append("of(%d, %s);" % (n, e))
        self.out_c.append("of(%d, %s);" % (n, e))

    # -- enums
    def enum(self, i):
        r = self.r
        ents = []
        names = []
        for j in range(r.randrange(1, 7)):
            nm = "E%d_%d" % (i, j)
            k = r.random()
            if k < 0.45:
                ents.append(nm)
                self.feats.add("enum/implicit")
            else:
                prev = [n for n in names] + list(self.consts)
                opts = [str(r.randrange(1000)), "0x%x" % r.randrange(4096), "-%d" % r.randrange(1, 50), "'%s'" % r.choice("azQ+"),
                        "1 << %d" % r.randrange(12), "(3 + 4) * 2", "100 - (7 - 2)"]
                if prev:
                    p = r.choice(prev)
                    opts += ["%s + 3" % p, "%s * 2 - 1" % p, "(%s | 8) & 0xff" % p]
                e = r.choice(opts)
                ents.append("%s = %s" % (nm, e))
                self.feats.add("enum/" + ("neg" if e[0] == "-" else "expr" if " " in e else "lit"))
            names.append(nm)
        p = self.pub("enum")
        body = ", ".join(ents)
        trail = r.choice(["", ","])
        self.ordered.append("%senum { %s%s }%s" % (p, body, trail, r.choice([";", "", ";"])))
        self.ctypes.append("enum { %s };" % body)
        for n in names:
            self.consts[n] = 1
            self.obs(n)

    # -- types
    def scalar(self):
        return self.r.choice(SC)

    def fields(self, depth, known):
        r = self.r
        out = []  # (che text, c text, [(path, kind)])
        n = r.randrange(1, 6)
        for _ in range(n):
            self.fn = getattr(self, "fn", 0) + 1
            nm = "f%d" % self.fn
            k = r.random()
            if k < 0.35:
                t = self.scalar()
                forms, paths = [nm], [(nm, t)]
                while r.random() < 0.35:
                    self.fn += 1
                    nm2 = "f%d" % self.fn
                    q = r.random()
                    if q < 0.3:
                        forms.append("*" + nm2)
                        paths.append((nm2, "ptr"))
                    elif q < 0.5:
                        z = r.randrange(1, 5)
                        forms.append("%s[%d]" % (nm2, z))
                        paths.append((nm2, ("arr", t, z)))
                    else:
                        forms.append(nm2)
                        paths.append((nm2, t))
                    self.feats.add("field/comma")
                out.append(("%s %s;" % (t, ", ".join(forms)),) * 2 + (paths,))
                self.feats.add("field/" + t)
            elif k < 0.5:
                t = self.scalar()
                z = r.randrange(1, 6)
                zt = str(z)
                if r.random() < 0.3:
                    zt = "%d * %d" % (z, 1) if r.random() < .5 else "sizeof(int) - 4 + %d" % z
                    self.feats.add("field/arrexpr")
                out.append(("%s %s[%s];" % (t, nm, zt),) * 2 + ([(nm, ("arr", t, z))],))
                self.feats.add("field/arr")
            elif k < 0.58:
                t = self.scalar()
                out.append(("%s %s[2][3];" % (t, nm),) * 2 + ([(nm, "mat:" + t)],))
                self.feats.add("field/mat")
            elif k < 0.7 and known:
                s = r.choice(known)
                out.append(("%s %s;" % (s[0], nm),) * 2 + ([(nm, ("struct", s))],))
                self.feats.add("field/struct")
            elif k < 0.82 and self.allnames:
                s = r.choice(self.allnames)   # possibly declared later
                st = r.choice(["*", "**"])
                out.append(("%s %s%s;" % (s, st, nm),) * 2 + ([(nm, "ptr")],))
                self.feats.add("field/structptr" + st)
            elif k < 0.9:
                mem = []
                um = []
                for q in range(r.randrange(1, 4)):
                    self.fn += 1
                    t = self.scalar()
                    form = r.choice(["u%d", "u%d", "*u%d", "u%d[3]"]) % self.fn
                    mem.append("%s %s;" % (t, form))
                    um.append(("u%d" % self.fn, t if form[0] == "u" and "[" not in form else "x"))
                txt = "union { %s } %s;" % (" ".join(mem), nm)
                out.append((txt, txt, [(nm, ("union", um))]))
                self.feats.add("field/union%d" % len(mem))
            elif self.fnty:
                t = r.choice(self.fnty)
                out.append(("%s *%s;" % (t, nm),) * 2 + ([(nm, "ptr")],))
                self.feats.add("field/fnptr")
            else:
                out.append(("const char *%s;" % nm,) * 2 + ([(nm, "str")],))
                self.feats.add("field/str")
        return out

    def struct(self, name):
        fs = self.fields(0, self.structs)
        p = self.pub("struct")
        sep = self.r.choice([" ", "\n\t"])
        self.ordered.append("%stypedef {%s%s%s} %s;" % (p, sep, sep.join(f[0] for f in fs), sep, name))
        self.cfwd.append("typedef struct %s_s %s;" % (name, name))
        self.ctypes.append("struct %s_s { %s };" % (name, " ".join(f[1] for f in fs)))
        paths = [x for f in fs for x in f[2]]
        self.structs.append((name, paths))
        self.obs("sizeof(%s)" % name)
        self.uses.append((name, paths))

    def init(self, t, depth=0):
        """initialiser text for a type; also used as C"""
        r = self.r
        if isinstance(t, str):
            if t.startswith("mat:"):
                return "{ %s }" % ", ".join("{ %s }" % ", ".join(self.init(t[4:]) for _ in range(r.randrange(1, 4))) for _ in range(r.randrange(1, 3)))
            if t == "str":
                return r.choice(['"abc"', '"x y"', "NULL"])
            if t == "ptr":
                return "NULL"
            if t in ("double", "float"):
                return r.choice(["1.5", "0.25", "3.0", "-2.5"])
            if t == "bool":
                return r.choice(["true", "false"])
            if t == "char":
                return r.choice(["'a'", "'\\n'", "65"])
            if t.startswith("u") or t == "size_t":
                return r.choice([str(r.randrange(200)), "0x7f", r.choice(list(self.consts) or ["1"]) + " & 63"])
            return r.choice([str(r.randrange(100)), "-%d" % r.randrange(1, 100), "3 * (4 - 1)", r.choice(list(self.consts) or ["1"]) + " & 63"])
        if t[0] == "arr":
            z = t[2]
            if r.random() < 0.25:
                ix = r.sample(range(z), r.randrange(1, z + 1))
                self.feats.add("init/index")
                return "{ %s }" % ", ".join("[%s] = %s" % (r.choice([str(i), "%d + %d" % (i, 0), "Z%d" % i if i < 3 else str(i)]), self.init(t[1])) for i in ix)
            self.feats.add("init/arr")
            return "{ %s%s }" % (", ".join(self.init(t[1]) for _ in range(r.randrange(1, z + 1))), r.choice(["", ","]))
        if t[0] == "union":
            return None
        if t[0] == "struct":
            return self.sinit(t[1], depth + 1)

    def sinit(self, s, depth=0):
        r = self.r
        name, paths = s
        if r.random() < 0.12:
            self.feats.add("init/empty")
            return "{}"
        fs = [p for p in paths if r.random() < 0.7 and not (isinstance(p[1], tuple) and p[1][0] == "union")]
        if not fs:
            return "{}"
        if r.random() < 0.25 and not (isinstance(paths[0][1], tuple) and paths[0][1][0] == "union"):
            # positional prefix
            pre = []
            for p in paths:
                if isinstance(p[1], tuple) and p[1][0] == "union":
                    break
                pre.append(self.init(p[1], depth))
                if r.random() < 0.3:
                    break
            self.feats.add("init/positional")
            return "{ %s }" % ", ".join(pre)
        r.shuffle(fs)
        self.feats.add("init/designated%d" % min(depth, 2))
        return "{ %s%s }" % (", ".join(".%s = %s" % (p[0], self.init(p[1], depth)) for p in fs), r.choice(["", ","]))

    def observe(self, base, t):
        if isinstance(t, str):
            if t.startswith("mat:"):
                for i in range(2):
                    for j in range(3):
                        self.observe("%s[%d][%d]" % (base, i, j), t[4:])
            elif t == "str":
                self.obs("strsum(%s)" % base)
            elif t == "ptr":
                self.obs("%s == NULL" % base)
            elif t in ("double", "float"):
                self.obsf(base)
            else:
                self.obs(base)
        elif t[0] == "arr":
            for i in range(t[2]):
                self.observe("%s[%d]" % (base, i), t[1])
            self.obs("nelem(%s)" % base, "sizeof(%s)/sizeof(%s[0])" % (base, base))
        elif t[0] == "struct":
            for f, ft in t[1][1]:
                self.observe("%s.%s" % (base, f), ft)

    def offsets(self, v, s, prefix=""):
        for f, ft in s[1]:
            e = "%s.%s%s" % (v, prefix, f)
            self.obs("(uint8_t *) &%s - (uint8_t *) &%s" % (e, v))
            self.obs("sizeof(%s)" % e)
            if isinstance(ft, tuple) and ft[0] == "union":
                for u, ut in ft[1]:
                    self.obs("(uint8_t *) &%s.%s - (uint8_t *) &%s" % (e, u, v))
                sc = [u for u, ut in ft[1] if ut in ("int", "uint8_t", "uint32_t", "int64_t", "uint64_t")]
                if sc:
                    self.out_che.append("%s.%s = 77;" % (e, sc[0]))
                    self.out_c.append("%s.%s = 77;" % (e, sc[0]))
                    for u, ut in ft[1]:
                        if ut not in ("x", "bool", "double", "float", "char"):
                            n = self.nobs
                            self.nobs += 1
                            for o in (self.out_che, self.out_c):
                                o.append("o(%d, %s.%s & 255);" % (n, e, u))

    def var(self, i):
        r = self.r
        local = r.random() < 0.4
        k = r.random()
        nm = "v%d" % i
        if k < 0.5 and self.structs:
            s = r.choice(self.structs)
            ini = self.sinit(s)
            ty, form, t = s[0], nm, ("struct", s)
            if r.random() < 0.25:
                z = r.randrange(1, 4)
                ini = "{ %s }" % ", ".join(self.sinit(s) for _ in range(z))
                form = "%s[]" % nm
                decl = "%s %s = %s;" % (ty, form, ini)
                self.put(decl, local)
                self.feats.add("var/structarr")
                self.obs("nelem(%s)" % nm, "sizeof(%s)/sizeof(%s[0])" % (nm, nm))
                for j in range(z):
                    self.observe("%s[%d]" % (nm, j), t)
                return
            self.feats.add("var/struct" + ("local" if local else "mod"))
            self.put("%s %s = %s;" % (ty, form, ini), local)
            self.offsets(nm, s)
            self.observe(nm, t) if not any(isinstance(x[1], tuple) and x[1][0] == "union" for x in s[1]) else self.observe2(nm, s)
            return
        if k < 0.75:
            t = self.scalar()
            z = r.randrange(1, 6)
            ini = self.init(("arr", t, z))
            self.put("%s%s %s[%s] = %s;" % (r.choice(["", "const "]), t, nm, z, ini), local)
            self.feats.add("var/arr" + ("local" if local else "mod"))
            self.observe(nm, ("arr", t, z))
            return
        if k < 0.85 and self.arrty:
            a, t, z = r.choice(self.arrty)
            self.put("%s %s = %s;" % (a, nm, self.init(("arr", t, z))), local)
            self.feats.add("var/arrtypedef")
            self.observe(nm, ("arr", t, z))
            self.obs("sizeof(%s)" % a)
            return
        t = self.scalar()
        self.put("%s%s %s = %s;" % (r.choice(["", "const "]), t, nm, self.init(t)), local)
        self.feats.add("var/scalar" + ("local" if local else "mod"))
        self.observe(nm, t)

    def observe2(self, nm, s):
        for f, ft in s[1]:
            if isinstance(ft, tuple) and ft[0] == "union":
                continue
            self.observe("%s.%s" % (nm, f), ft)

    def put(self, decl, local):
        cdecl = decl.replace("{}", "{0}")
        if local:
            self.out_che.append(decl)
            self.out_c.append(cdecl)
        else:
            self.che.append(decl)
            self.cbody.append("static " + cdecl)

    def funcs(self):
        """Functions that use each other regardless of order."""
        r = self.r
        n = r.randrange(3, 8)
        sigs = []
        for i in range(n):
            k = r.random()
            if k < 0.3:
                sigs.append(("g%d" % i, "int", "int a, b, c", "int a, int b, int c", "a * 100 + b * 10 + c", ["1", "2", "3"]))
                self.feats.add("fn/commaparams")
            elif k < 0.5:
                sigs.append(("g%d" % i, "int64_t", "int a, uint8_t b, double d", "int a, uint8_t b, double d", "(int64_t) a + (int64_t) b + (int64_t) (d * 2)", ["5", "300", "2.5"]))
            elif k < 0.62 and self.simple:
                sigs.append(("g%d" % i, self.simple, "int a", "int a", None, ["7"]))
                self.feats.add("fn/structret")
            elif k < 0.75:
                sigs.append(("g%d" % i, "int", "int *a, n", "int *a, int n", "a[n - 1] + a[0]", ["AR", "4"]))
                self.feats.add("fn/ptrparam")
            elif k < 0.85:
                sigs.append(("g%d" % i, "int", "int n, ...", "int n, ...", "va", ["3", "10", "20", "30"]))
                self.feats.add("fn/variadic")
            else:
                sigs.append(("g%d" % i, "int", "const char *s, char c, const int q[]", "const char *s, char c, const int q[]", "(int) strlen(s) * 10 + (int) (s[0] == c) + q[1]", ["\"hello\"", "'h'", "AR"]))
                self.feats.add("fn/mixedparams")
        for q, (nm, rt, pc, cc, body, args) in enumerate(sigs):
            p = self.pub("fn")
            if body is None:
                b = "%s x = { .a = a, .b = { a, a + 1 } }; return x;" % rt
                self.obs("%s(%s).b[1]" % (nm, args[0]))
            elif body == "va":
                b = "va_list l; char buf[100] = {0}; va_start(l, n); vsnprintf(buf, 100, \"%d-%d-%d\", l); va_end(l); return strsum(buf) + n;"
                self.obs("%s(%s)" % (nm, ", ".join(args)))
            else:
                nxt = sigs[(q + 1) % len(sigs)]
                b = "return %s;" % body
                if nxt[4] not in (None, "va") and r.random() < 0.6 and nxt[0] != nm:
                    b = "LIM++; if (LIM < 20) { return %s(%s) + (%s); } return %s;" % (nxt[0], ", ".join(nxt[5]), body, body)
                    self.feats.add("fn/mutual")
                self.obs("zero(%s(%s))" % (nm, ", ".join(args)))
            self.che.append("%s%s %s(%s) { %s }" % (p, rt, nm, pc, b))
            self.cprotos.append("static %s %s(%s);" % (rt, nm, cc))
            self.cbody.append("static %s %s(%s) { %s }" % (rt, nm, cc, b))

    # -- uses of types in functions: (types, functions, observations) with $ for a number
    IDIOMS = [
        ("callback", ["typedef int cb$_t(int, int);"], [],
         [("int", "sub$", "int a, b", "int a, int b", "return a - b * 3;"),
          ("int", "apply$", "cb$_t *f, int a, b", "cb$_t *f, int a, int b", "return f(a, b) * 2 + f(b, a);"),
          ("int", "direct$", "cb$_t f, int a", "cb$_t f, int a", "return f(a, 1) + 1;"),
          ("cb$_t *", "pick$", "bool x", "bool x", "if (x) { return &sub$; } return NULL;")],
         ["apply$(&sub$, N, N)", "apply$(sub$, N, N)", "direct$(sub$, N)", "pick$(true)(N, N)", "pick$(false) == NULL"]),
        ("variadiccb", ["typedef int vf$_t(char *, size_t, const char *, ...);"], [],
         [("int", "vrun$", "vf$_t *f, int a", "vf$_t *f, int a",
           "char buf[100] = {0}; int n = f(buf, sizeof(buf), \"%d,%s\", a, \"xy\"); n += f(buf, sizeof(buf), \"z%d\", a); return n * 1000 + strsum(buf) % 997;")],
         ["vrun$(&snprintf, N)", "vrun$(snprintf, N)"]),
        ("holder", ["typedef int hf$_t(int);"], [("ho$_t", "hf$_t *f; int k; const char *name;")],
         [("int", "twice$", "int a", "int a", "return a * 2;"), ("int", "neg$", "int a", "int a", "return -a;"),
          ("int", "run$", "ho$_t *h, int n", "ho$_t *h, int n", "int s = 0; for (int i = 0; i < n; i++) { s = s * 7 + h[i].f(h[i].k) + strsum(h[i].name) % 13; } return s;"),
          ("int", "table$", "int n", "int n", "ho$_t hs[] = { { .f = &twice$, .k = N, .name = \"aa\" }, { &neg$, N, \"b\" }, { .name = \"c\", .f = twice$ } }; return run$(hs, n);")],
         ["table$(3)", "table$(1)", "table$(0)"]),
        ("list", [], [("li$_t", "int v; li$_t *next; li$_t **back;")],
         [("li$_t *", "push$", "li$_t *l, int v", "li$_t *l, int v", "li$_t *x = calloc(1, sizeof(li$_t)); x->v = v; x->next = l; if (l) { l->back = &x->next; } return x;"),
          ("int", "fold$", "li$_t *l", "li$_t *l", "if (!l) { return 1; } return l->v + 3 * fold$(l->next);"),
          ("int", "deep$", "int n", "int n", "li$_t *l = NULL; for (int i = 0; i < n; i++) { l = push$(l, i * i); } int r = fold$(l) + l->next->next->v; (*l->next->back)->v = 5; r += fold$(l); while (l) { li$_t *t = l->next; free(l); l = t; } return r;")],
         ["deep$(4)", "deep$(6)"]),
        ("byvalue", [], [("in$_t", "int16_t q[3]; uint8_t c;"), ("bv$_t", "int a; in$_t in; double d;")],
         [("int", "touch$", "bv$_t x", "bv$_t x", "x.a++; x.in.q[1] += 5; x.in.c--; return x.a + x.in.q[1] + (int) x.in.c;"),
          ("bv$_t", "mk$", "int a", "int a", "bv$_t x = { .in = { .q = { 1, a } }, .a = a }; return x;"),
          ("int", "both$", "int a", "int a", "bv$_t x = mk$(a); bv$_t y = x; int t = touch$(x); y.in = x.in; y.in.q[2] = 9; bv$_t *p = &y; p->in.q[0]++; in$_t *q = &p->in; q->c += 2; return t * 100 + x.a + x.in.q[1] + y.in.q[2] + y.in.q[0] * 10 + (int) y.in.c + (int) mk$(3).in.q[1];")],
         ["both$(N)", "touch$(mk$(N))", "mk$(N).in.q[1]"]),
        ("outparam", [], [],
         [("bool", "out$", "char **s, int *n, size_t *z", "char **s, int *n, size_t *z", "*s = *s + 1; (*n)++; z[0] = strlen(*s); return **s == 'e';"),
          ("int", "outs$", "int k", "int k", "char *s = \"hello\"; int n = k; size_t z = 0; bool ok = out$(&s, &n, &z); if (ok) { n += 100; } return n + (int) z * 1000 + strsum(s) % 77;")],
         ["outs$(N)"]),
        ("strings", [], [],
         [("const char *", "word$", "int i", "int i", "const char *ws[] = { \"zero\", \"one\", NULL, \"three\" }; return ws[i];"),
          ("int", "count$", "char **v", "char **v", "int n = 0; while (*v) { n = n * 10 + (int) strlen(*v); v++; } return n;"),
          ("int", "counts$", "", "void", "char *v[4] = { \"a\", \"bcd\", \"\" }; return count$(v) + count$(&v[1]);")],
         ["strsum(word$(1))", "word$(2) == NULL", "strsum(word$(3))", "counts$()"]),
        ("matrix", [], [("ce$_t", "int x, y; char tag[3];"), ("gr$_t", "ce$_t cells[2][3]; ce$_t *cur; int n[4];")],
         [("int", "grid$", "int k", "int k", "gr$_t g = {}; int c = 0; for (int i = 0; i < 2; i++) { for (int j = 0; j < 3; j++) { g.cells[i][j].x = c; g.cells[i][j].tag[1] = 'a'; c += k; } } g.cur = &g.cells[1][0]; g.cur[2].y = 8; g.cur++; return g.cur->x * 10 + g.cells[1][2].y + (int) (g.cur - &g.cells[0][0]) * 100 + (int) g.cur->tag[1] + g.n[3];")],
         ["grid$(N)"]),
        ("enumsize", ["enum { LEN$ = 3, WID$ = LEN$ * 2 };"], [("es$_t", "uint8_t a[LEN$]; uint16_t b[WID$][LEN$];")],
         [("int", "es$", "int k", "int k", "es$_t x = {}; x.a[LEN$ - 1] = 7; x.b[WID$ - 1][0] = 3; int t = k; switch (t) { case LEN$: { t = 30; } case WID$: { t = 60; } default: { t++; } } return t + (int) x.a[2] + (int) x.b[5][0] + (int) sizeof(x);")],
         ["es$(3)", "es$(6)", "es$(7)", "sizeof(es$_t)"]),
        ("aliases", ["typedef int num$_t;", "typedef num$_t *pnum$_t;", "typedef char name$_t[8];"], [("us$_t", "num$_t n; pnum$_t p; name$_t s;")],
         [("num$_t", "al$", "num$_t n, pnum$_t p", "num$_t n, pnum$_t p", "*p += n; return *p * 2;"),
          ("int", "als$", "int k", "int k", "us$_t u = { .n = k }; u.p = &u.n; strcpy(u.s, \"abc\"); int r = al$(4, u.p); return r + u.n + strsum(u.s) + (int) sizeof(u.s);")],
         ["als$(N)"]),
        ("aliaschain", ["typedef int an$_t;", "typedef an$_t am$_t;", "typedef am$_t *ap$_t;", "typedef ap$_t aq$_t;", "typedef int16_t aw$_t[3];", "typedef bool ab$_t;",
                        "typedef int af$_t(am$_t);", "typedef af$_t *ag$_t;"], [("as$_t", "am$_t v[2]; ap$_t p;"), ("ar$_t", "as$_t in; aw$_t w;")],
         [("int", "inc$", "int x", "int x", "return x + 1;"),
          ("int", "ch$", "am$_t k", "am$_t k",
           "am$_t n = k; int r = 0; ap$_t p = &n; aq$_t q = p; ab$_t on = true; while (n && on) { n--; r += 2; if (r > 30 || !p) { on = false; } } "
           "*p = 5; (*q)++; r = r * 10 + n * 2 + n / 2; aw$_t w = { 3, 4, 5 }; r += *w + *(w + 1); ag$_t g = &inc$; r += g(n) + (*g)(2); for (ab$_t b = true; b; b = false) { r++; } "
           "ar$_t a = { .w = { 1, 2 } }; a.in.p = a.in.v; a.in.p[1] = 4; ar$_t *pa = &a; r += *pa->in.p + *(pa->in.p + 1) + (int) *pa->w + *a.in.v; if (n > 2 && n < 100) { r += 1000; } return r;")],
         ["ch$(N)", "ch$(0)"]),
        ("arrderef", [], [],
         [("int", "ad$", "int k", "int k", "int a[3] = { k, 2, 3 }; int m[2][2] = { { 1, 2 }, { 3, k } }; char *s[2] = { \"xy\", \"z\" }; int *p = *m; p++; return *a + **m * 2 + *m[1] * 3 + *p * 5 + (*m)[1] * 7 + (int) (**s == 'x') + (int) (*s[1] == 'z') + *(&a[1] - 1);")],
         ["ad$(N)"]),
        ("tagged", [], [("tg$_t", "int kind; union { int i; double d; const char *s; int16_t h[4]; } v; int after;")],
         [("tg$_t", "mi$", "int i", "int i", "tg$_t t = { .kind = 1, .after = 5 }; t.v.i = i; return t;"),
          ("tg$_t", "ms$", "const char *s", "const char *s", "tg$_t t = {}; t.kind = 2; t.v.s = s; return t;"),
          ("int", "rd$", "tg$_t *t", "tg$_t *t", "if (t->kind == 1) { return t->v.i + t->after; } return strsum(t->v.s) + t->after;"),
          ("int", "tags$", "int k", "int k", "tg$_t ts[2] = {}; ts[0] = mi$(k); ts[1] = ms$(\"uv\"); ts[0].v.h[3] = 2; return rd$(&ts[0]) * 3 + rd$(&ts[1]);")],
         ["tags$(N)"]),
        ("statevars", [], [],
         [("int", "bump$", "void", "void", "SV$++; SA$[1] += SV$; SS$ = \"new\"; return SV$ * 100 + SA$[1] + strsum(SS$) % 10;")],
         ["bump$()", "bump$()", "SV$", "SA$[1]", "strsum(SS$)"]),
        ("foreign", [], [("fr$_t", "off_t pos; div_t *q; ssize_t n[2];")],
         [("off_t", "fpos$", "off_t a, ssize_t *b", "off_t a, ssize_t *b", "off_t t = a; *b = (ssize_t) t; return t;"),
          ("div_t", "fdiv$", "int a", "int a", "return OS.div(a, 7);"),
          ("int", "fuse$", "int a", "int a", "div_t r = fdiv$(a); div_t rs[2] = {}; rs[1] = r; fr$_t f = { .q = &rs[1], .n = { 3, N } }; f.pos = fpos$((off_t) a, &f.n[0]); "
           "div_t *h = calloc(2, sizeof(div_t)); h[1] = *f.q; int k = h[1].quot * 100 + rs[1].rem * 10 + (int) f.n[0] + (int) f.n[1] + (int) f.pos; free(h); return k;")],
         ["fuse$(N)", "fuse$(N)", "sizeof(fr$_t)", "sizeof(off_t)"]),
    ]

    def idioms(self):
        r = self.r
        for i, (name, types, structs, fns, obs) in enumerate(r.sample(self.IDIOMS, r.randrange(2, 5))):
            tag = str(60 + i)
            self.feats.add("idiom/" + name)

            def sub(t):
                t = t.replace("$", tag)
                while True:
                    u = re.sub(r"\bN\b", str(r.randrange(1, 30)), t, count=1)
                    if u == t:
                        return t
                    t = u
            for t in types:
                p = "pub " if r.random() < 0.3 else ""
                self.ordered.append(p + sub(t))
                (self.ctypes if "enum" in t else self.cfwd).append(sub(t))
            for nm, fs in structs:
                p = "pub " if r.random() < 0.3 else ""
                nm, fs = sub(nm), sub(fs)
                self.ordered.append("%stypedef { %s } %s;" % (p, fs, nm))
                self.cfwd.append("typedef struct %s_s %s;" % (nm, nm))
                self.ctypes.append("struct %s_s { %s };" % (nm, fs))
            if name == "foreign":
                hints = ["#type off_t", "#type ssize_t", "#type div_t"]
                r.shuffle(hints)
                self.hints = "#include <sys/types.h>\n" + "\n".join(hints) + "\n"
            if name == "statevars":
                for d in ("int SV$ = N;", "int SA$[3] = { 1, 2 };", "const char *SS$ = \"old\";"):
                    d = sub(d)
                    self.che.append(d)
                    self.cvars.append("static " + d)
            for rt, nm, pc, cc, body in fns:
                rt, nm, pc, cc, body = sub(rt), sub(nm), sub(pc), sub(cc), sub(body)
                sp = "" if rt.endswith("*") else " "
                if pc == "void":
                    pc = ""
                self.che.append("%s%s%s%s(%s) { %s }" % ("pub " if r.random() < 0.3 else "", rt, sp, nm, pc, body))
                self.cprotos.append("static %s %s(%s);" % (rt, nm, cc))
                self.cbody.append("static %s %s(%s) { %s }" % (rt, nm, cc, re.sub(r"(case \w+: \{[^}]*)\}", r"\1 break; }", body.replace("{}", "{0}").replace("OS.", ""))))
            for e in obs:
                self.obs(sub(e))

    def build(self):
        r = self.r
        ns = r.randrange(2, 7)
        self.allnames = ["t%d" % i for i in range(ns)]
        self.fnty = []
        self.arrty = []
        self.simple = None
        self.hints = ""
        # function types and aliases
        for i in range(r.randrange(0, 3)):
            nm = "fn%d_t" % i
            t = r.choice(["int", "void", "double", "int *", "const char *"])
            ps = r.choice(["int", "int, double", "", "void *", "const char *, ..."])
            p = self.pub("fntype")
            sp = "" if t.endswith("*") else " "
            self.ordered.append("%stypedef %s%s%s(%s);" % (p, t, sp, nm, ps))
            self.cfwd.append("typedef %s %s(%s);" % (t, nm, ps or "void"))
            self.fnty.append(nm)
            self.feats.add("fntype/" + (ps or "void"))
        for i in range(r.randrange(0, 3)):
            t = self.scalar()
            z = r.randrange(1, 6)
            p = self.pub("arrtype")
            self.ordered.append("%stypedef %s ar%d_t[%d];" % (p, t, i, z))
            self.cfwd.append("typedef %s ar%d_t[%d];" % (t, i, z))
            self.arrty.append(("ar%d_t" % i, t, z))
        for i in range(r.randrange(0, 3)):
            t = self.scalar()
            st = r.choice(["", "*"])
            p = self.pub("alias")
            self.ordered.append("%stypedef %s %sal%d_t;" % (p, t, st, i))
            self.cfwd.append("typedef %s %sal%d_t;" % (t, st, i))
            self.obs("sizeof(al%d_t)" % i)
            self.feats.add("alias" + st)
        if r.random() < 0.6:
            self.simple = "simple_t"
            self.ordered.append("typedef { int a; int b[2]; } simple_t;")
            self.cfwd.append("typedef struct simple_s simple_t;")
            self.ctypes.append("struct simple_s { int a; int b[2]; };")
        if r.random() < 0.4:
            self.ordered.append("typedef struct tm tm_t;")
            self.cfwd.append("typedef struct tm tm_t;")
            self.obs("sizeof(tm_t)")
            self.feats.add("structalias")
        for i in range(r.randrange(1, 4)):
            self.enum(i)
        for nm in self.allnames:
            self.struct(nm)
            if r.random() < 0.3:
                self.enum(10 + len(self.structs))
        for i in range(r.randrange(4, 12)):
            self.var(i)
        self.funcs()
        self.idioms()
        # types keep their order, everything else goes anywhere between them
        rest = list(self.che)
        # module variables that mention constants are fine anywhere: types come first in the output
        r.shuffle(rest)
        seq = list(self.ordered)
        for x in rest:
            seq.insert(r.randrange(len(seq) + 1), x)
        mid = r.choice([0, len(seq)])
        help_che = [r"""int LIM = 0;
int AR[4] = { 4, 3, 2, 1 };
enum { Z0, Z1, Z2 };
int zero(int x) { LIM = 0; return x; }
void o(int n, int64_t v) { printf("%d %ld\n", n, v); }
void of(int n, double v) { printf("%d %a\n", n, v); }
int strsum(const char *s) { if (!s) { return -1; } int t = 0; while (*s != 0) { t = t * 31 + (int) *s; s++; } return t; }
"""]
        usec = "if (LIM > 100) { LIM = Z0 + Z1 + Z2 + zero(AR[0]) + strsum(NULL); of(0, 0); o(0, 0); " + "".join("o(0, %s); " % c for c in self.consts) + "}\n"
        main_che = "int main() {\n\t%s\t%s\n\treturn 0;\n}\n" % (usec, "\n\t".join(self.out_che))
        che = self.hints + "\n".join((help_che + seq + [main_che]) if mid else ([main_che] + seq + help_che))
        c = "#define _XOPEN_SOURCE 700\n#include <sys/types.h>\n" + "".join("#include <%s.h>\n" % h for h in "stdio stdlib stdint stdbool stddef string time stdarg".split()) + "\n".join(
            self.cfwd + ["enum { Z0, Z1, Z2 };"] + self.ctypes + self.cprotos) + help_che[0].replace("enum { Z0, Z1, Z2 };", "") + "\n".join(self.cvars + self.cbody) + \
            "\nint main(void) {\n\t%s\n\treturn 0;\n}\n" % "\n\t".join(self.out_c)
        return che, c


def one(idx):
    if len(ck.violations) >= 8:
        return
    g = Gen(ck.rng("m", idx))
    che, c = g.build()
    sp, rp = ck.write("m%d/p.c" % idx, che), ck.write("m%d/ref.c" % idx, c)
    D = os.path.dirname(sp)
    b = run(["gcc", "-std=c99", "-w", "-O0", "-fwrapv", rp, "-o", D + "/ref", "-lm"], timeout=60)
    if b.rc != 0:
        raise CheckError("reference %d: %s\n%s" % (idx, b.etext[:1500], c))
    w = run([D + "/ref"], timeout=60)
    b = ck.che_build(sp, D + "/out", "plain")
    if b.rc != 0 or not os.path.exists(D + "/out"):
        ck.saw()
        ck.violation("rejected:%d" % idx, "a module of valid declarations is rejected: " + (b.etext[-400:] + b.text[-500:]), che)
        return
    o = run([D + "/out"], timeout=60, cpu=60)
    wl, ol = w.text.split("\n"), o.text.split("\n")
    ck.saw(None, len(wl) - 1)
    with ck.lock:
        ck.distinct |= g.feats
    ck.count("modules")
    if w.rc != 0:
        raise CheckError("reference run %d rc=%s" % (idx, w.rc))
    if wl != ol or o.rc != 0:
        n = next((i for i in range(min(len(wl), len(ol))) if wl[i] != ol[i]), 0)
        k = int(wl[n].split(" ")[0])
        st = [x for x in g.out_che if x.startswith("o(%d," % k) or x.startswith("of(%d," % k)]
        ck.violation("value:%d" % idx, "observation %s: expected %r, got %r (exit %s)" % (st, wl[n], ol[n:n + 1], o.rc), che)
    else:
        ck.sample({"module": che[:500], "observations": len(wl) - 1})
    shutil.rmtree(D, ignore_errors=True)


def scoping(idx):
    """names declared again in inner scopes, with other types"""
    if len(ck.violations) >= 8:
        return
    for attempt in range(10):
        g = Scopes(ck.rng("scope", idx, attempt))
        try:
            text, want = g.build()
            break
        except OverflowError:
            pass
    sp = ck.write("s%d/p.c" % idx, text)
    D = os.path.dirname(sp)
    b = ck.che_build(sp, D + "/out", "plain")
    ck.saw(None, len(want))
    if b.rc != 0 or not os.path.exists(D + "/out"):
        ck.violation("scope-rejected:%d" % idx, "names declared again in inner scopes are rejected: " + (b.etext[-400:] + b.text[-500:]), text)
        return
    o = run([D + "/out"], timeout=60, cpu=60)
    got = o.text.split("\n")[:-1]
    with ck.lock:
        ck.distinct |= g.feats
    ck.count("scoped programs")
    ck.count("names declared over others", len(g.feats))
    if got != want or o.rc != 0:
        n = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        ck.violation("scope:%d" % idx, "line %d of the output: expected %r, got %r (exit %s)" % (n + 1, want[n:n + 1], got[n:n + 1], o.rc), text)
    shutil.rmtree(D, ignore_errors=True)


def main_():
    ck.build_che()
    ck.pmap(one, range(ck.n(250, 3000)))
    ck.pmap(scoping, range(ck.n(120, 2500)))
    ck.finish()


main(main_)
