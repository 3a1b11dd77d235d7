"""P09: the commands agree with each other and with the sources: repeated
builds are identical, rebuilds reflect edits, genc/run/install produce the
program that build produces, deptree and exports list what is there."""
import glob, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *
from modgen import *

ck = Check("P09", rule="a distinct (command, project feature) pair whose outcome was compared with the model",
           assumptions=["one build at a time per language home: concurrent builds under one home share its tmp directory",
                        "che run always builds to /tmp/chebuild, so the check runs it serially"])
RUNLOCK = threading.Lock()


def snap(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, "rb") as h:
                out[os.path.relpath(q, d)] = h.read()
    return out


def refs(P):
    return "\n".join(str(x) for x in P.exp) + "\n"


def viol(key, what, P):
    ck.violation(key, what, dump(P))


SIGS = [
    ("pub int x%d(int a, b) {\n\treturn a + b;\n}", "int", "x%d", ["int a", "int b"]),
    ("pub int x%d(int a, int b) {\n\treturn a + b;\n}", "int", "x%d", ["int a", "int b"]),
    ("pub char *x%d(char *a, *b) {\n\tif (*b) {\n\t\treturn b;\n\t}\n\treturn a;\n}", "char", "*x%d", ["char *a", "char *b"]),
    ("pub void x%d() {\n\tputs(\"x\");\n}", "void", "x%d", []),
    ("pub const char *x%d(const char *s, size_t n, m, bool q) {\n\tif (q) {\n\t\treturn s + n;\n\t}\n\treturn s + m;\n}", "const char", "*x%d", ["const char *s", "size_t n", "size_t m", "bool q"]),
    ("pub int x%d(char *argv[], int argc) {\n\treturn argv[argc] == NULL;\n}", "int", "x%d", ["char *argv[]", "int argc"]),
    ("pub double x%d(double a, b, c, float d, e) {\n\treturn a + b + c + d + e;\n}", "double", "x%d", ["double a", "double b", "double c", "float d", "float e"]),
    ("pub int **x%d(int **a) {\n\treturn a;\n}", "int", "**x%d", ["int **a"]),
    ("pub void x%d(FILE *f, const char *s, ...) {\n\tva_list l = {};\n\tva_start(l, s);\n\tvfprintf(f, s, l);\n\tva_end(l);\n}", "void", "x%d", ["FILE *f", "const char *s", "..."]),
    ("pub int x%d(cb_t *f, t *v, *w) {\n\treturn f(v->a + w->a);\n}", "int", "x%d", ["cb_t *f", "t *v", "t *w"]),
    ("pub t *x%d(t a[]) {\n\treturn a + 1;\n}", "t", "*x%d", ["t a[]"]),
    ("pub int x%d(int a[10], uint8_t b[]) {\n\treturn a[0] + 0 * (int) b[0];\n}", "int", "x%d", ["int a[10]", "uint8_t b[]"]),
]
BASEFN = {("int", "get"), ("void", "bump"), ("t", "make"), ("int", "rd"), ("int", "app"), ("int", "which")}


def parse_exports(text):
    sec, out, cur = {}, [], None
    lines = text.split("\n")
    head = lines[0]
    for l in lines[1:]:
        if l == "":
            continue
        if not l.startswith("\t"):
            cur = l.strip()
            sec.setdefault(cur, [])
        else:
            sec[cur].append(l.strip())
    return head, sec


def norm_fn(l):
    m = re.fullmatch(r"(.*?)\s*([*\s]*)(\w+)\s*\((.*)\)", l)
    if not m:
        return l
    ty, stars, name, ps = m.groups()
    out, cur = [], ""
    for p in [x.strip() for x in ps.split(",")] if ps.strip() else []:
        p = re.sub(r"\s+", " ", p)
        q = re.fullmatch(r"((?:const )?[\w.]+) (.+)", p)
        if q and p != "...":
            cur = q.group(1)
            out.append(cur + " " + q.group(2).replace("* ", "*"))
        elif p == "...":
            out.append(p)
        else:
            out.append(cur + " " + p)
    return (re.sub(r"\s+", " ", ty.strip()), stars.replace(" ", "") + name, tuple(out))


def one(idx):
    if len(ck.violations) >= 8:
        return
    r = ck.rng("p", idx)
    P = Project(r)
    D = os.path.join(ck.scratch, "p%d" % idx)
    os.makedirs(D)
    layout(P, D)
    sigs = {}
    for m in P.live:
        L = []
        for k in range(r.randrange(0, 5)):
            t, ty, nm, ps = r.choice(SIGS)
            L.append((t % k, (ty, nm % k, tuple(ps))))
        extra = "\n\n".join(x[0] for x in L)
        priv = ""
        if r.random() < .5:
            priv = "\n\nint hidden(int a) {\n\treturn a;\n}\n\npub int useshidden() {\n\treturn hidden(1);\n}\n\ntypedef { int q; } hidden_t;\n\nenum { HID }\n\npub int usesht() {\n\thidden_t a = { .q = HID };\n\treturn a.q;\n}\n"
            L += [("", ("int", "useshidden", ())), ("", ("int", "usesht", ()))]
        sigs[m.i] = [x[1] for x in L]
        P.src[m.i] += "\n" + extra + "\n" + priv
        with open(P.path(m, P.home), "w") as f:
            f.write(P.src[m.i])
    main = P.path(P.mods[0], P.home)
    srcs = {p: open(p, "rb").read() for p in [P.path(m, P.home) for m in P.live]}
    cwd = r.choice([D, P.root])
    mp = main if r.random() < .5 else os.path.relpath(main, cwd)
    env = ck.che_env("strict", P.home)
    if r.random() < .3:
        # junk of other builds in the tmp directory
        for k in range(3):
            ck.write(os.path.relpath(os.path.join(P.home, "tmp", "%032x.c" % r.getrandbits(128)), ck.scratch), "int main() { return 77; }\n")
    elif r.random() < .4:
        os.rmdir(os.path.join(P.home, "tmp"))
    feat = sorted(P.feats)
    try:
        out = os.path.join(D, "out")
        b = run([ck.che, "build", mp, out], env=env, cwd=cwd, timeout=120)
        if b.rc != 0 or not os.path.exists(out):
            ck.saw()
            return viol("build:%d" % idx, "a valid project is rejected: " + b.etext[-300:] + b.text[-300:], P)
        c1 = snap(P.home + "/tmp")
        w = run([out], timeout=30)
        if w.text != refs(P) or w.rc != 0:
            return viol("built:%d" % idx, "the built program printed %r, expected %r" % (w.text[:300], refs(P)[:300]), P)
        ck.saw("build")
        # --- repeat
        for k in range(2):
            b = run([ck.che, "build", mp, out + "2"], env=env, cwd=cwd, timeout=120)
            c2 = snap(P.home + "/tmp")
            ck.saw("repeat")
            if b.rc != 0 or c1 != c2:
                diff = [f for f in set(c1) | set(c2) if c1.get(f) != c2.get(f)]
                return viol("repeat:%d" % idx, "repeating a build changed the generated code (%s), exit %s" % (diff[:3], b.rc), P)
        # --- default output name, install
        b = run([ck.che, "build", mp], env=env, cwd=cwd, timeout=120)
        name = os.path.basename(main)[:-2]
        dflt = os.path.join(cwd, name)
        ck.saw("default-name/" + ("dotted" if "." in name else "dash" if "-" in name else "plain"))
        if b.rc != 0 or not os.path.isfile(dflt):
            return viol("default:%d" % idx, "build without an output name did not produce %s (exit %s)" % (name, b.rc), P)
        w = run([dflt], timeout=30)
        os.unlink(dflt)
        if w.text != refs(P):
            return viol("default-out:%d" % idx, "the program built without an output name printed %r" % w.text[:200], P)
        b = run([ck.che, "install", mp], env=env, cwd=cwd, timeout=120)
        inst = os.path.join(P.home, "bin", name)
        ck.saw("install")
        if b.rc != 0 or not os.path.isfile(inst):
            return viol("install:%d" % idx, "install did not produce bin/%s (exit %s)" % (name, b.rc), P)
        w = run([inst], timeout=30)
        if w.text != refs(P):
            return viol("install-out:%d" % idx, "the installed program printed %r" % w.text[:200], P)
        # --- genc
        g = os.path.join(D, "gen")
        if r.random() < .5:
            os.makedirs(g)
        b = run([ck.che, "genc", mp, g], env=env, cwd=cwd, timeout=120)
        cs = sorted(glob.glob(g + "/*.c"))
        ck.saw("genc")
        if b.rc != 0 or len(cs) != len(P.live):
            return viol("genc:%d" % idx, "genc wrote %d C files for %d modules, exit %s %s" % (len(cs), len(P.live), b.rc, b.etext[-200:]), P)
        gc = run(["gcc", "-std=c99", "-w", "-o", D + "/gout"] + cs + ["-lm"], timeout=120)
        w = run([D + "/gout"], timeout=30) if gc.rc == 0 else None
        if not w or w.text != refs(P):
            return viol("genc-out:%d" % idx, "the C code written by genc %s" % ("does not compile: " + gc.etext[-300:] if not w else "printed %r" % w.text[:200]), P)
        # --- deptree
        b = run([ck.che, "deptree", mp], env=env, cwd=cwd, timeout=60)

        def tree(m, depth):
            o = [(depth, os.path.realpath(P.path(m, P.home)))]
            for q in m.imps:
                o += tree(q, depth + 1)
            return o
        got = []
        for l in b.text.split("\n")[:-1]:
            m = re.match(r"((?:  )*)(- )?(.*)", l)
            got.append((len(m.group(1)) // 2, os.path.realpath(os.path.join(cwd, m.group(3)))))
        ck.saw("deptree/%d" % len(got))
        # children are compared as sets of subtrees: late imports may be listed in source order
        if b.rc != 0 or got != tree_in_source_order(P, got):
            return viol("deptree:%d" % idx, "deptree shows %r, the imports are %r" % (got[:12], tree(P.mods[0], 0)[:12]), P)
        # --- exports
        m = r.choice(P.live)
        mf = P.path(m, P.home)
        b = run([ck.che, "exports", mf], env=env, cwd=cwd, timeout=60)
        head, sec = parse_exports(b.text)
        fns = sorted(map(str, [norm_fn(x) for x in sec.get("functions", [])]))
        exp = set()
        gotb = {(x[0], x[1]) for x in map(norm_fn, sec.get("functions", [])) if (x[0], x[1]) in BASEFN}
        gote = sorted(str(x) for x in map(norm_fn, sec.get("functions", [])) if (x[0], x[1]) not in BASEFN)
        want = sorted(map(str, sigs[m.i]))
        for s in sigs[m.i]:
            ck.saw("exports/" + str(s[2]))
        if b.rc != 0 or sorted(sec.get("constants", [])) != sorted(["ONE", "TWO", "THREE"]) or sorted(sec.get("types", [])) != ["cb_t", "t"] or gotb != BASEFN or gote != want:
            return viol("exports:%d" % idx, "exports lists %r; expected public functions %r besides %r, constants ONE TWO THREE, types cb_t t" % (sec, want, sorted(BASEFN)), P)
        # --- edits are seen by the next build
        for m in P.mods:
            m.ka, m.s0, m.q, m.p = r.randrange(90), r.randrange(90), r.randrange(90), r.randrange(1, 9)
        keep = os.stat(main)
        touched = {p: open(p, "rb").read() for p in srcs}
        if touched != srcs:
            return viol("sources:%d" % idx, "a command changed the source files", P)
        layout2(P)
        b = run([ck.che, "build", mp, out], env=env, cwd=cwd, timeout=120)
        w = run([out], timeout=30)
        ck.saw("edit")
        if b.rc != 0 or w.text != refs(P):
            return viol("edit:%d" % idx, "after an edit the build (exit %s) printed %r, expected %r" % (b.rc, w.text[:200], refs(P)[:200]), P)
        ck.count("projects")
        with ck.lock:
            ck.distinct |= {"feature/" + f for f in feat}
        ck.sample({"modules": len(P.live), "deptree_lines": len(got), "exports": fns[:3]})
    finally:
        shutil.rmtree(D, ignore_errors=True)


def layout2(P):
    for m in P.live:
        P.src[m.i] = P.source(m)
        p = P.path(m, P.home)
        st = os.stat(p)
        with open(p, "w") as f:
            f.write(P.src[m.i])
        os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))  # no reliance on file times


def tree_in_source_order(P, got):
    """the import tree with children in the order of the listing, if it is a
    permutation of the real one"""
    by = {os.path.realpath(P.path(m, P.home)): m for m in P.live}
    pos = [0]

    def sub(depth):
        d, p = got[pos[0]]
        pos[0] += 1
        m = by.get(p)
        if d != depth or m is None:
            raise ValueError
        kids = []
        while pos[0] < len(got) and got[pos[0]][0] > depth:
            kids.append(got[pos[0]][1])
            sub(depth + 1)
        if sorted(kids) != sorted(os.path.realpath(P.path(q, P.home)) for q in m.imps):
            raise ValueError
        return m
    try:
        if sub(0) is not P.mods[0] or pos[0] != len(got):
            return None
    except (ValueError, IndexError):
        return None
    return got


RUNP = r"""
int main(int argc, char *argv[]) {
	printf("%d\n", argc - 1);
	for (int i = 1; i < argc; i++) {
		printf("[%s]\n", argv[i]);
	}
	fflush(stdout);
	int c = fgetc(stdin);
	int n = 0;
	int sum = 0;
	while (c != EOF) {
		n++;
		sum = (sum * 31 + c) % 1000003;
		c = fgetc(stdin);
	}
	fprintf(stderr, "in %d %d\n", n, sum);
	if (argc > 1 && !strcmp(argv[1], "abort")) {
		abort();
	}
	return @;
}
"""


def runs(k):
    r = ck.rng("run", k)
    rc = r.choice([0, 1, 2, 7, 42, 127, 200, 255])
    D = os.path.join(ck.scratch, "r%d" % k)
    os.makedirs(D)
    with open(D + "/p.c", "w") as f:
        f.write(RUNP.replace("@", str(rc)).replace("31", str(r.randrange(10, 90))))
    mul = int(re.search(r"sum \* (\d+)", open(D + "/p.c").read()).group(1))
    args = [r.choice(["", "a", "two words", "-x", "--", "*", "$HOME", "'q'", "\"", "\u00e9", "a\nb", "-o", "build", "abort" if k % 5 == 0 else "z"]) for _ in range(r.randrange(0, 5))]
    data = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 100, 70000])))
    s = 0
    for c in data:
        s = (s * mul + c) % 1000003
    ab = args[:1] == ["abort"]
    exp = "%d\n" % len(args) + "".join("[%s]\n" % a for a in args)
    h = ck.new_home()
    env = ck.che_env("strict", h)
    with RUNLOCK:
        w = run([ck.che, "run", D + "/p.c"] + args, data, env=env, cwd=D, timeout=120)
        left = os.path.exists(D + "/p")
    out = D + "/exe"
    b = run([ck.che, "build", D + "/p.c", out], env=env, timeout=120)
    if b.rc != 0:
        ck.violation("run:build", "che build fails: " + b.etext[-300:] + b.text[-300:], open(D + "/p.c").read())
    w2 = run([out] + args, data, timeout=30)
    ck.saw("run/exit%d/%d args/%s" % (-6 if ab else rc, len(args), "input" if data else "no input"))
    for nm, x in (("run", w), ("build", w2)):
        if x.text != exp or x.etext != "in %d %d\n" % (len(data), s) or x.rc != (-6 if ab else rc):
            ck.violation("run:%s:%d" % (nm, k), "che %s: program with arguments %r and %d bytes of input: expected exit %s, %r; got exit %s, %r, %r" % (nm, args, len(data), -6 if ab else rc, exp, x.rc, x.text, x.etext[-200:]), open(D + "/p.c").read())
    shutil.rmtree(h, ignore_errors=True)
    shutil.rmtree(D, ignore_errors=True)


def links(k):
    """#link hints of every module reach the linker"""
    r = ck.rng("link", k)
    D = os.path.join(ck.scratch, "l%d" % k)
    os.makedirs(D)
    tab = {"pthread": ("pthread_self", "OS.pthread_self() != 0"), "m": ("sin", "sin(0.0) == 0.0"), "dl": ("dlerror", "OS.dlerror() == NULL")}
    use = r.sample(sorted(tab), r.randrange(1, 4))
    mods = ["a", "b", "c"][:len(use)]
    for m, l in zip(mods, use):
        hdr = {"pthread": "#include <pthread.h>\n", "m": "", "dl": "#include <dlfcn.h>\n"}[l]
        dup = "#link %s\n" % r.choice(use) if r.random() < .5 else ""
        with open(D + "/%s.c" % m, "w") as f:
            f.write(hdr + "#link %s\n" % l + dup + "pub int ok() {\n\tif (%s) {\n\t\treturn 1;\n\t}\n\treturn 0;\n}\n" % tab[l][1])
    with open(D + "/main.c", "w") as f:
        f.write("".join("#import %s.c\n" % m for m in mods) + "int main() {\n\treturn %s;\n}\n" % " + ".join(m + ".ok()" for m in mods))
    log = D + "/args"
    h = ck.new_home()
    env = ck.che_env("strict", h)
    env["PATH"] = LINKCC + ":" + env["PATH"]
    env["VP_LINKLOG"] = log
    b = run([ck.che, "build", D + "/main.c", D + "/out"], env=env, timeout=60)
    a = open(log).read().split("\n") if os.path.exists(log) else []
    got = [a[i + 1] for i in range(len(a) - 1) if a[i] == "-l"] + [x[2:] for x in a if x.startswith("-l") and len(x) > 2]
    ck.saw("link/" + "+".join(sorted(use)))
    if b.rc != 0 or not set(use) <= set(got):
        ck.violation("link:%d" % k, "modules link %r, the linker got %r (exit %s) %s" % (use, got, b.rc, b.etext[-200:] + b.text[-300:]), D)
    else:
        w = run([D + "/out"], timeout=20)
        if w.rc != len(use):
            ck.violation("link-run:%d" % k, "linked program exits %s" % w.rc, D)
    shutil.rmtree(D, ignore_errors=True)


def misuse():
    h = ck.new_home()
    D = os.path.join(ck.scratch, "mis")
    os.makedirs(D)
    ck.write("mis/ok.c", "int main() {\n\treturn 0;\n}\n")
    ck.write("mis/bad.c", "int main() {\n\treturn nosuch;\n}\n")
    ck.write("mis/syn.c", "int main( {\n")
    env = ck.che_env("strict", h)
    cases = [[], ["nosuch"], ["build"], ["build", "a", "b", "c"], ["run"], ["genc"], ["genc", "ok.c"], ["deptree"], ["deptree", "a", "b"], ["install"], ["install", "a", "b"], [""], ["--help"], ["-"]]
    for c in ("build", "install", "run", "deptree", "exports"):
        cases += [[c, f] for f in ("bad.c", "syn.c", "nosuchfile.c")]
    cases += [["genc", f, "gdir"] for f in ("bad.c", "syn.c", "nosuchfile.c")]
    for a in cases:
        before = snap(D)
        w = run([ck.che] + a, env=env, cwd=D, timeout=30)
        ck.saw("misuse/" + " ".join(a))
        after = {k: v for k, v in snap(D).items() if not k.startswith("gdir")}
        if w.rc != 1 or not (w.err + w.out).strip() or "panicked" in w.etext or before != after:
            ck.violation("misuse:%s" % "_".join(a), "che %r: exit %s, stderr %r, files changed: %s" % (a, w.rc, w.etext[-300:], before != after), " ".join(a))


def main_():
    ck.build_che()
    misuse()
    global LINKCC
    LINKCC = os.path.join(ck.scratch, "cc-link")
    p = ck.write("cc-link/c99", '#!/bin/bash\nprintf "%s\\n" "$@" > "$VP_LINKLOG"\nexec /usr/bin/c99 "$@"\n')
    os.chmod(p, 0o755)
    ck.pmap(links, range(ck.n(12, 60)))
    ck.pmap(runs, range(ck.n(60, 500)))
    ck.pmap(one, range(ck.n(100, 1500)))
    ck.finish()


main(main_)
