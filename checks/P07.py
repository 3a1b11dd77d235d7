"""P07: the translator survives any input: it terminates, never crashes, and
its exit status, diagnostics and outputs agree."""
import glob, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P07", rule="a distinct outcome class: (mutation kind, subcommand, accepted or the diagnostic with names and positions removed)",
           assumptions=["inputs nest at most 60 levels deep and stay below 64 KB", "limits per run: 20 s of CPU, 3 GB of memory"])

TOK = re.compile(rb'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])+\'|/\*.*?\*/|//[^\n]*|#[^\n]*|\w+|<<=|>>=|\.\.\.|\+\+|--|->|<<|>>|<=|>=|&&|\|\||[-+*/%&^|=!]=|\s+|.', re.S)
FRAGS = [b"{", b"}", b"(", b")", b"[", b"]", b";", b",", b":", b"?", b".", b"...", b"->", b"=", b"==", b"+", b"-", b"*", b"&", b"~", b"!", b"++", b"--", b"<<=", b"\\", b"@", b"`", b"$", b"#",
         b'"', b"'", b"'a", b"'\\", b"''", b'"\\', b"/*", b"*/", b"//", b"0x", b"1e", b"1.", b"1e-", b"123abc", b"0", b"99999999999999999999999", b"\x00", b"\r", b"\xc3\xa9", b"\xff", b"\xe2\x82\xac" * 20,
         b"#import", b"#import \n", b"#import x.c\n", b"#import strings\n", b"#import nosuch\n", b"#define\n", b"#define \n", b"#define X\n", b"#define X 1\n", b"#define X(a) a\n", b"#type\n", b"#type \n", b"#type foo_t\n", b"#link\n",
         b"#link m\n", b"#include <stdio.h>\n", b"#include\n", b"#foo\n", b"#\n", b"# \n",
         b"typedef", b"struct", b"enum", b"union", b"pub", b"const", b"sizeof", b"switch", b"str", b"case", b"default", b"if", b"else", b"for", b"while", b"return", b"break", b"continue", b"panic", b"calloc!", b"NULL",
         b"int", b"void", b"char", b"double", b"size_t", b"bool", b"FILE", b"OS", b"OS.x", b"nelem", b"main", b"foo_t", b"x", b"y.z",
         b"typedef {", b"typedef { int a; } t;", b"typedef { union { int a; } b; } t;", b"typedef int t[", b"typedef int t[0x10];", b"typedef int t[-1];", b"typedef void f(", b"typedef struct a b;", b"typedef", b"typedef;", b"typedef )",
         b"typedef ( ;", b"typedef { } ;", b"typedef { typedef {", b"enum {", b"enum {}", b"enum { A, A }", b"pub enum { A = ", b"int f(", b"int f() {", b"int f(int a, a) { return a; }", b"int x = {", b"int x = { .a", b"int x = { [1] = ",
         b"int x = ;", b"pub int x = 1;", b"int a = a;", b"switch (x) {", b"switch str (x) {", b"switch (x) { case", b"switch (x) { case 1", b"switch (x) { case 1: {", b"switch (x) { default", b"for (;;)", b"for (int i = 0", b"if (", b"while (",
         b"sizeof(", b"sizeof(x) ++", b"a ~ b", b"a ! b", b"a ? b : c", b"a.b.c", b"(int)", b"(int) ++", b"* * *", b"f()()", b"x[", b"return", b"panic(", b"panic();", b"calloc!(", b"calloc!;", b"{}", b"{};", b";;"]


def corpus():
    files = []
    for pat in ("lib/**/*.c", "samples/**/*.c", "prog/**/*.c"):
        files += glob.glob(os.path.join(REPO, pat), recursive=True)
    files = sorted(f for f in files if os.path.getsize(f) < 20000)
    return files


def mutate(r, s):
    """returns kind, bytes"""
    k = r.randrange(9)
    if k == 0:
        return "truncate", s[:r.randrange(len(s) + 1)]
    toks = TOK.findall(s)
    if not toks:
        return "frag", r.choice(FRAGS)
    i = r.randrange(len(toks))
    if k == 1:
        n = r.choice([1, 1, 1, 2, 5])
        del toks[i:i + n]
        return "delete", b"".join(toks)
    if k == 2:
        toks.insert(i, toks[r.randrange(len(toks))])
        return "copytok", b"".join(toks)
    if k == 3:
        j = r.randrange(len(toks))
        toks[i], toks[j] = toks[j], toks[i]
        return "swap", b"".join(toks)
    if k == 4:
        toks.insert(i, b" " + r.choice(FRAGS) + b" ")
        return "insert", b"".join(toks)
    if k == 5:
        toks[i] = b" " + r.choice(FRAGS) + b" "
        return "replace", b"".join(toks)
    if k == 6:
        b = bytearray(s)
        for _ in range(r.choice([1, 1, 3, 10])):
            b[r.randrange(len(b))] = r.choice(b"{}()[];,\"'\\/*#\x00\xff\n .=+-&0a") if r.random() < .8 else r.randrange(256)
        return "bytes", bytes(b)
    if k == 7:
        # cut inside and insert a fragment at the end of input
        return "truncate+frag", b"".join(toks[:i]) + b" " + r.choice(FRAGS)
    # frankenstein: a random slice duplicated
    j = min(len(toks), i + r.randrange(1, 40))
    return "slice", b"".join(toks[:j] + toks[i:j] * r.choice([1, 1, 3]) + toks[j:])


def norm(t):
    t = re.sub(r"[\w./-]*\.c\b", "F", t)
    t = re.sub(r"\d+", "0", t)
    t = re.sub(r"\[(\w+), [^\]]*\]", r"[\1]", t)
    t = re.sub(r"'[^'\n]*'", "''", t)
    return t.strip().split("\n")[0][:90]


def judge(kind, cmd, name, src, r, outdir, out):
    what = None
    diag = (r.etext + r.text).strip()
    if r.timeout:
        what = "hang", "did not finish within its limits"
    elif r.rc < 0 or r.rc in (134, 139):
        what = "crash", "died of signal %s: %s" % (-r.rc, diag[-300:])
    elif r.rc == 101 or "panicked at" in r.etext:
        m = re.search(r"panicked at ([^\n]*)\n([^\n]*)", r.etext)
        what = "panic", "panicked: %s" % (m.group(0) if m else diag[:300])
    elif r.rc == 0:
        if cmd == "genc" and not os.listdir(outdir):
            what = "nothing", "reported success and produced no C code"
        if cmd == "build" and not os.path.exists(out):
            what = "nothing", "reported success and produced no executable"
    else:
        if r.rc != 1:
            what = "status", "exit status %s" % r.rc
        if not diag:
            what = "silent", "failed without a diagnostic"
        if cmd == "build" and os.path.exists(out):
            what = "leftover", "failed, but left an executable"
    ck.saw("%s/%s/%s" % (kind, cmd, "accepted" if r.rc == 0 else norm(diag)))
    ck.count("accepted" if r.rc == 0 else "rejected")
    if what:
        m = re.search(r"src/(\w+)\.rs:(\d+)", r.etext)
        key = "%s:%s" % (what[0], m.group(0) if m else norm(diag) or name)
        ck.violation(key, "%s of a %s input (%s): %s" % (cmd, kind, name, what[1]), src.decode("utf-8", "backslashreplace"))
    return what


def serve(job):
    idx, kind, name, src, cmd, dirp = job
    if len(ck.violations) >= 10:
        return
    fn = os.path.join(dirp, "zz%d.c" % idx)
    with open(fn, "wb") as f:
        f.write(src)
    D = os.path.join(ck.scratch, "o%d" % idx)
    os.makedirs(D + "/h/tmp")
    os.symlink(LIB, D + "/h/lib")
    outdir, out = D + "/gen", D + "/exe"
    os.makedirs(outdir)
    args = {"genc": [fn, outdir], "build": [fn, out], "exports": [fn], "deptree": [fn]}[cmd]
    r = run([ck.che, cmd] + args, env=ck.che_env("strict", D + "/h"), cwd=D, timeout=120, cpu=20, mem=3 << 30, fsize=1 << 28)
    judge(kind, cmd, name, src, r, outdir, out)
    os.unlink(fn)
    shutil.rmtree(D, ignore_errors=True)


def main_():
    global LIB
    ck.build_che()
    tree = os.path.join(ck.scratch, "tree")
    for d in ("lib", "samples", "prog"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(tree, d), symlinks=True)
    LIB = os.path.join(tree, "lib")
    files = corpus()
    if len(files) < 50:
        raise CheckError("corpus is missing")
    data = {f: open(f, "rb").read() for f in files}
    r = ck.rng("mut")
    jobs = []

    def add(kind, name, src, cmd, d):
        jobs.append((len(jobs), kind, name, src, cmd, d))

    base = os.path.join(tree, "fuzz")
    os.makedirs(base)
    cmds = ["genc"] * 8 + ["exports", "deptree"]
    # every fragment alone, at the start, inside a function, and as an unfinished end
    for f in FRAGS:
        add("frag", "frag", f, "genc", base)
        add("frag", "frag-body", b"int main() {\n" + f + b"\nreturn 0; }\n", "genc", base)
        add("frag", "frag-body-eof", b"int main() {\n" + f, "genc", base)
        add("frag", "frag-expr", b"int main() { int x = " + f + b"; return x; }\n", "genc", base)
        add("frag", "frag-expr-eof", b"int main() { int x = " + f, "genc", base)
        add("frag", "frag-top", f + b"\nint main() { return 0; }\n", "build", base)
    # every truncation of a program that uses every construct
    tour = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "tour.txt"), "rb").read()
    step = ck.n(1, 1)
    for i in range(0, len(tour), step):
        add("truncate", "tour@%d" % i, tour[:i], "genc", base)
    # token-level deletions of the tour: each token once
    toks = TOK.findall(tour)
    for i, t in enumerate(toks):
        if t.strip():
            add("delete", "tour-%d" % i, b"".join(toks[:i] + toks[i + 1:]), "genc", base)
    # nesting
    for d in (1, 10, 60):
        for o, c in ((b"(", b")"), (b"-", b""), (b"*", b""), (b"!", b""), (b"f(", b")"), (b"{", b"}"), (b"x[", b"]"), (b"sizeof(", b")"), (b"(int)", b"")):
            add("nest", "nest", b"int main() { int x = " + o * d + b"1" + c * d + b"; return x; }\n", "genc", base)
            add("nest", "nest-open", b"int main() { int x = " + o * d, "genc", base)
        for o in (b"if (1) {", b"while (1) {", b"for (;;) {", b"switch (1) { case 1: {", b"switch str (\"\") { default: {", b"if (1) { } else {"):
            cl = b"}}" if o.startswith(b"switch") else b"}"
            add("nest", "nest-stmt", b"int main() {" + o * d + cl * d + b" return 0; }\n", "genc", base)
            add("nest", "nest-stmt-open", b"int main() {" + o * d, "genc", base)
        add("nest", "typedef", b"typedef {" * d, "genc", base)
        add("nest", "typedef-union", b"typedef { " + b"union { int a; " * d, "genc", base)
    n = ck.n(6000, 120000)
    for i in range(n):
        f = r.choice(files)
        kind, s = mutate(r, data[f])
        for _ in range(r.choice([0, 0, 0, 1, 3])):
            k2, s = mutate(r, s)
            kind = "multi"
        if len(s) > 60000:
            continue
        cmd = r.choice(cmds)
        d = os.path.join(tree, os.path.relpath(os.path.dirname(f), REPO))
        add(kind, os.path.relpath(f, REPO), s, cmd, d)
    for i in range(ck.n(250, 4000)):
        f = r.choice([x for x in files if "/samples/" in x])
        kind, s = mutate(r, data[f])
        add(kind, os.path.relpath(f, REPO), s, "build", os.path.join(tree, os.path.relpath(os.path.dirname(f), REPO)))
    for i in range(ck.n(300, 5000)):
        add("random", "random", bytes(r.randrange(256) for _ in range(r.randrange(200))), r.choice(cmds), base)
        add("randtok", "randtok", b" ".join(r.choice(FRAGS) for _ in range(r.randrange(40))), r.choice(cmds), base)
    ck.pmap(serve, jobs)
    ck.finish()


main(main_)
