"""P08: run-time failure: panic stops the program at once, reports its exact
source position and formatted message, exits 1; calloc! never returns NULL or
dirty memory."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P08", rule="a distinct (statement context, argument shape) of a panic that fired, or allocation shape that was observed",
           assumptions=["file names contain no double quotes or backslashes"])

CTX = {
    "plain": "{if} { @ }", "bare-if": "if (k == target) @", "bare-else": "if (k != target) cnt++; else @", "braced-else": "if (k != target) { cnt++; } else { @ }", "elseif": "if (k != target) { cnt++; } else if (k == target) { @ } else { cnt = 99; }",
    "for": "for (int z = 0; z < 3; z++) { if (k == target && z == 1) { @ } cnt++; }", "for-bare": "for (int z = 0; z < 2; z++) if (k == target) @", "while": "int w = 0;\n\twhile (w < 3) { w++; if (k == target) { @ } }",
    "case": "switch (k - target) { case 0: { @ } default: { cnt++; } }", "default": "switch (k - target + 1) { case 0: { cnt++; } case 1: { cnt++; if (k == target) { @ } } default: { cnt++; } }",
    "strcase": "const char *s = \"no\";\n\tif (k == target) { s = \"yes\"; }\n\tswitch str (s) { case \"yes\", \"y\": { @ } default: { cnt++; } }", "strdefault": "const char *s = \"no\";\n\tif (k == target) { s = \"yes\"; }\n\tswitch str (s) { case \"no\": { cnt++; } default: { @ } }",
    "deep": "if (k >= 0) { for (;;) { if (k == target) { while (true) { @ } } break; } }",
}
ARGS = [
    ('"stop"', "stop"), ('"a %d b %s"', None), ('"%d%%"', None), ('"%s"', None), ('"line\\nline2 %d"', None), ('"0"', "0"), ('"q\\"q\\" \\\\ %d"', None), ('"%c%c"', None), ('"once %d"', None), ('"a" " b" "c %d"', None), ('"%5d|%-5s|%x"', None), ('"tab\\t%%d"', "tab\t%d"),
]


def call(r):
    """returns (call text, expected message as a function of k)"""
    i = r.randrange(len(ARGS))
    f, const = ARGS[i]
    name = "args%d" % i
    sp = r.choice(["", "", " "])
    if i == 1:
        return "panic%s(%s, k, \"xy\");" % (sp, f), lambda k: "a %d b xy" % k, name
    if i == 2:
        return "panic(%s, k * 2 + 1);" % f, lambda k: "%d%%" % (k * 2 + 1), name
    if i == 3:
        return "panic(%s, \"%%d %%n \\n\");" % f, lambda k: "%d %n \n", name
    if i == 4:
        return "panic(%s,\n\t\tk - (1 - k));" % f, lambda k: "line\nline2 %d" % (2 * k - 1), name
    if i == 6:
        return "panic(%s, f2(k, 2));" % f, lambda k: "q\"q\" \\ %d" % (k + 2), name
    if i == 7:
        return "panic(%s, 'a', '\\n');" % f, lambda k: "a\n", name
    if i == 8:
        # arguments are evaluated exactly once
        return "panic(%s, ++calls);" % f, lambda k: "once 1", name
    if i == 9:
        return "panic(%s, k);" % f, lambda k: "a bc %d" % k, name
    if i == 10:
        return "panic(%s, k, \"z\", 255);" % f, lambda k: "%5d|z    |ff" % k, name
    return "panic(%s);" % f, lambda k: const, name


def one(idx):
    if len(ck.violations) >= 8:
        return
    r = ck.rng("p", idx)
    D = os.path.join(ck.scratch, "d%d" % idx)
    sub = r.choice(["", "sp ace", "pct %d %s", "\u00e9t\u00e9"])
    os.makedirs(os.path.join(D, sub), exist_ok=True)
    nm = r.randrange(1, 4)
    mods = [r.choice(["main", "my-prog", "x"])] + ["m%d" % i for i in range(1, nm)]
    src = {}
    steps = []
    for mi, m in enumerate(mods):
        parts = ["int calls = 0;", "int cnt = 0;", "int f2(int a, b) {\n\treturn a + b;\n}", "pub int used() {\n\treturn calls + cnt + f2(0, 0);\n}"]
        for j in range(r.randrange(2, 5)):
            k = len(steps)
            cname = r.choice(list(CTX))
            c, msg, aname = call(r)
            body = CTX[cname].replace("{if}", "if (k == target)").replace("@", c)
            if "}" not in body.split("@")[0] and r.random() < .3:
                body = "\n\t".join(re.split(r"(?<=\{) ", body))
            pre = r.choice(["", "// panic(\"not here\");\n\t", "cnt += 2;\n\t", "puts(\"panic()\");\n\t"])
            fn = "pub void step%d(int k, target) {\n\tprintf(\"step %%d\\n\", k);\n\t%s%s\n\tprintf(\"after %%d\\n\", k);\n}" % (k, pre, body)
            steps.append(dict(mod=mi, cname=cname, aname=aname, msg=msg, puts="puts" in pre))
            parts.append(fn)
        r.shuffle(parts)
        src[m] = "".join("#import %s.c\n" % x for x in mods[1:] if mi == 0) + r.choice(["", "\n\n"]) + "\n\n".join(parts) + "\n"
    rc0 = r.randrange(0, 120)
    main = "\nint main(int argc, char *argv[]) {\n\tint target = atoi(argv[1]);\n\tif (argc > 2) { fflush(stdout); }\n"
    for k, s in enumerate(steps):
        main += "\t%sstep%d(%d, target);\n" % ("" if s["mod"] == 0 else mods[s["mod"]] + ".", k, k)
    main += "".join("\t%s.used();\n" % x for x in mods[1:]) + "\tputs(\"end\");\n\treturn %d;\n}\n" % rc0
    src[mods[0]] += main
    for m, t in src.items():
        with open(os.path.join(D, sub, m + ".c"), "w") as f:
            f.write(t)
    cwd = os.path.join(D, sub) if r.random() < .5 else D
    mp = os.path.join(D, sub, mods[0] + ".c")
    if r.random() < .6:
        mp = os.path.relpath(mp, cwd)
    h = ck.new_home()
    out = D + "/exe"
    b = run([ck.che, "build", mp, out], env=ck.che_env("strict", h), cwd=cwd, timeout=100)
    shutil.rmtree(h, ignore_errors=True)
    dump = "\n".join("=== %s.c\n%s" % kv for kv in src.items())
    if b.rc != 0 or not os.path.exists(out):
        ck.saw()
        ck.violation("rejected:%d" % idx, "a valid program with panics is rejected: %s" % (b.etext[-300:] + b.text[-500:]), dump)
        return
    for target in list(range(len(steps))) + [-5]:
        w = run([out, str(target)], timeout=20, cpu=20)
        exp = ""
        for k, s in enumerate(steps):
            exp += "step %d\n" % k
            if s["puts"]:
                exp += "panic()\n"
            if k == target:
                break
            exp += "after %d\n" % k
        else:
            exp += "end\n"
        if target < 0:
            exp_err, exp_rc = "", rc0
        else:
            s = steps[target]
            m = mods[s["mod"]]
            path = os.path.join(os.path.dirname(mp), m + ".c") if s["mod"] else mp
            t = src[m]
            a = t.index("void step%d(" % target)
            body = t.index("\n", t.index("printf(\"step", a))
            # the panic call of this step (not the decoys)
            p = next(x.start() for x in re.finditer(r"panic ?\(", t[body:]) if not (t[body:][:x.start()].endswith("// ") or t[body:][:x.start()].endswith("puts(\""))) + body
            line = t[:p].count("\n") + 1
            col = p - t.rfind("\n", 0, p)
            exp_err = "*** panic at %s:%d:%d ***\n%s\n" % (path, line, col, s["msg"](target))
            exp_rc = 1
            ck.saw("%s/%s" % (s["cname"], s["aname"]))
        ck.count("runs")
        if w.text != exp or w.etext != exp_err or w.rc != exp_rc:
            ck.violation("panic:%d:%d" % (idx, target), "step %d (%s): expected exit %d, stderr %r; got exit %s, stderr %r%s" % (
                target, steps[target]["cname"] if target >= 0 else "none", exp_rc, exp_err, w.rc, w.etext[:300], "" if w.text == exp else "; stdout %r, expected %r" % (w.text[-200:], exp[-200:])), dump)
            break
        ck.sample({"stderr": w.etext, "exit": w.rc}) if target >= 0 else None
    shutil.rmtree(D, ignore_errors=True)


ALLOC = r"""
#import other.c
typedef { int a; double b[10]; void *p; } rec_t;
int dirty(size_t n) {
	// leave garbage behind
	uint8_t *x[64] = {};
	for (int i = 0; i < 64; i++) {
		x[i] = realloc(NULL, n);
		if (x[i]) { memset(x[i], 0xAA, n); }
	}
	for (int i = 0; i < 64; i++) { free(x[i]); }
	return 0;
}
int check(uint8_t *x, size_t n) {
	if (!x) { return 1; }
	for (size_t i = 0; i < n; i++) {
		if (x[i] != 0) { return 2; }
	}
	memset(x, 0x55, n);
	return 0;
}
int main(int argc, char *argv[]) {
	if (argc < 3) { return 9; }
	size_t n = OS.strtoul(argv[1], NULL, 10);
	size_t z = OS.strtoul(argv[2], NULL, 10);
	if (argc > 3) {
		puts("before");
		void *x = calloc!(n, z);
		printf("returned %d\n", x == NULL);
		return 0;
	}
	dirty(n * z);
	for (int i = 0; i < 50; i++) {
		uint8_t *x = calloc!(n, z);
		int r = check(x, n * z);
		if (r != 0) { printf("bad %d\n", r); return 0; }
		if (i % 3 != 0) { free(x); }
	}
	rec_t *q = calloc!(1, sizeof(rec_t));
	if (q->a != 0 || q->b[9] != 0 || q->p != NULL) { puts("bad rec"); }
	int *w = other.mk(n);
	for (size_t i = 0; i < n; i++) { if (w[i] != 0) { puts("bad other"); } w[i] = 7; }
	printf("ok %d\n", calloc!(2, 2) == NULL);
	return 0;
}
"""
OTHER = "pub int *mk(size_t n) {\n\treturn calloc!(n, sizeof(int));\n}\n"


def alloc():
    ck.write("al/main.c", ALLOC)
    ck.write("al/other.c", OTHER)
    bins = {}
    for mode in ("strict", "san"):
        out = os.path.join(ck.scratch, "al-" + mode)
        b = ck.che_build(os.path.join(ck.scratch, "al/main.c"), out, mode)
        if b.rc != 0:
            ck.saw()
            ck.violation("alloc-build", "a program that uses calloc! is rejected: " + b.etext[-300:] + b.text[-300:], ALLOC)
            return
        bins[mode] = out
    r = ck.rng("al")
    for k in range(ck.n(60, 600)):
        n, z = r.choice([1, 2, 3, 7, 16, 100, 1000]), r.choice([1, 2, 4, 8, 24, 100])
        for mode in ("strict", "san"):
            e = dict(ck.env)
            w = run([bins[mode], str(n), str(z)], env=e, timeout=30, cpu=30)
            ck.saw("alloc/%s/%dx%d" % (mode, n, z))
            if w.text != "ok 0\n" or w.rc != 0:
                ck.violation("alloc:%d:%d" % (n, z), "calloc!(%d, %d): %r exit %s %s" % (n, z, w.text, w.rc, w.etext[-300:]), "alloc %d %d" % (n, z))
    # failures: overflowing products, more than the address space, and memory exhaustion
    for n, z, mem in [((1 << 64) - 1, (1 << 64) - 1, None), (1 << 63, 2, None), (1 << 33, 1 << 33, None), (1, 1 << 62, None), (1 << 62, 1, None), (1, 200 << 20, 64 << 20), (1 << 20, 1 << 10, 64 << 20), ((1 << 32) + 1, 1 << 32, None)]:
        w = run([bins["strict"], str(n), str(z), "fail"], timeout=30, cpu=30, mem=mem)
        ck.saw("allocfail/%x/%x" % (n, z))
        ck.count("failed_allocations")
        if w.rc != 1 or w.text != "before\n" or "calloc failed" not in w.etext:
            ck.violation("allocfail:%x:%x" % (n, z), "calloc!(%d, %d) failing: exit %s stdout %r stderr %r" % (n, z, w.rc, w.text, w.etext[-200:]), "fail %d %d" % (n, z))


def main_():
    ck.build_che()
    alloc()
    ck.pmap(one, range(ck.n(120, 2500)))
    ck.finish()


main(main_)
