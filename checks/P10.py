"""P10: che test runs every test exactly once and its verdicts and exit
status are true."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P10", rule="a distinct (test outcome, output shape, place in the tree) that was run by che test and judged",
           assumptions=["test file names are valid UTF-8"])

# Kinds that crash the runner are tried apart from the others, see crashes().
KINDS = ["pass", "pass", "pass-out", "pass-err", "fail", "fail-out", "fail-255", "panic", "abort", "segv", "nobuild", "nosyntax", "nocc", "noimport", "imports", "importsfail"]


def source(kind, ident, log, r):
    rec = '\tFILE *f = fopen("%s", "a");\n\tfprintf(f, "%s\\n");\n\tfclose(f);\n' % (log, ident)
    m = "int main() {\n" + rec + "%s\n\treturn %d;\n}\n"
    if kind == "pass":
        return m % ("", 0), True
    if kind == "pass-out":
        return m % ('\tputs("out %s");' % ident, 0), True
    if kind == "pass-err":
        return m % ('\tfprintf(stderr, "FAIL err %s\\n");' % ident, 0), True
    if kind == "pass-bytes":
        return m % ('\tputs("\\xff\\xfe bytes"); fputs("\\xc3", stderr);', 0), True
    if kind == "fail":
        return m % ("", 1), False
    if kind == "fail-out":
        return m % ('\tputs("OK looks fine");', r.choice([1, 2, 77])), False
    if kind == "fail-255":
        return m % ("", 255), False
    if kind == "fail-bytes":
        return m % ('\tputs("\\xff\\xfe bytes"); fputs("\\xc3", stderr);', 3), False
    if kind == "panic":
        return m % ('\tif (!f) { return 0; }\n\tpanic("oops %d", 1);', 0), False
    if kind == "abort":
        return m % ("\tOS.abort();", 0), False
    if kind == "segv":
        return m % ("\tint *p = NULL;\n\tif (f) { *p = 1; }", 0), False
    if kind == "nobuild":
        return m % ("\tnosuch();", 0), False
    if kind == "nosyntax":
        return "int main( {", False
    if kind == "nocc":
        # refused by the C compiler, not by the translator
        return m % ("\tOS.nosuchfunction(1);", 0), False
    if kind == "noimport":
        return "#import nosuchmod.c\n" + m % ("\tnosuchmod.f();", 0), False
    if kind == "imports":
        return "#import helper.c\n" + m % ("\tif (helper.one() != 1) { return 1; }", 0), True
    if kind == "importsfail":
        return "#import helper.c\n" + m % ("\tif (helper.one() != 2) { return 1; }", 0), False


def one(idx):
    if len(ck.violations) >= 6:
        return
    r = ck.rng("t", idx)
    D = os.path.join(ck.scratch, "t%d" % idx)
    os.makedirs(D)
    log = D + "/log"
    args, tests = [], {}
    for a in range(r.choice([1, 1, 2, 3])):
        root = "d%d" % a
        args.append(r.choice([root, D + "/" + root, "./" + root]))
        dirs = [root] + [root + "/" + x for x in r.sample(["s", "s/t", "u", "empty", "x.y", "with space"], r.randrange(0, 4))]
        for d in dirs:
            os.makedirs(os.path.join(D, d), exist_ok=True)
            if "empty" in d:
                continue
            with open(os.path.join(D, d, "helper.c"), "w") as f:
                f.write("pub int one() {\n\treturn 1;\n}\n")
            # not tests
            for nm, t in r.sample([("test.c", "int main() {\n\treturn 1;\n}\n"), ("a.test.h", "x"), ("b.test.cc", "junk"), ("latest.c", "junk"), ("c.test.c~", "junk"), ("README.md", "FAIL")], 2):
                with open(os.path.join(D, d, nm), "w") as f:
                    f.write(t)
            allpass = idx % 4 == 0
            for k in range(r.randrange(0, 4)):
                kind = r.choice([x for x in KINDS if x.startswith("pass") or x == "imports"] if allpass else KINDS)
                nm = "%s%d.test.c" % (r.choice(["a", "b-c", "test", "x.test"]), k)
                ident = "%s/%s" % (d, nm)
                src, ok = source(kind, ident, log, r)
                with open(os.path.join(D, d, nm), "w") as f:
                    f.write(src)
                tests[os.path.realpath(os.path.join(D, d, nm))] = (kind, ok, ident, d)
    r.shuffle(args)
    h = ck.new_home()
    if r.random() < .3:
        # a stale executable of an earlier run
        shutil.copy("/bin/true", D + "/test.out")
    w = run([ck.che, "test"] + args, env=ck.che_env("strict", h), cwd=D, timeout=300)
    shutil.rmtree(h, ignore_errors=True)
    got = {}
    dup = []
    for l in w.text.split("\n"):
        m = re.match(r"(OK|FAIL) (.*?\.test\.c)(: .*)?$", l)
        if m:
            p = os.path.realpath(os.path.join(D, m.group(2)))
            if p in tests:
                if p in got:
                    dup.append(p)
                got[p] = m.group(1) == "OK"
    ran = open(log).read().split("\n")[:-1] if os.path.exists(log) else []
    ck.count("test_runs", len(ran))
    ck.count("verdicts", len(got))
    for k, ok, ident, d in tests.values():
        ck.saw("%s/depth%d" % (k, d.count("/")))
    dump = {"args": args, "tests": {v[2]: v[0] for v in tests.values()}, "stdout": w.text[-3000:], "stderr": w.etext[-2000:], "exit": w.rc}

    def v(kind, what):
        ck.violation("%s:%d" % (kind, idx), what, dump)
    if w.timeout:
        return v("hang", "che test does not finish")
    if "panicked" in w.etext:
        v("crash", "che test crashed: " + w.etext[-300:])
    miss = [tests[p][2] for p in tests if p not in got]
    if miss or dup:
        v("verdicts", "tests without a verdict: %r, with two: %r" % (miss, dup))
    wrong = [(tests[p][2], tests[p][0], "OK" if g else "FAIL") for p, g in got.items() if g != tests[p][1]]
    if wrong:
        v("wrong", "wrong verdicts: %r" % wrong)
    norun = {"nobuild", "nosyntax", "nocc", "noimport"}
    exp = sorted(t[2] for t in tests.values() if t[0] not in norun)
    if sorted(ran) != exp:
        v("runs", "tests executed: %r, expected each once: %r" % (sorted(ran), exp))
    nf = sum(1 for t in tests.values() if not t[1])
    ran_nf = sum(1 for t in tests.values() if not t[1] and t[0] not in norun)

    def told(fails):
        """does the summary and the exit status tell of this many failures?"""
        m = re.search(r"fails: (\d+), total: (\d+)", w.text)
        m2 = re.search(r"^OK (\d+) tests", w.text, re.M)
        if fails:
            return w.rc != 0 and not m2 and m and (int(m.group(1)), int(m.group(2))) == (fails, len(tests))
        return w.rc == 0 and not m and m2 and int(m2.group(1)) == len(tests)
    if not told(nf):
        if told(ran_nf):
            # recorded in known_findings.txt: tests that don't build are not counted as failures
            ck.violation("unbuilt-not-counted", "tests that fail to build are not counted as failures", dump)
        else:
            v("total", "exit status %s and summary %r with %d of %d tests failing" % (w.rc, w.text.split("\n")[-2:], nf, len(tests)))
    # stdout of a passing test and of a failing one is shown
    for k, ok, ident, d in tests.values():
        if k == "pass-out" and "out " + ident not in w.text:
            v("output", "the output of %s is not shown" % ident)
        if k == "pass-err" and "FAIL err " + ident not in w.text:
            v("output", "the error output of %s is not shown" % ident)
    ck.sample({"args": args, "tests": len(tests), "failing": nf, "exit": w.rc})
    shutil.rmtree(D, ignore_errors=True)


def many(n):
    """exit status with many failures (statuses are 8 bits wide)"""
    D = os.path.join(ck.scratch, "m%d" % n)
    os.makedirs(D + "/d")
    for i in range(n):
        with open(D + "/d/t%d.test.c" % i, "w") as f:
            f.write("int main() {\n\treturn 1;\n}\n")
    h = ck.new_home()
    # the real compiler would take minutes; a script stands in for the program
    cc = os.path.join(D, "cc")
    os.makedirs(cc)
    with open(cc + "/c99", "w") as f:
        f.write('#!/bin/bash\no=\nwhile [ $# -gt 0 ]; do if [ "$1" = -o ]; then o=$2; fi; shift; done\n'
                '[ -n "$o" ] && { printf "#!/bin/sh\\nexit 1\\n" > "$o"; chmod 755 "$o"; }\nexit 0\n')
    os.chmod(cc + "/c99", 0o755)
    e = ck.che_env("strict", h)
    e["PATH"] = cc + ":" + e["PATH"]
    w = run([ck.che, "test", "d"], env=e, cwd=D, timeout=300)
    shutil.rmtree(h, ignore_errors=True)
    ck.saw("many/%d" % n)
    if w.text.count("FAIL ") != n:
        ck.violation("many:%d" % n, "%d failing tests: exit status %s, %d FAIL lines" % (n, w.rc, w.text.count("FAIL ")), "n=%d\n%s" % (n, w.etext[-1000:]))
    elif w.rc == 0:
        ck.violation("many-status:%d" % n, "%d failing tests: exit status %s" % (n, w.rc), "n=%d" % n)
    shutil.rmtree(D, ignore_errors=True)


def crashes(kind):
    """inputs on which the runner is known to crash"""
    D = os.path.join(ck.scratch, "c-" + kind)
    os.makedirs(D + "/d")
    log = D + "/log"
    ok = True
    args = ["d"]
    if kind == "missing-dir":
        args = ["nosuchdir", "d"]
        src, _ = source("pass", "d/a.test.c", log, ck.rng(kind))
        ok = False
    else:
        src, ok = source(kind, "d/a.test.c", log, ck.rng(kind))
    with open(D + "/d/a.test.c", "w") as f:
        f.write(src)
    h = ck.new_home()
    w = run([ck.che, "test"] + args, env=ck.che_env("strict", h), cwd=D, timeout=300)
    shutil.rmtree(h, ignore_errors=True)
    ck.saw("crash/" + kind)
    dump = {"kind": kind, "stdout": repr(w.out[-2000:]), "stderr": w.etext[-2000:], "exit": w.rc}
    if "panicked" in w.etext:
        ck.violation("crash:" + kind, "che test crashes", dump)
    elif (w.rc == 0) != ok or (kind != "missing-dir" and (b"OK d/a.test.c" if ok else b"FAIL d/a.test.c") not in w.out):
        ck.violation("verdict:" + kind, "wrong verdict or status %s" % w.rc, dump)
    shutil.rmtree(D, ignore_errors=True)


def main_():
    ck.build_che()
    ck.pmap(lambda f: f(), [lambda n=n: many(n) for n in (255, 256, 257, 512)] + [lambda k=k: crashes(k) for k in ("missing-dir", "pass-bytes", "fail-bytes")] + [lambda i=i: one(i) for i in range(ck.n(90, 1200))])
    ck.finish()


main(main_)
