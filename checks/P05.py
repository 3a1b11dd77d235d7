"""P05: modules - isolation, privacy, one instance per module, cross-module
references, import forms, loops."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *
from modgen import *

ck = Check("P05", rule="a distinct module-graph feature (edge form, directory relation, shared dependency, kind of cross-module reference, kind of breach) whose effect was observed",
           assumptions=["#define constants are textual and visible to importers by design; they are not part of the isolation claim",
                        "gcc's c99 driver implements C99"])

def build(P, D, r, out="out", cmd="build"):
    main = P.path(P.mods[0], P.home)
    cwd = r.choice([D, P.root, os.path.dirname(main), os.path.join(P.root, "c")])
    form = r.choice(["abs", "rel", "dotrel"])
    mp = main if form == "abs" else os.path.relpath(main, cwd)
    if form == "dotrel":
        mp = "./" + mp
    hf = r.choice(["abs", "rel", "slash", "dot"])
    h = P.home if hf == "abs" else P.home + "/" if hf == "slash" else os.path.relpath(P.home, cwd)
    if hf == "dot":
        cwd = P.home
        mp = os.path.relpath(main, cwd) if form != "abs" else main
        h = "."
    o = os.path.join(D, out)
    P.feats |= {"main/" + form, "home/" + hf}
    return run([ck.che, cmd, mp] + ([o] if cmd == "build" else []), env=ck.che_env("strict", h), cwd=cwd, timeout=120, cpu=120), o


def decoys(P, D, r):
    """Broken files named like modules where no import points to: nothing may read them."""
    dirs = {D, P.home, P.root, P.home + "/lib", P.home + "/lib/sub"} | {os.path.dirname(P.path(m, P.home)) for m in P.live} | {os.path.join(P.root, "c")}
    for d in sorted(dirs):
        if not os.path.isdir(d):
            continue
        for m in P.live:
            for rel in (m.base + ".c", os.path.join(m.dir, m.base + ".c"), "lib/" + m.base + ".c"):
                p = os.path.join(d, rel)
                if r.random() < .5 and os.path.isdir(os.path.dirname(p)) and not os.path.exists(p):
                    with open(p, "w") as f:
                        f.write("pub int decoy() {\n\treturn nosuchfunction();\n}\n")
                    P.feats.add("decoy")


def positive(idx):
    if len(ck.violations) >= 8:
        return
    r = ck.rng("pos", idx)
    P = Project(r)
    D = os.path.join(ck.scratch, "p%d" % idx)
    os.makedirs(D)
    layout(P, D)
    decoys(P, D, r)
    b, o = build(P, D, r)
    ck.count("projects")
    if b.rc != 0 or not os.path.exists(o):
        ck.saw()
        ck.violation("rejected:%d" % idx, "a valid project of %d modules is rejected: %s" % (len(P.live), (b.etext[-400:] + b.text[-600:])), dump(P))
        return
    w = run([o], timeout=30, cpu=30)
    got = w.text.split("\n")[:-1]
    exp = [str(x) for x in P.exp]
    ck.saw(None, len(exp))
    with ck.lock:
        ck.distinct |= P.feats
    if got != exp or w.rc != 0:
        n = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
        ck.violation("value:%d" % idx, "observation %d: expected %s, got %s (exit %s)" % (n, exp[n:n + 1], got[n:n + 1], w.rc), dump(P))
    else:
        ck.sample({"modules": [("lib:" if m.lib else "") + (m.dir + "/" if m.dir else "") + m.base for m in P.live], "observations": len(exp)})
    shutil.rmtree(D, ignore_errors=True)


BREACH = ["helper", "state", "KA", "priv_t", "nosuch", "priv_fnarg", "transitive", "transitive_type", "loop", "selfloop", "missing", "missinglib", "unimported", "privconst_case",
          "bare_pub", "bare_const", "bare_type"]


def negative(idx):
    if len(ck.violations) >= 8:
        return
    r = ck.rng("neg", idx)
    P = Project(r)
    D = os.path.join(ck.scratch, "n%d" % idx)
    os.makedirs(D)
    layout(P, D)
    kind = BREACH[idx % len(BREACH)]
    ms = [m for m in P.live if m.imps]
    m = r.choice(ms)
    o = r.choice(m.imps)
    p = P.path(m, P.home)
    s = P.src[m.i]
    add = None
    if kind == "helper":
        add = "pub int zz() {\n\treturn %s.helper(1);\n}\n" % o.base
    elif kind == "state":
        add = "pub int zz() {\n\treturn %s.state;\n}\n" % o.base
    elif kind == "KA":
        add = "pub int zz() {\n\treturn %s.KA;\n}\n" % o.base
    elif kind == "priv_t":
        add = "pub int zz() {\n\t%s.priv_t a = {};\n\treturn a.k;\n}\n" % o.base
    elif kind == "nosuch":
        add = "pub int zz() {\n\treturn %s.nosuch(1);\n}\n" % o.base
    elif kind == "priv_fnarg":
        add = "pub int zz() {\n\treturn app(%s.helper, 1);\n}\n" % o.base
    elif kind == "privconst_case":
        add = "pub int zz(int x) {\n\tswitch (x) {\n\tcase %s.KA: { return 2; }\n\tdefault: {}\n\t}\n\treturn 1;\n}\n" % o.base
    elif kind == "bare_pub":
        # a public name of the imported module, unqualified, and not defined here
        with open(P.path(o, P.home), "a") as f:
            f.write("\npub int onlyhere() {\n\treturn 1;\n}\n")
        add = "pub int zz() {\n\treturn onlyhere();\n}\n"
    elif kind == "bare_const":
        with open(P.path(o, P.home), "a") as f:
            f.write("\npub enum { ONLYHERE }\n")
        add = "pub int zz() {\n\treturn ONLYHERE;\n}\n"
    elif kind == "bare_type":
        with open(P.path(o, P.home), "a") as f:
            f.write("\npub typedef { int a; } onlyhere_t;\n")
        add = "pub int zz() {\n\tonlyhere_t x = {};\n\treturn x.a;\n}\n"
    elif kind in ("transitive", "transitive_type"):
        # a module imported by an imported module is not visible
        tr = [q for m2 in ms for o2 in m2.imps for q in o2.imps if q not in m2.imps and not any(q.base == z.base for z in m2.imps) and q.base != m2.base]
        ok = [(m2, q) for m2 in ms for o2 in m2.imps for q in o2.imps if not any(q.base == z.base for z in m2.imps)]
        if not ok:
            shutil.rmtree(D, ignore_errors=True)
            return
        m, q = r.choice(ok)
        p, s = P.path(m, P.home), P.src[m.i]
        add = "pub int zz() {\n\treturn %s.get(1);\n}\n" % q.base if kind == "transitive" else "pub int zz() {\n\t%s.t v = {};\n\treturn v.a;\n}\n" % q.base
    elif kind == "unimported":
        add = "pub int zz() {\n\treturn zzz.get(1);\n}\n"
    elif kind in ("loop", "selfloop"):
        def reach(a):
            out = [a]
            for x in a.imps:
                out += reach(x)
            return out
        tgt = m if kind == "selfloop" else r.choice([x for x in reach(o)])
        # tgt imports m back
        src = P.path(tgt, P.home)
        if m.lib and (not tgt.lib or r.random() < .5):
            t = (m.dir + "/" if m.dir else "") + m.base
        elif tgt.lib and not m.lib:
            # a lib module reaching out of the lib directory by a relative path
            t = os.path.relpath(p, os.path.dirname(src))
        else:
            t = os.path.relpath(p, os.path.dirname(src))
        if r.random() < .3 and t.endswith(".c") and tgt.dir:
            t = "../" + tgt.dir.split("/")[-1] + "/" + t
        x = P.src[tgt.i]
        with open(src, "w") as f:
            f.write("#import %s\n" % t + x + "\npub int zz() {\n\treturn %s.get(1);\n}\n" % m.base)
        P.src[tgt.i] = open(src).read()
    elif kind == "missing":
        s = "#import nosuchfile.c\n" + s
        add = "pub int zz() {\n\treturn nosuchfile.get(1);\n}\n"
    elif kind == "missinglib":
        s = "#import nosuchlib\n" + s
        add = "pub int zz() {\n\treturn nosuchlib.get(1);\n}\n"
    if add:
        # anywhere at the top level: at the start (after imports) or the end
        with open(p, "w") as f:
            f.write(s + "\n" + add)
        P.src[m.i] = s + "\n" + add
    b, out = build(P, D, r)
    ck.saw("breach/" + kind)
    ck.count("breaches")
    if b.timeout:
        ck.violation("breach-hang:%s" % kind, "the translator did not finish on a %s breach" % kind, dump(P))
    elif b.rc == 0 or os.path.exists(out):
        ck.violation("breach:%s" % kind, "module %s breaches isolation (%s) and was accepted (exit %s)" % (m.base, kind, b.rc), dump(P))
    elif kind in ("loop", "selfloop") and "import loop" not in b.etext + b.text:
        ck.violation("breach-diag:%s" % kind, "an import loop is not reported as one: %r" % b.etext[-300:], dump(P))
    elif not (b.etext + b.text).strip():
        ck.violation("breach-silent:%s" % kind, "rejected without any diagnostic", dump(P))
    shutil.rmtree(D, ignore_errors=True)


def main_():
    ck.build_che()
    ck.pmap(positive, range(ck.n(220, 3000)))
    ck.pmap(negative, range(ck.n(len(BREACH) * 9, len(BREACH) * 100)))
    ck.finish()


main(main_)
