import sys, os, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P03", rule="random literals (integers in decimal, octal, hex with suffixes; floats; characters; strings with every escape "
           "form, raw newlines, UTF-8 and adjacent pieces) placed as arguments, initialisers, case labels and macro values, with comments and "
           "whitespace between tokens; the bytes / value the running program sees are compared with the bytes / value the literal was made from; "
           "non-trivial: a distinct (literal class, position, escape form or suffix) combination",
           assumptions=["strings containing the C trigraph introducer ?? are not generated"])

SIMPLE = {10: "\\n", 9: "\\t", 13: "\\r", 7: "\\a", 8: "\\b", 12: "\\f", 11: "\\v", 34: '\\"', 92: "\\\\", 39: "\\'", 0: "\\0", 63: "\\?"}


def mkstring(r):
    """-> (source text, bytes, features)"""
    feats = set()
    pieces = []
    val = b""
    np = r.choice([1, 1, 1, 2, 3])
    if np > 1:
        feats.add("adjacent")
    prev = None
    for p in range(np):
        s = ""
        n = r.choice([0, 1, 2, 3, 5, 8, 20, 60])
        if n == 0:
            feats.add("emptypiece")
        last = None   # kind of the last escape: 'x' hex, 'o' short octal
        if p:
            pass
        for _ in range(n):
            k = r.random()
            if k < 0.5:
                ch = chr(r.choice([x for x in range(32, 127) if x not in (34, 92, 63)]))
                if last == "x" and ch in "0123456789abcdefABCDEF":
                    ch = "g"
                if last == "o" and ch in "01234567":
                    ch = "8"
                s += ch
                val += ch.encode()
                last = None
                if ch in "/*'%#":
                    feats.add("char" + ch)
            elif k < 0.65:
                c = r.choice([x for x in SIMPLE if x not in (0, 63)])
                s += SIMPLE[c]
                val += bytes([c])
                feats.add("esc" + SIMPLE[c])
                last = None
            elif k < 0.73:
                c = r.randrange(1, 256)
                s += "\\x%02x" % c if r.random() < .5 else "\\x%X" % c
                val += bytes([c])
                feats.add("hexesc")
                last = "x"
            elif k < 0.81:
                c = r.randrange(0, 256)
                if r.random() < 0.5:
                    s += "\\%03o" % c
                    last = None
                else:
                    s += "\\%o" % c
                    last = "o" if len("%o" % c) < 3 else None
                val += bytes([c])
                feats.add("octesc")
            elif k < 0.87:
                c = r.choice("éß→漢😀")
                s += c
                val += c.encode()
                feats.add("utf8")
                last = None
            elif k < 0.92:
                s += "\n"
                val += b"\n"
                feats.add("rawnewline")
                last = None
            elif k < 0.96:
                t = "//" if last == "x" else r.choice(["//", "/* x */", "#import", "calloc!", "panic(", "{", "}", ";", "*/", "--", "%s"])
                s += t
                val += t.encode()
                feats.add("code:" + t)
                last = None
            else:
                s += "?" if not s.endswith("?") else "."
                val += b"?" if s.endswith("?") else b"."
                last = None
        if prev in ("x", "o") and s:
            if (prev == "x" and s[0] in "0123456789abcdefABCDEF") or (prev == "o" and s[0] in "01234567"):
                feats.add("split-" + prev)
        if s:
            prev = last
        if pieces and s[:1] == "?" and pieces[-1][-2:-1] == "?":
            s = s[1:]
            val = val[:-1] if False else val
            return mkstring(r)
        pieces.append('"' + s + '"')
    src = pieces[0]
    for p in pieces[1:]:
        src += r.choice([" ", "", "\n", "\t\n  "]) + p
    if "??" in src:
        return mkstring(r)
    return src, val, feats


def mkint(r):
    bits = r.choice([1, 3, 7, 8, 15, 16, 31, 32, 33, 62, 63])
    v = r.randrange(0, 1 << bits)
    k = r.random()
    if k < 0.5:
        t, f = str(v), "dec"
    elif k < 0.85:
        t, f = r.choice(["0x%x", "0x%X", "0x%08x"]) % v, "hex"
        if "X" in t[1:2]:
            t = "0x" + t[2:]
    else:
        t, f = "0%o" % v, "oct"
    suf = r.choice(["", "", "", "U", "L", "UL", "ULL", "LL", "LU"])
    if suf == "U" and v > 0xffffffff:
        suf = "UL"
    return t + suf, v, {f + suf}


def mkfloat(r):
    m = r.choice(["%d.%d" % (r.randrange(1000), r.randrange(100000)), "%d." % r.randrange(1, 100), "%d" % r.randrange(1, 1000), "0.%d" % r.randrange(1000)])
    e = r.choice(["", "e%d", "E%d", "e-%d", "E-%d"])
    if "%" in e:
        e = e % r.randrange(0, 30)
    elif "." not in m:
        e = "e3"
    suf = "f" if "." in m and r.random() < 0.2 else ""
    v = float(m + e)
    if suf:
        v = struct.unpack("f", struct.pack("f", v))[0]
    return m + e + suf, v, {"flt" + (e[:2] if e[1:2] == "-" else e[:1]) + suf + ("." if m.endswith(".") else "")}


def mkchar(r):
    if r.random() < 0.6:
        c = r.choice([x for x in range(32, 127) if x not in (39, 92)])
        return "'%s'" % chr(c), c, {"ch" + ("q" if chr(c) in "\"/*#" else "")}
    c = r.choice(list(SIMPLE))
    return "'%s'" % SIMPLE[c], c, {"ch" + SIMPLE[c]}


def ws(r):
    return r.choice([" ", " ", " ", "\n", "\t", " /* c */ ", " // it's \"x\n", "/* 'a\n\n * b */", "\r\n", " /**/ ", "/* // */"])


def one(idx):
    if len(ck.violations) >= 10:
        return
    r = ck.rng("p", idx)
    items = []
    defs, mods, fns, calls = [], [], [], []
    N = 60
    for n in range(N):
        k = r.choice("ssssiiifc")
        t, v, feats = {"s": mkstring, "i": mkint, "f": mkfloat, "c": mkchar}[k](r)
        if k == "s":
            want = "%d s %d %s" % (n, len(v), v.hex())
        elif k == "i":
            want = "%d i %d" % (n, v & 0xffffffffffffffff)
        elif k == "f":
            want = "%d f %s" % (n, struct.pack(">d", v).hex())
        else:
            want = "%d i %d" % (n, v)
        pos = r.choice(["arg", "arg", "mod", "local", "def", "ret", "case"])
        w = lambda: ws(r)
        if pos == "case" and (k not in "ic" or v > 0x7fffffff or "L" in t):
            pos = "arg"
        if pos == "def" and ("\n" in t or k == "f" and t.endswith("f")):
            pos = "local"
        if pos == "ret" and k != "s":
            pos = "arg"
        if pos == "mod" and k == "s" and False:
            pos = "arg"
        pf = {"s": "ps", "i": "pu", "f": "pf", "c": "pu"}[k]
        ty = {"s": "char", "i": "uint64_t", "f": "double", "c": "char"}[k]
        if pos == "arg":
            a = t if k != "s" else t + ", sizeof(" + t + ")"
            calls.append("%s%s(%d,%s%s%s)%s;" % (w(), pf, n, w(), a, w(), w()))
        elif pos == "mod":
            if k == "s":
                mods.append("%s%schar%s m%d[]%s=%s%s%s;" % (r.choice(["", "const "]), "", w(), n, w(), w(), t, w()))
                calls.append("ps(%d, m%d, sizeof(m%d));" % (n, n, n))
            else:
                mods.append("%s%sm%d%s=%s%s%s;" % (ty, w(), n, w(), w(), t, w()))
                calls.append("%s(%d, m%d);" % (pf, n, n))
        elif pos == "local":
            if k == "s":
                fns.append("void t%d() {%schar l[]%s=%s%s;%sps(%d, l, sizeof(l)); }" % (n, w(), w(), w(), t, w(), n))
            else:
                fns.append("void t%d() {%s%s%sl[] =%s{%s%s%s};%s%s(%d, l[0]); }" % (n, w(), ty, w(), w(), w(), t, w(), w(), pf, n))
            calls.append("t%d();" % n)
        elif pos == "def":
            defs.append("#define D%d %s" % (n, t))
            calls.append("%s(%d, D%d%s);" % (pf, n, n, "" if k != "s" else ", sizeof(D%d)" % n))
        elif pos == "ret":
            fns.append("const char *t%d() {%sreturn%s%s%s;%s}" % (n, w(), " ", t, w(), w()))
            calls.append("ps(%d, t%d(), %d);" % (n, n, len(v) + 1))
        elif pos == "case":
            fns.append("void t%d(int q) {%sswitch (q)%s{%scase%s%s%s:%s{ pu(%d, q); }%sdefault: { pu(%d, 999999); } } }" % (n, w(), w(), w(), " ", t, w(), w(), n, w(), n))
            calls.append("t%d(%d);" % (n, v))
        items.append((t, want, {"%s/%s" % (pos, f) for f in feats} or {pos + "/plain"}))
    pre = r'''
void ps(int n, const char *s, size_t z) {
	printf("%d s %zu ", n, z - 1);
	for (size_t i = 0; i < z - 1; i++) { printf("%02x", (uint8_t) s[i]); }
	printf("\n");
}
void pu(int n, uint64_t v) { printf("%d i %lu\n", n, v); }
void pf(int n, double v) {
	uint64_t u = 0;
	memcpy(&u, &v, 8);
	printf("%d f %016lx\n", n, u);
}
'''
    src = "\n".join(defs) + "\n" + pre + "\n".join(mods) + "\n" + "\n".join(fns) + "\nint main() {\n\tpu(-1, 0); pf(-1, 0); ps(-1, \"\", 1);\n" + "\n".join(calls) + "\nreturn 0;\n}\n"
    sp = ck.write("q%d/p.c" % idx, src)
    D = os.path.dirname(sp)
    b = ck.che_build(sp, D + "/out", "plain")
    if b.rc != 0 or not os.path.exists(D + "/out"):
        ck.saw()
        ck.violation("rejected:%d" % idx, "a program of valid literals is rejected: " + (b.etext + b.text)[-500:], src)
        return
    o = run([D + "/out"], timeout=60, cpu=60)
    got = {}
    for ln in o.text.split("\n"):
        got[ln.split(" ")[0]] = ln
    for n, (t, want, feats) in enumerate(items):
        ck.saw()
        with ck.lock:
            ck.distinct |= feats
        if got.get(str(n)) != want:
            ck.violation("literal:" + t[:200], "literal %r: expected %r, got %r" % (t, want, got.get(str(n))), {"literal": t, "expected": want, "got": got.get(str(n)), "program": src})
    ck.count("programs")
    ck.sample({"literal": items[0][0], "observed": items[0][1]})
    shutil.rmtree(D, ignore_errors=True)


def main_():
    ck.build_che()
    ck.pmap(one, range(ck.n(120, 1500)))
    ck.finish()


main(main_)
