"""P06: ill-formed programs are rejected: non-zero exit, a diagnostic that
names the offending file (and line), no executable - wherever in a program the
mistake sits."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P06", rule="a distinct (kind of mistake, place in the program) pair that was rejected properly",
           assumptions=["gcc's c99 driver with the flags che passes implements C99 constraints"])

# kind: (text, che) - che: the translator itself reports it with a position inside the text
S = {  # statements
    "undef-var": ("i = nosuch;", 1), "undef-fn": ("nosuch(1);", 1), "undef-in-arg": ("f2(1, nosuch);", 1), "undef-in-index": ("i = arr[nosuch];", 1),
    "undef-in-cond": ("if (nosuch) { i++; }", 1), "undef-in-while": ("while (nosuch) { i++; }", 1), "undef-in-for": ("for (i = 0; i < nosuch; i++) {}", 1),
    "undef-in-ret": ("if (i > 3) { return nosuch; }", 1), "undef-in-else": ("if (i > 3) { i++; } else { i = nosuch; }", 1),
    "undef-in-case": ("switch (i) { case 1: { i = nosuch; } default: {} }", 1), "undef-in-default": ("switch (i) { case 1: {} default: { i = nosuch; } }", 1),
    "undef-case-value": ("switch (i) { case NOSUCH: {} default: {} }", 1), "undef-str-case": ("switch str (p) { case \"a\": { i = nosuch; } default: {} }", 1),
    "undef-str-default": ("switch str (p) { case \"a\": {} default: { i = nosuch; } }", 1), "undef-str-subject": ("switch str (nosuch) { case \"a\": {} default: {} }", 1),
    "undef-init": ("int q1 = nosuch; i = q1;", 1), "undef-complit": ("st q1 = { .a = nosuch }; i = q1.a;", 1), "undef-sizeof": ("i = (int) sizeof(nosuch);", 1),
    "undef-panic": ("if (i > 100) { panic(\"%d\", nosuch); }", 1), "undef-nested": ("i = f2(f2(1, 2 + nosuch), 3);", 1), "undef-ns": ("i = nosuch.f(1);", 1),
    "undef-type": ("nosuch_t *q1 = NULL; i = q1 == NULL;", 0), "undef-ns-fn": ("i = helper.nosuch(1);", 1), "private-fn": ("i = helper.hidden(1);", 1),
    "private-const": ("i = helper.HID;", 1), "private-type": ("helper.hid_t q1 = {}; i = q1.a;", 1), "type-as-value": ("i = helper.pt;", 1),
    "unused-local": ("int q1 = 1;", 1), "unused-local-nested": ("if (i > 2) { int q1 = 1; }", 1), "unused-local-else": ("if (i > 2) { i++; } else { int q1 = 1; }", 1),
    "unused-local-loop": ("while (i > 2) { int q1 = 1; i--; }", 1), "unused-for-var": ("for (int q1 = 0; i < 3; i++) {}", 1),
    "unused-in-case": ("switch (i) { case 1: { int q1 = 2; } default: {} }", 1), "unused-in-default": ("switch (i) { case 1: {} default: { int q1 = 2; } }", 1),
    "unused-str-case": ("switch str (p) { case \"x\": { int q1 = 2; } default: {} }", 1), "unused-array": ("int q1[10] = {};", 1), "unused-shadow": ("int q1 = 1; if (q1) { int q1 = 2; }", 1), "unused-shadow-deep": ("if (i) { int q1 = 1; if (q1) { int q1 = 2; } }", 1), "unused-shadowed": ("int q1 = 1; if (i) { int q1 = 2; i = q1; }", 1),
    "unused-shadowed-deep": ("while (i) { if (i) { int q1 = 1; for (int q1 = 0; q1 < i; q1++) { i--; } } }", 1), "unused-shadow-case": ("while (i) { int q1 = i; switch (q1) { case 1: { int q1 = 2; } default: { i = q1; } } }", 1),
    "unused-between": ("int q1 = i; if (q1) { int q1 = 2; if (i) { int q1 = 3; i = q1; } }", 1),
    "scope-if": ("if (i) { int q1 = 1; i = q1; } i = q1;", 1), "scope-for": ("for (int q1 = 0; q1 < 3; q1++) {} i = q1;", 1), "scope-else": ("if (i) { int q1 = 1; i = q1; } else { i = q1; }", 1),
    "scope-case": ("switch (i) { case 1: { int q1 = 1; i = q1; } default: { i = q1; } }", 1), "use-before": ("i = q1; int q1 = 2; i = q1;", 1),
    "redeclared": ("int q1 = 1; i = q1; int q1 = 2; i = q1;", 1), "few-args": ("i = f2(1);", 1), "no-args": ("i = f2();", 1), "many-args": ("i = f2(1, 2, 3);", 1), "few-args-var": ("i = fv();", 1),
    "few-args-ns": ("i = helper.shown();", 1), "many-args-ns": ("i = helper.shown(1, 2);", 1), "many-args-fp": ("i = fp(1, 2, 3);", 1), "few-args-libc": ("i = (int) strlen();", 1),
    "call-int": ("i = i(1);", 1), "call-ptr": ("i = p(1);", 1), "deref-int": ("i = *i;", 1), "mix-plus": ("i = i + u;", 1), "mix-minus": ("i = u - i;", 1), "mix-cmp": ("if (i < u) { i++; }", 1),
    "cmp-ptr-int": ("if (p == i) { i++; }", 1), "bool-arith": ("i = (i < 2) * (i < 3);", 1), "struct-arith": ("i = s + 1;", 1), "struct-cmp": ("if (s == s) { i++; }", 1), "ptr-mul": ("i = p * 2;", 1),
    "ptr-plus-ptr": ("p = p + p;", 1), "float-cond": ("while (d) { d = 0; }", 0), "float-and": ("if (d && i) { i++; }", 1), "struct-and": ("if (s || i) { i++; }", 1), "assign-as-bool": ("if ((i = 2) && i) { i++; }", 1),
    "struct-cond": ("while (s) { i++; }", 0), "for-float-cond": ("for (;d;) { d = 0; }", 0),
    "bad-field": ("i = s.nosuch;", 0), "bad-field-ptr": ("i = ps->nosuch;", 0), "dot-on-ptr": ("i = ps.a;", 0), "arrow-on-struct": ("i = s->a;", 0), "assign-const": ("ci = 2;", 0), "assign-literal": ("1 = i;", 0),
    "assign-call": ("f2(1, 2) = i;", 0), "incr-literal": ("3++;", 0), "addr-literal": ("p = &3;", 0), "ptr-to-int": ("i = p;", 0), "int-to-ptr": ("p = i;", 0), "wrong-ptr": ("ps = p;", 0), "struct-to-int": ("i = s;", 0),
    "dup-case": ("switch (i) { case 1: {} case 1: {} default: {} }", 0), "dup-case-list": ("switch (i) { case 1, 1: {} default: {} }", 0), "switch-struct": ("switch (s) { case 1: {} default: {} }", 0),
    "float-mod": ("d = d % 2.0;", 0), "float-bit": ("d = d & 2.0;", 0), "bad-designator": ("st q1 = { .nosuch = 1 }; i = q1.a;", 0), "excess-init": ("int q1[2] = { 1, 2, 3 }; i = q1[0];", 0),
    "format-mismatch": ("printf(\"%s\\n\", i);", 0), "no-semi": ("i = 1 i = 2;", 1), "unbalanced": ("i = (i + 1;", 1), "bad-expr": ("i = 1 + ;", 1), "bad-expr2": ("i = * ;", 1), "empty-index": ("i = arr[];", 1),
    "bad-cond": ("if () { i++; }", 0), "bad-while": ("while () { i++; }", 0), "no-paren-if": ("if i { i++; }", 0), "else-alone": ("i++; else { i++; }", 0), "case-alone": ("case 1: { i++; }", 0), "ternary": ("i = i ? 1 : 2;", 1),
    "do-while": ("do { i++; } while (i < 3);", 0), "goto": ("goto out;", 1), "comma-op": ("i = 1, 2;", 1), "decl-noname": ("int = 3;", 1), "missing-for-part": ("for (i = 0; i < 3) { i++; }", 0), "char-long": ("i = 'ab';", 0),
    "char-empty": ("i = '';", 0), "bad-number": ("i = 12abc;", 0), "bad-char": ("i = 3 @ 4;", 0), "not-op": ("i = i ~ 3;", 1), "bad-default-order": ("switch (i) { default: {} case 1: {} }", 0), "stray-brace": ("}", 0),
    "nested-fn": ("int q1() { return 1; }", 0), "typedef-in-fn": ("typedef int q1_t;", 1), "keyword-as-name": ("int switch = 3;", 1),
}
SVOID = {  # must not appear in a switch/loop: they'd be legal there
    "break-outside": ("break;", 0), "continue-outside": ("continue;", 0),
}
T = {  # top level
    "unused-fn": ("int q1() { return 1; }", 1), "unused-fn-rec": (None, 0), "unused-var": ("int q1 = 3;", 1), "unused-enum": ("enum { Q1 }", 1), "unused-enum-one": ("enum { Q1, Q2 }\npub int q2() { return Q1; }", 1),
    "unused-param": ("pub int q1(int a, int b) { return a; }", 1), "unused-param-first": ("pub int q1(int a, int b) { return b; }", 1), "unused-param-comma": ("pub int q1(int a, b) { return a; }", 1), "unused-define": ("#define Q1 3", 1),
    "dup-fn": ("pub int f2(int a, int b) { return a + b; }", 0), "dup-var": ("int q1 = 1;\nint q1 = 2;\npub int q2() { return q1; }", 1), "dup-param": ("pub int q1(int a, int a) { return a; }", 1),
    "dup-enum": ("pub enum { Q1, Q1 }", 1), "dup-enum2": ("pub enum { Q1 }\npub enum { Q1 }", 1), "dup-var-fn": ("int f2 = 1;", 0), "dup-local-param": ("pub int q1(int a) { return a; }\npub int q1(int b) { return b; }", 1),
    "dup-type": ("typedef { int z1; } st;", 0), "pub-var": ("pub int q1 = 3;", 1), "var-noinit": ("int q1;\npub int q2() { return q1; }", 1), "var-nonconst": ("int q1 = f2(1, 2);\npub int q2() { return q1; }", 0),
    "missing-return": ("pub int q1() { }", 1), "missing-return2": ("pub int q1(int a) { if (a > 1) { puts(\"x\"); } }", 1), "missing-return-if": ("pub int q1(int a) { if (a > 1) { return 1; } }", 0),
    "missing-return-else": ("pub int q1(int a) { if (a > 1) { return 1; } else { puts(\"a\"); } }", 0), "missing-return-ptr": ("pub char *q1(int a) { a++; }", 1), "missing-return-void-ptr": ("pub void *q1(int a) { a++; }", 1),
    "missing-return-pp": ("pub void **q1(int a) { a++; }", 0), "missing-return-while": ("pub int q1(int a) { while (a > 1) { a--; } }", 1), "missing-return-for": ("pub int q1(int a) { for (;a > 1;) { a--; } }", 1),
    "missing-return-switch": ("pub int q1(int a) { switch (a) { case 1: { return 1; } default: { puts(\"x\"); } } }", 1), "missing-return-nodefault": ("pub int q1(int a) { switch (a) { case 1: { return 1; } } }", 1),
    "missing-return-case": ("pub int q1(int a) { switch (a) { case 1: { puts(\"q\"); } default: { return 1; } } }", 1), "missing-return-struct": ("pub st q1(int a) { a++; }", 1),
    "missing-return-expr": ("pub int q1(int a) { a * 2; }", 0), "return-in-void": ("pub void q1() { return 3; }", 0), "return-nothing": ("pub int q1() { return; }", 0), "return-struct-int": ("pub int q1() { st x = {}; return x; }", 0),
    "undef-type-field": ("typedef { nosuch_t a; } q1_t;\npub int q2(q1_t *x) { return x == NULL; }", 1), "undef-type-param": ("pub int q1(nosuch_t a) { return 1; }", 1), "undef-type-ret": ("pub nosuch_t q1() { return 1; }", 1),
    "undef-type-alias": ("pub typedef nosuch_t q1_t;", 1), "undef-type-var": ("nosuch_t q1 = {};", 1), "undef-type-fn": ("pub typedef int q1_t(nosuch_t);", 1), "undef-size": ("pub typedef { int a[NOSUCH]; } q1_t;", 1), "undef-enum-val": ("pub enum { Q1 = NOSUCH }", 1),
    "undef-var-init": ("int q1[] = { 1, NOSUCH };\npub int q2() { return q1[0]; }", 1), "undef-cast": ("pub void *q1(void *p) { return (nosuch_t *) p; }", 1), "undef-ns-type": ("pub int q1(helper.nosuch_t *a) { return a == NULL; }", 1),
    "dup-field": ("pub typedef { int a; int a; } q1_t;", 0), "self-field": ("pub typedef { q1_t a; } q1_t;", 0), "unused-import": ("#import unusedmod.c", 0), "statement-top": ("i = 3;", 1), "if-top": ("if (1) { }", 1), "expr-top": ("1 + 2;", 1),
    "no-semi-typedef": ("typedef { int a; } q1_t", 0), "no-semi-var": ("int q1 = 3\npub int q2() { return q1; }", 1), "unclosed-fn": ("pub int q1() { return 1;", 0), "unclosed-paren": ("pub int q1( { return 1; }", 1), "unclosed-string": ("const char *q1 = \"abc;", 0),
    "unclosed-comment": ("/* abc", 0), "unclosed-enum": ("pub enum { A1, A2", 0), "empty-enum": ("pub enum { }", 1), "typedef-struct-body": ("typedef struct { int a; } q1_t;", 1), "noparam-name": ("pub int q1(int) { return 1; }", 1),
    "proto": ("int q1(int a);", 1), "static": ("static int q1() { return 1; }", 1), "array-ret": ("pub int q1()[3] { return 1; }", 1), "two-vars": ("int q1 = 1, q2 = 2;", 1), "bad-import": ("#import nosuchmod.c", 0), "bad-libimport": ("#import nosuchmod", 0),
    "unsupported-long": ("long q1 = 1;\npub int q2() { return (int) q1; }", 1), "bad-array-size": ("pub typedef int q1_t[x];", 1), "neg-array": ("int q1[-1] = {};\npub int q2() { return q1[0]; }", 0),
}
del T["unused-fn-rec"]

# the same mistakes far from each other, or in one of many alternatives
FAR = " ".join("int w%d = i; i = w%d;" % (k, k) for k in range(40))
S["redeclared-far"] = ("int q1 = 1; i = q1; %s int q1 = 2; i = q1;" % FAR, 1)
S["unused-far"] = ("int q1 = 1; %s" % FAR, 1)
S["use-before-far"] = ("i = q1; %s int q1 = 2; i = q1;" % FAR, 1)
for _k in range(5):
    S["undef-case-%d" % _k] = ("switch (i) { %s default: {} }" % " ".join("case %d: { i = %s; }" % (c + 1, "nosuch" if c == _k else "2") for c in range(5)), 1)
    S["undef-str-case-%d" % _k] = ("switch str (p) { %s default: {} }" % " ".join("case \"%d\": { i = %s; }" % (c + 1, "nosuch" if c == _k else "2") for c in range(5)), 1)
    S["unused-case-%d" % _k] = ("switch (i) { %s default: {} }" % " ".join("case %d: { %s }" % (c + 1, "int q1 = i;" if c == _k else "i = 2;") for c in range(5)), 1)
    S["undef-case-value-%d" % _k] = ("switch (i) { case %s: {} default: {} }" % ", ".join("NOSUCH" if c == _k else str(c + 1) for c in range(5)), 1)
    S["undef-str-value-%d" % _k] = ("switch str (p) { case %s: {} default: {} }" % ", ".join("NOSUCH" if c == _k else '"%d"' % c for c in range(5)), 1)
    S["undef-arg-%d" % _k] = ("printf(\"%%d%%d%%d%%d%%d\", %s);" % ", ".join("nosuch" if c == _k else "1" for c in range(5)), 1)
    S["undef-elseif-%d" % _k] = ("if (i == 99) { i = 0; } " + " ".join("else if (i == %d) { i = %s; }" % (c, "nosuch" if c == _k else "2") for c in range(5)), 1)
    S["undef-elseif-cond-%d" % _k] = ("if (i == 99) { i = 0; } " + " ".join("else if (i == %s) { i = 1; }" % ("nosuch" if c == _k else c) for c in range(5)), 1)
    S["undef-init-list-%d" % _k] = ("int q1[] = { %s }; i = q1[0];" % ", ".join("nosuch" if c == _k else "1" for c in range(5)), 1)
    T["missing-return-case-%d" % _k] = ("pub int q1(int a) { switch (a) { %s default: { return 1; } } }" % " ".join("case %d: { %s }" % (c, "puts(\"a\");" if c == _k else "return 2;") for c in range(5)), 1)
    T["missing-return-break-%d" % _k] = ("pub int q1(int a) { switch (a) { %s default: { return 1; } } }" % " ".join("case %d: { %s }" % (c, "break;" if c == _k else "return 2;") for c in range(5)), 1)
    T["unused-param-%d" % _k] = ("pub int q1(int a0, a1, a2, a3, a4) { return %s; }" % " + ".join("a%d" % c for c in range(5) if c != _k), 1)
    T["unused-enum-%d" % _k] = ("enum { Q0, Q1, Q2, Q3, Q4 }\npub int q1() { return %s; }" % " + ".join("Q%d" % c for c in range(5) if c != _k), 1)
    T["dup-param-%d" % _k] = ("pub int q1(int a, %sint a) { return a%s; }" % ("".join("int b%d, " % c for c in range(_k * 3)), "".join(" + b%d" % c for c in range(_k * 3))), 1)
    T["dup-enum-%d" % _k] = ("pub enum { Q1, %sQ1 }" % "".join("R%d, " % c for c in range(_k * 5)), 1)
    T["dup-fn-%d" % _k] = ("pub int q1() { return 1; }\n%spub int q1() { return 1; }" % "".join("pub int r%d() { return 1; }\n" % c for c in range(_k * 5)), 1)
    T["undef-enum-val-%d" % _k] = ("pub enum { %s }" % ", ".join("Q%d = %s" % (c, "NOSUCH" if c == _k else c) for c in range(5)), 1)
    T["undef-field-type-%d" % _k] = ("pub typedef { %s } q1_t;" % " ".join("%s a%d;" % ("nosuch_t" if c == _k else "int", c) for c in range(5)), 1)
    T["undef-param-type-%d" % _k] = ("pub int q1(%s) { return %s; }" % (", ".join("%s a%d" % ("nosuch_t *" if c == _k else "int", c) for c in range(5)), " + ".join("(int) a%d" % c if c == _k else "a%d" % c for c in range(5))), 1)

HELPER = """enum { HID = 3 }
typedef { int a; } hid_t;
pub typedef { int a; } pt;
int hidden(int x) { hid_t q = { .a = x }; return q.a + HID; }
pub int shown(int x) { pt q = { .a = x }; return hidden(q.a); }
"""

NEST = {
    "plain": ("", ""), "if": ("if (i > 1) {", "}"), "else": ("if (i > 1) { i++; } else {", "}"), "elseif": ("if (i > 1) { i++; } else if (i < -3) {", "}"), "for": ("for (int k%d = 0; k%d < 3; k%d++) {", "}"), "while": ("while (i < 10) { i++;", "}"),
    "case": ("switch (i) { case 7, 8: {", "} default: { i++; } }"), "default": ("switch (i) { case 7: { i++; } default: {", "} }"), "strcase": ("switch str (p) { case \"k\", \"l\": {", "} default: { i++; } }"),
    "strdefault": ("switch str (p) { case \"k\": { i++; } default: {", "} }"), "foriver": ("for (;;) { if (i > 3) { break; } i++;", "}"),
}


def program(r, kind, place):
    """returns (source, first line, last line, where)"""
    lines = []
    body = ["st s = { .a = 1 };", "st *ps = &s;", "uint32_t u = 5;", "double d = 1.5;", "const char *p = \"x\";", "const int ci = 4;", "int arr[4] = { 1, 2, 3, 4 };", "fn_t *fp = f2;"]
    use = ["i += s.a + ps->a + ci + arr[1] + fp(1, 2) + fv(1) + fv(2, 3) + helper.shown(2);", "if (u > 3 && d > 1.0 && p) { i++; }"]
    filler = ["i++;", "i = i * 2 + 1;", "if (i > 50) { i = 0; }", "for (int z = 0; z < 3; z++) { i += z; }", "switch (i) { case 1: { i = 2; } default: {} }", "// a comment", "", "/* two\n   lines */", "puts(p);", "arr[0] = f2(i, 2);"]
    tops = ["typedef { int a; double b; } st;", "typedef int fn_t(int, int);", "int f2(int a, b) {\n\treturn a + b;\n}", "int fv(int a, ...) {\n\treturn a;\n}", "enum { ONE = 1, TWO }\npub int three() {\n\treturn ONE + TWO;\n}",
            "pub typedef { int z; } zt;", "int modvar = 3;\npub int getmod() {\n\treturn modvar;\n}"]
    r.shuffle(tops)
    # struct and function types come before their by-value use
    out = ["#import helper.c", ""] + tops
    text = None
    where = None
    nest = []
    if kind in S or kind in SVOID:
        text = (S.get(kind) or SVOID.get(kind))[0]
        depth = 0 if kind in SVOID else r.choice([0, 1, 1, 2, 3])
        choices = [n for n in NEST if n != "plain"]
        nest = [r.choice(choices) for _ in range(depth)]
        if place:
            nest = [place] + nest[1:] if place != "plain" else []
        if kind in SVOID:
            nest = [n for n in nest if n in ("if", "else", "elseif")]
    L = list(body)
    pre = [r.choice(filler) for _ in range(r.randrange(4))]
    post = [r.choice(filler) for _ in range(r.randrange(4))]
    L += pre
    mark = None
    for k, n in enumerate(nest):
        o = NEST[n][0]
        L.append(o % (k, k, k) if "%d" in o else o)
        L += [r.choice(filler) for _ in range(r.randrange(2))]
    if text is not None:
        L.append("\x01" + text)
    for n in reversed(nest):
        L += [r.choice(filler) for _ in range(r.randrange(2))]
        L.append(NEST[n][1])
    L += post + use + ["return i;"]
    fn = "pub int work(int i) {\n" + "\n".join(L) + "\n}"
    items = out[2:] + [fn]
    if r.random() < .5:
        items = out[2:]
        items.insert(r.randrange(len(items) + 1), fn)
    if kind in T:
        items.insert(r.randrange(len(items) + 1), "\x01" + T[kind][0])
    src = "#import helper.c\n\n" + "\n\n".join(items) + "\n"
    if "\x01" in src:
        a = src.index("\x01")
        first = src[:a].count("\n") + 1
        t = (S.get(kind) or SVOID.get(kind) or T.get(kind))[0]
        last = first + t.count("\n")
        src = src.replace("\x01", "")
        return src, first, last, "/".join(nest) or "top"
    return src, 0, 0, "none"


def serve(job):
    idx, kind, place, inmain = job
    if len(ck.violations) >= 12:
        return
    r = ck.rng("p", idx)
    src, first, last, where = program(r, kind, place)
    D = os.path.join(ck.scratch, "j%d" % idx)
    name = r.choice(["worker", "my-mod", "w_2"]) if not inmain else r.choice(["main", "prog-x"])
    files = {"helper.c": HELPER, "unusedmod.c": "pub int zz() { return 1; }\n"}
    if inmain:
        files[name + ".c"] = src + "\nint main() {\n\tprintf(\"%d\\n\", work(1));\n\treturn 0;\n}\n"
        mainf = name
    else:
        name = name.replace("-", "_")
        files[name + ".c"] = src
        files["start.c"] = "#import %s.c\n#import helper.c\nint main() {\n\tprintf(\"%%d\\n\", %s.work(1) + helper.shown(3));\n\treturn 0;\n}\n" % (name, name)
        mainf = "start"
    for n, t in files.items():
        ck.write("j%d/%s" % (idx, n), t)
    out = D + "/exe"
    b = ck.che_build(os.path.join(D, mainf + ".c"), out, "strict")
    diag = b.etext + b.text
    shown = "\n".join("=== %s\n%s" % kv for kv in files.items())
    if kind is None:
        ck.saw("valid/" + where)
        ck.count("controls")
        if b.rc != 0 or not os.path.exists(out):
            ck.violation("control:%d" % idx, "a well-formed program is rejected: %s" % diag[-600:], shown)
        shutil.rmtree(D, ignore_errors=True)
        return
    ck.saw("%s@%s" % (kind, where))
    ck.count("mistakes")
    bad = None
    if b.timeout or b.rc < 0:
        bad = "ended abnormally (exit %s)" % b.rc
    elif b.rc == 0:
        bad = "was accepted"
    elif b.rc != 1:
        bad = "ended with exit status %s: %s" % (b.rc, diag[-300:])
    elif os.path.exists(out):
        bad = "was rejected, but an executable was produced"
    elif kind not in ("bad-import", "bad-libimport") and "/" + name + ".c" not in diag:
        bad = "was rejected, but the diagnostic does not name the file: %s" % diag[:300]
    elif not diag.strip():
        bad = "was rejected silently"
    else:
        m = re.search(r"/%s\.c:(\d+):(\d+): (.*)" % re.escape(name), diag)
        flag = (S.get(kind) or SVOID.get(kind) or T.get(kind))[1]
        if m:
            ck.count("positions")
            if not first <= int(m.group(1)) <= last:
                if flag:
                    bad = "was reported at line %s, it is at %d..%d: %s" % (m.group(1), first, last, m.group(0)[-200:])
        elif flag:
            bad = "was not reported with a position: %s" % diag[:300]
    if bad:
        ck.violation("%s@%s" % (kind, "main" if inmain else "module"), "mistake %r at %s %s" % (kind, where, bad), "line %d\n%s" % (first, shown))
    else:
        ck.sample({"kind": kind, "where": where, "diagnostic": diag.strip().split("\n")[0][-160:]})
    shutil.rmtree(D, ignore_errors=True)


def main_():
    ck.build_che()
    jobs = []
    r = ck.rng("jobs")
    for rep in range(ck.n(1, 25)):
        for k in list(S):
            jobs.append((k, "plain"))
            for p in (list(NEST) if not ck.quick else r.sample(list(NEST), 7)):
                jobs.append((k, p))
        for k in list(SVOID) + list(T):
            for _ in range(3):
                jobs.append((k, None))
        jobs += [(None, None)] * 40
    ck.pmap(serve, [(i, k, p, r.random() < .5) for i, (k, p) in enumerate(jobs)])
    ck.finish()


main(main_)
