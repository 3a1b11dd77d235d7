import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *
from exprgen import *

ck = Check("P01", rule="expression trees (all operator pairs on both sides enumerated, then random typed trees and "
           "side-effect statements) rendered with minimal and with redundant parentheses; non-trivial: a distinct "
           "(parent operator, side, child operator) adjacency in an evaluated expression whose result was compared",
           assumptions=["gcc's evaluation of the fully parenthesised tree is the reference",
                        "expressions with undefined C behaviour are not generated"])

PRELUDE = r"""
typedef { int x, y; } inner_t;
typedef int binf_t(int, int);
typedef {
	int i;
	uint32_t u;
	double d;
	int arr[8];
	inner_t in;
	binf_t *fp;
} st;
typedef {
	union { int w; double v; } un;
	int a, b, c, d;
} kt;
"""
PRELUDE_C = r"""
#define _XOPEN_SOURCE 700
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <stddef.h>
typedef struct { int x, y; } inner_t;
typedef int binf_t(int, int);
typedef struct { int i; uint32_t u; double d; int arr[8]; inner_t in; binf_t *fp; } st;
typedef struct { union { int w; double v; } un; int a, b, c, d; } kt;
"""
BODY = r"""
kt k = {};
kt *kp = NULL;
int cur = 0;
int i = 0;
int8_t i8v = 0;
int16_t i16v = 0;
int64_t i64v = 0;
uint8_t u8v = 0;
uint16_t u16v = 0;
uint32_t u = 0;
uint64_t u64v = 0;
double d = 0;
float f = 0;
char c = 0;
bool bo = false;
int arr[8] = {};
int mat[3][4] = {};
int *pi = NULL;
int *base = NULL;
int *pj = NULL;
int **ppi = NULL;
st s = {};
st *ps = NULL;
st **pps = NULL;
void *pv = NULL;
binf_t *fp = NULL;
binf_t *fs[2] = {};
int x = 0;
int LOGN = 0;
int LOGV[64] = {};

void pint(int n, int64_t v) { printf("%d.%d i %ld\n", n, cur, v); }
void puint(int n, uint64_t v) { printf("%d.%d u %lu\n", n, cur, v); }
void pflt(int n, double v) { printf("%d.%d f %a\n", n, cur, v); }
int fadd(int a, int b) { return a + b; }
int fsub(int a, int b) { return a - b; }
int fi(int a) { return a * 3 + 1; }
st *getst() { return ps; }
int *getarr() { return arr; }
binf_t *getfn() { return fp; }
int lg(int n, int v) { LOGV[LOGN] = n; LOGN++; return v; }
void dump(int n) {
	printf("%d.%d s %d %d %d %ld %d %d %u %lu %a %a %d", n, cur, i, i8v, i16v, i64v, u8v, u16v, u, u64v, d, f, x);
	for (int q = 0; q < 8; q++) { printf(" %d", arr[q]); }
	for (int q = 0; q < 3; q++) { for (int r = 0; r < 4; r++) { printf(" %d", mat[q][r]); } }
	printf(" %d %u %a", s.i, s.u, s.d);
	for (int q = 0; q < 8; q++) { printf(" %d", s.arr[q]); }
	printf(" %d %d %ld %ld %ld", s.in.x, s.in.y, pi - base, pj - base, ppi - &pj);
	printf(" log");
	for (int q = 0; q < LOGN; q++) { printf(" %d", LOGV[q]); }
	printf(" k %d %d %d %d %d %d\n", k.a, k.b, k.c, k.d, c, bo);
}
void setvals(int n, int a, int b, int cc, int dd) {
	cur = n;
	k.a = a; k.b = b; k.c = cc; k.d = dd;
	kp = &k;
	i = a; i8v = b; i16v = cc; i64v = dd; i64v *= 1000003;
	u8v = a; u16v = b; u = cc; u64v = dd; u64v *= 77777777777;
	d = a; d /= 7; f = b; f /= 4;
	c = 'a'; c += n; bo = n % 2;
	for (int q = 0; q < 8; q++) { arr[q] = a + q * 11; s.arr[q] = b - q * 5; }
	for (int q = 0; q < 3; q++) { for (int r = 0; r < 4; r++) { mat[q][r] = cc + q * 100 + r; } }
	base = arr; pi = arr; pi += 2; pj = arr; pj += 3; ppi = &pj;
	s.i = b; s.u = cc; s.d = dd; s.d /= 3; s.in.x = dd; s.in.y = a; s.fp = fsub;
	ps = &s; pps = &ps; pv = &s; fp = fadd; fs[0] = fadd; fs[1] = fsub;
	x = 0; LOGN = 0;
}
"""


def to_c_body(t):
    import re
    t = t.replace("= {};", "= {0};")
    t = t.replace("getst()", "getst(void)").replace("getarr()", "getarr(void)").replace("getfn()", "getfn(void)")
    # module-level data is static in che
    return t


SETS = [(3, 5, 2, 1), (7, 2, 9, 4), (-6, 3, 1, 12), (100, -7, 4, 0), (1, 1, 0, 31), (123456789, -987654, 5, 3),
        (0, 8, 6, 2), (-1, 17, 30, 7)]

V = lambda n: ("var", n)
L = lambda n: ("lit", str(n))


# ---------------------------------------------------------------- typing mirror
def kty(n):
    """The checker's classes for int trees: K unknown, N constant, B bool, S signed; None: rejected."""
    k = n[0]
    if k == "var":
        return "K" if n[1].startswith("k") else "S"
    if k == "lit":
        return "N"
    if k == "pre":
        t = kty(n[2])
        if t is None:
            return None
        return "B" if n[1] == "!" else t
    if k == "cast":
        return ("U" if n[1] == "uint8_t" else "S") if kty(n[2]) else None
    a, b = kty(n[2]), kty(n[3])
    if a is None or b is None:
        return None
    op = n[1]
    if op in LOGIC:
        return "B" if a in "KBSU" and b in "KBSU" else None
    if op in CMP:
        if "K" in (a, b):
            return "B"
        if a == b or {a, b} in ({"S", "N"}, {"U", "N"}):
            return "B"
        return None
    if "K" in (a, b):
        return "K"
    if "B" in (a, b):
        return None
    if a == b:
        return a
    if {a, b} == {"S", "U"}:
        return None
    if op in "+-":
        return "N" if b == "N" else b
    return a if b == "N" else b


def envs():
    out = []
    for (a, b, c, d) in SETS:
        e = {"k.a": a, "k.b": b, "k.c": c, "k.d": d, "kp->a": a, "kp->b": b, "kp->c": c, "kp->d": d,
             "i": w32(a), "i8v": ev(("cast", "int8_t", L(b)), {}), "i16v": ev(("cast", "int16_t", L(c)), {})}
        out.append(e)
    return out


ENVS = envs()


def okmask(n):
    m = 0
    vals = []
    for q, e in enumerate(ENVS):
        try:
            vals.append(ev(n, e))
            m |= 1 << q
        except UB:
            pass
    return m, vals


def enumerated():
    """All pairs of binary operators in both groupings; prefix and cast around and inside binary operators."""
    A, B, C = V("k.a"), V("k.b"), V("k.c")
    for o1 in BIN:
        for o2 in BIN:
            yield ("bin", o1, ("bin", o2, A, B), C)
            yield ("bin", o1, A, ("bin", o2, B, C))
    for p in ["-", "~", "!"]:
        for o in BIN:
            yield ("pre", p, ("bin", o, A, B))
            yield ("bin", o, ("pre", p, A), B)
            yield ("bin", o, A, ("pre", p, B))
            for o2 in ["-", "*", "=="]:
                yield ("bin", o2, C, ("pre", p, ("bin", o, A, B)))
        for q in ["-", "~", "!"]:
            yield ("bin", "+", C, ("pre", p, ("pre", q, A)))
            yield ("pre", p, ("pre", q, A))
            yield ("pre", p, ("cast", "int8_t", ("pre", q, A)))
    for t in ["int", "uint8_t", "int8_t", "int16_t"]:
        for o in BIN:
            yield ("cast", t, ("bin", o, A, B))
            yield ("bin", o, ("cast", t, A), B)
            yield ("bin", o, A, ("cast", t, B))
            yield ("bin", o, C, ("cast", t, ("bin", "+", A, B)))
        for p in ["-", "~", "!"]:
            yield ("cast", t, ("pre", p, A))
            yield ("pre", p, ("cast", t, A))
    for o in BIN:
        for c in (0, 1, 2, 7, 31):
            yield ("bin", o, A, L(c))
            yield ("bin", o, L(c), B)


def rand_int(r, depth):
    if depth == 0 or r.random() < 0.15:
        x = r.random()
        if x < 0.6:
            return V(r.choice(["k.a", "k.b", "k.c", "k.d", "kp->a", "kp->b", "kp->c", "kp->d"]))
        if x < 0.8:
            return V(r.choice(["i", "i8v", "i16v"]))
        return L(r.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 100, 255, 1000, 65535]))
    x = r.random()
    if x < 0.12:
        return ("pre", r.choice("-~!"), rand_int(r, depth - 1))
    if x < 0.18:
        return ("cast", r.choice(["int", "uint8_t", "int8_t", "int16_t"]), rand_int(r, depth - 1))
    return ("bin", r.choice(BIN), rand_int(r, depth - 1), rand_int(r, depth - 1))


# ---------------------------------------------------------------- typed family
def fam(r, t, depth):
    """A tree of the checker's class t (S, U, F, B) that has no undefined behaviour."""
    def ix():
        return ("bin", "&", fam(r, "S", depth - 2), L(7)) if depth > 2 and r.random() < 0.5 else L(r.randrange(4))

    def nz(tt):
        base = r.choice([V("i"), V("s.i")] if tt == "S" else [V("u"), V("u8v")])
        return r.choice([
            L(r.randrange(1, 10)),
            ("bin", "|", ("bin", "&", base, L(7)), L(1)),
            ("bin", "+", ("bin", "&", base, L(7)), L(1)),
            ("bin", "*", L(r.randrange(1, 9)), ("bin", "|", ("bin", "&", base, L(6)), L(1))),
            ("bin", "/", ("bin", "|", ("bin", "&", base, L(7)), L(64)), L(r.randrange(1, 9))),
            ("bin", "%", ("bin", "|", ("bin", "&", base, L(7)), L(1)), L(100)),
            ("bin", "<<", ("bin", "|", ("bin", "&", base, L(7)), L(1)), ("bin", "&", base, L(3))),
            ("bin", ">>", ("bin", "|", ("bin", "&", base, L(7)), L(64)), L(2)),
        ])
    if t == "B":
        if depth <= 0:
            return ("bin", r.choice(CMP), V("i"), L(3))
        x = r.random()
        if x < 0.5:
            q = r.choice("SUF")
            return ("bin", r.choice(CMP), fam(r, q, depth - 1), fam(r, q, depth - 1))
        if x < 0.65:
            return ("pre", "!", r.choice([fam(r, "B", depth - 1), V("pi"), V("i"), ("pre", "*", V("pj"))]))
        if x < 0.7:
            return ("bin", r.choice(CMP), V("pi"), ("bin", "+", V("pj"), L(r.randrange(-0, 3))))
        if x < 0.75:
            return ("bin", r.choice(["==", "!=", "<", ">="]), V("c"), ("lit", r.choice(["'a'", "'b'", "'z'", "99"])))
        g = lambda: r.choice([fam(r, "B", depth - 1), V("pi"), V("bo"), V("u"), V("i"), ("call", V("fi"), (V("i"),)), V("s.i"), V("s.u")])
        return ("bin", r.choice(LOGIC), g(), g())
    if t == "S":
        if depth <= 0 or r.random() < 0.2:
            return r.choice([
                V("i"), V("i8v"), V("i16v"), V("i64v"), V("i"),
                ("fld", ".", V("s"), "i"), ("fld", "->", V("ps"), "i"),
                ("fld", ".", ("pre", "*", V("ps")), "i"),
                ("fld", "->", ("pre", "*", V("pps")), "i"),
                ("fld", ".", ("pre", "*", ("pre", "*", V("pps"))), "i"),
                ("fld", ".", ("fld", "->", V("ps"), "in"), "x"),
                ("fld", ".", ("fld", ".", V("s"), "in"), "y"),
                ("fld", "->", ("pre", "&", V("s")), "i"),
                ("fld", "->", ("idx", V("pps"), L(0)), "i"),
                ("idx", V("arr"), ix()), ("idx", V("pi"), L(r.randrange(-0, 4))),
                ("idx", ("fld", ".", V("s"), "arr"), ix()), ("idx", ("fld", "->", V("ps"), "arr"), ix()),
                ("idx", ("idx", V("mat"), L(r.randrange(3))), L(r.randrange(4))),
                ("pre", "*", V("pi")), ("pre", "*", ("pre", "*", V("ppi"))),
                ("pre", "*", ("bin", "+", V("pi"), L(r.randrange(4)))),
                ("pre", "*", ("bin", "-", V("pj"), L(r.randrange(3)))),
                ("pre", "*", ("bin", "+", L(r.randrange(4)), V("pi"))), ("idx", ("bin", "+", L(r.randrange(2)), V("pi")), L(r.randrange(3))),
                ("pre", "*", ("idx", V("ppi"), L(0))),
                ("idx", ("pre", "*", V("ppi")), L(r.randrange(3))),
                ("pre", "*", ("pre", "&", V("i"))),
                ("pre", "*", ("pre", "&", ("idx", V("arr"), ix()))),
                ("fld", "->", ("cast", "st *", V("pv")), "i"),
                ("fld", ".", ("pre", "*", ("cast", "st *", V("pv"))), "i"),
                ("idx", ("cast", "int *", V("pv")), L(0)),
                ("pre", "*", ("cast", "int *", V("pv"))),
                ("idx", ("bin", "+", V("pi"), L(1)), L(r.randrange(3))),
                ("fld", "->", ("call", V("getst"), ()), "i"),
                ("idx", ("call", V("getarr"), ()), ix()),
                ("pre", "*", ("call", V("getarr"), ())),
                ("bin", "-", ("bin", "+", V("pi"), L(3)), V("pj")),
                ("bin", "-", V("pj"), ("bin", "-", V("pi"), L(1))),
                ("bin", "-", V("pj"), V("pi")),
            ])
        x = r.random()
        if x < 0.1:
            return ("pre", r.choice("-~"), fam(r, "S", depth - 1))
        if x < 0.18:
            return ("cast", r.choice(["int", "int64_t", "int8_t", "int16_t", "int32_t"]), fam(r, r.choice("SU"), depth - 1))
        if x < 0.3:
            a = (fam(r, "S", depth - 2), fam(r, "S", depth - 2))
            return r.choice([
                ("call", V("fadd"), a), ("call", V("fp"), a), ("call", ("pre", "*", V("fp")), a),
                ("call", ("idx", V("fs"), L(r.randrange(2))), a), ("call", ("fld", ".", V("s"), "fp"), a),
                ("call", ("fld", "->", V("ps"), "fp"), a), ("call", ("call", V("getfn"), ()), a),
                ("call", V("fi"), a[:1]), ("call", ("fld", "->", ("call", V("getst"), ()), "fp"), a),
                ("call", ("pre", "*", ("idx", V("fs"), L(1))), a),
            ])
        op = r.choice(ARITH)
        if op in ("/", "%"):
            return ("bin", op, fam(r, "S", depth - 1), nz("S"))
        if op in ("<<", ">>"):
            return ("bin", op, ("cast", "int64_t", fam(r, "S", depth - 1)) if r.random() < .3 else fam(r, "S", depth - 1),
                    r.choice([L(r.randrange(8)), ("bin", "&", fam(r, "S", depth - 2), L(7))]))
        b = fam(r, "S", depth - 1) if r.random() < 0.8 else L(r.randrange(1000))
        return ("bin", op, fam(r, "S", depth - 1), b)
    if t == "U":
        if depth <= 0 or r.random() < 0.2:
            return r.choice([V("u"), V("u8v"), V("u16v"), V("u64v"), V("u"), ("fld", ".", V("s"), "u"), ("fld", "->", V("ps"), "u"),
                             ("szt", "int"), ("szt", "st"), ("szt", "void *"), ("sze", V("arr")), ("sze", ("idx", V("arr"), L(0))),
                             ("sze", ("pre", "*", V("ps"))), ("sze", V("s.arr")), ("szt", "inner_t"), ("sze", V("mat")),
                             ("fld", ".", ("pre", "*", V("ps")), "u"), ("idx", ("cast", "uint32_t *", V("pv")), L(1)),
                             ("idx", ("cast", "uint8_t *", V("pv")), L(r.randrange(4)))])
        x = r.random()
        if x < 0.1:
            return ("pre", r.choice("-~"), fam(r, "U", depth - 1))
        if x < 0.2:
            return ("cast", r.choice(["uint8_t", "uint16_t", "uint32_t", "uint64_t", "size_t"]), fam(r, r.choice("SU"), depth - 1))
        op = r.choice(ARITH)
        if op in ("/", "%"):
            return ("bin", op, fam(r, "U", depth - 1), nz("U"))
        if op in ("<<", ">>"):
            return ("bin", op, fam(r, "U", depth - 1), r.choice([L(r.randrange(8)), ("bin", "&", fam(r, "U", depth - 2), L(7))]))
        b = fam(r, "U", depth - 1) if r.random() < 0.8 else L(r.randrange(1000))
        return ("bin", op, fam(r, "U", depth - 1), b)
    # F
    if depth <= 0 or r.random() < 0.2:
        return r.choice([V("d"), V("f"), ("fld", ".", V("s"), "d"), ("fld", "->", V("ps"), "d"), ("cast", "double", V("i")),
                         ("cast", "float", V("u8v"))])
    if r.random() < 0.15:
        return r.choice([("pre", "-", fam(r, "F", depth - 1)), ("cast", "double", fam(r, "S", depth - 1)), ("cast", "float", fam(r, "F", depth - 1))])
    op = r.choice("+-*/")
    if op == "/":
        return ("bin", "/", fam(r, "F", depth - 1), r.choice([("lit", "2.5"), ("lit", "3.0"), ("bin", "*", ("lit", "1.5"), ("lit", "7.25")),
                                                           ("bin", "/", ("lit", "9.5"), ("lit", "7.25")), ("bin", "-", ("lit", "9.5"), ("lit", "7.25"))]))
    b = fam(r, "F", depth - 1)
    if op == "*" and r.random() < 0.3:
        b = fam(r, "S", depth - 1)
    return ("bin", op, fam(r, "F", depth - 1), b)


LVALS = [V("i"), ("idx", V("arr"), L(5)), ("fld", ".", V("s"), "i"), ("fld", "->", V("ps"), "i"), ("pre", "*", V("pi")),
         ("idx", V("pi"), L(1)), ("fld", ".", ("pre", "*", V("ps")), "i"), ("pre", "*", ("pre", "*", V("ppi"))),
         ("idx", ("pre", "*", V("ppi")), L(1)), ("idx", ("fld", ".", V("s"), "arr"), L(3)),
         ("fld", ".", ("fld", "->", V("ps"), "in"), "x"), ("fld", "->", ("cast", "st *", V("pv")), "i"),
         ("pre", "*", ("bin", "+", V("pi"), L(2))), ("idx", ("cast", "int *", V("pv")), L(0)),
         ("fld", "->", ("pre", "*", V("pps")), "i"), ("idx", ("idx", V("mat"), L(1)), L(2)), V("u"), V("i8v"), V("u64v"),
         ("fld", "->", ("call", V("getst"), ()), "i"), ("idx", ("call", V("getarr"), ()), L(6)),
         ("pre", "*", ("call", V("getarr"), ())), ("idx", ("bin", "+", V("pi"), L(1)), L(1)), V("k.a")]
ASG = ["=", "+=", "-=", "*=", "/=", "%=", "&=", "^=", "|=", "<<=", ">>="]


def rhs(r, op):
    x = lambda n: ("var", n)
    pool = [("bin", "+", x("i64v"), L(3)), ("bin", "&", x("i16v"), L(12)), ("bin", "-", x("s.in.y"), x("i16v")),
            ("pre", "-", x("i16v")), ("bin", "==", x("i16v"), L(2)), ("bin", "||", x("bo"), x("pv")), L(5), ("cast", "int8_t", x("i64v"))]
    if op in ("/=", "%="):
        pool = [L(3), ("bin", "+", L(2), L(3)), ("bin", "|", ("bin", "&", x("i16v"), L(6)), L(1)), ("bin", "*", L(2), L(3))]
    if op in ("<<=", ">>="):
        pool = [L(2), ("bin", "+", L(1), L(2)), ("bin", "&", x("i16v"), L(3)), ("bin", "|", L(1), L(2))]
    return r.choice(pool)


def stmts(r):
    """Every lvalue form with every assignment and step operator, and pointer walking."""
    for lv in LVALS:
        for op in ASG:
            yield ("asg", op, lv, rhs(r, op))
        for op in ("++", "--"):
            for e in (("post", op, lv), ("pre", op, lv)):
                yield e
                yield ("asg", "=", V("x"), e)
                yield ("asg", "+=", V("x"), ("pre", "-", e))
                yield ("asg", "=", V("x"), ("bin", r.choice(["+", "-", "*", "&"]), e, V("k.b")))
                yield ("asg", "=", V("x"), ("bin", r.choice(["+", "-", "*", "&"]), V("k.b"), e))
                yield ("asg", "=", V("x"), ("pre", r.choice("!~"), e))
        yield ("asg", "=", V("x"), ("asg", "=", lv, rhs(r, "=")))
        yield ("asg", r.choice(["+=", "^=", "-="]), V("x"), ("asg", r.choice(["+=", "-=", "|=", "="]), lv, rhs(r, "=")))
        yield ("asg", "=", V("x"), ("asg", "=", V("s.in.y"), ("asg", "=", lv, rhs(r, "="))))
    pw = [("pre", "*", ("post", "++", V("pi"))), ("pre", "*", ("pre", "++", V("pi"))), ("post", "++", ("pre", "*", V("pi"))),
          ("pre", "++", ("pre", "*", V("pi"))), ("pre", "*", ("post", "--", V("pj"))), ("pre", "*", ("pre", "--", V("pj"))),
          ("pre", "*", ("post", "++", ("pre", "*", V("ppi")))), ("post", "++", ("pre", "*", ("pre", "*", V("ppi")))),
          ("pre", "*", ("pre", "++", ("pre", "*", V("ppi")))), ("idx", ("post", "++", V("pi")), L(1)),
          ("idx", ("pre", "++", V("pi")), L(1)), ("pre", "-", ("pre", "*", ("post", "++", V("pi")))),
          ("pre", "!", ("pre", "*", ("post", "++", V("pi")))), ("pre", "--", ("pre", "*", V("pi"))),
          ("post", "--", ("idx", ("pre", "*", V("ppi")), L(0))), ("pre", "-", ("pre", "--", V("i"))), ("pre", "-", ("post", "--", V("i"))),
          ("pre", "-", ("pre", "-", ("post", "--", V("i"))))]
    for p in pw:
        yield p
        yield ("asg", "=", V("x"), p)
        yield ("asg", "=", V("x"), ("bin", "*", p, V("k.b")))
        yield ("asg", "=", V("x"), ("bin", "-", V("k.b"), p))
    yield ("asg", "=", ("pre", "*", ("post", "++", V("pi"))), ("pre", "*", ("post", "--", V("pj"))))
    yield ("asg", "+=", ("pre", "*", ("post", "++", V("pi"))), L(5))
    yield ("asg", "=", V("pi"), ("bin", "+", V("arr"), L(4)))
    yield ("asg", "=", V("pi"), ("pre", "&", ("idx", V("arr"), L(4))))
    yield ("asg", "=", V("pi"), ("bin", "+", ("pre", "&", ("idx", V("arr"), L(1))), L(2)))
    yield ("asg", "=", ("fld", ".", V("s"), "in"), ("fld", "->", ("pre", "*", V("pps")), "in"))


def logic(r, depth, ctr):
    if depth == 0 or r.random() < 0.15:
        ctr[0] += 1
        return ("call", V("lg"), (L(ctr[0]), r.choice([L(0), L(1), V("k.a"), ("bin", "<", V("k.a"), V("k.b")), V("bo")])))
    x = r.random()
    if x < 0.2:
        return ("pre", "!", logic(r, depth - 1, ctr))
    return ("bin", r.choice(LOGIC), logic(r, depth - 1, ctr), logic(r, depth - 1, ctr))


# ---------------------------------------------------------------- programs
class Item:
    def __init__(self, kind, tree, mask=255, red=0.0):
        self.kind, self.tree, self.mask, self.red = kind, tree, mask, red


PF = {"S": "pint", "U": "puint", "F": "pflt", "B": "pint", "I": "pint", "L": "pint"}


def program(items, rng):
    """Returns (che source, reference C source, texts)."""
    srcs, refs, texts = [], [], []
    for n, it in enumerate(items):
        t = che(it.tree, rng, it.red)
        texts.append(t)
        if it.kind == "X":
            srcs.append("void t%d() { %s; dump(%d); }" % (n, t, n))
            refs.append("static void t%d(void) { %s; dump(%d); }" % (n, cfull(it.tree), n))
        else:
            after = " dump(%d);" % n if it.kind == "L" else ""
            if it.kind in "BL" and n % 2:
                # the same truth value, observed through a condition
                srcs.append("void t%d() { if (%s) { pint(%d, 1); } else { pint(%d, 0); }%s }" % (n, t, n, n, after))
                refs.append("static void t%d(void) { if (%s) { pint(%d, 1); } else { pint(%d, 0); }%s }" % (n, cfull(it.tree), n, n, after))
            else:
                srcs.append("void t%d() { %s(%d, %s);%s }" % (n, PF[it.kind], n, t, after))
                refs.append("static void t%d(void) { %s(%d, %s);%s }" % (n, PF[it.kind], n, cfull(it.tree), after))
    main = ["int main() {"]
    for q, st in enumerate(SETS):
        for n, it in enumerate(items):
            if it.mask >> q & 1:
                main.append("\tsetvals(%d, %s); t%d();" % (q, ", ".join(map(str, st)), n))
    main.append("\treturn 0;\n}")
    use_all = "void useall() { LOGN = lg(fi(1), (fs[0])(1, 2)); x = getst()->i + getarr()[0] + getfn()(1, 2); " \
              "pint(kp->a, 1); puint(1, 1); pflt(1, 1); pint((*pps)->i, pv == NULL); dump(0); }"
    m = "\n".join(main)
    che_src = PRELUDE + BODY + use_all + "\n" + "\n".join(srcs) + "\n" + m.replace("int main() {", "int main() {\n\tif (LOGN > 1000) { useall(); }") + "\n"
    ref_src = PRELUDE_C + to_c_body(BODY) + "\n" + "\n".join(refs) + "\n" + m.replace("main()", "main(void)") + "\n"
    return che_src, ref_src, texts


def compare(items, seed, name):
    if len(ck.violations) >= 15:
        return
    rng = ck.rng("render", seed)
    src, ref, texts = program(items, rng)
    d = "prog-%s" % name
    sp, rp = ck.write(d + "/p.c", src), ck.write(d + "/ref.c", ref)
    out, rout = os.path.dirname(sp) + "/p.out", os.path.dirname(sp) + "/ref.out"
    r = run(["gcc", "-std=c99", "-w", "-O0", "-fwrapv", rp, "-o", rout, "-lm"], timeout=120)
    if r.rc != 0:
        raise CheckError("reference does not compile: " + r.etext[:2000])
    rr = run([rout], timeout=60, cpu=60)
    if rr.rc != 0:
        raise CheckError("reference run failed: rc=%s" % rr.rc)
    b = ck.che_build(sp, out, "plain")
    if b.rc != 0 or not os.path.exists(out):
        if len(items) > 1:
            h = len(items) // 2
            compare(items[:h], seed, name + "a")
            compare(items[h:], seed, name + "b")
            return
        ck.saw()
        ck.violation("rejected:" + texts[0], "a well-formed expression is not translated to compilable C: %s\n%s" % (
            texts[0], (b.etext + b.text)[-600:]), src)
        return
    g = run([out], timeout=60, cpu=60)
    want = rr.text.split("\n")
    got = g.text.split("\n")
    bad = set()
    gm = {}
    for ln in got:
        gm.setdefault(ln.split(" ")[0] + ln.split(" ")[1] if " " in ln else ln, ln)
    for ln in want:
        if " " not in ln:
            continue
        key = ln.split(" ")[0] + ln.split(" ")[1]
        ck.saw()
        if gm.get(key) != ln:
            n = int(ln.split(".")[0])
            if n not in bad:
                bad.add(n)
                ck.violation("value:" + texts[n], "%r with operands %s: expected %r, got %r" % (
                    texts[n], SETS[int(ln.split(".")[1].split(" ")[0])], ln, gm.get(key)),
                    {"che": texts[n], "meaning": cfull(items[n].tree), "expected": ln, "got": gm.get(key), "rc": g.rc,
                     "stderr": g.etext[-500:]})
    for it in items:
        s = set()
        pairs(it.tree, s)
        with ck.lock:
            ck.distinct |= set(map(str, s))
    if not bad and g.rc != 0:
        ck.violation("run:" + name, "the translated program ended with %s although the reference succeeds" % g.rc, src)
    ck.sample(texts[rng.randrange(len(texts))])
    ck.count("programs")
    shutil.rmtree(os.path.dirname(sp), ignore_errors=True)


def stdlib():
    """every standard function the language knows, called from a che program
    and from the same program in plain C"""
    src = open(os.path.join(VERIF, "harness", "stdtour.txt")).read()
    D = os.path.join(ck.scratch, "std")
    os.makedirs(D)
    p = ck.write("std/std.c", src)
    ref = "".join("#include <%s.h>\n" % h for h in "assert ctype errno limits math setjmp signal stdarg stdbool stddef stdint stdio stdlib string time".split())
    ref += src.replace("OS.", "").replace("const void *a, *b", "const void *a, const void *b")
    q = ck.write("std/ref.c", ref)
    g = run(["gcc", "-std=c99", "-D_XOPEN_SOURCE=700", "-w", "-g", "-o", D + "/ref", q, "-lm"], timeout=60)
    if g.rc != 0:
        raise CheckError("reference does not compile: " + g.etext[-500:])
    b = ck.che_build(p, D + "/exe", "strict")
    if b.rc != 0:
        ck.violation("stdlib-build", "a program that calls every known standard function correctly is rejected: " + b.etext[-300:] + b.text[-300:], src)
        return
    for k, args in enumerate([["fabcdef"], ["fabcdef", "x"]]):
        a = run([D + "/exe"] + args, b"Z 12 13 \n", cwd=D, timeout=20)
        c = run([D + "/ref"] + args, b"Z 12 13 \n", cwd=D, timeout=20)
        for i, (x, y) in enumerate(zip(a.text.split("\n"), c.text.split("\n"))):
            ck.saw("std/%d" % i)
            if x != y:
                ck.violation("stdlib:%d" % i, "standard function tour, line %d: %r, plain C prints %r" % (i, x, y), src)
                break
        if (a.text, a.etext.replace("exe", "ref"), a.rc) != (c.text, c.etext, c.rc):
            ck.violation("stdlib-end:%d" % k, "standard function tour ends with %s %r, plain C with %s %r" % (a.rc, a.etext[-200:], c.rc, c.etext[-200:]), src)


def main_():
    ck.build_che()
    stdlib()
    items = []
    for t in enumerated():
        if kty(t) is None:
            continue
        m, vals = okmask(t)
        if m:
            items.append(Item("I", t, m, 0.0))
    ck.count("enumerated_trees", len(items))
    r = ck.rng("stmts")
    for rep in range(ck.n(1, 4)):
        for t in stmts(r):
            items.append(Item("X", t, 255 if rep else 0b10010110, 0.0 if rep == 0 else 0.2))
    r = ck.rng("random")
    nrand = ck.n(1500, 20000)
    while nrand > 0:
        t = rand_int(r, r.randrange(2, 6))
        if kty(t) is None:
            continue
        m, vals = okmask(t)
        if not m or t[0] in ("var", "lit"):
            continue
        items.append(Item("I", t, m, r.choice([0, 0, 0.2])))
        nrand -= 1
    for _ in range(ck.n(2000, 24000)):
        k = r.choice("SSSUUFB")
        items.append(Item(k, fam(r, k, r.randrange(1, 6)), r.choice([255, 0b1101]), r.choice([0, 0, 0.2])))
    for _ in range(ck.n(200, 2000)):
        items.append(Item("L", logic(r, r.randrange(1, 5), [0]), 255, r.choice([0, 0.2])))
    # a product of operands of different widths is of the wider type
    for un, uw in (("u8v", 8), ("u16v", 16), ("u", 32), ("u64v", 64)):
        for sn, sw in (("i8v", 8), ("i16v", 16), ("i", 32), ("i64v", 64)):
            if uw == sw:
                continue
            for w in ([un, "u", "u64v"] if uw > sw else [sn, "i", "i64v"]):
                for sym in (0, 1):
                    a, b = ("bin", "&", V(un), L(15)), ("bin", "&", V(sn), L(15))
                    if sym:
                        a, b = b, a
                    items.append(Item("B", ("bin", CMP[(uw + sw + sym) % len(CMP)], ("bin", "*", a, b), V(w)), 255, 0.0))
                    items.append(Item("B", ("bin", CMP[(uw // 8 + sw // 8 + 3 * sym) % len(CMP)], V(w), ("bin", "*", a, V(sn if not sym else un)))
                                      if min(uw, sw) < 32 else ("bin", "==", ("bin", "+", ("bin", "*", a, b), V(w)), V(w)), 255, 0.0))
    chunk = 160
    jobs = [(items[a:a + chunk], a, "c%d" % a) for a in range(0, len(items), chunk)]
    ck.pmap(lambda j: compare(*j) if len(ck.violations) < 15 else None, jobs)
    ck.finish()


main(main_)
