"""Random and enumerated expressions for the translator checks.

A node is a tuple.  The same tree is rendered as che source with only the
parentheses C's precedence demands (plus random redundant ones), and as fully
parenthesised C that gcc compiles directly: the oracle.
"""
PREC = {"*": 12, "/": 12, "%": 12, "+": 11, "-": 11, "<<": 10, ">>": 10,
        "<": 9, ">": 9, "<=": 9, ">=": 9, "==": 8, "!=": 8, "&": 7, "^": 6, "|": 5, "&&": 4, "||": 3,
        "=": 2}
for _o in ["+=", "-=", "*=", "/=", "%=", "&=", "^=", "|=", "<<=", ">>="]:
    PREC[_o] = 2
ARITH = ["*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|"]
CMP = ["<", ">", "<=", ">=", "==", "!="]
LOGIC = ["&&", "||"]
BIN = ARITH + CMP + LOGIC


def prec(n):
    k = n[0]
    if k == "bin":
        return PREC[n[1]]
    if k == "asg":
        return 2
    if k in ("pre", "cast"):
        return 13
    return 14


def che(n, rng=None, redundant=0.0):
    def p(x, need):
        s = go(x)
        if need or (rng and rng.random() < redundant):
            return "(" + s + ")"
        return s

    def go(n):
        k = n[0]
        if k in ("var", "lit"):
            return n[1]
        if k == "bin":
            op = n[1]
            a = p(n[2], prec(n[2]) < PREC[op])
            b = p(n[3], prec(n[3]) <= PREC[op])
            sp = " "
            if rng and rng.random() < 0.2 and (a[-1].isalnum() or a[-1] in ")]") and (b[0].isalnum() or b[0] == "("):
                sp = ""
            if rng and rng.random() < 0.05:
                sp = "\n\t"
            return a + sp + op + sp + b
        if k == "asg":
            op = n[1]
            # right associative
            return p(n[2], prec(n[2]) <= 2) + " " + op + " " + p(n[3], False)
        if k == "pre":
            op = n[1]
            b = p(n[2], prec(n[2]) < 13)
            if b[0] in "+-&*" and op[0] in "+-&*" and (b[0] == op[-1]):
                if rng and rng.random() < 0.5:
                    return op + " " + b
                return op + "(" + b + ")"
            return op + b
        if k == "post":
            return p(n[2], prec(n[2]) < 14) + n[1]
        if k == "cast":
            return "(" + n[1] + ")" + p(n[2], prec(n[2]) < 13)
        if k == "call":
            return p(n[1], prec(n[1]) < 14) + "(" + ", ".join(p(a, False) for a in n[2]) + ")"
        if k == "idx":
            return p(n[1], prec(n[1]) < 14) + "[" + p(n[2], False) + "]"
        if k == "fld":
            return p(n[2], prec(n[2]) < 14) + n[1] + n[3]
        if k == "szt":
            return "sizeof(" + n[1] + ")"
        if k == "sze":
            return "sizeof(" + p(n[1], False) + ")"
        raise ValueError(n)
    return go(n)


def cfull(n):
    k = n[0]
    if k == "var":
        return n[2] if len(n) > 2 else n[1]
    if k == "lit":
        return n[1]
    if k == "bin" or k == "asg":
        return "(%s %s %s)" % (cfull(n[2]), n[1], cfull(n[3]))
    if k == "pre":
        return "(%s %s)" % (n[1], cfull(n[2]))
    if k == "post":
        return "(%s %s)" % (cfull(n[2]), n[1])
    if k == "cast":
        return "((%s)%s)" % (n[1], cfull(n[2]))
    if k == "call":
        return "(%s(%s))" % (cfull(n[1]), ", ".join(cfull(a) for a in n[2]))
    if k == "idx":
        return "(%s[%s])" % (cfull(n[1]), cfull(n[2]))
    if k == "fld":
        return "(%s%s%s)" % (cfull(n[2]), n[1], n[3])
    if k == "szt":
        return "sizeof(%s)" % n[1]
    if k == "sze":
        return "sizeof(%s)" % cfull(n[1])
    raise ValueError(n)


def pairs(n, out, parent=None):
    """(parent, side, child) operator adjacencies: what grouping was exercised."""
    def name(x):
        if x[0] in ("bin", "asg", "pre", "post"):
            return x[0][0] + x[1]
        return x[0]
    k = n[0]
    kids = []
    if k in ("bin", "asg"):
        kids = [("l", n[2]), ("r", n[3])]
    elif k in ("pre", "post", "cast"):
        kids = [("o", n[2])]
    elif k == "call":
        kids = [("f", n[1])] + [("a", a) for a in n[2]]
    elif k == "idx":
        kids = [("l", n[1]), ("i", n[2])]
    elif k == "fld":
        kids = [("l", n[2])]
    elif k == "sze":
        kids = [("o", n[1])]
    for side, c in kids:
        if c[0] not in ("var", "lit", "szt"):
            out.add((name(n), side, name(c)))
        pairs(c, out)


# ---- int32 evaluator: used to keep enumerated trees free of undefined behaviour
class UB(Exception):
    pass


def w32(x):
    x &= 0xFFFFFFFF
    return x - (1 << 32) if x >> 31 else x


def ev(n, env):
    k = n[0]
    if k == "var":
        return env[n[1]]
    if k == "lit":
        return int(n[1], 0)
    if k == "pre":
        v = ev(n[2], env)
        return {"-": lambda: w32(-v), "~": lambda: ~v, "!": lambda: int(v == 0)}[n[1]]()
    if k == "cast":
        v = ev(n[2], env)
        t = n[1]
        if t == "int":
            return v
        if t == "uint8_t":
            return v & 255
        if t == "int8_t":
            v &= 255
            return v - 256 if v >> 7 else v
        if t == "int16_t":
            v &= 65535
            return v - 65536 if v >> 15 else v
        raise ValueError(t)
    if k == "bin":
        op = n[1]
        a = ev(n[2], env)
        if op == "&&":
            return int(bool(a) and bool(ev(n[3], env)))
        if op == "||":
            return int(bool(a) or bool(ev(n[3], env)))
        b = ev(n[3], env)
        if op in ("/", "%"):
            if b == 0 or (b == -1):
                raise UB
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return w32(q) if op == "/" else w32(a - q * b)
        if op == "<<":
            if not 0 <= b <= 31:
                raise UB
            return w32(a << b)
        if op == ">>":
            if not 0 <= b <= 31:
                raise UB
            return a >> b
        return {"+": lambda: w32(a + b), "-": lambda: w32(a - b), "*": lambda: w32(a * b),
                "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
                "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b), ">=": lambda: int(a >= b),
                "==": lambda: int(a == b), "!=": lambda: int(a != b)}[op]()
    raise ValueError(n)
