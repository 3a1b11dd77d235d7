"""A model of the Lisp dialect of prog/wisp: reader, evaluator, printer."""
import os, struct, zlib


class Unclaimed(Exception):
    """the program leaves what the check claims anything about"""


class Exit(Exception):
    pass


class WErr(Exception):
    def __init__(self, thrown, attach):
        self.thrown, self.attach = thrown, attach


class Int:
    def __init__(self, v):
        if not -2**31 < v < 2**31:
            raise Unclaimed("int")
        self.v = v


class Flt:
    def __init__(self, v):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unclaimed("float")
        self.v = v


class Str:
    def __init__(self, v):
        self.v = v


class Sym:
    def __init__(self, name):
        self.name = name
        self.stack = [None]


class Cons:
    def __init__(self, a, d):
        self.car, self.cdr = a, d


class Vec:
    def __init__(self, v):
        self.v = v


class Fn:
    def __init__(self, name, kind, f):
        self.name, self.kind, self.f = name, kind, f


class ReadError(Exception):
    pass


ATOM = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%^&*-_=+|\\/?.~<>")


class Reader:
    """Reads forms from a text; errors drop the rest of their line"""

    def __init__(self, w, text, name, interactive=False):
        self.w, self.t, self.p, self.name, self.inter = w, text, 0, name, interactive
        self.eof = False
        self.back = []
        self.first = not interactive

    def getc(self):
        if self.back:
            return self.back.pop()
        if self.p >= len(self.t):
            return ""
        self.p += 1
        return self.t[self.p - 1]

    def put(self, c):
        self.back.append(c)

    def line(self):
        while True:
            c = self.getc()
            if c in ("\n", ""):
                break

    def error(self, msg):
        self.w.reads.append((self.name, 1 + self.t[:self.p].count("\n"), msg))
        self.line()
        self.back = []
        raise ReadError(msg)

    def until(self, halt):
        s = ""
        while True:
            c = self.getc()
            if c == "":
                break
            if c == "\\":
                c = self.getc()
                if c == "":
                    break
                s += c
                continue
            if c in halt:
                self.put(c)
                break
            s += c
        return s

    def atom(self, s):
        w = self.w
        b = s
        import re
        if re.fullmatch(r"[+-]?[0-9]+", b):
            return Int(int(b))
        if re.fullmatch(r"[+-]?([0-9]+\.[0-9]*|\.[0-9]+|[0-9]+)([eE][+-]?[0-9]+)?", b):
            return Flt(float(b))
        low = b.lower().lstrip("+-")
        if low.startswith(("inf", "nan", "0x")) or "\0" in b:
            raise Unclaimed("odd number")
        for c in b:
            if c not in ATOM:
                self.error("invalid symbol character: " + c)
        return w.sym(b)

    def read(self):
        """the next form; ReadError"""
        if self.first:
            self.first = False
            if self.t[:2] == "#!":
                self.p = 2
                self.line()
        w = self.w
        # a level: [items, quote, dot (0, 1, 2), vector, tail]
        st = [[[], False, 0, False, w.nil]]

        def prompt():
            if self.inter and len(st) == 1:
                w.out.append("wisp> ")

        def empty(x):
            return not x[0] and x[4] is w.nil

        def value(x):
            if x[3]:
                return Vec(list(x[0]))
            r = x[4]
            for i in reversed(x[0]):
                r = Cons(i, r)
            return r

        def add(o):
            while True:
                x = st[-1]
                if x[2] == 2:
                    self.error("invalid dotted pair syntax - too many objects")
                if x[2] == 0:
                    x[0].append(o)
                else:
                    x[4] = o
                    x[2] = 2
                if not x[1]:
                    return
                o = pop()

        def pop():
            if len(st) <= 1:
                self.error("unbalanced parenthesis")
            if st[-1][2] == 1:
                self.error("missing cdr object for dotted pair")
            return value(st.pop())

        prompt()
        while not self.eof and (empty(st[-1]) or len(st) > 1):
            c = self.getc()
            if c == "":
                self.eof = True
            elif c == ";":
                self.line()
            elif c == ".":
                nc = self.getc()
                if nc != "" and nc in " \t\r\n()":
                    if st[-1][2] > 0:
                        self.error("invalid dotted pair syntax")
                    if st[-1][3]:
                        self.error("dotted pair not allowed in vector")
                    st[-1][2] = 1
                    self.put(nc)
                else:
                    if nc != "":
                        self.put(nc)
                    self.put(".")
                    self.put("0")
            elif c == "\n":
                prompt()
            elif c in " \t\r":
                pass
            elif c == "(":
                st.append([[], False, 0, False, w.nil])
            elif c == ")":
                if st[-1][1]:
                    self.error("unbalanced parenthesis")
                if st[-1][3]:
                    self.error("unbalanced brackets")
                add(pop())
            elif c == "[":
                st.append([[], False, 0, True, w.nil])
            elif c == "]":
                if st[-1][1]:
                    self.error("unbalanced parenthesis")
                if not st[-1][3]:
                    self.error("unbalanced brackets")
                add(pop())
            elif c == "'":
                st.append([[w.sym("quote")], True, 0, False, w.nil])
            elif c == '"':
                s = self.until('"')
                add(Str(s))
                self.getc()
            else:
                s = c + self.until(" \t\r\n()[];")
                add(self.atom(s))
        if not self.eof:
            while True:
                c = self.getc()
                if c == "" or c not in " \t\r":
                    break
            if c not in ("\n", ""):
                self.put(c)
        if len(st) > 1 or st[-1][2] == 1:
            self.error("premature end of file")
        if empty(st[-1]):
            return w.nil
        if not st[-1][0]:
            raise Unclaimed("dot at the top level")
        return st[-1][0][0]


class Wisp:
    def __init__(self, files, steps=60000):
        self.files = files      # path -> text
        self.symbols = {}
        self.out = []
        self.reads = []
        self.depth = 0
        self.maxdepth = 20000
        self.steps = steps
        self.deepest = 0
        self.errors = {}
        self.nil = self.sym("nil")
        self.nil.stack = [self.nil]
        self.t = self.sym("t")
        self.t.stack = [self.t]
        self.bad = self.sym("wisp-error")
        self.bad.stack = [self.bad]
        for k, v in list(vars(Wisp).items()):
            if k.startswith("f_") or k.startswith("s_"):
                name = v.__doc__ or k[2:]
                self.sym(name).stack = [Fn(name, k[0], getattr(self, k))]
        self.sym("wisproot").stack = [Str("ROOT")]
        self.load(files["ROOT/core.wisp"], "core")

    # ---- values

    def sym(self, name):
        s = self.symbols.get(name)
        if s is None:
            if name[:1] == ":":
                raise Unclaimed("keyword")
            s = self.symbols[name] = Sym(name)
            s.stack = [getattr(self, "nil", s)]
        return s

    def bool(self, b):
        return self.t if b else self.nil

    def car(self, o):
        return o.car if isinstance(o, Cons) else self.nil

    def cdr(self, o):
        return o.cdr if isinstance(o, Cons) else self.nil

    def islist(self, o):
        return isinstance(o, Cons) or o is self.nil

    def isfunc(self, o):
        return isinstance(o, Fn) or isinstance(o, Cons) and o.car in (self.sym("lambda"), self.sym("macro"))

    def mklist(self, items):
        r = self.nil
        for x in reversed(items):
            r = Cons(x, r)
        return r

    def text(self, o):
        if isinstance(o, Cons):
            s = []
            while isinstance(o, Cons):
                s.append(self.text(o.car))
                o = o.cdr
                if len(s) > 100000:
                    raise Unclaimed("size")
            r = " ".join(s)
            return "(" + r + ("" if o is self.nil else " . " + self.text(o)) + ")"
        if isinstance(o, Int):
            return str(o.v)
        if isinstance(o, Flt):
            return "%g" % o.v
        if isinstance(o, Str):
            return '"' + o.v.replace("\\", "\\\\").replace('"', '\\"') + '"'
        if isinstance(o, Sym):
            return o.name
        if isinstance(o, Vec):
            return "[" + " ".join(self.text(x) for x in o.v) + "]"
        return "<cfunc>" if o.kind == "f" else "<special form>"

    def throw(self, kind, attach):
        k = self.sym(kind)
        self.errors[kind] = self.errors.get(kind, 0) + 1
        raise WErr(k, attach)

    # ---- evaluation

    def set(self, s, v):
        if s in (self.nil, self.t, self.bad):
            raise Unclaimed("setting a constant")
        s.stack[-1] = v

    def push(self, s, v):
        if not isinstance(s, Sym) or s in (self.nil, self.t, self.bad):
            raise Unclaimed("binding a constant")
        s.stack.append(v)
        self.deepest = max(self.deepest, len(s.stack))

    def ev(self, o):
        self.steps -= 1
        if self.steps < 0:
            raise Unclaimed("steps")
        if isinstance(o, Sym):
            if o is self.bad:
                raise Unclaimed("wisp-error")
            return o.stack[-1]
        if not isinstance(o, Cons):
            return o
        f = self.ev(o.car)
        if isinstance(f, Vec):
            o = Cons(f, o)
            f = self.ev(self.sym("vfunc"))
        if not self.isfunc(f):
            self.throw("void-function", o.car)
        self.depth += 1
        if self.depth >= self.maxdepth:
            d = self.depth
            self.depth -= 1
            self.throw("max-eval-depth", Int(d))
        try:
            args = o.cdr
            if isinstance(f, Fn) and f.kind == "f" or isinstance(f, Cons) and f.car is self.sym("lambda"):
                args = self.evlist(args)
            return self.apply(f, args)
        finally:
            self.depth -= 1

    def evlist(self, lst):
        r = []
        while isinstance(lst, Cons):
            r.append(self.ev(lst.car))
            lst = lst.cdr
        if lst is not self.nil:
            self.throw("improper-list-ending", lst)
        return self.mklist(r)

    def body(self, b):
        r = self.nil
        while b is not self.nil:
            r = self.ev(self.car(b))
            b = self.cdr(b)
        return r

    def apply(self, f, args):
        if isinstance(f, Fn):
            return f.f(args)
        vars = self.car(self.cdr(f))
        bound = []

        def unbind():
            for s in bound:
                s.stack.pop()

        vals = args
        opt = False
        ok = True
        p = vars
        while p is not self.nil:
            var = self.car(p)
            if var is self.sym("&optional"):
                opt = True
                p = self.cdr(p)
                continue
            if var is self.sym("&rest"):
                var = self.car(self.cdr(p))
                self.push(var, vals)
                bound.append(var)
                vals = self.nil
                if self.cdr(self.cdr(p)) is not self.nil:
                    raise Unclaimed("rest")
                break
            if vals is self.nil and not opt:
                ok = False
                break
            self.push(var, self.car(vals))
            bound.append(var)
            p = self.cdr(p)
            vals = self.cdr(vals)
        if not ok or vals is not self.nil:
            unbind()
            self.throw("wrong-number-of-arguments", args)
        try:
            r = self.body(self.cdr(self.cdr(f)))
            if f.car is not self.sym("lambda"):
                r = self.ev(r)
            return r
        finally:
            unbind()

    def load(self, text, name, interactive=False):
        d = self.depth
        r = Reader(self, text, name, interactive)
        while not r.eof:
            try:
                o = r.read()
            except ReadError:
                continue
            if o is self.bad:
                raise Unclaimed("wisp-error")
            self.depth = d
            try:
                v = self.ev(o)
                if interactive:
                    self.out.append(self.text(v) + "\n")
            except WErr as e:
                self.out.append("error: (%s %s)\n" % (self.text(e.thrown), self.text(e.attach)))
        self.depth = d

    # ---- arguments

    def req(self, lst, name, n, least=False, most=False):
        k = 0
        p = lst
        while p is not self.nil:
            k += 1
            p = self.cdr(p)
            if not self.islist(p):
                self.throw("improper-list", lst)
            if least and k >= n:
                return
            if not least and k > n:
                self.throw("wrong-number-of-arguments", self.sym(name))
        if k < n and not most:
            self.throw("wrong-number-of-arguments", self.sym(name))

    def args(self, lst, name, n):
        self.req(lst, name, n)
        r = []
        for _ in range(n):
            r.append(self.car(lst))
            lst = self.cdr(lst)
        return r

    def want(self, o, kind):
        if not isinstance(o, kind):
            self.throw("wrong-type-argument", o)

    # ---- numbers

    def arith(self, op, lst):
        if op == "/":
            self.req(lst, "div", 2, least=True)
        items = []
        while lst is not self.nil:
            items.append(self.car(lst))
            lst = self.cdr(lst)
        if op in "-/":
            a = items[0] if items else self.nil
            self.want(a, (Int, Flt))
            acc = a.v
            if op == "-" and len(items) == 1:
                return self.num(-acc)
            items = items[1:]
        else:
            acc = 0 if op == "+" else 1
        for x in items:
            self.want(x, (Int, Flt))
            if op == "/" and x.v == 0:
                self.throw("divide-by-zero", x)
            try:
                if op == "+":
                    acc = acc + x.v
                elif op == "-":
                    acc = acc - x.v
                elif op == "*":
                    acc = acc * x.v
                elif isinstance(acc, int) and isinstance(x.v, int):
                    q = abs(acc) // abs(x.v)
                    acc = q if (acc < 0) == (x.v < 0) else -q
                else:
                    acc = acc / x.v
            except OverflowError:
                raise Unclaimed("overflow")
            self.num(acc)
        return self.num(acc)

    def num(self, v):
        return Int(v) if isinstance(v, int) else Flt(v)

    def f_add(self, lst):
        "+"
        return self.arith("+", lst)

    def f_sub(self, lst):
        "-"
        return self.arith("-", lst)

    def f_mul(self, lst):
        "*"
        return self.arith("*", lst)

    def f_div(self, lst):
        "/"
        return self.arith("/", lst)

    def f_mod(self, lst):
        "%"
        a, b = self.car(lst), self.car(self.cdr(lst))
        if self.cdr(self.cdr(lst)) is not self.nil:
            raise Unclaimed("% of three")
        self.want(a, Int)
        self.want(b, Int)
        if b.v == 0:
            self.throw("divide-by-zero", b)
        m = abs(a.v) % abs(b.v)
        return Int(-m if a.v < 0 else m)

    def cmp(self, lst, fn):
        self.req(lst, "compare-func", 2, least=True)
        a, b = self.car(lst), self.car(self.cdr(lst))
        if self.cdr(self.cdr(lst)) is not self.nil:
            raise Unclaimed("comparison of three")
        self.want(a, (Int, Flt))
        self.want(b, (Int, Flt))
        return self.bool(fn(a.v, b.v))

    def f_eqn(self, lst):
        "="
        return self.cmp(lst, lambda a, b: a == b)

    def f_lt(self, lst):
        "<"
        return self.cmp(lst, lambda a, b: a < b)

    def f_lte(self, lst):
        "<="
        return self.cmp(lst, lambda a, b: a <= b)

    def f_gt(self, lst):
        ">"
        return self.cmp(lst, lambda a, b: a > b)

    def f_gte(self, lst):
        ">="
        return self.cmp(lst, lambda a, b: a >= b)

    # ---- functions and forms

    def f_apply(self, lst):
        f, a = self.args(lst, "apply", 2)
        if not self.isfunc(f):
            self.throw("void-function", f)
        if not self.islist(a):
            self.throw("wrong-type-argument", a)
        if isinstance(f, Fn) and f.kind == "s":
            raise Unclaimed("apply of a form")
        p = a
        while isinstance(p, Cons):
            p = p.cdr
        if p is not self.nil:
            raise Unclaimed("apply to an improper list")
        return self.apply(f, a)

    def s_and(self, lst):
        r = self.t
        p = lst
        while isinstance(p, Cons):
            r = self.ev(p.car)
            if r is self.nil:
                return r
            p = p.cdr
        if p is not self.nil:
            self.throw("improper-list", lst)
        return r

    def s_or(self, lst):
        p = lst
        while isinstance(p, Cons):
            r = self.ev(p.car)
            if r is not self.nil:
                return r
            p = p.cdr
        if p is not self.nil:
            self.throw("improper-list", lst)
        return self.nil

    def s_quote(self, lst):
        return self.args(lst, "quote", 1)[0]

    def form(self, lst):
        if not self.islist(self.car(lst)):
            return False
        p = self.car(lst)
        rest = -1
        while p is not self.nil:
            if not isinstance(p, Cons):
                raise Unclaimed("parameters")
            if rest >= 0:
                rest -= 1
                if rest < 0 or p.car is self.sym("&rest"):
                    return False
            if not isinstance(p.car, Sym):
                return False
            if p.car is self.sym("&rest"):
                rest = 1
            p = p.cdr
        return rest != 1

    def s_lambda(self, lst):
        if not self.form(lst):
            self.throw("bad-function-form", lst)
        return Cons(self.sym("lambda"), lst)

    def defs(self, lst, kind):
        if not isinstance(self.cdr(lst), Cons) or not isinstance(self.car(lst), Sym) or not self.form(lst.cdr):
            self.throw("bad-function-form", lst)
        self.set(lst.car, Cons(self.sym(kind), lst.cdr))
        return lst.car

    def s_defun(self, lst):
        return self.defs(lst, "lambda")

    def s_defmacro(self, lst):
        return self.defs(lst, "macro")

    def f_car(self, lst):
        a, = self.args(lst, "car", 1)
        if not self.islist(a):
            self.throw("wrong-type-argument", a)
        return self.car(a)

    def f_cdr(self, lst):
        a, = self.args(lst, "cdr", 1)
        if not self.islist(a):
            self.throw("wrong-type-argument", a)
        return self.cdr(a)

    def f_list(self, lst):
        return lst

    def s_if(self, lst):
        self.req(lst, "wrong-number-of-arguments", 2, least=True)
        if self.ev(lst.car) is not self.nil:
            return self.ev(self.car(lst.cdr))
        return self.body(self.cdr(lst.cdr))

    def s_cond(self, lst):
        p = lst
        while p is not self.nil:
            if not isinstance(p, Cons):
                self.throw("improper-list", lst)
            c = p.car
            if not isinstance(c, Cons):
                self.throw("wrong-type-argument", c)
            if not self.islist(c.cdr):
                self.throw("improper-list", c)
            if c.cdr is self.nil:
                raise Unclaimed("cond")
            if c.cdr.cdr is not self.nil:
                self.throw("bad-form", c)
            if self.ev(c.car) is not self.nil:
                return self.ev(c.cdr.car)
            p = p.cdr
        return self.nil

    def f_not(self, lst):
        return self.bool(self.args(lst, "nullp", 1)[0] is self.nil)

    def f_nullp(self, lst):
        return self.f_not(lst)

    def s_progn(self, lst):
        return self.body(lst)

    def s_let(self, lst):
        if not self.islist(self.car(lst)):
            self.throw("bad-let-form", lst)
        p = self.car(lst)
        while p is not self.nil:
            c = self.car(p)
            if not self.islist(c) or not isinstance(self.car(c), Sym):
                self.throw("bad-let-form", lst)
            p = self.cdr(p)
        bound = []
        try:
            p = self.car(lst)
            while p is not self.nil:
                c = self.car(p)
                v = self.ev(self.car(self.cdr(c)))
                self.push(self.car(c), v)
                bound.append(self.car(c))
                p = self.cdr(p)
            return self.body(self.cdr(lst))
        finally:
            for s in bound:
                s.stack.pop()

    def s_while(self, lst):
        self.req(lst, "while", 1, least=True)
        r = self.nil
        while self.ev(lst.car) is not self.nil:
            r = self.body(lst.cdr)
        return r

    def f_eval(self, lst):
        return self.body(lst)

    def f_print(self, lst):
        a, = self.args(lst, "print", 1)
        self.out.append(self.text(a) + "\n")
        if len(self.out) > 20000:
            raise Unclaimed("output")
        return self.nil

    def f_cons(self, lst):
        return Cons(*self.args(lst, "cons", 2))

    def f_set(self, lst):
        s, v = self.args(lst, "set", 2)
        if not isinstance(s, Sym):
            self.throw("wrong-type-argument", Cons(self.sym("set"), s))
        self.set(s, v)
        return v

    def f_value(self, lst):
        s, = self.args(lst, "value", 1)
        if not isinstance(s, Sym):
            self.throw("wrong-type-argument", Cons(self.sym("value"), s))
        if s is self.bad:
            raise Unclaimed("wisp-error")
        return s.stack[-1]

    def f_symbol_name(self, lst):
        "symbol-name"
        s, = self.args(lst, "symbol-name", 1)
        self.want(s, Sym)
        return Str(s.name)

    def f_concat2(self, lst):
        a, b = self.args(lst, "concat", 2)
        self.want(a, Str)
        self.want(b, Str)
        if len(a.v) + len(b.v) > 100000:
            raise Unclaimed("size")
        return Str(a.v + b.v)

    def f_eq(self, lst):
        a, b = self.args(lst, "eq", 2)
        return self.bool(a is b)

    def f_eql(self, lst):
        a, b = self.args(lst, "eql", 2)
        if type(a) is not type(b):
            return self.nil
        if isinstance(a, (Int, Flt, Str)):
            return self.bool(a.v == b.v)
        if isinstance(a, Vec):
            return self.nil
        if isinstance(a, Fn):
            return self.bool(a.f == b.f)
        return self.bool(a is b)

    def f_hash(self, lst):
        a, = self.args(lst, "hash", 1)
        return Int(zlib.crc32(self.text(a).encode("latin-1")) >> 2)

    def f_funcp(self, lst):
        return self.bool(self.isfunc(self.args(lst, "funcp", 1)[0]))

    def f_listp(self, lst):
        return self.bool(self.islist(self.args(lst, "listp", 1)[0]))

    def isa(self, lst, name, kind):
        return self.bool(isinstance(self.args(lst, name, 1)[0], kind))

    def f_symbolp(self, lst):
        return self.isa(lst, "symbolp", Sym)

    def f_stringp(self, lst):
        return self.isa(lst, "stringp", Str)

    def f_numberp(self, lst):
        return self.isa(lst, "numberp", (Int, Flt))

    def f_integerp(self, lst):
        return self.isa(lst, "integerp", Int)

    def f_floatp(self, lst):
        return self.isa(lst, "floatp", Flt)

    def f_vectorp(self, lst):
        return self.isa(lst, "vectorp", Vec)

    def f_load(self, lst):
        s, = self.args(lst, "load", 1)
        self.want(s, Str)
        if s.v not in self.files:
            self.throw("load-file-error", s)
        self.load(self.files[s.v], s.v)
        return self.t

    def f_read_string(self, lst):
        "read-string"
        s, = self.args(lst, "eval-string", 1)
        self.want(s, Str)
        if s.v[:2] == "#!" or "\xff" in s.v:
            raise Unclaimed("shebang")
        try:
            o = Reader(self, s.v, "eval-string").read()
        except ReadError:
            self.throw("parse-error", s)
        if o is self.bad:
            raise Unclaimed("wisp-error")
        return o

    def f_throw(self, lst):
        k = self.car(lst)
        if k is self.bad:
            raise Unclaimed("wisp-error")
        self.errors["thrown"] = self.errors.get("thrown", 0) + 1
        raise WErr(k, self.car(self.cdr(lst)))

    def s_catch(self, lst):
        k = self.ev(self.car(lst))
        try:
            return self.body(self.cdr(lst))
        except WErr as e:
            if e.thrown is k:
                return e.attach
            raise

    def f_vset(self, lst):
        v, i, x = self.args(lst, "vset", 3)
        self.want(v, Vec)
        self.want(i, Int)
        if not 0 <= i.v < len(v.v):
            self.throw("index-out-of-bounds", i)
        if x is v:
            raise Unclaimed("cycle")
        if isinstance(x, (Vec, Cons)) and self.holds(x, v):
            raise Unclaimed("cycle")
        v.v[i.v] = x
        return x

    def holds(self, x, v, left=None):
        left = left if left is not None else [5000]
        while isinstance(x, Cons):
            left[0] -= 1
            if left[0] < 0:
                raise Unclaimed("size")
            if self.holds(x.car, v, left):
                return True
            x = x.cdr
        return isinstance(x, Vec) and (x is v or any(self.holds(y, v, left) for y in x.v))

    def f_vget(self, lst):
        v, i = self.args(lst, "vget", 2)
        self.want(v, Vec)
        self.want(i, Int)
        if not 0 <= i.v < len(v.v):
            self.throw("index-out-of-bounds", i)
        return v.v[i.v]

    def f_vlength(self, lst):
        v, = self.args(lst, "vlength", 1)
        self.want(v, Vec)
        return Int(len(v.v))

    def f_make_vector(self, lst):
        "make-vector"
        n, x = self.args(lst, "make-vector", 2)
        self.want(n, Int)
        if n.v < 0:
            self.throw("index-out-of-bounds", n)
        if n.v > 10000:
            raise Unclaimed("size")
        return Vec([x] * n.v)

    def f_vconcat2(self, lst):
        a, b = self.args(lst, "vconcat2", 2)
        self.want(a, Vec)
        self.want(b, Vec)
        return Vec(a.v + b.v)

    def f_vsub(self, lst):
        self.req(lst, "subv", 2, least=True)
        v, s = lst.car, self.car(lst.cdr)
        rest = self.cdr(lst.cdr)
        self.want(v, Vec)
        self.want(s, Int)
        if not 0 <= s.v < len(v.v):
            self.throw("bad-index", s)
        if rest is self.nil:
            return Vec(v.v[s.v:])
        e = self.car(rest)
        if self.cdr(rest) is not self.nil:
            raise Unclaimed("vsub of four")
        self.want(e, Int)
        if not s.v <= e.v < len(v.v):
            self.throw("bad-index", e)
        return Vec(v.v[s.v:e.v + 1])

    def f_refcount(self, lst):
        raise Unclaimed("refcount")

    def f_eval_depth(self, lst):
        "eval-depth"
        self.args(lst, "eval-depth", 0)
        return Int(self.depth)

    def f_max_eval_depth(self, lst):
        "max-eval-depth"
        self.req(lst, "max-eval-depth", 1, most=True)
        if lst is self.nil:
            return Int(self.maxdepth)
        a = lst.car
        self.want(a, Int)
        if a.v < 10:
            return self.nil
        self.maxdepth = a.v
        return a

    def f_exit(self, lst):
        self.req(lst, "exit", 1, most=True)
        if lst is self.nil:
            raise Exit(0)
        self.want(lst.car, Int)
        raise Exit(lst.car.v & 255)

    def f_cdoc_string(self, lst):
        "cdoc-string"
        raise Unclaimed("doc strings of builtins")

    def f_detach(self, lst):
        raise Unclaimed("detach")

    def f_receive(self, lst):
        raise Unclaimed("detach")

    def f_send(self, lst):
        o, = self.args(lst, "send", 1)
        self.throw("send-from-non-detachment", o)


def library(root):
    files = {}
    for d, _, names in os.walk(root):
        for n in names:
            p = os.path.join(d, n)
            with open(p, encoding="latin-1") as f:
                files["ROOT/" + os.path.relpath(p, root)] = f.read()
    return files
