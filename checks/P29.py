"""P29: the Lisp interpreter."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *
import wisplang
from wisplang import Wisp, Unclaimed, Exit

ck = Check("P29", rule="a distinct Lisp program whose whole output was compared with an independent model of the language")
sys.setrecursionlimit(1000000)
LIB = wisplang.library(os.path.join(VERIF, "harness", "wisplang"))
BINS = []

# a name's first letter says what it usually holds, so that dynamic scoping keeps programs mostly well-typed
NAMES = {"i": ["i", "j", "k"], "f": ["f1", "f2"], "l": ["l", "l2", "long-list"], "s": ["s", "s2"], "y": ["y", "y2"], "v": ["v", "v2"], "b": ["b", "b2"]}
PRELUDE = """(setq i 3) (setq j -7) (setq k 10)
(setq f1 2.5) (setq f2 -0.125)
(setq l '(1 2 3)) (setq l2 '(a (b . c) "d")) (setq long-list '(9 8 7 6 5 4 3 2 1))
(setq s "str") (setq s2 "")
(setq y 'sym) (setq y2 'other)
(setq v [1 2 3 4]) (setq v2 [a "b" (c)])
(setq b t) (setq b2 nil)
(defun map1 (fn lst) (if (nullp lst) nil (cons (fn (car lst)) (map1 fn (cdr lst)))))
(defun keep (fn lst) (cond ((nullp lst) nil) ((fn (car lst)) (cons (car lst) (keep fn (cdr lst)))) (t (keep fn (cdr lst)))))
(defun fold (fn acc lst) (while lst (setq acc (fn acc (car lst))) (setq lst (cdr lst))) acc)
(defun showi () (list i j k))
(defmacro unless2 (c &rest body) (list 'if c nil (cons 'progn body)))
(defmacro inc (place) (list 'set (list 'quote place) (list '+ place 1)))
(defmacro swap (a b) (list 'let (list (list 'tmp a)) (list 'set (list 'quote a) b) (list 'set (list 'quote b) 'tmp)))
"""
TAGS = ["oops", "tag", "wrong-type-argument", "divide-by-zero", "void-function", "index-out-of-bounds", "wrong-number-of-arguments", "parse-error"]
STRS = ["", "a", "ab c", 'q"q', "back\\slash", "line\nbreak", "(x)", "; no comment", "caf\xe9", "1", "'", "x" * 40]


class Gen:
    def __init__(self, r, noise=0.03):
        self.r = r
        self.noise = noise
        self.loops = 0
        self.fns = []
        self.macros = []
        self.top = True

    def lit(self, s):
        return '"' + "".join("\\" + c if c in '"\\' else c for c in s) + '"'

    def data(self, d):
        r = self.r
        c = r.randrange(9 if d > 0 else 6)
        if c < 2:
            return str(r.choice([0, 1, 2, 5, -1, 17, 100, r.randrange(-1000, 1000)]))
        if c == 2:
            return r.choice(["a", "b", "foo", "sym", "nil", "t", "x-y", "*g*", "a.b", "<>", "1+"])
        if c == 3:
            return self.lit(r.choice(STRS))
        if c == 4:
            return r.choice(["1.5", "-2.25", "0.5", ".25", "1e3", "-.5", "7.", "100.125"])
        if c == 5:
            return r.choice(["()", "[]", "nil", "'q", "(quote z)"])
        if c == 6:
            return "(" + " ".join(self.data(d - 1) for _ in range(r.randrange(4))) + ")"
        if c == 7:
            return "[" + " ".join(self.data(d - 1) for _ in range(r.randrange(4))) + "]"
        return "(" + " ".join(self.data(d - 1) for _ in range(r.randrange(1, 3))) + " . " + self.data(d - 1) + ")"

    def any(self, d):
        return self.e(self.r.choice("iiiflllsyvb"), d)

    def e(self, t, d):
        r = self.r
        if r.random() < self.noise:
            t = r.choice("iflsyvb")
        if d <= 0 or r.random() < 0.1:
            return self.atom(t)
        if r.random() < 0.35:
            return self.wrap(t, d)
        return getattr(self, "e_" + t)(d - 1)

    def atom(self, t):
        r = self.r
        if r.random() < 0.5:
            return r.choice(NAMES[t])
        return {"i": lambda: str(r.choice([0, 1, 2, 3, -1, -4, 7, 12, 100, r.randrange(-50, 50)])), "f": lambda: r.choice(["1.5", "-0.25", "3.0", "1e2", ".5"]), "l": lambda: "'(" + " ".join(self.data(1) for _ in range(r.randrange(5))) + ")",
                "s": lambda: self.lit(r.choice(STRS)), "y": lambda: "'" + r.choice(["a", "b", "sym", "other", "nil", "t", "foo"]), "v": lambda: "[" + " ".join(self.data(1) for _ in range(r.randrange(5))) + "]", "b": lambda: r.choice(["t", "nil"])}[t]()

    def n(self, t, d, lo, hi):
        return " ".join(self.e(t, d) for _ in range(self.r.randrange(lo, hi)))

    def bindings(self, d):
        r = self.r
        out = []
        for _ in range(r.randrange(1, 4)):
            t = r.choice("iiflsyv")
            x = r.choice(NAMES[t])
            out.append("(%s %s)" % (x, self.e(t, d)) if r.random() < 0.95 else "(%s)" % x)
        return "(" + " ".join(out) + ")"

    def wrap(self, t, d):
        """an expression of any type around one of this type"""
        r = self.r
        d -= 1
        c = r.randrange(16)
        if c == 0:
            return "(if %s %s %s)" % (self.e("b", d), self.e(t, d), self.body(t, d))
        if c == 1:
            return "(let %s %s)" % (self.bindings(d), self.body(t, d))
        if c == 2:
            return "(progn %s)" % self.body(t, d)
        if c == 3:
            return "(cond %s (t %s))" % (" ".join("(%s %s)" % (self.e("b", d), self.e(t, d)) for _ in range(r.randrange(3))), self.e(t, d))
        if c == 4:
            ps = [r.choice("iflsyv") for _ in range(r.randrange(3))]
            names = [r.choice(NAMES[p]) for p in ps]
            return "((lambda (%s) %s) %s)" % (" ".join(names), self.body(t, d), " ".join(self.e(p, d) for p in ps))
        if c == 5:
            return "(catch '%s %s)" % (r.choice(TAGS), self.body(t, d))
        if c == 6:
            return "(catch 'oops %s (throw 'oops %s))" % (self.stmt(d), self.e(t, d))
        if c == 7:
            x = r.choice(NAMES[t])
            return r.choice(["(setq %s %s)", "(set '%s %s)"]) % (x, self.e(t, d))
        if c == 8:
            return "(eval '%s)" % self.e(t, d)
        if c == 9:
            return "(car (list %s))" % " ".join([self.e(t, d)] + [self.any(d) for _ in range(r.randrange(2))])
        if c == 10:
            return "(%s %s)" % ("and" if r.random() < 0.5 else "or", " ".join([self.e("b", d), self.e(t, d)]))
        if c == 11 and self.fns:
            fs = [f for f in self.fns if f[1] == t] or self.fns
            name, _, req, opt, rest = r.choice(fs)
            a = [self.e(x, d) for x in req] + [self.e(x, d) for x in opt[:r.randrange(len(opt) + 1)]]
            if rest and len(a) == len(req) + len(opt):
                a += [self.any(d) for _ in range(r.randrange(4))]
            if r.random() < 0.06:
                a = a[:-1] if r.random() < 0.5 else a + ["1"] * r.randrange(1, 4)
            if r.random() < 0.15:
                return "(apply %s (list %s))" % (name, " ".join(a))
            return "(%s %s)" % (name, " ".join(a))
        if c == 12:
            return "(vget (make-vector %d %s) %d)" % (r.randrange(1, 4), self.e(t, d), r.randrange(4))
        if c == 13:
            return "(value '%s)" % r.choice(NAMES[t])
        if c == 14:
            return "(unless2 nil %s)" % self.body(t, d)
        return "(eval (read-string %s))" % self.lit(self.e(t, min(d, 1))) if r.random() < 0.5 else self.e(t, d)

    def e_i(self, d):
        r = self.r
        c = r.randrange(16)
        if c < 3:
            return "(%s %s)" % (r.choice("+-+-*"), self.n("i", d, 1, 4))
        if c == 3:
            return "(/ %s %s)" % (self.e("i", d), r.choice(["2", "-3", "7", "0", self.e("i", d)]))
        if c == 4:
            return "(%% %s %s)" % (self.e("i", d), r.choice(["2", "-3", "7", "0", self.e("i", d)]))
        if c == 5:
            return "(%s %s)" % (r.choice(["1+", "1-", "abs"]), self.e("i", d))
        if c == 6:
            return "(%s %s)" % (r.choice(["min", "max"]), self.n("i", d, 1, 5))
        if c == 7:
            return "(length %s)" % self.e("l", d)
        if c == 8:
            return "(vlength %s)" % self.e("v", d)
        if c == 9:
            return "(apply %s (list %s))" % (r.choice(["+", "*", "max", "-"]), self.n("i", d, 1, 4))
        if c == 10:
            return "(reduce + (list %s))" % self.n("i", d, 2, 5)
        if c == 11:
            return "(fold (lambda (i j) (%s)) %s %s)" % (r.choice(["+ i 1", "+ i j", "- j i", "max i j"]), self.e("i", d), "(list %s)" % self.n("i", d, 0, 4))
        if c == 12:
            return "(nth %d (list %s))" % (r.randrange(4), self.n("i", d, 1, 5))
        if c == 13:
            return "(expt %s %d)" % (r.choice(["2", "-3", "i"]), r.randrange(5))
        if c == 14:
            return "(inc %s)" % r.choice(NAMES["i"])
        return "(%s %d)" % (r.choice(NAMES["v"]), r.randrange(5))

    def e_f(self, d):
        r = self.r
        c = r.randrange(5)
        if c < 2:
            return "(%s %s %s)" % (r.choice("+-*"), self.e(r.choice("if"), d), self.e("f", d))
        if c == 2:
            return "(/ %s %s)" % (self.e("f", d), r.choice(["2", "4.0", "-0.5", self.e("i", d)]))
        if c == 3:
            return "(- %s)" % self.e("f", d)
        return "(%s %s %s)" % (r.choice(["min", "max"]), self.e("f", d), self.e("i", d))

    def e_l(self, d):
        r = self.r
        c = r.randrange(16)
        if c == 0:
            return "(list %s)" % " ".join(self.any(d) for _ in range(r.randrange(5)))
        if c == 1:
            return "(cons %s %s)" % (self.any(d), self.e("l", d))
        if c == 2:
            return "(%s %s)" % (r.choice(["cdr", "cddr", "cdr"]), self.e("l", d))
        if c == 3:
            return "(append %s)" % self.n("l", d, 1, 4)
        if c == 4:
            return "(member %s %s)" % (self.any(d), self.e("l", d))
        if c == 5:
            return "(%s %s %s)" % (r.choice(["union", "intersection"]), self.e("l", d), self.e("l", d))
        if c == 6:
            return "(adjoin %s %s)" % (self.any(d), self.e("l", d))
        if c == 7:
            return "(map1 (lambda (i) %s) (list %s))" % (self.e(r.choice("ilb"), d), self.n("i", d, 0, 4))
        if c == 8:
            return "(map1 %s %s)" % (r.choice(["numberp", "listp", "symbolp", "not", "stringp", "list"]), self.e("l", d))
        if c == 9:
            return "(keep (lambda (i) %s) (list %s))" % (self.e("b", d), self.n("i", d, 0, 4))
        if c == 10:
            return "(push %s %s)" % (self.any(d), r.choice(NAMES["l"]))
        if c == 11:
            return "(showi)"
        if c == 12:
            return "(fold (lambda (l i) (cons i l)) %s (list %s))" % (self.e("l", d), self.n("i", d, 0, 4))
        if c == 13:
            return "(apply list %s)" % self.e("l", d)
        if c == 14:
            return "(%s %s)" % (r.choice(["car", "cdr", "caar", "cadr", "cdar", "caddr", "second", "third", "fifth"]), self.e("l", d))
        return "(read-string %s)" % self.lit("(" + " ".join(self.data(2) for _ in range(r.randrange(4))) + ")")

    def e_s(self, d):
        r = self.r
        c = r.randrange(4)
        if c == 0:
            return "(concat %s)" % self.n("s", d, 1, 5)
        if c == 1:
            return "(concat2 %s %s)" % (self.e("s", d), self.e("s", d))
        if c == 2:
            return "(symbol-name %s)" % self.e("y", d)
        return "(fold (lambda (s i) (concat s %s)) %s (list %s))" % (self.lit(r.choice("ab")), self.e("s", d), self.n("i", 0, 0, 4))

    def e_y(self, d):
        r = self.r
        c = r.randrange(3)
        if c == 0:
            return "(car '(%s))" % r.choice(["a", "b", "foo"])
        if c == 1:
            return "(make-symbol %s)" % self.lit(r.choice(["abc", "x", "sym", "a b", "bad\"sym", "(1"]))
        return "(car (member 'a '(b a c)))"

    def e_v(self, d):
        r = self.r
        c = r.randrange(7)
        if c == 0:
            return "(make-vector %s %s)" % (r.choice(["0", "1", "3", self.e("i", d)]), self.any(d))
        if c == 1:
            return "(vconcat %s)" % self.n("v", d, 1, 4)
        if c == 2:
            return "(vsub %s %d %s)" % (self.e("v", d), r.randrange(-1, 4), r.choice(["", str(r.randrange(-1, 5))]))
        if c == 3:
            return "(%s '(%d %d))" % (r.choice(NAMES["v"]), r.randrange(4), r.randrange(4))
        if c == 4:
            return "(%s '(%d %d) %s)" % (r.choice(NAMES["v"]), r.randrange(4), r.randrange(4), self.e("v", d))
        if c == 5:
            return "(vconcat2 %s %s)" % (self.e("v", d), self.e("v", d))
        return "(vsplice %s %d %d %s)" % (self.e("v", d), r.randrange(3), r.randrange(5), self.e("v", d))

    def e_b(self, d):
        r = self.r
        c = r.randrange(9)
        if c < 3:
            t = r.choice(["ii", "ii", "if", "fi", "ff"])
            return "(%s %s %s)" % (r.choice(["=", "<", ">", "<=", ">="]), self.e(t[0], d), self.e(t[1], d))
        if c == 3:
            return "(%s %s %s)" % (r.choice(["eq", "eql", "equal"]), self.any(d), self.any(d))
        if c == 4:
            x = self.any(d)
            return "(%s %s %s)" % (r.choice(["eq", "eql", "equal"]), x, x)
        if c == 5:
            return "(%s %s)" % (r.choice(["not", "nullp", "funcp", "listp", "symbolp", "stringp", "numberp", "integerp", "floatp", "vectorp"]), self.any(d))
        if c == 6:
            return "(%s %s)" % (r.choice(["and", "or"]), self.n("b", d, 0, 4))
        if c == 7:
            x = self.data(2)
            return "(= (hash '%s) (hash '%s))" % (x, x)
        return "(not %s)" % self.e("b", d)

    def body(self, t, d):
        return " ".join([self.stmt(d) for _ in range(self.r.choice([0, 0, 0, 1, 1, 2]))] + [self.e(t, d)])

    def stmt(self, d):
        r = self.r
        c = r.randrange(17)
        d -= 1
        if d < 0:
            return "(print %s)" % self.atom(r.choice("iflsyvb"))
        if c < 5:
            return "(print %s)" % self.any(d)
        if c < 7:
            t = r.choice("iiflsyvb")
            return "(setq %s %s)" % (r.choice(NAMES[t]), self.e(t, d))
        if c == 7:
            return "(vset %s %s %s)" % (r.choice(NAMES["v"]), r.choice(["0", "1", "2", "3", "4", "-1"]), self.e(r.choice("iflsyb"), d))
        if c == 8:
            self.loops += 1
            w = "w%d" % self.loops
            return "(let ((%s %d)) (while (> %s 0) (setq %s (- %s 1)) %s))" % (w, r.randrange(5), w, w, w, self.body("i", min(d, 2)))
        if c == 9:
            return "(catch '%s %s)" % (r.choice(TAGS), self.body("i", d))
        if c == 10 and r.random() < 0.5:
            return "(throw '%s %s)" % (r.choice(TAGS), self.any(d))
        if c == 11:
            return "(swap %s %s)" % tuple(r.sample(NAMES["i"], 2))
        if c == 12:
            return "(push %s %s)" % (self.any(d), r.choice(NAMES["l"]))
        if c == 13:
            return "(print (showi))"
        if c == 14:
            return r.choice(self.FORMS).replace("%s", self.atom(r.choice("iflsyvb")))
        if c == 15:
            return "((lambda (i &optional j f1 &rest l) (print (list i j f1 l))) %s)" % self.n("i", d, 0, 6)
        return "(if %s (print %s) (print %s))" % (self.e("b", d), self.any(d), self.any(d))

    def defun(self):
        r = self.r
        t = r.choice("iilsvb")
        req = [r.choice("iilsv") for _ in range(r.randrange(3))]
        opt = [r.choice("il") for _ in range(r.choice([0, 0, 1, 2]))]
        rest = r.random() < 0.2
        used = set()

        def name(x):
            c = [n for n in NAMES[x] if n not in used] or ["p%d" % len(used)]
            n = r.choice(c)
            used.add(n)
            return n

        ps = [name(x) for x in req]
        if opt:
            ps += ["&optional"] + [name(x) for x in opt]
        if rest:
            ps += ["&rest", name("l")]
        fn = "fn%d" % len(self.fns)
        doc = ' "does %s"' % fn if r.random() < 0.3 else ""
        text = "(%s %s (%s)%s %s)" % ("defun", fn, " ".join(ps), doc, self.body(t, r.randrange(1, 4)))
        self.fns.append((fn, t, req, opt, rest))
        if doc:
            text += "\n(print (doc-string '%s))" % fn
        return text

    FORMS = ["(car %s)", "(print (vget %s))", "(undefined-fn %s)", "(%s)", "(+ 1 %s)", "(1 %s)", "(symbol-name %s)", "(lambda %s)", "(apply %s '(1))", "(let (%s))", "(set %s)", "(vlength %s)", "(defun %s)", "(cond %s)",
             "(make-vector %s 1)", "(exit %s 2)", "(car 1 %s)", "(while)", "(while (car %s) (print 1))", "(while (undefined) 1)", "(defun 5 (x) %s)", "(defun g5 %s 6)", "(defun g6 (x 1) 2)", "(defmacro 5 (x) 1)", "(defmacro g7 %s 1)", "(lambda (x &rest) 1)", "(lambda (&rest x y) 1)", "(defun g8 (&rest a &rest b) 1)",
             "(cond ((car %s) 1) (t 2))", "(if (undefined) %s 2)", "(or nil (undefined))", "(and %s (throw 'tag 3))", "(let ((i (undefined)) (j %s)) 1)", "(let ((i 1) (j (car 5))) i)", "(setq undefined-thing2 %s)", "(if %s)", "(catch)", "(throw)", "(- %s)", "(/ %s)", "(load %s)", "(concat %s 1)", "(send %s)", "(quote %s 1)", "(eval %s)", "(max-eval-depth %s 1)",
             "(value %s)", "(vsub %s 0)", "(eval-depth %s)", "(read-string %s)", "(= 1 %s)", "(hash)", "((lambda (i &optional j &rest l) (print (list i j l))) %s)",
             "(defun g9 (&rest) 1)", "(lambda (&rest &optional) 1)", "(lambda (&optional) %s)", "((lambda (&optional) %s))", "((lambda (&rest l) l) %s)", "(defmacro g10 (x) 1 (list '+ 'x 1))", "(print (g10 %s))"]

    TEMPLATES = [
        "(defun fact (n) (if (< n 2) 1 (* n (fact (- n 1)))))\n(print (fact %(a)d))",
        "(defun fib (n) (if (<= n 2) 1 (+ (fib (- n 1)) (fib (- n 2)))))\n(print (fib %(b)d))",
        "(defun sum (n) (if (= n 0) 0 (+ n (sum (- n 1)))))\n(print (sum %(c)d))",
        "(defun ack (m n) (cond ((= m 0) (+ n 1)) ((= n 0) (ack (- m 1) 1)) (t (ack (- m 1) (ack m (- n 1))))))\n(print (ack 2 %(d)d))",
        "(defun even (n) (if (= n 0) t (odd (- n 1)))) (defun odd (n) (if (= n 0) nil (even (- n 1))))\n(print (list (even %(c)d) (odd %(c)d)))",
        "(defun range (a b) (if (> a b) nil (cons a (range (+ a 1) b))))\n(setq l (range 1 %(c)d)) (print l) (print (length l))",
        "(defun down (n) (if (= n 0) (throw 'deep i) (let ((i n)) (down (- n 1)))))\n(print (catch 'deep (down %(c)d))) (print i)",
        "(defun rev (l acc) (if (nullp l) acc (rev (cdr l) (cons (car l) acc))))\n(print (rev '(1 2 3 4 5 6 7 8 9 10) nil))",
        "(setq acc nil) (let ((n %(c)d)) (while (> n 0) (push n acc) (setq n (- n 1)))) (print acc)",
        "(setq n 0) (let ((q %(c)d)) (while (> q 0) (setq q (- q 1)) (catch 'wrong-type-argument (setq n (+ n 1)) (print (list (car 5)))))) (print n) (print (eval-depth))",
        "(defun tree (d) (if (= d 0) 'leaf (list (tree (- d 1)) (tree (- d 1)))))\n(print (tree %(e)d)) (print (equal (tree %(e)d) (tree %(e)d)))",
        "(setq vv (make-vector %(c)d 0)) (let ((n 0)) (while (< n (vlength vv)) (vset vv n (* n n)) (setq n (+ n 1)))) (print vv) (print (vv '(2 4)))",
        "(setq f (lambda (n) (if (= n 0) nil (cons n (f (- n 1)))))) (print (f %(c)d))",
        "(require 'examples) (print (fib %(b)d)) (require 'examples)",
        "(require 'point-free) (print ((comp car cdr) '(1 2 3))) (print ((partial + 1 2) %(a)d))",
        "(defun bad (n &rest l) (if (= n 0) (undefined n) (bad (- n 1) n l)))\n(bad %(d)d) (print (list (catch 'void-function (bad 3))))",
        "(setq mk (lambda () (throw 'x (list i)))) (print (let ((i 99)) (catch 'x (mk)))) (print i)",
        "(load \"lib%(n)d.wisp\") (progn (progn (load \"lib%(n)d.wisp\")) (print (eval-depth)))",
        "(defun g (n) (g (+ n 1)))\n(max-eval-depth %(m)d)\n(g 1)\n(print (catch 'max-eval-depth (g 1)))\n(print (eval-depth))\n(max-eval-depth 20000)",
        "(defmacro plus (x i) (list '+ 'x 'i 'j)) (print (plus %(a)d %(b)d)) (print (let ((x 5)) (plus x %(a)d))) (defmacro plusq (y) (list 'list 'y (list 'quote 'y) y)) (print (plusq (+ 1 2)))",
        "(setq vv (make-vector %(c)d 0)) (let ((n 0)) (while (< n %(c)d) (vset vv n (- n)) (setq n (+ n 1)))) (print (vsub vv %(d)d)) (print (vsub vv 1 %(a)d)) (print (vconcat2 vv (vsub vv 0 %(d)d))) (print (vlength (vconcat vv vv vv)))",
        "(catch 'divide-by-zero (let ((i 'in) (l 'in) (q (/ %(a)d 0))) 1)) (print (list i l)) (catch 'tag ((lambda (i j) (throw 'tag i)) 1 2)) (print (list i j)) (catch 'wrong-number-of-arguments ((lambda (i j k) 1) 5 6)) (print (list i j k)) (catch 'wrong-number-of-arguments ((lambda (i &optional j) 1) 5 6 7)) (print (list i j))",
        "(setq self '(lambda (x) (list x (list (quote quote) x)))) (print (eval (list self ''abc)))",
    ]

    def template(self):
        r = self.r
        return r.choice(self.TEMPLATES) % {"a": r.randrange(13), "b": r.randrange(1, 12), "c": r.choice([1, 6, 7, 8, 9, 15, 16, 17, 40, 130]), "d": r.randrange(6), "e": r.randrange(5), "n": r.randrange(3), "m": r.choice([10, 30, 31, 100, 500])}

    def program(self, forms):
        r = self.r
        out = []
        for _ in range(forms):
            c = r.random()
            if c < 0.2:
                out.append(self.defun())
            elif c < 0.35:
                out.append(self.template())
            elif c < 0.4:
                out.append("(print '%s)" % self.data(4))
            elif c < 0.43:
                n = r.choice([5, 30, 31, 32, 33, 63, 64, 70, 200])
                o, cl = r.choice([("(", ")"), ("[", "]"), ("'(", ")")])
                out.append("(print '%s)" % (o * n + "x" + cl * n))
            elif c < 0.46:
                out.append("(print \"%s\")" % "".join(r.choice("abc ()\n;'") for _ in range(r.choice([1000, 1023, 1024, 1025, 3000]))))
            elif c < 0.5:
                out.append(r.choice(["; a comment ) ( \"", "(print i) ; ( comment", "", "5 \"x\" 'a", "(print 1) (print 2)", "\t(print\n  3\n)", "()", "'()", "[]", "i", "(eval-depth)", "(print (eval-depth))", "(print (list 1 (eval-depth)))"]))
            else:
                out.append(self.stmt(r.randrange(1, 6)))
        return "\n".join(out) + "\n"


def mangle(r, text):
    for _ in range(r.randrange(1, 5)):
        p = r.randrange(len(text) + 1)
        c = r.randrange(5)
        if c == 0:
            text = text[:p] + text[p + 1:]
        elif c == 1:
            text = text[:p] + r.choice("()[]'\".;\n \\,@1a`:{") + text[p:]
        elif c == 2:
            text = text[:p] + r.choice([" . ", ")(", "((", "))", "[(", ")]", "'", "''", " .", "(. ", "\"\"", "\xe9"]) + text[p:]
        elif c == 3:
            text = text[:p] if p > len(text) // 2 else text
        else:
            q = p + r.randrange(6)
            text = text[:p] + text[q:]
    return text


SUBS = ["(print \"loaded\") (setq i (+ i 1)) (print (eval-depth))\n", "(print (list i j))\n(car 5)\n(setq j 4)\n(print \"unfinished\n", "#!/usr/bin/wisp )\n(print 'bang) (load \"lib0.wisp\")\n(print 'end))\n(print 'again)"]


def model(text, interactive, files, steps=60000):
    w = Wisp(files, steps)
    w.out, w.reads = [], []
    code = 0
    try:
        w.load(text, "prog", interactive)
    except Exit as e:
        code = e.args[0]
    return w, "".join(w.out), code


def stage():
    d = os.path.join(ck.scratch, "run")
    if not os.path.exists(d):
        os.makedirs(d)
        for k, s in enumerate(SUBS):
            with open(os.path.join(d, "lib%d.wisp" % k), "w", encoding="latin-1") as f:
                f.write(s)
    return d


def execute(exe, path, stdin=b"", args=(), timeout=60):
    cmd = ["bash", "-c", "ulimit -s 1000000 2>/dev/null; exec \"$@\"", "x", exe] + ([path] if path else []) + list(args)
    return run(cmd, stdin, env=ck.che_env("san", extra={"WISPROOT": os.path.join(REPO, "prog/wisp")}), timeout=timeout, cwd=stage(), outcap=32 << 20)


def bad_end(res, code):
    if res.san:
        return "memory error: " + res.san[:300]
    if res.timeout:
        return "no end"
    if res.rc != code:
        return "exit status %s instead of %s (%s)" % (res.rc, code, res.etext[-300:])
    return None


def same(got, want):
    if got == want:
        return None
    g, w = got.split("\n"), want.split("\n")
    for k, (x, y) in enumerate(zip(g, w)):
        if x != y:
            return "line %d of the output is %r instead of %r" % (k + 1, x[:200], y[:200])
    return "%d lines of output instead of %d (%r)" % (len(g), len(w), (g[len(w):] or w[len(g):])[:3])


def same_reads(err, reads):
    got = []
    for x in err.split("\n"):
        m = re.match(r"(.*?):(\d+): (.*)$", x)
        if m:
            got.append((int(m.group(2)), m.group(3)))
    if [m for _, m in got] != [m for _, _, m in reads]:
        return "complaints about the text: %r instead of %r" % ([m for _, m in got][:5], [m for _, _, m in reads][:5])
    for (a, m), (name, b, _) in zip(got, reads):
        if name != "eval-string" and abs(a - b) > 1:
            return "%r is reported at line %d instead of %d" % (m, a, b)
    return None


def report(key, msg, res, text):
    ck.violation(key, msg, {"program": text[-6000:], "stdout": repr(res.out[-3000:]), "stderr": res.etext[-5000:]})


def judge(key, text, interactive, files, steps=60000):
    try:
        w, want, code = model(text, interactive, files, steps)
    except (Unclaimed, RecursionError) as e:
        ck.count("unclaimed: " + str(e.args[0] if e.args else e)[:20])
        return False
    path = os.path.join(ck.scratch, "run", "%s.wisp" % re.sub(r"\W", "_", key))
    stage()
    with open(path, "wb") as f:
        f.write(text.encode("latin-1"))
    ck.saw(key)
    ck.count("forms evaluated", steps - w.steps)
    ck.count("lines of output", want.count("\n"))
    for k, n in w.errors.items():
        ck.count("errors: " + k, n)
    ck.count("reading errors", len(w.reads))
    ck.count("bindings deeper than 7", int(w.deepest > 8))
    for which, exe in BINS:
        res = execute(exe, None if interactive else path, text.encode("latin-1") if interactive else b"")
        out = res.out.decode("latin-1").replace(os.path.join(REPO, "prog/wisp"), "ROOT")
        msg = bad_end(res, code) or same(out, want) or same_reads(res.err.decode("latin-1"), w.reads)
        if msg:
            report("%s/%s" % (key, which), "%s: %s" % (which, msg), res, text)
            break
    os.unlink(path)
    return True


def random_program(i):
    r = ck.rng("prog", i)
    files = dict(LIB)
    for k, s in enumerate(SUBS):
        files["lib%d.wisp" % k] = s
    for attempt in range(20):
        g = Gen(r, r.choice([0.0, 0.02, 0.08]))
        text = PRELUDE + g.program(r.randrange(3, 25))
        mode = i % 4
        if mode == 3:
            text = mangle(r, text)
        if judge("prog/%d" % i, text, i % 3 == 2, files):
            return


POOL = ["nil", "t", "0", "1", "-1", "3", "7", "2.5", "-0.5", "0.0", '"s"', '""', "'sym", "'i", "'(1 2 3)", "'(a . b)", "'((1 . 2) (3 4))", "'()", "[1 2 3]", "[]", "[x (y)]", "car", "if", "(lambda (x) x)", "(lambda (i &rest l) (list l i))", "i", "l", "v", "'(lambda (x) (+ x 1))",
        "(list 1 \"a\" 'b)", "(+ 1 2)", "(throw 'oops 5)", "(undefined)", "\"(+ 1 2)\"", "\"a) b\"", "'nil", "''x", "(cons 1 2)", "100", "(make-vector 3 l)", "(print 'side)", "(car 5)"]
CALLS = ["+", "-", "*", "/", "%", "=", "<", "<=", ">", ">=", "apply", "and", "or", "quote", "car", "cdr", "list", "if", "not", "progn", "while", "eval", "print", "cons", "set", "value", "symbol-name", "concat2", "eq", "eql", "nullp", "funcp", "listp", "symbolp",
         "stringp", "numberp", "integerp", "floatp", "vectorp", "load", "read-string", "throw", "catch", "vset", "vget", "vlength", "make-vector", "vconcat2", "vsub", "send", "equal", "member", "concat", "make-symbol", "length", "append", "1+", "1-",
         "min", "max", "abs", "union", "adjoin", "intersection", "vconcat", "vsplice", "vfunc", "cadr", "cddr", "caar", "cdar", "third", "tenth", "caddr", "setq", "push", "nth", "reduce", "sqrt", "expt", "let", "lambda", "cond", "map1", "keep", "fold", "inc", "i", "l", "v", "5"]


def sweep(i):
    """calls of everything with arguments of every kind"""
    r = ck.rng("sweep", i)
    forms = []
    for _ in range(60):
        c = r.choice(CALLS)
        a = [r.choice(POOL) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4]))]
        f = "(%s %s)" % (c, " ".join(a))
        if r.random() < 0.3:
            f = "(catch '%s %s)" % (r.choice(TAGS), f)
        elif r.random() < 0.1:
            f = "(apply %s (list %s))" % (c, " ".join(a))
        elif r.random() < 0.1:
            f = "((lambda (x &optional i) (list x i %s)) %s)" % (f, r.choice(POOL))
        f = "(print %s)\n" % f
        if c == "while" and a and a[0] != "nil":
            continue
        try:
            model(PRELUDE + f, False, LIB, 20000)
        except (Unclaimed, RecursionError):
            ck.count("unclaimed calls")
            continue
        forms.append(f)
    ck.count("calls", len(forms))
    judge("sweep/%d" % i, PRELUDE + "".join(forms) + "(print (list i j k l l2 s y v v2)) (print (eval-depth))\n", False, LIB, 300000)


TOKS = ["(", ")", "[", "]", "'", ".", " ", "\n", " a", "1", '"x"', ";c\n", ".5", "-", "nil", " . ", " .(", "\t", "a.b", "\\(", '"\\""', "(a . b)", "'x", "(", ")", "5.", ",", "+1", "\r"]


def reading(i):
    """texts of random pieces"""
    r = ck.rng("reading", i)
    lines = []
    for _ in range(60):
        x = "".join(r.choice(TOKS) for _ in range(r.randrange(1, 12)))
        if r.random() < 0.6:
            x = "(print '%s)" % x
        if r.random() < 0.15:
            x = "(print (read-string %s))" % Gen(r).lit(x)
        try:
            model(x, False, LIB, 2000)
        except (Unclaimed, RecursionError):
            continue
        lines.append(x)
    text = "\n".join(lines) + r.choice(["", "\n", "(", "(print 'end)", "'", "\"open", "(a .", "; c"])
    judge("reading/%d" % i, text, r.random() < 0.4, LIB, 20000)


def malformed(i):
    """every wrong use of every form, with one kind of argument"""
    r = ck.rng("malformed", i)
    forms = []
    for f in Gen.FORMS + ["(catch '%s %s)" % (t, f) for f in Gen.FORMS for t in ("wrong-number-of-arguments", "void-function")][i % 3::3]:
        f = "(print %s)\n" % f.replace("%s", POOL[i % len(POOL)])
        try:
            model(PRELUDE + f, False, LIB, 20000)
        except (Unclaimed, RecursionError):
            continue
        forms.append(f)
    judge("malformed/%d" % i, PRELUDE + "".join(forms) + "(print (list i j k l l2 s y v v2)) (print (eval-depth))\n", i % 2 == 1, LIB, 300000)


def deep(i):
    """recursion until the limit, reported and caught; deep and long data"""
    texts = [
        ("(defun g (n) (g (+ n 1)))\n(g 1)\n(print (catch 'max-eval-depth (g 1)))\n(print (eval-depth))\n", "error: (max-eval-depth 20000)\n20000\n2\n"),
        ("(defun g (n) (+ 1 (g (+ n 1))))\n(g 1)\n(print (+ 1 2))\n", "error: (max-eval-depth 20000)\n3\n"),
        ("(defun len (n) (if (= n 0) 0 (+ 1 (len (- n 1)))))\n(print (len 5000))\n", "5000\n"),
        ("(let ((n 30000) (c 0)) (while (> n 0) (setq n (- n 1)) (catch 'oops (setq c (+ c 1)) (list (throw 'oops 1)))) (print c))\n(print (eval-depth))\n", "30000\n2\n"),
        ("(let ((n 30000) (c 0)) (while (> n 0) (setq n (- n 1)) (catch 'wrong-number-of-arguments (setq c (+ c 1)) ((lambda (i) i) 1 2))) (print (list c i)))\n", "(30000 nil)\n"),
        ("(print (vlength (make-vector 100000 'x)))\n(let ((n 3000) (s \"\")) (while (> n 0) (setq n (- n 1)) (setq s (concat2 s \"ab\"))) (print s))\n", "100000\n\"%s\"\n" % ("ab" * 3000)),
        ("(print '%s)\n" % ("(" * 3000 + ")" * 3000), "(" * 2999 + "nil" + ")" * 2999 + "\n"),
        ("(print '(%s))\n" % " ".join(map(str, range(5000))), "(" + " ".join(map(str, range(5000))) + ")\n"),
        ("".join("(setq sym%d %d)\n" % (k, k) for k in range(5000)) + "(print (list %s))\n" % " ".join("sym%d" % k for k in range(5000)), "(" + " ".join(map(str, range(5000))) + ")\n"),
        ("(exit 7)(print 1)\n", None), ("(print 1)\n(exit)\n", "1\n"),
    ]
    text, want = texts[i % len(texts)]
    code = 0
    if want is None:
        want, code = "", 7
    path = os.path.join(stage(), "deep%d.wisp" % i)
    with open(path, "w") as f:
        f.write(text)
    ck.saw("deep/%d" % i)
    for which, exe in BINS:
        res = execute(exe, path)
        msg = bad_end(res, code) or same(res.text, want)
        if msg:
            report("deep/%d/%s" % (i, which), "%s: %s" % (which, msg), res, text[:3000])
            return


def detached(i):
    """what a detached process sends is what is received"""
    r = ck.rng("detach", i)
    g = Gen(r)
    n = r.randrange(0, 6)
    vals = [g.data(3) for _ in range(n)]
    text = "(print 'before)\n(setq d (detach (lambda () %s)))\n" % " ".join("(send '%s)" % v for v in vals)
    try:
        w, want, _ = model("(print 'before)\n" + "".join("(print '%s)\n" % v for v in vals), False, LIB)
    except Unclaimed:
        return
    if w.reads or any(v.strip() in ("()",) for v in vals):
        pass
    text += "(print (receive d))\n" * n + "(print 'after)\n(car (receive 5))\n(send 1)\n"
    want += "after\nerror: (wrong-type-argument 5)\nerror: (send-from-non-detachment 1)\n"
    path = os.path.join(stage(), "det%d.wisp" % i)
    with open(path, "wb") as f:
        f.write(text.encode("latin-1"))
    ck.saw("detach/%d" % i)
    for which, exe in BINS:
        res = execute(exe, path)
        msg = bad_end(res, 0) or same(res.out.decode("latin-1"), want)
        if msg:
            report("detach/%d/%s" % (i, which), "%s: %s" % (which, msg), res, text)
            return


def command_line(_):
    path = os.path.join(stage(), "args.wisp")
    with open(path, "w") as f:
        f.write("(print (length ARGS)) (print (and (member \"one\" ARGS) (member \"two words\" ARGS) t))\n")
    for args, want in ((["one", "two words", "3"], "3\nt\n"), ([], "0\nnil\n")):
        res = execute(BINS[0][1], path, args=args)
        ck.saw("args/%d" % len(args))
        msg = bad_end(res, 0) or same(res.text, want)
        if msg:
            report("args", msg, res, "")
    res = execute(BINS[0][1], os.path.join(stage(), "missing.wisp"))
    if bad_end(res, 1) or not res.err:
        report("missing", "a missing script: %s" % bad_end(res, 1), res, "")
    res = execute(BINS[0][1], None, b"")
    if bad_end(res, 0):
        report("empty", "no input: %s" % bad_end(res, 0), res, "")


def main_check():
    ck.build_che()
    exe = os.path.join(ck.scratch, "wisp")
    res = ck.che_build(os.path.join(REPO, "prog/wisp/wisp.c"), exe)
    if res.rc != 0 or not os.path.exists(exe):
        raise CheckError("wisp does not build: %s %s" % (res.text[-500:], res.etext[-1500:]))
    BINS.append(("interpreter", exe))
    # the same with a pool that gives each object its own memory, so that the sanitizer sees their lifetimes
    src = os.path.join(ck.scratch, "wisp-src")
    shutil.copytree(os.path.join(REPO, "prog/wisp"), src)
    shutil.copy(os.path.join(VERIF, "harness", "wispmem.txt"), os.path.join(src, "mem.c"))
    exe2 = os.path.join(ck.scratch, "wisp-objects")
    res = ck.che_build(os.path.join(src, "wisp.c"), exe2)
    if res.rc == 0 and os.path.exists(exe2):
        BINS.append(("interpreter without pools", exe2))
        ck.count("object lifetimes watched", 1)
    stage()
    jobs = [(command_line, 0)]
    for fn, q, t in ((random_program, 500, 8000), (sweep, 24, 300), (reading, 40, 600), (malformed, len(POOL), len(POOL)), (deep, 11, 11), (detached, 12, 100)):
        jobs += [(fn, i) for i in range(ck.n(q, t))]
    ck.pmap(lambda j: j[0](j[1]), jobs)
    ck.finish()


main(main_check)
