"""P23: command-line options and the text tools: every run of the real programs is compared with a reference."""
import csv, datetime, hashlib, io, json, os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P23", rule="a distinct run (program, arguments, input) whose output, status and files were compared with a reference")
TOOLS = ["csv2json", "jsonl2csv", "json-table", "multicut", "trim", "logfmt", "decompose", "zipranges", "datelog"]
BIN = {}


def go(key, tool, args, data, judge, env=None, cwd=None, may_fail=False):
    """Runs a tool, checks what holds for every run and lets the judge look at the rest."""
    e = ck.che_env("san", extra=env or {})
    res = run([BIN[tool]] + list(args), data, env=e, timeout=60, cwd=cwd, outcap=64 << 20)
    ck.saw("%s/%s" % (tool, hashlib.md5(repr((args, data, env)).encode()).hexdigest()))
    ck.count("runs_%s" % tool.replace("-", "_"))
    info = {"tool": tool, "args": repr(args), "input": repr(data[:6000]), "stdout": repr(res.out[-3000:]), "stderr": res.etext[-3000:]}
    if res.timeout:
        ck.violation(key, "%s doesn't finish" % tool, info)
    elif res.san or (res.rc is not None and res.rc < 0):
        ck.violation(key, "%s: %s" % (tool, res.san or "killed by signal %d" % -res.rc), info)
    else:
        msg = judge(res)
        if msg:
            ck.violation(key, "%s %s: %s" % (tool, " ".join(repr(a) for a in args)[:200], msg), info)


def same(want, rc=0):
    def judge(res):
        if res.rc != rc:
            return "exit status %s instead of %d (%s)" % (res.rc, rc, res.etext[-300:])
        if res.out != want:
            i = next((k for k, (a, b) in enumerate(zip(res.out, want)) if a != b), min(len(res.out), len(want)))
            return "printed %r... instead of %r... (from byte %d)" % (res.out[max(0, i - 20):i + 80], want[max(0, i - 20):i + 80], i)
    return judge


def refused(res):
    if res.rc != 1:
        return "exit status %s instead of 1" % res.rc
    if not res.err.strip():
        return "refused without a message"
    if res.out:
        return "printed %r though refusing" % res.out[:100]


# ---- options ---------------------------------------------------------------

class Refuse(Exception):
    pass


def parse_ref(spec, n, args):
    vals = {}
    for kind, name in spec:
        vals[name] = {"s": b"dflt", "i": -7, "b": False, "z": 77, "f": 2.5}[kind]
    kinds = {name: kind for kind, name in spec}
    i = 0
    while i < len(args):
        a = args[i]
        if a == b"-" or not a.startswith(b"-"):
            break
        if len(a) > 2:
            for c in a[1:].decode("latin-1"):
                if c not in kinds and c == "h":
                    raise Refuse("help")
                if kinds.get(c) != "b":
                    raise Refuse("flag")
                vals[c] = True
            i += 1
            continue
        c = a[1:].decode("latin-1")
        if c not in kinds:
            raise Refuse("help" if c == "h" else "flag")
        k = kinds[c]
        if k == "b":
            vals[c] = True
            i += 1
            continue
        if i + 1 >= len(args):
            raise Refuse("value")
        v = args[i + 1]
        if k == "s":
            vals[c] = v
        elif k in "iz":
            if not re.fullmatch(rb"-?[0-9]+" if k == "i" else rb"[0-9]+", v):
                raise Refuse("number")
            x = int(v)
            if k == "i" and not -2**31 <= x < 2**31 or k == "z" and x >= 2**64:
                raise Refuse("range")
            vals[c] = x
        else:
            if not re.fullmatch(rb"[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?", v):
                raise Refuse("fraction")
            vals[c] = struct.unpack("f", struct.pack("f", float(v)))[0]
        i += 2
    rest = args[i:]
    if n is not None and len(rest) != n:
        raise Refuse("count")
    return [vals[name] for kind, name in spec], rest


NUMS = [b"0", b"1", b"-1", b"007", b"42", b"2147483647", b"2147483648", b"-2147483648", b"-2147483649", b"4294967296", b"4294967297",
        b"18446744073709551615", b"18446744073709551616", b"99999999999999999999", b"-99999999999999999999", b"", b"-", b"+5", b"5x", b"x", b"1.0",
        b"1e3", b" 5", b"5 ", b"0x10", b"--5", b"1-", b"9223372036854775807", b"-9223372036854775809", b"-0"]
FRACS = [b"0", b"1.5", b"-2.25", b"3.14", b".5", b"5.", b"1e3", b"1e-3", b"2.5E+2", b"1.5x", b"x", b"", b"1,5", b"--1", b"-", b"1.2.3", b"1e", b"0.1", b"16777217", b"1.5 "]


def options(r, i):
    names = list("abcdefgijklmnopqrstuvwxyzABCXYZ019?h")
    r.shuffle(names)
    spec = [(r.choice("sibzf" if r.random() < 0.7 else "b"), names[k]) for k in range(r.choice([0, 1, 2, 3, 5, 8, 12, 32]))]
    n = r.choice([None, None, 0, 1, 2, 3])
    args = []
    known = dict((b, a) for a, b in spec)
    for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
        k = r.random()
        if spec and k < 0.65:
            kind, name = r.choice(spec)
            bools = [b for b, a in known.items() if a == "b"]
            if kind == "b" and len(bools) > 1 and r.random() < 0.5:
                args.append(b"-" + "".join(r.choice(bools) for _ in range(r.randrange(2, 6))).encode())
                continue
            args.append(b"-" + name.encode())
            if kind == "b" or r.random() < 0.03:
                continue
            good = r.random() < 0.85
            if kind == "s":
                args.append(r.choice([b"", b"-", b"x", b"-a", b"a b", b"--", b"\xff\xe9", b"long" * 50]))
            elif kind in "iz":
                args.append(str(r.randrange(-1000 if kind == "i" else 0, 1000)).encode() if good else r.choice(NUMS))
            else:
                args.append(b"%.3f" % r.uniform(-100, 100) if good else r.choice(FRACS))
        elif k < 0.70:
            args.append(r.choice([b"-h", b"-@", b"--", b"-hh", b"-\xff", b"-ah"]))
        elif k < 0.74 and spec:
            args.append(b"-" + r.choice(spec)[1].encode() + r.choice(spec)[1].encode())
        else:
            break
    tail = r.choice([0, 0, 1, 2, 3]) if n is None or r.random() < 0.2 else n
    for _ in range(tail):
        args.append(r.choice([b"x", b"-", b"", b"file.txt", b"a b", b"x"] + ([b"-z", b"-x"] if len(args) else [])))
    one_options("opt/%d" % i, spec, n, args)


def one_options(key, spec, n, args):
    st = "".join(a + b for a, b in spec) + ("" if n is None else "=%d" % n)
    try:
        vals, rest = parse_ref(spec, n, args)
    except Refuse as e:
        why = str(e)

        def judge(res):
            m = refused(res)
            if m:
                return "%s (should be refused: %s)" % (m, why)
            if why == "help":
                if b"Frobs widgets." not in res.err:
                    return "help without the summary"
                for kind, name in spec:
                    if not re.search(rb"^\s*-%s\b.*(a text|an integer|a switch|a size|a fraction)" % re.escape(name.encode()), res.err, re.M) and name.isalnum():
                        return "help doesn't list -%s" % name
        ck.count("options_refused")
        return go(key, "options", [st] + args, b"", judge)
    out = ["ok"]
    for v in vals:
        out.append(hx(v) if isinstance(v, bytes) else str(int(v)) if isinstance(v, (bool, int)) else "%.17g" % v)
    out.append("|")
    out += [hx(a) for a in rest]
    ck.count("options_accepted")
    go(key, "options", [st] + args, b"", same((" ".join(out) + "\n").encode()))


def fixed_options():
    for kind, vals in (("i", NUMS), ("z", NUMS), ("f", FRACS)):
        for j, v in enumerate(vals):
            yield "optv/%s/%d" % (kind, j), [(kind, "v"), ("b", "q")], None, [b"-q", b"-v", v, b"rest"]
    for j, args in enumerate([[b"-h"], [b"-qh"], [b"-v"], [b"-qv", b"1"], [b"-vq", b"1"], [b"--"], [b"-"], [b""], [b"-q", b"", b"-q"], [b"-q", b"-", b"-q"], [b"-q", b"-q"]]):
        yield "optf/%d" % j, [("s", "v"), ("b", "q")], None, args
    for n in (0, 1, 2):
        for m in range(4):
            yield "optn/%d/%d" % (n, m), [("b", "q")], n, [b"-q"] + [b"a"] * m


def many_flags():
    names = "abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMN"
    go("optmany", "options", ["".join("b" + c for c in names[:32]), "-N" if False else "-F"], b"",
       same(("ok " + " ".join("1" if c == "F" else "0" for c in names[:32]) + " |\n").encode()))
    go("optmany/33", "options", ["".join("b" + c for c in names[:33]), "-a"], b"", refused)


def dispatch(r, i):
    n = r.choice([1, 2, 3, 5, 10])
    names = []
    while len(names) < n:
        c = "".join(r.choice("abx-") for _ in range(r.choice([1, 2, 2, 3])))
        if c not in names:
            names.append(c)
    args = [r.choice(names + ["zz", names[0][:-1] or "q", names[0] + "x"])] if r.random() < 0.9 else []
    if args:
        args += [r.choice(["-a", "x", "", "a b", names[0]]) for _ in range(r.randrange(3))]
    spec = "!" + ",".join(names)
    if args and args[0] in names:
        code = 10 + names.index(args[0]) % 3
        return go("dispatch/%d" % i, "options", [spec] + args, b"", same(("cmd %d %d %s\n" % (code, len(args), " ".join(hx(a.encode()) for a in args))).encode(), code))

    def judge(res):
        m = refused(res)
        if m:
            return m
        if not args:
            listed = [x.strip() for x in res.etext.split("\n")[1:] if x.strip()]
            if listed != names:
                return "lists the subcommands %r instead of %r" % (listed, names)
        elif args[0].encode() not in res.err:
            return "the message doesn't name the subcommand"
    go("dispatch/%d" % i, "options", [spec] + args, b"", judge)


def dispatch_limit():
    for n in (10, 11, 12, 30):
        names = ["c%d" % k for k in range(n)]

        def judge(res, n=n):
            if n <= 10 or res.rc != 1:
                return same(b"cmd 10 1 %s\n" % hx(b"c0").encode(), 10)(res)
            return refused(res)
        go("dispatchmax/%d" % n, "options", ["!" + ",".join(names), "c0"], b"", judge)


# ---- csv2json --------------------------------------------------------------

def cell(r):
    n = r.choice([0, 1, 1, 2, 3, 8, 30])
    if r.random() < 0.01:
        n = r.choice([127, 128, 4095, 4096, 9000])
    return bytes(r.choice(b'ab,"\n\r\t\\ /1\x01\x1f\x7f\xc3\xa9') if r.random() < 0.6 else r.choice(b"abcxyz") for _ in range(n))


def to_csv(r, rows):
    out = []
    for row in rows:
        cells = []
        for v in row:
            bare = not (set(v) & set(b',\r\n')) and not v.startswith(b'"') and not (len(row) == 1 and v == b"")
            cells.append(v if bare and r.random() < 0.6 else b'"' + v.replace(b'"', b'""') + b'"')
        out.append(b",".join(cells))
    eol = r.choice([b"\n", b"\r\n"])
    t = eol.join(out)
    return t + (eol if r.random() < 0.7 else b"")


def csv2json(r, i):
    rows = [[cell(r) for _ in range(r.choice([1, 2, 3, 5, 12]))] for _ in range(r.choice([1, 2, 3, 6]))]
    if r.random() < 0.04:
        rows.insert(0, [b"c%d" % k for k in range(150)])
        rows.append([b"v%d" % k for k in range(r.choice([149, 150, 151, 180]))])
    flag = r.random() < 0.4
    text = to_csv(r, rows)
    back = [[v.encode("latin-1") for v in row] for row in csv.reader(io.StringIO(text.decode("latin-1"), newline="")) if row]
    if back != rows:
        raise CheckError("the reference reads %r otherwise" % text)
    head = [] if flag else rows[0]
    want = [[((head[k] if k < len(head) else b"col%d" % k).decode("latin-1"), v.decode("latin-1")) for k, v in enumerate(row)] for row in (rows if flag else rows[1:])]

    def judge(res):
        if res.rc != 0:
            return "exit status %s: %s" % (res.rc, res.etext[-300:])
        got = []
        for line in res.out.decode("latin-1").split("\n")[:-1]:
            try:
                got.append(json.loads(line, object_pairs_hook=lambda p: p))
            except ValueError as e:
                return "a line isn't JSON: %r (%s)" % (line[:200], e)
        if got != want:
            k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            return "record %d is %r instead of %r (%d and %d in all)" % (k, got[k:k + 1], want[k:k + 1], len(got), len(want))
    go("csv2json/%d" % i, "csv2json", ["-n"] if flag else [], text, judge)


# ---- JSON lines ------------------------------------------------------------

def jstr(r, ascii=False, top=12):
    n = r.choice([0, 1, 2, 3, 5, r.randrange(top + 1)])
    if ascii:
        return "".join(r.choice("abcxyz 019-_.:|'{}[]") for _ in range(n))
    return "".join(r.choice('ab,"\n\t\\/ é€😀x1') for _ in range(n))


def jval(r, ascii=False, depth=2):
    k = r.randrange(8 if depth else 6)
    if k == 0:
        return r.choice([0, 1, -1, 9999, 10000, 10001, 12345, 123456, 1234567, 2**31 - 1, 2**31, 3000000000, 2**53 - 1, -123456, -10001, r.randrange(10**r.randrange(1, 15))])
    if k == 1:
        return r.choice([1.5, -0.25, 0.5, 10000.5, 123456.75, 100.25])
    if k == 2:
        return r.choice([True, False, None])
    if k < 6:
        return jstr(r, ascii)
    if k == 6:
        return [jval(r, ascii, depth - 1) for _ in range(r.randrange(4))]
    return {jkey(r, ascii): jval(r, ascii, depth - 1) for _ in range(r.randrange(4))}


def jkey(r, ascii=False):
    return r.choice(["a", "b", "c", "id", "name", "x1", "msg"]) if r.random() < 0.7 else (jstr(r, ascii, 20) or "k")


def jdump(r, v):
    k = r.randrange(3)
    if k == 0:
        return json.dumps(v)
    if k == 1:
        return json.dumps(v, ensure_ascii=False, separators=(",", ":"))
    return json.dumps(v, ensure_ascii=False, separators=(" , ", " : "))


def jsonl2csv(r, i):
    keys = ["a", "b", "c", "id", "naïve", 'q"', "x y", "d,e"][:r.choice([1, 2, 3, 8])]
    lines, objs = [], []
    for _ in range(r.choice([1, 1, 2, 4, 9])):
        k = r.random()
        if k < 0.12:
            lines.append(r.choice(["", "{", "[1,2]", "12", '"x"', "nope", '{"a":}', "null", "[]", '{"a":1}x']))
            continue
        o = {x: jval(r) for x in keys if not objs or r.random() < 0.8}
        if objs and r.random() < 0.3:
            o["extra"] = 1
        if r.random() < 0.03:
            o[keys[0]] = "long" * r.choice([1000, 1024, 2500])
        if not objs and r.random() < 0.04:
            o.update({"k%d" % j: j for j in range(r.choice([50, 91]))})
        lines.append(jdump(r, o))
        objs.append(o)
    text = "\n".join(lines) + ("\n" if r.random() < 0.8 else "")

    def judge(res):
        if not objs:
            return refused(res)
        if res.rc != 0:
            return "exit status %s: %s" % (res.rc, res.etext[-300:])
        got = list(csv.reader(io.StringIO(res.out.decode("utf-8", "surrogateescape"), newline="")))
        head = list(objs[0])
        if len(got) != len(objs):
            return "%d rows instead of %d" % (len(got), len(objs))
        for g, o in zip(got, objs):
            if len(g) != len(head):
                return "%d values instead of %d in %r" % (len(g), len(head), g)
            for x, h in zip(g, head):
                v = o.get(h)
                if v is None:
                    ok = x == ""
                elif isinstance(v, str):
                    ok = x == v
                else:
                    try:
                        ok = json.loads(x) == v and type(json.loads(x)) in (type(v), int, float)
                    except ValueError:
                        ok = False
                if not ok:
                    return "the value %r of %r came out as %r" % (v, h, x)
        bad = len([x for x in lines if x and x not in [y for y in lines if y.startswith("{") and valid(y)]])
        if bad and not res.err.strip():
            return "a line which isn't an object was dropped silently"
    go("jsonl2csv/%d" % i, "jsonl2csv", [], text.encode(), judge)


def valid(s):
    try:
        return isinstance(json.loads(s), dict)
    except ValueError:
        return False


def thousands(x):
    return "{:,}".format(x).replace(",", "`")


def shown(v):
    if v is ABSENT:
        return ""
    if isinstance(v, str):
        return v
    if isinstance(v, bool) or v is None:
        return {True: "true", False: "false", None: "null"}[v]
    if isinstance(v, (int, float)):
        if v == int(v) and 10000 < v <= 2**53 - 1:
            return thousands(int(v))
        return "%d" % v if v == int(v) else repr(v)
    return json.dumps(v, ensure_ascii=False, separators=(",", ":"))


ABSENT = object()


def table_of(rows):
    keys = list(max(rows, key=len))
    cells = [[shown(row.get(k, ABSENT)) for k in keys] for row in rows]
    w = [max([len(k)] + [len(c[j]) for c in cells]) for j, k in enumerate(keys)]
    bar = "-" * (sum(w) + 3 * max(0, len(w) - 1))
    fmt = lambda c: " | ".join(x.ljust(n) for x, n in zip(c, w))
    return "\n".join(["%d rows" % len(rows), bar, fmt(keys), bar] + [fmt(c) for c in cells] + [bar]) + "\n"


def nested(v):
    # what the formatted JSON of a value needs: no characters whose escaping is a matter of taste
    return v


def json_table(r, i):
    out, lines = [], []
    run_ = []

    def flush():
        if run_:
            out.append(table_of(run_))
            run_.clear()

    def row():
        o = {jkey(r, True): jval(r, True) for _ in range(r.choice([0, 1, 2, 3, 6]))}
        if r.random() < 0.01:
            o = {"k%03d" % j: j for j in range(r.choice([99, 100, 101, 150]))}
        if r.random() < 0.01:
            o["big"] = "v" * r.choice([4000, 4095, 4096, 5000])
        return o
    n = r.choice([1, 2, 5, 12])
    for j in range(n):
        k = r.random()
        last = j == n - 1
        if k < 0.55:
            o = row()
            s = jdump(r, o)
            if r.random() < 0.05 and run_:
                s = " " + s
            lines.append(s)
            run_.append(o)
        elif k < 0.7:
            flush()
            rows = [row() for _ in range(r.choice([1, 2, 4]))]
            lines.append(jdump(r, rows))
            out.append(table_of(rows))
        else:
            flush()
            s = r.choice(["text", "", "12", "{broken", "[1]", "[1,{}]", "[{},1]", '[{"a":1},"x"]', '["x"]', "null", '"s"', " {}x", "[", '{"a":1', "plain {\"a\":1}", "w" * 5000, "[[]]"])
            lines.append(s)
            out.append(s + "\n")
    flush()
    text = "\n".join(lines) + "\n"
    want = "".join(out)
    if r.random() < 0.2:
        text = text[:-1]
        if not text.endswith("\n") and lines[-1] != "" and not valid(lines[-1]) and not istable(lines[-1]):
            want = want[:-1]
        elif lines[-1] == "":
            want = want[:-1]
    go("json-table/%d" % i, "json-table", [], text.encode(), same(want.encode()))


def istable(s):
    try:
        v = json.loads(s)
    except ValueError:
        return False
    return isinstance(v, list) and v and all(isinstance(x, dict) for x in v)


# ---- multicut, zipranges ---------------------------------------------------

WS = b" \t\n\v\f\r"


def multicut(r, i):
    lines = []
    for _ in range(r.choice([0, 1, 2, 5])):
        n = r.choice([0, 1, 2, 3, 5, 14, 100 if r.random() < 0.2 else 4])
        cols = [bytes(r.choice(b"abc,.\xc3\xa90-") for _ in range(r.choice([1, 1, 2, 5, 12]))) for _ in range(n)]
        if cols and r.random() < 0.02:
            cols[r.randrange(n)] = b"long" * r.choice([1023, 1024, 2000])
        s = b"".join(c + b"".join(bytes([r.choice(b" \t")]) for _ in range(r.choice([1, 1, 2, 4]))) for c in cols)
        if r.random() < 0.7:
            s = s.rstrip(b" \t")
        if r.random() < 0.1 and n < 100:
            s = b" " + s
        lines.append(s)
    text = b"".join(x + b"\n" for x in lines)
    if lines and lines[-1] and r.random() < 0.2:
        text = text[:-1]
    sel = [r.choice([1, 2, 3, 4, 5, 14, 0, 100, 101, -1, 2**31 - 1]) for _ in range(r.choice([0, 1, 2, 3, 10]))]
    want = b""
    for s in lines:
        parts = re.split(rb"[ \t\n\v\f\r]+", s)
        if len(parts) > 1 and parts[-1] == b"":
            parts.pop()
        want += b"\t".join(parts[x - 1] if 1 <= x <= len(parts) else b"" for x in sel) + b"\n"
    go("multicut/%d" % i, "multicut", [str(x) for x in sel], text, same(want))


def multicut_limits():
    go("multicut/eleven", "multicut", ["1"] * 11, b"a b\n", refused)
    go("multicut/word", "multicut", ["x"], b"a b\n", refused)
    go("multicut/word2", "multicut", ["1", ""], b"a b\n", refused)
    go("multicut/101", "multicut", ["1"], b"a " * 101 + b"\n", refused)


def zipranges(r, i):
    n = r.choice([0, 1, 2, 5, 20, 100, 3999 if r.random() < 0.05 else 3, 4001 if r.random() < 0.05 else 3, 9000 if r.random() < 0.05 else 4])
    xs = []
    x = r.choice([0, 1, -5, 100, 2**31 - 3, -2**31])
    for _ in range(n):
        xs.append(x)
        k = r.random()
        d = 1 if k < 0.6 else 2 if k < 0.7 else 0 if k < 0.75 else -1 if k < 0.8 else None
        x = x + d if d is not None else r.choice([r.randrange(-2**31, 2**31), 2**31 - 2, 2**31 - 1, -2**31])
        x = min(max(x, -2**31), 2**31 - 1)
    if n > 1000:
        xs = [3 * k if r.random() < 0.9 else 3 * k - 2 for k in range(n)]
    text = "".join("%d%s" % (v, r.choice(["\n", "\n", " ", "\r\n"])) for v in xs)
    ranges = []
    for v in xs:
        if ranges and v == ranges[-1][1] + 1:
            ranges[-1][1] = v
        else:
            ranges.append([v, v])
    go("zipranges/%d" % i, "zipranges", [], text.encode(), same(("".join("%d-%d " % (a, b) for a, b in ranges) + "\n").encode()))


# ---- trim ------------------------------------------------------------------

def trim_ref(data, mode):
    """The result, or None if there is an unknown line ending."""
    out = b""
    pos = 0
    while pos < len(data):
        m = re.compile(rb"[^\r\n]*").match(data, pos)
        line = m.group().rstrip(b" \t\v\f")
        pos = m.end()
        eol = b""
        if data[pos:pos + 2] == b"\r\n":
            eol = b"\r\n"
        elif data[pos:pos + 1] == b"\n":
            eol = b"\n"
        elif pos < len(data):
            return None
        pos += len(eol)
        out += line + {"same": eol, "unix": b"\n", "win": b"\r\n"}[mode]
    return out


def trim(r, i):
    d = os.path.join(ck.scratch, "trim%d" % i)
    os.makedirs(d)
    mode = r.choice(["same", "unix", "win", None])
    files, args, order = [], [], []
    for k in range(r.choice([1, 1, 2, 4])):
        name = "f%d.txt" % k
        p = os.path.join(d, name)
        kind = r.random()
        if kind < 0.08:
            os.makedirs(p)
            args.append(name)
            continue
        if kind < 0.11:
            args.append("missing%d" % k)
            files.append((name, None, None))
            break
        eols = r.choice([[b"\n"], [b"\r\n"], [b"\n", b"\r\n"]])
        data = b""
        for _ in range(r.choice([0, 1, 2, 5, 30])):
            n = r.choice([0, 0, 1, 3, 10, 80])
            if r.random() < 0.02:
                n = r.choice([4095, 4096, 4097, 9000])
            data += bytes(r.choice(b"ab \t\xc3\xa9\xff\x00x") for _ in range(n)) + r.choice([b"", b"", b" ", b"\t ", b" \f", b"\v"]) + r.choice(eols)
        if r.random() < 0.4 and data:
            data = data.rstrip(b"\r\n") + r.choice([b"", b"  "])
        if r.random() < 0.08:
            j = r.randrange(len(data) + 1)
            data = data[:j] + b"\r" + data[j:]
        with open(p, "wb") as f:
            f.write(data)
        os.utime(p, (1000000000, 1000000000))
        args.append(name)
        files.append((name, data, trim_ref(data, mode or "unix")))

    def judge(res):
        listed = []
        fail = False
        for name, data, want in files:
            p = os.path.join(d, name)
            if data is None:
                fail = True
                break
            with open(p, "rb") as f:
                got = f.read()
            if fail:
                if got != data:
                    return "%s was changed after the failure" % name
                continue
            if want is None:
                fail = True
                if got != data:
                    return "%r became %r though its line endings aren't known" % (data[:300], got[:300])
                continue
            if got != want:
                k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                return "%r became ...%r instead of ...%r (byte %d)" % (data[:200], got[max(0, k - 20):k + 60], want[max(0, k - 20):k + 60], k)
            if want != data:
                listed.append(name)
            elif os.stat(p).st_mtime != 1000000000:
                return "%s needed no change and was written" % name
        if res.rc != int(fail):
            return "exit status %s instead of %d: %s" % (res.rc, fail, res.etext[-200:])
        if res.text.split("\n")[:-1] != listed:
            return "lists %r as changed instead of %r" % (res.text.split("\n")[:-1], listed)
        if sorted(os.listdir(d)) != sorted(a for a in args if not a.startswith("missing")):
            return "the directory has %r" % os.listdir(d)
    go("trim/%d" % i, "trim", (["-l", mode] if mode else []) + args, b"", judge, cwd=d)
    run(["rm", "-rf", d])


# ---- logfmt, decompose, datelog --------------------------------------------

TZS = [("UTC", 0), ("Asia/Kolkata", 330), ("America/Caracas", -240), ("<+0545>-5:45", 345)]


def col(n):
    return "\x1b[%dm" % n


def lval(v):
    if isinstance(v, str):
        return v
    if isinstance(v, dict):
        return ";".join("%s:%s" % (k, lval(x)) for k, x in v.items())
    if v is None:
        return "null"
    if isinstance(v, list):
        return "(array)"
    if isinstance(v, bool):
        return "true" if v else "false"
    return "%.0f" % v if v == int(v) and abs(v) <= 2**53 - 1 else "%.17g" % v


def lkv(k, v):
    if isinstance(v, dict):
        return " ".join(lkv(k + "." + a, b) for a, b in v.items())
    return "%s=%s" % (k, lval(v))


def logfmt(r, i):
    tz, off = r.choice(TZS)
    lines, out = [], []
    excl = [jkey(r, True).replace(",", "") for _ in range(r.choice([0, 0, 1, 2, 3]))]
    excl = [x for x in excl if x]
    if r.random() < 0.02:
        excl += ["e%d" % k for k in range(90)]
    for _ in range(r.choice([1, 2, 5])):
        if r.random() < 0.2:
            s = r.choice(["plain text", "", "{", "12", "[1,2]", '"str"', "null", "true", '{"a":1', "x" * 5000, "[{}]", "[]"])
            lines.append(s)
            out.append(s + "\n")
            continue
        e = {}
        parts = ["level", "time", "msg", "fields", "data"]
        r.shuffle(parts)
        ts = None
        for p in parts:
            if p == "level" and r.random() < 0.8:
                e["level"] = r.choice(["info", "INFO", "error", "ERROR", "warn", "Debug", "x", "", 5, None])
            elif p == "time" and r.random() < 0.8:
                ts = datetime.datetime(2024, 1, 1) + datetime.timedelta(milliseconds=r.randrange(10**11))
                zone = r.choice([0, 0, 120, -330])
                z = "Z" if zone == 0 else "%s%02d:%02d" % ("-" if zone < 0 else "+", abs(zone) // 60, abs(zone) % 60)
                s = (ts + datetime.timedelta(minutes=zone)).strftime("%Y-%m-%dT%H:%M:%S") + (".%03d" % (ts.microsecond // 1000) if r.random() < 0.7 else "")
                if "." not in s:
                    ts = ts.replace(microsecond=0)
                e[r.choice(["t", "timestamp", "@timestamp"])] = s + z
            elif p == "msg" and r.random() < 0.8:
                e[r.choice(["msg", "message"])] = jval(r, True)
                if r.random() < 0.1:
                    e["message"] = "second"
            elif p == "fields":
                for _ in range(r.choice([0, 1, 2, 4])):
                    k = jkey(r, True)
                    if k not in ("msg", "message", "t", "data", "level"):
                        e[k] = jval(r, True)
                if r.random() < 0.03:
                    e["deep" * 20] = {"er" * 30: {"x": 1}}
            elif p == "data" and r.random() < 0.2:
                e["data"] = jval(r, True)
        lines.append(jdump(r, e))
        s = ""
        lev = e.get("level")
        if isinstance(lev, str):
            s += col(31 if lev in ("error", "ERROR") else 34 if lev in ("info", "INFO") else 33) + lev.lower() + col(0)
        else:
            s += "none"
        s += " " + col(2)
        if ts is not None:
            s += (ts + datetime.timedelta(minutes=off)).strftime("%H:%M:%S") + ".%03d" % (ts.microsecond // 1000)
        s += col(0) + " " + col(1)
        if "msg" in e:
            s += lval(e["msg"])
        elif "message" in e:
            s += lval(e["message"])
        s += col(0) + " " + col(2)
        for k, v in e.items():
            if k in ("level", "t", "timestamp", "@timestamp", "msg", "message", "data") or k in excl:
                continue
            s += " " + lkv(k, v)
        s += col(0)
        if "data" in e:
            s += "\n" + lval(e["data"])
        out.append(s + "\n")
    text = "\n".join(lines) + "\n"
    go("logfmt/%d" % i, "logfmt", ["-x", ",".join(excl)] if excl else [], text.encode(), same("".join(out).encode()), env={"TZ": tz})


def logfmt_many(n):
    # more names than there is place for: whatever it does about the rest, it mustn't break
    def judge(res):
        if res.rc not in (0, 1):
            return "exit status %s" % res.rc
    go("logfmtx/%d" % n, "logfmt", ["-x", ",".join("e%d" % k for k in range(n))], b'{"a":1}\n', judge)


def decompose(r, i):
    lines, out = [], []
    for _ in range(r.choice([1, 2, 5])):
        c1 = r.choice(["", "\x1b[36m", "\x1b[33;1m", "\x1b[38;12m", "\x1b[0m"])
        name = r.choice(["web", "db-1", "a", "app_web_1", "n" * r.choice([99, 100, 150]) if r.random() < 0.1 else "x1"])
        c2 = r.choice(["", "\x1b[0m"])
        rest = r.choice(["hello world", "", "x", '{"a":1}', '{ "a" : {} }', "{}", "{ }", "  two  spaces", "{broken", "\x1b[31mred", "| bar", '{"m":"x|y"}', "y" * 5000])
        lines.append(c1 + name + " " * r.choice([1, 2, 5]) + r.choice(["|", "|", "|", ""]) + c2 + " " * r.choice([0, 1, 2]) + rest)
        # the reference works on the line as written
        p = lines[-1]
        strip = lambda p: re.sub(r"^\x1b\[[0-9]*(;[0-9]*)?m", "", p)
        p = strip(p)
        m = re.match(r"[^ ]*", p)
        p = p[m.end():].lstrip(" ")
        if p.startswith("|"):
            p = p[1:]
        p = strip(p).lstrip(" ")
        if p.startswith("{"):
            comma = "" if p[1:].lstrip(" ").startswith("}") else ","
            out.append('{"container":"%s"%s%s' % (m.group(), comma, p[1:]))
        else:
            out.append("[%s] %s" % (m.group(), p))
    text = "\n".join(lines)
    want = "\n".join(out)
    if r.random() < 0.8:
        text, want = text + "\n", want + "\n"
    go("decompose/%d" % i, "decompose", [], text.encode(), same(want.encode()))
    if r.random() < 0.05:
        w = r.choice(["word", "\x1b[36mword", "w" * 200])
        go("decompose/word/%d" % i, "decompose", [], w.encode(), same(("[%s] " % w.replace("\x1b[36m", "")).encode()))


def datelog(r, i):
    d = os.path.join(ck.scratch, "dl%d" % i)
    os.makedirs(d)
    total = b""
    for k in range(r.choice([1, 2, 3])):
        text = b"".join(bytes(r.choice(b"abc \xc3\xa9%s") for _ in range(r.choice([0, 1, 10, 8191, 8192, 9000] if r.random() < 0.2 else [0, 3, 20]))) + b"\n" for _ in range(r.choice([0, 1, 3, 10])))
        if r.random() < 0.3:
            text += b"tail"
        total += text
        echo = r.random() < 0.5
        t0 = datetime.datetime.now(datetime.timezone.utc)

        def judge(res):
            t1 = datetime.datetime.now(datetime.timezone.utc)
            m = same(text if echo else b"")(res)
            if m:
                return m
            files = os.listdir(d)
            names = {"%d-%02d.log" % (t.year, t.month) for t in (t0, t1)}
            if not set(files) <= names or (total and not files):
                return "the directory has %r, expected %r" % (files, names)
            got = b""
            for n in sorted(files):
                with open(os.path.join(d, n), "rb") as f:
                    got += f.read()
            if got != total:
                return "the log has %r instead of %r" % (got[-200:], total[-200:])
        go("datelog/%d/%d" % (i, k), "datelog", ["-o"] if echo else [], text, judge, cwd=d, env={"TZ": "UTC"})
    run(["rm", "-rf", d])


def main_check():
    ck.build_che()
    def build(p):
        if p == "options":
            BIN[p] = ck.harness("options")
            return
        BIN[p] = os.path.join(ck.scratch, "prog-" + p)
        res = ck.che_build(os.path.join(REPO, "prog", p, p + ".c"), BIN[p])
        if res.rc != 0 or not os.path.exists(BIN[p]):
            raise CheckError("%s does not build: %s %s" % (p, res.text[-500:], res.etext[-1500:]))
    ck.pmap(build, ["options"] + TOOLS)
    jobs = []
    for f in fixed_options():
        jobs.append(lambda f=f: one_options(*f))
    jobs += [many_flags, dispatch_limit, multicut_limits, lambda: logfmt_many(99), lambda: logfmt_many(101), lambda: logfmt_many(300)]
    for fn, quick, deep in ((options, 1200, 12000), (dispatch, 120, 1200), (csv2json, 500, 6000), (jsonl2csv, 600, 8000), (json_table, 700, 10000),
                            (multicut, 500, 6000), (zipranges, 300, 4000), (trim, 600, 8000), (logfmt, 600, 8000), (decompose, 300, 4000), (datelog, 100, 1000)):
        for i in range(ck.n(quick, deep)):
            jobs.append(lambda fn=fn, i=i: fn(ck.rng(fn.__name__, i), i))
    ck.pmap(lambda j: j(), jobs)
    ck.finish()


main(main_check)
