"""P14: JSON documents are read and written as the standard says, without losing anything."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P14", rule="a distinct document parsed, formatted, cloned and parsed again, compared with an independent implementation")


class Bad(Exception):
    pass


class Obj(list):
    pass


def strict(text, every=False):
    """The standard's value of the text, or Bad; with every=True repeated keys are kept."""
    def no(_):
        raise Bad()
    try:
        return json.loads(text, object_pairs_hook=lambda p: Obj(p) if every else Obj(dict(p).items()), parse_constant=no, parse_int=float, parse_float=float)
    except (ValueError, RecursionError):
        raise Bad()


WS = " \t\n\r\v\f"


def lenient(t):
    """Raises Bad only on texts that no reasonable reader takes for JSON: it
    allows leading zeros, odd escapes, raw control characters and the like."""
    pos = [0]

    def ws():
        while pos[0] < len(t) and t[pos[0]] in WS:
            pos[0] += 1

    def need(c):
        ws()
        if pos[0] >= len(t) or t[pos[0]] != c:
            raise Bad()
        pos[0] += 1

    def peek():
        ws()
        return t[pos[0]] if pos[0] < len(t) else ""

    def string():
        need('"')
        while True:
            if pos[0] >= len(t):
                raise Bad()
            c = t[pos[0]]
            pos[0] += 1
            if c == '"':
                return
            if c == "\\":
                pos[0] += 1

    def value():
        c = peek()
        if c == "[":
            pos[0] += 1
            if peek() == "]":
                pos[0] += 1
                return
            while True:
                value()
                if peek() != ",":
                    break
                pos[0] += 1
            need("]")
        elif c == "{":
            pos[0] += 1
            if peek() == "}":
                pos[0] += 1
                return
            while True:
                string()
                need(":")
                value()
                if peek() != ",":
                    break
                pos[0] += 1
            need("}")
        elif c == '"':
            string()
        else:
            m = re.compile(r"-?[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?|true|false|null").match(t, pos[0])
            if not m:
                raise Bad()
            pos[0] = m.end()
    value()
    if peek():
        raise Bad()


def dump(v):
    if v is None:
        return "n"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, float):
        return "N%.17g" % v
    if isinstance(v, str):
        return "S" + v.encode("utf-8", "surrogatepass").hex()
    if isinstance(v, Obj):
        return "{%d" % len(v) + "".join(",%s:%s" % (k.encode("utf-8", "surrogatepass").hex(), dump(x)) for k, x in v) + "}"
    return "[%d" % len(v) + "".join("," + dump(x) for x in v) + "]"


def odd(v):
    """Values the library has no means to hold: zero characters, lone surrogates, infinite numbers."""
    if isinstance(v, float):
        return v in (float("inf"), float("-inf"))
    if isinstance(v, str):
        return "\0" in v or any(0xD800 <= ord(c) < 0xE000 for c in v)
    if isinstance(v, Obj):
        return any(odd(k) or odd(x) for k, x in v)
    if isinstance(v, list):
        return any(map(odd, v))
    return False


SPEC = "\n\t\r\b\f\"\\/\x01\x1f\x7f é\u07ff\u0800\ud7ff\ue000\uffff\U00010000\U0010ffff\u2028abnrtu0"


def gstr(r, n=None):
    n = n if n is not None else r.choice([0, 1, 1, 2, 3, 5, 9, 20, 62, 63, 64, 65, 127, 128])
    if r.random() < 0.3:
        return "".join(r.choice("abcxyz 019_-") for _ in range(n))
    return "".join(r.choice(SPEC) if r.random() < 0.6 else
                   chr(r.choice([r.randrange(1, 0x80), r.randrange(0x80, 0xd800), r.randrange(0xe000, 0x110000)])) for _ in range(n))


def enc(r, s):
    o = ['"']
    for c in s:
        k = r.random()
        short = {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\b": "\\b", "\f": "\\f", '"': '\\"', "\\": "\\\\", "/": "\\/"}.get(c)
        u = c.encode("utf-16-be", "surrogatepass").hex()
        esc = "".join("\\u" + (u[i:i + 4] if r.random() < 0.5 else u[i:i + 4].upper()) for i in range(0, len(u), 4))
        if short and k < 0.6:
            o.append(short)
        elif k > 0.8 or c in '"\\' or ord(c) < 32:
            o.append(esc)
        else:
            o.append(c)
    return "".join(o) + '"'


def gnum(r):
    k = r.randrange(9)
    if k == 0:
        return str(r.choice([0, 1, -1, 9, 10, 99, 100, 2**31 - 1, 2**31, -2**31, 2**32, 2**53, 2**53 - 1, 2**53 + 2, 10**15, 10**15 - 1, 10**16, 2**63, 10**21]))
    if k == 1:
        return "%d" % r.randrange(-10**r.randrange(1, 25), 10**r.randrange(1, 25))
    if k == 2:
        return repr(r.uniform(-1, 1) * 10 ** r.randrange(-20, 20)).replace("inf", "1")
    if k == 3:
        return "%s%d.%s" % (r.choice(["", "-"]), r.randrange(100), "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 5, 17, 40]))))
    if k == 4:
        return "%s%d%s%s%d" % (r.choice(["", "-"]), r.randrange(1000), r.choice("eE"), r.choice(["", "+", "-"]), r.choice([0, 1, 5, 20, 100, 300]))
    if k == 5:
        return "%d.%de%d" % (r.randrange(10), r.randrange(1000), r.randrange(-300, 300))
    if k == 6:
        return r.choice(["-0", "0.0", "0e5", "1e308", "1.7976931348623157e308", "5e-324", "2.2250738585072014e-308", "0.1", "0.3", "123456.789", "1e22", "1e23", "0.1e1", "100e-2"])
    if k == 7:
        return "1" + "0" * r.choice([14, 15, 16, 50, 96, 97])
    return str(r.randrange(10000))


def gen(r, depth, w):
    """text of a random document"""
    k = r.randrange(10 if depth > 0 else 6)
    if k == 0:
        return r.choice(["true", "false", "null"])
    if k in (1, 2):
        return gnum(r)
    if k < 6:
        return enc(r, gstr(r))
    n = r.choice([0, 1, 1, 2, 3, 5] + ([15, 16, 17, 33] if depth < 3 else []))
    if k < 8:
        return "[" + w() + ("%s,%s" % (w(), w())).join(gen(r, depth - 1, w) for _ in range(n)) + w() + "]"
    keys = [gstr(r, r.choice([0, 1, 1, 2, 8])) for _ in range(n)]
    if keys and r.random() < 0.2:
        keys.append(r.choice(keys))
    return "{" + w() + ("%s,%s" % (w(), w())).join("%s%s:%s%s" % (enc(r, x), w(), w(), gen(r, depth - 1, w)) for x in keys) + w() + "}"


def judge(text):
    try:
        v = strict(text)
        want = "odd" if odd(strict(text, True)) else "ok"
    except Bad:
        v = None
        try:
            lenient(text)
            want = "any"
        except (Bad, RecursionError):
            want = "err"
    if want == "ok" and any(len(x) > 98 for x in re.findall(r"[-+0-9.eE]{90,}", text)):
        want = "odd"
    ck.count({"ok": "valid_documents", "err": "invalid_documents"}.get(want, "tolerated_documents"))

    def j(rep):
        t = rep.split(" ")
        if t[0] == "err":
            if len(t) != 4 or t[1] != "1" or t[2] in ("-", "NULL"):
                return "an error with a value or without a message"
            if t[3] != "1":
                return "memory is lost when parsing fails"
            if want == "ok":
                return "a valid document is rejected: %r" % unhx(t[2])
            return None
        if want in ("odd", "any") and t[0] == "ok" and t[5:6] == ["reparse"]:
            return None if t[-1] == "1" else "memory is lost"
        if t[0] != "ok" or len(t) != 7:
            return "unexpected reply"
        if want == "err":
            return "a broken document is accepted"
        if t[6] != "1":
            return "memory is lost"
        if t[3] != t[1]:
            return "a clone differs from the original"
        if t[4] == "0":
            return "formatwr and format disagree"
        if want == "ok":
            if t[1] != dump(v):
                return "parsed as %s, expected %s" % (t[1][:200], dump(v)[:200])
            try:
                back = strict(unhx(t[2]).decode("utf-8"))
            except (Bad, UnicodeDecodeError):
                return "the formatted text %r is not valid JSON" % unhx(t[2])[:200]
            if dump(back) != dump(v):
                return "the formatted text %r means something else" % unhx(t[2])[:200]
            if t[5] != t[1]:
                return "the formatted text is parsed as something else"
        return None
    return j


def main_():
    ck.build_che()
    h = ck.harness("jsonh")
    cases = []
    r = ck.rng("docs")
    docs = []
    for i in range(ck.n(2500, 40000)):
        p = r.choice([0, 0, 0.3])
        docs.append(gen(r, r.choice([0, 1, 2, 3, 4]), lambda: "".join(r.choice(" \t\n\r") for _ in range(r.randrange(3))) if r.random() < p else ""))
    for n in (1, 9, 10, 11, 100, 400):
        docs += ["[" * n + "]" * n, '{"a":' * n + "1" + "}" * n, "[" * n + "]" * (n - 1), "[" * n + "]" * (n + 1)]
    docs += ["[" + ",".join(str(i) for i in range(n)) + "]" for n in (15, 16, 17, 32, 33, 64, 65, 1000)]
    docs += ["{" + ",".join('"k%d":%d' % (i, i) for i in range(n)) + "}" for n in (15, 16, 17, 32, 33, 64, 65, 500)]
    docs += ['"' + "x" * n + '"' for n in (62, 63, 64, 127, 128, 129, 1000, 5000)]
    docs += ['"' + "\u00e9" * n + '"' for n in (31, 32, 33, 64)] + ['"x' + "\\u20ac" * n + '"' for n in (20, 21, 22, 42)]
    docs += ["1" * n for n in (97, 98, 99, 100, 101, 150, 400)] + ["0." + "1" * n for n in (96, 97, 98, 99, 400)] + ["1e" + "0" * 300 + "1"]
    docs += ["", " ", "nul", "tru", "truex", "[1,]", "[,1]", "{,}", '{"a"}', '{"a":}', '{"a":1,}', "{1:2}", "[1 2]", "1 2", "[]]", "{}}", '"a', '"a\\',
             '"\\u12"', '"\\ud83d\\ude00"', "-", "1.", "1e", "1e+", ".5", "+1", "[1}", "{]", '{"a":1]', "nullnull", "[true false]", "'a'", "{'a':1}",
             '"a" "b"', '{"a":1 "b":2}', '{"a" 1}', "]", "}", ":", ",", "[[1,2],[3]", '{"a":{"b":1}']
    base = len(docs)
    for i in range(ck.n(3500, 60000)):
        d = docs[r.randrange(base)]
        if len(d) > 3000:
            continue
        k = r.randrange(5)
        p = r.randrange(len(d) + 1)
        if k == 0:
            d = d[:p]
        elif k == 1:
            d = d[:p] + d[p + 1:]
        elif k == 2:
            d = d[:p] + r.choice('[]{}",:0-.eEtfn\\ 1') + d[p:]
        elif k == 3:
            d = d[:p] + r.choice('[]{}",:0-.eEtfn\\ 1') + d[p + 1:]
        else:
            q = r.randrange(len(d) + 1)
            d = d[:p] + d[q:q + r.randrange(6)] + d[p:]
        docs.append(d)
    for i, d in enumerate(docs):
        if "\0" in d:
            continue
        cases.append(Case("json %s %d" % (hx(d.encode("utf-8", "surrogatepass")), r.choice([0, 100, 100000])), judge(d), "doc/%d" % i, {"text": d[:2000]}))
    # changing values of keys
    for i in range(ck.n(400, 6000)):
        keys = [gstr(r, r.choice([0, 1, 3])) for _ in range(r.choice([1, 3, 20]))]
        start = [(k, float(j)) for j, k in enumerate(keys[:r.randrange(len(keys) + 1)])]
        d = dict(start)
        isobj = r.random() < 0.9
        text = "{" + ",".join("%s:%d" % (enc(r, k), v) for k, v in start) + "}" if isobj else r.choice(["[]", "1", '"x"', "null"])
        args = []
        for _ in range(r.choice([1, 3, 20, 40])):
            k = r.choice(keys)
            t = gen(r, 2, lambda: "")
            while odd(strict(t)) or re.search(r"[-+0-9.eE]{90,}", t):
                t = gen(r, 2, lambda: "")
            d[k] = strict(t)
            args += [hx(k.encode()), hx(t.encode())]
        if isobj:
            o = Obj(d.items())
            head = ["1"] * (len(args) // 2)
        else:
            o = strict(text)
            head = ["0"] * (len(args) // 2)

        def jput(rep, o=o, head=head):
            t = rep.split(" ")
            if t[:len(head)] != head or len(t) != len(head) + 3:
                return "expected %s" % " ".join(head)
            t = t[len(head):]
            if t[0] != dump(o):
                return "expected %s" % dump(o)[:300]
            if dump(strict(unhx(t[1]).decode())) != dump(o):
                return "formatted as something else"
            if t[2] != "1":
                return "memory is lost"
        cases.append(Case("put %s %s" % (hx(text.encode()), " ".join(args)), jput, "put/%d" % i))
    for i in range(ck.n(300, 4000)):
        s = gstr(r)

        def jw(rep, s=s):
            b = unhx(rep)
            try:
                ok = json.loads(b.decode()) == s
            except ValueError:
                ok = False
            return None if ok else "written as %r, which is not the same string" % b[:200]
        cases.append(Case("wstr %s %s/ws%d" % (hx(s.encode()), ck.scratch, i), jw, "wstr/%d" % i, {"string": s}))
    ck.rng("mix").shuffle(cases)
    for c in cases[:6]:
        ck.sample({"request": c.line[:300]})
    run_cases(ck, h, cases, batch=150)
    ck.finish()


main(main_)
