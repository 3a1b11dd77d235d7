"""P13: digests and byte encodings agree with their published definitions."""
import hashlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P13", rule="a distinct message digested or encoded and compared with an independent implementation")


def rb(r, n):
    k = r.randrange(4)
    if k == 0:
        return b"\xff" * n
    if k == 1:
        return bytes(n)
    if k == 2:
        return bytes(r.choice(b"\0\x7f\x80\xfe\xff\x41\x20%") for _ in range(n))
    return bytes(r.getrandbits(8) for _ in range(n))


def main_():
    ck.build_che()
    h = ck.harness("codecs")
    cases = []
    r = ck.rng("md")
    lens = list(range(0, 140)) + [182, 183, 184, 191, 192, 193, 247, 248, 255, 256, 257, 1000, 4095, 4096, 4097] + \
        [r.randrange(140, 9000) for _ in range(ck.n(20, 600))] + [70000]
    if not ck.quick:
        lens += [600000] + list(range(140, 700))
    for n in lens:
        for k in range(ck.n(2, 4)):
            d = rb(r, n)
            t = d.split(b"\0")[0]
            a, b = hashlib.md5(d).hexdigest(), hashlib.md5(t).hexdigest()
            cases.append(Case("md5 " + hx(d), expect("%s %s %d" % (a, b, a == b)), "md5/%d/%d" % (n, k)))
            s = hashlib.sha1(d).hexdigest()
            one = "1 %s 0 %s 0" % (s.encode().hex(), s)
            cases.append(Case("sha1 " + hx(d), expect(one + " " + one), "sha1/%d/%d" % (n, k)))
    r = ck.rng("enc")
    for i in range(ck.n(600, 8000)):
        d = bytes(range(256)) if i == 0 else rb(r, r.choice([0, 1, 2, 3, 10, 100]))
        o = d.hex().encode()
        cap = r.choice([0, 1, 2, 3, 4, 7, 20, 1000])
        if len(o) <= cap:
            tail = "%d %s" % (len(d), hx(o))
        elif cap == 0:
            tail = None
        else:
            tail = None

        def jhex(rep, d=d, o=o, cap=cap):
            t = rep.split(" ")
            if len(t) != 4 or t[0] != str(len(d)) or t[1] != hx(o):
                return "expected %d %s" % (len(d), o[:80])
            w = unhx(t[3])
            if not o.startswith(w) or len(w) > cap:
                return "a full writer got something else"
            if len(o) <= cap and (t[2] != str(len(d)) or w != o):
                return "incomplete output to a writer with enough space"
            if len(o) > cap and not (int(t[2]) < len(d)):
                return "success is reported though the output did not fit"
        cases.append(Case("hex %s %d" % (hx(d), cap), jhex, "hex/%d" % i))
        u = b"".join(bytes([c]) if chr(c) in "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ" else b"%%%02X" % c for c in d)

        def jurl(rep, d=d, o=u, cap=cap):
            t = rep.split(" ")
            if len(t) != 4 or t[0] != str(len(o)) or t[1] != hx(o):
                return "expected %d %s" % (len(o), o[:80])
            w = unhx(t[3])
            if not o.startswith(w) or len(w) > cap:
                return "a full writer got something else"
            if len(o) <= cap and (t[2] != str(len(o)) or w != o):
                return "incomplete output to a writer with enough space"
            if len(o) > cap and int(t[2]) >= 0:
                return "success is reported though the output did not fit"
        cases.append(Case("urlencode %s %d" % (hx(d), cap), jurl, "url/%d" % i))
    for i in range(ck.n(400, 8000)):
        d = rb(r, 16)
        v = r.choice([0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, r.getrandbits(32), r.getrandbits(32)])
        L, B = (lambda a, b: int.from_bytes(d[a:b], "little")), (lambda a, b: int.from_bytes(d[a:b], "big"))
        e = [d[0], L(1, 3), B(3, 5), L(5, 8), B(8, 12), L(12, 16), -1, 0, 1, 2, 4, 4]
        o = bytes([v & 255]) + (v & 65535).to_bytes(2, "little") + v.to_bytes(4, "big") + v.to_bytes(4, "little")
        cases.append(Case("endian %s %d" % (hx(d), v), expect(" ".join(map(str, e)) + " " + o.hex()), "endian/%d" % i))
    ck.rng("mix").shuffle(cases)
    ck.sample({"request": cases[0].line[:300]})
    run_cases(ck, h, cases, batch=100)
    ck.finish()


main(main_)
