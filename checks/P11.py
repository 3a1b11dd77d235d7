"""P11: containers behave like their mathematical models under any history."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P11", rule="a distinct (container, history) whose every observation was compared with the model",
           assumptions=["values pushed do not alias the container's own storage"])


def rb(r, n):
    return bytes(r.getrandbits(8) for _ in range(n))


class Seq:
    """expected reply tokens; a callable consumes tokens itself"""
    def __init__(self):
        self.t = []

    def add(self, *x):
        self.t += [str(v) if not callable(v) else v for v in x]

    def judge(self, leak=True):
        exp = self.t + (["0"] if leak else [lambda ts, i: i + 1])

        def j(rep):
            ts = rep.split(" ")
            i = 0
            for k, e in enumerate(exp):
                if callable(e):
                    i2 = e(ts, i)
                    if isinstance(i2, str):
                        return i2
                    i = i2
                else:
                    if i >= len(ts) or ts[i] != e:
                        if k == len(exp) - 1 and i < len(ts):
                            return "%s bytes are still allocated after freeing" % ts[i]
                        return "observation %d: expected %s, got %s" % (k, e[:100], ts[i][:100] if i < len(ts) else "nothing")
                    i += 1
            return None if i == len(ts) else "unexpected extra output"
        return j


def g_vec(r, big):
    sz = r.choice([1, 2, 3, 4, 8, 12, 16, 24, 100])
    n = r.choice([3, 20, 40, 200] + ([3000] if big else []))
    m, ops, e = [], [], Seq()
    for _ in range(n):
        k = r.random()
        if k < .45:
            d = rb(r, sz)
            ops.append("push:" + hx(d))
            m.append(d)
        elif k < .6:
            d = rb(r, sz)
            ops.append("alloc:" + hx(d))
            e.add(hx(bytes(sz)))
            m.append(d)
        elif k < .85 and m:
            i = r.choice([0, len(m) - 1, r.randrange(len(m))])
            ops.append("get:%d" % i)
            e.add(hx(m[i]))
        elif k < .95 and m:
            i = r.randrange(len(m))
            m[i] = rb(r, sz)
            ops.append("put:%d:%s" % (i, hx(m[i])))
        else:
            ops.append("len")
            e.add(len(m))
    for i, x in enumerate(m):
        ops.append("get:%d" % i)
        e.add(hx(x))
    return "vec %d" % sz, ops, e


def keys(r):
    k = r.randrange(5)
    if k == 0:
        return [rb(r, r.randrange(0, 6)) for _ in range(r.randrange(1, 12))]
    if k == 1:
        return [b"Aa" * i + b"BB" * j + b"C" * x for i in range(3) for j in range(3) for x in range(2)] + [b""]
    if k == 2:
        return [b"\0" * i for i in range(9)] + [b"\0\1", b"\1\0", b"\1"]
    if k == 3:
        return [b"key%d" % i for i in range(r.choice([20, 60, 130, 300]))]
    # same low bits: multiples of 64 under the 31-hash
    return [bytes([0, i]) for i in range(0, 256, 4)] + [rb(r, 40) for _ in range(5)]


def g_map(r, big):
    sz = r.choice([1, 2, 4, 8, 3, 7])
    ks = keys(r)
    strs = r.random() < .3
    if strs:
        ks = [k.replace(b"\0", b"z") for k in ks]
    m, ops, e = {}, [], Seq()
    for _ in range(r.choice([10, 60, 300] + ([2000] if big else []))):
        k = r.choice(ks)
        sk = k + b"\0" if strs else k
        x = r.random()
        if x < .5:
            v = rb(r, sz)
            m[sk] = v
            ops.append("%s:%s:%s" % ("sets" if strs else "set", hx(k), hx(v)))
        elif x < .9:
            ops.append("%s:%s" % ("gets" if strs else "get", hx(k)))
            e.add(1 if sk in m else 0, hx(m.get(sk, b"\xee" * sz)))
        else:
            ops.append("size")
            e.add(len(m))
        if r.random() < .03:
            cap = r.choice([0, 1, 3, 400])
            want = sorted((hx(a) if len(a) <= cap else "-", hx(b)) for a, b in m.items())
            ops.append("iter:%d" % cap)

            def f(ts, i, want=want):
                n = len(want)
                got = sorted(zip(ts[i:i + 2 * n:2], ts[i + 1:i + 2 * n:2]))
                if got != want:
                    return "iteration visited %r, expected %r" % (got[:6], want[:6])
                if ts[i + 2 * n:i + 2 * n + 1] != ["0"]:
                    return "the iteration does not end after %d entries" % n
                return i + 2 * n + 1
            e.add(f)
    return "map %d" % sz, ops, e


def g_map2(r, big):
    ks = keys(r)
    m, ops, e = {}, [], Seq()
    for _ in range(r.choice([10, 60, 300] + ([3000] if big else []))):
        k = r.choice(ks)
        if r.random() < .5:
            v = rb(r, r.choice([0, 1, 4, 8, 30, 200]))
            m[k] = v
            ops.append("set:%s:%s" % (hx(k), hx(v)))
        else:
            ops.append("get:%s:%d" % (hx(k), len(m.get(k, b""))))
            e.add(hx(m[k]) if k in m else "NULL")
    for k in ks:
        ops.append("get:%s:%d" % (hx(k), len(m.get(k, b""))))
        e.add(hx(m[k]) if k in m else "NULL")
    return "map2", ops, e


def g_st(r, big):
    ks = [k.replace(b"\0", b"%s") for k in keys(r)]
    m, ops, e = {}, [], Seq()
    for _ in range(r.choice([10, 60, 300])):
        k = r.choice(ks)
        if r.random() < .5:
            v = rb(r, r.choice([0, 1, 4, 30, 2000])).replace(b"\0", b"%d")
            m[k] = v
            ops.append("set:%s:%s" % (hx(k), hx(v)))
        else:
            ops.append("get:%s" % hx(k))
            e.add(hx(m[k]) if k in m else "NULL")
    for k in ks:
        ops.append("get:%s" % hx(k))
        e.add(hx(m[k]) if k in m else "NULL")
    return "stringtable", ops, e


def g_buffer(r, big):
    q, ops, e = b"", [], Seq()
    for _ in range(r.choice([5, 30, 200])):
        x = r.random()
        if x < .4:
            d = rb(r, r.choice([0, 1, 1, 2, 5, 100]))
            ops.append("write:" + hx(d))
            e.add(1 if d else 0)
            q += d
        elif x < .85:
            n = r.choice([0, 1, 2, 3, 10, 250])
            ops.append("read:%d" % n)
            e.add(hx(q[:n]))
            q = q[n:]
        else:
            ops.append("size")
            e.add(len(q))
    return "buffer", ops, e


def g_llist(r, big):
    m, ops, e = [], [], Seq()
    for _ in range(r.choice([5, 30, 100])):
        x = r.random()
        i = r.randrange(1, 9)
        if x < .45:
            m.append(i)
            ops.append("append:%d" % i)
        elif x < .75:
            if i in m:
                m.remove(i)
            ops.append("remove:%d" % i)
        elif x < .8:
            ops.append("null")
        else:
            ops.append("walk")
            e.add("[", *m)
            e.add("]")
    ops.append("walk")
    e.add("[", *m)
    e.add("]")
    return "llist", ops, e


def g_sb(r, big):
    s, ops, e = b"", [], Seq()
    for _ in range(r.choice([5, 30, 100])):
        x = r.random()
        d = rb(r, r.choice([0, 1, 2, 7, 15, 16, 17, 33, 500, 1500])).replace(b"\0", b"%")
        if x < .3:
            ops.append("addc:" + hx(d))
            s += d
        elif x < .55:
            ops.append("adds:" + hx(d))
            e.add(1)
            s += d
        elif x < .7:
            n = r.randrange(-99999, 99999)
            ops.append("addf:%s:%d" % (hx(d), n))
            e.add(1)
            s += b"<" + d + b"|%d>" % n
        elif x < .78:
            ops.append("clear")
            s = b""
        elif x < .84:
            ops.append("unpack")
            e.add(hx(s + b"\0") if s else "empty")
            s = b""
        else:
            ops.append("raw")
            e.add(len(s))
            e.add(hx(s + b"\0") if s else 1)
    ops.append("raw")
    e.add(len(s))
    e.add(hx(s + b"\0") if s else 1)
    return "strbuilder", ops, e


def g_mem(r, big):
    d, pos, ops, e = b"", 0, [], Seq()
    for _ in range(r.choice([5, 30, 150])):
        x = r.random()
        if x < .25:
            b = rb(r, r.choice([0, 1, 2, 31, 32, 33, 100]))
            ops.append("%s:%s" % (r.choice(["write", "wwrite"]), hx(b)))
            e.add(len(b))
        elif x < .35:
            b = bytes([r.choice([0, 1, 65, 127, 128, 254, 255])])
            ops.append("putc:%d" % b[0])
            e.add(b[0])
        elif x < .45:
            t, n = rb(r, r.choice([0, 3, 40, 700])).replace(b"\0", b"x"), r.randrange(-999, 999)
            b = t + b"-%d" % n
            ops.append("printf:%s:%d" % (hx(t), n))
            e.add(len(b))
        elif x < .6:
            ops.append("getc")
            if pos < len(d):
                e.add(d[pos])
                pos += 1
            else:
                e.add(-1)
            continue
        elif x < .78:
            n = r.choice([0, 1, 5, 64, 300])
            ops.append("read:%d" % n)
            e.add(hx(d[pos:pos + n]))
            pos += len(d[pos:pos + n])
            continue
        elif x < .88:
            ops.append("rewind")
            pos = 0
            continue
        elif x < .91:
            ops.append("reset")
            pos, d = 0, b""
            continue
        else:
            ops.append("tell")
            e.add(pos)
            continue
        d = d[:pos] + b + d[pos + len(b):]
        pos += len(b)
    ops += ["rewind", "read:%d" % (len(d) + 5)]
    e.add(hx(d))
    return "mem", ops, e


def g_writer(r, big):
    cap = r.choice([0, 1, 7, 64])
    d, ops, e = b"", [], Seq()
    for _ in range(r.choice([3, 12])):
        b = rb(r, r.choice([1, 1, 2, 5, 30]))
        if len(b) == 1 and r.random() < .5:
            ops.append("byte:%d" % b[0])
        else:
            ops.append("write:" + hx(b))
        if len(d) >= cap:
            e.add(-1)
        else:
            t = b[:cap - len(d)]
            e.add(len(t))
            d += t
        e.add(len(d))
    e.add(hx(d))
    return "writer %d" % cap, ops, e


def g_reader(r, big):
    d = rb(r, r.choice([0, 1, 10, 100]))
    pos, ops, e = 0, [], Seq()
    for _ in range(r.choice([3, 12])):
        n = r.choice([1, 2, 7, 40, 200])
        if r.random() < .7:
            ops.append("read:%d" % n)
            e.add(hx(d[pos:pos + n]))
        else:
            ops.append("skip:%d" % n)
        pos = min(len(d), pos + n)
        e.add(pos)
    return "reader " + hx(d), ops, e


GENS = [g_vec, g_map, g_map2, g_st, g_buffer, g_llist, g_sb, g_mem, g_writer, g_reader]


def main_():
    ck.build_che()
    h = ck.harness("containers")
    cases = []
    n = ck.n(250, 4000)
    for g in GENS:
        r = ck.rng(g.__name__)
        for i in range(n):
            head, ops, e = g(r, i % 25 == 0)
            ck.count("operations", len(ops))
            cases.append(Case(" ".join([head] + ops), e.judge(), "%s/%d" % (g.__name__[2:], i), {"ops": ops[:200]}))
    ck.rng("mix").shuffle(cases)
    ck.sample({"request": cases[0].line[:300]})
    run_cases(ck, h, cases, batch=100)
    ck.finish()


main(main_)
