"""P12: compressed and bit-packed data comes back exactly."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P12", rule="a distinct message (and alphabet, bit order, code set, read pattern) written and read back",
           assumptions=["LZW messages use symbols of the given alphabet", "a huffman message uses characters of the text the tree was built from"])


def rb(r, n, lo=0, hi=256):
    return bytes(r.randrange(lo, hi) for _ in range(n))


# ---- bits -------------------------------------------------------------
def pack(bits, order):
    out = bytearray()
    for i in range(0, len(bits), 8):
        ch = bits[i:i + 8].ljust(8, "0")
        out.append(int(ch if order == 0 else ch[::-1], 2))
    return bytes(out)


def g_bits(r, i):
    order = r.randrange(2)
    n = r.choice([0, 1, 7, 8, 9, 15, 16, 17, 31, 64, r.randrange(300)])
    mode = r.randrange(4)
    bits = "".join(r.choice("01") for _ in range(n)) if mode else r.choice("01") * n
    how = r.randrange(2)
    data = pack(bits, order)
    stream = "".join(format(b, "08b") if order == 0 else format(b, "08b")[::-1] for b in data)
    reads, exp, pos = [], [], 0
    over = 0
    while over < 2:
        k = r.choice([0, 0, 1, 2, 3, 5, 8, 9, 13, 16, 24, 31])
        m = max(k, 1)
        if pos + m > len(stream):
            # not enough bits; what follows depends on how many were eaten: only the refusal is judged
            reads.append(k)
            exp.append(-1)
            pos = len(stream)
            over += 1
            continue
        v = int(stream[pos:pos + m], 2)
        reads.append(k)
        exp.append(v)
        pos += m
        if len(reads) > 60:
            break
    e = (["1"] if how else []) + ["1", hx(data)] + [str(x) for x in exp]
    if data:
        b = format(data[0], "08b")
        e.append(bytes(int(c) for c in reversed(b)).hex())
        e.append(bytes(int(c) for c in b).hex())
    return "bits %d %s %d %s" % (order, bits or "-", how, " ".join(map(str, reads))), expect(" ".join(e)), bits != ""


# ---- lzw --------------------------------------------------------------
def lzw_msg(r, alpha, big):
    k = r.randrange(9)
    n = r.choice([0, 1, 2, 3, 5, 30, 200, 1000] + ([6000, 30000] if big else []))
    if k == 0:
        return rb(r, n, 0, alpha)
    if k == 1:
        return bytes([r.randrange(alpha)]) * n
    if k == 2:
        p = rb(r, r.randrange(1, 6), 0, alpha)
        return (p * (n // len(p) + 1))[:n]
    if k == 3:      # runs
        out = b""
        while len(out) < n:
            out += bytes([r.randrange(alpha)]) * r.choice([1, 2, 3, 10, 300])
        return out[:n]
    if k == 4:      # few symbols
        s = [r.randrange(alpha) for _ in range(2)]
        return bytes(r.choice(s) for _ in range(n))
    if k == 5:      # biased
        return bytes(min(alpha - 1, int(r.expovariate(0.3))) for _ in range(n))
    if k == 6:      # counter
        return bytes(i % alpha for i in range(n))
    if k == 7:      # ends exactly at a width change or at a reset of the dictionary
        w = r.choice([1 << m for m in range(2, 13)])
        n = max(0, w - alpha - 2 + r.randrange(-3, 4))
        return rb(r, n, 0, alpha)
    top = alpha - 1
    return bytes(r.choice([0, top]) for _ in range(n))


def g_lzw(r, i):
    alpha = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 14, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 126, 127, 128, 129, 200, 254, 255, 256, 256])
    m = lzw_msg(r, alpha, i % 6 == 0)
    step = r.choice([0, 0, 1, 3, 10])

    def j(rep):
        t = rep.split(" ")
        if len(t) != 3:
            return "malformed reply"
        if t[1] != str(len(m)) or t[2] != "1":
            return "the message does not come back: %s bytes instead of %d, equal: %s" % (t[1], len(m), t[2])
    return "lzw %d %s %d" % (alpha, hx(m), step), j, len(m) > 0


# ---- huffman ----------------------------------------------------------
def g_huff(r, i):
    k = r.randrange(7)
    if i < 4:         # counts that overflow narrow counters
        n = [256, 65536, 65537, 257][i]
        text = b"ab" * 3 + bytes([r.randrange(100, 256)]) * n + b"cc" + bytes([r.randrange(1, 90)]) * (256 if i % 2 else 512)
    elif k == 6:
        text = b"".join(bytes([c]) * r.choice([1, 2, 127, 128, 255, 256, 257, 300]) for c in r.sample(range(1, 256), 6))
    elif k == 0:
        text = rb(r, r.choice([1, 2, 5, 100, 2000]), 1, 256)
    elif k == 1:
        text = bytes([r.randrange(1, 256)]) * r.choice([1, 2, 50])
    elif k == 2:      # Fibonacci frequencies: codes as long as can be
        a, b, text = 1, 1, b""
        for s in r.sample(range(1, 256), r.choice([3, 8, 17, 20])):
            text += bytes([s]) * a
            a, b = b, a + b
    elif k == 3:
        text = bytes(range(1, 256)) * r.choice([1, 3])
    elif k == 4:
        text = bytes(min(255, 1 + int(r.expovariate(0.05))) for _ in range(r.choice([10, 1000])))
    else:
        text = bytes(r.choice(b"ab\xff\x80") for _ in range(r.choice([2, 3, 40])))
    al = sorted(set(text))
    msg = bytes(r.choice(al) for _ in range(r.choice([0, 1, 2, 7, 8, 9, 100, 1000])))
    if r.random() < .5:
        msg = text[:3000]
    # an optimal prefix code for the training text, by the classic construction
    import heapq
    from collections import Counter
    cnt = Counter(text)
    best = None
    if msg == text and len(al) > 1:
        h = list(cnt.values())
        heapq.heapify(h)
        best = 0
        while len(h) > 1:
            x = heapq.heappop(h) + heapq.heappop(h)
            best += x
            heapq.heappush(h, x)

    def j(rep):
        t = rep.split(" ")
        if len(t) != 2 or t[1] != hx(msg):
            return "the message does not come back"
        if best is not None and int(t[0]) != (best + 7) // 8:
            return "%s bytes, an optimal code of the text needs %d" % (t[0], (best + 7) // 8)
    return "huff %s %s %d" % (hx(text), hx(msg), r.choice([1, 4, 10])), j, len(msg) > 0


def g_canon(r, i):
    """a random canonical code: counts of codes by length, symbols in code order"""
    while True:
        nl = r.choice([1, 2, 3, 4, 8, 16])
        counts, room = [], 1
        for l in range(1, nl + 1):
            room *= 2
            c = r.randrange(0, min(room, 60) + 1) if r.random() < .7 else 0
            if 0 < c == room and l < nl and r.random() < .9:
                c -= 1
            room -= c
            counts.append(c)
        n = sum(counts)
        if 1 <= n <= 250 and any(counts):
            break
    vals = bytes(r.sample(range(256), n))
    codes, code, k = {}, 0, 0
    for l, c in enumerate(counts, 1):
        code <<= 1
        for _ in range(c):
            codes[vals[k]] = format(code, "0%db" % l)
            code += 1
            k += 1
    msg = bytes(r.choice(vals) for _ in range(r.choice([1, 5, 100])))
    data = pack("".join(codes[c] for c in msg), 0)
    return "canon %s %s %s %d" % (hx(bytes(counts)), hx(vals), hx(data), len(msg)), expect(hx(msg)), True


def main_():
    ck.build_che()
    h = ck.harness("codecs")
    cases = []
    for g, q, t in ((g_bits, 900, 15000), (g_lzw, 900, 8000), (g_huff, 400, 4000), (g_canon, 500, 8000)):
        r = ck.rng(g.__name__)
        for i in range(ck.n(q, t)):
            line, judge, nontrivial = g(r, i)
            cases.append(Case(line, judge, "%s/%d" % (g.__name__[2:], i)))
            ck.count(g.__name__[2:])
    ck.rng("mix").shuffle(cases)
    ck.sample({"request": cases[0].line[:300]})
    run_cases(ck, h, cases, batch=40)
    ck.finish()


main(main_)
