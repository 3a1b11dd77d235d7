"""P22: pictures and sound keep every pixel and sample."""
import colorsys, math, os, struct, sys, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P22", rule="a distinct request (picture, operations, clip) or a distinct sound file")


def refused(rep):
    return None if rep.startswith("!1\n*** panic") else "not refused"


refused.accepts_exit = True


def any_of(rep):
    return None


any_of.accepts_exit = True


# ---- pictures ----------------------------------------------------------

def rcolor(r):
    return tuple(r.choice([0, 1, 127, 128, 254, 255, r.randrange(256)]) for _ in range(4))


def rpixels(r, w, h, ncolors=None):
    if ncolors:
        pal = [rcolor(r) for _ in range(ncolors)]
        return [r.choice(pal) for _ in range(w * h)]
    return [tuple(r.randbytes(4)) for _ in range(w * h)]


def packed(px):
    return hx(b"".join(bytes(c) for c in px))


def rsize(r):
    return r.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 33]), r.choice([1, 1, 2, 3, 5, 8, 13, 20])


def near(got, want, tol):
    return all(abs(a - b) <= tol for a, b in zip(got, want))


def img_case(r):
    w, h = rsize(r)
    px = rpixels(r, w, h)
    line = "img %d %d %s" % (w, h, packed(px))
    tol = 0
    outs = []
    cur = list(px)
    for _ in range(r.randrange(1, 8)):
        k = r.choice(["set", "set", "get", "fill", "clear", "blend", "blend", "invert", "explode", "paste", "paste", "test"])
        x, y, c = r.choice([0, w - 1, r.randrange(w)]), r.choice([0, h - 1, r.randrange(h)]), rcolor(r)
        if k == "set":
            line += " set:%d:%d:%d:%d:%d:%d" % ((x, y) + c)
            cur[y * w + x] = c
        elif k == "get":
            line += " get:%d:%d" % (x, y)
            outs.append(cur[y * w + x])
        elif k == "fill":
            line += " fill:%d:%d:%d:%d" % c
            cur = [c] * (w * h)
        elif k == "clear":
            line += " clear"
            cur = [(0, 0, 0, 0)] * (w * h)
        elif k == "blend":
            o = r.choice([0, 1, 0.5, 0.25, 0.1, r.random()])
            line += " blend:%d:%d:%d:%d:%d:%d:%r" % ((x, y) + c + (o,))
            old = cur[y * w + x]
            cur[y * w + x] = tuple((1 - o) * a + o * b for a, b in zip(old[:3], c[:3])) + (old[3],)
            tol += 1.01
        elif k == "invert":
            if tol:
                continue
            line += " invert"
            cur = [(255 - a[0], a[2], 7, a[3]) for a in cur]
        elif k == "explode":
            n = r.choice([1, 2, 3])
            if w * n > 100:
                continue
            line += " explode:%d" % n
            cur = [cur[yy // n * w + xx // n] for yy in range(h * n) for xx in range(w * n)]
            w, h = w * n, h * n
        elif k == "paste":
            pw, ph = rsize(r)
            line += " paste:%d:%d:%d:%d:%d:%d:%d:%d" % ((x, y, pw, ph) + c)
            for yy in range(ph):
                for xx in range(pw):
                    if x + xx < w and y + yy < h:
                        cur[(y + yy) * w + x + xx] = (255, 255, 255, 0) if xx == yy == 0 else c
        elif k == "test":
            if w % 8 or w == 0:
                continue
            line += " test"
            seq = [(128,) * 3, (192,) * 3, (255, 255, 0), (0, 255, 255), (0, 255, 0), (255, 0, 255), (255, 0, 0), (0, 0, 255)]
            cur = [seq[i % w // (w // 8)] + (0,) for i in range(w * h)]

    def judge(rep):
        t = rep.split()
        for o in outs:
            g = tuple(map(int, t.pop(0).split(",")))
            if not near(g, o, tol):
                return "read %s instead of %s" % (g, o)
        if t[:2] != [str(w), str(h)]:
            return "size %s instead of %dx%d" % (t[:2], w, h)
        b = unhx(t[2])
        if len(b) != w * h * 4:
            return "%d bytes" % len(b)
        for i, want in enumerate(cur):
            g = tuple(b[4 * i:4 * i + 4])
            if not near(g, want, tol):
                return "pixel (%d, %d) is %s instead of %s" % (i % w, i // w, g, want)
        if t[3] != "1":
            return "memory is left behind"
    return Case(line, judge, "img")


def color_cases(r, n):
    cases = []

    def colors(want, tol):
        def j(rep):
            g = tuple(map(int, rep.split(",")))
            if not near(g, want, tol) or len(g) != 4:
                return "expected %s" % (tuple(want),)
        return j
    for i in range(n):
        a, b = rcolor(r), rcolor(r)
        p = r.choice([0, 1, 0.5, r.random()])
        want = [x * (1 - p) + y * p for x, y in zip(a[:3], b[:3])]
        cases.append(Case("mix %d:%d:%d:0 %d:%d:%d:0 %r" % (a[:3] + b[:3] + (p,)), colors(want, 0 if p in (0, 1) else 1.01), "mix"))
        hh = r.choice([0, 30, 60, 90, 120, 180, 210, 240, 300, 330, 359.9, r.random() * 360])
        s, l = r.choice([0, 1, 0.5, r.random()]), r.choice([0, 1, 0.5, 0.25, r.random()])
        want = [255 * x for x in colorsys.hls_to_rgb(hh / 360, l, s)]
        cases.append(Case("hsl %r %r %r" % (hh, s, l), colors(want, 1.02), "hsl"))
        v = r.choice([0, 0.1, 1 / 6, 0.25, 1 / 3, 0.5, 2 / 3, 0.75, 5 / 6, 0.99, r.random()])
        cases.append(Case("hsv %r" % v, colors([255 * x for x in colorsys.hsv_to_rgb(v, 1, 1)], 1.01), "hsv"))
        g = r.randrange(256)
        cases.append(Case("gray %d" % g, colors((g, g, g, 0), 0), "gray"))
        # a color map: the first color for low values, the others in a circle
        cs = [rcolor(r) for _ in range(r.choice([2, 3, 5, 20]))]
        w = r.choice([1, 2, 5, 16])
        want = []
        for x in range(int(w * len(cs) * 1.5)):
            if x <= w:
                c1, c2, p = cs[0], cs[1], x / w
            else:
                rest = cs[1:]
                v = x - w
                c1, c2, p = rest[v // w % len(rest)], rest[(v // w + 1) % len(rest)], v % w / w
            want.append([a * (1 - p) + b * p for a, b in zip(c1[:3], c2[:3])])

        def cm(rep, want=want):
            t = rep.split()
            b = unhx(t[2])
            if int(t[0]) != len(want):
                return "width %s instead of %d" % (t[0], len(want))
            for y in range(int(t[1])):
                for x, c in enumerate(want):
                    p = (y * len(want) + x) * 4
                    if not near(b[p:p + 3], c, 1.01):
                        return "color %d is %s instead of %s" % (x, list(b[p:p + 3]), c)
        if i % 4 == 0:
            cases.append(Case("colormap %d " % w + " ".join("%d:%d:%d:0" % c[:3] for c in cs), cm, "colormap"))
    return cases


def outside_cases(r):
    cases = []
    for _ in range(40):
        w, h = rsize(r)
        x, y = r.choice([(-1, 0), (0, -1), (w, 0), (0, h), (w, h), (10**6, 0), (-2**31, 0), (2**31 - 1, 2**31 - 1), (w - 1, h), (w, h - 1)])
        op = r.choice(["set:%d:%d:1:2:3:4", "get:%d:%d", "blend:%d:%d:1:2:3:4:0.5"]) % (x, y)
        cases.append(Case("img %d %d %s %s" % (w, h, packed(rpixels(r, w, h)), op), refused, "outside", (w, h, op)))
    return cases


class Bad(Exception):
    pass


def need(c, msg):
    if not c:
        raise Bad(msg)


def decode_png(d):
    """Returns (width, height, color type, pixels as tuples of samples, palette, alphas)."""
    need(d[:8] == b"\x89PNG\r\n\x1a\n", "signature")
    p, chunks = 8, []
    while p < len(d):
        need(p + 12 <= len(d), "cut chunk")
        n, = struct.unpack(">I", d[p:p + 4])
        t = d[p + 4:p + 8]
        body = d[p + 8:p + 8 + n]
        need(len(body) == n and p + 12 + n <= len(d), "chunk %s is longer than the file" % t)
        need(struct.unpack(">I", d[p + 8 + n:p + 12 + n])[0] == zlib.crc32(t + body), "checksum of chunk %s" % t)
        chunks.append((t, body))
        p += 12 + n
    need(chunks and chunks[0][0] == b"IHDR" and chunks[-1] == (b"IEND", b""), "order of chunks")
    w, h, depth, ct, comp, filt, inter = struct.unpack(">IIBBBBB", chunks[0][1])
    need(depth == 8 and comp == filt == inter == 0, "header %s" % (chunks[0][1],))
    z = zlib.decompressobj()
    raw = z.decompress(b"".join(b for t, b in chunks if t == b"IDAT"))
    need(z.eof and not z.unused_data, "end of the compressed data")
    bpp = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ct]
    need(len(raw) == h * (1 + w * bpp), "%d bytes of data for %dx%d" % (len(raw), w, h))
    prev = bytes(w * bpp)
    rows = []
    for y in range(h):
        f, line = raw[y * (1 + w * bpp)], bytearray(raw[y * (1 + w * bpp) + 1:(y + 1) * (1 + w * bpp)])
        need(f <= 4, "filter %d" % f)
        for i in range(len(line)):
            a = line[i - bpp] if i >= bpp else 0
            b = prev[i]
            c = prev[i - bpp] if i >= bpp else 0
            if f == 1:
                line[i] = (line[i] + a) & 255
            elif f == 2:
                line[i] = (line[i] + b) & 255
            elif f == 3:
                line[i] = (line[i] + (a + b) // 2) & 255
            elif f == 4:
                q = a + b - c
                pa, pb, pc = abs(q - a), abs(q - b), abs(q - c)
                line[i] = (line[i] + (a if pa <= pb and pa <= pc else b if pb <= pc else c)) & 255
        prev = bytes(line)
        rows.append(prev)
    px = [tuple(row[x * bpp:(x + 1) * bpp]) for row in rows for x in range(w)]
    cd = dict(chunks)
    pal = cd.get(b"PLTE", b"")
    need(len(pal) % 3 == 0 and len(pal) <= 768 and (ct != 3 or pal), "palette")
    return w, h, ct, px, [tuple(pal[i:i + 3]) for i in range(0, len(pal), 3)], cd.get(b"tRNS", b"")


def png_matches(d, w, h, mode, px):
    W, H, ct, got, pal, alphas = decode_png(d)
    need((W, H, ct) == (w, h, mode), "header says %s" % ((W, H, ct),))
    many = len(set(px)) > 256
    seen = set()
    for i, (g, c) in enumerate(zip(got, px)):
        lum = 0.2989 * c[0] + 0.587 * c[1] + 0.114 * c[2]
        if mode == 3:
            need(g[0] < len(pal), "pixel with color %d of %d" % (g[0], len(pal)))
            g = pal[g[0]] + (alphas[g[0]] if g[0] < len(alphas) else 255,)
            if many and c not in seen and len(seen) == 256:
                continue  # does not fit the palette
            seen.add(c)
        want, tol = {0: ((lum,), 1.01), 2: (c[:3], 0), 3: (c, 0), 4: ((lum, c[3]), 1.01), 6: (c, 0)}[mode]
        need(near(g, want, tol) and (mode != 4 or g[1] == c[3]), "pixel (%d, %d) is %s instead of %s" % (i % w, i // w, g, want))


def bmp_matches(d, w, h, px):
    need(d[:2] == b"BM", "signature")
    size, _, off, hs, W, H, planes, bits, comp, isize = struct.unpack("<IIIIiiHHII", d[2:38])
    need(size == len(d), "the file has %d bytes and says %d" % (len(d), size))
    need(hs == 40 and W == w and abs(H) == h and planes == 1 and bits == 24 and comp == 0 and off >= 54, "header %s" % (d[:54],))
    stride = (w * 3 + 3) // 4 * 4
    need(off + stride * h == len(d) and isize in (0, stride * h), "size of the data")
    for y in range(h):
        row = d[off + (h - 1 - y if H > 0 else y) * stride:][:stride]
        for x in range(w):
            need(row[3 * x:3 * x + 3] == bytes(px[y * w + x][2::-1]), "pixel (%d, %d) is %s instead of %s" % (x, y, row[3 * x:3 * x + 3], px[y * w + x]))


def ppm_matches(d, w, h, px):
    m = re.match(rb"P6\s(\d+)\s(\d+)\s255\s", d)
    need(m and (int(m.group(1)), int(m.group(2))) == (w, h), "header %r" % d[:30])
    need(d[m.end():] == b"".join(bytes(c[:3]) for c in px), "pixels differ")


def file_cases(r, n):
    cases = []
    for i in range(n):
        w, h = rsize(r)
        if i % 40 == 0:
            w, h = r.choice([(300, 3), (1, 700), (257, 9), (1025, 2)])
        px = rpixels(r, w, h, r.choice([None, None, 1, 2, 15, 16, 17, 255, 256, 257]))
        if r.random() < 0.15:
            # exactly as many colors as a palette holds
            k = r.choice([255, 256, 257])
            w, h = 16, 20
            px = [(j & 255, j >> 8, 5, 255) for j in range(k)]
            r.shuffle(px)
            px = (px + [r.choice(px) for _ in range(320)])[:320]
        fmt = r.choice(["png", "png", "png", "bmp", "ppm"])
        mode = r.choice([0, 2, 3, 3, 4, 6]) if fmt == "png" else 0
        path = os.path.join(ck.scratch, "pic%d.%s" % (i, fmt))

        def judge(rep, path=path, fmt=fmt, mode=mode, w=w, h=h, px=px):
            if rep != "1 1":
                return "result and leftovers: %s" % rep
            d = open(path, "rb").read()
            os.unlink(path)
            try:
                if fmt == "png":
                    png_matches(d, w, h, mode, px)
                elif fmt == "bmp":
                    bmp_matches(d, w, h, px)
                else:
                    ppm_matches(d, w, h, px)
            except (Bad, struct.error, zlib.error, KeyError) as e:
                return "not the picture: %s" % e
        cases.append(Case("write %s %d %s %d %d %s" % (fmt, mode, hx(path), w, h, packed(px)), judge, "%s/%d" % (fmt, mode)))
    cases.append(Case("write bmp 0 %s 1 1 00000000" % hx(os.path.join(ck.scratch, "missing", "x.bmp")), expect("0 1"), "bmp-fail"))
    return cases


# ---- sound -------------------------------------------------------------

def rsamples(r, n):
    k = r.choice(["noise", "noise", "edge", "silent", "ramp"])
    if k == "silent":
        return [(0, 0)] * n
    if k == "edge":
        return [(r.choice([-32767, -32768, 32767, 0, 1, -1]), r.choice([-32767, 32767, 0, 1, -1])) for _ in range(n)]
    if k == "ramp":
        return [((i * 7) % 65535 - 32767, -((i * 3) % 65535 - 32767)) for i in range(n)]
    return [(r.randrange(-32767, 32768), r.randrange(-32767, 32768)) for _ in range(n)]


def pcm(s):
    return b"".join(struct.pack("<hh", *x) for x in s)


def clip_dump(rep):
    t = rep.split()
    n = int(t[1])
    if len(t) != 3 + 2 * n:
        raise Bad("%d values for %d samples" % (len(t) - 3, n))
    v = list(map(float, t[2:-1]))
    return int(t[0]), list(zip(v[::2], v[1::2])), t[-1]


def clip_cases(r, n):
    cases = []
    for i in range(n):
        ns = r.choice([0, 1, 2, 3, 10, 100, 100, 1000])
        if i < 2:
            ns = [65536, 66000][i]
        s = rsamples(r, ns)
        f = [(a / 32767, b / 32767) for a, b in s]
        freq = r.choice([44100, 8000, 48000])
        level = r.choice([1, 0.5, 0.9, 2])
        peak = max([abs(x) for y in f for x in y] or [0])

        def norm(rep, f=f, freq=freq, level=level, peak=peak):
            try:
                fr, got, left = clip_dump(rep)
            except (Bad, ValueError) as e:
                return str(e)
            k = level / peak if peak else 1
            if fr != freq or left != "1" or len(got) != len(f):
                return "frequency %d, %d samples, leftovers %s" % (fr, len(got), left)
            for j, (g, w) in enumerate(zip(got, f)):
                if not all(abs(a - b * k) <= 1e-9 for a, b in zip(g, w)):
                    return "sample %d is %s instead of %s" % (j, g, (w[0] * k, w[1] * k))
        cases.append(Case("clip %d %s normalize:%r" % (freq, hx(pcm(s)), level), norm, "normalize"))
        rt = r.choice([1, 1, 0.5, 2, 1.5, 3.7, 2 ** (1 / 12), 2 ** (-1 / 12), 1.0001, 0.3333])
        if ns > 1000:
            rt = r.choice([1, 0.5, 2])
        r32 = struct.unpack("f", struct.pack("f", rt))[0]

        def trans(rep, f=f, freq=freq, r32=r32):
            try:
                fr, got, left = clip_dump(rep)
            except (Bad, ValueError) as e:
                return str(e)
            if fr != freq or left != "1" or abs(len(got) - len(f) * r32) > 1.01:
                return "frequency %d, %d of %d samples at %s, leftovers %s" % (fr, len(got), len(f), r32, left)
            for j, g in enumerate(got):
                eps = 1e-6 * (j / r32 + 1)
                lo, hi = max(0, j / r32 - eps), j / r32 + eps
                ps = [lo, hi] + [k for k in range(int(lo), int(hi) + 2) if lo <= k <= hi]
                for ch in (0, 1):
                    vals = []
                    for p in ps:
                        k = int(p)
                        if k >= len(f) - 1:
                            # beyond the last sample: held or faded
                            vals += [f[-1][ch], 0 if p > len(f) - 1 + eps else f[-1][ch]]
                        else:
                            vals.append(f[k][ch] * (1 - p + k) + f[k + 1][ch] * (p - k))
                    if not min(vals) - 2e-6 <= g[ch] <= max(vals) + 2e-6:
                        return "sample %d is %s instead of %s..%s" % (j, g[ch], min(vals), max(vals))
        cases.append(Case("clip %d %s transpose:%r" % (freq, hx(pcm(s)), rt), trans, "transpose", "%d samples by %s" % (ns, rt)))
    return cases


def wav_file(r, samples, freq, ch, bits, extras=True, total=None):
    """The file, with samples as (left, right) in [-scale, scale]."""
    data = b""
    for a, b in samples:
        for v in ((a, b) if ch == 2 else (a,)):
            data += v.to_bytes(bits // 8, "little", signed=True)
    out = b"WAVEfmt " + struct.pack("<IHHIIHH", 16, 1, ch, freq, freq * ch * bits // 8, ch * bits // 8, bits)
    if extras and r.random() < 0.4:
        info = b"INFO"
        for _ in range(r.choice([0, 1, 2, 5])):
            v = r.randbytes(r.choice([0, 1, 2, 13, 14, 300, 999, 1000, 1001, 5000]))
            info += r.choice([b"INAM", b"IART", b"ISFT"]) + struct.pack("<I", len(v)) + v + b"\0" * (len(v) % 2)
        out += b"LIST" + struct.pack("<I", len(info)) + info
    if extras and r.random() < 0.3:
        n = r.choice([0, 1, 2, 100, 4095, 4096, 4097, 10000])
        out += b"PAD " + struct.pack("<I", n) + r.randbytes(n)
    n = len(data) if total is None else total
    out += b"data" + struct.pack("<I", n) + data
    if extras and total is None and r.random() < 0.3:
        out += b"LIST" + struct.pack("<I", 10) + b"INFOxxxxxx"
    return b"RIFF" + struct.pack("<I", len(out) & 0xffffffff) + out


def any_samples(r, n, bits):
    m = 1 << (bits - 1)
    return [(r.choice([0, 1, -1, m - 1, -m, -m + 1, r.randrange(-m, m), r.randrange(-m, m)]), r.randrange(-m, m)) for _ in range(n)]


def load_case(r, i):
    ch, bits, freq = r.choice([1, 2]), r.choice([16, 24]), r.choice([44100, 8000, 96000])
    s = any_samples(r, r.choice([0, 1, 2, 50, 3000]), bits)
    d = wav_file(r, s, freq, ch, bits, total=r.choice([None, None, None, 0xffffffff]))
    path = os.path.join(ck.scratch, "in%d.wav" % i)
    with open(path, "wb") as f:
        f.write(d)
    scale = (1 << (bits - 1)) - 1

    def judge(rep):
        os.unlink(path)
        try:
            fr, got, left = clip_dump(rep)
        except (Bad, ValueError) as e:
            return str(e)
        if fr != freq or left != "1" or len(got) != len(s):
            return "frequency %d, %d of %d samples, leftovers %s" % (fr, len(got), len(s), left)
        for j, (g, w) in enumerate(zip(got, s)):
            w = (w[0], w[1] if ch == 2 else w[0])
            if not all(abs(a - b / scale) <= 1e-9 for a, b in zip(g, w)):
                return "sample %d is %s instead of %s/%d" % (j, g, w, scale)
    return Case("wavload %s" % hx(path), judge, "wavload/%d/%d" % (ch, bits))


def read_wav(d):
    """A reader of stereo 16-bit streams, as written by the programs."""
    need(d[:4] == b"RIFF" and d[8:12] == b"WAVE", "signature %r" % d[:12])
    need(struct.unpack("<I", d[4:8])[0] in (len(d) - 8, 0xffffffff), "length of the file")
    p, fmt = 12, None
    while True:
        need(p + 8 <= len(d), "no data chunk")
        t, n = d[p:p + 4], struct.unpack("<I", d[p + 4:p + 8])[0]
        p += 8
        if t == b"fmt ":
            fmt = struct.unpack("<HHIIHH", d[p:p + 16])
        if t == b"data":
            need(fmt is not None, "no format before the data")
            need(n in (len(d) - p, 0xffffffff), "length of the data")
            break
        p += n + n % 2
    f, ch, freq, bps, block, bits = fmt
    need(f == 1 and ch == 2 and bits == 16 and block == 4 and bps == freq * 4, "format %s" % (fmt,))
    need((len(d) - p) % 4 == 0, "cut sample")
    return freq, [struct.unpack("<hh", d[i:i + 4]) for i in range(p, len(d), 4)]


def write_case(r, i):
    s = rsamples(r, r.choice([0, 1, 2, 100, 2000]))
    s = [(max(a, -32767), max(b, -32767)) for a, b in s]
    path = os.path.join(ck.scratch, "out%d.wav" % i)

    def judge(rep):
        if rep != "1 1":
            return "result and leftovers: %s" % rep
        try:
            freq, got = read_wav(open(path, "rb").read())
        except (Bad, struct.error) as e:
            return "not a sound file: %s" % e
        if freq != 44100 or len(got) != len(s):
            return "frequency %d, %d of %d samples" % (freq, len(got), len(s))
        for j, (g, w) in enumerate(zip(got, s)):
            if not near(g, w, 1):
                return "sample %d is %s instead of %s" % (j, g, w)
    return Case("wavwrite %s %s" % (hx(path), hx(pcm(s))), judge, "wavwrite")


def broken_wavs(r, n):
    cases = []
    for i in range(n):
        d = bytearray(wav_file(r, any_samples(r, r.choice([0, 3, 40]), 16), 44100, r.choice([1, 2]), 16))
        k = r.randrange(4)
        if k == 0:
            d = d[:r.randrange(len(d) + 1)]
        elif k == 1:
            for _ in range(r.choice([1, 2, 8])):
                d[r.randrange(min(len(d), 120))] = r.choice([0, 255, 127, 128, r.randrange(256)])
        elif k == 2:
            p = r.randrange(len(d))
            d[p:p + r.choice([0, 1, 4])] = r.randbytes(r.choice([0, 1, 4, 2000]))
        else:
            d = bytearray(r.randbytes(r.choice([0, 1, 12, 44, 3000])))
        path = os.path.join(ck.scratch, "broken%d.wav" % i)
        with open(path, "wb") as f:
            f.write(d)
        cases.append(Case("wavload %s" % hx(path), any_of, "wav-broken", bytes(d[:200]).hex()))
    cases.append(Case("wavload %s" % hx(os.path.join(ck.scratch, "missing.wav")), expect("none 1"), "wav-missing"))
    return cases


def prog_run(p, args, cwd=None, timeout=100):
    res = run([progs[p]] + args, b"", env=ck.che_env("san"), timeout=timeout, cwd=cwd)
    if res.san or res.timeout:
        raise Bad(res.san or "hangs")
    return res


def wav_prog(r, i):
    """wav mix, info, dump, trans on generated files."""
    d = os.path.join(ck.scratch, "w%d" % i)
    os.mkdir(d)
    what = None
    k = r.choice(["mix", "mix", "info", "dump", "trans", "cue", "cue", "woo"])
    args = []
    try:
        if k == "mix":
            files, want = [], []
            for j in range(r.choice([1, 2, 3, 5])):
                bits, ch = r.choice([16, 24]), r.choice([1, 2])
                s = any_samples(r, r.choice([0, 5, 50, 51]), bits)
                p = os.path.join(d, "%d.wav" % j)
                open(p, "wb").write(wav_file(r, s, 44100, ch, bits))
                files.append(p)
                want.append([(a / (2 ** (bits - 1) - 1), (b if ch == 2 else a) / (2 ** (bits - 1) - 1)) for a, b in s])
            args = ["mix"] + files
            freq, got = read_wav(prog_run("wav", args).out)
            n = max(map(len, want))
            need(len(got) == n and freq == 44100, "%d of %d samples" % (len(got), n))
            for j in range(n):
                w = [sum(x[j][c] for x in want if j < len(x)) / len(want) * 32767 for c in (0, 1)]
                need(near(got[j], w, 1.01), "sample %d is %s instead of %s" % (j, got[j], w))
        elif k == "info":
            ch, bits, freq = r.choice([1, 2]), r.choice([16, 24]), r.choice([44100, 8000])
            p = os.path.join(d, "a.wav")
            open(p, "wb").write(wav_file(r, any_samples(r, 5, bits), freq, ch, bits))
            args = ["info", p]
            got = dict(x.split(": ") for x in prog_run("wav", args).text.split("\n") if x)
            want = {"format": "1", "channels": str(ch), "frequency": str(freq), "bits_per_sample": str(bits)}
            need(got == want, "%s instead of %s" % (got, want))
        elif k == "dump":
            bits = r.choice([16, 24])
            s = any_samples(r, r.choice([0, 5, 300]), bits)
            p = os.path.join(d, "a.wav")
            open(p, "wb").write(wav_file(r, s, 44100, 2, bits))
            args = ["dump", p]
            got = [tuple(map(float, x.split())) for x in prog_run("wav", args).text.split("\n") if x]
            m = 2 ** (bits - 1) - 1
            need(len(got) == len(s) and all(abs(g[c] - w[c] / m) < 2e-6 for g, w in zip(got, s) for c in (0, 1)), "samples differ")
        elif k == "trans":
            s = [(round(20000 * math.sin(j / 5)), round(20000 * math.cos(j / 9))) for j in range(r.choice([10, 200, 2000]))]
            p = os.path.join(d, "a.wav")
            # the output of the programs is a stream without a length
            open(p, "wb").write(wav_file(r, s, 44100, 2, 16, total=0xffffffff))
            k2 = r.choice([1.0, 2.0, 0.5])
            args = ["trans", str(k2), p]
            freq, got = read_wav(prog_run("wav", args).out)
            need(abs(len(got) - len(s) * k2) <= 1, "%d samples of %d times %s" % (len(got), len(s), k2))
            for j, g in enumerate(got):
                pos = j / k2
                q = int(pos)
                nx = s[min(q + 1, len(s) - 1)]
                w = [s[q][c] + (nx[c] - s[q][c]) * (pos - q) for c in (0, 1)]
                need(near(g, w, 2.01) or q == len(s) - 1, "sample %d is %s instead of %s" % (j, g, w))
        elif k == "cue":
            freq, ch = r.choice([8000, 8000, 11025, 44100]), r.choice([1, 2])
            # loud and silent stretches in milliseconds; a silence over a second ends the track
            segs = []
            if r.random() < 0.5:
                segs.append((0, r.choice([100, 1500])))
            for _ in range(r.choice([1, 2, 4])):
                segs.append((1, r.choice([300, 700, 1300])))
                if r.random() < 0.4:
                    segs.append((0, r.choice([200, 950])))
                    segs.append((1, 400))
                segs.append((0, r.choice([1050, 1500, 2000])))
            if r.random() < 0.5:
                segs.append((1, 500))
            s, tracks, t, started = [], [], 0, False
            for loud, ms in segs:
                n = freq * ms // 1000
                s += [(r.choice([-1, 1]) * r.randrange(3000, 30000), 9000) if loud else (r.randrange(-50, 50), 0) for _ in range(n)]
                t += n / freq
                started = started or loud
                if not loud and ms > 1000 and started:
                    tracks.append(t)
                    t, started = 0, False
            if t:
                tracks.append(t)
            p = os.path.join(d, "a.wav")
            data = wav_file(r, [], freq, ch, 16, extras=False, total=len(s) * ch * 2)
            data += b"".join(struct.pack("<hh", *x) for x in s) if ch == 2 else b"".join(struct.pack("<h", x[0]) for x in s)
            open(p, "wb").write(data)
            cum = r.random() < 0.3
            args = (["-c"] if cum else []) + [p]
            got = []
            for j, x in enumerate(x for x in prog_run("wavcue", args).text.split("\n") if x):
                m = re.fullmatch(r"(\d+)\. track (\d+)\t(?:(\d+):)?(\d+):(\d\d)\.(\d{3})", x)
                need(m and int(m.group(1)) == int(m.group(2)) == j + 1, "line %r" % x)
                got.append((int(m.group(3) or 0) * 60 + int(m.group(4))) * 60 + int(m.group(5)) + int(m.group(6)) / 1000)
            want = [sum(tracks[:j + 1]) for j in range(len(tracks))] if cum else tracks
            need(len(got) == len(want) and all(abs(a - b) <= 0.0021 for a, b in zip(got, want)), "tracks %s instead of %s in %s" % (got, want, segs))
        else:
            hz = r.choice([1, 100, 440, 1200, 20000])
            args = ["-f", str(hz)]
            freq, got = read_wav(prog_run("woo", args).out)
            need(len(got) == 4410 and freq == 44100, "%d samples" % len(got))
            for j, g in enumerate(got):
                w = 32767 * math.sin(j * 2 * math.pi / 44100 * hz)
                need(near(g, (w, w), 300), "sample %d is %s instead of %s" % (j, g, w))
    except (Bad, struct.error, ValueError) as e:
        what = str(e)
    ck.saw("prog/%s/%d" % (k, i))
    ck.count("program_runs")
    if what:
        ck.violation("wav/" + k, what[:600], {"args": args, "files": {f: open(os.path.join(d, f), "rb").read()[:4000].hex() for f in os.listdir(d)}})
    shutil.rmtree(d, ignore_errors=True)


# ---- splitting mp3 files -----------------------------------------------

RATES = [0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320]


def mp3_frame(r, mode, body=None, rate=None):
    i = rate or r.randrange(1, 15)
    pad = r.randrange(2)
    n = 144 * RATES[i] * 1000 // 44100 + pad
    return (bytes([0xff, 0xfb, i << 4 | pad << 1, mode << 6 | r.randrange(16)]) + (body or b"") + r.randbytes(2000))[:n]


def split_check(r, i):
    d = os.path.join(ck.scratch, "m%d" % i)
    os.mkdir(d)
    mode = r.choice([0, 1, 3])
    side = 17 if mode == 3 else 32
    info = None
    n = r.choice([1, 2, 10, 60, 400, 1500])
    frames = [mp3_frame(r, mode, bytes(200)) for _ in range(n)]
    if r.random() < 0.5:
        info = mp3_frame(r, mode, bytes(side) + b"Xing" + struct.pack(">III", 7, n, 1000) + bytes(100), rate=r.choice([5, 9, 14]))
    total = n * 1152 / 44100
    # the tracks
    k = r.choice([1, 2, 3, 8])
    starts = [0] + sorted(r.uniform(0, total * r.choice([1, 1, 1, 1.5])) for _ in range(k - 1))
    titles = [r.choice(["Intro", "A: B", "AC/DC", "x", "..", "Kein: Weg/Zur\u00fcck", "100% \"q\""[:4]]) + str(j) for j in range(k)]
    cue = r.random() < 0.5
    if cue:
        starts = [int(s * 75) for s in starts]
        text = 'FILE "x.mp3" MP3\n' + "".join('TRACK %02d AUDIO\n  TITLE "%s"\n  INDEX 01 %02d:%02d:%02d\n' % (j + 1, t, s // 4500, s // 75 % 60, s % 75) for j, (s, t) in enumerate(zip(starts, titles)))
        starts = [s / 75 for s in starts]
    else:
        durs = [round(b - a, 3) for a, b in zip(starts, starts[1:])] + [1.5]
        text = "".join("%02d. %s\t%d:%06.3f\n" % (j + 1, t, x // 60, x % 60) for j, (x, t) in enumerate(zip(durs, titles)))
        starts = [sum(durs[:j]) for j in range(k)]
    tail = r.choice([b"", b"", b"", frames[-1][:r.randrange(len(frames[-1]))]])
    src = b"".join(([info] if info else []) + frames) + tail
    lst = os.path.join(d, "list." + ("cue" if cue else "txt"))
    with open(lst, "w") as f:
        f.write(text)
    mp3 = os.path.join(d, "in.mp3")
    with open(mp3, "wb") as f:
        f.write(src)
    out = os.path.join(d, "out")
    os.mkdir(out)
    what = None
    try:
        if n < 2:
            # a single frame is not recognised
            return
        res = prog_run("mp3cuespl", [lst, mp3], cwd=out)
        need(res.rc == 0, "status %s: %s" % (res.rc, res.etext[-200:]))
        names = ["%02d. %s.mp3" % (j + 1, t.replace(":", " -").replace("/", "-")) for j, t in enumerate(titles)]
        need(sorted(os.listdir(out)) == sorted(names), "files %s" % sorted(os.listdir(out)))
        pos, at = 0, []
        body = b"".join(frames)
        offs = {0: 0}
        o = 0
        for j, f in enumerate(frames):
            o += len(f)
            offs[o] = j + 1
        for name in names:
            x = open(os.path.join(out, name), "rb").read()
            if info:
                h = x[:len(info)]
                need(len(h) == len(info) and h[:4 + side] == info[:4 + side] and h[4 + side:8 + side] == b"Xing" and h[120 + side:] == info[120 + side:], "info frame of %s" % name)
                nb = struct.unpack(">I", h[16 + side:20 + side])[0]
                need(nb == len(x), "the info frame of %s says %d bytes, there are %d" % (name, nb, len(x)))
                toc = h[20 + side:120 + side]
                need(list(toc) == sorted(toc), "table of contents goes back")
                x = x[len(info):]
            need(body[pos:pos + len(x)] == x, "%s does not continue with the next frames" % name)
            at.append(pos)
            pos += len(x)
            need(pos in offs, "a frame is cut after %s" % name)
        need(pos == len(body), "%d bytes of frames are missing" % (len(body) - pos))
        for j in range(1, k):
            have = offs[at[j]] * 1152 / 44100
            want = min(starts[j], total)
            need(abs(have - want) <= 0.028, "track %d begins at %.3f instead of %.3f" % (j + 1, have, want))
    except (Bad, struct.error) as e:
        what = str(e)
    finally:
        ck.saw("split/%d" % i)
        ck.count("mp3_frames", n)
        if what:
            ck.violation("mp3cuespl", what[:600], {"list": text, "frames": n, "info": bool(info), "mode": mode, "tail": len(tail)})
        shutil.rmtree(d, ignore_errors=True)


progs = {}


def main_check():
    ck.build_che()
    binary = ck.harness("media")
    for p in ("wav", "wavcue", "woo", "mp3cuespl"):
        progs[p] = os.path.join(ck.scratch, p)
        res = ck.che_build(os.path.join(REPO, "prog", p, p + ".c"), progs[p])
        if res.rc != 0:
            raise CheckError("%s does not build: %s %s" % (p, res.text[-500:], res.etext[-1500:]))
    r = ck.rng("img")
    run_cases(ck, binary, [img_case(r) for _ in range(ck.n(800, 20000))], batch=100)
    run_cases(ck, binary, color_cases(ck.rng("color"), ck.n(400, 8000)), batch=200)
    run_cases(ck, binary, outside_cases(ck.rng("outside")), batch=4)
    narrow = [Case("img %d 2 %s test" % (w, "0" * 16 * w), lambda rep: None, "test-narrow") for w in range(1, 20)]
    run_cases(ck, binary, narrow)
    run_cases(ck, binary, file_cases(ck.rng("files"), ck.n(500, 8000)), batch=50)
    run_cases(ck, binary, clip_cases(ck.rng("clip"), ck.n(250, 4000)), batch=20)
    r = ck.rng("wav")
    run_cases(ck, binary, [load_case(r, i) for i in range(ck.n(250, 3000))], batch=20)
    run_cases(ck, binary, [write_case(r, i) for i in range(ck.n(150, 2000))], batch=20)
    run_cases(ck, binary, broken_wavs(ck.rng("broken"), ck.n(400, 6000)), batch=10, timeout=60)
    ck.pmap(lambda i: wav_prog(ck.rng("prog", i), i), range(ck.n(150, 2000)))
    ck.pmap(lambda i: split_check(ck.rng("split", i), i), range(ck.n(120, 2000)))
    ck.sample("png with 257 colors in palette mode: decoded with zlib, every pixel of the first 256 colors compared")
    ck.sample("mp3 with an info frame split by a cue sheet: every frame in exactly one track")
    ck.finish()


main(main_check)
