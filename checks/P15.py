"""P15: CSV tables, bencoded data, torrent descriptions and config files come back field by field."""
import csv, hashlib, io, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P15", rule="a distinct table, document or file written or read through the library and compared with a reference")


def val(r):
    k = r.randrange(6)
    n = r.choice([0, 0, 1, 1, 2, 3, 8, 30])
    if k == 0:
        n = r.choice([4094, 4095, 4096, 4097, 9000]) if r.random() < 0.1 else n
        return bytes(r.choice(b"abc") for _ in range(n))
    if k < 4:
        return bytes(r.choice(b'",\n\r\\ ab\xff\x80\t\'') for _ in range(n))
    return bytes(r.randrange(1, 256) for _ in range(n))


def table(r):
    rows = []
    for _ in range(r.choice([0, 1, 2, 3, 10])):
        rows.append([val(r) for _ in range(r.choice([1, 1, 2, 3, 5, 20]))])
    return rows


def plain(r):
    return bytes(r.choice(b"abc'\\ 1;\xff\xe9") for _ in range(r.choice([0, 1, 1, 2, 5]))) + (b'"' if r.random() < 0.1 else b"")


def csvtext(r, rows):
    out = []
    for row in rows:
        cells = []
        for v in row:
            bare = not (set(v) & set(b',\r\n')) and not v.startswith(b'"')
            if bare and len(row) == 1 and v == b"":
                bare = False
            if bare and r.random() < 0.7:
                cells.append(v)
            else:
                cells.append(b'"' + v.replace(b'"', b'""') + b'"')
        out.append(b",".join(cells))
    eol = r.choice([b"\n", b"\r\n", b"\n"])
    t = eol.join(out)
    if out and r.random() < 0.7:
        t += eol
    if r.random() < 0.2:
        t += eol * r.randrange(3)
    if r.random() < 0.1:
        t = eol + t
    return t


def pyrows(text):
    rows = csv.reader(io.StringIO(text.decode("latin-1"), newline=""))
    return [[v.encode("latin-1") for v in row] for row in rows if row]


def parse_dump(out):
    rows = []
    for line in out.split("\n")[:-1]:
        cells = line.split(" ")[:-1]
        rows.append([bytes.fromhex(c[1:]) for c in cells])
    return rows


def csv_part(dump, rec):
    r = ck.rng("csv")
    jobs = []
    for i in range(ck.n(350, 4000)):
        rows = table(r) if r.random() < 0.6 else [[plain(r) for _ in range(r.choice([1, 2, 3]))] for _ in range(r.randrange(5))]
        text = csvtext(r, rows)
        if pyrows(text) != [x for x in rows]:
            raise CheckError("the reference reads %r as something else" % text[:300])
        lim = r.choice([None, None, None, 0, 1, 2])
        jobs.append((i, text, rows if lim is None else [x[:lim] for x in rows], lim, "text"))
    # what the library writes
    lines, tabs = [], []
    for i in range(ck.n(150, 2000)):
        rows = table(r)
        p = "%s/csvw%d" % (ck.scratch, i)
        tabs.append((rows, p))
        lines.append(Case("csvw %s %s" % (p, " ".join("%d:%s" % (len(x), ":".join(hx(v) for v in x)) for x in rows)) if rows else "csvw " + p,
                          expect("ok"), "csvw/%d" % i))
    run_cases(ck, rec, lines, batch=40)
    for i, (rows, p) in enumerate(tabs):
        if not os.path.exists(p):
            continue
        with open(p, "rb") as f:
            text = f.read()
        os.remove(p)
        try:
            back = pyrows(text)
        except csv.Error as e:
            back = str(e)
        if back != rows:
            ck.violation("csvw/%d" % i, "the table %r was written as %r, which means %r" % (rows, text[:300], back), {"rows": repr(rows), "text": repr(text)})
        jobs.append((i, text, rows, None, "written"))
        ck.count("tables_written")

    def one(j):
        i, text, want, lim, kind = j
        res = run([dump] + ([] if lim is None else [str(lim)]), text, env=ck.che_env("san"), timeout=60)
        ck.saw("csv/" + hashlib.md5(text).hexdigest() + str(lim))
        ck.count("tables_read")
        key = "csv/%s/%d" % (kind, i)
        if res.timeout or res.rc != 0:
            ck.violation(key, "reading failed: %s %s" % (res.rc, res.san or res.etext[-200:]), {"text": repr(text)})
            return
        got = parse_dump(res.text)
        if lim == 0:
            # only the line structure can be seen: an empty one may follow
            if len(got) not in (len(want), len(want) + 1, len(want) + 2) and want:
                ck.violation(key, "%d lines instead of %d" % (len(got), len(want)), {"text": repr(text)})
        elif [x for x in got if x] != want:
            ck.violation(key, "read %r, expected %r" % (got[:5], want[:5]), {"text": repr(text), "read": repr(got)})
    ck.pmap(one, jobs)


# ---- bencode ---------------------------------------------------------------

def bgen(r, depth):
    k = r.randrange(6 if depth > 0 else 3)
    if k == 0:
        return r.choice([0, 1, -1, 9, 10, 11, 99, 100, 101, 1000, -10, -100, 2**31 - 1, -2**31, -2**31 + 1, r.randrange(-2**31, 2**31), r.randrange(-1000, 1000)])
    if k < 3:
        n = r.choice([0, 0, 1, 2, 3, 9, 10, 11, 30, 99, 100, 101])
        return bytes(r.choice(b"ide:l-019e\xff\0a") if r.random() < 0.7 else r.getrandbits(8) for _ in range(n))
    n = r.choice([0, 0, 1, 2, 3, 6])
    if k < 5:
        return [bgen(r, depth - 1) for _ in range(n)]
    return [(bytes(r.choice(b"abcdeil0:\xff") for _ in range(r.randrange(5))), bgen(r, depth - 1)) for _ in range(n)], "d"


def benc(v):
    if isinstance(v, int):
        return b"i%de" % v
    if isinstance(v, bytes):
        return b"%d:%s" % (len(v), v)
    if isinstance(v, list):
        return b"l" + b"".join(map(benc, v)) + b"e"
    return b"d" + b"".join(benc(k) + benc(x) for k, x in v[0]) + b"e"


def bops(v):
    if isinstance(v, int):
        return ["i:%d" % v]
    if isinstance(v, bytes):
        return ["s:" + hx(v)]
    if isinstance(v, list):
        return ["l"] + [o for x in v for o in bops(x)] + ["e"]
    return ["d"] + [o for k, x in v[0] for o in ["s:" + hx(k)] + bops(x)] + ["e"]


def bdump(v, pos):
    """text of the walk and the position after the value"""
    end = pos + len(benc(v))
    if isinstance(v, int):
        s = "i%d" % v
    elif isinstance(v, bytes):
        s = "s" + v.hex()
    elif isinstance(v, list):
        s, p = "[", pos + 1
        for x in v:
            t = bdump(x, p)
            p += len(benc(x))
            s += t
        s += "]"
    else:
        s, p = "{", pos + 1
        for k, x in v[0]:
            p += len(benc(k))
            s += k.hex() + "=" + bdump(x, p)
            p += len(benc(x))
        s += "}"
    return s + "@%d;" % end


def panics_ok(valid):
    def j(rep):
        if rep.startswith("!"):
            if rep.startswith("!1\n") and "panic at" in rep:
                return None if not valid else "valid data is refused"
            return "died: " + rep[:200]
        return None
    j.accepts_exit = True
    return j


def bencode_part(cases):
    r = ck.rng("bencode")
    for i in range(ck.n(700, 12000)):
        vals = [bgen(r, r.choice([0, 1, 2, 4, 8])) for _ in range(r.choice([1, 1, 1, 0, 2]))]
        data = b"".join(map(benc, vals))
        if len(data) > 60000:
            continue
        s, p = "", 0
        for v in vals:
            s += bdump(v, p)
            p += len(benc(v))
        cases.append(Case("br " + hx(data), expect("%s %d 0 0 1" % (s, p)), "br/%d" % i))
        cap = r.choice([len(data), len(data), len(data) + 1, 100000, max(0, len(data) - 1), r.randrange(len(data) + 1)])

        def jw(rep, data=data, cap=cap, path="%s/bw%d" % (ck.scratch, i)):
            t = rep.split(" ")
            try:
                with open(path, "rb") as f:
                    got = f.read()
                os.remove(path)
            except OSError:
                return "no file"
            if got != data or t[3] != "1" or t[4] != str(len(data)):
                return "the file is %r, expected %r" % (got[:200], data[:200])
            w = unhx(t[2])
            if int(t[1]) != len(w) or not data.startswith(w):
                return "the buffer is %r, expected %r" % (w[:200], data[:200])
            if len(data) <= cap and (t[0] != "1" or w != data):
                return "incomplete output in a buffer with enough space"
            if len(data) > cap and t[0] != "0":
                return "success is reported though the output did not fit"
        cases.append(Case("bw %s/bw%d %d %s" % (ck.scratch, i, cap, " ".join(o for v in vals for o in bops(v))) if vals else
                          "bw %s/bw%d %d" % (ck.scratch, i, cap), jw, "bw/%d" % i))
        # broken data: a refusal at most
        if r.random() < 0.35 and data:
            k = r.randrange(3)
            p = r.randrange(len(data))
            bad = data[:p] if k == 0 else data[:p] + bytes([r.choice(b"0123456789-eidl:\xff\0")]) + data[p + (k == 1):]
            if not re.search(rb"[0-9]{6,}", bad):
                ck.count("broken_bencode")
                cases.append(Case("br " + hx(bad), panics_ok(False), "brbad/%d" % i))


def torrent_part(cases):
    r = ck.rng("torrent")

    def text(maxlen=199):
        n = r.choice([0, 1, 5, 20, 198, 199])
        return bytes(r.choice(b"abc/ :.\xc3\xa9") for _ in range(min(n, maxlen)))
    for i in range(ck.n(250, 3000)):
        pl = r.choice([1, 2, 16, 1000, 262144])
        multi = r.random() < 0.5
        nf = r.choice([1, 2, 9, 10, 11, 99, 100, 101]) if multi else 0
        npc = r.randrange(1, 30)
        total = pl * (npc - 1) + r.randrange(1, pl + 1)
        files = []
        if multi:
            cuts = sorted(r.randrange(total + 1) for _ in range(nf - 1))
            for a, b in zip([0] + cuts, cuts + [total]):
                parts = [bytes(r.choice(b"abcdef.") for _ in range(r.choice([1, 3, 8]))) for _ in range(r.choice([1, 1, 2, 4]))]
                if r.random() < 0.05:
                    parts = [b"x" * 99, b"y" * r.choice([98, 99])]
                files.append((parts, b - a))
        pieces = bytes(r.getrandbits(8) for _ in range(20 * npc))
        name = text()
        info = []
        if multi:
            info.append((b"files", [([(b"length", ln), (b"path", list(ps))], "d") for ps, ln in files]))
        else:
            info.append((b"length", total))
        info += [(b"name", name), (b"piece length", pl), (b"pieces", pieces)]
        priv = r.random() < 0.3
        if priv:
            info.append((b"private", r.choice([0, 1])))
        if r.random() < 0.3:
            r.shuffle(info)
        info = (info, "d")
        meta = {b"announce": text(), b"comment": text(), b"created by": text(), b"creation date": r.choice([0, 1714046391, 2**31 - 1, 1])}
        pairs = [(k, v) for k, v in meta.items() if r.random() < 0.8]
        have = dict(pairs)
        if r.random() < 0.5:
            pairs.append((b"announce-list", [[text()], [text(), text()]]))
        if r.random() < 0.3:
            pairs.append((b"encoding", b"UTF-8"))
        pairs.append((b"info", info))
        if r.random() < 0.2:
            pairs.append((b"unheard of", r.choice([1, b"x", [b"y", 2], ([(b"q", [])], "d")])))
        r.shuffle(pairs)
        data = benc((pairs, "d"))

        def fields(infohash, priv):
            d = dict(info[0])
            out = [hx(have.get(b"announce", b"")), hx(have.get(b"created by", b"")), str(have.get(b"creation date", 0)), hx(have.get(b"comment", b"")),
                   hx(name), str(pl), "0" if multi else str(total), str(priv), infohash, infohash, str(nf)]
            for ps, ln in files:
                out += [hx(b"/".join(ps)), str(ln)]
            out += [str(total), str(npc), str(total - pl * (npc - 1))]
            return out + [pieces[k * 20:k * 20 + 20].hex() for k in range(npc)]
        want = fields(hashlib.sha1(benc(info)).hexdigest(), dict(info[0]).get(b"private", 0)) + ["/"]
        if not multi:
            winfo = ([(b"length", total), (b"name", name), (b"piece length", pl), (b"pieces", pieces)], "d")
            want += ["1"] + fields(hashlib.sha1(benc(winfo)).hexdigest(), 0)
        cases.append(Case("torrent %s %s/t%d" % (hx(data), ck.scratch, i), expect(" ".join(want)), "torrent/%d" % i))


def conf_part(cases):
    r = ck.rng("conf")
    for i in range(ck.n(400, 6000)):
        out, want = [], []
        for _ in range(r.choice([0, 1, 2, 5, 20])):
            k = r.randrange(6)
            if k == 0:
                out.append(r.choice([b"", b" ", b"\t ", b"#", b"# a = b", b"  # x", b"#=#"]))
                continue
            key = bytes(r.choice(b"abcXYZ_09-.\xff\xc3") for _ in range(r.choice([1, 3, 10, 99, 100, 120])))
            v = bytes(r.choice(b"abc =,./\xff\x80\"'") for _ in range(r.choice([1, 2, 10, 100, 120])))
            v = b"v" + v[1:-1] + b"x"
            sep = r.choice([b"=", b" = ", b" =", b"= ", b"  =  ", b" "])
            tail = r.choice([b"", b"", b"# c", b"#", b" # c = d"])
            want.append((key, v, tail.startswith(b" ")))
            out.append(r.choice([b"", b"", b" ", b"\t"]) + key + sep + v + tail)
        t = b"\n".join(out) + (b"\n" if r.random() < 0.7 else b"")

        def j(rep, want=want):
            w = rep.split(" ")
            if w[-1] != "end" or len(w) != 2 * len(want) + 1:
                return "%d words, expected %d pairs" % (len(w), len(want))
            for n, (k, v, loose) in enumerate(want):
                gv = unhx(w[2 * n + 1])
                if unhx(w[2 * n]) != k or (gv.rstrip(b" ") if loose else gv) != v:
                    return "pair %d is %r = %r, expected %r = %r" % (n, unhx(w[2 * n]), gv, k, v)
        cases.append(Case("conf %s %s/c%d" % (hx(t), ck.scratch, i), j, "conf/%d" % i, {"text": repr(t[:2000])}))


def main_():
    ck.build_che()
    dump, rec = ck.pmap(ck.harness, ["csvdump", "records"])
    csv_part(dump, rec)
    cases = []
    bencode_part(cases)
    torrent_part(cases)
    conf_part(cases)
    ck.rng("mix").shuffle(cases)
    for c in cases[:6]:
        ck.sample({"request": c.line[:300]})
    run_cases(ck, rec, cases, batch=60)
    ck.finish()


main(main_)
