"""P17: HTTP requests and responses, URLs and CGI headers are written and read exactly, or refused."""
import os, sys, urllib.parse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P17", rule="a distinct message, URL or header block given to the library and compared with a reference")
TOKEN = b"abcXYZ019-_!#$%&'*+.^`|~"
VALUE = b"abcXYZ 019:;,/=\"()\xe9\xff\t?&%"


def word(r, alpha, n):
    return bytes(r.choice(alpha) for _ in range(n))


def size(r, small, edges):
    return r.choice(edges) if r.random() < 0.08 else r.randrange(small)


def headers(r):
    n = r.choice([0, 1, 2, 5, 20])
    if r.random() < 0.03:
        n = r.choice([99, 100, 101, 130])
    hs = []
    for _ in range(n):
        hs.append((word(r, TOKEN, 1 + size(r, 12, [1021, 1022, 1023, 1024, 2500])), word(r, VALUE, size(r, 20, [1022, 1023, 1024, 2500]))))
    return hs


def lookup(r, hs):
    """a name to look up and what is to be found"""
    if hs and r.random() < 0.7:
        name = r.choice(hs)[0]
        name = bytes(c ^ 32 if (65 <= c <= 90 or 97 <= c <= 122) and r.random() < 0.3 else c for c in name)
    else:
        name = b"Nothing"
    for k, v in hs:
        if k.lower() == name.lower():
            return name, hx(v)
    return name, "NULL"


def too_big(hs):
    return len(hs) > 100 or any(len(k) > 1023 or len(v) > 1023 for k, v in hs)


def hdump(hs):
    return [str(len(hs))] + [x for k, v in hs for x in (hx(k), hx(v))]


def exact_or_refused(want, may_refuse, refused="0 1"):
    def judge(rep):
        if rep == want or (may_refuse and rep == refused):
            return None
        return "expected %s%s" % (want[:600], " or a refusal" if may_refuse else "")
    return judge


def req_part(out):
    r = ck.rng("req")
    for i in range(ck.n(1200, 15000)):
        reqs = []
        want = []
        big = False
        last = r.choice([1, 1, 2, 4])
        name = b"Nothing"
        for j in range(last):
            meth = r.choice([b"GET", b"POST", b"HEAD", b"DELETE", b"OPTIONS", b"abcdefghi", b"x"])
            path = b"/" + word(r, b"ab/.-_%20~", size(r, 30, [1020, 1021, 1022, 1023, 3000]))
            q = word(r, b"ab=&%1+?/", r.choice([0, 1, 10]))
            uri = path + (b"?" + q if q or r.random() < 0.1 else b"")
            if r.random() < 0.05:
                path = uri = b"*"
                q = b""
            ver = r.choice([b"HTTP/1.0", b"HTTP/1.1"])
            hs = headers(r)
            if j == 0:
                name, _ = lookup(r, hs)
            found = [v for k, v in hs if k.lower() == name.lower()]
            t = meth + b" " + uri + b" " + ver + b"\r\n" + b"".join(k + b": " + v + b"\r\n" for k, v in hs) + b"\r\n"
            reqs.append(t)
            if not big:
                if too_big(hs) or len(uri) > 1023:
                    big = True
                else:
                    fname = path.rsplit(b"/", 1)[1] if b"/" in path else b""
                    want += ["1", hx(meth), hx(uri), hx(ver), hx(path), hx(q), hx(fname)] + hdump(hs) + [hx(found[0]) if found else "NULL"]
        data = b"".join(reqs)
        chunk = r.choice([1, 2, 3, 10, 1000000])
        base = "%r" % data[:200]
        if big:
            # what came before the message that does not fit is read; that one may be refused
            pre = " ".join(want + ["0"])

            def judge(rep, pre=pre):
                return None if rep.startswith(" ".join(pre.split()[:-1])) and rep.endswith(" 1") or rep == "0 1" else "expected to start with " + pre[:400]
            out.append(Case("req %d %s %s" % (chunk, hx(data), hx(name)), judge, "req/big", base))
            ck.count("oversized")
            continue
        if r.random() < 0.3:
            # cut anywhere inside the last message: that one is refused
            cut = len(data) - r.randrange(1, len(reqs[-1]) + 1)
            n = 0
            w = []
            p = 0
            ws = want
            # want is a flat list; rebuild by message
            full = split_messages(ws)
            for k, t in enumerate(reqs):
                if p + len(t) <= cut:
                    w += full[k]
                    p += len(t)
                else:
                    break
            out.append(Case("req %d %s %s" % (chunk, hx(data[:cut]), hx(name)), expect(" ".join(w + ["0", "1"])), "req/cut", base))
            ck.count("truncated")
            continue
        out.append(Case("req %d %s %s" % (chunk, hx(data), hx(name)), expect(" ".join(want + ["0", "1"])), "req", base))
    # garbage
    for i in range(ck.n(300, 5000)):
        data = bytearray(b"GET /a/b?c=d HTTP/1.0\r\nHost: x\r\nA: b\r\n\r\n" * r.randrange(1, 3))
        for _ in range(r.randrange(1, 6)):
            k = r.randrange(3)
            p = r.randrange(len(data))
            if k == 0:
                data[p] = r.randrange(256)
            elif k == 1:
                del data[p]
            else:
                data[p:p] = bytes(r.choice(b"\r\n: \0\xff?/") for _ in range(r.choice([1, 1, 2, 1200])))
        out.append(Case("req %d %s 41" % (r.choice([1, 7, 5000]), hx(bytes(data))), lambda rep: None if rep.endswith(" 1") else "memory was not released", "req/garbage", "%r" % bytes(data)[:300]))


def split_messages(flat):
    msgs, p = [], 0
    while p < len(flat):
        n = int(flat[p + 7])
        e = p + 8 + 2 * n + 1
        msgs.append(flat[p:e])
        p = e
    return msgs


def res_part(out):
    r = ck.rng("res")
    for i in range(ck.n(1200, 15000)):
        ver = r.choice([b"HTTP/1.0", b"HTTP/1.1"])
        st = r.choice([200, 404, 100, 999, 0, r.randrange(1000)])
        hs = [h for h in headers(r) if h[0].lower() not in (b"content-length", b"connection")]
        bodylen = r.choice([0, 1, 5, 116, 500, 998, 999, 1001, 1002, 5000])
        withlen = r.random() < 0.6
        body = bytes(r.randrange(256) for _ in range(bodylen)) if withlen else word(r, VALUE + b"\r\n", bodylen)
        if withlen:
            hs.insert(r.randrange(len(hs) + 1), (r.choice([b"Content-Length", b"content-length", b"CONTENT-LENGTH"]), b"%d" % bodylen))
        elif r.random() < 0.7:
            hs.insert(r.randrange(len(hs) + 1), (b"Connection", b"close"))
        name, found = lookup(r, hs)
        t = ver + b" %03d " % st + r.choice([b"OK", b"", b"Not Found", b"a b c"]) + b"\r\n" + b"".join(k + b": " + v + b"\r\n" for k, v in hs) + b"\r\n"
        big = too_big(hs) or bodylen > 999
        chunk = r.choice([1, 2, 3, 10, 1000000])
        key = "res"
        data = t + body
        want = " ".join(["1", hx(ver), str(st)] + hdump(hs) + [found, hx(body[:1000] if big else body), "1"])
        if not big and r.random() < 0.3:
            cut = r.randrange(len(data))
            if cut < len(t) or withlen:
                if not withlen and cut >= len(t) - 2:
                    cut = len(t) - 3
                # a cut right before the empty line is noticed only when a body length was promised
                if cut >= 12 and not (cut <= len(t) and t[:cut].endswith(b"\r\n") and (not withlen or bodylen == 0)) and not (withlen and bodylen == 0 and cut >= len(t) - 2):
                    data = data[:cut]
                    want = "0 1"
                    key = "res/cut"
                    ck.count("truncated")
                    # without the length header the promise is not known
                    if withlen and b"content-length: %d\r\n" % bodylen not in data.lower() and data.endswith(b"\r\n"):
                        continue
        if withlen and key == "res" and r.random() < 0.3:
            data += b"junk after the body"
        out.append(Case("res %d %s %d %s" % (chunk, hx(data), len(body) if not big else min(1000, len(body)), hx(name)), exact_or_refused(want, big), key, "%r" % data[:300]))
        if big:
            ck.count("oversized")
    for bad in [b"", b"HTTP/1.2 200 OK\r\n\r\n", b"HTTP/1.1 2x0 OK\r\n\r\n", b"HTTP/1.1 200\r\n\r\n", b"HTTX/1.1 200 OK\r\n\r\n", b"HTTP/1.1  200 OK\r\n\r\n",
                b"HTTP/1.1 200 OK\r\nA:b\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nabc", b"HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\nabc",
                b"HTTP/1.1 200 OK\r\nContent-Length: 2000000000\r\n\r\nabc"]:
        out.append(Case("res 5 %s 0 41" % hx(bad), expect("0 1"), "res/bad", "%r" % bad))
    for i in range(ck.n(300, 5000)):
        data = bytearray(b"HTTP/1.1 200 OK\r\nContent-Length: 11\r\nA: b\r\n\r\nhello world")
        for _ in range(r.randrange(1, 6)):
            k = r.randrange(3)
            p = r.randrange(len(data))
            if k == 0:
                data[p] = r.randrange(256)
            elif k == 1:
                del data[p]
            else:
                data[p:p] = bytes(r.choice(b"\r\n: \0\xff9-") for _ in range(r.choice([1, 1, 2, 1200])))
        out.append(Case("res %d %s 1000 41" % (r.choice([1, 7, 5000]), hx(bytes(data))), lambda rep: None if rep.endswith(" 1") else "memory was not released", "res/garbage", "%r" % bytes(data)[:300]))


def write_part(out):
    r = ck.rng("write")
    for i in range(ck.n(800, 10000)):
        m = r.choice([1, 2, 3])
        meth = {1: b"GET", 2: b"POST", 3: b"HEAD"}[m]
        path = b"/" + word(r, b"ab/.-", size(r, 20, [1000, 1022]))
        ps = []
        for _ in range(r.choice([0, 0, 1, 2, 5, 100] if r.random() < 0.2 else [0, 1, 2])):
            ps.append((word(r, b"abc_", 1 + r.randrange(8)), bytes(r.randrange(1, 256) for _ in range(size(r, 20, [300, 333, 334, 340, 1000, 1022])))))
        raw = r.random() < 0.4
        if raw:
            # values given with their length may hold anything
            ps = [(k, bytes(r.choice([0, 0, 65, 37, 255, r.randrange(256)]) for _ in range(r.choice([len(v), 20, 1023, 1024])))) for k, v in ps]
        hs = [(word(r, TOKEN, 1 + r.randrange(10)), word(r, VALUE, size(r, 20, [1023]))) for _ in range(r.choice([0, 1, 3, 100] if r.random() < 0.2 else [0, 1, 3]))]
        t = meth + b" " + path
        if ps:
            t += b"?" + b"&".join(k + b"=" + enc(v) for k, v in ps)
        t += b" HTTP/1.0\r\n" + b"".join(k + b": " + v + b"\r\n" for k, v in hs) + b"\r\n"
        cap = r.choice([len(t), len(t) + 1, len(t) + 100, len(t) - 1, 10])
        ops = ["%s:%s:%s" % ("b" if raw else "p", hx(k), hx(v)) for k, v in ps] + ["h:%s:%s" % (hx(k), hx(v)) for k, v in hs]
        want = "%d %s 1" % (len(t), hx(t)) if cap >= len(t) else "-1 1"
        out.append(Case("write %d %d %s %s" % (cap, m, hx(path), " ".join(ops)) if ops else "write %d %d %s" % (cap, m, hx(path)), request(t, cap, ps, hs, meth, path), "write",
                        "%r %r %r" % (path, ps[:5], hs[:5])))
        # a server has to read what a client writes
        uri = t.split(b" ")[1]
        if len(uri) <= 1023 and len(hs) <= 100:
            q = uri.split(b"?", 1)[1] if b"?" in uri else b""
            out.append(Case("req 3 %s 58" % hx(t), expect(" ".join(["1", hx(meth), hx(uri), hx(b"HTTP/1.0"), hx(path), hx(q), hx(path.rsplit(b"/", 1)[1])] + hdump(hs) +
                            [next((hx(v) for k, v in hs if k.lower() == b"x"), "NULL"), "0", "1"])), "write/read", "%r" % t[:300]))
    # too much for a request
    for m, path, op in [(1, b"/" + b"a" * 1023, []), (1, b"/" + b"a" * 9000, []), (7, b"/", []), (0, b"/", [])]:
        out.append(Case("write 20000 %d %s" % (m, hx(path)), lambda rep: None if rep.startswith("bad ") else "expected a refusal", "write/refuse", "%d %r" % (m, path[:20])))
    h = "h:%s:%s"
    for ops, n in [([h % (hx(b"n"), hx(b"v" * 1024))], 1), ([h % (hx(b"n" * 1024), hx(b"v"))], 1), ([h % (hx(b"n"), hx(b"v"))] * 130, 30)]:
        def judge(rep, n=n):
            return None if rep.count("noheader") == n else "expected %d headers to be refused" % n
        out.append(Case("write 30000 1 2f %s" % " ".join(ops), judge, "write/refuse", "%d headers" % len(ops)))


def enc(v):
    return b"".join(bytes([c]) if chr(c).isalnum() and c < 128 else b"%%%02X" % c for c in v)


def request(t, cap, ps, hs, meth, path):
    def judge(rep):
        w = rep.split()
        if cap < len(t):
            # the encoding of harmless characters may differ, so a shorter text may fit
            return None if rep == "-1 1" or len(w) == 3 else "expected a failure"
        if len(w) != 3 or w[2] != "1":
            return None if rep == "-1 1" and cap < len(t) + 0 else "expected %r" % t[:300]
        got = unhx(w[1])
        if got == t:
            return None
        # same request, other spelling of the encoded values
        line, rest = got.split(b"\r\n", 1)
        if rest != t.split(b"\r\n", 1)[1]:
            return "expected %r" % t[:300]
        mm = line.split(b" ")
        if len(mm) != 3 or mm[0] != meth or mm[2] != b"HTTP/1.0":
            return "expected %r" % t[:300]
        p, _, q = mm[1].partition(b"?")
        back = [tuple(urllib.parse.unquote_to_bytes(x) for x in kv.split(b"=", 1)) for kv in q.split(b"&")] if q else []
        if p != path or back != ps:
            return "expected %r" % t[:300]
    return judge


def url_part(out):
    r = ck.rng("url")
    for i in range(ck.n(800, 10000)):
        s = word(r, b"abcps", size(r, 6, [8, 9, 10, 11, 50]))
        h = word(r, b"ab.-09", size(r, 20, [98, 99, 100, 101, 500]))
        p = r.choice([None, word(r, b"0189", size(r, 6, [8, 9, 10, 50]))])
        path = r.choice([b"", b"/" + word(r, b"ab/.?=&#:%@", size(r, 30, [97, 98, 99, 100, 500]))])
        t = s + b"://" + h + (b":" + p if p is not None else b"") + path
        big = len(s) > 9 or len(h) > 99 or len(p or b"") > 9 or len(path) > 99
        want = " ".join([hx(s), hx(h), hx(p or b""), hx(path or b"/"), "1"])
        out.append(Case("url " + hx(t), exact_or_refused(want, big, "NULL 1"), "url", "%r" % t))
    for bad in [b"", b"http", b"http:", b"http:/", b"http:/x", b"example.net/", b":/", b"a" * 300]:
        out.append(Case("url " + hx(bad), expect("NULL 1"), "url/bad", "%r" % bad))


def cgi_part(out):
    r = ck.rng("cgi")
    for i in range(ck.n(800, 10000)):
        hs = []
        for _ in range(r.choice([1, 1, 2, 5, 20]) if r.random() < 0.95 else r.choice([99, 100, 101, 150])):
            hs.append((word(r, TOKEN, 1 + size(r, 12, [997, 998, 999, 1100, 3000])), word(r, VALUE, size(r, 20, [998, 999, 1000, 1100, 3000])).strip(b" \t")))
        eol = r.choice([b"\n", b"\r\n"])
        head = b"".join(k + b":" + r.choice([b" ", b" ", b"", b"\t "]) + v + eol for k, v in hs) + eol
        body = word(r, VALUE + b"\r\n:", r.choice([0, 1, 30]))
        big = len(hs) > 100 or any(len(k) > 999 or len(v) > 999 for k, v in hs)
        if r.random() < 0.25 and not big:
            # without the empty line there is no head
            cut = r.randrange(len(head) - len(eol) + 1)
            out.append(Case("cgi " + hx(head[:cut]), expect("0"), "cgi/cut", "%r" % head[:cut][:300]))
            continue
        out.append(Case("cgi " + hx(head + body), exact_or_refused(" ".join([str(len(head))] + hdump(hs)), big, "0"), "cgi", "%r" % (head + body)[:300]))


MIME = dict(aac="audio/aac", avif="image/avif", avi="video/x-msvideo", bin="application/octet-stream", bmp="image/bmp", bz="application/x-bzip", bz2="application/x-bzip2",
            css="text/css", csv="text/csv", doc="application/msword", docx="application/vnd.openxmlformats-officedocument.wordprocessingml.document",
            epub="application/epub+zip", gz="application/gzip", gif="image/gif", htm="text/html", html="text/html", ics="text/calendar", jar="application/java-archive",
            jpeg="image/jpeg", jpg="image/jpeg", js="text/javascript", json="application/json", jsonld="application/ld+json", mid="audio/midi", midi="audio/midi",
            mjs="text/javascript", mp3="audio/mpeg", mp4="video/mp4", mpeg="video/mpeg", oga="audio/ogg", ogv="video/ogg", opus="audio/opus", otf="font/otf", png="image/png",
            pdf="application/pdf", ppt="application/vnd.ms-powerpoint", rtf="application/rtf", svg="image/svg+xml", tar="application/x-tar", tif="image/tiff", tiff="image/tiff",
            ts="video/mp2t", ttf="font/ttf", txt="text/plain", wav="audio/wav", weba="audio/webm", webm="video/webm", webp="image/webp", woff2="font/woff2",
            xhtml="application/xhtml+xml", xml="application/xml", zip="application/zip")
MIME.update({"7z": "application/x-7z-compressed"})


def mime_part(out):
    for k, v in MIME.items():
        out.append(Case("mime " + hx(k), expect(v), "mime/" + k))
        for bad in (k + "zz", "." + k, k[:-1] + "~"):
            out.append(Case("mime " + hx(bad), expect("-"), "mime/" + bad))
    for m, w in ((b"GET", 1), (b"get", 1), (b"POST", 2), (b"Post", 2), (b"HEAD", 3), (b"head", 3), (b"PUT", 0), (b"", 0), (b"GETT", 0), (b"GE", 0), (b"POSTS", 0)):
        out.append(Case("method " + hx(m), expect(str(w)), "method", "%r" % m))


def main_check():
    ck.build_che()
    b = ck.harness("httph")
    out = []
    for part in (req_part, res_part, write_part, url_part, cgi_part, mime_part):
        part(out)
    ck.rng("order").shuffle(out)
    for c in out[:8]:
        ck.sample((c.desc or c.line)[:200])
    run_cases(ck, b, out, batch=120)
    ck.finish()


main(main_check)
