"""P28: torrents describe, serve and fetch exactly their files."""
import fcntl, hashlib, os, pty, socket, struct, sys, termios, urllib.parse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

# The program uses fixed ports; a network of our own keeps them free.
if "P28_NS" not in os.environ:
    os.environ["P28_NS"] = "0"
    try:
        if subprocess.run(["unshare", "-Urn", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30).returncode == 0:
            os.environ["P28_NS"] = "1"
            os.execvp("unshare", ["unshare", "-Urn", sys.executable] + sys.argv)
    except (OSError, subprocess.TimeoutExpired):
        os.environ["P28_NS"] = "0"

ck = Check("P28", rule="a distinct torrent, slice, message or connection, compared with a model of the protocol")
CANARY = b"CANARY" * 3
PSTR = b"\x13BitTorrent protocol"


class Bad(Exception):
    pass


# ---- torrents --------------------------------------------------------------

def ben(v):
    if isinstance(v, int):
        return b"i%de" % v
    if isinstance(v, str):
        v = v.encode()
    if isinstance(v, bytes):
        return b"%d:" % len(v) + v
    if isinstance(v, list):
        return b"l" + b"".join(map(ben, v)) + b"e"
    return b"d" + b"".join(ben(k) + ben(v[k]) for k in sorted(v)) + b"e"


class T:
    """A torrent and its contents."""
    def __init__(self, name, files, plen, r, single, **more):
        self.name, self.files, self.plen, self.single = name, files, plen, single
        self.total = sum(n for _, n in files)
        self.data = r.randbytes(self.total)
        self.n = -(-self.total // plen)
        self.hashes = [hashlib.sha1(self.piece(i)).digest() for i in range(self.n)]
        info = {"name": name, "piece length": plen, "pieces": b"".join(self.hashes)}
        if single:
            info["length"] = self.total
        else:
            info["files"] = [{"length": n, "path": p.split("/")} for p, n in files]
        if r.random() < 0.2:
            info["private"] = r.randrange(2)
        self.info = ben(info)
        self.infohash = hashlib.sha1(self.info).digest()
        self.meta = {"announce": "http://localhost:8000/announce", "creation date": r.randrange(1, 2 ** 31 - 1), "created by": "me %d" % r.randrange(100),
                     "comment": r.choice(["", "some text", "x" * 199])}
        self.meta.update(more)
        d = dict(self.meta)
        d["info"] = info
        self.file = ben(d)
        # (path below the directory, begin, end)
        self.spans = []
        pos = 0
        for p, n in files:
            self.spans.append((name if single else name + "/" + p, pos, pos + n))
            pos += n

    def piece(self, i):
        return self.data[i * self.plen:(i + 1) * self.plen]

    def store(self, top, skip=()):
        for i, (p, a, b) in enumerate(self.spans):
            if i in skip:
                continue
            f = os.path.join(top, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "wb") as o:
                o.write(self.data[a:b])


def ondisk(t, top):
    """What the files in the directory hold now: the bytes, and None for what is not there."""
    out = []
    for p, a, b in t.spans:
        try:
            with open(os.path.join(top, p), "rb") as f:
                d = f.read(b - a)
        except OSError:
            d = b""
        out += list(d) + [None] * (b - a - len(d))
    return out


def torrent(r, big=False, single=None):
    if single is None:
        single = r.random() < 0.35
    plen = r.choice([1, 7, 16, 64, 100, 1000, 1024, 16384, 16385, 20000, 32768, 65536])
    if big:
        plen = r.choice([16384, 20000, 65536, 262144, 300000, 800000])
    lim = 3000 if plen < 1000 else plen * r.choice([1, 3, 9])
    cap = 3000000 if big else 60000
    lim = min(max(lim, plen), cap)
    if plen < 10:
        lim = 500
    if single:
        n = r.choice([plen, plen * 2, plen - 1, plen + 1, lim, r.randrange(1, lim + 1)]) or 1
        return T(r.choice(["f", "some file.bin", "n" * 199, "\u00fc.txt", "a..b"]), [("", n)], plen, r, True)
    files = []
    left = lim
    for i in range(r.choice([1, 2, 2, 3, 5, 12, 25])):
        n = r.choice([0, 1, plen, plen - 1, plen + 1, r.randrange(0, left + 1), r.randrange(0, 50)])
        n = min(n, left)
        left -= n
        d = r.choice(["", "", "sub/", "sub/deep/", "other dir/", "x/y/z/", "..x/"])
        files.append((d + "file%d%s" % (i, r.choice(["", ".txt", "..", " ", "\u00e9"])), n))
    if sum(n for _, n in files) == 0:
        files.append(("last", 17))
    return T(r.choice(["dir", "D" * 150, "some dir"]), files, plen, r, False)


# ---- the modules -----------------------------------------------------------

def module_cases(n):
    cases = []
    for i in range(n):
        r = ck.rng("mod", i)
        t = torrent(r)
        top = os.path.join(ck.scratch, "m", str(i))
        os.makedirs(top)
        t.store(top)
        h = hx(t.file)
        cases.append(Case("list " + h, expect(" ".join("%s %d %d" % (hx(p), a, b) for p, a, b in t.spans)), "list", t.spans[:3]))
        cases.append(Case("plen " + h, expect(" ".join(str(len(t.piece(k))) for k in range(t.n))), "piece-length"))
        for _ in range(8):
            k = r.randrange(t.n)
            L = len(t.piece(k))
            a = r.choice([0, r.randrange(L)])
            b = r.choice([L, r.randrange(a, L) + 1])
            if b - a > 20000:
                b = a + 20000
            cases.append(Case("read %s %s %d %d %d" % (h, hx(top), k, a, b - a), expect("1 " + hx(t.piece(k)[a:b])), "read", "piece %d [%d,%d) of %s" % (k, a, b, t.spans[:4])))
        # beyond the end
        a = r.randrange(t.total + 1)
        over = t.total - a + r.choice([1, 1, 2, 100])
        cases.append(Case("read %s %s %d %d %d" % (h, hx(top), a // t.plen, a % t.plen, over), expect("0"), "read-beyond"))
        # files that changed
        top2 = os.path.join(ck.scratch, "d", str(i))
        os.makedirs(top2)
        nonempty = [j for j, s in enumerate(t.spans) if s[2] > s[1]]
        skip = set(r.sample(nonempty, r.randrange(0, min(3, len(nonempty) + 1))))
        t.store(top2, skip)
        for _ in range(r.choice([0, 1, 2])):
            j = r.choice(nonempty)
            p, a, b = t.spans[j]
            if j in skip:
                continue
            with open(os.path.join(top2, p), "r+b") as f:
                x = r.random()
                if x < 0.4:
                    q = r.randrange(b - a)
                    f.seek(q)
                    f.write(bytes([t.data[a + q] ^ (1 << r.randrange(8))]))
                elif x < 0.7:
                    f.truncate(r.randrange(b - a))
                else:
                    f.seek(0, 2)
                    f.write(b"tail")
        now = ondisk(t, top2)
        want = ["1" if now[k * t.plen:(k + 1) * t.plen] == list(t.piece(k)) else "0" for k in range(t.n)]
        if t.n <= 600:
            cases.append(Case("check %s %s" % (h, hx(top2)), expect(" ".join(want)), "check"))
        for _ in range(3):
            k = r.randrange(t.n)
            L = len(t.piece(k))
            a = r.randrange(L)
            b = min(r.randrange(a, L) + 1, a + 20000)
            d = now[k * t.plen + a:k * t.plen + b]
            cases.append(Case("read %s %s %d %d %d" % (h, hx(top2), k, a, b - a),
                              expect("0") if None in d else expect("1 " + hx(bytes(d))), "read-damaged"))
        # writing
        for w in range(3):
            top3 = os.path.join(ck.scratch, "w", "%d-%d" % (i, w))
            os.makedirs(top3)
            if r.random() < 0.6:
                t.store(top3, set(r.sample(range(len(t.spans)), r.randrange(len(t.spans) + 1))))
            before = ondisk(t, top3)
            k = r.randrange(t.n)
            L = len(t.piece(k))
            a = r.choice([0, r.randrange(L)])
            b = min(r.choice([L, r.randrange(a, L) + 1]), a + 20000)
            d = r.randbytes(b - a)
            cases.append(Case("write %s %s %d %d %d %s" % (h, hx(top3), k, a, b - a, hx(d)),
                              written(t, top3, before, k * t.plen + a, d), "write", "piece %d [%d,%d) of %s" % (k, a, b, t.spans[:4])))
    return cases


def written(t, top, before, pos, d):
    def j(rep):
        if rep != "1":
            return "the slice was not written"
        now = ondisk(t, top)
        for p, a, b in t.spans:
            lo, hi = max(a, pos), min(b, pos + len(d))
            if lo < hi:
                want = before[a:b]
                want[lo - a:hi - a] = list(d[lo - pos:hi - pos])
                # what lies before the slice in a new file is zero
                last = hi - a
                want = [0 if x is None and q < last else x for q, x in enumerate(want)]
            else:
                want = before[a:b]
            if now[a:b] != want:
                q = next(q for q in range(b - a) if now[a + q] != want[q])
                return "the file %s holds %s at %d instead of %s" % (p, now[a + q], q, want[q])
    return j


def escape_cases(n):
    """Paths that lead out of the directory."""
    cases = []
    for i in range(n):
        r = ck.rng("esc", i)
        box = os.path.join(ck.scratch, "e", str(i))
        top = os.path.join(box, "in", "side")
        os.makedirs(top + "/dir/sub")
        os.makedirs(top + "/a")
        canary = os.path.join(box, "in", "secret")
        with open(canary, "wb") as f:
            f.write(CANARY)
        name, path = r.choice([("..", "secret"), ("dir", "../../secret"), ("dir", "sub/../../../secret"), ("../", "secret"), ("dir/..", "../secret"), ("../secret", None),
                               ("dir/../../secret", None), (".", "../secret"), ("a/.././..", "secret"), ("..//secret", None), ("dir", "sub/../..//../secret")])
        t = T(name, [(path or "", len(CANARY))], 64, r, path is None)
        t.data = CANARY
        if r.random() < 0.5:
            def j(rep, canary=canary):
                if rep != "0":
                    return "a file outside of the directory was read"
            cases.append(Case("read %s %s 0 0 %d" % (hx(t.file), hx(top), len(CANARY)), j, "escape-read", t.spans))
        else:
            def j(rep, canary=canary, box=box):
                if open(canary, "rb").read() != CANARY:
                    return "a file outside of the directory was written"
            cases.append(Case("write %s %s 0 0 %d %s" % (hx(t.file), hx(top), len(CANARY), hx(b"x" * len(CANARY))), j, "escape-write", t.spans))
    return cases


def wire_cases(n):
    cases = [Case("wkeep", expect("4 00000000"), "keepalive")]
    for i in range(n):
        r = ck.rng("wire", i)
        ih, pid = r.randbytes(20), r.randbytes(20)
        want = PSTR + bytes(8) + ih + pid

        def jh(rep, ih=ih, pid=pid):
            x = rep.split()
            b = unhx(x[1])
            if x[0] != "68" or len(b) != 68 or b[:20] != PSTR or b[28:48] != ih or b[48:] != pid:
                return "wrong handshake"
        cases.append(Case("whs %s %s 100" % (hx(ih), hx(pid)), jh, "handshake"))
        cases.append(Case("whs %s %s %d" % (hx(ih), hx(pid), r.randrange(68)), lambda rep: None if rep.split()[0].startswith("-") else "no error for a small buffer", "handshake-small"))
        a = [r.choice([0, 1, 255, 256, 65535, 65536, 2 ** 24, 2 ** 31, 2 ** 32 - 1, r.randrange(2 ** 32)]) for _ in range(3)]
        cases.append(Case("wreq %d %d %d 17" % tuple(a), expect("17 " + hx(struct.pack(">IBIII", 13, 6, *a))), "request"))
        cases.append(Case("wreq %d %d %d %d" % (*a, r.randrange(17)), lambda rep: None if rep.split()[0].startswith("-") else "no error for a small buffer", "request-small"))
        d = r.randbytes(r.choice([1, 2, 100, 16384]))
        m = struct.pack(">IBII", 9 + len(d), 7, a[0], a[1]) + d
        cases.append(Case("wpiece %d %d %d %s %d" % (a[0], a[1], len(d), hx(d), len(m) + r.choice([0, 1, 50])), expect("%d %s" % (len(m), hx(m))), "piece"))
        cases.append(Case("wpiece %d %d %d %s %d" % (a[0], a[1], len(d), hx(d), r.randrange(len(m))), lambda rep: None if rep.split()[0].startswith("-") else "no error for a small buffer", "piece-small"))
        k = r.choice([1, 2, 7, 8, 9, 15, 16, 17, 63, 64, 65, 1000, r.randrange(1, 3000)])
        t = T("x", [("", k)], 1, r, True)
        m = struct.pack(">IB", 1 + -(-k // 8), 5) + bytes(sum(1 << (7 - j) for j in range(8) if q * 8 + j < k) for q in range(-(-k // 8)))
        cases.append(Case("wbit %s" % hx(t.file), expect("%d %s" % (len(m), hx(m))), "bitfield"))
        hs = PSTR + r.randbytes(8) + ih + pid
        cases.append(Case("rhs %s" % hx(hs + r.randbytes(r.choice([0, 1, 100]))), expect("68 %s %s %s" % (hx(PSTR[1:]), hx(ih), hx(pid))), "read-handshake"))
        cases.append(Case("rhs %s" % hx(hs[:r.randrange(68)]), lambda rep: None if rep.startswith("-") else "a cut handshake was taken", "read-handshake-cut"))
    return cases


# ---- create and info -------------------------------------------------------

def check_info(t, text):
    import calendar
    lines = text.split("\n")
    g = time.gmtime(t.meta["creation date"])
    want = ["announce = " + t.meta["announce"], "creation date = %d-%02d-%02d %02d:%02d:%02d GMT" % tuple(g[:6]), "created by = " + t.meta["created by"],
            "comment = " + t.meta["comment"], "name = " + t.name, "infohash = " + t.infohash.hex()]
    for w in want:
        if w not in lines:
            raise Bad("no line %r in %r" % (w, text[:1500]))
    m = re.search(r"^piece length = (\d+) \(", text, re.M)
    if not m or int(m.group(1)) != t.plen:
        raise Bad("wrong piece length in %r" % text[:1500])
    m = re.search(r"^length = (\d+) \([^)]*\), (?:(\d+) files, )?(\d+) pieces$", text, re.M)
    if not m or int(m.group(1)) != t.total or int(m.group(3)) != t.n or (m.group(2) is None) != t.single or (not t.single and int(m.group(2)) != len(t.files)):
        raise Bad("wrong length line in %r" % text[:1500])
    got = re.findall(r"^(\d+): +(\d+) \.\. (\d+) +(.*)$", text, re.M)
    if [(int(a), int(b), int(c), p.rstrip()) for a, b, c, p in got] != [(i, a, b, p.rstrip()) for i, (p, a, b) in enumerate(t.spans)]:
        raise Bad("wrong files: %s instead of %s" % (got[:5], t.spans[:5]))


def create_info(binary, i):
    r = ck.rng("create", i)
    d = os.path.join(ck.scratch, "c", str(i))
    os.makedirs(d + "/in")
    P = 262144
    size = [0, 1, P - 1, P, P + 1, 2 * P, 3 * P + 77][i] if i < 7 else r.choice([r.randrange(100000), r.randrange(4 * P)])
    t = T(["plain", "with space", "n" * 199, "n" * 200, "n" * 255, "\u00fc\u20ac", "a.b.c"][i % 7], [("", size)], P, r, True)
    src = os.path.join(d, "in", t.name)
    with open(src, "wb") as f:
        f.write(t.data)
    rel = i % 2
    res = run([binary, "create", os.path.join("in", t.name) if rel else src, "out.torrent"], b"", env=ck.che_env("san"), cwd=d)
    what = "create of %d bytes named %s" % (size, t.name[:20])
    ck.saw(what)
    ck.count("created_torrents")
    if res.san:
        raise Bad("%s: %s %s" % (what, res.san, res.etext[-2000:]))
    if len(t.name.encode()) > 199:
        if res.rc != 1:
            raise Bad("%s: exit %s" % (what, res.rc))
        return
    if res.rc != 0:
        raise Bad("%s: exit %s: %s" % (what, res.rc, res.etext[-500:]))
    with open(os.path.join(d, "out.torrent"), "rb") as f:
        out = f.read()
    m = re.search(rb"13:creation datei(\d+)e", out)
    if not m or abs(int(m.group(1)) - time.time()) > 3600:
        raise Bad("%s: no sensible creation date in %r" % (what, out[:300]))
    k = out.find(b"4:infod")
    info = ben({"length": size, "name": t.name, "piece length": P, "pieces": b"".join(t.hashes)})
    if k < 0 or out[k + 6:] != info + b"e":
        raise Bad("%s: the description is %r" % (what, out[k:k + 300]))
    printed = re.findall(r"^piece (\d+): ([0-9a-f]{40})$", res.text, re.M)
    if printed != [(str(q), h.hex()) for q, h in enumerate(t.hashes)]:
        raise Bad("%s: it printed %s" % (what, printed[:5]))
    t.infohash = hashlib.sha1(info).digest()
    t.meta = {"announce": "http://localhost:8000/announce", "creation date": int(m.group(1)), "created by": "", "comment": ""}
    if size == 0:
        t.spans = []
    res = run([binary, "info", "out.torrent"], b"", env=ck.che_env("san"), cwd=d)
    if res.rc != 0 or res.san:
        raise Bad("%s: info fails: %s" % (what, res.etext[-1500:]))
    check_info(t, res.text)


def info_any(binary, i):
    r = ck.rng("info", i)
    t = torrent(r)
    p = ck.write("i/%d.torrent" % i, t.file)
    ck.saw("info %d %s" % (t.n, t.spans[:2]))
    res = run([binary, "info", p], b"", env=ck.che_env("san"))
    if res.rc != 0 or res.san:
        raise Bad("info fails: rc=%s %s" % (res.rc, res.etext[-1500:]))
    check_info(t, res.text)


# ---- the network -----------------------------------------------------------

class Prog:
    def __init__(self, binary, args, cwd):
        m, s = pty.openpty()
        at = termios.tcgetattr(s)
        at[1] &= ~termios.OPOST
        termios.tcsetattr(s, termios.TCSANOW, at)
        self.err = tempfile.TemporaryFile(dir=ck.scratch)
        env = ck.che_env("san")
        env.pop("DEBUG", None)
        env.pop("CHE_DEBUG", None)
        self.p = subprocess.Popen([binary] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=s, stderr=self.err, start_new_session=True)
        os.close(s)
        self.m = m
        self.parts = []
        self.th = threading.Thread(target=self.drain, daemon=True)
        self.th.start()

    def drain(self):
        while True:
            try:
                d = os.read(self.m, 65536)
            except OSError:
                break
            if not d:
                break
            self.parts.append(d)

    def out(self):
        return b"".join(self.parts).decode("utf-8", "replace")

    def errors(self):
        self.err.seek(0)
        return self.err.read().decode("utf-8", "replace")

    def problem(self):
        e = self.errors()
        res = Result(self.p.poll(), b"", e.encode(), False, 0)
        if res.san:
            return res.san + "\n" + e[-3000:]
        if self.p.poll() is not None:
            return "the program is gone: rc=%s %s" % (self.p.returncode, e[-600:])

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.th.join(10)
        os.close(self.m)
        self.err.close()


class Tracker:
    """Answers announces at the fixed port."""
    def __init__(self, answer):
        self.answer = answer
        self.reqs = []
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        bind_patiently(self.s, 8000)
        self.s.listen(20)
        self.th = threading.Thread(target=self.loop, daemon=True)
        self.th.start()

    def loop(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            try:
                c.settimeout(30)
                d = b""
                while b"\r\n\r\n" not in d:
                    x = c.recv(4096)
                    if not x:
                        break
                    d += x
                q = self.parse(d)
                self.reqs.append(q)
                if self.answer:
                    body = self.answer(q)
                    c.sendall(b"HTTP/1.0 200 OK\r\nContent-Length: %d\r\n\r\n" % len(body) + body)
            except (OSError, Bad) as e:
                self.reqs.append(e)
            # the connection is left open until the end
            self.keep = c

    @staticmethod
    def parse(d):
        m = re.match(rb"GET /announce\?(\S*) HTTP/1\.[01]\r\n", d)
        if not m or not d.endswith(b"\r\n\r\n"):
            raise Bad("the tracker got %r" % d[:300])
        q = {}
        for kv in m.group(1).split(b"&"):
            k, v = kv.split(b"=", 1)
            q[k.decode()] = urllib.parse.unquote_to_bytes(v)
        return q

    def wait(self):
        t = time.time() + 60
        while time.time() < t:
            if self.reqs:
                if isinstance(self.reqs[0], Exception):
                    raise Bad(str(self.reqs[0]))
                return self.reqs[0]
            time.sleep(0.01)
        raise Bad("the program does not announce itself")

    def close(self):
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()
        self.th.join(10)


def bind_patiently(s, port):
    t = time.time() + 120
    while True:
        try:
            s.bind(("127.0.0.1", port))
            return
        except OSError:
            if time.time() > t:
                raise CheckError("port %d is in use" % port)
            time.sleep(0.2)


class Peer:
    def __init__(self, port=6881, sock=None, timeout=60):
        self.s = sock or socket.create_connection(("127.0.0.1", port), timeout=timeout)
        self.s.settimeout(timeout)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.got = b""

    def send(self, data, r=None, ncuts=0):
        cuts = sorted(r.randrange(len(data) + 1) for _ in range(ncuts)) if r and data else []
        last = 0
        for c in cuts:
            self.s.sendall(data[last:c])
            time.sleep(r.choice([0, 0.001, 0.003]))
            last = c
        self.s.sendall(data[last:])

    def exact(self, n, slow=None):
        while len(self.got) < n:
            try:
                d = self.s.recv(slow or 65536)
            except socket.timeout:
                raise Bad("nothing comes for %s s" % self.s.gettimeout())
            except OSError as e:
                raise Bad("the connection broke: %s" % e)
            if not d:
                raise Bad("the connection was closed")
            self.got += d
        d, self.got = self.got[:n], self.got[n:]
        return d

    def handshake(self):
        d = self.exact(68)
        if d[:20] != PSTR:
            raise Bad("bad handshake %r" % d)
        return d[28:48], d[48:]

    def message(self, slow=None):
        n = struct.unpack(">I", self.exact(4, slow))[0]
        if n > 5000000:
            raise Bad("a message of %d bytes is announced" % n)
        return self.exact(n, slow)

    def reply(self, slow=None):
        """The next message that is not a keepalive."""
        while True:
            m = self.message(slow)
            if m:
                return m

    def rest(self, wait):
        """Everything that comes until the connection is closed or the time is over; tells also whether it was closed."""
        d, self.got = self.got, b""
        self.s.settimeout(wait)
        try:
            while True:
                x = self.s.recv(65536)
                if not x:
                    return d, True
                d += x
        except socket.timeout:
            return d, False
        except OSError:
            return d, True

    def close(self, rst=False):
        if rst:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()


def msg(id, body=b""):
    return struct.pack(">IB", 1 + len(body), id) + body


def hello(ih, r):
    return PSTR + r.choice([bytes(8), r.randbytes(8)]) + ih + r.randbytes(20)


def request(i, a, n):
    return msg(6, struct.pack(">III", i, a, n))


def foreign(r, n):
    return r.choice([lambda: msg(0), lambda: msg(1), lambda: msg(2), lambda: msg(3), lambda: msg(4, struct.pack(">I", r.randrange(n))),
                     lambda: msg(8, struct.pack(">III", 0, 0, 16384)), lambda: msg(20, r.randbytes(r.randrange(300))), lambda: msg(9, r.randbytes(2)),
                     lambda: bytes(4), lambda: bytes(4)])()


def good_peer(t, now, r, ident, deep=False):
    """Asks for slices and compares each answer with the file."""
    p = Peer()
    try:
        data = hello(t.infohash, r)
        if r.random() < 0.5:
            data += msg(5, bytes(r.choice([0, 255]) for _ in range(-(-t.n // 8))))
        asks = []
        budget = 3000000 if deep else 400000
        for _ in range(r.choice([1, 3, 10, 40])):
            if r.random() < 0.25:
                data += foreign(r, t.n)
            k = r.choice([0, t.n - 1, r.randrange(t.n)])
            L = len(t.piece(k))
            a = r.choice([0, r.randrange(L), L - 1])
            n = r.choice([L - a, 1, 16384, r.randrange(1, L - a + 1)])
            n = min(n, L - a, 131072)
            if None in now[k * t.plen + a:k * t.plen + a + n]:
                continue
            if budget < n:
                continue
            budget -= n
            asks.append((k, a, n))
            data += request(k, a, n)
        how = r.randrange(4)
        slow = None
        if how == 0:
            w = threading.Thread(target=quiet, args=(p.send, data))
        elif how == 1:
            w = threading.Thread(target=quiet, args=(p.send, data, r, r.choice([1, 5, 30])))
        elif how == 2:
            # a byte at a time for the first messages
            def drip():
                for q in range(0, min(len(data), 120)):
                    p.s.sendall(data[q:q + 1])
                p.s.sendall(data[120:])
            w = threading.Thread(target=quiet, args=(drip,))
        else:
            slow = 20000
            w = threading.Thread(target=quiet, args=(p.send, data))
        w.start()
        try:
            if slow:
                time.sleep(r.choice([0.05, 0.3]))
            ih, pid = p.handshake()
            if ih != t.infohash or pid != ident:
                raise Bad("the handshake names %s and %r" % (ih.hex(), pid))
            for k, a, n in asks:
                m = p.reply(slow)
                pos = k * t.plen + a
                want = struct.pack(">BII", 7, k, a) + bytes(now[pos:pos + n])
                if m != want:
                    q = next((q for q, (x, y) in enumerate(zip(m, want)) if x != y), min(len(m), len(want)))
                    raise Bad("the answer to (%d, %d, %d) has %d bytes instead of %d, first difference at %d: %s" % (k, a, n, len(m), len(want), q, m[max(0, q - 3):q + 10].hex()))
                ck.saw("slice %d %d %d %d" % (k, a, n, how))
                ck.count("slices_served")
                ck.sample("slice (%d, %d, %d) of %s came right" % (k, a, n, t.spans[:2]))
                ck.count("bytes_served", n)
        finally:
            w.join()
        d, _ = p.rest(0.02)
        if d.strip(b"\0"):
            raise Bad("something that was not asked for: %r" % d[:60])
    finally:
        p.close(rst=r.random() < 0.3)


def quiet(f, *a):
    try:
        f(*a)
    except OSError:
        pass


def bad_ranges(t, r):
    k = r.randrange(t.n)
    L = len(t.piece(k))
    big = [2 ** 31, 2 ** 32 - 1, 2 ** 32 - 16, 2 ** 20, 999987, 999988, 1000000, 1000001]
    return r.choice([(t.n, 0, 1), (t.n + 5, 0, 16384), (2 ** 32 - 1, 0, 1), (k, 0, L + 1), (k, L, 1), (k, L - 1, 2), (k, 2 ** 32 - 1, 2), (k, 2 ** 32 - L, 2 * L),
                     (k, 0, max(L + 1, r.choice(big))), (k, min(r.choice(big) + L, 2 ** 32 - 1), 1), (t.n - 1, len(t.piece(t.n - 1)), 16384), (k, 1, L), (2 ** 31, 1, 1),
                     (k, max(L, 2 ** 32 - 1), 1)])


def hostile(t, r, canary_dir):
    k = r.randrange(13)
    ck.saw("hostile %d %d" % (k, r.randrange(4)))
    ck.count("hostile_peers")
    try:
        p = Peer(timeout=20)
    except OSError:
        return
    hs = hello(t.infohash, r)
    big = request(0, 0, min(t.plen, t.total, 131072))
    try:
        if k == 0:
            p.send(bytes([r.choice([0, 1, 18, 20, 255])]) + hs[1:] + big)
            expect_nothing(p, "after a malformed handshake")
        elif k == 1:
            p.send(hello(r.choice([r.randbytes(20), t.infohash[:19] + bytes([t.infohash[19] ^ 1])]), r) + big)
            expect_nothing(p, "for another torrent")
        elif k in (2, 3, 4):
            rg = bad_ranges(t, r)
            p.send(hs + request(*rg))
            expect_nothing(p, "for the request %s in a torrent of %d pieces of %d, the last of %d" % (rg, t.n, t.plen, len(t.piece(t.n - 1))))
        elif k == 5:
            p.send(hs + r.choice([struct.pack(">IB", r.choice([2 ** 32 - 1, 2 ** 31, 2 ** 20, 1000001, 900001]), r.choice([5, 6, 7, 20])) + r.randbytes(r.choice([0, 1000, 1200000])),
                                  struct.pack(">I", 2 ** 32 - 4) + r.randbytes(5000)]))
        elif k == 6:
            p.send(hs + r.choice([msg(6), msg(6, r.randbytes(4)), msg(6, r.randbytes(13)), msg(7), msg(7, r.randbytes(7)), msg(7, r.randbytes(8)), msg(5), msg(4), msg(6, r.randbytes(600))]) + big)
        elif k == 7:
            d = r.randbytes(r.choice([1, 5, 100]))
            p.send(hs + msg(7, struct.pack(">II", r.choice([0, t.n - 1, t.n, 2 ** 32 - 1]), r.choice([0, 1, 2 ** 32 - 1])) + d) * r.choice([1, 20]))
        elif k == 8:
            p.send(hs + msg(5, bytes([255]) * r.choice([124, 125, 126, 127, 1249, 1250, 1251, 2000])))
        elif k == 9:
            p.send(r.randbytes(r.choice([1, 67, 68, 69, 1000, 20000])))
        elif k == 10:
            p.send(hs + big * r.choice([1, 30]))
            for _ in range(r.choice([0, 1, 3])):
                p.s.recv(r.choice([1, 68, 5000]))
        elif k == 11:
            x = hs + request(0, 0, 1)
            p.send(x[:r.randrange(len(x))])
        else:
            p.send(hs + b"".join(r.choice([foreign(r, t.n), request(*bad_ranges(t, r)), big, r.randbytes(30)]) for _ in range(20)))
            p.s.settimeout(0.1)
            quiet(p.s.recv, 100)
    except OSError:
        pass
    finally:
        p.close(rst=r.random() < 0.5)


def expect_nothing(p, why):
    d, closed = p.rest(1.0)
    if d[:20] == PSTR:
        d = d[68:]
    if d.strip(b"\0"):
        raise Bad("%d bytes are sent %s: %r" % (len(d), why, d[:60]))


def seed_session(binary, i, thorough):
    r = ck.rng("seed", i)
    d = os.path.join(ck.scratch, "s", str(i), "box")
    os.makedirs(d)
    t = torrent(r, big=r.random() < 0.6)
    nonempty = [j for j, s in enumerate(t.spans) if s[2] > s[1]]
    skip = set()
    if len(nonempty) > 1 and r.random() < 0.4:
        skip = {r.choice(nonempty)}
    t.store(d, skip)
    if r.random() < 0.4:
        j = r.choice([x for x in nonempty if x not in skip])
        p, a, b = t.spans[j]
        with open(os.path.join(d, p), "r+b") as f:
            if r.random() < 0.5:
                q = r.randrange(b - a)
                f.seek(q)
                f.write(bytes([t.data[a + q] ^ 1]))
            else:
                f.truncate(r.randrange(b - a))
    now = ondisk(t, d)
    with open(os.path.join(d, "x.torrent"), "wb") as f:
        f.write(t.file)
    before = tree(d)
    peers = [{"ip": "127.0.0.%d" % q, "peer id": r.randbytes(20), "port": 1000 + q} for q in range(r.choice([0, 1, 3, 8]))]
    for x in peers:
        if r.random() < 0.2:
            x["seen"] = 5
    def answer(q):
        a = {"complete": 1, "incomplete": 2, "interval": 1800, "peers": peers}
        if i % 3 == 1:
            a["min interval"] = 60
            a["tracker id"] = "zz"
        if i % 5 == 4:
            a["peers"] = [{}] * r.choice([99, 100, 101, 450])
        return ben(a)
    mode = i % 4
    tr = Tracker(answer if mode != 3 else None) if mode != 2 else None
    p = Prog(binary, ["seed", "x.torrent"], d)
    probs = []
    try:
        if tr:
            q = tr.wait()
            ident = q.get("peer_id", b"")
            if q.get("info_hash") != t.infohash or len(ident) != 20 or q.get("port") != b"6881":
                raise Bad("the tracker was told %s" % q)
        else:
            ident = None
        up(p)
        if ident is None:
            x = Peer()
            x.send(hello(t.infohash, r))
            ident = x.handshake()[1]
            x.close()
        want = [(str(k), "OK" if now[k * t.plen:(k + 1) * t.plen] == list(t.piece(k)) else "mismatch") for k in range(t.n)]
        tm = time.time() + 30
        while True:
            got = re.findall(r"^(\d+): (OK|mismatch)$", p.out(), re.M)
            if len(got) >= len(want) or time.time() > tm:
                break
            time.sleep(0.02)
        if got != want:
            raise Bad("the pieces were found to be %s instead of %s" % ([g for g in got if g not in want][:5], [w for w in want if w not in got][:5]))
        rounds = 3 if not thorough else 8
        for q in range(rounds):
            def one(z):
                rr = ck.rng("peer", i, q, z)
                try:
                    good_peer(t, now, rr, ident, deep=z == 0)
                except (Bad, OSError) as e:
                    time.sleep(0.2)
                    probs.append("%s [%s]" % (e, p.problem() or "the seeder is up and says %s" % p.errors()[-300:]))
            def bad(z):
                rr = ck.rng("bad", i, q, z)
                try:
                    hostile(t, rr, d)
                except Bad as e:
                    time.sleep(0.2)
                    # a seeder that died (or not) for another reason is reported by the others
                    probs.append("%s [%s]" % (e, p.problem() or "the seeder is up and says %s" % p.errors()[-300:]))
            if q % 2 == 0:
                jobs = [lambda z=z: one(z) for z in range(6)]
            else:
                jobs = [lambda z=z: bad(z) for z in range(10)] + [lambda z=z: one(z) for z in range(3)]
            if q == rounds - 1 and i % 2:
                jobs = [lambda: crowd(t, r)]
            ths = [threading.Thread(target=j) for j in jobs]
            for x in ths:
                x.start()
            for x in ths:
                x.join()
            if probs:
                raise Bad(probs[0])
            pr = p.problem()
            if pr:
                raise Bad(pr)
        # requests for what is not there
        for _ in range(6):
            k = r.randrange(t.n)
            L = len(t.piece(k))
            if None in now[k * t.plen:k * t.plen + L] and L <= 131072:
                x = Peer()
                x.send(hello(t.infohash, r) + request(k, 0, L))
                expect_nothing(x, "for a piece that can't be read")
                x.close()
                ck.count("unreadable_pieces")
        good_peer(t, now, ck.rng("last", i), ident)
        pr = p.problem()
        if pr:
            raise Bad(pr)
        if tree(d) != before:
            raise Bad("the seeder changed files: %s" % sorted(set(tree(d).items()) ^ set(before.items()))[:3])
        ck.count("seed_sessions")
    except Bad as e:
        time.sleep(0.2)
        pr = p.problem()
        raise Bad("%s%s" % (e, "" if not pr or pr in str(e) else " [%s]" % pr))
    finally:
        p.stop()
        if tr:
            tr.close()


def crowd(t, r):
    """More connections than the program can have."""
    cs = []
    try:
        for _ in range(120):
            x = Peer(timeout=5)
            cs.append(x)
            if r.random() < 0.5:
                quiet(x.send, hello(t.infohash, r))
        ck.count("crowds")
    except OSError:
        pass
    finally:
        for x in cs:
            x.close(rst=r.random() < 0.5)


def up(p):
    t = time.time() + 60
    while time.time() < t:
        if p.p.poll() is not None:
            break
        try:
            socket.create_connection(("127.0.0.1", 6881), timeout=5).close()
            return
        except OSError:
            time.sleep(0.02)
    raise Bad("the program does not listen: %s %s" % (p.p.poll(), p.errors()[-800:]))


def tree(d):
    out = {}
    for base, ds, fs in os.walk(d):
        for x in fs:
            f = os.path.join(base, x)
            with open(f, "rb") as o:
                out[os.path.relpath(f, d)] = hashlib.md5(o.read()).hexdigest()
    return out


def download_session(binary, i):
    r = ck.rng("down", i)
    outer = os.path.join(ck.scratch, "g", str(i))
    d = os.path.join(outer, "box", "in")
    os.makedirs(d)
    if r.random() < 0.5:
        os.makedirs(d + "/download")
    with open(os.path.join(outer, "box", "secret"), "wb") as f:
        f.write(CANARY)
    t = torrent(r, big=r.random() < 0.5)
    escaping = i % 6 == 5
    if escaping:
        t = r.choice([T("..", [("..", 0), ("../secret", 18)], 64, r, False), T("../../secret", [("", 18)], 64, r, True), T("x", [("../../../secret", 18)], 64, r, False)])
    if not escaping:
        least = r.choice([1, 2, 4, 8])
        while not least <= t.n <= 120:
            t = torrent(r, big=r.random() < 0.5)
    with open(os.path.join(d, "x.torrent"), "wb") as f:
        f.write(t.file)
    itself = i % 4 == 3 and not escaping
    if itself:
        t.store(d)
    srv = socket.socket()
    srv.bind(("127.0.0.1", 0))
    srv.listen(5)
    srv.settimeout(60)
    port = 6881 if itself else srv.getsockname()[1]
    before = tree(outer)

    def answer(q):
        # the program as it is asks the peer that bears its own name
        ps = [{"ip": "127.0.0.1", "peer id": q["peer_id"], "port": port}]
        if not itself:
            ps.append({"ip": "127.0.0.1", "peer id": r.randbytes(20), "port": port})
        return ben({"complete": 1, "incomplete": 0, "interval": 100, "peers": ps})
    tr = Tracker(answer)
    p = Prog(binary, ["download", "x.torrent"], d)
    try:
        q = tr.wait()
        if q.get("info_hash") != t.infohash or len(q.get("peer_id", b"")) != 20:
            raise Bad("the tracker was told %s" % q)
        if itself:
            tm = time.time() + 120
            while time.time() < tm and p.problem() is None and len(re.findall(r"^piece \d+ OK$", p.out(), re.M)) < t.n:
                time.sleep(0.05)
        else:
            try:
                c, _ = srv.accept()
            except socket.timeout:
                raise Bad("no connection to the peer")
            serve(Peer(sock=c), t, r, q["peer_id"], p, escaping)
        tm = time.time() + 30
        while not escaping and time.time() < tm and len(set(re.findall(r"^piece (\d+) OK$", p.out(), re.M))) < t.n and p.problem() is None:
            time.sleep(0.02)
        time.sleep(0.05)
        pr = p.problem()
        if pr and not (escaping and "Sanitizer" not in pr and "runtime error" not in pr):
            raise Bad(pr)
        after = tree(outer)
        changed = {f for f in set(after) | set(before) if after.get(f) != before.get(f)}
        strange = [f for f in changed if not f.startswith("box/in/download/")]
        if strange:
            raise Bad("files outside of the download directory were touched: %s" % strange[:3])
        if not escaping:
            oks = re.findall(r"^piece (\d+) OK$", p.out(), re.M)
            if sorted(set(map(int, oks))) != list(range(t.n)):
                raise Bad("%d pieces of %d were reported good" % (len(set(oks)), t.n))
            now = ondisk(t, d + "/download")
            if now != list(t.data):
                q = next(q for q in range(t.total) if now[q] != t.data[q])
                raise Bad("the downloaded files differ at %d of %d (%s)" % (q, t.total, [s for s in t.spans if s[1] <= q < s[2]]))
            for pth, a, b in t.spans:
                f = os.path.join(d, "download", pth)
                if b > a and os.path.getsize(f) != b - a:
                    raise Bad("%s has %d bytes instead of %d" % (pth, os.path.getsize(f), b - a))
            ck.count("downloads")
            ck.count("pieces_downloaded", t.n)
        else:
            ck.count("escaping_downloads")
        ck.saw("download %s %s" % (t.n, t.spans[:3]))
    except Bad as e:
        time.sleep(0.2)
        pr = p.problem()
        raise Bad("%s%s" % (e, "" if not pr or pr in str(e) else " [%s]" % pr))
    finally:
        p.stop()
        tr.close()
        srv.close()


def serve(p, t, r, ident, prog, escaping):
    """Plays a seeder for the program, with damage on the way."""
    ih, pid = p.handshake()
    if ih != t.infohash or pid != ident:
        raise Bad("the handshake names %s and %r" % (ih.hex(), pid))
    p.send(PSTR + bytes(8) + t.infohash + r.randbytes(20), r, r.choice([0, 0, 3]))
    if r.random() < 0.5:
        p.send(msg(5, bytes([255]) * -(-t.n // 8)) + msg(1))
    nasty = r.random() < 0.6
    for k in range(t.n):
        L = len(t.piece(k))
        pos = 0
        asked = []
        while pos < L:
            m = p.reply()
            if m[0] == 5 and k == 0 and not asked:
                want = bytes(sum(1 << (7 - j) for j in range(8) if q * 8 + j < t.n) for q in range(-(-t.n // 8)))
                if m[1:] != want and len(m) != 1 + len(want):
                    raise Bad("a bitfield of %d bytes for %d pieces" % (len(m) - 1, t.n))
                continue
            if m[0] in (0, 1, 2, 3):
                continue
            if m[0] != 6 or len(m) != 13:
                raise Bad("got the message %s instead of a request" % m[:20].hex())
            i, a, n = struct.unpack(">III", m[1:])
            if i != k or a != pos or n == 0 or a + n > L:
                raise Bad("asked for (%d, %d, %d) instead of what follows (%d, %d) in a piece of %d" % (i, a, n, k, pos, L))
            asked.append((a, n))
            pos += n
        ck.count("requests_received", len(asked))
        data = t.piece(k)

        def slice_(a, n, d=None):
            return msg(7, struct.pack(">II", k, a) + (d if d is not None else data[a:a + n]))
        out = []
        if nasty and r.random() < 0.5:
            for _ in range(r.randrange(1, 4)):
                j = r.randrange(t.n)
                a0, n0 = r.choice(asked)
                out.append(r.choice([
                    # a piece that is already there or was not asked for
                    lambda: msg(7, struct.pack(">II", (k + t.n - 1) % t.n if t.n > 1 else t.n, 0) + r.randbytes(5)),
                    lambda: msg(7, struct.pack(">II", t.n + j, 0) + r.randbytes(5)),
                    lambda: msg(7, struct.pack(">II", 2 ** 32 - 1, 0) + r.randbytes(5)),
                    # beyond the end of the piece
                    lambda: msg(7, struct.pack(">II", k, L) + r.randbytes(9)),
                    lambda: msg(7, struct.pack(">II", k, max(0, L - 1)) + r.randbytes(9)),
                    lambda: msg(7, struct.pack(">II", k, 2 ** 32 - 3) + r.randbytes(9)),
                    lambda: foreign(r, t.n)])())
        wrong = nasty and r.random() < 0.3 and not escaping
        if wrong:
            # the whole piece with an error in it: it must not pass
            a0, n0 = r.choice(asked)
            e = bytearray(data[a0:a0 + n0])
            e[r.randrange(n0)] ^= 1 << r.randrange(8)
            for a, n in asked:
                out.append(slice_(a, n, bytes(e) if a == a0 else None))
            p.send(b"".join(out), r, r.choice([0, 2]))
            out = []
            p.send(bytes(4))
            d, closed = p.rest(0.3)
            if d.strip(b"\0") or re.search(r"^piece %d OK$" % k, prog.out(), re.M):
                raise Bad("a damaged piece was accepted")
            if closed:
                raise Bad("the connection was closed")
            p.s.settimeout(60)
            ck.count("damaged_pieces_sent")
            # the damaged slice again, as it should be
            out.append(slice_(a0, n0))
        else:
            order = list(asked)
            if r.random() < 0.5:
                r.shuffle(order)
            for a, n in order:
                if r.random() < 0.1:
                    out.append(slice_(a, n, r.randbytes(n)) if n > 8 else b"")
                if n > 2 and r.random() < 0.2:
                    m_ = r.randrange(1, n)
                    out += [slice_(a, m_), slice_(a + m_, n - m_)]
                else:
                    out.append(slice_(a, n))
                if r.random() < 0.1:
                    out.append(bytes(4))
        quiet(p.send, b"".join(out), r, r.choice([0, 1, 4]))
        if escaping:
            p.rest(1.5)
            return
    tm = time.time() + 60
    while time.time() < tm and not re.search(r"^piece %d OK$" % (t.n - 1), prog.out(), re.M) and prog.problem() is None:
        time.sleep(0.01)
    if nasty:
        # nothing may be changed after the end
        k = r.randrange(t.n)
        for k in {k, t.n - 1}:
            quiet(p.send, msg(7, struct.pack(">II", k, 0) + bytes(x ^ 255 for x in t.piece(k)[:5])))
        quiet(p.send, bytes(4))
        d, closed = p.rest(0.3)
        if d.strip(b"\0"):
            raise Bad("something follows the last piece: %r" % d[:50])
    p.close()


def guarded(key, what, f, *a):
    try:
        f(*a)
    except Bad as e:
        ck.violation(key, "%s: %s" % (what, e), {"session": what, "what": str(e)})


def bring_up_loopback():
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    try:
        fl = struct.unpack("16sh", fcntl.ioctl(s, 0x8913, struct.pack("16sh14x", b"lo", 0))[:18])[1]
        fcntl.ioctl(s, 0x8914, struct.pack("16sh14x", b"lo", fl | 1))
    finally:
        s.close()


def main_check():
    ck.build_che()
    h = ck.harness("torrenth", "san", prog="torrent")
    binary = os.path.join(ck.scratch, "torrent")
    res = ck.che_build(os.path.join(REPO, "prog", "torrent", "torrent.c"), binary, "san")
    if res.rc != 0:
        raise CheckError("torrent does not build: %s" % res.etext[-1500:])
    run_cases(ck, h, wire_cases(ck.n(60, 600)) + escape_cases(ck.n(40, 400)) + module_cases(ck.n(150, 2000)), tag="modules/", batch=60)
    ck.pmap(lambda i: guarded("create", "create %d" % i, create_info, binary, i), range(ck.n(14, 60)))
    ck.pmap(lambda i: guarded("info", "info %d" % i, info_any, binary, i), range(ck.n(40, 400)))
    lock = None
    if os.environ.get("P28_NS") == "1":
        bring_up_loopback()
    else:
        lock = open(os.path.join(tempfile.gettempdir(), "vp-torrent.lock"), "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
    thorough = ck.n(0, 1)
    for i in range(ck.n(8, 60)):
        if len(ck.violations) >= 3:
            break
        guarded("seed", "seed session %d" % i, seed_session, binary, i, thorough)
    for i in range(ck.n(12, 100)):
        if len(ck.violations) >= 3:
            break
        guarded("download", "download session %d" % i, download_session, binary, i)
    ck.finish()


main(main_check)
