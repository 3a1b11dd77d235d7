"""P19: the web server gives every client exactly the file asked for, from the served directory only, and keeps running."""
import os, sys, socket, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P19", rule="a distinct exchange with the server (request and the state of the connection), or a distinct run of the load tool")
CANARY = b"CANARY-" + hashlib.md5(b"canary%d" % os.getpid()).hexdigest().encode()
MIME = {"html": "text/html", "css": "text/css", "js": "text/javascript", "json": "application/json", "png": "image/png",
        "svg": "image/svg+xml", "csv": "text/csv", "gz": "application/gzip", "pdf": "application/pdf", "jpg": "image/jpeg",
        "mp3": "audio/mpeg", "zip": "application/zip"}


def body(r, n):
    return bytes(r.getrandbits(8) for _ in range(n)) if n < 5000 else (r.randbytes(997) * (n // 997 + 1))[:n]


def make_tree(r, top):
    """root/ is served; everything else beside it must stay invisible."""
    root = os.path.join(top, "root")
    files = {}
    for d in ("root", "root/sub", "root/sub/deep", "root/a.html", "root/.hidden", "root/cgi-bin", "root-secret", "rootx", "other", "roo"):
        os.makedirs(os.path.join(top, d))
    for d in ("root-secret", "rootx", "other", "roo", "."):
        for name in ("secret.txt", "index.html", "a"):
            with open(os.path.join(top, d, name), "wb") as f:
                f.write(CANARY + b" " + d.encode())
    sizes = [0, 1, 2, 999, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65536, 100003, 1 << 20]
    exts = list(MIME) + ["", "weird", "HTML2"]
    for i, n in enumerate(sizes):
        name = "f%d%s" % (i, "." + exts[i % len(exts)] if exts[i % len(exts)] else "")
        files[name] = body(r, n)
    for i in range(30):
        d = r.choice(["", "sub/", "sub/deep/", "a.html/", ".hidden/"])
        e = r.choice(exts)
        name = d + "n%d%s%s" % (i, r.choice(["", "-x", "_y", ".tar", "..b", "~", "+"]), "." + e if e else "")
        files[name] = body(r, r.choice([0, 3, 50, 4096, 5000, 20000]))
    files["..."] = b"three dots"
    files["sub/..x"] = b"dots in front"
    files["roo"] = b"a prefix of the name"
    files["l" * 200 + ".js"] = b"long name"
    for n, b in files.items():
        with open(os.path.join(root, n), "wb") as f:
            f.write(b)
    links = {"in.txt": "f3.json", "sub/up.css": "../f5.json", "sub/dir": "deep", "abs": root + "/sub",
             "out": "../rootx/secret.txt", "outdir": "../root-secret", "sub/out2": "../../secret.txt", "outabs": top + "/other",
             "loop": "loop", "dangling": "nowhere", "rootlink": "."}
    for n, t in links.items():
        if t == "f3.json" or t == "../f5.json":
            t = ("" if "/" not in n else "../") + sorted(x for x in files if "/" not in x and len(files[x]) == 4095)[0]
        os.symlink(t, os.path.join(root, n))
    return root, files, links


def lookup(root, path):
    """What the server owes for a path: the bytes and the media type, or None."""
    try:
        rp = libc_realpath(root + "/" + path).decode()
    except OSError:
        return None
    if not (rp == root or rp.startswith(root + "/")) or not os.path.isfile(rp):
        return None
    with open(rp, "rb") as f:
        b = f.read()
    base = os.path.basename(rp)
    ext = base.rsplit(".", 1)[1] if "." in base else ""
    return b, MIME.get(ext, None)


class Bad(Exception):
    pass


class Conn:
    def __init__(self, port, timeout=60, rcvbuf=None):
        self.s = socket.socket()
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.settimeout(timeout)
        self.s.connect(("127.0.0.1", port))
        self.buf = b""

    def send(self, data, cuts=None):
        if not cuts:
            self.s.sendall(data)
            return
        last = 0
        for c in sorted(cuts):
            self.s.sendall(data[last:c])
            time.sleep(0.001)
            last = c
        self.s.sendall(data[last:])

    def more(self):
        try:
            d = self.s.recv(65536)
        except socket.timeout:
            raise Bad("no (complete) response within 60 s")
        except OSError as e:
            raise Bad("the connection broke: %s" % e)
        if not d:
            raise Bad("the connection was closed before the response was complete (got %r)" % self.buf[:200])
        self.buf += d

    def response(self):
        while b"\r\n\r\n" not in self.buf:
            if len(self.buf) > 20000:
                raise Bad("no end of the header: %r" % self.buf[:300])
            self.more()
        head, rest = self.buf.split(b"\r\n\r\n", 1)
        lines = head.split(b"\r\n")
        m = re.fullmatch(rb"HTTP/1\.[01] (\d\d\d) [^\r\n]+", lines[0])
        if not m:
            raise Bad("bad status line %r" % lines[0][:200])
        hdr = {}
        for ln in lines[1:]:
            m2 = re.fullmatch(rb"([A-Za-z0-9-]+): ?([^\r\n]*)", ln)
            if not m2:
                raise Bad("bad header line %r" % ln[:200])
            k = m2.group(1).lower()
            if k in hdr:
                raise Bad("header %r twice" % k)
            hdr[k] = m2.group(2)
        if b"content-length" not in hdr:
            raise Bad("no length in the response header")
        n = int(hdr[b"content-length"])
        self.buf = rest
        while len(self.buf) < n:
            self.more()
        b, self.buf = self.buf[:n], self.buf[n:]
        return int(m.group(1)), hdr, b

    def nothing_more(self):
        """After all responses nothing else may come."""
        if self.buf:
            raise Bad("%d bytes beyond the response: %r" % (len(self.buf), self.buf[:100]))

    def close(self, rst=False):
        if rst:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Server:
    def __init__(self, binary, root, mode, nofile=None):
        self.mode = mode
        env = ck.che_env(mode)
        cmd = [binary]
        if mode == "tsan":
            env["TSAN_OPTIONS"] = "exitcode=97:halt_on_error=0"
        for attempt in range(5):
            self.port = free_port()
            self.err = tempfile.TemporaryFile(dir=ck.scratch)
            self.out = tempfile.TemporaryFile(dir=ck.scratch)

            def pre():
                os.setsid()
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if nofile:
                    resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
            self.p = subprocess.Popen(WRAP.get(mode, []) + cmd + ["-a", "127.0.0.1:%d" % self.port], cwd=root, env=env, stdin=subprocess.DEVNULL,
                                      stdout=self.out, stderr=self.err, preexec_fn=pre)
            t = time.time() + 60
            while time.time() < t and self.p.poll() is None:
                try:
                    socket.create_connection(("127.0.0.1", self.port), timeout=5).close()
                    return
                except OSError:
                    time.sleep(0.05)
            if "in use" not in self.stdout():
                break
        raise Bad("the server does not come up: rc=%s %s %s" % (self.p.poll(), self.stdout()[-300:], self.stderr()[-1000:]))

    def stdout(self):
        self.out.seek(0)
        return self.out.read().decode("utf-8", "replace")

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode("utf-8", "replace")

    def alive(self):
        return self.p.poll() is None

    def problem(self):
        """A crash or a report of a sanitizer."""
        e = self.stderr()
        r = Result(self.p.poll(), b"", e.encode(), False, 0)
        if r.san:
            return r.san + "\n" + e[-3000:]
        if not self.alive():
            return "the server is gone: rc=%s %s" % (self.p.returncode, e[-600:])

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.err.close()
        self.out.close()


WRAP = {}


def req(path, r=None, ver="HTTP/1.1", method="GET"):
    h = "Host: localhost\r\n"
    if r:
        for i in range(r.choice([0, 0, 1, 5, 40, 99])):
            h += "X-%d: %s\r\n" % (i, "v" * r.choice([1, 10, 300]))
    return ("%s %s %s\r\n%s\r\n" % (method, path, ver, h)).encode("latin1")


def paths(r, files, links):
    """A path to ask for; most exist, the rest try to get out or are missing."""
    names = list(files) + [n for n in links]
    k = r.random()
    n = "/" + r.choice(names)
    if k < 0.45:
        p = n
    elif k < 0.6:        # same file by a crooked way
        parts = n.strip("/").split("/")
        out = ""
        for x in parts:
            out += r.choice(["/", "/", "//", "/./", "/sub/../", "/sub/deep/../../", "/abs/../", "/rootlink/", "/a.html/.././"]) + x
        p = out
    elif k < 0.85:       # ways out
        up = r.choice(["..", "../..", "sub/../..", "sub/deep/../../..", "abs/../..", "rootlink/..", "../root/..", ".hidden/../../root/.."])
        p = r.choice(["/", "//", "/./"]) + up + "/" + r.choice(["rootx/secret.txt", "root-secret/index.html", "other/a", "secret.txt", "roo/secret.txt",
                                                        "index.html", "a", "root" + n])
    elif k < 0.93:
        p = r.choice(["/out", "/outdir/secret.txt", "/sub/out2", "/outabs/a", "/outabs", "/outdir", "/loop", "/dangling", "/sub", "/sub/", "//", "/.", "/..",
                      "/sub/..", "/outdir/../root/roo", "/out/", "/roo/x", "-secret/secret.txt", "x/secret.txt", "/../rootx", "/abs/", "/cgi-bin", "/rootlink"])
    else:
        p = "/" + r.choice(["missing", "f", "f1", "f99.html", "sub/missing.js", "roo" + "t", "n0", "%2e%2e/secret.txt", "..%2fsecret.txt", "l" * 255, "l" * 256,
                            "x/" * 200, "m" * 900])
    if not p.startswith("/"):
        p = r.choice(["", "/.."]) + p
    if r.random() < 0.15:
        p += "?" + r.choice(["", "x=1", "a=b&c=d", "/../../secret.txt"])
    return p


def judge(root, p, resp):
    st, hdr, b = resp
    if CANARY in b or any(CANARY in v for v in hdr.values()):
        raise Bad("a file from outside of the served directory was sent")
    pure = p.split("?")[0]
    want = lookup(root, pure)
    if want is None:
        if st != 404:
            raise Bad("status %d for %s, which is not there" % (st, p))
        return
    if st != 200:
        raise Bad("status %d for %s" % (st, p))
    if b != want[0]:
        i = next((i for i, (x, y) in enumerate(zip(b, want[0])) if x != y), min(len(b), len(want[0])))
        raise Bad("wrong content of %s: %d bytes instead of %d, first difference at %d" % (p, len(b), len(want[0]), i))
    ct = hdr.get(b"content-type", b"").decode()
    if want[1] and ct.split(";")[0] != want[1]:
        raise Bad("%s was sent as %r" % (p, ct))


def judge_listing(root, resp):
    st, hdr, b = resp
    if st != 200:
        raise Bad("status %d for the listing" % st)
    got = sorted(re.findall(r'<a href="([^"]*)">', b.decode()))
    want = sorted(os.listdir(root))
    if got != want:
        raise Bad("the listing has %s, the directory has %s" % ([x for x in got if got.count(x) != want.count(x)][:5], [x for x in want if got.count(x) != want.count(x)][:5]))


def session(sv, root, files, links, r, log):
    """One client: a few requests in one connection, one by one, in pieces or all at once."""
    ps = []
    for _ in range(r.choice([1, 1, 2, 3, 8, 20])):
        x = r.random()
        ps.append("/" if x < 0.06 else "cgi" if x < 0.1 else paths(r, files, links))
    ps = [p for p in ps if p == "cgi" or re.fullmatch(r"[!-~]+", p)]
    datas = []
    for i, p in enumerate(ps):
        if p == "cgi":
            q = "q=%d" % r.randrange(1000)
            ps[i] = p = ("cgi", q)
            datas.append(req("/cgi-bin/ok.sh?" + q, r))
        else:
            datas.append(req(p, r, r.choice(["HTTP/1.1", "HTTP/1.0"]), r.choice(["GET", "GET", "GET", "get"])))
    log.extend(map(str, ps))
    c = Conn(sv.port)
    how = r.randrange(3)
    try:
        def one(p):
            resp = c.response()
            if isinstance(p, tuple):
                if resp[0] != 200 or resp[2] != ("script says %s GET\n" % p[1]).encode() or resp[1].get(b"content-type") != b"text/x-test":
                    raise Bad("the script's answer came as %r" % (resp,))
            elif p == "/":
                judge_listing(root, resp)
            else:
                judge(root, p, resp)
            ck.saw("%s/%d/%d" % (p, how, resp[0]))
            ck.count("responses_%d" % resp[0])
            ck.count("body_bytes", len(resp[2]))
        if how == 0:
            for p, d in zip(ps, datas):
                c.send(d)
                one(p)
                c.nothing_more()
        elif how == 1:
            for p, d in zip(ps, datas):
                c.send(d, [r.randrange(len(d)) for _ in range(r.choice([1, 3]))])
                one(p)
                c.nothing_more()
        else:
            # all at once; responses are read concurrently with the writing
            data = b"".join(datas)
            t = threading.Thread(target=lambda: _quiet(c.send, data))
            t.start()
            for p in ps:
                one(p)
            t.join()
            c.nothing_more()
    finally:
        c.close()


def _quiet(f, *a):
    try:
        f(*a)
    except OSError:
        pass


def hostile(sv, files, r):
    """A client that misbehaves; nothing is expected from the server but to survive."""
    k = r.randrange(11)
    big = "/" + max(files, key=lambda n: len(files[n]))
    ck.count("hostile_clients")
    ck.saw("hostile/%d/%d" % (k, r.randrange(5)))
    try:
        c = Conn(sv.port, timeout=10)
    except OSError:
        return
    try:
        if k == 0:
            pass
        elif k == 1:
            d = r.randbytes(r.choice([1, 100, 5000, 100000]))
            c.send(d)
        elif k == 2:
            d = req(r.choice([big, "/", "/missing"]), r)
            c.send(d[:r.randrange(1, len(d))])
        elif k == 3:
            c.send(b"GET /" + b"a" * r.choice([1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2000, 100000]) + b" HTTP/1.1\r\n\r\n")
            c.s.settimeout(0.05)
            _quiet(c.s.recv, 1000)
        elif k == 4:
            c.send(r.choice([b"G" * r.choice([8, 9, 10, 11, 5000]) + b" / HTTP/1.1\r\n\r\n",
                             b"GET / " + b"H" * r.choice([8, 9, 10, 11, 5000]) + b"\r\n\r\n",
                             b"GET / HTTP/1.1\r\n" + b"N" * r.choice([1022, 1023, 1024, 1025]) + b": v\r\n\r\n",
                             b"GET / HTTP/1.1\r\nN: " + b"v" * r.choice([1022, 1023, 1024, 1025]) + b"\r\n\r\n",
                             b"GET / HTTP/1.1\r\n" + b"".join(b"h%d: v\r\n" % i for i in range(r.choice([99, 100, 101, 102, 300]))) + b"\r\n",
                             b"GET /?" + b"a=b&" * r.choice([99, 100, 101, 250]) + b" HTTP/1.1\r\n\r\n",
                             b"GET /?" + b"%" * r.choice([1, 2, 1000]) + b" HTTP/1.1\r\n\r\n",
                             b"GET nothing HTTP/1.1\r\n\r\n", b"GET  HTTP/1.1\r\n\r\n", b"\r\n\r\n", b"GET\r\n\r\n", b" / HTTP/1.1\r\n\r\n",
                             b"GET /%s HTTP/1.1\r\n\r\n", b"GET /%n%n%n%n HTTP/1.1\r\n\r\n", b"GET /\xff\xfe\x01 HTTP/1.1\r\n\r\n",
                             b"POST /cgi-bin/ok.sh HTTP/1.1\r\n\r\n", b"GET /\x00/../x HTTP/1.1\r\n\r\n"]))
            c.s.settimeout(0.2)
            _quiet(c.s.recv, 1000)
        elif k in (5, 6):
            # leaves in the middle of a file
            c.send(req(big) * r.choice([1, 5]))
            for _ in range(r.choice([0, 1, 3])):
                c.s.recv(r.choice([1, 100, 5000]))
        elif k in (7, 8):
            # asks a lot and leaves without reading
            c.send(req(r.choice(["/missing", "/", big, "/sub", "/cgi-bin/ok.sh"])) * r.choice([1, 10, 300]))
        elif k == 9:
            c.send(req(r.choice(["/cgi-bin/fail.sh", "/cgi-bin/garbage.sh", "/cgi-bin/noexec.sh", "/cgi-bin/missing.sh", "/cgi-bin/empty.sh", "/cgi-bin/status.sh", "/cgi-bin/"])))
            c.s.settimeout(1)
            _quiet(c.s.recv, 1000)
        else:
            c.send(req(big)[:20])
            c.s.shutdown(socket.SHUT_WR)
            c.s.settimeout(0.5)
            _quiet(c.s.recv, 1000)
    except OSError:
        pass
    finally:
        try:
            c.close(rst=r.random() < 0.6)
        except OSError:
            pass


def slow_reader(sv, root, files, r):
    """Takes its time: the server has to wait for it and lose nothing."""
    big = "/" + max(files, key=lambda n: len(files[n]))
    n = r.choice([3, 12])
    c = Conn(sv.port, rcvbuf=r.choice([2048, 8192]))
    try:
        c.send(req(big) * n)
        time.sleep(r.choice([0.2, 0.5]))
        for i in range(n):
            judge(root, big, c.response())
            ck.saw("slow/%d/%d" % (n, i))
        c.nothing_more()
    finally:
        c.close()


def campaign(binary, mode, root, files, links, n, salt, threads=6):
    sv = Server(binary, root, mode)
    stalled = []
    try:
        # clients that connect, ask and then never read nor leave
        for i in range(3):
            c = Conn(sv.port)
            _quiet(c.send, [b"", b"GET /f", req("/" + max(files, key=lambda x: len(files[x]))) * 3][i])
            stalled.append(c)
        bad = [0]

        def client(i):
            if bad[0] > 3 or not sv.alive():
                return
            r = ck.rng(salt, mode, i)
            if i % 60 != 7 and r.random() < 0.35:
                hostile(sv, files, r)
                return
            log = []
            for attempt in range(2):
                try:
                    if i % 60 == 7:
                        slow_reader(sv, root, files, r)
                    else:
                        session(sv, root, files, links, r, log)
                    return
                except Bad as e:
                    if not sv.alive():
                        return
                    bad[0] += 1
                    ck.violation("exchange/" + mode + "/" + re.sub(r"\d+", "N", str(e))[:60], "%s (requests %s)" % (e, log[-25:]),
                                 {"seed": "%s/%s/%d" % (salt, mode, i), "requests": log, "what": str(e)})
                    return
                except ConnectionError as e:
                    if not sv.alive():
                        return
                    if attempt:
                        bad[0] += 1
                        ck.violation("refused/" + mode, "the server does not take a client: %s" % e, {"requests": log})
                    time.sleep(0.2)
                    r = ck.rng(salt, mode, i, "again")
        ck.pmap(client, range(n), threads)
        # still there and serving?
        if sv.alive():
            try:
                session(sv, root, files, links, ck.rng("last", salt), [])
            except (Bad, OSError) as e:
                if sv.alive():
                    ck.violation("last/" + mode, "after the load a client gets no service: %s" % e, None)
            for c in stalled:
                _quiet(c.close, True)
            time.sleep(0.3)
            fds = len(os.listdir("/proc/%d/fd" % sv.p.pid))
            t = time.time() + 20
            while fds > 12 and time.time() < t and sv.alive():
                time.sleep(0.2)
                fds = len(os.listdir("/proc/%d/fd" % sv.p.pid))
            ck.count("servers_run")
            if fds > 12:
                ck.violation("fds/" + mode, "%d descriptors are still open in the server after all %d clients have left" % (fds, n), None)
        p = sv.problem()
        if p:
            ck.violation("server/%s/%s" % (mode, re.sub(r"\d+", "N", p.split("\n")[0])[:80]), p[:800], {"stderr": sv.stderr()[-6000:], "log": sv.stdout()[-3000:]})
        if CANARY in sv.stderr().encode():
            ck.count("canary_in_log")
    except Bad as e:
        ck.violation("start/" + mode, str(e), None)
    finally:
        sv.stop()


def few_descriptors(binary, root, files, links):
    """More clients than the server has descriptors: it must recover when they leave."""
    sv = Server(binary, root, "san", nofile=40)
    try:
        cs = []
        for i in range(70):
            try:
                cs.append(socket.create_connection(("127.0.0.1", sv.port), timeout=2))
            except OSError:
                break
        time.sleep(0.3)
        for c in cs:
            c.close()
        time.sleep(0.3)
        ok = False
        for _ in range(20):
            if not sv.alive():
                break
            try:
                session(sv, root, files, links, ck.rng("few"), [])
                ok = True
                break
            except (Bad, OSError):
                time.sleep(0.3)
        ck.saw("few descriptors")
        p = sv.problem()
        if p or not ok:
            ck.violation("crowd", "after a crowd of clients: %s" % (p or "no service"), {"stderr": sv.stderr()[-3000:], "log": sv.stdout()[-1500:]})
    finally:
        sv.stop()


def load_tool(tool, mode, sv, root, files):
    """The load tool: every request is reported once, with the real status and size."""
    r = ck.rng("exab", mode)
    small = [n for n in files if len(files[n]) <= 1000 and re.fullmatch(r"[a-z0-9./_-]{1,50}", n)]
    for i in range(ck.n(6, 40)):
        n, c = r.choice([(1, 1), (1, 4), (5, 2), (40, 8), (100, 3), (33, 33)])
        name = r.choice(small + ["missing"])
        res = run(WRAP.get(mode, []) + [tool, "-n", str(n), "-c", str(c), "http://127.0.0.1:%d/%s" % (sv.port, name)], env=ck.che_env(mode), timeout=100)
        ck.saw("exab/%s/%d/%d/%s" % (mode, n, c, name))
        ck.count("exab_requests", n)
        what = None
        rows = res.text.strip().split("\n")
        if res.timeout:
            what = "no end"
        elif res.san:
            what = res.san
        elif res.rc != 0:
            what = "rc=%s %s" % (res.rc, res.etext[-300:])
        else:
            head = re.split(r"\s+", rows[0].strip())
            rest = [re.split(r"\s+", x.strip()) for x in rows[1:]]
            if len(rest) != n:
                what = "%d results for %d requests" % (len(rest), n)
            else:
                st = "404" if name == "missing" else "200"
                k = head.index("status") if "status" in head else None
                bad = [x for x in rest if k is not None and (len(x) <= k or x[k] != st)]
                if bad:
                    what = "a result without status %s: %s" % (st, bad[0])
        if what:
            ck.violation("exab/%s" % mode, "exab -n %d -c %d /%s: %s" % (n, c, name, what), {"out": res.text[-2000:], "err": res.etext[-3000:]})
            return


def main_check():
    ck.build_che()
    jobs = [(p, m) for p in ("webserver", "exab") for m in ("san", "tsan", "plain")]

    def build(j):
        out = os.path.join(ck.scratch, "%s-%s" % j)
        r = ck.che_build(os.path.join(REPO, "prog", j[0], j[0] + ".c"), out, j[1])
        if r.rc != 0 or not os.path.exists(out):
            raise CheckError("%s does not build: %s %s" % (j[0], r.text[-500:], r.etext[-1500:]))
        return out
    bins = dict(zip(jobs, ck.pmap(build, jobs)))
    probe = run([bins["exab", "tsan"]], env=ck.che_env("tsan"), timeout=60)
    if "unexpected memory mapping" in probe.etext:
        WRAP["tsan"] = ["setarch", "-R"]
        probe = run(WRAP["tsan"] + [bins["exab", "tsan"]], env=ck.che_env("tsan"), timeout=60)
    modes = ["san", "plain", "tsan"]
    if "FATAL: ThreadSanitizer" in probe.etext:
        ck.assumptions.append("the race detector does not start on this machine")
        modes.remove("tsan")
    top = os.path.realpath(os.path.join(ck.scratch, "www"))
    os.makedirs(top)
    root, files, links = make_tree(ck.rng("tree"), top)
    scripts = {"ok.sh": 'printf "Content-Type: text/x-test\\r\\n\\r\\n"; printf "script says "; sleep 0.01; echo "$QUERY_STRING $REQUEST_METHOD"',
               "fail.sh": "exit 3", "garbage.sh": "echo nonsense", "empty.sh": "exit 0", "status.sh": 'printf "Status: 404\\n\\nx"', "noexec.sh": "echo x"}
    for n, t in scripts.items():
        p = os.path.join(root, "cgi-bin", n)
        with open(p, "w") as f:
            f.write("#!/bin/sh\n" + t + "\n")
        os.chmod(p, 0o644 if n == "noexec.sh" else 0o755)
    for n in list(files) + list(links):
        assert os.path.lexists(os.path.join(root, n)), n
    for m in modes:
        campaign(bins["webserver", m], m, root, files, links, ck.n(250, 3000), "main", 8 if m != "tsan" else 6)
    few_descriptors(bins["webserver", "san"], root, files, links)
    try:
        sv = Server(bins["webserver", "plain"], root, "plain")
        try:
            for m in modes:
                load_tool(bins["exab", m], m, sv, root, files)
        finally:
            sv.stop()
    except Bad as e:
        ck.violation("start", str(e), None)
    ck.sample("GET /sub/../f3.json on a kept-alive connection: 200, exact bytes and media type")
    ck.sample("GET /../rootx/secret.txt, links leading out: 404, canary never sent")
    ck.finish()


main(main_check)
