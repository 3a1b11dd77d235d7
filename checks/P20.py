"""P20: files, processes and connections: what goes in comes out, and nothing stays open."""
import os, sys, socket, ipaddress
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P20", rule="a distinct request to the file, process or network library")


def fields(items):
    return ":".join([str(len(items))] + [hx(x) for x in items])


# ---- files -------------------------------------------------------------

def file_cases(r, top, n):
    """Sequences on one directory; the expectations come from the real directory."""
    cases = []
    d = os.path.join(top, "files%d" % n)
    os.makedirs(d)
    model = {}
    sizes = [0, 1, 2, 100, 4095, 4096, 4097, 10000, 65536, 70001]
    for i in range(12):
        p = os.path.join(d, r.choice(["a", "b.txt", "x y", "\u00e9", "n" * 200]) + str(i))
        data = r.randbytes(r.choice(sizes))
        if r.random() < 0.3:
            data = bytes(b or 1 for b in data)
        cases.append(Case("writefile %s %s" % (hx(p), hx(data)), expect("1"), "writefile"))

        model[p] = data
        cases.append(Case("readfile %s" % hx(p), expect("%s %s" % (hx(data), hx(data.split(b"\0")[0]))), "readfile"))
        cases.append(Case("stat %s" % hx(p), expect("1 %d 0 1" % len(data)), "stat"))
        if r.random() < 0.4:     # shorter and longer content over the old one
            model[p] = data2 = r.randbytes(r.choice([0, 5, len(data) // 2, len(data) + 10]))
            cases.append(Case("writefile %s %s" % (hx(p), hx(data2)), expect("1"), "rewrite"))
            cases.append(Case("readfile %s" % hx(p), expect("%s %s" % (hx(data2), hx(data2.split(b"\0")[0]))), "reread"))
        if r.random() < 0.3:
            del model[p]
            cases.append(Case("unlink %s" % hx(p), expect("1"), "unlink"))
            cases.append(Case("unlink %s" % hx(p), expect("0"), "unlink-again"))
            cases.append(Case("readfile %s" % hx(p), expect("fail fail"), "read-missing"))
            cases.append(Case("stat %s" % hx(p), expect("0 0 0 0"), "stat-missing"))
    cases.append(Case("writefile %s 00" % hx(os.path.join(d, "no", "such")), expect("0"), "write-nowhere"))

    def listing(rep, d=d):
        # what is really there in the end (replies are judged after the run)
        real = {}
        for x in os.listdir(d):
            with open(os.path.join(d, x), "rb") as f:
                real[os.path.join(d, x)] = f.read()
        if real != model:
            return "the files are not what was written: %s" % [x for x in set(real) | set(model) if real.get(x) != model.get(x)][:3]
        w = rep.split()
        if w[-1] != "." or sorted(unhx(x) for x in w[:-1]) != sorted(os.listdir(d.encode())):
            return "the directory was listed as %s" % [unhx(x) for x in w[:-1]][:10]
    cases.append(Case("list %s" % hx(d), listing, "list"))
    return cases


def static_cases(r, top):
    cases = []
    d = os.path.join(top, "static")
    os.makedirs(d + "/sub/deep")
    os.makedirs(d + "/empty")
    os.makedirs(d + "/many")
    for i in range(300):
        open(d + "/many/%s%d" % (r.choice("az.-~"), i), "w").close()
    for n in ("...", "..a", ".b", " ", "\\", "%s", "-x"):
        open(d + "/sub/" + n, "w").close()
    os.symlink("deep", d + "/sub/link")
    os.symlink("/nonexistent-xyz", d + "/sub/dangling")
    os.symlink("loop", d + "/sub/loop")
    with open(d + "/f", "w") as f:
        f.write("abc")
    for x in ("sub", "empty", "many"):
        want = sorted(os.listdir((d + "/" + x).encode()))
        cases.append(Case("list %s" % hx(d + "/" + x), lambda rep, want=want: None if rep.split()[-1] == "." and sorted(unhx(y) for y in rep.split()[:-1]) == want
                          else "listed as %s" % rep[:200], "list"))
    for x in ("missing", "f", "sub/dangling"):
        cases.append(Case("list %s" % hx(d + "/" + x), expect("fail"), "list-fail"))
    us = socket.socket(socket.AF_UNIX)
    here = os.getcwd()
    os.chdir(d)
    us.bind("sock")
    os.chdir(here)
    us.close()
    for x, want in (("sub", "1 1 1"), ("sock", "1 0 0"), ("sub/link", "1 1 1"), ("sub/dangling", "0 0 0"), ("f", "1 0 1"), ("sub/loop", "0 0 0"), ("f/x", "0 0 0")):
        def j(rep, want=want):
            w = rep.split()
            if [w[0], w[2], w[3]] != want.split():
                return "said %s" % rep
        cases.append(Case("stat %s" % hx(d + "/" + x), j, "stat"))
    cases.append(Case("readfile %s" % hx(d + "/sub"), expect("fail fail"), "read-directory"))
    cases.append(Case("readfile %s" % hx(d + "/f/x"), expect("fail fail"), "read-fail"))
    for _ in range(60):
        parts = [r.choice(["sub", "..", ".", "", "deep", "link", "static", "many", "f", "nope", "..."]) for _ in range(r.randrange(1, 6))]
        p = d + "/" + "/".join(parts)
        try:
            want = libc_realpath(p)
        except OSError:
            want = None
        for size in (4096, len(want or b"x") + 1, len(want or b"x"), len(want or b"xx") - 1):
            cases.append(Case("realpath %s %d" % (hx(p), size), expect(hx(want) if want and len(want) < size else "fail"), "realpath"))
    # paths as texts
    for _ in range(400):
        p = "".join(r.choice(["/", "/", "a", "bc", ".", "..", ".tar", ".gz", "\u00e9", " ", "x.y"]) for _ in range(r.randrange(0, 9)))
        b = p.encode()
        base = b.rsplit(b"/", 1)[-1]
        ext = base.rsplit(b".", 1)[1] if b"." in base else b""
        dirp = b.rsplit(b"/", 1)[0] if b"/" in b else b""
        for size in (len(b) + 1, len(b) + 50):
            cases.append(Case("names %s %d" % (hx(b), size), expect("%s %s %s" % (hx(base), hx(ext), hx(dirp))), "names"))
        if b:
            # too small for the result: must be refused
            size = r.randrange(1, len(b) + 1)

            def j(rep, size=size, dirp=dirp):
                got = rep.split()[2]
                if got != "fail" and (got != hx(dirp) or len(dirp) >= size):
                    return "the directory of the path is %s" % got
            cases.append(Case("names %s %d" % (hx(b), size), j, "names-small"))
    return cases


# ---- processes ---------------------------------------------------------

HELPER = r"""#!/usr/bin/python3 -IS
import os, sys
a = sys.argv[1:]
mode = a[0]
if mode == "args":
    os.write(1, b"\0".join(os.fsencode(x) for x in a[1:]))
    os.write(2, b"\0".join(sorted(k + b"=" + v for k, v in os.environb.items() if k != b"LC_CTYPE")))
elif mode == "io":
    data = b""
    while True:
        d = os.read(0, 65536)
        if not d: break
        data += d
    for fd, n in ((1, int(a[1])), (2, int(a[2]))):
        out = (data or b"z") * (n // max(1, len(data)) + 1)
        out = out[:n]
        while out:
            out = out[os.write(fd, out):]
    os._exit(int(a[3]))
elif mode == "fds":
    os.write(1, b" ".join(sorted(x.encode() for x in os.listdir("/proc/self/fd") if int(x) < 500)))
elif mode == "signal":
    os.kill(os.getpid(), int(a[1]))
elif mode == "close":
    os.close(1); os.close(0)
    os.write(2, b"still here")
    os._exit(int(a[1]))
"""


def proc_cases(r, helper, n):
    cases = []
    for _ in range(n):
        k = r.random()
        chunk = r.choice([1, 7, 100, 4096, 70000])
        order = r.randrange(2)
        if k < 0.25:
            args = ["".join(r.choice(["a", " ", "'", '"', "$x", "*", "\\", "\u00e9", "\n", "", "-"]) for _ in range(r.randrange(0, 6))) for _ in range(r.randrange(0, 6))]
            env = ["%s=%s" % (v, r.choice(["", "1", "a b", "=x", "\u00e9\n"])) for v in r.sample(["A", "B", "PATH", "LONG_NAME", "HOME"], r.randrange(0, 5))]
            want = b"\0".join(x.encode() for x in args)
            wenv = b"\0".join(sorted(x.encode() for x in env))
            line = "spawn %s %s - %d %d" % (fields([helper, "args"] + args), fields(env), chunk, order)
            cases.append(Case(line, expect("start 1 1 0 %s %s 0" % (hx(want), hx(wenv))), "args", {"args": args, "env": env}))
        elif k < 0.75:
            data = r.randbytes(r.choice([0, 1, 100, 5000, 60000]))
            no, ne = r.choice([0, 1, 300, 60000]), r.choice([0, 1, 300, 60000])
            # only one stream is read at a time, so the other one has to fit into the pipe
            if r.random() < 0.4:
                if order == 0:
                    no = 300000
                else:
                    ne = 300000
            st = r.choice([0, 0, 1, 2, 127, 255])
            rep = (data or b"z")
            out = (rep * (no // len(rep) + 1))[:no]
            err = (rep * (ne // len(rep) + 1))[:ne]
            line = "spawn %s 0 %s %d %d" % (fields([helper, "io", str(no), str(ne), str(st)]), hx(data), chunk if no + ne < 100000 or chunk > 1 else 100, order)
            cases.append(Case(line, expect("start 1 1 %d %s %s 0" % (st << 8, hx(out), hx(err))), "io"))
        elif k < 0.82:
            line = "spawn %s 0 - %d %d" % (fields([helper, "fds"]), chunk, order)

            def j(rep):
                w = rep.split()
                got = unhx(w[4]).split()
                # 0-2 and the one the listing itself uses
                if w[:4] != ["start", "1", "1", "0"] or not {b"0", b"1", b"2"} <= set(got) or len(got) > 4 + 6:
                    return "the process started with the descriptors %s" % got
            cases.append(Case(line, j, "fds"))
        elif k < 0.88:
            s = r.choice([9, 15, 6])
            cases.append(Case("spawn %s 0 - %d %d" % (fields([helper, "signal", str(s)]), chunk, order), expect("start 1 1 %d - - 0" % s), "signal"))
        elif k < 0.93:
            cases.append(Case("spawn %s 0 - %d %d" % (fields([helper, "close", "3"]), chunk, order), expect("start 1 1 768 - %s 0" % hx("still here")), "close"))
        elif k < 0.97:
            m = r.randrange(1, 10)
            want = " ".join("%02x 1" % (65 + i) for i in range(m)) + " 0"
            cases.append(Case("many %d %s" % (m, hx("/bin/cat")), expect(want), "many"))
        else:
            p = r.choice(["/nonexistent/program", os.path.dirname(helper), "", "relative-missing"])

            def j(rep):
                w = rep.split()
                if w[:2] == ["start", "fail"]:
                    return None
                if w[:3] != ["start", "1", "1"] or int(w[3]) == 0 or w[4] != "-" or w[6] != "0":
                    return "starting a missing program"
            cases.append(Case("spawn %s 0 - %d %d" % (fields([p]), chunk, order), j, "missing-program"))
    return cases


def parallel_cases(r, top, n):
    cases = []
    for i in range(n):
        m = r.choice([0, 1, 2, 7, 8, 9, 16, 17, 30])
        path = os.path.join(top, "par%d-%d" % (id(r), i))
        jobs = [(r.choice([0, 0, 1, 5, 40]), r.choice([0, 0, 0, 1, 9, 200])) for _ in range(m)]
        open(path, "w").close()

        def j(rep, jobs=jobs):
            w = rep.split()
            if len(w) != 2 or w[0] != "began":
                return "output repeated or lost"
            ev = unhx(w[1]).decode().split()
            want = sorted(["+%d" % k for k in range(len(jobs))] + ["-%d" % k for k in range(len(jobs)) if jobs[k][1] != 9])
            if sorted(ev) != want:
                miss = [x for x in want if ev.count(x) != 1]
                return "jobs that did not run exactly once to the end: %s" % miss[:10]
            for k in range(len(jobs)):
                if "-%d" % k in ev and ev.index("-%d" % k) < ev.index("+%d" % k):
                    return "order"
            ck.count("jobs_run", len(jobs))
        cases.append(Case("parallel %s %s" % (hx(path), " ".join("%d:%d" % x for x in jobs)) if jobs else "parallel %s" % hx(path), j, "parallel/%d" % min(m, 9)))
    return cases


# ---- network -----------------------------------------------------------

def addr_cases(r, n):
    cases = []
    for _ in range(n):
        k = r.random()
        if k < 0.3:
            s = str(ipaddress.IPv4Address(r.getrandbits(32)))
        elif k < 0.7:
            v = r.getrandbits(128)
            for _ in range(r.randrange(0, 5)):
                v &= ~(0xffff << (16 * r.randrange(8)))
            a = ipaddress.IPv6Address(v)
            s = r.choice([str(a), a.exploded, str(a).upper()])
        else:
            s = r.choice(["", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.4 ", " 1.2.3.4", "a.b.c.d", "::1::", "12345::", "1.2.3.-4", "::ffff:1.2.3.4", ":::", "1::2::3", "::", "0.0.0.0",
                          "255.255.255.255", "1:2:3:4:5:6:7:8:9", "localhost", "01.2.3.4", "::1%lo"])
        want = None
        for fam, v in ((socket.AF_INET6, 6), (socket.AF_INET, 4)):
            try:
                b = socket.inet_pton(fam, s)
                want = (v, b.ljust(16, b"\0"), socket.inet_ntop(fam, b))
                break
            except OSError:
                pass
        if not want:
            cases.append(Case("addr %s 60" % hx(s), expect("fail"), "addr-bad", s))
            continue
        for size in (60, len(want[2]) + 1, len(want[2])):
            def j(rep, want=want, size=size):
                w = rep.split()
                data = unhx(w[1])
                n = 4 if want[0] == 4 else 16
                if w[0] != str(want[0]) or data[:n] != want[1][:n]:
                    return "parsed as %s" % rep
                if w[2] != (hx(want[2]) if len(want[2]) < size else "fail"):
                    return "formatted as %s" % w[2]
            cases.append(Case("addr %s %d" % (hx(s), size), j, "addr", s))
    return cases


def refused_cases(r, closed, used):
    cases = []
    bad = [("connect", "tcp", "127.0.0.1:%d" % closed), ("listen", "tcp", "127.0.0.1:%d" % used),
           ("connect", "udp", "127.0.0.1:%d" % used), ("listen", "udp", "127.0.0.1:%d" % closed), ("connect", "tcp", "127.0.0.1"),
           ("connect", "tcp", ""), ("connect", "tcp", "127.0.0.1:" + "1" * 15), ("connect", "tcp", "127.0.0.1:" + "1" * 16), ("connect", "tcp", "127.0.0.1:" + "9" * 100),
           ("connect", "tcp", "1" * 200 + ":80"), ("connect", "tcp", "1" * 190 + ":80"), ("connect", "tcp", "1" * 300 + ":80"), ("connect", "tcp", "127.0.0.1:nosuchport"),
           ("listen", "tcp", "127.0.0.1:nosuchport"), ("listen", "tcp", "8.8.8.8:%d" % closed), ("listen", "tcp", "x"), ("connect", "tcp", "127.0.0.1:65x"), ("connect", "", "127.0.0.1:1")]
    for how, proto, addr in bad:
        cases.append(Case("refused %s %s %s" % (how, hx(proto), hx(addr)), expect("0 0 1"), "refused-%s" % how, addr[:60]))
    return cases


def recv_n(s, n):
    d = b""
    while len(d) < n:
        x = s.recv(65536)
        if not x:
            break
        d += x
    return d


def net_client(binary, r, i):
    """The library connects to us."""
    l = socket.socket()
    l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    l.bind(("127.0.0.1", 0))
    l.listen(5)
    l.settimeout(60)
    port = l.getsockname()[1]
    data = r.randbytes(r.choice([0, 1, 1000, 65537, 1000000]))
    reply = r.randbytes(r.choice([0, 1, 999, 100000, 2000000]))
    how = r.randrange(3)
    host = r.choice(["127.0.0.1", "localhost"])
    chunk = r.choice([100, 4096, 65536]) if len(reply) > 1000 else r.choice([1, 10, 4096])
    got = []

    def serve():
        try:
            c, _ = l.accept()
            c.settimeout(60)
            got.append(recv_n(c, len(data) + (9 if how == 2 else 0)))
            p = 0
            while p < len(reply):
                k = r2.choice([1, 100, 5000, 1 << 20])
                c.sendall(reply[p:p + k])
                p += k
                if r2.random() < 0.2:
                    time.sleep(0.002)
            c.close()
        except OSError as e:
            got.append(e)
    r2 = random.Random(i)
    t = threading.Thread(target=serve)
    t.start()
    res = run([binary], ("client %s %s %d %d\n" % (hx("%s:%d" % (host, port)), hx(data), chunk, how)).encode(), env=ck.che_env("san"), timeout=100)
    t.join(70)
    l.close()
    ck.saw("client/%d/%d/%d/%d" % (len(data), len(reply), how, chunk))
    want = "%s:%d %d %s 0" % (host, port, len(data), hx(reply))
    sent = data + (b"tail-42-x" if how == 2 else b"")
    what = res.san or ("no end" if res.timeout else None) or ("rc=%s %s" % (res.rc, res.etext[-300:]) if res.rc else None)
    if not what and res.text.strip() != want:
        what = "the client got %s..., expected %s..." % (res.text[:100], want[:100])
    if not what and (not got or got[0] != sent):
        what = "the other side got something else than was sent"
    if what:
        ck.violation("client/%d" % how, what, {"reply": len(reply), "data": len(data), "chunk": chunk, "stderr": res.etext[-2000:]})


def net_server(binary, r, i):
    """We connect to the library."""
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    n = r.choice([1, 2, 5])
    chunk = r.choice([1, 100, 65536])
    plan = [r.randbytes(r.choice([0, 1, 500, 3000] if chunk == 1 else [0, 1, 5000, 300000])) for _ in range(n)]
    p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ck.che_env("san"))
    p.stdin.write(("server %s %d %d\n" % (hx("127.0.0.1:%d" % port), n, chunk)).encode())
    p.stdin.flush()
    addrs, what = [], None
    try:
        for data in plan:
            c = socket.socket()
            t = time.time() + 60
            while True:
                try:
                    c.connect(("127.0.0.1", port))
                    break
                except ConnectionRefusedError:
                    if time.time() > t or p.poll() is not None:
                        raise
                    c.close()
                    c = socket.socket()
                    time.sleep(0.01)
            c.settimeout(60)
            addrs.append("%s:%d" % c.getsockname())
            tx = threading.Thread(target=lambda: (c.sendall(data), c.shutdown(socket.SHUT_WR)))
            tx.start()
            back = recv_n(c, len(data) + 1)
            tx.join()
            c.close()
            if back != data:
                what = "the echo of %d bytes came back as %d bytes" % (len(data), len(back))
    except OSError as e:
        what = "no service: %s" % e
    try:
        out, err = p.communicate(timeout=60)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        what = what or "no end"
    res = Result(p.returncode, out, err, False, 0)
    ck.saw("server/%d/%d/%s" % (n, chunk, [len(x) for x in plan]))
    if b"fail" in out and "ddress already in use" in res.etext:
        return
    if out.strip() == b"fail" and what:
        # somebody took the port in between
        ck.count("port_taken")
        return
    what = res.san or what
    if not what and out.decode().split() != addrs + ["0"]:
        what = "addresses of the clients: %s, expected %s" % (out.decode().split(), addrs + ["0"])
    if what:
        ck.violation("server", what, {"sizes": [len(x) for x in plan], "chunk": chunk, "stderr": res.etext[-2000:]})


def main_check():
    ck.build_che()
    binary = ck.harness("osh")
    top = os.path.realpath(os.path.join(ck.scratch, "work"))
    os.makedirs(top)
    helper = ck.write("work/helper.py", HELPER)
    os.chmod(helper, 0o755)
    cases = []
    for i in range(ck.n(25, 300)):
        cases.append(file_cases(ck.rng("files", i), top, i))
    ck.pmap(lambda c: run_cases(ck, binary, c, tag="fs/", batch=10000), cases)
    run_cases(ck, binary, static_cases(ck.rng("static"), top), tag="fs/")
    # a file whose size does not fit into 32 bits
    big = os.path.join(top, "big")
    with open(big, "wb") as f:
        f.write(b"abcde")
        f.truncate((1 << 32) + 5)
    res = run([binary], ("stat %s\n" % hx(big)).encode(), env=ck.che_env("san"), timeout=60)
    ck.saw("big stat")
    if res.text.strip() != "1 %d 0 1" % ((1 << 32) + 5):
        ck.violation("fs/big-stat", "the size of a file over 4 GB is told as %s" % res.text[:100], None)
    env = ck.che_env("san")
    env["ASAN_OPTIONS"] += ":max_allocation_size_mb=1000:allocator_may_return_null=1"
    res = run([binary], ("bigfile %s\n" % hx(big)).encode(), env=env, timeout=100)
    ck.saw("big read")
    if res.text.strip() not in ("fail", "") or res.rc not in (0, 1):
        ck.violation("fs/big-read", "reading a file over 4 GB without the memory for it: %r rc=%s %s" % (res.text[:100], res.rc, res.etext[-300:]), None)
    os.unlink(big)
    # the process itself
    cwd = os.path.join(top, "static/sub/deep")
    sc = []
    for size in (4096, len(cwd) + 1, len(cwd), 1):
        for name, val in (("VPX", "some = value"), ("VPE", ""), ("NOPE", None)):
            sc.append(Case("self %d %s" % (size, hx(name)), expect("%s %s 1 %s" % (hx(cwd) if size > len(cwd) else "fail", "NULL" if val is None else hx(val), hx(socket.gethostname()))), "self"))
    env = ck.che_env("san")
    env.update(VPX="some = value", VPE="")
    env.pop("NOPE", None)
    run_cases(ck, binary, sc, tag="self/", env=env, cwd=cwd)
    run_cases(ck, binary, proc_cases(ck.rng("proc"), helper, ck.n(400, 5000)), tag="proc/", batch=30)
    # descriptors run out
    some = ck.write("work/some", "text")
    sc = []
    for k in list(range(9)) + [20]:
        def judge(rep, k=k):
            started, read, wrote, listed, listening, more = map(int, rep.split())
            if started != (3 if k >= 6 else 0):
                return "%d of 3 processes started with %d descriptors left" % (started, k)
            if [read, wrote, listed] != [3 if k else 0] * 3:
                return "with %d descriptors left %d of 3 files were read, %d written, %d of 3 directories listed" % (k, read, wrote, listed)
            if listening > (3 if k else 0) or k > 5 and listening < 3:
                return "%d of 3 servers are listening, with %d descriptors left" % (listening, k)
            if more:
                return "%d more descriptors are open than before" % more
        sc.append(Case("starve %d %s %s %s %s" % (k, hx(some), hx("/bin/cat"), hx(os.path.join(top, "new")), hx("127.0.0.1:0")), judge, "starve"))
    run_cases(ck, binary, sc, tag="os/", batch=3)
    run_cases(ck, binary, parallel_cases(ck.rng("par"), top, ck.n(60, 600)), tag="proc/", batch=5)
    run_cases(ck, binary, addr_cases(ck.rng("addr"), ck.n(500, 10000)), tag="net/")
    used = socket.socket()
    used.bind(("127.0.0.1", 0))
    used.listen(1)
    closed = socket.socket()
    closed.bind(("127.0.0.1", 0))       # bound, not listening: connecting is refused
    run_cases(ck, binary, refused_cases(ck.rng("refused"), closed.getsockname()[1], used.getsockname()[1]), tag="net/", batch=30)
    used.close()
    closed.close()
    ck.pmap(lambda i: net_client(binary, ck.rng("client", i), i), range(ck.n(40, 600)), 6)
    ck.pmap(lambda i: net_server(binary, ck.rng("server", i), i), range(ck.n(25, 400)), 6)
    ck.sample("spawn helper io 300 60000 2 with 5000 bytes of input: both outputs, status 512, no descriptor left")
    ck.sample("parallel with 17 jobs of which some are killed: every job exactly once, all finished on return")
    ck.finish()


main(main_check)
