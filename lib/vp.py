"""Shared machinery of the checks.

Every check is `python3 checks/<id>.py`.  It builds che from /repo's working
tree into a private target directory, makes scratch language homes, runs the
real translator / the real library code (compiled with sanitizers) under
generated workloads, and lets monitors and reference models judge what was
observed.
"""
import atexit, hashlib, json, os, random, re, resource, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = min(8, os.cpu_count() or 4)

SAN_FLAGS = "-fsanitize=address,undefined -fno-sanitize=shift-base -fno-sanitize-recover=all -fno-omit-frame-pointer"
MODES = {
    # name: flags appended after che's own
    "strict": "",                       # exactly what che asks for
    "plain": "-w -O0 -fwrapv",          # no warnings: judge the produced meaning only
    "san": SAN_FLAGS + " -w",
    "tsan": "-fsanitize=thread -O1 -w",
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "exitcode=97:halt_on_error=0",
}


class CheckError(Exception):
    """The check itself could not do its work (exit 2)."""


def base_env():
    e = dict(os.environ)
    e.update(HOME=os.environ.get("HOME", "/root"), LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC",
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", RUSTFLAGS="", CARGO_INCREMENTAL="0")
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    p = e.get("PATH", "")
    if "/root/.cargo/bin" not in p:
        e["PATH"] = "/root/.cargo/bin:" + p
    e.update(SAN_ENV)
    for k in ("CHELANG_HOME", "CHE_DEBUG", "DEBUG"):
        e.pop(k, None)
    return e


class Result:
    __slots__ = ("rc", "out", "err", "timeout", "cpu", "wall")

    def __init__(s, rc, out, err, timeout, wall):
        s.rc, s.out, s.err, s.timeout, s.wall = rc, out, err, timeout, wall

    @property
    def text(s):
        return s.out.decode("utf-8", "replace")

    @property
    def etext(s):
        return s.err.decode("utf-8", "replace")

    @property
    def san(s):
        """A sanitizer report, if the run produced one."""
        t = s.etext
        for pat in (r"ERROR: AddressSanitizer[^\n]*", r"[^\n]*runtime error:[^\n]*", r"WARNING: ThreadSanitizer[^\n]*",
                    r"ERROR: LeakSanitizer[^\n]*"):
            m = re.search(pat, t)
            if m:
                return re.sub(r"==\d+==|0x[0-9a-f]+", "", m.group(0)).strip()
        return None


def run(cmd, input=b"", cwd=None, env=None, timeout=60, cpu=None, mem=None, fsize=None, outcap=None, nofile=None):
    """Runs a process in its own group with limits; never raises on failure."""
    def pre():
        os.setsid()
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (int(cpu), int(cpu) + 1))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if fsize:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if nofile:
            resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t0 = time.time()
    for attempt in range(50):
        try:
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 cwd=cwd, env=env, preexec_fn=pre)
            break
        except OSError as e:
            if e.errno == 26 and attempt < 49:  # ETXTBSY: another thread's fork still holds the file
                time.sleep(0.05)
                continue
            return Result(127, b"", str(e).encode(), False, 0)
    to = False
    try:
        out, err = p.communicate(input, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    rc = p.returncode
    if rc in (-signal.SIGXCPU,):
        to = True
    return Result(rc, out, err, to, time.time() - t0)


class Check:
    def __init__(self, pid, level="exploration", rule="", assumptions=()):
        ACTIVE.append(self)
        self.pid = pid
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known_hits = []
        self.lock = threading.Lock()
        self.scratch = tempfile.mkdtemp(prefix="vp-%s-" % pid.lower())
        atexit.register(lambda: shutil.rmtree(self.scratch, ignore_errors=True))
        self.env = base_env()
        self.env["TMPDIR"] = self.scratch
        self._homes = []
        self.known = load_known(pid)
        if self.quick:
            threading.Thread(target=self.watch, daemon=True).start()

    def rng(self, *salt):
        return random.Random("%s/%s/%s" % (self.pid, self.seed, "/".join(map(str, salt))))

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self, budget):
        """Seconds left of a time budget (thorough loops)."""
        return budget - (time.time() - self.t0)

    # ---- building -------------------------------------------------------
    def build_che(self, extra_env=None):
        tgt = os.environ.get("VP_TARGET") or os.path.join(self.scratch, "target")
        os.makedirs(tgt, exist_ok=True)
        env = dict(self.env)
        env["CARGO_TARGET_DIR"] = tgt
        env["TMPDIR"] = self.scratch
        if extra_env:
            env.update(extra_env)
        r = run(["cargo", "build", "--offline", "--locked"], cwd=REPO, env=env, timeout=600)
        if r.rc != 0:
            raise CheckError("che does not build:\n" + r.etext[-3000:])
        self.che = os.path.join(self.scratch, "che")
        shutil.copy2(os.path.join(tgt, "debug", "che"), self.che)
        # library and programs as they are in the working tree now
        self.libdir = os.path.join(self.scratch, "libsrc")
        shutil.copytree(os.path.join(REPO, "lib"), self.libdir)
        self.ccdirs = {}
        for mode, flags in MODES.items():
            d = os.path.join(self.scratch, "cc-" + mode)
            os.makedirs(d)
            p = os.path.join(d, "c99")
            with open(p, "w") as f:
                if mode == "plain":
                    # che's own warning flags come first; -w and no -pedantic-errors
                    f.write('#!/bin/bash\na=(); for x in "$@"; do case "$x" in -W*|-pedantic*) ;; *) a+=("$x");; esac; done\n'
                            'exec /usr/bin/gcc -std=c99 %s "${a[@]}"\n' % flags)
                elif mode == "strict":
                    f.write('#!/bin/bash\nexec /usr/bin/c99 "$@"\n')
                elif mode == "san":
                    with open(os.path.join(d, "vp.h"), "w") as h:
                        h.write("unsigned long __sanitizer_get_current_allocated_bytes(void);\n")
                    f.write('#!/bin/bash\nexec /usr/bin/c99 -include %s/vp.h "$@" %s\n' % (d, flags))
                else:
                    f.write('#!/bin/bash\nexec /usr/bin/c99 "$@" %s\n' % flags)
            os.chmod(p, 0o755)
            self.ccdirs[mode] = d
        self.build_s = time.time() - self.t0

    def home(self, i=0):
        d = os.path.join(self.scratch, "home%s" % i)
        with self.lock:
            if not os.path.isdir(d):
                os.makedirs(d + "/tmp")
                os.makedirs(d + "/bin")
                os.symlink(self.libdir, d + "/lib")
        return d

    def new_home(self):
        with self.lock:
            self._homes.append(1)
            i = len(self._homes)
        return self.home("n%d" % i)

    def che_env(self, mode="san", home=None, extra=None):
        e = dict(self.env)
        e["CHELANG_HOME"] = home or self.home()
        e["PATH"] = self.ccdirs[mode] + ":" + e["PATH"]
        if extra:
            e.update(extra)
        return e

    def che_build(self, src, out, mode="san", home=None, cwd=None, timeout=120):
        own = home is None
        home = home or self.new_home()
        r = run([self.che, "build", src, out], env=self.che_env(mode, home), cwd=cwd, timeout=timeout, cpu=120)
        if own:
            shutil.rmtree(home, ignore_errors=True)
        return r

    def harness(self, name, mode="san", prog=None):
        """Builds /verif/harness/<name>.c (che dialect) and returns the binary.
        With prog the harness is put beside the modules of /repo/prog/<prog>."""
        out = os.path.join(self.scratch, "h-%s-%s" % (name, mode))
        src = os.path.join(VERIF, "harness")
        if prog:
            d = os.path.join(self.scratch, "hp-%s-%s" % (name, mode))
            shutil.copytree(os.path.join(REPO, "prog", prog), d)
            for f in (name, "proto", "leak"):
                shutil.copy(os.path.join(src, f + ".c"), d)
            src = d
        r = self.che_build(os.path.join(src, name + ".c"), out, mode)
        if r.rc != 0 or not os.path.exists(out):
            raise CheckError("harness %s does not build: rc=%s\n%s\n%s" % (name, r.rc, r.text[-2000:], r.etext[-2000:]))
        return out

    def write(self, rel, text):
        p = os.path.join(self.scratch, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode())
        return p

    def pmap(self, fn, items, workers=NCPU):
        with ThreadPoolExecutor(workers) as ex:
            return list(ex.map(fn, items))

    # ---- recording ------------------------------------------------------
    def saw(self, key=None, n=1):
        with self.lock:
            self.evals += n
            if key is not None:
                self.distinct.add(key if isinstance(key, (str, int, bytes)) else repr(key))

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s)

    def count(self, name, n=1):
        with self.lock:
            self.extra[name] = self.extra.get(name, 0) + n

    def violation(self, key, what, replay=None):
        """key: a stable identifier of the failing input / call site / history."""
        with self.lock:
            for k in self.known:
                if re.fullmatch(k["match"], key):
                    if k["match"] not in [h["match"] for h in self.known_hits]:
                        self.known_hits.append(k)
                    return
            for v in self.violations:
                if v["key"] == key:
                    return
            self.violations.append({"key": key, "what": what, "replay": replay})

    def watch(self):
        """A check that has seen a violation doesn't go on for long: the broken code may stall in each of the remaining runs."""
        while True:
            time.sleep(5)
            if self.violations and time.time() - self.t0 > 400:
                try:
                    self.finish()
                except SystemExit:
                    pass
                except RuntimeError:
                    continue        # something was being recorded at that moment
                sys.stdout.flush()
                shutil.rmtree(self.scratch, ignore_errors=True)
                os._exit(1)

    # ---- finishing ------------------------------------------------------
    def finish(self):
        if self.evals == 0 or not self.distinct:
            if not self.violations:
                raise CheckError("nothing was observed")
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": dict(self.extra, evaluations=self.evals, distinct_nontrivial=len(self.distinct),
                             rule=self.rule, samples=self.samples or ["-"]),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.violations:
            d = os.path.join(VERIF, "replays", self.pid)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            for i, v in enumerate(self.violations[:20]):
                p = os.path.join(d, "%02d.txt" % i)
                with open(p, "w", errors="backslashreplace") as f:
                    f.write("key: %s\nwhat: %s\n\n%s\n" % (v["key"], v["what"],
                            v["replay"] if isinstance(v["replay"], str) else json.dumps(v["replay"], indent=1, default=repr)))
                print("-- %s: %s" % (v["key"], str(v["what"])[:600]))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            sys.exit(1)
        print("ok %s tier=%s evaluations=%d distinct=%d wall=%.1fs %s" % (
            self.pid, self.tier, self.evals, len(self.distinct), time.time() - self.t0,
            " ".join("%s=%s" % (k, v) for k, v in sorted(self.extra.items()) if isinstance(v, (int, float)))))
        sys.exit(0)


def load_known(pid):
    """known_findings.txt lines:
    finding: property=<id> match=<regex of the violation key> <what fails>
    fixed: property=<id> <commit> <what failed>      (suppresses nothing)
    """
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+match=(\S+)\s+(.*)", line)
            if m and m.group(1) == pid:
                out.append({"match": m.group(2), "what": m.group(3).strip()})
    return out


def main(fn):
    """Runs a check function, mapping failures of the check itself to exit 2."""
    try:
        fn()
    except SystemExit:
        raise
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        stop()
    except DATA_ERRORS as e:
        # a monitor which can't make sense of what it observed
        import traceback
        traceback.print_exc()
        if ACTIVE and ACTIVE[-1].evals:
            ACTIVE[-1].violation("unreadable", "what was observed can't be interpreted: %s" % e, traceback.format_exc())
        stop()
    except BaseException:
        import traceback
        traceback.print_exc()
        stop()


DATA_ERRORS = (ValueError, LookupError, TypeError, AttributeError, ArithmeticError, AssertionError, struct.error,
               ConnectionError, TimeoutError, EOFError, FileNotFoundError, subprocess.TimeoutExpired)
ACTIVE = []


def stop():
    """Ends a check which can't go on: 1 if it has seen a violation before, 2 otherwise."""
    if ACTIVE and ACTIVE[-1].violations:
        ACTIVE[-1].finish()
    sys.exit(2)


def judged(judge, rep):
    try:
        return judge(rep)
    except DATA_ERRORS as e:
        return "the reply can't be interpreted (%s: %s)" % (type(e).__name__, e)


def libc_realpath(path):
    """realpath(3) itself: Python's own does not look at what is before '..'."""
    import ctypes
    libc = ctypes.CDLL(None, use_errno=True)
    libc.realpath.restype = ctypes.c_void_p
    libc.realpath.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
    buf = ctypes.create_string_buffer(8192)
    if not libc.realpath(os.fsencode(path), buf):
        raise OSError(path)
    return buf.value


# ---------------------------------------------------------------------------
# line protocol

def hx(b):
    """hex argument; '-' is the empty string"""
    if isinstance(b, str):
        b = b.encode()
    return b.hex() if b else "-"


def unhx(s):
    return b"" if s == "-" else bytes.fromhex(s)


class Case:
    """One request to a harness program: the line sent, and a judge."""
    __slots__ = ("line", "judge", "key", "desc", "reply")

    def __init__(self, line, judge, key, desc=None):
        self.line, self.judge, self.key, self.desc = line, judge, key, desc
        self.reply = None


def run_cases(ck, binary, cases, tag="", cpu_per=None, batch=400, timeout=120, max_bad=12, env=None, hang_is_violation=True,
              args=(), cwd=None):
    """Feeds cases to the harness in parallel batches.  A case's judge gets the
    reply text and returns None (fine) or a message.  Crashes, sanitizer
    reports and hangs are attributed to the case that was being served."""
    env = env or ck.che_env("san")
    bad = [0]

    def note(key, what, case, r=None):
        bad[0] += 1
        ck.violation(key, what, {"request": case.line[:20000], "case": case.desc, "what": what,
                                 "stderr": (r.etext[-4000:] if r else None)})

    def serve(chunk):
        i = 0
        while i < len(chunk):
            if bad[0] >= max_bad:
                return
            part = chunk[i:]
            data = ("\n".join(c.line for c in part) + "\n").encode()
            r = run([binary] + list(args), data, env=env, timeout=timeout, cpu=timeout, cwd=cwd)
            lines = r.text.split("\n")
            done = lines[:-1] if lines and lines[-1] == "" else lines[:-1]
            served = min(len(done), len(part))
            for c, rep in zip(part[:served], done):
                c.reply = rep
                ck.saw(hashlib.md5(c.line.encode()).hexdigest()[:16])
                msg = judged(c.judge, rep)
                if msg:
                    note("%s%s" % (tag, c.key), "%s (reply %r)" % (msg, rep[:300]), c)
                    if bad[0] >= max_bad:
                        return
            if served < len(part):
                c = part[served]
                ck.saw(hashlib.md5(c.line.encode()).hexdigest()[:16])
                if r.timeout:
                    # confirm alone, with a generous limit
                    r2 = run([binary] + list(args), (c.line + "\n").encode(), env=env, timeout=timeout, cpu=timeout, cwd=cwd)
                    if r2.timeout:
                        if hang_is_violation:
                            note("%s%s" % (tag, c.key), "does not terminate (%ds)" % timeout, c, r2)
                        served += 1
                    else:
                        pass  # slow batch only: go on from this case
                        if served == 0 and len(part) > 1:
                            chunk2 = part[:1]
                            lines = r2.text.split("\n")
                            if len(lines) > 1:
                                c.reply = lines[0]
                                msg = judged(c.judge, lines[0])
                                if msg:
                                    note("%s%s" % (tag, c.key), "%s (reply %r)" % (msg, lines[0][:300]), c)
                            served += 1
                        elif served == 0:
                            served += 1
                else:
                    # a judge may accept termination (expected panic)
                    why = r.san or ("exit %s, stderr %r" % (r.rc, r.etext[-300:]))
                    msg = judged(c.judge, ("!%s\n" % r.rc) + r.etext) if getattr(c.judge, "accepts_exit", False) and not r.san and r.rc >= 0 else "died: " + why
                    if msg:
                        note("%s%s" % (tag, c.key), msg if msg.startswith("died") else "%s; %s" % (msg, why), c, r)
                    served += 1
            elif r.san or (r.rc != 0 and not r.timeout):
                c = part[-1]
                note("%s%s" % (tag, c.key), "harness ended with %s: %s" % (r.rc, r.san or r.etext[-300:]), c, r)
            i += served
    chunks = [cases[k:k + batch] for k in range(0, len(cases), batch)]
    ck.pmap(serve, chunks)
    return bad[0]


def expect(want):
    def j(rep):
        return None if rep == want else "expected %r" % (want[:300],)
    return j
