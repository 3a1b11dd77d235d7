"""P18: threads, locks and pipes: exactly once, in order, no races, nobody left waiting."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P18", rule="a distinct interleaving observed (order of all pipe events of a run), or a distinct run of another kind")


def judge_pipe(rep, np, nc, items):
    w = rep.split()
    if w[0] != "0":
        return "joins or the end of the pipe are wrong: %s" % w[0]
    ev = [tuple(map(int, x.split(":"))) for x in w[1:]]
    enq = {e[2]: e for e in ev if e[0] == 1}
    deqs = [e for e in ev if e[0] == 2]
    if len(enq) != np * items:
        return "%d items were written instead of %d" % (len(enq), np * items)
    got = sorted(e[2] for e in deqs)
    want = sorted(enq)
    if got != want:
        extra = [x for x in got if x not in enq or got.count(x) > 1]
        lost = [x for x in want if x not in got]
        return "not exactly once: lost %s, repeated or invented %s" % (lost[:5], extra[:5])
    for c in range(nc):
        last = {}
        for e in deqs:
            if e[1] == c:
                p, i = divmod(e[2], 1000000)
                if last.get(p, -1) >= i:
                    return "consumer %d got item %d of producer %d after item %d" % (c, i, p, last[p])
                last[p] = i
    deq = {e[2]: e for e in deqs}
    for x in enq:
        if deq[x][4] < enq[x][3]:
            return "item %d was read before it was written" % x
    # first in, first out in real time
    byend = sorted(deq.values(), key=lambda e: e[4])
    k, best, who = 0, -1, None
    for a in sorted(deq.values(), key=lambda e: e[3]):
        while k < len(byend) and byend[k][4] < a[3]:
            b = byend[k][2]
            if enq[b][3] > best:
                best, who = enq[b][3], b
            k += 1
        if best > enq[a[2]][4]:
            return "item %d was written after item %d but had been read before the reading of %d began" % (who, a[2], a[2])
    order = hashlib.md5(" ".join("%d:%d:%d" % e[:3] for e in sorted(ev, key=lambda e: e[4])).encode()).hexdigest()[:16]
    ck.saw(order, 0)
    ck.count("pipe_events", len(ev))
    return None


def judge_chain(rep, n, items):
    ev = [tuple(map(int, x.split(":"))) for x in rep.split()[1:]]
    if [e[2] for e in ev] != list(range(items)):
        return "the items came out of the chain as %s" % [e[2] for e in ev][:40]


def turns(n, rounds):
    c = 0
    for _ in range(rounds):
        for i in range(n):
            c = c * 31 % 1000003 + i
    return c


def plan(r, heavy):
    k = r.randrange(12)
    d = r.choice([0, 0, 20, 200])
    s = r.randrange(100000)
    if k < 6:
        np, nc = r.choice([(1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (1, 6), (6, 1), (4, 8), (8, 4), (8, 8)])
        n = r.choice([1, 5, 31, 32, 33, 64, 65, 100] if not heavy else [33, 100, 500, 2000])
        return "pipe %d %d %d %d %d" % (np, nc, n, d, s), lambda rep: judge_pipe(rep, np, nc, n)
    if k == 6:
        n, m = r.choice([1, 2, 5]), r.choice([1, 32, 100])
        return "chain %d %d %d %d" % (n, m, d, s), lambda rep: judge_chain(rep, n, m)
    if k == 7:
        n, m = r.choice([2, 4, 8]), r.choice([1, 50, 300])
        return "mutex %d %d %d %d" % (n, m, min(d, 20), s), expect("%d 1" % (n * m))
    if k == 8:
        n, m = r.choice([1, 2, 5, 8]), r.choice([1, 10, 40])
        return "cond %d %d %d %d" % (n, m, d, s), expect("%d %d 0" % (turns(n, m), n))
    if k > 9:
        n = r.choice([2, 3, 8, 31])
        return "each %d %d %d" % (n, d, s), expect("0 31")
    if r.random() < 0.8:
        n = r.choice([1, 2, 10, 40])
        return "join %d" % n, expect("0")
    n = 200

    def judge(rep):
        w = rep.split()
        if len(w) != 2 or w[1] != "0":
            return "items were lost or reordered"
        if not 0 < int(w[0]) < n:
            return "%s of %d writes went through with nobody reading" % (w[0], n)
    return "full %d" % n, judge


def main_check():
    ck.build_che()
    bins = {m: ck.harness("threadh", m) for m in ("tsan", "san", "plain")}
    shim = os.path.join(ck.scratch, "jitter.so")
    src = ck.write("jitter.c", open(os.path.join(VERIF, "harness", "jitter.txt")).read())
    p = run(["gcc", "-O1", "-shared", "-fPIC", "-o", shim, src, "-ldl", "-lpthread"], env=ck.env)
    if p.rc != 0:
        raise CheckError("the scheduling shim does not build: " + p.etext[-500:])
    # does the race detector run here at all?
    probe = run([bins["tsan"]], b"join 1\n", env=ck.che_env("tsan"), timeout=60)
    wrap = []
    if "unexpected memory mapping" in probe.etext or probe.rc == 66 and "FATAL" in probe.etext:
        wrap = ["setarch", "-R"]
        probe = run(wrap + [bins["tsan"]], b"join 1\n", env=ck.che_env("tsan"), timeout=60)
    tsan_ok = probe.text.strip() == "0"
    if not tsan_ok and "FATAL: ThreadSanitizer" not in probe.etext and not probe.san:
        tsan_ok = True      # something else: let the runs below tell
    if not tsan_ok:
        ck.assumptions.append("the race detector does not start on this machine: " + probe.etext.strip()[:200])
    jobs = []
    r = ck.rng("plan")
    for i in range(ck.n(1200, 12000)):
        mode = r.choice(["tsan", "tsan", "san", "plain", "plain", "plain"])
        if mode == "tsan" and not tsan_ok:
            mode = "plain"
        line, judge = plan(r, not ck.quick and i % 10 == 0)
        jobs.append((i, mode, line, judge, r.randrange(10**6), r.choice([2, 4, 8, 30]), r.choice([0, 2, 4]), r.choice([50, 300])))
    stop = [0]

    def one(j):
        i, mode, line, judge, seed, rate, wake, us = j
        if stop[0] >= 6:
            return
        env = ck.che_env(mode)
        cmd = [bins[mode]]
        if mode == "tsan":
            cmd = wrap + cmd
            env["TSAN_OPTIONS"] = "exitcode=97:halt_on_error=0:second_deadlock_stack=1"
        if mode == "plain":
            env.update(LD_PRELOAD=shim, JITTER_SEED=str(seed), JITTER_RATE=str(rate), JITTER_WAKE=str(wake), JITTER_US=str(us))
        res = run(cmd, (line + "\n").encode(), env=env, timeout=100)
        kind = line.split()[0]
        ck.count("runs_" + mode)
        ck.saw("%s/%d" % (line, i))
        what = None
        if res.timeout:
            what = "threads were left waiting: no end after 100 s"
        elif res.san:
            what = res.san
        elif res.rc != 0:
            what = "exit status %s: %s" % (res.rc, res.etext[-300:])
        else:
            what = judge(res.text.strip("\n"))
        if what:
            stop[0] += 1
            ck.violation("%s/%s" % (kind, mode), what, {"request": line, "mode": mode, "jitter": [seed, rate, wake, us], "stdout": res.text[:3000], "stderr": res.etext[-4000:]})
        elif i < 8:
            ck.sample("%s under %s" % (line, mode))
    ck.pmap(one, jobs, workers=6)
    for n in (0, 1, 31):
        res = run([bins["san"]], b"late %d\n" % n, env=ck.che_env("san"), timeout=100)
        ck.saw("late/%d" % n)
        if res.timeout or res.rc == 0 or "writing to a closed pipe" not in res.etext:
            ck.violation("late", "writing to a closed pipe was not refused: exit status %s, %s" % (res.rc, res.etext[-300:]), {"request": "late %d" % n})
    run_cases(ck, ck.harness("pipemem"), [Case("cycle %d" % n, expect("0 1"), "memory", "a pipe with %d items" % n) for n in (0, 1, 5, 31, 32)])
    ck.finish()


main(main_check)
