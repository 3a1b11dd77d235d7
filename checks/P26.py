"""P26: the LC-3 and CHIP-8 machines of the emulator."""
import os, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *

ck = Check("P26", rule="a distinct machine program whose whole output was compared with an independent model of the machine")
EMU = None
SHIM = None


# ---- LC-3 -------------------------------------------------------------------

def sx(x, n):
    return (x | (0xFFFF << n)) & 0xFFFF if x >> (n - 1) & 1 else x


class Stuck(Exception):
    pass


def lc3(image, inp, limit=20000):
    """Runs an image: (output, True when halted, False on an illegal instruction)"""
    mem = [0] * 65536
    origin = image[0]
    for k, w in enumerate(image[1:]):
        mem[origin + k] = w
    r = [0] * 8
    pc, cc = 0x3000, 2
    out = bytearray()
    pos = 0

    def getc():
        nonlocal pos
        if pos >= len(inp):
            raise Stuck     # end of input isn't claimed
        pos += 1
        return inp[pos - 1]

    def rd(a):
        if a == 0xFE00:
            mem[0xFE00] = 0x8000
            mem[0xFE02] = getc()
        return mem[a]

    def flags(d):
        nonlocal cc
        cc = 2 if r[d] == 0 else 4 if r[d] >> 15 else 1
    for _ in range(limit):
        ins = rd(pc)
        pc = (pc + 1) & 0xFFFF
        op, d, s = ins >> 12, ins >> 9 & 7, ins >> 6 & 7
        o9 = sx(ins & 0x1FF, 9)
        if op in (1, 5):
            v = sx(ins & 31, 5) if ins & 32 else r[ins & 7]
            r[d] = (r[s] + v) & 0xFFFF if op == 1 else r[s] & v
            flags(d)
        elif op == 9:
            r[d] = ~r[s] & 0xFFFF
            flags(d)
        elif op == 0:
            if d & cc:
                pc = (pc + o9) & 0xFFFF
        elif op == 12:
            pc = r[s]
        elif op == 4:
            # the order matters for JSRR R7
            to = (pc + sx(ins & 0x7FF, 11)) & 0xFFFF if ins & 0x800 else None
            if to is None and s == 7:
                raise Stuck
            r[7] = pc
            pc = to if to is not None else r[s]
        elif op == 2:
            r[d] = rd((pc + o9) & 0xFFFF)
            flags(d)
        elif op == 10:
            r[d] = rd(rd((pc + o9) & 0xFFFF))
            flags(d)
        elif op == 6:
            r[d] = rd((r[s] + sx(ins & 63, 6)) & 0xFFFF)
            flags(d)
        elif op == 14:
            r[d] = (pc + o9) & 0xFFFF
            flags(d)
        elif op == 3:
            mem[(pc + o9) & 0xFFFF] = r[d]
        elif op == 11:
            mem[rd((pc + o9) & 0xFFFF)] = r[d]
        elif op == 7:
            mem[(r[s] + sx(ins & 63, 6)) & 0xFFFF] = r[d]
        elif op == 15:
            r[7] = pc
            t = ins & 255
            if t == 0x20:
                r[0] = getc()
                flags(0)
            elif t == 0x21:
                out.append(r[0] & 255)
            elif t in (0x22, 0x24):
                a = r[0]
                n = 0
                while mem[a]:
                    out.append(mem[a] & 255)
                    if t == 0x24 and mem[a] >> 8:
                        out.append(mem[a] >> 8)
                    a = (a + 1) & 0xFFFF
                    n += 1
                    if n > 70000:
                        raise Stuck
            elif t == 0x23:
                out += b"Enter a character: "
                r[0] = getc()
                out.append(r[0])
                flags(0)
            elif t == 0x25:
                out += b"HALT\n"
                return bytes(out), True
            else:
                raise Stuck
        else:
            return bytes(out), False
    raise Stuck


def dump_code(nwords):
    """Prints nwords words from the label on as bits, then halts. Returns code with the words' place at its end."""
    # slots follow the code
    code = []
    for k in range(8):
        code.append(("ST", k))                    # ST Rk, slot k
    body = [
        ("LEA", 1), ("LDN",),                     # R1 = slots, R2 = nwords
        0x6640,                                   # loop: LDR R3, R1, 0
        ("LD16",),                                # R4 = 16
        ("LDZ",),                                 # bit: R0 = '0'
        0x16E0,                                   # ADD R3, R3, 0
        0x0601,                                   # BRzp +1
        0x1021,                                   # ADD R0, R0, 1
        0xF021,                                   # OUT
        0x16C3,                                   # ADD R3, R3, R3
        0x193F,                                   # ADD R4, R4, -1
        0x0200 | (-8 & 0x1FF),                    # BRp bit
        0x1261,                                   # ADD R1, R1, 1
        0x14BF,                                   # ADD R2, R2, -1
        0x0200 | (-13 & 0x1FF),                   # BRp loop
        0xF025]
    code += body
    n = len(code)
    consts = [nwords, 16, 48]
    out = []
    for k, c in enumerate(code):
        if isinstance(c, int):
            out.append(c)
            continue
        rel = lambda a: (a - k - 1) & 0x1FF
        if c[0] == "ST":
            out.append(0x3000 | c[1] << 9 | rel(n + 3 + c[1]))
        elif c[0] == "LEA":
            out.append(0xE200 | rel(n + 3))
        elif c[0] == "LDN":
            out.append(0x2400 | rel(n))
        elif c[0] == "LD16":
            out.append(0x2800 | rel(n + 1))
        else:
            out.append(0x2000 | rel(n + 2))
    return out + consts


def rins(r):
    k = r.randrange(100)
    d, s, t = r.randrange(8), r.randrange(8), r.randrange(8)
    if k < 18:
        return 0x1000 | d << 9 | s << 6 | (32 | r.randrange(32) if r.random() < 0.5 else t)
    if k < 32:
        return 0x5000 | d << 9 | s << 6 | (32 | r.randrange(32) if r.random() < 0.5 else t)
    if k < 40:
        return 0x9000 | d << 9 | s << 6 | 63
    if k < 52:
        return r.randrange(8) << 9 | (r.choice([0, 1, 2, 3, 5, -1, -2, -4, 8]) & 0x1FF)
    if k < 60:
        return r.choice([0x2000, 0xE000]) | d << 9 | (r.randrange(-40, 90) & 0x1FF)
    if k < 66:
        return 0x3000 | d << 9 | (r.randrange(20, 90) & 0x1FF)
    if k < 72:
        return r.choice([0x6000, 0x7000]) | d << 9 | s << 6 | r.randrange(64)
    if k < 76:
        return r.choice([0xA000, 0xA000, 0xB000]) | d << 9 | (r.randrange(-40, 90) & 0x1FF)
    if k < 79:
        return 0xC000 | s << 6
    if k < 83:
        return 0x4800 | (r.choice([0, 1, 2, 4, -3]) & 0x7FF) if r.random() < 0.7 else 0x4000 | s << 6
    if k < 96:
        return 0xF000 | r.choice([0x20, 0x21, 0x21, 0x22, 0x23, 0x24, 0x20])
    if k < 97:
        return 0xF025
    return r.randrange(65536)


def lc3_program(r):
    n = r.choice([3, 8, 20, 40])
    vals = [r.choice([0, 1, 2, 0xFFFF, 0x8000, 0x7FFF, 0x3000 + r.randrange(120), 0xFE00, 0xFE02, r.randrange(65536), 65 + r.randrange(20)]) for _ in range(8)]
    # layout: BR over the 8 values, the values, loads, body, dump, slots
    code = [0x0E08] + vals
    for k in range(8):
        here = 9 + k
        code.append(0x2000 | k << 9 | (1 + k - here - 1) & 0x1FF)
    code += [rins(r) for _ in range(n)]
    words = 8 + r.choice([0, 4])
    code += dump_code(words)
    code += [0] * 8 + [r.choice([0, 0x4241, 0x0043, 0xFE00, 0xFE02, 0x3000 + r.randrange(100), r.randrange(65536)]) for _ in range(12)]
    origin = 0x3000
    if r.random() < 0.15:
        k = r.randrange(1, 40)
        code = [r.randrange(65536) for _ in range(k)] + code
        origin -= k
    return [origin] + code


def words(image):
    return b"".join(w.to_bytes(2, "big") for w in image)


def go(key, name, rom, inp, steps=None, timeout=60):
    d = os.path.join(ck.scratch, "roms")
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, key.replace("/", "-"))
    with open(base + name, "wb") as f:
        f.write(rom)
    with open(base + ".in", "wb") as f:
        f.write(inp)
    env = ck.che_env("san")
    if steps:
        env = dict(env, LD_PRELOAD=SHIM, VP_STEPS=str(steps), ASAN_OPTIONS=env.get("ASAN_OPTIONS", "") + ":verify_asan_link_order=0")
    res = run(["/bin/sh", "-c", 'exec "$1" run "$2" <"$3"', "sh", EMU, base + name, base + ".in"], b"", env=env, timeout=timeout, outcap=64 << 20)
    for x in (name, ".in"):
        os.remove(base + x)
    return res


def report(key, what, res, rom, inp, want=None):
    ck.violation(key, what, {"rom": rom[:8000].hex(), "input": repr(inp), "stdout": repr(res.out[-3000:]), "stderr": res.etext[-3000:], "want": repr(want)[-3000:]})


def bad_end(res):
    if res.timeout:
        return "doesn't end"
    if res.san:
        return res.san
    if res.rc is not None and res.rc < 0:
        return "killed by signal %d" % -res.rc
    return None


def lc3_judge(key, image, inp, want):
    rom = words(image)
    res = go(key, ".lc3", rom, inp)
    ck.saw("lc3/" + hashlib.md5(rom + inp).hexdigest())
    ck.count("lc3_programs")
    out, halted = want
    msg = bad_end(res)
    if not msg:
        if res.rc != (0 if halted else 1) or (not halted and "panic" not in res.etext):
            msg = "status %s" % res.rc
        elif res.out != out:
            k = next((i for i in range(min(len(out), len(res.out))) if out[i] != res.out[i]), min(len(out), len(res.out)))
            msg = "output differs at byte %d: %r instead of %r" % (k, res.out[k:k + 40], out[k:k + 40])
    if msg:
        report(key, "lc3: " + msg, res, rom, inp, out)


def lc3_random(i):
    r = ck.rng("lc3", i)
    for attempt in range(60):
        image = lc3_program(r)
        inp = bytes(r.choice([r.randrange(256), r.randrange(32, 127)]) for _ in range(r.choice([0, 3, 40])))
        try:
            want = lc3(image, inp)
        except Stuck:
            continue
        if not want[1] and r.random() < 0.7:
            continue
        lc3_judge("lc3/%d" % i, image, inp, want)
        return


def lc3_sweep(i):
    """each instruction with all kinds of operands, one after another, results printed"""
    r = ck.rng("sweep", i)
    base, mk = [(0x1000, 0), (0x5000, 0), (0x9000, 0), (0x2000, 1), (0xE000, 1), (0xA000, 1), (0x6000, 2), (0x1020, 3), (0x5020, 3)][i % 9]
    for _ in range(40):
        vals = [r.choice([0, 1, 0xFFFF, 0x8000, 0x7FFF, 0x3000 + r.randrange(120), r.randrange(65536)]) for _ in range(8)]
        code = [0x0E08] + vals
        for k in range(8):
            code.append(0x2000 | k << 9 | (1 + k - (9 + k) - 1) & 0x1FF)
        for _ in range(6):
            d, s = r.randrange(8), r.randrange(8)
            code.append(base | d << 9 | {0: s << 6 | r.randrange(8), 1: r.randrange(-16, 60) & 0x1FF, 2: s << 6 | r.randrange(64), 3: s << 6 | r.randrange(32)}[mk])
        # the flags after them
        for c in (1, 2, 4):
            code += [c << 9 | 1, 0x1DBF]
        code += dump_code(8) + [0] * 8
        image = [0x3000] + code
        try:
            want = lc3(image, b"")
        except Stuck:
            continue
        lc3_judge("sweep/%d" % i, image, b"", want)
        return


def lc3_memory():
    fill = [0xF025] + [0] * (65536 - 0x3000 - 1)
    for delta, ok in ((-1, True), (0, True), (1, False)):
        image = [0x3000] + (fill[:len(fill) + delta] if delta <= 0 else fill + [0])
        rom = words(image)
        res = go("lc3/size%d" % delta, ".lc3", rom, b"")
        ck.saw("lc3/size/%d" % delta)
        msg = bad_end(res)
        if not msg and ok and (res.rc != 0 or res.out != b"HALT\n"):
            msg = "an image that fits isn't run (status %s, %r)" % (res.rc, res.etext[-200:])
        if not msg and not ok and (res.rc != 1 or res.out):
            msg = "an image that doesn't fit is run (status %s)" % res.rc
        if msg:
            report("lc3/size%d" % delta, "lc3: " + msg, res, rom[:100], b"")
    # strings at the very end of memory go on at its beginning
    for trap in (0x22, 0x24):
        image = [0x3000, 0x2002, 0xF000 | trap, 0xF025, 0xFFFE] + [0] * (65536 - 0x3000 - 4)
        image[-2:] = [0x4241, 0x0043]
        lc3_judge("lc3/end%x" % trap, image, b"", lc3(image, b""))
    # the last word of a file and the words after it
    for n in (1, 2, 5):
        image = [0x3000, 0xE002, 0xF022, 0xF025] + [65 + k for k in range(n)]
        lc3_judge("lc3/tail%d" % n, image, b"", lc3(image, b""))
    for rom in (b"", b"\x30"):
        res = go("lc3/short%d" % len(rom), ".lc3", rom, b"")
        ck.saw("lc3/short%d" % len(rom))
        if bad_end(res) or res.rc != 1 or res.out:
            report("lc3/short%d" % len(rom), "lc3: a file of %d bytes: %s" % (len(rom), bad_end(res) or "status %s" % res.rc), res, rom, b"")


def lc3_keys(i):
    """keys which arrive together while the program polls the keyboard"""
    r = ck.rng("keys", i)
    # poll: LDI R1, kbsr; BRzp poll; LDI R0, kbdr; OUT; ADD R2, R2, -1; BRp poll; HALT
    n = r.choice([2, 3, 7])
    image = [0x3000,
             0x2400 | 9,              # LD R2, count
             0xA200 | 6,              # LDI R1, kbsr
             0x0600 | (-2 & 0x1FF),   # BRzp
             0xA000 | 5,              # LDI R0, kbdr
             0xF021,
             0x14BF,
             0x0200 | (-6 & 0x1FF),   # BRp
             0xF025,
             0xFE00, 0xFE02, n]
    keys = bytes(r.randrange(32, 127) for _ in range(n))
    path = os.path.join(ck.scratch, "keys%d.lc3" % i)
    with open(path, "wb") as f:
        f.write(words(image))
    p = subprocess.Popen([EMU, "run", path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ck.che_env("san"))
    ck.saw("keys/%d" % i)
    k = r.randrange(n + 1)
    try:
        for part in (keys[:k], keys[k:]):
            p.stdin.write(part)
            p.stdin.flush()
            time.sleep(0.05)
        # the pipe stays open
        t0 = time.time()
        while p.poll() is None and time.time() - t0 < 20:
            time.sleep(0.02)
        if p.poll() is None:
            p.kill()
            out = p.stdout.read()
            ck.violation("keys/%d" % i, "lc3: typed %r at once, the program got only %r" % (keys, out), {"keys": repr(keys), "rom": words(image).hex()})
            return
        out = p.stdout.read()
        if out != keys + b"HALT\n" or p.returncode != 0:
            ck.violation("keys/%d" % i, "lc3: typed %r, got %r" % (keys, out), {"keys": repr(keys), "rom": words(image).hex(), "stderr": p.stderr.read().decode("utf-8", "replace")[-2000:]})
    except BrokenPipeError:
        ck.violation("keys/%d" % i, "lc3: the machine stopped before %r was typed" % keys, {"keys": repr(keys), "rom": words(image).hex()})
    finally:
        p.kill()
        for x in (p.stdin, p.stdout, p.stderr):
            try:
                x.close()
            except BrokenPipeError:
                pass
        p.wait()


def lc3_jumps(i):
    """a subroutine at the given distance, also far away"""
    r = ck.rng("jumps", i)
    d = [1023, -1024, 512, -512, 511, 600, -700, 255, 256, -256][i % 10] if i < 20 else r.randrange(-1024, 1024)
    if abs(d) < 8:
        return
    flags = [0x0000, 0x0201, 0x0401, 0x0801][i % 4]       # what the flags are before anything has set them
    pad = max(0, -d)
    code = [flags, 0xF025] if i % 2 else []
    code += [0x4800 | d & 0x7FF, 0xF021, 0xF025]
    at = len(code) - 2 + d                                # where the subroutine begins, from the first word
    sub = [0x2001, 0xC1C0, 65 + i % 26]                   # LD R0; RET
    if d > 0:
        image = [0x3000] + code + [0] * (at - len(code)) + sub
    else:
        # the subroutine lies before the start
        image = [0x3000 + at] + sub + [0] * (-at - len(sub)) + code
    lc3_judge("jumps/%d" % i, image, b"", lc3(image, b""))


def lc3_nokey(i):
    """the keyboard's status without a key, before and after one"""
    # LDI R1, kbsr; BRn end; OUT ...
    image = [0x3000,
             0xA20D,                   # LDI R1, kbsr
             0x0600 | (-2 & 0x1FF),    # BRzp: wait for the key
             0xA00C,                   # LDI R0, kbdr
             0xF021,
             0xA209,                   # LDI R1, kbsr
             0x0601,                   # BRzp +1
             0xF025,                   # a key which isn't there
             0xA206,                   # LDI R1, kbsr: the next one
             0x0600 | (-2 & 0x1FF),
             0xA005,
             0xF021,
             0x2004,                   # "!"
             0xF021,
             0xF025,
             0xFE00, 0xFE02, 33]
    # offsets are counted from the word after the instruction
    for k, w in list(enumerate(image))[1:]:
        if w >> 12 == 0xA and k < 15:
            image[k] = w & 0xFE00 | ((15 if w >> 9 & 7 == 1 else 16) - k - 1) & 0x1FF
        if w == 0x2004:
            image[k] = 0x2000 | 17 - k - 1
    key = "nokey/%d" % i
    path = os.path.join(ck.scratch, "nokey%d.lc3" % i)
    with open(path, "wb") as f:
        f.write(words(image))
    p = subprocess.Popen([EMU, "run", path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ck.che_env("san"))
    ck.saw(key)
    import select
    got = b""
    try:
        for ch in (b"x", b"y"):
            p.stdin.write(ch)
            p.stdin.flush()
            ready, _, _ = select.select([p.stdout], [], [], 20)
            if not ready:
                break
            got += os.read(p.stdout.fileno(), 100)
            time.sleep(0.05)
        t0 = time.time()
        while p.poll() is None and time.time() - t0 < 20:
            time.sleep(0.02)
        p.kill()
        got += p.stdout.read()
        if got != b"xy!HALT\n":
            ck.violation(key, "lc3: keys x and y typed one after another: printed %r" % got, {"rom": words(image).hex(), "stderr": p.stderr.read().decode("utf-8", "replace")[-2000:]})
    except BrokenPipeError:
        ck.violation(key, "lc3: keys x and y typed one after another: the machine stopped after %r" % got, {"rom": words(image).hex()})
    finally:
        p.kill()
        for x in (p.stdin, p.stdout, p.stderr):
            try:
                x.close()
            except BrokenPipeError:
                pass
        p.wait()


def on_terminal(i):
    """the terminal: keys aren't echoed or held until Enter while the machine runs, and it is as before afterwards"""
    import pty, termios, signal
    kind = ["lc3-halt", "lc3-interrupt", "chip8-interrupt"][i % 3]
    key = "terminal/" + kind
    if kind == "lc3-halt":
        name, rom = "t%d.lc3" % i, words([0x3000, 0xF020, 0xF021, 0xF025])
    elif kind == "lc3-interrupt":
        name, rom = "t%d.lc3" % i, words([0x3000, 0xF020, 0xF021, 0x0FFF])
    else:
        # waits for the key 5, then draws
        name, rom = "t%d.chip8" % i, bytes.fromhex("6005e09e12026000d0051208120a")
    path = os.path.join(ck.scratch, name)
    with open(path, "wb") as f:
        f.write(rom)
    m, sl = pty.openpty()
    before = termios.tcgetattr(sl)
    p = subprocess.Popen([EMU, "run", path], stdin=sl, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ck.che_env("san"))
    ck.saw(key)
    msg = None
    try:
        t0 = time.time()
        while time.time() - t0 < 20:
            now = termios.tcgetattr(sl)
            if not now[3] & (termios.ICANON | termios.ECHO):
                break
            if p.poll() is not None:
                break
            time.sleep(0.02)
        else:
            msg = "the terminal still echoes keys or holds them until Enter"
        if not msg:
            time.sleep(0.1)
            os.write(m, b"w")
            if kind == "lc3-interrupt":
                out = os.read(p.stdout.fileno(), 10)
                if out != b"w":
                    msg = "key w: printed %r" % out
                p.send_signal(signal.SIGINT)
            elif kind == "chip8-interrupt":
                time.sleep(1)
                p.send_signal(signal.SIGINT)
            t0 = time.time()
            rest = b""
            try:
                rest, err = p.communicate(timeout=20)
            except subprocess.TimeoutExpired:
                msg = msg or "doesn't end"
            if not msg:
                if kind == "lc3-halt" and (rest != b"wHALT\n" or p.returncode != 0):
                    msg = "printed %r, status %s" % (rest, p.returncode)
                elif kind != "lc3-halt" and (not rest.endswith(b"exit on signal 2\n") or p.returncode != 254):
                    msg = "printed %r, status %s after an interrupt" % (rest[-100:], p.returncode)
                elif kind == "chip8-interrupt" and "█".encode() not in rest:
                    msg = "the key isn't seen"
        if not msg and termios.tcgetattr(sl) != before:
            msg = "the terminal isn't restored: %r instead of %r" % (termios.tcgetattr(sl)[:4], before[:4])
        if msg:
            ck.violation(key, "%s: %s" % (kind, msg), {"rom": rom.hex()})
    finally:
        p.kill()
        p.wait()
        for x in (p.stdout, p.stderr):
            x.close()
        os.close(m)
        os.close(sl)


# ---- CHIP-8 -----------------------------------------------------------------

DIGITS = bytes.fromhex("f0909090f02060202070f010f080f0f010f010f09090f01010f080f010f0f080f090f0f010204040f090f090f0f090f010f0f090f09090e090e090e0f0808080f0e0909090e0f080f080f0f080f08080")
KEYS = {"1": 1, "2": 2, "3": 3, "4": 0xC, "q": 4, "w": 5, "e": 6, "r": 0xD, "a": 7, "s": 8, "d": 9, "f": 0xE, "z": 0xA, "x": 0, "c": 0xB, "v": 0xF}


class Chip8:
    def __init__(self, rom, inp):
        self.m = bytearray(4096)
        self.m[:80] = DIGITS
        self.m[0x200:0x200 + len(rom)] = rom
        self.pc, self.i, self.v, self.st, self.dt = 0x200, 0, [0] * 16, 0, 0
        self.stack, self.vid, self.keys, self.inp, self.pos = [], bytearray(2048), [False] * 16, inp, 0
        self.out = []
        self.shown = None

    def step(self):
        m, v = self.m, self.v
        while self.dt or self.st:
            if self.dt:
                self.dt -= 1
            if self.st:
                self.st -= 1
                self.out.append("\b")
        if self.pos < len(self.inp):
            k = KEYS.get(chr(self.inp[self.pos]))
            self.pos += 1
            if k is not None:
                self.keys[k] = True
        b1, b2 = m[self.pc & 0xFFF], m[self.pc + 1 & 0xFFF]
        self.pc = self.pc + 2 & 0xFFFF
        c, x, y, d4, kk, nnn = b1 >> 4, b1 & 15, b2 >> 4, b2 & 15, b2, (b1 & 15) << 8 | b2
        if (b1, b2) == (0, 0xEE):
            if not self.stack:
                raise Stuck
            self.pc = self.stack.pop()
        elif (b1, b2) == (0, 0xE0):
            self.vid = bytearray(2048)
        elif c == 0:
            pass
        elif c == 1:
            self.pc = nnn
        elif c == 2:
            if len(self.stack) == 16:
                raise Stuck
            self.stack.append(self.pc)
            self.pc = nnn
        elif c in (3, 4):
            if (v[x] == kk) == (c == 3):
                self.pc += 2
        elif c in (5, 9):
            if d4:
                raise Stuck
            if (v[x] == v[y]) == (c == 5):
                self.pc += 2
        elif c == 6:
            v[x] = kk
        elif c == 7:
            v[x] = v[x] + kk & 255
        elif c == 8:
            a, b = v[x], v[y]
            if d4 == 0:
                v[x] = b
            elif d4 == 1:
                v[x] = a | b
            elif d4 == 2:
                v[x] = a & b
            elif d4 == 3:
                v[x] = a ^ b
            elif d4 == 4:
                v[x] = a + b & 255
                v[15] = int(a + b > 255)
            elif d4 == 5:
                v[x] = a - b & 255
                v[15] = int(a >= b)
            elif d4 == 6:
                v[x] = a >> 1
                v[15] = a & 1
            elif d4 == 7:
                v[x] = b - a & 255
                v[15] = int(b >= a)
            elif d4 == 14:
                v[x] = a << 1 & 255
                v[15] = a >> 7
        elif c == 10:
            self.i = nnn
        elif c == 11:
            self.pc = v[0] + nnn
        elif c == 12:
            if kk:
                raise Stuck
            v[x] = 0
        elif c == 13:
            hit = 0
            for j in range(d4):
                s = m[self.i + j & 0xFFF]
                for q in range(8):
                    if s >> (7 - q) & 1:
                        p = (v[y] + j) % 32 * 64 + (v[x] + q) % 64
                        hit |= self.vid[p]
                        self.vid[p] ^= 1
            v[15] = hit
        elif c == 14 and kk == 0x9E:
            if v[x] > 15:
                raise Stuck
            if self.keys[v[x]]:
                self.pc += 2
            self.keys = [False] * 16
        elif c == 14 and kk == 0xA1:
            if v[x] > 15:
                raise Stuck
            if not self.keys[v[x]]:
                self.pc += 2
        elif c == 15:
            if kk == 0x07:
                v[x] = self.dt
            elif kk == 0x0A:
                raise Stuck
            elif kk == 0x15:
                self.dt = v[x]
            elif kk == 0x18:
                self.st = v[x]
            elif kk == 0x1E:
                self.i = self.i + v[x] & 0xFFFF
            elif kk == 0x29:
                if v[x] > 15:
                    raise Stuck
                self.i = v[x] * 5
            elif kk == 0x33:
                for j, z in enumerate((v[x] // 100, v[x] // 10 % 10, v[x] % 10)):
                    m[self.i + j & 0xFFF] = z
            elif kk == 0x55:
                for j in range(x + 1):
                    m[self.i + j & 0xFFF] = v[j]
            elif kk == 0x65:
                for j in range(x + 1):
                    v[j] = m[self.i + j & 0xFFF]
        if self.shown != self.vid:
            self.shown = bytes(self.vid)
            self.out.append("".join("".join("█" if z else " " for z in self.vid[k * 64:k * 64 + 64]) + "\n" for k in range(32)) + "\n")


def c8ins(r):
    x, y = r.randrange(16), r.randrange(16)
    if r.random() < 0.15:
        x = 15
    k = r.randrange(100)
    if k < 12:
        return 0x6000 | x << 8 | r.choice([0, 1, 2, 15, 16, 127, 128, 254, 255, r.randrange(256)])
    if k < 20:
        return 0x7000 | x << 8 | r.randrange(256)
    if k < 50:
        return 0x8000 | x << 8 | y << 4 | r.choice([0, 1, 2, 3, 4, 4, 5, 5, 5, 6, 7, 7, 7, 14])
    if k < 58:
        return r.choice([0x3000, 0x4000]) | x << 8 | r.choice([0, 1, r.randrange(256)])
    if k < 62:
        return r.choice([0x5000, 0x9000]) | x << 8 | y << 4
    if k < 66:
        return 0xA000 | r.choice([0x300 + r.randrange(256), r.randrange(80), 0xFF0 + r.randrange(16), r.randrange(4096)])
    if k < 78:
        return 0xD000 | x << 8 | y << 4 | r.choice([1, 3, 5, 15, 0])
    if k < 92:
        return 0xF000 | x << 8 | r.choice([0x07, 0x15, 0x18, 0x1E, 0x1E, 0x29, 0x33, 0x55, 0x65])
    if k < 94:
        return 0xE000 | x << 8 | r.choice([0x9E, 0xA1])
    if k < 95:
        return 0xC000 | x << 8
    if k < 97:
        return 0x00E0
    return r.choice([0x0000, 0x8008, 0xE000, 0xF0FF, 0x0123])


def c8_program(r):
    rom = [c8ins(r) for _ in range(r.choice([4, 10, 25, 60]))]
    if r.random() < 0.4:
        # a loop with a counter in V9 and a subroutine
        body = [w for w in (c8ins(r) for _ in range(r.randrange(1, 8)))]
        rom += [0x6903]
        at = 0x200 + 2 * len(rom)
        rom += body + [0x2000 | 0x200 + 2 * (len(rom) + len(body) + 4), 0x79FF, 0x3900, 0x1000 | at]
        after = len(rom)
        sub = [c8ins(r) for _ in range(2)] + [0x00EE]
        rom[after - 4] = 0x2000 | 0x200 + 2 * (after + 1)
        rom += [0x1000 | 0x200 + 2 * (after + 1 + len(sub))] + sub
    if r.random() < 0.15:
        # a computed jump
        k = r.choice([0, 2, 4])
        rom += [0x6000 | k, 0xB000 | 0x200 + 2 * (len(rom) + 2), c8ins(r), c8ins(r), c8ins(r)]
    # show the registers and what is around I
    rom += [0xAE00, 0xFF55, 0x00E0, 0x6000, 0x6100, 0xD01F, 0x6010, 0xAE0F, 0xD011]
    rom.append(0x1000 | 0x200 + 2 * len(rom))
    return b"".join(w.to_bytes(2, "big") for w in rom) + bytes(r.randrange(256) for _ in range(r.choice([0, 60])))


def c8_random(i):
    r = ck.rng("c8", i)
    for attempt in range(80):
        rom = c8_program(r)
        inp = bytes(r.choice(b"1234qwerasdfzxcv \n5") for _ in range(r.choice([0, 0, 2, 30])))
        c = Chip8(rom, inp)
        loop = None
        n = 0
        try:
            while n < 400:
                before = c.pc
                c.step()
                n += 1
                if c.pc == before and not (c.dt or c.st):
                    loop = n
                    break
        except Stuck:
            continue
        if loop is None and r.random() < 0.9:
            continue
        steps = n + (3 if loop else 0)
        ck.count("chip8_steps", n)
        c8_judge("c8/%d" % i, rom, inp, steps)
        return


def c8_keys(i):
    """each key of the keyboard against each number"""
    letters = sorted(KEYS)
    a, b = letters[i % 16], letters[(i * 7 + 3) % 16]
    # reads two keys (two steps), then asks for all of them, the last question forgets them
    code = [0x6000, 0x6000]
    for k in range(16):
        code += [0x6E00 | k, 0x6D01, 0xEEA1, 0x6D00, 0xAE00 | k, 0x80D0, 0xF055]      # 1 if not pressed
    # ask with SKP: keys are forgotten by it
    ask = KEYS[a] if i % 2 else KEYS[b]
    code += [0x6E00 | ask, 0x6D00, 0xEE9E, 0x6D01, 0xAE10, 0x80D0, 0xF055]
    for k in range(16):
        code += [0x6E00 | k, 0x6D01, 0xEEA1, 0x6D00, 0xAE20 | k, 0x80D0, 0xF055]
    code += [0x00E0]
    for row, at in ((0, 0xE00), (15, 0xE10), (16, 0xE20)):
        code += [0xA000 | at, 0x6000, 0x6100 | row, 0xD01F if row != 15 else 0xD011]
    code += [0x1000 | 0x200 + 2 * len(code)]
    rom = b"".join(w.to_bytes(2, "big") for w in code)
    c8_judge("c8keys/%d" % i, rom, (a + b).encode(), len(code) + 3)


def c8_judge(key, rom, inp, steps):
    c = Chip8(rom, inp)
    for _ in range(steps):
        c.step()
    res = go(key, ".chip8", rom, inp, steps=steps)
    ck.saw("c8/" + hashlib.md5(rom + inp).hexdigest())
    ck.count("chip8_programs")
    want = "".join(c.out) + "exit on signal 2\n"
    msg = bad_end(res) or ("status %s: %s" % (res.rc, res.etext[-200:]) if res.rc != 254 else None)
    if not msg:
        got = res.out.decode("utf-8", "replace")
        if got != want:
            x, y = got.split("\n"), want.split("\n")
            k = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
            msg = "the screens differ in line %d of %d (%d expected): %r instead of %r" % (k, len(x), len(y), x[k:k + 1], y[k:k + 1])
    if msg:
        report(key, "chip8: " + msg, res, rom, inp, want)


def c8_every(i):
    """every byte turns up among the random numbers"""
    n = [0, 255, 128, 127][i % 4]
    # waits for the number, then draws
    rom = bytes.fromhex("c0ff30%02x12006000d0011208" % n)
    res = go("c8every/%d" % n, ".chip8", rom, b"", steps=60000)
    ck.saw("c8every/%d" % n)
    if bad_end(res) or "█" not in res.out.decode("utf-8", "replace"):
        report("c8every/%d" % n, "chip8: %s" % (bad_end(res) or "%d is never among 20000 random numbers" % n), res, rom, b"")


def c8_ends(i):
    """programs which must stop with a message"""
    name, rom = [("calls", bytes.fromhex("2200")), ("return", bytes.fromhex("00ee")), ("sprite", bytes.fromhex("6010f029")), ("big", bytes(4096 - 0x200 + 1)), ("huge", bytes(100000))][i]
    res = go("c8end/" + name, ".chip8", rom, b"", steps=100)
    ck.saw("c8end/" + name)
    if bad_end(res) or res.rc != 1 or not res.err:
        report("c8end/" + name, "chip8: %s: %s" % (name, bad_end(res) or "status %s instead of a message and status 1" % res.rc), res, rom[:100], b"")


def c8_fits():
    rom = bytes.fromhex("1200") + bytes(4096 - 0x202)
    res = go("c8/fits", ".chip8", rom, b"", steps=5)
    ck.saw("c8/fits")
    if bad_end(res) or res.rc != 254:
        report("c8/fits", "chip8: a program which just fits: %s" % (bad_end(res) or "status %s" % res.rc), res, rom[:100], b"")


def c8_rand(i):
    """masked random numbers: all bits of the mask turn up, no others"""
    kk = [0x01, 0x0F, 0xF0, 0xFF, 0x81][i % 5]
    # 60 numbers ORed into V3, ANDed into V4
    code = [0x6300, 0x64FF]
    for _ in range(60):
        code += [0xC000 | kk, 0x8301, 0x8402]
    code += [0xAE00, 0xFF55, 0x00E0, 0xAE03, 0x6000, 0x6100, 0xD012]
    code.append(0x1000 | 0x200 + 2 * len(code))
    rom = b"".join(w.to_bytes(2, "big") for w in code)
    res = go("c8rand/%d" % i, ".chip8", rom, b"", steps=len(code) + 3)
    ck.saw("c8rand/%d" % kk)
    msg = bad_end(res)
    if not msg:
        lines = res.out.decode("utf-8", "replace").split("\n")
        rows = [x for x in lines[-35:] if len(x) == 64][:2]
        got = [int("".join("1" if ch == "█" else "0" for ch in x[:8]), 2) for x in rows]
        if got != [kk, 0]:
            msg = "60 random numbers masked with %02x have bits %r, expected all of the mask and none in common" % (kk, got)
    if msg:
        report("c8rand/%d" % i, "chip8: " + msg, res, rom, b"")


# the disassembler

def disas_want(b1, b2):
    c, x, y, n, kk, nnn = b1 >> 4, "V%x" % (b1 & 15), "V%x" % (b2 >> 4), "%x" % (b2 & 15), "0x%x" % b2, "0x%x" % ((b1 & 15) << 8 | b2)
    if (b1, b2) == (0, 0xEE):
        return ["RET"]
    if (b1, b2) == (0, 0xE0):
        return ["CLS"]
    if c == 8:
        op = {0: "LD", 1: "OR", 2: "AND", 3: "XOR", 4: "ADD", 5: "SUB", 6: "SHR", 7: "SUBN", 14: "SHL"}.get(b2 & 15)
        return [op, x, y] if op else None
    if c == 14:
        return {0x9E: ["SKP", x], 0xA1: ["SKNP", x]}.get(b2)
    if c == 15:
        return {0x07: ["LD", x, "DT"], 0x0A: ["LD", x, "K"], 0x15: ["LD", "DT", x], 0x18: ["LD", "ST", x], 0x1E: ["ADD", "I", x], 0x29: ["LD", "F", x],
                0x33: ["LD", "B", x], 0x55: ["LD", "[I]", x], 0x65: ["LD", x, "[I]"]}.get(b2)
    if c in (5, 9) and b2 & 15:
        return []
    return {0: None, 1: ["JP", nnn], 2: ["CALL", nnn], 3: ["SE", x, kk], 4: ["SNE", x, kk], 5: ["SE", x, y], 6: ["LD", x, kk], 7: ["ADD", x, kk], 9: ["SNE", x, y],
            10: ["LD", "I", nnn], 11: ["JP", "V0", nnn], 12: ["RND", x, kk], 13: ["DRW", x, y, n]}[c]


def disas(i):
    r = ck.rng("disas", i)
    n = r.choice([0, 1, 5, 300, 1792])
    code = [(r.randrange(256), r.randrange(256)) for _ in range(n)]
    if r.random() < 0.3:
        code = [(0x20 | r.randrange(16), b) for _, b in code]
    code = [(0xE0 | a & 15, r.choice([0x9E, 0xA1])) if a >> 4 == 14 and r.random() < 0.8 else
            (a, r.choice([0x07, 0x0A, 0x15, 0x18, 0x1E, 0x29, 0x33, 0x55, 0x65])) if a >> 4 == 15 and r.random() < 0.8 else (a, b) for a, b in code]
    rom = bytes(b for p in code for b in p)
    path = os.path.join(ck.scratch, "d%d.chip8" % i)
    with open(path, "wb") as f:
        f.write(rom)
    res = run([EMU, "disas", path], b"", env=ck.che_env("san"), timeout=60, outcap=16 << 20)
    ck.saw("disas/%d" % i)
    ck.count("disassembled", n)
    msg = bad_end(res) or ("status %s" % res.rc if res.rc else None)
    if not msg:
        lines = [x for x in res.text.split("\n") if x.strip() and "----" not in x]
        calls = {(a & 15) << 8 | b for a, b in code if a >> 4 == 2}
        marked = set()
        at = None
        for x in res.text.split("\n"):
            if "----" in x:
                marked.add(at + 2 if at is not None else None)
            elif x.strip():
                at = int(x.split("\t")[0], 16)
        if marked != {c for c in calls if c % 2 == 0 and 0x200 < c <= 0x200 + 2 * n}:
            msg = "the marked procedures are %r" % sorted(marked)[:20]
        if not msg and len(lines) != n:
            msg = "%d instructions listed instead of %d" % (len(lines), n)
        for k, (line, (a, b)) in enumerate(zip(lines, code)):
            want = disas_want(a, b)
            head, _, rest = line.partition("\t")
            rest = rest.split("#")[0].replace(",", " ").replace("{", " ").replace("}", " ").split()
            if head != "0x%x" % (0x200 + 2 * k):
                msg = "the address of %r isn't 0x%x" % (line, 0x200 + 2 * k)
            elif want is None:
                if rest and rest[0] in ("LD", "OR", "AND", "XOR", "ADD", "SUB", "SHR", "SUBN", "SHL", "SKP", "SKNP", "JP", "CALL", "RET", "CLS"):
                    msg = "%02x%02x is listed as %r" % (a, b, line)
            elif want and rest != want:
                msg = "%02x%02x is listed as %r instead of %r" % (a, b, rest, want)
            if msg:
                break
    if msg:
        report("disas/%d" % i, "disas: " + msg, res, rom, b"")


def disas_bad():
    for name, rom, rc in (("odd", b"\x12\x00\x13", 1), ("big", bytes(4096 - 0x200 + 2), 1), ("huge", bytes.fromhex("2300") * 40000, 1)):
        path = os.path.join(ck.scratch, "bad-%s.chip8" % name)
        with open(path, "wb") as f:
            f.write(rom)
        res = run([EMU, "disas", path], b"", env=ck.che_env("san"), timeout=60)
        ck.saw("disas/" + name)
        if bad_end(res) or res.rc != rc:
            report("disas/" + name, "disas %s: %s" % (name, bad_end(res) or "status %s" % res.rc), res, rom[:100], b"")
    for args in (["run", "x.bin"], ["disas", "x.lc3"], ["run", "none.lc3"], ["run", "none.chip8"], ["disas", "none.chip8"], ["what", "x"], []):
        res = run([EMU] + args, b"", env=ck.che_env("san"), timeout=60, cwd=ck.scratch)
        ck.saw("misuse/%r" % args)
        if bad_end(res) or res.rc != 1 or not res.err:
            report("misuse/%s" % "-".join(args), "emu %s: %s" % (" ".join(args), bad_end(res) or "status %s" % res.rc), res, b"", b"")


def main_check():
    global EMU, SHIM
    ck.build_che()
    EMU = os.path.join(ck.scratch, "emu")
    res = ck.che_build(os.path.join(REPO, "prog/emu/emu.c"), EMU)
    if res.rc != 0 or not os.path.exists(EMU):
        raise CheckError("emu does not build: %s %s" % (res.text[-500:], res.etext[-1500:]))
    SHIM = os.path.join(ck.scratch, "nosleep.so")
    src = ck.write("nosleep.c", open(os.path.join(VERIF, "harness", "nosleep.txt")).read())
    if run(["gcc", "-shared", "-fPIC", "-O1", "-o", SHIM, src]).rc != 0:
        raise CheckError("shim does not build")
    jobs = [lc3_memory, disas_bad, c8_fits] + [lambda i=i: c8_ends(i) for i in range(5)]
    for fn, q, t in ((lc3_random, 500, 6000), (lc3_sweep, 180, 2000), (lc3_keys, 8, 60), (lc3_nokey, 3, 20), (lc3_jumps, 40, 400), (on_terminal, 3, 12), (c8_keys, 16, 16), (c8_every, 4, 4), (c8_random, 500, 6000), (c8_rand, 5, 50), (disas, 30, 300)):
        for i in range(ck.n(q, t)):
            jobs.append(lambda fn=fn, i=i: fn(i))
    ck.pmap(lambda j: j(), jobs)
    ck.finish()


main(main_check)
