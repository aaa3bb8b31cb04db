"""P03, P04: tape images against spec/Tape.tla."""
import json, re
from vlib import *

BUF = 32768


def gen_from_spec(rep, n):
    cfg = open(SPEC + "/MCTape.cfg").read().replace("MaxOps = 5", "MaxOps = %d" % n)
    p = scratch() + "/MCTape.cfg"
    open(p, "w").write(cfg)
    r = check_model(rep, "MCTape", cfg=p, workers=4)
    return [json.loads(h) for h in sorted(set(re.findall(r'"H (\[.*\])"', r.out.replace('\\"', '"'))))]


def script_of(h, fmt, q):
    L, wr = ["R"], 0
    ring = 0
    for o in h:
        if o[0] == "A":
            its = o[3]
            L.append("F %d 0 %d %s" % (fmt, len(its), " ".join("%d %d %d" % tuple(x) for x in its)))
            ring = 1 if o[2] else 0
            L.append("A %d %d" % (ring, wr & 1))
        elif o[0] == "W":
            L.append("W %d %d 1" % (o[1], 20 + wr * 5))
            wr += 1
        elif o[0] in "rb":
            L.append("%s %d 0" % (o[0], o[1]))
        elif o[0] == "C":
            L += ["D", "A %d %d" % (ring, wr & 1)]
        else:
            L.append(o[0])
        if q:
            L.append("Q")
    L.append("D")
    return L


def size(fmt, n):
    if n == 0:
        return 1 if fmt == 2 else 4
    return n if fmt == 2 else 8 + n + (n & 1 if fmt == 0 else 0)


def random_run(rg, big, ring=None):
    """A random history; keeps track of the tape only to aim at interesting
    places (buffer boundaries) and to stay out of overwritten remains."""
    fmt = rg.randrange(3)
    ring = rg.random() < 0.85 if ring is None else ring
    items, pos, junk = [], 0, False
    mod = 128 if fmt == 2 else 256

    def newlen(at):
        if not big or rg.random() < 0.3:
            return rg.choice([1, 2, 3, 17, 18, 80, 133, rg.randrange(1, 300)])
        # end near a multiple of the buffer size
        nxt = (at // BUF + rg.choice([1, 1, 2])) * BUF
        n = nxt - at + rg.randrange(-9, 10)
        return n if 1 <= n <= 70000 else rg.randrange(1, 4000)

    def rec(at):
        n = newlen(at)
        b = rg.randrange(mod)
        if fmt == 2 and b == 15:
            b = 16
        return (n, b, rg.choice([0, 1, 1, 3, mod - 1, rg.randrange(mod)]))

    def off(p):
        return sum(size(fmt, x[0]) for x in items[:p])
    for _ in range(rg.choice([0, 0, 1, 3, 6])):
        items.append((0, 0, 0) if rg.random() < 0.25 else rec(off(len(items))))
    eom = 1 if fmt != 2 and rg.random() < 0.2 else 0
    L = ["R", "F %d %d %d %s" % (fmt, eom, len(items), " ".join("%d %d %d" % x for x in items)),
         "A %d %d" % (ring, rg.randrange(2))]
    for _ in range(rg.choice([6, 15, 30])):
        x = rg.random()
        end = pos == len(items)
        if x < 0.30:
            w = rec(off(pos))
            L.append("W %d %d %d" % w)
            if ring:
                junk = junk or pos < len(items)
                items[pos:] = [w]
                pos += 1
        elif x < 0.38:
            L.append("M")
            if ring:
                junk = junk or pos < len(items)
                items[pos:] = [(0, 0, 0)]
                pos += 1
        elif x < 0.68:
            if end and junk:
                continue
            n = 0 if end else items[pos][0]
            L.append("r %d %d" % (rg.choice([n, n + 1, n // 2, 0, 1]), rg.choice([0, 0, 1, n])))
            if not end:
                pos += 1
        elif x < 0.9:
            n = items[pos - 1][0] if pos else 0
            L.append("b %d %d" % (rg.choice([n, n + 1, n // 2, 0, 1]), rg.choice([0, 0, 1, n])))
            pos = max(0, pos - 1)
        elif x < 0.95:
            L.append("Z")
            pos = 0
        else:
            L.append("D")
            if rg.random() < 0.2:
                L += rg.sample(["r 1 0", "b 1 0", "M", "W 3 1 1", "Z"], 2)
            L.append("A %d %d" % (ring, rg.randrange(2)))
            pos = 0
        if rg.random() < 0.3:
            L.append("Q")
    if rg.random() < 0.5:
        L.append("Z")
        pos = 0
        for it in items[pos:]:
            L.append("r %d 0" % (it[0] + 1))
    L.append("D")
    return L


def check(rep, prop):
    exe = build("h_tape", ["h_tape.c", "stubs.c", "device/tape.c", "device/xlat.c"] + TOP, ldflags=["-lm"])
    hs = gen_from_spec(rep, 5 if QUICK else 6)
    rg = rng(prop)
    rep.extra["histories_from_specification"] = len(hs)
    cap = 6000 if QUICK else 40000
    if len(hs) > cap:
        hs = rg.sample(hs, cap)
    runs = [script_of(h, i % 3, i % 2) for i, h in enumerate(hs)]
    rep.sample(runs[len(runs) // 2])
    n = 300 if QUICK else 3000
    rnd = [random_run(rg, i % 2, False if prop == "P04" and i % 4 == 0 else None) for i in range(n)]
    rep.sample(rnd[1][:30])
    rep.extra["random_runs"] = len(rnd)
    out = run_impl(exe, "\n".join("\n".join(x) for x in runs + rnd) + "\n", "tape")
    validate(rep, "TraceTape", out)
    rep.assumptions.append("what follows a block written over older data is not promised; P7B blocks do not begin with the frame that stands for a tape mark")
