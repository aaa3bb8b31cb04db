"""P28: the device lists against spec/DevLists.tla."""
import json, re
from vlib import *

FIND = ["f %d %d" % (a, m) for a in (0, 1, 5, 256, 263, 257, 1792, 1799) for m in (0xff, 0xf8, 0xffff, 0xfff8)]


def script_of(h):
    L = ["R"]
    for o in h:
        L.append(" ".join(str(x) for x in o))
        if o[0] in "AD":
            L.append("s")
    return L + FIND[::3] + ["s", "i", "c"]


def random_run(rg):
    L, on = ["R"], {}
    base = [rg.randrange(0, 0x800) for _ in range(rg.choice([1, 3, 6]))]
    near = lambda: min(0x7ff, max(0, rg.choice(base) + rg.choice([0, 0, 1, 2, 7, 8, -1, 16, 256])))
    for _ in range(rg.choice([10, 30, 80])):
        x = rg.random()
        if x < 0.3:
            free = [i for i in range(16) if i not in on]
            if free:
                i = rg.choice(free)
                on[i] = near()
                L.append("a %d %d" % (i, on[i]))
        elif x < 0.45 and on:
            i = rg.choice(list(on))
            if rg.random() < 0.8:
                L.append("d %d %d" % (i, on.pop(i)))
            else:
                a = near()
                if (a >> 8) & 7 == (on[i] >> 8) & 7:
                    on.pop(i)
                L.append("d %d %d" % (i, a))
        elif x < 0.5:
            free = [i for i in range(16) if i not in on]
            if free:
                L.append("d %d %d" % (rg.choice(free), near()))
        elif x < 0.7:
            L.append("f %d %d" % (near(), rg.choice([0xff, 0xf8, 0xf0, 0xffff, 0xfff8])))
        elif x < 0.8:
            L.append("A %d" % rg.randrange(16))
        elif x < 0.88:
            L.append("D %d" % rg.randrange(16))
        else:
            L.append(rg.choice(["s", "s", "i", "c"]))
    return L + ["s", "i", "c"]


def check(rep, prop):
    exe = build("h_devl", ["h_devl.c", "device/device.c"] + TOP)
    cfg = open(SPEC + "/MCDevLists.cfg").read().replace("MaxOps = 4", "MaxOps = %d" % (4 if QUICK else 5))
    p = scratch() + "/MCDevLists.cfg"
    open(p, "w").write(cfg)
    r = check_model(rep, "MCDevLists", cfg=p, workers=4)
    hs = [json.loads(h) for h in sorted(set(re.findall(r'"H (\[.*\])"', r.out.replace('\\"', '"'))))]
    n = 25000 if QUICK else 120000
    if len(hs) > n:
        hs = rng("sub").sample(hs, n)
    rg = rng(prop)
    rnd = [random_run(rg) for _ in range(1500 if QUICK else 20000)]
    out = run_impl(exe, "\n".join("\n".join(x) for x in [script_of(h) for h in hs] + rnd) + "\n", "devl")
    rep.sample(script_of(hs[len(hs) // 2]))
    rep.sample(rnd[0])
    rep.extra["histories_from_specification"] = len(hs)
    rep.extra["random_runs"] = len(rnd)
    validate(rep, "TraceDevLists", out, parts=NCPU)
    rep.assumptions.append("a device is added only while it is on no chain; lists are not changed from inside a disk step")
