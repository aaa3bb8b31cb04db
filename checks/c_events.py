"""P01, P02: the event scheduler against spec/Events.tla."""
import json, re
from vlib import *


def gen_from_spec(rep, calls):
    cfg = open(SPEC + "/MCEvents.cfg").read().replace("MaxCalls = 5", "MaxCalls = %d" % calls)
    p = scratch() + "/MCEvents.cfg"
    open(p, "w").write(cfg)
    r = check_model(rep, "MCEvents", cfg=p, workers=4)
    hs = sorted(set(re.findall(r'"H (\[.*\])"', r.out.replace('\\"', '"'))))
    return [json.loads(h) for h in hs]


def script_of(h):
    L = ["R"]
    for c in h:
        if c[0] == "add":
            x = c[5]
            rs = {"none": "n", "add": "a", "cancel": "c"}[x[0]] + "".join(" %d" % v for v in x[1:])
            L.append("a %d %d %d %s" % (c[2], c[3], c[4], rs))
        elif c[0] == "cancel":
            L.append("c %d %d" % (c[1], c[2]))
        else:
            L.append("t 1")
    L.append("t 4")
    return L


def random_run(rg, n, cancels):
    L = ["R"]
    span = rg.choice([2, 4, 8, 30])
    for _ in range(n):
        k = rg.random()
        d, f = rg.randrange(4), rg.randrange(3)
        if k < 0.5:
            t = rg.choice([0, 1, 1, 2, 3, span, rg.randrange(1, span + 1), rg.randrange(1, 60)])
            x = "n"
            q = rg.random()
            if q < 0.2:
                x = "a %d %d %d" % (rg.randrange(4), rg.randrange(3), rg.randrange(0, span))
            elif q < 0.4 and cancels:
                x = "c %d %d" % (rg.randrange(4), rg.randrange(3))
            L.append("a %d %d %d %s" % (d, f, t, x))
        elif k < 0.7 and cancels:
            L.append("c %d %d" % (d, f))
        else:
            L.append("t %d" % rg.choice([1, 1, 1, 2, 5]))
    L.append("t %d" % 70)
    return L


def check(rep, prop):
    exe = build("h_event", ["h_event.c", "stubs.c"] + TOP)
    hs = gen_from_spec(rep, 4 if QUICK else 5)
    if prop == "P02":
        hs = [h for h in hs if any(c[0] == "cancel" or (c[0] == "add" and c[5][0] == "cancel") for c in h)]
    else:
        rg = rng("sub")
        if len(hs) > 40000:
            hs = rg.sample(hs, 40000)
    rep.extra["histories_from_specification"] = len(hs)
    if len(hs) > 60000:
        hs = rng("sub").sample(hs, 60000)
    rg = rng(prop)
    rnd = [random_run(rg, rg.choice([20, 60, 150]), prop == "P02" or i % 3 == 0)
           for i in range(400 if QUICK else 4000)]
    script = "\n".join("\n".join(script_of(h)) for h in hs) + "\n" + \
             "\n".join("\n".join(x) for x in rnd) + "\n"
    out = run_impl(exe, script, "events")
    rep.sample(script_of(hs[len(hs) // 2]))
    rep.sample(rnd[0][:40])
    validate(rep, "TraceEvents", out)
    rep.extra["random_runs"] = len(rnd)
    rep.assumptions.append("which of several pending events of one unit and callback that are due at the same step a cancellation removes, and the order of callbacks within a step, are not promised")
