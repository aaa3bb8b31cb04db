"""P17-P23: the processors against spec/S360.tla."""
import json, random, re
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import cpugen

DEV = ["device/card.c", "device/disassem.c", "device/device.c", "device/tape.c", "device/xlat.c",
       "device/dasd.c", "device/cpu.c"]


def build_cpu(model):
    if model == 30:
        return build("cpu30", ["h_cpu30.c", "model2030/cpu2030.c", "model2030/model2030.c",
                               "model2030/model2030_ros.c"] + DEV + TOP, ros=("2030",), ldflags=["-lm"])
    return build("cpu50", ["h_cpu50.c", "model2050/cpu2050.c", "model2050/model2050_ros.c"] + DEV + TOP,
                 ros=("2050",), ldflags=["-lm"])


def run_programs(rep, model, progs, label, module="TraceCpu", cycles=60000, timeout=300):
    exe = build_cpu(model)
    script = "\n".join("\n".join(p.script(model, cycles)) for p in progs) + "\n"
    out = run_impl(exe, script, "%s_%d" % (label, model), timeout)
    return out


def cases_from_spec(rep, groups, pms="{0}", keys="{0}", modes="{0}"):
    """Check MCS360 for each group and return the cases it emits."""
    def one(g):
        cfg = open(SPEC + "/MCS360.cfg").read().replace('Group = "fixed"', 'Group = "%s"' % g) \
            .replace("PMs = {0}", "PMs = " + pms).replace("Keys = {0}", "Keys = " + keys).replace("Modes = {0}", "Modes = " + modes)
        p = "%s/MCS360_%s.cfg" % (scratch(), g)
        open(p, "w").write(cfg)
        r = check_model(rep, "MCS360", cfg=p, workers=2)
        return [json.loads(h) for h in sorted(set(re.findall(r'"H (\[.*\])"', r.out.replace('\\"', '"'))))]
    with ThreadPoolExecutor(len(groups)) as ex:
        return [c for cs in ex.map(one, groups) for c in cs]


def case_prog(rg, c):
    code, r2, r3, r4, m1, m2, key, mode, pm = c
    p = cpugen.Prog(rg, size=16384, key=key, amwp=mode, cc=1, pm=pm)
    for n, w in ((2, r2), (3, r3), (4, r4), (13, [0, 0, 16, 0])):
        p.r[n] = int.from_bytes(bytes(w), "big")
    if key:
        p.k[2] = 16
    if 0x20 <= code[0] < 0x40 or 0x60 <= code[0] < 0x80:
        p.f[0], p.f[1] = (int.from_bytes(bytes(x), "big") for x in (m1, m2))
    p.put(4096, bytes(m1))
    p.put(4112, bytes(m2))
    p.code(bytes(code))
    return p


GROUPS = {"P17": ["fixed", "mem", "shift", "logical"], "P18": ["decimal"], "P19": ["float"]}
# property: [(model, generator, programs quick, thorough)]
PLANS = {
    "P17": [(30, "FixedGen", 1700, 20000), (50, "FixedGen", 2500, 30000), (30, "ExGen", 300, 4000), (50, "ExGen", 600, 6000)],
    "P19": [(50, "FloatGen", 6000, 60000), (50, "FloatU", 1500, 15000), (50, "Float1", 3500, 40000)],
    "P20": [(30, "OpSweep", 1024, 4096), (50, "OpSweep", 1024, 4096), (30, "ExcGen", 3000, 40000), (50, "ExcGen", 3000, 40000)],
    "P21": [(30, "ProtGen", 4000, 60000), (50, "ProtGen", 4000, 60000)],
    "P22": [(30, "PswGen", 450, 6000), (50, "PswGen", 900, 8000)],
    "P23": [(30, "TimerGen", 600, 6000), (50, "TimerGen", 600, 6000)],
    "P18": [(30, "DecGen", 2500, 30000), (50, "DecGen", 2500, 40000)],
}


def check(rep, prop):
    rg = rng(prop)
    jobs = []
    if prop in GROUPS:
        cases = cases_from_spec(rep, GROUPS[prop], pms="{0}" if QUICK else "{0, 15}")
        rep.extra["cases_from_specification"] = len(cases)
        rg.shuffle(cases)
        for model in (30, 50) if prop != "P19" else (50,):
            cs = cases[:2500] if QUICK else cases
            jobs.append((model, [case_prog(rg, c) for c in cs], "cases"))
            cases.reverse()
    for model, gen, nq, nt in PLANS[prop]:
        g = getattr(cpugen, gen)(random.Random(rg.random()))
        g.model = model
        jobs.append((model, [g.program() for _ in range(nq if QUICK else nt)], gen))
    for m in sorted({j[0] for j in jobs}):
        build_cpu(m)
    for model, progs, label in jobs:
        for i in range(0, len(progs), 10000):
            out = run_programs(rep, model, progs[i:i + 10000], prop + label)
            if i == 0:
                l = open(out).readline()
                rep.sample("%d %s: %s" % (model, label, l[:900]))
            validate(rep, "TraceCpu", out, label="TraceCpu 20%d %s" % (model, label), parts=NCPU)
            os.remove(out)
    rep.extra["programs"] = {"20%d %s" % (m, l): len(p) for m, p, l in jobs}
    rep.assumptions += ASSUME if prop not in ("P22", "P23") else ASSUME[1:]
    rep.assumptions += MORE.get(prop, [])


ASSUME = ["the interval timer is disabled and no input/output is under way while the programs run",
          "where Principles of Operation leaves a result unpredictable (after a terminated instruction, or among several simultaneous program exceptions) any result is accepted"]
MORE = {"P20": ["an operation that is not valid or privileged may be reported with its operand address's exception instead, when that is bad as well",
                "input/output instructions in the supervisor state are not executed here (P25)"],
        "P21": ["which of several simultaneous exceptions is reported, and whether the bytes before the protected one are stored, is left open"],
        "P22": ["input/output interruptions are not raised here (P26)", "the moment an external signal arrives is not fixed: the specification lets it arrive before any instruction",
                "a program whose possible outcomes grow beyond the bound WideLimit of TraceCpu.tla is not judged"],
        "P23": ["one update takes 6 units of bit 23 on the 2050 and 6 or 7 on the 2030 (known finding)", "the moment an update arrives is not fixed: the specification lets it arrive before any instruction",
                "a program whose possible outcomes grow beyond the bound WideLimit of TraceCpu.tla is not judged"],
        "P19": ["when only the guard digit is left of an unnormalized short sum, it may or may not count as zero",
                "HALVE normalizes its result (the later edition of Principles of Operation, which the microcode follows)",
                "the outcomes named as findings in known-findings.txt are let pass"],
        "P18": ["MULTIPLY DECIMAL by zero of a multiplicand with invalid digits may or may not raise the data exception",
                "the outcomes named as findings in known-findings.txt are let pass for the 2050"]}
