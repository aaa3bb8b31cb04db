"""P29: the configuration scanner against spec/Config.tla."""
import json, re
from vlib import *

NAMES = ["TCPU", "7777", "8888", "DEVA", "CTRLB", "88", "LOGT", "HEADX", "A9", "7777F", "8888q", "tcpu", "Deva", "ctrlb",
         "NOSUCH", "88888", "8", "A", "DEVAA", "DEV", "a9"]
WORDS = ["ring", "RING", "file", "x", "7track", "a-b", "-", "9", "one", "FORMAT", "noring", "FAIL", "Longer-option-name", "exactly-nineteen-ch1", "exactly-eighteen-c"]
VALUES = ["a.tap", "ONE", "two", "Three", "123", "0", "000000001", "12x", '"x y.z"', '"a""b"', '""', '""""', '"q""', '"open',
          '"x"y', '"x",', '"# no"', "/dir/File.Name", "x#y", '"tail" ', "-5", "'s'", '"' + "m" * 60 + '"', "%$!"]
SEPS = [" ", "  ", "\t", ",", ", ", " ,", ",,"]


def hx(s):
    return s.encode("latin-1").hex()


def good_line(rg):
    n = rg.choice(NAMES)
    s = rg.choice(["", "", " ", "\t "]) + n
    if rg.random() < 0.35:
        s += rg.choice(["-%d" % rg.randrange(1000), "/%d" % rg.randrange(100), "-%d/%d" % (rg.randrange(9), rg.randrange(9)),
                        "/%d-%d" % (rg.randrange(9), rg.randrange(9)), "-", "/", "-x", "/4b", "-1-2", "/1/2", "--", "-12-"])
    if rg.random() < 0.85:
        s += rg.choice([" ", "  ", "\t"]) + rg.choice(["00C", "1f0", "7FF", "0", "ffff", "10000", "0000000190", "123456789", "FFFFFFFFFFFFFFFFFFFF190",
                                                       "%03x" % rg.randrange(0x800), "%X" % rg.randrange(0x10000), "g00", "0c0,", "0x10", "-1"])
    for _ in range(rg.choice([0, 0, 1, 1, 2, 3, 5])):
        s += rg.choice(SEPS) if rg.random() < 0.95 else rg.choice([";", "", ".", "|", "="])
        s += rg.choice(WORDS)
        if rg.random() < 0.6:
            s += rg.choice(["=", "=", "=", "= ", " =", "=="]) + rg.choice(VALUES)
    if rg.random() < 0.2:
        s += rg.choice([" # comment", "#comment", " #", "  ", "\r", " ,"])
    return s


def random_line(rg):
    x = rg.random()
    if x < 0.6:
        return good_line(rg)
    if x < 0.8:
        s = list(good_line(rg))
        for _ in range(rg.choice([1, 1, 2, 4])):
            k = rg.randrange(len(s) + 1)
            y = rg.random()
            if y < 0.4 and s:
                s[k % len(s)] = chr(rg.choice([34, 35, 44, 45, 47, 61, 32, rg.randrange(1, 256)]))
            elif y < 0.7 and s:
                del s[k % len(s)]
            else:
                s.insert(k, chr(rg.choice([34, 35, 44, 45, 47, 61, 32, rg.randrange(32, 127)])))
        return "".join(s).replace("\n", " ")
    if x < 0.9:
        return "".join(chr(rg.choice([32, 34, 35, 44, 45, 47, 61, 56, 65, 97, rg.randrange(1, 256)])) for _ in range(rg.randrange(30))).replace("\n", " ")
    # long ones
    n = rg.choice([18, 19, 20, 21, 25, 60, 300, 900])
    return rg.choice(["8888 190 " + "o" * n, "8888 190 " + "o" * n + "=7", "8888 190 file=" + "v" * n, '8888 190 file="' + "v" * n + '"',
                      "8" * n + " 190", "x" * n, "DEVA-" + "z" * n + " 1", "DEVA/" + "z" * n + " 1 ring", "8888 " + "0" * n + "1 ring",
                      "8888 " + "f" * n + " ring", "8888 1 " + "ring " * (n // 5), "8888 1 " + ",".join(["x=1"] * (n // 4)), "#" * n,
                      "8888 190 " + "o" * 19 + "file=x", '8888 190 file="' + '""' * (n // 2) + '"'])[:1015]


def check(rep, prop):
    exe = build("h_conf", ["h_conf.c"] + TOP, extra=["-fsanitize=address", "-fno-omit-frame-pointer"] if False else ())
    cfg = open(SPEC + "/MCConfig.cfg").read().replace("MaxTok = 4", "MaxTok = %d" % (4 if QUICK else 5))
    p = scratch() + "/MCConfig.cfg"
    open(p, "w").write(cfg)
    r = check_model(rep, "MCConfig", cfg=p)
    hs = sorted(set(re.findall(r'"H (\[[\d,]*\])"', r.out)))
    lines = ["".join(map(chr, json.loads(h))) for h in hs]
    n = 30000 if QUICK else 200000
    if len(lines) > n:
        lines = rng("sub").sample(lines, n)
    rg = rng(prop)
    rnd = [random_line(rg) for _ in range(20000 if QUICK else 200000)]
    L = []
    allv = lines + rnd
    for i in range(0, len(allv), 20):
        L.append("R")
        L += ["L " + hx(s) for s in allv[i:i + 20]]
    nf = 0
    for i in range(400 if QUICK else 4000):
        L.append("R")
        for _ in range(3):
            k = rg.choice([0, 1, 3, 8])
            ls = [random_line(rg) if rg.random() < 0.25 else "8888 %x ring" % rg.randrange(0x800) if rg.random() < 0.5 else rg.choice(["", "# c", "7777F-3", "   "])
                  for _ in range(k)]
            if rg.random() < 0.3:
                m = rg.choice([1021, 1022, 1024, 1025, 1030, 1100, 2047, 2048, 3000])
                ls.insert(rg.randrange(len(ls) + 1), ("8888 1 x=" + "v" * 3000)[:m - 9] + " DEVA 2 y" if rg.random() < 0.5 else ("# " + "c" * 1021 + "8888 1" + " " * 3000)[:m])
                ls = [x if len(x) != 1023 else x + "." for x in ls]
            t = "\n".join(ls) + rg.choice(["\n", ""])
            L.append("F " + hx(t))
            nf += 1
    out = run_impl(exe, "\n".join(L) + "\n", "conf")
    rep.sample(lines[len(lines) // 2])
    rep.sample(rnd[:20])
    rep.extra.update(lines_from_specification=len(lines), random_lines=len(rnd), files=nf)
    validate(rep, "TraceConfig", out, parts=NCPU)
    rep.assumptions.append("decimal numbers have at most nine digits; names are distinguished by their first 19 characters; lines have no NUL or embedded newline; a line of exactly 1023 characters is not judged")
