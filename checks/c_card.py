"""P05, P06: cards against spec/Cards.tla and spec/CardFile.tla."""
import json, re
from vlib import *


def gen(rep, module, ops, old, **kw):
    cfg = open(SPEC + "/" + module + ".cfg").read().replace("MaxOps = %d" % old, "MaxOps = %d" % ops)
    p = scratch() + "/" + module + ".cfg"
    open(p, "w").write(cfg)
    r = check_model(rep, module, cfg=p, workers=4, **kw)
    return [json.loads(h) for h in sorted(set(re.findall(r'"H (\[.*\])"', r.out.replace('\\"', '"'))))]


def script_of(h, scale, rg):
    L, nxt = ["R"], 1
    for o in h:
        if o[0] in "LS":
            n = o[2] * scale
            L.append("%s %d %d %d" % (o[0], o[1], nxt, n))
            nxt += n
        elif o[0] in "Br":
            L.append("%s %d %d" % (o[0], o[1], o[2] * scale))
        else:
            L.append(" ".join(str(x) for x in o))
        L.append("Q")
    return L + ["C 0", "C 1", "F x.deck"]


def random_run(rg):
    """Random history; out: file each context is connected to."""
    L, nxt, out = ["R"], 1, {}
    size = rg.choice([1, 1, 3, 20, 400, 998])
    files = set()
    n = lambda: max(1, rg.choice([1, 2, size, size, rg.randrange(1, size + 2), 999 if size > 300 else 1, 1001 if size > 900 else 2]))
    for _ in range(rg.choice([8, 20, 40]) if size < 300 else 10):
        c = rg.randrange(3)
        x = rg.random()
        if x < 0.18 and c not in out:
            k = n()
            L.append("L %d %d %d" % (c, nxt, k))
            nxt += k
        elif x < 0.28:
            L.append("B %d %d" % (c, n()))
        elif x < 0.55 and c not in out:
            L.append("r %d %d" % (c, n()))
        elif x < 0.75:
            k = n()
            L.append("S %d %d %d" % (c, nxt, k))
            nxt += k
        elif x < 0.82:
            L.append("E %d" % c)
        elif x < 0.90:
            f = rg.choice(["x.deck", "y.deck"])
            if all(v != f or k == c for k, v in out.items()):
                L.append("V %d %s" % (c, f))
                out[c] = f
                files.add(f)
        elif x < 0.93:
            L.append("N %d" % c)
            out.pop(c, None)
        elif x < 0.97:
            L.append("C %d" % c)
            out.pop(c, None)
        elif c not in out:
            L.append("M %d" % c)
        L.append("Q")
        for f in files:
            if f not in out.values() and rg.random() < 0.3:
                L.append("F " + f)
    L += ["C 0", "C 1", "C 2"] + ["F " + f for f in sorted(files)]
    return L


def check(rep, prop):
    exe = build("h_card", ["h_card.c", "stubs.c", "device/card.c"] + TOP)
    rg = rng(prop)
    if prop == "P05":
        hs = gen(rep, "MCCards", 4 if QUICK else 5, 4)
        cap = 4000 if QUICK else 30000
        rep.extra["histories_from_specification"] = len(hs)
        if len(hs) > cap:
            hs = rg.sample(hs, cap)
        runs = [script_of(h, rg.choice([1, 1, 1, 1, 1, 1, 1, 333, 999, 1000, 1001]) if i % 8 == 0 else 1, rg) for i, h in enumerate(hs)]
        rnd = [random_run(rg) for _ in range(250 if QUICK else 2500)]
        rep.sample(runs[7])
        rep.sample(rnd[0])
        rep.extra["random_runs"] = len(rnd)
        out = run_impl(exe, "\n".join("\n".join(x) for x in runs + rnd) + "\n", "cards")
        validate(rep, "TraceCards", out)
    else:
        cfg = scratch() + "/MCCardFile.cfg"
        open(cfg, "w").write(open(SPEC + "/MCCardFile.cfg").read().replace("MaxCards = 1", "MaxCards = %d" % (1 if QUICK else 2)))
        check_model(rep, "MCCardFile", cfg=cfg)
        runs = [["t"]] + [file_run(rg, i) for i in range(600 if QUICK else 6000)]
        rep.sample([x[:200] for x in runs[1]])
        out = run_impl(exe, "\n".join("\n".join(x) for x in runs) + "\n", "cardfile")
        validate(rep, "TraceCardFile", out)
        rep.extra["runs"] = len(runs)
        rep.assumptions.append("text lines are at most 400 characters long; malformed parts of a file (short binary or EBCDIC cards) are only required not to disturb the cards before them")


ASC = None


def asc_table():
    global ASC
    if ASC is None:
        t = open(SPEC + "/CardCode.tla").read()
        ASC = [int(x) for x in re.search(r"AscTable == <<(.*?)>>", t, re.S).group(1).split(",")]
    return ASC


def ebc_codes():
    """Codes of the EBCDIC card code, to aim the generator (not an oracle)."""
    t = open(SRC + "/device/card.c").read()
    m = re.search(r"ebcdic_to_hol_table\[256\] = \{(.*?)\};", t, re.S)
    if not m:
        return [0, 256, 2816]
    return [int(x, 16) for x in re.findall(r"0x([0-9A-Fa-f]+)", re.sub(r"/\*.*?\*/", "", m.group(1), flags=re.S))]


def card(rg, mode):
    A = asc_table()
    kind = rg.choice(["text", "text", "any", "one", "sparse", "ebc", "blank", "short", "tilde"])
    if mode == 1 and kind in ("any", "one", "sparse", "ebc"):
        kind = "text"
    if mode == 2 and kind in ("any", "one", "sparse"):
        kind = "ebc"
    c = [0] * 80
    if kind == "text":
        c = [rg.choice(A) for _ in range(80)]
        if rg.random() < 0.5:
            n = rg.randrange(80)
            c[n:] = [0] * (80 - n)
    elif kind == "short":
        c[0] = rg.choice(A)
    elif kind == "tilde":
        c[0] = A[126 - 32]
        w = rg.choice(["", "raw0123", "eor", "EOF", "eoi", "x", " x"])
        for i, ch in enumerate(w):
            c[i + 1] = A[ord(ch) - 32]
    elif kind == "any":
        c = [rg.randrange(4096) for _ in range(80)]
    elif kind == "one":
        c[rg.choice([0, 0, 0, 1, 79])] = rg.choice([7, 13, 15, 4095, 1, 2048, rg.randrange(4096)])
    elif kind == "sparse":
        for _ in range(5):
            c[rg.randrange(80)] = rg.randrange(4096)
    elif kind == "ebc":
        e = ebc_codes()
        c = [rg.choice(e) for _ in range(80)]
    if mode == 1 and c[0] == A[126 - 32]:
        c[0] = 0
    return c


def text_line(rg):
    k = rg.randrange(14)
    p = lambda n: [rg.randrange(32, 127) for _ in range(n)]
    if k < 4:
        s = p(rg.choice([0, 1, 5, 79, 80, 81, 160, 161, 320, 400, rg.randrange(100)]))
    elif k == 4:
        s = list(b"~raw") + [rg.randrange(48, 56) for _ in range(rg.choice([0, 4, 8, 40, 316, 320]))] + rg.choice([[], [120] + p(2), list(b" 9")])
    elif k == 5:
        s = list(rg.choice([b"~eor", b"~EOF", b"~eoi", b"~Raw0001"])) + rg.choice([[], [120] + p(3)])
    elif k in (6, 7):
        s = [126] + [32] * rg.choice([0, 0, 1, 5, 90])
    elif k == 8:
        s = [126] + p(rg.choice([1, 3, 10]))
    elif k == 9:
        s = [rg.choice([9, 32, 65, 66]) for _ in range(rg.randrange(1, 30))]
    elif k == 10:
        s = [rg.choice([rg.randrange(128, 256), rg.randrange(1, 9), 65, 127, 31]) for _ in range(rg.randrange(1, 100))]
    elif k == 11:
        s = [32] * rg.choice([1, 80, 200])
    else:
        s = [rg.choice([0x20, 0x30, 0x40, 0x50, 0x60, 0x70]) for _ in range(rg.choice([80, 90]))]
    # "~" followed by blanks and then more is read by its first four characters
    return s


def file_run(rg, i):
    mode = rg.randrange(5)
    L = ["R", "m %d" % mode]
    if i % 5 < 3:
        n = rg.choice([0, 1, 1, 2, 5, 30]) if i % 50 else rg.choice([53, 110])
        if i % 20 == 1:
            cards = [[0] * 80 for _ in range(rg.choice([79, 80, 81, 100, 170]))]
            if rg.random() < 0.5:
                cards.insert(rg.choice([0, len(cards), 80]), card(rg, mode))
        else:
            cards = [card(rg, mode) for _ in range(n)]
        L += ["d %d %s" % (len(cards), " ".join(" ".join(map(str, c)) for c in cards)), "s", "l"]
        if mode == 3 and rg.random() < 0.5:
            L += ["m 0", "l"]
        if mode == 0 and rg.random() < 0.5:
            L += ["m %d" % rg.choice([1, 4]), "l"]
        return L
    if mode == 3:
        b = []
        for _ in range(rg.choice([0, 1, 3, 60])):
            c = card(rg, 3)
            for x in c:
                b += [(x & 15) << 4, x >> 4]
        if rg.random() < 0.3:
            b += [rg.randrange(256) for _ in range(rg.randrange(1, 160))]
    elif mode == 2:
        b = [rg.randrange(256) for _ in range(80 * rg.choice([0, 1, 2, 5, 110]) + rg.choice([0, 0, 0, 10]))]
    else:
        b = []
        for _ in range(rg.choice([0, 1, 2, 4, 10, 60])):
            if mode == 0 and rg.random() < 0.2:
                for x in card(rg, 3):
                    b += [(x & 15) << 4, x >> 4]
            else:
                b += text_line(rg) + rg.choice([[10], [10], [13, 10]])
        if rg.random() < 0.2:
            b += text_line(rg)
    return L + ["w %d %s" % (len(b), " ".join(map(str, b))), "l"]
