"""P09-P12, P14: the device models on a software channel."""
import json, re
from vlib import *

SRCS = ["h_dev.c", "device/card.c", "device/tape.c", "device/device.c", "device/xlat.c",
        "model1442/model1442.c", "model1442/panel1442.c", "model2415/model2415.c", "model2415/panel2415.c"]


def harness_dev():
    return build("h_dev", SRCS + TOP, ldflags=["-Wl,--unresolved-symbols=ignore-all"])


def col(rg):
    """A column with at most one punch in rows 1 to 7: a byte of the EBCDIC card code."""
    return rg.randrange(8) << 9 | rg.randrange(4) | rg.choice([0] + [4 << i for i in range(7)])


def deck(rg, n, bad=0.1):
    """The text of n cards for the D operation."""
    out = [str(n)]
    for _ in range(n):
        k = rg.choice([0, 1, 5, 40, 80])
        cols = [col(rg) if rg.random() > bad else rg.randrange(4096) for _ in range(k)]
        while cols and cols[-1] == 0:
            cols.pop()
        out.append("%d %s" % (len(cols), " ".join(map(str, cols))))
    return " ".join(out)


def tapefile(recs):
    """A .tap image of records (None: tape mark)."""
    b = b""
    for r in recs:
        if r is None:
            b += b"\0\0\0\0"
        else:
            n = len(r).to_bytes(4, "little")
            b += n + bytes(r) + (b"\0" if len(r) % 2 else b"") + n
    return b + b"\xff\xff\xff\xff"


def hx(n, rg):
    return "".join("%02x" % rg.randrange(256) for _ in range(n))


CR = "0c"


def io_1442(rg, addr=CR):
    x = rg.random()
    cnt = rg.choice([0, 1, 2, 5, 20, 79, 80, 81, 100])
    if x < 0.3:
        return "I %s %s %d 0" % (addr, rg.choice(["02", "02", "22"]), cnt)
    if x < 0.55:
        n = min(cnt, 90)
        return "I %s %s %d 0 %s" % (addr, rg.choice(["01", "81", "21", "a1"]), n, hx(n, rg))
    if x < 0.7:
        return "I %s %s 1 0" % (addr, rg.choice(["83", "a3", "03", "83"]))
    if x < 0.85:
        return "I %s 04 %d 0" % (addr, rg.choice([0, 1, 1, 1, 2]))
    if x < 0.95:
        return "I %s 00 0 0" % addr
    return "I %s %02x %d %d" % (addr, rg.choice([0x12, 0x44, 0x0e, 0x35, 0x6b, 0x82, 0xfb, 0x14, 0xa2]) if rg.random() < .5 else rg.choice([0x05, 0x06, 0x07, 0x0c, 0x42, 0x43, 0x11]), cnt, 0)


def io_2415(rg, addr):
    x = rg.random()
    if x < 0.3:
        return "I %s %s %d 0" % (addr, rg.choice(["02", "02", "0c"]), rg.choice([0, 1, 4, 10, 50, 200]))
    if x < 0.5:
        n = rg.choice([0, 1, 2, 5, 10, 60])
        return "I %s 01 %d 0 %s" % (addr, n, hx(n, rg))
    if x < 0.75:
        return "I %s %s 1 0" % (addr, rg.choice(["07", "1f", "27", "2f", "37", "3f", "17", "27", "37", "07", "0f"]))
    if x < 0.85:
        return "I %s 04 %d 0" % (addr, rg.choice([1, 6, 6, 8]))
    if x < 0.92:
        return "I %s 00 0 0" % addr
    return "I %s %s 1 0" % (addr, rg.choice(["cb", "c3", "03", "0b", "93"]))


def bus_run(rg, delay, mode, trace, stack, events=True):
    """Several control units, operations overlapping."""
    L = ["R %d %d %d %d %d" % (delay, rg.randrange(1 << 30), mode, trace, stack)]
    devs = []
    conf = []
    if rg.random() < 0.8:
        conf.append("K 1442 0%s" % CR)
        devs.append("c")
    if rg.random() < 0.7 or not devs:
        conf.append("K 2415 080")
        devs.append("t")
        for u in range(2):
            if rg.random() < 0.8:
                recs = [[rg.randrange(256) for _ in range(rg.choice([1, 3, 18, 40]))] if rg.random() < .8 else None for _ in range(rg.randrange(6))]
                L.append("W T%d.TAP %s" % (u, tapefile(recs).hex()))
                conf.append("K 2415U 08%d FILE=T%d.TAP, %s" % (u, u, rg.choice(["RING", "NORING"])))
            else:
                conf.append("K 2415U 08%d" % u)
    if rg.random() < 0.3 and "c" in devs:
        conf.append("K 1442 01c")
        devs.append("d")
    if rg.random() < 0.5 and len(devs) == 2 and devs == ["c", "t"]:
        conf = conf[1:] + conf[:1]
    L += conf
    for d in devs:
        if d in "cd":
            a = {"c": CR, "d": "1c"}[d]
            L.append("D %s.deck %s" % (d, deck(rg, rg.choice([1, 2, 5]))))
            L.append("L %s %s.deck" % (a, d))
            if rg.random() < 0.5:
                L.append("B %s END-OF-FILE" % a)
            L.append("B %s START" % a)
    for _ in range(rg.choice([4, 10, 20])):
        x = rg.random()
        d = rg.choice(devs)
        if x < 0.65:
            L.append(io_2415(rg, "08%d" % rg.randrange(2)) if d == "t" else io_1442(rg, {"c": CR, "d": "1c"}[d]))
        elif x < 0.68:
            L.append("I %s 02 4 0" % rg.choice(["33", "0d", "90", "ff", "2c"]))
        elif x < 0.70:
            L += ["Q 6000", "S"]
        elif x < 0.74:
            L += ["P 1", "N %d" % rg.choice([5, 50, 500]), "P 0"]
        if rg.random() < 0.7:
            L.append(rg.choice(["A 20", "A 100", "A 1000", "A 3000", "Q 1500", "Q 6000", "N 1000", "N 50"]))
    L.append("Z 0")
    # a rewind takes its time: a frame of the tape in 33 steps
    rew = any(l.startswith("I 08") and l.split()[2] in ("07", "0f") for l in L)
    L.append("Q 400000 4000000" if rew else "Q 50000 600000")
    return L


def run_1442(rg):
    """One 1442, its operations, its operator; every byte and card looked at."""
    a = CR
    L = ["R %d %d %d 0 %d" % (rg.choice([0, 0, 1, 2, 4]), rg.randrange(1 << 30), rg.randrange(2), rg.choice([0, 0, 30, 60])), "K 1442 0" + a]
    nd = 0

    def load(n, bad=0.05):
        nonlocal nd
        nd += 1
        L.extend(["D d%d.deck %s" % (nd, deck(rg, n, bad)), "L %s d%d.deck" % (a, nd)])

    if rg.random() < 0.9:
        load(rg.choice([1, 2, 3, 6]))
    if rg.random() < 0.4:
        L.append("B %s END-OF-FILE" % a)
    if rg.random() < 0.95:
        L.append("B %s START" % a)
    for _ in range(rg.choice([4, 10, 25])):
        x = rg.random()
        if x < 0.82:
            perr = rg.choice([0] * 12 + [1, 2, 3, 5])
            cnt = rg.choice([0, 1, 2, 5, 20, 79, 80, 81, 100])
            k = rg.random()
            if k < 0.3:
                L.append("I %s %s %d %d" % (a, rg.choice(["02", "02", "22"]), cnt, min(perr, 1)))
            elif k < 0.55:
                L.append("I %s %s %d %d %s" % (a, rg.choice(["01", "81", "21", "a1"]), cnt, perr, hx(cnt, rg)))
            elif k < 0.7:
                L.append("I %s %s 1 %d" % (a, rg.choice(["83", "a3", "03", "83"]), min(perr, 1)))
            elif k < 0.85:
                L.append("I %s 04 %d %d" % (a, rg.choice([0, 1, 1, 1, 2]), min(perr, 1)))
            elif k < 0.9:
                L.append("I %s 00 0 0" % a)
            else:
                L.append("I %s %02x %d 0 %s" % (a, rg.randrange(256), cnt, hx(cnt, rg)))
            if rg.random() < 0.12:
                L += ["A %d" % rg.choice([1, 20, 300, 1200]), "I %s %s %d 0 %s" % (a, rg.choice(["02", "04", "00", "83", "01"]), 1, hx(1, rg))]
            L.append("Q 3000")
        elif x < 0.87:
            load(rg.choice([1, 2, 4]))
        elif x < 0.97:
            L.append("B %s %s" % (a, rg.choice(["START", "START", "START", "NPRO", "END-OF-FILE", "STOP"])))
        else:
            L.append("S")
    L.append("Z 0")
    L.append("Q 3000")
    load(3, 0)
    L += ["B %s NPRO" % a] * 3 + ["V %s 1" % a, "V %s 2" % a]
    return L


def run_2415(rg):
    """A 2415 with up to two tapes; every byte, status and image looked at."""
    L = ["R %d %d %d 0 %d" % (rg.choice([0, 0, 1, 2]), rg.randrange(1 << 30), rg.randrange(2), rg.choice([0, 0, 30, 60])), "K 2415 080"]
    dr = []
    MARK = 1200                       # frames a mark or a written block's gap counts for

    def mount(u):
        recs = [[rg.randrange(256) for _ in range(rg.choice([1, 2, 3, 18, 40, 41]))] if rg.random() < .75 else [] for _ in range(rg.randrange(7))]
        ring = rg.random() < 0.7
        L.append("W T%d.TAP %s" % (u, tapefile([r or None for r in recs]).hex()))
        L.append("K 2415U 08%d FILE=T%d.TAP, %s" % (u, u, "RING" if ring else "NORING"))
        L.append("E " + json.dumps(["drive", u, 1, int(ring), recs]).replace(" ", ""))
        return dict(k="".join("r" if r else "m" for r in recs), fr=[len(r) or MARK for r in recs], pos=0, at=0, junk=False, ring=ring, rew=False)

    for u in range(2):
        x = rg.random()
        if x < 0.85:
            dr.append(mount(u))
        else:
            L.append("K 2415U 08%d" % u)
            L.append("E " + json.dumps(["drive", u, 0, 0, []]).replace(" ", ""))
            dr.append(None)
    near = 0                          # operations close to the end of the other drive's rewind
    for _ in range(rg.choice([5, 15, 30])):
        u = rg.choice([0, 0, 0, 1])
        if near:
            u = 1 - nu
        d = dr[u]
        a = "08%d" % u
        p0, at0 = (d["pos"], d["at"]) if d else (0, 0)
        perr = 0 if near else rg.choice([0] * 15 + [1])
        while True:
            c = rg.choice(["02", "02", "02", "0c", "0c", "01", "01", "1f", "27", "27", "2f", "37", "37", "3f", "17", "07", "04", "04", "00", "cb", "03", "47", "06", "0d"])
            if near:
                c = rg.choice(["37", "37", "1f", "27", "17", "3f", "2f", "02", "01"])
            if d is None or not d["junk"] or perr:
                break
            ahead = d["k"][d["pos"]:]
            if (c in ("02", "06", "37") and not ahead) or (c == "3f" and "m" not in ahead):
                continue
            break
        cnt = rg.choice([0, 1, 2, 3, 5, 18, 40, 41, 60])
        if int(c, 16) & 15 in (1, 13):
            if not perr and rg.random() < 0.1:
                perr = rg.choice([2, 3, 5])
            n = cnt if perr < 2 or perr - 1 > cnt else perr - 2
            L.append("I %s %s %d %d %s" % (a, c, cnt, perr, hx(cnt, rg)))
            if d and d["ring"] and perr != 1 and n and not d["rew"]:
                d["junk"] = d["junk"] or d["pos"] < len(d["k"])
                d["k"] = d["k"][:d["pos"]] + "r"
                d["fr"] = d["fr"][:d["pos"]] + [n]
                d["at"] += MARK
                d["pos"] += 1
        else:
            L.append("I %s %s %d %d" % (a, c, rg.choice([0, 1, 3, 6, 8]) if c == "04" else cnt, perr))
            if d and perr != 1 and not d["rew"]:
                k, p = d["k"], d["pos"]
                if c in ("02", "06", "37"):
                    d["pos"] = min(p + 1, len(k))
                elif c in ("0c", "27"):
                    d["pos"] = max(p - 1, 0)
                elif c == "3f":
                    i = k.find("m", p)
                    d["pos"] = len(k) if i < 0 else i + 1
                elif c == "2f":
                    d["pos"] = max(k[:p].rfind("m"), 0)
                elif c == "07":
                    d["pos"] = d["at"] = p0 = 0
                elif c == "1f" and d["ring"]:
                    d["junk"] = d["junk"] or p < len(k)
                    d["k"] = k[:p] + "m"
                    d["fr"] = d["fr"][:p] + [MARK]
                    d["pos"] += 1
        if d:
            q = d["pos"]
            d["at"] = max(0, d["at"] + sum(d["fr"][p0:q]) - sum(d["fr"][q:p0]))
        if near:
            near -= 1
            L.append("A %d" % rg.choice([300, 700, 1500, 3000]) if near and c not in ("3f", "2f") else "Q 60000 1000000")
        elif c == "07" and d and not perr and not d["rew"]:
            t = 1100 + 33 * at0
            if t < 300000 and dr[1 - u] and not dr[1 - u]["rew"] and rg.random() < 0.4:
                near, nu = rg.choice([1, 2, 3]), u
                d["rew"] = True
                L.append("A %d" % max(20, t - rg.randrange(2500)))
            elif rg.random() < 0.5:
                d["rew"] = True       # the other drive works meanwhile
                L.append("Q 3000")
            else:
                L.append("Q 400000 4000000")
        else:
            L.append("Q 60000 1000000" if c in ("2f", "3f") else "Q 3000")
        if dr[u] and dr[u]["rew"] and rg.random() < 0.3:
            dr[u]["rew"] = False
            L.append("Q 400000 4000000")
    L += ["Z 0", "Q 400000 4000000"]
    for u in range(2):
        if dr[u]:
            L.append("I 08%d 0f 1 0" % u)
            if rg.random() < 0.3:
                L.append("I 08%d %s 1 0" % (u, rg.choice(["02", "00", "37"])))
            L.append("Q 400000 4000000")
    for u in range(2):
        if dr[u]:
            L.append("F T%d.TAP" % u)
            if rg.random() < 0.4:     # another tape is mounted there, and stays until it is unloaded
                mount(u)
                for c in rg.choice([["02", "07", "37", "27"], ["07", "02"], ["37", "07", "07", "02"]]):
                    L += ["I 08%d %s 41 0" % (u, c), "Q 400000 4000000"]
                L += ["I 08%d 0f 1 0" % u, "Q 400000 4000000", "F T%d.TAP" % u]
    return L


def check(rep, prop):
    exe = harness_dev()
    rg = rng(prop)
    if prop in ("P09", "P10"):
        runs = []
        for i in range(500 if QUICK else 6000):
            runs.append(bus_run(rg, rg.choice([0, 0, 1, 3, 10, 40]), 0 if prop == "P10" else i % 2, 1, rg.choice([0, 0, 20, 50])))
        rep.sample(runs[0])
        rep.extra["runs"] = len(runs)
        out = run_impl(exe, "\n".join("\n".join(x) for x in runs) + "\n", "bus")
        validate(rep, "TraceIface", out)
    if prop == "P11":
        runs = []
        for i in range(3000 if QUICK else 30000):
            runs.append(bus_run(rg, rg.choice([0, 0, 1, 3, 10, 40]), i % 2, 0, rg.choice([0, 20, 50])))
        rep.sample(runs[0])
        rep.extra["runs"] = len(runs)
        out = run_impl(exe, "\n".join("\n".join(x) for x in runs) + "\n", "status")
        validate(rep, "TraceStatus", out)
    if prop == "P12":
        runs = [run_1442(rg) for i in range(1500 if QUICK else 20000)]
        rep.sample(runs[0])
        rep.extra["runs"] = len(runs)
        out = run_impl(exe, "\n".join("\n".join(x) for x in runs) + "\n", "reader")
        validate(rep, "TraceDev1442", out)
    if prop == "P14":
        runs = [run_2415(rg) for i in range(1200 if QUICK else 8000)]
        rep.sample(runs[0])
        rep.extra["runs"] = len(runs)
        out = run_impl(exe, "\n".join("\n".join(x) for x in runs) + "\n", "tape")
        validate(rep, "TraceDev2415", out)
