"""P24-P26: channel programs on the channels of the processors."""
import json, re
from vlib import *
from c_cpu import DEV

LO, HI, SIZE, LOG = 0x1700, 0x2000, 0x2000, 0xC00


def build_io(model):
    if model == 30:
        return build("io30", ["h_io30.c", "model2030/cpu2030.c", "model2030/model2030.c", "model2030/model2030_ros.c"] + DEV + TOP,
                     ros=("2030",), ldflags=["-lm"])
    return build("io50", ["h_io50.c", "model2050/cpu2050.c", "model2050/model2050_ros.c"] + DEV + TOP, ros=("2050",), ldflags=["-lm"])


def sio_code(addr):
    """START I/O, keep its condition code and the CSW, then wait for interruptions."""
    return bytes([0x9c, 0]) + addr.to_bytes(2, "big") + bytes.fromhex("0510" "50100c00" "d2070c080040" "d207004004e8" "820004e0")


class Run:
    def __init__(self, rg, model, ch, errs=""):
        self.rg, self.model = rg, model
        self.mem = {}
        self.addr = ch << 8 | rg.choice([0x0f, 0x12, 0x80, 0xc1, 0x1e])
        self.burst = rg.randrange(2)
        self.beh = []
        self.key = rg.choice([0, 0, 3]) if "p" in errs else 0
        self.keys = [0, 0, 3, rg.choice([3, 3, 5])] if self.key else [rg.choice([0, 2]) for _ in range(4)]

    def put(self, a, b):
        for i, x in enumerate(b):
            self.mem[a + i] = x

    def ccw(self, a, cmd, da, fl, cnt, pad=0):
        self.put(a, bytes([cmd]) + da.to_bytes(3, "big") + bytes([fl, pad]) + cnt.to_bytes(2, "big"))

    def script(self, code, caw, cycles):
        rg = self.rg
        self.put(0, bytes([0, 0, 0, 0, 0, 0, 4, 0]))
        self.put(8, bytes.fromhex("82000000"))
        self.put(0x400, code)
        self.put(0x480, bytes.fromhex("d207a0000040" "d203a0080038" "41aa0010" "d207004004e8" "820004e0"))
        self.put(0x4e0, bytes.fromhex("fe02000000000400"))      # wait, all channels enabled
        self.put(0x4e8, b"\xa5" * 8)
        self.put(0x40, b"\xa5" * 8)
        self.put(0x48, caw)
        self.put(0x78, bytes([0, 0, 0, 0, 0, 0, 4, 0x80]))
        self.put(0x68, bytes([0, 2, 0, 0, 0, 0, 0xf1, 0x68]))
        self.put(LO, bytes(rg.randrange(256) for _ in range(HI - LO)))
        ch, out = sorted(self.mem), []
        for a in ch:
            if out and out[-1][0] + len(out[-1][1]) == a:
                out[-1][1].append(self.mem[a])
            else:
                out.append([a, [self.mem[a]]])
        ev = dict(e="start", model=self.model, addr=self.addr, caw=list(caw), size=SIZE, keys=self.keys, lo=LO, log=LOG,
                  mem=[c for c in out if 0x500 <= c[0] < 0x800], win=[c for c in out if c[0] == LO][0][1],
                  beh=[dict(init=b[0], n=b[1], e1=b[2], e2=b[3], data=list(b[5])) for b in self.beh])
        L = ["N " + json.dumps(ev, separators=(",", ":")), "S %d" % SIZE, "Z", "V %x %d %d" % (self.addr, self.burst, 20 if self.burst else 100)]
        L += ["b %d %d %d %d %d %s" % (b[:5] + (bytes(b[5]).hex(),)) for b in self.beh]
        L += ["m %d %s" % (a, bytes(b).hex()) for a, b in out]
        L += ["k %d %d" % (i * 2048, k) for i, k in enumerate(self.keys)]
        L += ["r 10 %x" % (LOG + 16), "O %d 256" % LOG, "O %d %d" % (LO, HI - LO), "X %d" % cycles]
        return L


def chan_run(rg, model, ch, errs="", no=""):
    """SIO and a channel program; everything that comes of it.
    errs: letters of what may go wrong: i initial status, u unusual ending status, p protection,
    a addresses outside of storage, c wrong command words, w wrong CAW.
    no: letters of what is left out: C command chaining, D data chaining, E late device end,
    L lengths that differ, b read backward, s sense, S skip, T transfer in channel."""
    r = Run(rg, model, ch, errs)
    E = (lambda l, p: l in errs and rg.random() < p)
    a = 0x500
    start = a
    n = 1 if "C" in no else rg.choice([1, 1, 2, 3, 4])
    first = True
    while n > 0:
        n -= 1
        kind = rg.choice([k for k in "wwrrrsbi" if k not in no])
        cmd = {"w": rg.choice([1, 5, 0x11, 9]), "r": rg.choice([2, 0x12, 6, 0x0a]), "s": 4, "b": 0x0c, "i": rg.choice([3, 7, 0x13, 0x0b])}[kind]
        cc = 0x40 if n else 0
        if kind == "i" and rg.random() < 0.7:
            e = rg.choice([12, 12, 12, 8, 14, 13, 2] if "i" in errs else [12, 12, 8])
            e = 12 if "E" in no else e
            r.beh.append((e, 0, 0, rg.choice([4, 4, 5]) if e == 8 and not cc else 4, 300, b""))
            r.ccw(a, cmd, rg.randrange(LO, HI), cc | rg.choice([0, 0x20]), rg.choice([1, 2, 7]))
            a += 8
        else:
            if E("i", 0.08):
                r.beh.append((rg.choice([0x0e, 2, 0x0d, 0x0c]), 0, 0, 0, 0, b""))
            parts = 1 if "D" in no else rg.choice([1, 1, 1, 2, 3])
            cnts = [rg.choice([1, 2, 3, 4, 5, 8, 13, 30]) for _ in range(parts)]
            total = sum(cnts)
            want = total if rg.random() < 0.6 or "L" in no else max(1, rg.choice([total - 1, total - 2, total + 1, total + 3, rg.randrange(1, total + 4)]))
            while want < total and want in [sum(cnts[:i]) for i in range(1, parts)]:
                want += 1      # the device does not end just where one CCW gives way to the next
            e1 = rg.choice([12, 12, 12, 12 if "E" in no else 8] + ([14, 13] if "u" in errs else []))
            if not (r.beh and r.beh[-1][1] == 0 and len(r.beh[-1][5]) == 0 and r.beh[-1][0] and r.beh[-1][2] == 0 and r.beh[-1][4] == 0):
                r.beh.append((0, want, e1, rg.choice([4, 4, 4, 5, 6]) if e1 == 8 else 0, 3000, bytes(rg.randrange(256) for _ in range(want))))
            for i, c in enumerate(cnts):
                da = rg.choice([0x1700, 0x1750, 0x1900, 0x1d00]) + rg.randrange(40)
                if E("p", 0.12):
                    da = 0x1800 - rg.randrange(12)
                if E("a", 0.05):
                    da = rg.choice([0x2000, 0x2100, 0x1ff8])
                fl = (0x80 if i + 1 < parts else cc) | rg.choice([0, 0x20]) | (0x10 if rg.random() < .1 and "S" not in no and not cmd & 1 else 0)
                r.ccw(a, cmd if i == 0 else rg.choice([cmd, 0, 0xff & ~8]), da + (c if cmd == 12 and da < 0x2000 else 0), fl, c)
                a += 8
                if rg.random() < 0.12 and "T" not in no:
                    r.ccw(a, 8, a + 24, 0, rg.choice([0, 5]))
                    a += 24
        if E("c", 0.08):
            k = rg.choice([8, 8, 0, 0x10, 2, 1])
            r.ccw(a, k, rg.choice([a - 8, 0x2000, 0x1901]) if k == 8 else 0x1900, rg.choice([0, 1, 4]), rg.choice([0, 1]))
            a += 8
        first = False
    caw = bytes([r.key << 4 | (rg.choice([1, 8]) if E("w", 0.03) else 0)]) + (start + (rg.choice([4, 1]) if E("w", 0.03) else 0)).to_bytes(3, "big")
    return r.script(sio_code(r.addr), caw, 400000)


def made_run(rg, h, model, ch):
    """A channel program enumerated by TLC."""
    r = Run(rg, model, ch)
    r.put(0x500, bytes(h[0]))
    r.beh = [(b["init"], b["n"], b["e1"], b["e2"], 3000, bytes(b["data"])) for b in h[1]]
    return r.script(sio_code(r.addr), bytes([0, 0, 5, 0]), 400000)


def check(rep, prop):
    check_model(rep, "MCChan", "MCChan.cfg")
    r = tlc("MCChan", "MCChanGen.cfg", workers=1, deadlock=False)
    if not r.ok:
        raise CheckError(r.out[-3000:])
    hs = [json.loads(h) for h in sorted(set(re.findall(r'"H (\[.*\])"', r.out.replace('\\"', '"'))))]
    rg = rng(prop)
    rep.extra["programs enumerated"] = len(hs)
    n = 700 if QUICK else 10000
    parts = []
    for ch in (0, 1, 2):
        some = hs[ch::4] if QUICK else hs
        runs = [made_run(rg, h, 30, ch) for h in some]
        runs += [chan_run(rg, 30, ch, rg.choice(["", "", "iuw"] + (["c", "iucw"] if ch else []))) for _ in range(n)]
        if ch:
            runs += [chan_run(rg, 30, ch, rg.choice("pa"), "DS") for _ in range(n // 3)]
        parts.append(("m30c%d" % ch, 30, runs))
    parts.append(("m50c1", 50, [chan_run(rg, 50, 1, "", "bELD") for _ in range(n // 2)]))
    rep.extra["runs"] = sum(len(p[2]) for p in parts)
    for name, model, runs in parts:
        rep.sample(runs[-1])
        out = run_impl(build_io(model), "\n".join("\n".join(x) for x in runs) + "\n", name, 600)
        validate(rep, "TraceChan", out, label=name)
