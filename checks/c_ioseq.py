"""I/O instructions and interruptions: histories on one device."""
import json
from vlib import *
from c_chan import Run, build_io, LOG, SIZE

OPS = {"SIO": 0x9c, "TIO": 0x9d, "HIO": 0x9e, "TCH": 0x9f}


def seq_run(rg, model, ch, ops=None):
    r = Run(rg, model, ch)
    r.keys = [0] * 4
    r.key = 0
    prog, desc = b"", []
    mask = "4f1"
    nsio = 0
    kinds = []
    for i in range(rg.choice([2, 3, 5, 8, 10])):
        k = rg.choice(ops or ["SIO", "SIO", "SIO", "TIO", "TIO", "TCH", "delay", "delay", "delay", "delay", "on", "off", "other"])
        if k in OPS or k == "other":
            a = r.addr
            if k == "other":
                k = rg.choice(["SIO", "TIO"])
                a = r.addr ^ 0x20
            prog += bytes.fromhex("800004f1") + bytes([OPS[k], 0]) + a.to_bytes(2, "big") + bytes.fromhex("0510" "5010a000" "d207a0080040" "41aa0010" "d207004004e8") + bytes.fromhex("80000" + mask)
            desc.append([k, int(a == r.addr)])
            if k == "SIO" and a == r.addr:
                nsio += 1
        elif k == "delay":
            n = rg.choice([3, 10, 60, 200, 600, 1500])
            prog += bytes.fromhex("4130") + n.to_bytes(2, "big")
            prog += bytes.fromhex("4630") + (0xc000 | len(prog)).to_bytes(2, "big")
            desc.append(["delay", n])
        else:
            m = 0xff if k == "on" else 0
            mask = rg.choice(["4f0", "4f2"]) if m else rg.choice(["4f1", "4f3"])
            prog += bytes.fromhex("80000" + mask)
            desc.append(["mask", int(m > 0)])
    prog += bytes.fromhex("413000ff" "820004e0")
    for _ in range(nsio + 1):
        x = rg.random()
        if x < 0.3:
            e = rg.choice([12, 12, 8, 2])
            r.beh.append((e, 0, 0, 4 if e == 8 else 0, rg.choice([300, 3000, 9000]), b""))
        else:
            n = rg.choice([1, 4, 20])
            e = rg.choice([12, 12, 8, 14])
            r.beh.append((0, n, e, 4 if e == 8 else 0, rg.choice([100, 3000, 9000]), bytes(n)))
    if len(prog) > 0x300:
        return seq_run(rg, model, ch, ops)
    r.ccw(0x700, 2, 0x1800, 0x20, 20)
    r.put(0, bytes([0, 0, 0, 0, 0, 0, 4, 0]))
    r.put(8, bytes.fromhex("82000000"))
    r.put(0, bytes([0, 0, 0, 0, 0, 0, 0x09, 0]))
    r.put(0x900, prog.replace(b"\xc0\x00", b"\xc0\x00"))
    r.put(0x480, bytes.fromhex("d207a0000040" "d203a0080038" "41aa0010" "d207004004e8" "82000038"))
    r.put(0x4e0, bytes.fromhex("fe02000000000900"))
    r.put(0x4e8, b"\xa5" * 8)
    r.put(0x4f0, bytes([0xfe, 0, 0x80 >> ch, 0xfe & ~(0x80 >> ch)]))
    r.put(0x40, b"\xa5" * 8)
    r.put(0x48, bytes([0, 0, 7, 0]))
    r.put(0x78, bytes([0, 0, 0, 0, 0, 0, 4, 0x80]))
    r.put(0x68, bytes([0, 2, 0, 0, 0, 0, 0xf1, 0x68]))
    out = []
    for a in sorted(r.mem):
        if out and out[-1][0] + len(out[-1][1]) == a:
            out[-1][1].append(r.mem[a])
        else:
            out.append([a, [r.mem[a]]])
    ev = dict(e="start", model=model, addr=r.addr, burst=r.burst, ops=desc, beh=[dict(init=b[0], n=b[1], e1=b[2], e2=b[3], delay=b[4]) for b in r.beh])
    L = ["N " + json.dumps(ev, separators=(",", ":")), "S %d" % SIZE, "Z", "G", "V %x %d %d" % (r.addr, r.burst, 20 if r.burst else 100)]
    L += ["b %d %d %d %d %d %s" % (b[:5] + (bytes(b[5]).hex(),)) for b in r.beh]
    L += ["m %d %s" % (a, bytes(b).hex()) for a, b in out]
    L += ["k %d %d" % (i * 2048, 0) for i in range(4)]
    L += ["r 10 %x" % LOG, "r 12 900", "O %d 512" % LOG, "X %d" % 400000]
    return L


MASKS = ["SIO", "SIO", "SIO", "TIO", "TCH", "delay", "delay", "delay", "on", "on", "off"]


def check(rep, prop):
    for cfg in ("MCSeq.cfg", "MCSeqMpx.cfg"):
        check_model(rep, "MCSeq", cfg)
    rg = rng(prop)
    n = 1200 if QUICK else 12000
    rep.extra["histories"] = 3 * n
    for ch in (0, 1, 2):
        runs = [seq_run(rg, 30, ch, MASKS if prop == "P26" else None) for _ in range(n)]
        rep.sample(runs[-1])
        out = run_impl(build_io(30), "\n".join("\n".join(x) for x in runs) + "\n", "seq%d" % ch, 600)
        validate(rep, "TraceSeq", out, label="m30c%d" % ch)
