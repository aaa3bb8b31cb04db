"""Random and systematic System/360 programs for the processor checks."""
import json

WORDS = [0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x80000001, 0x0000ffff, 0x00010000,
         0xffff0000, 0x7fff, 0x8000, 0xffff8000, 0xff, 0x100, 0x55555555, 0xaaaaaaaa, 0x00ffffff, 0x01000000]
NEWPSW = {0x58: 0xf158, 0x60: 0xf160, 0x68: 0xf168, 0x70: 0xf170, 0x78: 0xf178}


class Prog:
    """A machine to start from: registers, storage, keys, PSW."""
    def __init__(self, rg, size=32768, mask=0, key=0, amwp=0, cc=0, pm=0, ia=0x400):
        self.rg, self.size = rg, size
        self.r = [0] * 16
        self.f = [0] * 4
        self.mem = {}
        self.k = [0] * (size // 2048)
        self.ia = ia
        self.at = ia
        self.put(0, bytes([mask, key << 4 | amwp, 0, 0, (cc << 4) | pm]) + ia.to_bytes(3, "big"))
        self.put(8, b"\x82\0\0\0")
        for a, t in NEWPSW.items():
            self.put(a, bytes([0, 2, 0, 0, 0, 0, t >> 8, t & 255]))
        self.extra = []
        self.strict = False
        self.cycles = None
        self.notimer = False                 # the timer is disabled
        self.pulses, self.keys = [], []      # cycles of timer pulses, of the interrupt key

    def put(self, a, b):
        for i, x in enumerate(b):
            self.mem[a + i] = x

    def code(self, b):
        a = self.at
        self.put(a, b)
        self.at += len(b)
        return a

    def chunks(self):
        out = []
        for a in sorted(x for x in self.mem if x < 65536):
            if out and out[-1][0] + len(out[-1][1]) == a:
                out[-1][1].append(self.mem[a])
            else:
                out.append([a, [self.mem[a]]])
        return out

    def script(self, model, cycles=60000):
        cycles = self.cycles or cycles
        ch = self.chunks()
        ev = dict(e="start", m=ch, r=[list(v.to_bytes(4, "big")) for v in self.r],
                  f=[list(v.to_bytes(8, "big")) for v in self.f], k=self.k, size=self.size, fl=(model == 50), kf=not self.strict, wrap=65536 if model == 30 else 1 << 24,
                  tp=0 if self.notimer else len(self.pulses), ik=len(self.keys), tq=[6, 7] if model == 30 else [6],
                  lim=cycles // (8 if model == 30 else 4))     # more instructions than can be executed
        L = ["N " + json.dumps(ev, separators=(",", ":")), "S %d" % self.size]
        L += ["m %d %s" % (a, bytes(b).hex()) for a, b in ch]
        L += ["r %d %x" % (i, v) for i, v in enumerate(self.r) if v]
        L += ["f %d %x" % (2 * i, v) for i, v in enumerate(self.f) if v]
        L += ["k %d %d" % (i * 2048, v) for i, v in enumerate(self.k) if v]
        if self.pulses:
            L += ([] if self.notimer else ["E"]) + ["T %d 1" % c for c in self.pulses]
        L += ["I %d" % c for c in self.keys]
        return L + self.extra + ["X %d" % cycles]


def word(rg):
    x = rg.random()
    if x < 0.45:
        return rg.choice(WORDS)
    if x < 0.6:
        return rg.getrandbits(rg.randrange(1, 33))
    if x < 0.7:
        return (rg.choice(WORDS) + rg.randrange(-3, 4)) & 0xffffffff
    return rg.getrandbits(32)


RR_ALU = [0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1e, 0x1f]
RX_ALU = [0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x5b, 0x5e, 0x5f]
RX_HALF = [0x48, 0x49, 0x4a, 0x4b, 0x4c]
SHIFT = list(range(0x88, 0x90))
SS_LOG = [0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7]
BASES = {13: 0x1000, 14: 0x2000, 15: 0x3000}


class FixedGen:
    """Programs of fixed-point, logical and branch instructions."""
    def __init__(self, rg):
        self.rg = rg

    def fresh(self, n_areas=True, **kw):
        rg = self.rg
        p = Prog(rg, size=rg.choice([16384, 32768, 32768, 65536]), cc=rg.randrange(4),
                 pm=rg.choice([0, 0, 8, 15, rg.randrange(16)]), ia=rg.choice([0x400, 0x402, 0x7fe, 0x4fa]), **kw)
        for i in range(16):
            p.r[i] = word(rg)
        for b, a in BASES.items():
            p.r[b] = (rg.choice([0, 0, rg.getrandbits(8)]) << 24) | (a + rg.choice([0, 0, 4, 8, 0xfc]))
        p.ix = []
        if rg.random() < 0.5:
            for x in (11, 10):
                p.r[x] = rg.choice([0, 4, 8, 64, 0xfffff8, 0xffffff00, 0x12000010, 256])
                p.ix.append(x)
        return p

    def area(self, p, a, n):
        rg = self.rg
        for i in range(n):
            if a + i not in p.mem:
                p.mem[a + i] = rg.choice([0, 255, rg.getrandbits(8), rg.getrandbits(8)])

    def ea(self, p, bd):
        return ((p.r[bd >> 12] if bd >> 12 else 0) + (bd & 0xfff)) & 0xffffff

    def d(self, p, base, d, n):
        """The address base+d, with its n bytes made random."""
        self.area(p, self.ea(p, base << 12 | d), n)
        return (base << 12) | d

    def rx(self, p, op, r1, al, n=None):
        """An RX instruction, perhaps indexed."""
        if p.ix and self.rg.random() < 0.4:
            x = self.rg.choice(p.ix)
            b = self.rg.choice(list(BASES) + [0]) if p.r[x] < 0x10000 else self.rg.choice(list(BASES))
            d = self.rg.randrange(256, 512, al) if b else 0x200 + self.rg.randrange(0, 64, al)
            self.area(p, ((p.r[b] if b else 0) + p.r[x] + d) & 0xffffff, n or al)
            if self.rg.random() < 0.3:
                b, x = x, b
            return bytes([op, r1 << 4 | x]) + (b << 12 | d).to_bytes(2, "big")
        return bytes([op, r1 << 4]) + self.operand(p, al, n).to_bytes(2, "big")

    def operand(self, p, al, n=None):
        """A base-displacement for a data area; al: alignment."""
        if self.rg.random() < 0.08:
            d = 0x200 + self.rg.randrange(0, 64, al)
            self.area(p, d, n or al)
            return d
        b = self.rg.choice(list(BASES))
        d = self.rg.randrange(0, 64 // al) * al
        return self.d(p, b, d, n or al)

    def inst(self, p):
        rg = self.rg
        R = lambda: rg.randrange(13) if rg.random() < 0.93 else rg.randrange(16)
        x = rg.random()
        if x < 0.22:
            return bytes([rg.choice(RR_ALU), R() << 4 | R()])
        if x < 0.34:
            return self.rx(p, rg.choice(RX_ALU), R(), 4)
        if x < 0.42:
            return self.rx(p, rg.choice(RX_HALF), R(), 2)
        if x < 0.47:
            e = rg.randrange(0, 12, 2)
            op = rg.choice([0x1c, 0x1d])
            return bytes([op, e << 4 | R()])
        if x < 0.51:
            e = rg.randrange(0, 12, 2)
            return self.rx(p, rg.choice([0x5c, 0x5d]), e, 4)
        if x < 0.60:
            op = rg.choice(SHIFT)
            r = rg.randrange(0, 12, 2) if op >= 0x8c else R()
            if rg.random() < 0.8:
                return bytes([op, r << 4 | rg.randrange(16)]) + rg.choice([0, 1, 31, 32, 33, 63, rg.randrange(64), rg.randrange(4096)]).to_bytes(2, "big")
            return bytes([op, r << 4, (rg.randrange(1, 13) << 4), rg.randrange(256)])
        if x < 0.68:
            op, al, n = rg.choice([(0x40, 2, 2), (0x42, 1, 1), (0x43, 1, 1), (0x50, 4, 4)])
            return self.rx(p, op, R(), al, n)
        if x < 0.71:
            return bytes([0x41, R() << 4 | R(), R() << 4 | rg.randrange(16), rg.getrandbits(8)])
        if x < 0.79:
            op = rg.choice([0x91, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97])
            return bytes([op, rg.choice([0, 255, rg.getrandbits(8), rg.getrandbits(8)])]) + self.operand(p, 1).to_bytes(2, "big")
        if x < 0.83:
            op = rg.choice([0x90, 0x98])
            r1 = rg.randrange(13)
            n = rg.randrange(1, 14 - r1)
            if op == 0x90 and rg.random() < 0.3:
                r1, n = rg.randrange(16), rg.randrange(1, 17)
            return bytes([op, r1 << 4 | (r1 + n - 1) % 16]) + self.operand(p, 4, 4 * n).to_bytes(2, "big")
        if x < 0.87:
            return bytes([0x04, R() << 4])
        # storage to storage
        op = rg.choice(SS_LOG)
        n = rg.choice([1, 2, 3, 4, 8, rg.randrange(1, 33), rg.randrange(1, 257) if rg.random() < .2 else 5])
        a = self.operand(p, 1, n)
        if rg.random() < 0.35:
            b = self.d(p, a >> 12, max(0 if a >> 12 else 0x200, min(4095, (a & 0xfff) + rg.choice([-1, 1, 0, -2, -4, 3, n - 1, -5]))), n)
        else:
            b = self.operand(p, 1, n)
        if op == 0xd5 and rg.random() < 0.6:
            s = [p.mem[self.ea(p, a) + i] for i in range(n)]
            t = self.ea(p, b)
            for i in range(n - rg.choice([0, 0, 1])):
                p.mem[t + i] = s[i]
        return bytes([op, n - 1]) + a.to_bytes(2, "big") + b.to_bytes(2, "big")

    def branch(self, p):
        """A branch instruction (with its landing place prepared)."""
        rg = self.rg
        R = lambda: rg.randrange(13)
        x = rg.random()
        tgt = rg.choice([0x3800, 0x3806, 0x2ffe])
        if x < 0.5:
            reg = rg.choice([0, 5, 7, 12])
            if rg.random() < 0.8:
                p.r[reg] = (rg.getrandbits(8) << 24) | tgt
            op = rg.choice([5, 6, 7])
            r1 = rg.randrange(16) if op == 7 else R()
            if op == 6 and rg.random() < 0.5:
                p.r[r1] = rg.choice([0, 1, 2])
            return bytes([op, r1 << 4 | reg])
        p.r[12] = tgt - rg.randrange(0, 64, 2)
        d = tgt - p.r[12]
        if x < 0.8:
            op = rg.choice([0x45, 0x46, 0x47])
            r1 = rg.randrange(16) if op == 0x47 else rg.randrange(12)
            if op == 0x46 and rg.random() < 0.5:
                p.r[r1] = rg.choice([0, 1, 2])
            ix = rg.choice([0, 0, 11])
            if ix:
                v = rg.randrange(0, 16, 2)
                p.r[11] = v
                d = max(0, d - v)
            return bytes([op, r1 << 4 | ix, 12 << 4 | d >> 8, d & 255])
        op = rg.choice([0x86, 0x87])
        r1, r3 = rg.randrange(12), rg.randrange(12)
        if rg.random() < 0.5:
            p.r[r3 | 1] = p.r[r1]
            if r3 % 2 == 0:
                p.r[r3] = rg.choice([0, 1, 0xffffffff])
        return bytes([op, r1 << 4 | r3, 12 << 4 | d >> 8, d & 255])

    def program(self):
        rg = self.rg
        p = self.fresh()
        n = rg.choice([1, 1, 2, 3, 5])
        # instruction bytes are made when all register values are known
        has_branch = rg.random() < 0.3
        br = self.branch(p) if has_branch else None
        body = [self.inst(p) for _ in range(n)]
        if br:
            if rg.random() < 0.25:
                # through EXECUTE
                e = rg.choice([2, 4])
                p.put(0x3f00, br)
                p.r[10] = 0x3f00
                br = bytes([0x44, rg.choice([0, 0]) << 4, 0xa0, 0])
            body.insert(rg.randrange(len(body) + 1) if rg.random() < 0.5 else 0, br)
            for t in (0x3800, 0x3806, 0x2ffe):
                if t not in p.mem:
                    p.put(t, rg.choice([b"\x1a\x12\0\0", b"\0\0", b"\x0a\x05", b"\x41\x90\x90\x01\0\0"]))
        elif rg.random() < 0.12:
            i = body[rg.randrange(len(body))]
            p.put(0x3f00, i)
            r1 = rg.choice([0, 9])
            m = i[1]
            if r1:
                x = rg.getrandbits(8) if i[0] >= 0xd0 else rg.choice([0, m])
                p.r[9] = (p.r[9] & 0xffffff00) | x
                if i[0] >= 0xd0:
                    p.r[9] &= 0xffffff0f
            p.r[10] = 0x3f00
            body = [bytes([0x44, r1 << 4, 0xa0, 0])]
        for b in body:
            p.code(b)
        if rg.random() < 0.3:
            p.code(bytes([0x0a, rg.getrandbits(8)]))
        return p


class ExGen(FixedGen):
    def program(self):
        p = self.fresh()
        i = self.inst(p)
        p.put(0x3f00, i)
        p.r[10] = 0x3f00
        p.code(bytes([0x44, 0, 0xa0, 0]))
        return p


def packed(rg, nbytes, kind="valid"):
    """A packed decimal number."""
    nd = 2 * nbytes - 1
    x = rg.random()
    if x < 0.25:
        d = [0] * nd
    elif x < 0.4:
        d = [9] * nd
    else:
        k = rg.randrange(nd + 1)
        d = [0] * (nd - k) + [rg.choice([rg.randrange(10), 0, 9]) for _ in range(k)]
    if rg.random() < 0.2 and nd:
        d[rg.randrange(nd)] = 1
    sg = rg.choice([0xc, 0xd, 0xc, 0xd, 0xa, 0xb, 0xe, 0xf])
    if kind == "bad":
        if rg.random() < 0.5:
            sg = rg.randrange(10)
        else:
            d[rg.randrange(nd)] = rg.randrange(10, 16)
    d.append(sg)
    return bytes(d[2 * i] << 4 | d[2 * i + 1] for i in range(nbytes))


class DecGen(FixedGen):
    """Decimal arithmetic, conversion, editing and translation."""
    lens = [1, 1, 2, 3]

    def addr(self, p, al=1):
        """base/displacement of free storage (256 bytes apart) and its address"""
        rg = self.rg
        if not p.slots:
            return self.operand(p, al)
        b, d = p.slots.pop()
        return b << 12 | d + rg.randrange(0, 32 // al) * al

    def place(self, p, data, al=1):
        bd = self.addr(p, al)
        p.put(self.ea(p, bd), data)
        return bd

    def dinst(self, p):
        rg = self.rg
        bd2 = lambda v: v.to_bytes(2, "big")
        x = rg.random()
        kind = lambda: "bad" if rg.random() < 0.06 else "valid"
        if x < 0.34:
            op = rg.choice([0xfa, 0xfb, 0xf8, 0xf9])
            n1, n2 = rg.choice([(1, 1), (16, 16), (rg.randrange(1, 17), rg.randrange(1, 17)), (rg.randrange(1, 5), rg.randrange(1, 5))])
            A, B = packed(rg, n1, kind()), packed(rg, n2, kind())
            if rg.random() < 0.15:
                B = A[-n2:] if n2 <= n1 else bytes(n2 - n1) + A
            if rg.random() < 0.12:      # operands that share their last byte
                n = max(n1, n2)
                bd = self.place(p, packed(rg, n, kind()))
                return bytes([op, (n1 - 1) << 4 | n2 - 1]) + bd2(bd + n - n1) + bd2(bd + n - n2)
            if op == 0xf8 and rg.random() < 0.2:     # overlap that is allowed
                bd = self.place(p, packed(rg, 16))
                e = rg.randrange(16, 24)
                if kind() == "bad" or n1 + 16 > e + 16:
                    n1 = min(n1, e)
                return bytes([op, (n1 - 1) << 4 | n2 - 1]) + bd2(bd + e - n1) + bd2(bd + 16 - n2)
            return bytes([op, (n1 - 1) << 4 | n2 - 1]) + bd2(self.place(p, A)) + bd2(self.place(p, B))
        if x < 0.44:
            n2 = rg.randrange(1, 9)
            n1 = rg.randrange(n2 + 1, 17)
            if rg.random() < 0.5:
                A = bytes(n2) + packed(rg, n1 - n2, kind())
                if rg.random() < 0.05:
                    A = packed(rg, n1)
            else:
                z = rg.choice([n2, max(0, n2 - 1), 0])
                A = bytes(z) + packed(rg, n1 - z, kind())
            if rg.random() < 0.05:
                n2 = rg.randrange(1, 17)
            return bytes([rg.choice([0xfc, 0xfd]), (n1 - 1) << 4 | n2 - 1]) + bd2(self.place(p, A)) + bd2(self.place(p, packed(rg, n2, kind())))
        if x < 0.56:
            n1, n2 = rg.choice([(1, 1), (16, 16), (8, 15), (rg.randrange(1, 17), rg.randrange(1, 17))])
            op = rg.choice([0xf1, 0xf2, 0xf3])
            bd = self.place(p, bytes(rg.getrandbits(8) for _ in range(n1)))
            if rg.random() < 0.2:
                o = max(0, rg.randrange(-8, 9) + (bd & 0xfff))
                self.area(p, self.ea(p, bd & 0xf000 | o), n2)
                return bytes([op, (n1 - 1) << 4 | n2 - 1]) + bd2(bd) + bd2(bd & 0xf000 | o)
            return bytes([op, (n1 - 1) << 4 | n2 - 1]) + bd2(bd) + bd2(self.place(p, bytes(rg.getrandbits(8) for _ in range(n2))))
        if x < 0.66:
            if rg.random() < 0.5:
                v = rg.choice([0, 1, 2147483647, 2147483648, 2147483649, 4294967295, 4294967296, rg.getrandbits(33), rg.getrandbits(32), rg.randrange(10 ** 15)])
                d = [int(c) for c in "%015d" % v] + [rg.choice([0xc, 0xd, 0xa, 0xb, 0xe, 0xf])]
                if kind() == "bad":
                    d[rg.randrange(16)] = rg.randrange(16)
                return bytes([0x4f, rg.randrange(13) << 4]) + bd2(self.place(p, bytes(d[2 * i] << 4 | d[2 * i + 1] for i in range(8)), 8))
            return bytes([0x4e, rg.randrange(13) << 4]) + bd2(self.place(p, bytes(8), 8))
        if x < 0.82:
            n = rg.choice([1, 2, 4, rg.randrange(1, 40), rg.randrange(1, 120)])
            pat = [rg.choice([0x40, 0x5c, 0x21, 0x20, 0x22])]
            while len(pat) < n:
                pat.append(rg.choice([0x20, 0x20, 0x20, 0x21, 0x22, 0x6b, 0x4b, 0x40, 0x60, rg.getrandbits(8)]))
            src = b""
            while len(src) < n // 2 + 2:
                k = rg.choice([1, 2, 4, n // 2 + 2])
                src += packed(rg, k, "bad" if rg.random() < 0.03 else "valid")
            if rg.random() < 0.1:
                src = bytes(rg.randrange(10) << 4 | rg.randrange(10) for _ in src)
            return bytes([rg.choice([0xde, 0xdf]), n - 1]) + bd2(self.place(p, bytes(pat))) + bd2(self.place(p, src))
        n = rg.choice([1, 2, 3, 8, rg.randrange(1, 60)])
        arg = bytes(rg.choice([rg.getrandbits(8), rg.randrange(8), 255]) for _ in range(n))
        op = rg.choice([0xdc, 0xdd])
        if op == 0xdc:
            tab = bytes(rg.getrandbits(8) for _ in range(256))
        else:
            tab = bytes(rg.choice([0, 0, 0, 0, 0, 0, 0, rg.getrandbits(8)]) for _ in range(256))
        a = self.place(p, arg)
        if not p.tabs:
            return bytes([0x41, 0x50, 0, 1])
        t = p.tabs.pop()
        p.put(t[1], tab)
        b = t[0]
        if op == 0xdc and rg.random() < 0.1:
            b = a & 0xf000 | (a & 0xfff) + 8       # the table overlaps the argument
            self.area(p, self.ea(p, b), 256)
        return bytes([op, n - 1]) + bd2(a) + bd2(b)

    def program(self):
        rg = self.rg
        p = self.fresh(amwp=rg.choice([0, 0, 0, 8]))
        p.slots = [(b, d) for b in BASES for d in range(0x40, 0xe00, 0x100)]
        p.tabs = [(12 << 12, 0x3600), (12 << 12 | 0x103, 0x3703)]
        p.r[12] = 0x3600
        rg.shuffle(p.slots)
        body = [self.dinst(p) for _ in range(rg.choice(self.lens))]
        if rg.random() < 0.1 and body[0][0] >= 0xd0:
            p.put(0x3f00, body[0])
            p.r[10] = 0x3f00
            p.r[9] &= 0xffffff00
            body[0] = bytes([0x44, rg.choice([0, 9]) << 4, 0xa0, 0])
        for b in body:
            p.code(b)
        return p


class Dec1(DecGen):
    lens = [1]


def fnum(rg, n):
    """A floating-point number of n bytes."""
    d = n - 1
    c = rg.choice([0, 127, 64, 64, 65, 63, rg.randrange(56, 72), rg.randrange(56, 72), rg.randrange(128), rg.randrange(0, 20), rg.randrange(110, 128)])
    x = rg.random()
    if x < 0.06:
        f = 0
    elif x < 0.35:
        f = rg.getrandbits(8 * d)
    elif x < 0.6:
        f = rg.getrandbits(8 * d) >> 4 * rg.randrange(2 * d)
    elif x < 0.7:
        f = (1 << 8 * d) - 1 >> 4 * rg.randrange(2 * d)
    elif x < 0.8:
        f = 1 << rg.randrange(8 * d)
    elif x < 0.9:
        f = rg.randrange(16) << 4 * rg.randrange(2 * d)
    else:
        f = (rg.getrandbits(16) << 4 * rg.randrange(2 * d)) & (1 << 8 * d) - 1
    return bytes([rg.choice([0, 128]) | c]) + f.to_bytes(d, "big")


class FloatGen(FixedGen):
    """Floating-point instructions."""
    ops = [0x20, 0x21, 0x22, 0x23, 0x24, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f,
           0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f, 0x2a, 0x2b, 0x2d]
    lens = [1, 1, 1, 2, 4, 8]

    def finst(self, p):
        rg = self.rg
        r = lambda: rg.choice([0, 2, 4, 6]) if rg.random() < 0.99 else rg.randrange(16)
        op = rg.choice(self.ops) + rg.choice([0, 16])
        if op % 16 < 5 or rg.random() < 0.4:
            return bytes([op, r() << 4 | r()])
        op += 64
        if op % 16 == 8 and rg.random() < 0.5:
            op -= 8
        n = 4 if op >= 0x70 else 8
        if rg.random() < 0.02:
            return self.rx(p, op, r(), 2, n)
        b = self.rx(p, op, r(), n, n)
        if rg.random() < 0.6 and b[2] >= 0xd0 and b[1] % 16 == 0:
            p.put(self.ea(p, b[2] << 8 | b[3]), self.operand_value(p, n))
        return b

    def operand_value(self, p, n):
        rg = self.rg
        v = fnum(rg, n)
        x = rg.random()
        if x < 0.35:      # near one of the registers
            w = bytearray(rg.choice(p.f).to_bytes(8, "big")[:n])
            w[0] = w[0] & 127 | rg.choice([0, 128])
            if rg.random() < 0.5:
                w[0] = w[0] & 128 | (w[0] + rg.choice([0, 0, 1, -1, 2, 6, -6, 14])) % 128
            if rg.random() < 0.5:
                w[rg.randrange(1, n)] ^= 1 << rg.randrange(8)
            return bytes(w)
        return v

    def program(self):
        rg = self.rg
        p = self.fresh()
        p.f = [int.from_bytes(fnum(rg, 8), "big") for _ in range(4)]
        if rg.random() < 0.5:
            a, b = rg.sample(range(4), 2)
            p.f[a] = int.from_bytes(self.operand_value(p, 8), "big")
        for _ in range(rg.choice(self.lens)):
            p.code(self.finst(p))
        return p


class FloatU(FloatGen):
    ops = [0x2e, 0x2f]
    lens = [1]


class Float1(FloatGen):
    lens = [1]


UNSAFE = {0x83, 0x84, 0x85, 0x9c, 0x9d, 0x9e, 0x9f}


def flags(rg, problem=0.3):
    """ASCII, machine check mask, wait (no), problem state"""
    return rg.choice([0, 0, 8]) | rg.choice([0, 4]) | (1 if rg.random() < problem else 0)


def psw(mask, key, amwp, cc, pm, ia, code=0, ilc=0):
    return bytes([mask, key << 4 | amwp, code >> 8, code & 255, ilc << 6 | cc << 4 | pm]) + ia.to_bytes(3, "big")


class Handlers(FixedGen):
    """Programs whose interruption handlers resume the program once."""
    OLD = {0x58: 0x18, 0x60: 0x20, 0x68: 0x28}

    def handlers(self, p, which=(0x58, 0x60, 0x68), masks=(0,), prob=0.7, work=0.5):
        rg = self.rg
        for n, new in enumerate(sorted(which)):
            if rg.random() > prob:
                continue
            h = 0x600 + 0x40 * n
            p.put(0x5c0 + 8 * n, psw(rg.choice([0, 0, rg.choice(masks)]), 0, 2, 0, 0, 0xf058 + 8 * n))
            p.put(new, psw(rg.choice(masks), 0, rg.choice([0, 0, 4, 8]), rg.randrange(4), rg.choice([0, 15, rg.randrange(16)]), h))
            b = b"\xd2\x07" + new.to_bytes(2, "big") + (0x5c0 + 8 * n).to_bytes(2, "big")
            if rg.random() < work:
                b += rg.choice([b"\x91\xff\x00\x00", b"\x96\x01\x05\xf0", b"\x1a\x56", b"\x18\x11\x18\x22", b"\x05\x70", b"\x90\x8b\x05\xd0"])
            b += b"\x82\0" + self.OLD[new].to_bytes(2, "big")
            p.put(h, b)


class ExcGen(Handlers):
    """Instructions with something wrong, now and then."""
    def fresh(self, **kw):
        rg = self.rg
        pr = rg.random() < 0.35
        p = FixedGen.fresh(self, amwp=flags(rg, 1 if pr else 0), **kw)
        if rg.random() < 0.3:
            p.r[rg.choice([13, 14, 15])] = (p.size - rg.randrange(0, 600)) & 0xffffff
        self.handlers(p)
        return p

    def wrong(self, p, b):
        rg = self.rg
        b = bytearray(b)
        x = rg.random()
        if x < 0.35:
            return bytes(b)
        if x < 0.55:
            b[0] = rg.choice([rg.randrange(256), rg.randrange(0x80, 0xa0), rg.randrange(0xc0), rg.randrange(0x40)])
            if rg.random() < 0.5:
                b = bytearray([b[0]] + [rg.getrandbits(8) for _ in range(5)])[:[2, 4, 4, 6][b[0] >> 6]]
        elif x < 0.7 and len(b) > 1:
            b[1] = (b[1] + rg.choice([0x10, 1, 0x11, rg.randrange(256)])) & 255
        elif x < 0.85 and len(b) > 2:
            b[-1] = (b[-1] + rg.choice([1, 2, 4, rg.randrange(256)])) & 255
        elif len(b) > 2:
            i = rg.choice([2] if len(b) < 6 else [2, 4])
            b[i] = (rg.choice([1, 5, 10, 13, 14, 15, 0]) << 4) | rg.randrange(16)
        while len(b) < [2, 4, 4, 6][b[0] >> 6]:
            b.append(rg.getrandbits(8))
        return bytes(b[:[2, 4, 4, 6][b[0] >> 6]])

    def inst1(self, p):
        rg = self.rg
        x = rg.random()
        if x < 0.10:
            return rg.choice([lambda: bytes([rg.choice([8, 9]), rg.randrange(256)]),
                              lambda: bytes([0x80, 0]) + rg.randrange(0x200, 0x300).to_bytes(2, "big"),
                              lambda: bytes([0x82, 0]) + rg.choice([0x28, 0x20, 0x29, 0x2c, 0xfff]).to_bytes(2, "big"),
                              lambda: bytes([rg.choice([0x9c, 0x9d, 0x9e, 0x9f, 0x83, 0x84, 0x85]), rg.randrange(256), 0, 0])])()
        if x < 0.3:
            return self.dec.dinst(p)
        if x < 0.45 and self.model == 50:
            return self.flt.finst(p)
        return self.inst(p)

    def ok(self, p, b):
        if 0xf8 <= b[0] <= 0xfd:       # operands that overlap in ways not defined
            n1, n2 = (b[1] >> 4) + 1, (b[1] & 15) + 1
            e1, e2 = (self.ea(p, b[i] << 8 | b[i + 1]) + n for i, n in ((2, n1), (4, n2)))
            if e1 != e2 and e1 - n1 < e2 and e2 - n2 < e1 and not (b[0] == 0xf8 and e1 >= e2) and b[0] != 0xf9:
                return False
        return not (b[0] in UNSAFE and not p.mem[1] & 1) and b[0] != 0x44

    def program(self):
        rg = self.rg
        self.dec, self.flt = DecGen(rg), FloatGen(rg)
        p = self.fresh()
        p.slots = [(b, o) for b in (13, 14, 15) for o in (0x140, 0x240, 0x340)]
        p.tabs = []
        if self.model == 50:
            p.f = [int.from_bytes(fnum(rg, 8), "big") for _ in range(4)]
        body = []
        for _ in range(rg.choice([1, 1, 1, 2, 3])):
            while True:
                b = self.wrong(p, self.inst1(p))
                if self.ok(p, b):
                    break
            body.append(b)
        if rg.random() < 0.1:
            p.put(0x3f00, body[0])
            p.r[10] = 0x3f00 + (rg.random() < 0.1)
            if rg.random() < 0.1:
                p.put(0x3f00, b"\x44\0\0\0")
            body[0] = bytes([0x44, 0, 0xa0, 0])
        for b in body:
            p.code(b)
        return p


class OpSweep(ExcGen):
    """Every operation code, in both states, with good and bad operands in turn."""
    n = 0

    def program(self):
        rg = self.rg
        op, k = self.n % 256, self.n // 256
        self.n += 1
        p = Prog(rg, size=16384, key=0, amwp=[4, 5][k % 2], cc=rg.randrange(4), pm=rg.choice([0, 15]))
        p.ix = []
        for i in range(16):
            p.r[i] = word(rg)
        v = k // 2 % 4
        p.r[13] = [0x1000, 0x2ff8, 0x3fff, 0x1001][v]
        p.r[14] = [0x2000, 0x3ffc, 0x2000, 0x2002][v]
        p.put(0x1000, bytes(rg.getrandbits(8) for _ in range(64)) if rg.random() < .5 else packed(rg, 8) + bytes(40) + packed(rg, 8))
        p.put(0x2000, packed(rg, 8))
        if op in (8, 9):
            p.r[2] = [0x1000, 0x4000, 0x1008, 0x3800][v]
        x = [0x24, 0x46, 0x35, 0x6f][rg.randrange(4)] if op not in (8, 9) else 0x12
        b = bytes([op, x]) + [b"", b"\xd0\0", b"\xd0\0", b"\xd0\0\xe0\0"][op >> 6]
        if op == 0x44 or not self.ok(p, b) and op < 0xf0:
            b = bytes([op, x, 0x3f, 0xf0])[:4]
        if op in UNSAFE and not p.mem[1] & 1:       # input/output is not tried here
            b = b"\0\0"
        if op == 0x82:
            p.put(p.r[13], psw(0, 0, 6, 0, 0, 0x400))
        p.code(b)
        return p


class ProtGen(ExcGen):
    """Stores under a key, and the instructions that set keys."""
    STORES = [0x40, 0x42, 0x50, 0x4e, 0x90, 0x92, 0x93, 0x94, 0x96, 0x97, 0xd1, 0xd2, 0xd3, 0xd4, 0xd6, 0xd7,
              0xdc, 0xde, 0xdf, 0xf1, 0xf2, 0xf3, 0xf8, 0xfa, 0xfb, 0xfc, 0xfd]

    def program(self):
        rg = self.rg
        self.dec, self.flt = DecGen(rg), FloatGen(rg)
        size = rg.choice([16384, 32768, 65536])
        key = rg.choice([0, 1, 8, 15, rg.randrange(16), rg.randrange(16)])
        p = Prog(rg, size=size, key=key, amwp=flags(rg, 0.25), cc=rg.randrange(4), pm=rg.choice([0, 15]), ia=rg.choice([0x400, 0x4fe]))
        p.ix = []
        n = size // 2048
        near = lambda: rg.choice([key, key, key ^ 1, key ^ 8, 0, rg.randrange(16), key ^ 2, key ^ 4, 15])
        p.k = [near() for _ in range(n)]
        # bases just below the ends of blocks
        for i in range(16):
            p.r[i] = word(rg)
        for b in (13, 14, 15):
            p.r[b] = max(0, 2048 * rg.randrange(3, n + 1) - rg.choice([8, 16, 4, 64, 256, 1, 2]) + (0 if rg.random() < .7 else 2048 * 40 if rg.random() < .1 else 0))
        p.r[12] = 0x3600 if size == 16384 else 0x5000
        self.handlers(p, which=(0x60, 0x68))
        body = []
        for _ in range(rg.choice([1, 1, 2, 3])):
            x = rg.random()
            if x < 0.25:
                r = rg.randrange(1, 12)
                op = rg.choice([8, 8, 9])
                if rg.random() < 0.9:
                    p.r[r] = rg.choice([rg.getrandbits(8) << 24, 0]) | 2048 * rg.randrange(n) + rg.choice([0, 16, 2032, 1024])
                if rg.random() < 0.04:
                    p.r[r] = rg.choice([size, size - 16, p.r[r] | 8, 0xfffff0])
                body.append(bytes([op, rg.randrange(13) << 4 | r]))
                continue
            if x < 0.32:
                body.append(bytes([0x04, rg.randrange(13) << 4]))
                continue
            op = rg.choice(self.STORES + ([0x60, 0x70] if self.model == 50 else []))
            bd = lambda m: ((rg.choice([13, 14, 15]) << 12) | rg.choice([0, 4, 8, rg.randrange(0, 40), 2048])) & ~(m - 1)
            if op < 0x90:
                m = {0x40: 2, 0x42: 1, 0x50: 4, 0x4e: 8, 0x60: 8, 0x70: 4}[op]
                for b in (13, 14, 15):
                    p.r[b] &= ~(m - 1)
                body.append(bytes([op, (rg.randrange(0, 8, 2) if op >= 0x60 else rg.randrange(16)) << 4]) + bd(m).to_bytes(2, "big"))
            elif op < 0xd0:
                if op == 0x90:
                    for b in (13, 14, 15):
                        p.r[b] &= ~3
                body.append(bytes([op, rg.choice([0, 255, rg.randrange(256)])]) + bd(4 if op == 0x90 else 1).to_bytes(2, "big"))
            elif op < 0xf0:
                ln = rg.choice([0, 1, 3, rg.randrange(40), rg.randrange(256)])
                a = bd(1)
                if op in (0xde, 0xdf):
                    t = self.ea(p, a)
                    p.put(t, bytes([0x40] + [rg.choice([0x20, 0x21, 0x6b, 0x20]) for _ in range(ln)]))
                    p.put(0x1000, bytes(rg.randrange(10) << 4 | rg.randrange(10) for _ in range(140)))
                    p.r[11] = 0x1000
                elif op == 0xdc:
                    p.put(0x1000, bytes(rg.getrandbits(8) for _ in range(256)))
                    p.r[11] = 0x1000
                else:
                    p.r[11] = 0x1000
                    p.put(0x1000, bytes(rg.getrandbits(8) for _ in range(ln + 1)))
                body.append(bytes([op, ln]) + a.to_bytes(2, "big") + b"\xb0\0")
            else:
                n2 = rg.randrange(1, 8)
                n1 = rg.randrange(n2 + 1, 17) if op in (0xfc, 0xfd) else rg.randrange(1, 17)
                a = bd(1)
                t = self.ea(p, a)
                p.put(t, bytes(n2) + packed(rg, n1 - n2) if op in (0xfc, 0xfd) else packed(rg, n1))
                p.r[11] = 0x1000
                p.put(0x1000, packed(rg, n2))
                body.append(bytes([op, (n1 - 1) << 4 | n2 - 1]) + a.to_bytes(2, "big") + b"\xb0\0")
        p.mem = {a: v for a, v in p.mem.items() if a < size}
        for b in body:
            p.code(b)
        return p


class PswGen(Handlers):
    """Supervisor calls, LPSW, SSM, and external interruptions."""
    ext = True

    def masks(self):
        m = [0, 1, 0xe0, 0xe1, 0x60, 1] if self.model == 30 else [0, 1, 0xe0, 0xe1, 0x61, 1]
        return m

    def several(self):
        """The timer and the interrupt key while masked; what comes once they are allowed."""
        rg = self.rg
        p = Prog(rg, size=16384, mask=0, key=0, amwp=0, cc=0, pm=0, ia=0x400)
        p.ix = []
        p.cycles = 16000
        p.put(80, rg.choice([0, 0x100, 0x500]).to_bytes(4, "big"))
        p.put(0x380, b"\x01")
        p.put(0x390, bytes([1, 2, 0, 0, 0, 0, 4, 0]))
        p.put(88, bytes([0, 0, 0, 0, 0, 0, 7, 0]))
        p.put(0x700, bytes.fromhex("1a75" "82000018"))
        p.r[5] = 1
        p.code(bytes.fromhex("4130") + rg.choice([60, 100, 160]).to_bytes(2, "big"))
        p.code(bytes.fromhex("46300404"))
        p.code(bytes.fromhex("80000380"))
        for _ in range(rg.randrange(3)):
            p.code(bytes.fromhex("1a65"))
        p.code(bytes.fromhex("82000390"))
        p.pulses = [rg.randrange(5, 300)]
        p.keys = [rg.randrange(5, 300)]
        return p

    def program(self):
        rg = self.rg
        if rg.random() < 0.06:
            return self.several()
        M = self.masks()
        am = lambda: flags(rg, 0.25)
        key = rg.choice([0, 0, rg.randrange(16)])
        p = Prog(rg, size=rg.choice([16384, 65536]), mask=rg.choice(M), key=key, amwp=am(), cc=rg.randrange(4), pm=rg.randrange(16), ia=rg.choice([0x400, 0x4fe, 0x402]))
        p.ix = []
        for i in range(16):
            p.r[i] = word(rg)
        for b, a in BASES.items():
            p.r[b] = a + rg.choice([0, 4, 8])
        if rg.random() < 0.5:
            p.k = [rg.choice([key, 0, 15]) for _ in p.k]
        p.cycles = 16000
        self.handlers(p, masks=M)
        frags = [0x700, 0x740, 0x780, 0x7c0]
        # PSWs to load and masks to set
        tab = []
        for i in range(4):
            a = 0x300 + 8 * i
            wait = rg.random() < 0.15
            p.put(a, psw(rg.choice(M), rg.choice([0, key, rg.randrange(16)]), am() | (2 if wait else 0), rg.randrange(4), rg.randrange(16),
                         rg.choice(frags), code=rg.getrandbits(16), ilc=rg.randrange(4)))
            tab.append(a)
        for i in range(8):
            p.put(0x380 + i, bytes([rg.choice(M)]))

        def piece(n):
            out = b""
            for _ in range(n):
                x = rg.random()
                if x < 0.18:
                    out += bytes([0x0a, rg.getrandbits(8)])
                elif x < 0.34:
                    out += bytes([0x80, rg.getrandbits(8) & 0xf0]) + (0x380 + rg.randrange(8)).to_bytes(2, "big")
                elif x < 0.44:
                    return out + b"\x82\0" + rg.choice(tab).to_bytes(2, "big")
                elif x < 0.5:
                    out += bytes([0x04, rg.randrange(13) << 4])
                elif x < 0.56:
                    r = rg.randrange(1, 13)
                    out += bytes([0x05, r << 4])
                elif x < 0.6:
                    out += rg.choice([b"\0\0", b"\x58\x20\0\x01", b"\x5d\x10\0\0", b"\x1d\x22"])
                else:
                    out += self.inst(p)
            return out
        p.code(piece(rg.choice([1, 2, 3, 6])))
        for f in frags:
            p.put(f, piece(rg.choice([1, 2, 4]))[:60])
        self.events(p)
        return p

    def events(self, p):
        rg = self.rg
        if rg.random() < 0.7:
            p.keys = [rg.choice([0, 20, 60, 100, 150, 200, 300, 600, rg.randrange(800)])]


class TimerGen(PswGen):
    def events(self, p):
        rg = self.rg
        v = rg.choice([0, 1, 0x500, 0x600, 0x5ff, 0x6ff, 0x700, 0x701, 0x800000ff, 0x80000500, 0x7fffffff, 0xffffffff, rg.getrandbits(32), 0xc00, 0x1200, rg.getrandbits(13)])
        p.put(80, v.to_bytes(4, "big"))
        n = rg.choice([0, 1, 1, 1, 1, 2, 2])
        p.pulses = [rg.choice([5, 20, 60, 100, 5 + rg.randrange(400), 3000, 600]) + 3200 * i for i in range(n)]
        p.notimer = rg.random() < 0.1
        if n < 2 and rg.random() < 0.3:
            p.keys = [rg.choice([0, 60, 200, rg.randrange(800)])]
