from .isa import Cpu, SPC

M32 = 0xffffffff
SPECIAL = [0, 1, 2, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, M32, 0x55555555]


class P1516(Cpu):
    name = "P1516"
    sim = "p1516"
    regs = ["PC", "F"]
    spaces = [("rom", 0x20000, 0), ("regs", 16, 0)]
    wins = [(1, 0, 15), (0, 0x40, 0x4f), (0, 0x1fff0, 0x1ffff)]
    ranges = [(0, 0x1ff), (0xfc00, 0xfcff), (0x1ff00, 0x1ffff)]
    nofill = (0, 1)

    def __init__(self, K):
        self.K = K
        self.args = ("-t", "P1516" if K == 1 else "P2223")

    def digits(self, sp):
        return 8

    def regmask(self, n):
        return M32

    def areas(self, sp):
        return self.ranges if sp == 0 else [(0, 15)]

    def transform(self, out):
        """every 32 bit value as two halves"""
        def cells(l):
            return [[(k // SPC) * SPC + 2 * (k % SPC) + h, v >> 16 * h & 0xffff] for k, v in l for h in (0, 1)]

        def regs(r):
            o = dict(r)
            for n in ("PC", "F"):
                if n in o:
                    o[n], o[n + "h"] = o[n] & 0xffff, o[n] >> 16
            return o
        for i, c in enumerate(out["cases"]):
            if "w" in c:
                c["w"] = cells(c["w"])
            if i == len(out["cases"]) - 1:
                c["d"] = [x for x in cells(c["d"]) if x[1]]
            else:
                c["d"] = cells(c["d"])
            if c.get("r"):
                c["r"] = regs(c["r"])
            if "q" in c:
                c["q"] = regs(c["q"])
        out["win"] = [[(lo // SPC) * SPC + 2 * (lo % SPC), (hi // SPC) * SPC + 2 * (hi % SPC) + 1] for lo, hi in out["win"]]
        return out

    def ops(self):
        """(bits 27..24, fields below)"""
        if self.K == 1:
            return [(i, 0) for i in (1, 1, 2, 2, 3, 4, 5, 6, 0, 8, 12, 15)] + [(7, o) for o in range(20) if o != 14] * 2
        o = [(0, a) for a in range(16) if a not in (1, 2)] + [(1, a) for a in range(16)] + [(2, a) for a in range(16)]
        o += [(4, 0), (5, 0), (5, 0)] + [(6, 0), (7, 0), (6, 1), (6, 1), (6, 1), (7, 1), (7, 1), (6, 2), (7, 2)]
        return o + [(i, 0) for i in range(8, 16)] * 3

    def word(self, rng):
        return rng.choice([rng.randrange(1 << 32)] * 2 + [rng.choice(SPECIAL), rng.randrange(256), M32 - rng.randrange(256)])

    def place(self, rng):
        k = rng.random()
        if k < .6:
            return rng.choice([rng.randrange(0x40, 0x50), rng.randrange(0x1fff0, 0x20000)])
        lo, hi = rng.choice(self.ranges)
        return rng.randint(lo, hi)

    def code(self, rng, op):
        i, o = op
        d, a, b = rng.randrange(16), rng.randrange(16), rng.randrange(16)
        cc = rng.choice([0, 0, rng.randrange(16)])
        lo = rng.randrange(0x10000)
        if self.K == 1:
            if i == 7:
                lo = b << 12 | o << 7 | lo & 0x7f
            if i >= 8:
                return cc << 28 | i << 24 | d << 20 | a << 16 | lo
        else:
            if i < 4:
                a = o
                if i % 2:
                    lo = rng.choice([lo, 0, 1, 0x8000, 0x7fff, 0xffff, 0xff])
            if cc == 15 and i not in (4, 5):
                cc = 14
            if i in (4, 5) and rng.random() < .2:
                cc = 15
            if i in (6, 7):
                a = o
                if o == 0:
                    lo = self.place(rng) & 0xffff
                if o == 2:
                    lo = lo & 0xf0ff | rng.choice([0, 0, 2, 3, 9]) << 8
        return cc << 28 | i << 24 | d << 20 | a << 16 | lo

    def addr(self, code, R, F):
        """address of the data, None if it has none"""
        i, a, lo = code >> 24 & 15, code >> 16 & 15, code & 0xffff
        if self.K == 1:
            return R[a] if i in (1, 2) else None
        if i in (6, 7) and a == 0:
            return lo
        if i < 8:
            return None
        sx = lambda v: v - 0x10000 if v & 0x8000 else v
        if i & 4:
            ofs, up, pre = sx(lo), F >> 5 & 1, F >> 4 & 1
            if i & 2:
                up, pre = 1 - up, 1 - pre
        else:
            ofs, up, pre = R[lo >> 8 & 15], lo >> 15 & 1, lo >> 14 & 1
        base = R[a] + ((1 if up else -1) if i & 1 and pre else 0)
        return base + ofs & M32

    def inside(self, x):
        return any(lo <= x <= hi for lo, hi in self.ranges)

    def session(self, rng, ops):
        self.first = True
        return [self.case(rng, o) for o in ops]

    def case(self, rng, op):
        while True:
            code = self.code(rng, op)
            pc = rng.choice([rng.randrange(0x50, 0x1ff), rng.randrange(0x50, 0x1ff), rng.randrange(0xfc00, 0xfd00), rng.randrange(0x1ff00, 0x1ffff), 0])
            F = rng.choice([rng.randrange(64)] * 5 + [self.word(rng)])
            R = [self.word(rng) for _ in range(15)] + [pc + 1]
            for n in range(15):
                if rng.random() < .3:
                    R[n] = R[rng.randrange(15)]
            w = {}
            x = self.addr(code, R, F)
            if x is not None:
                want = self.place(rng)
                a, b = code >> 16 & 15, code >> 8 & 15
                if not self.inside(x):
                    if a == 15 and (self.K == 1 or op[0] & 4 or b == 15):
                        pass
                    elif a == 15:
                        R[b] = R[b] + want - x & M32
                    else:
                        R[a] = R[a] + want - x & M32
                        if self.addr(code, R, F) != want:              # base and offset the same register
                            R[a] = want // 2
                    x = self.addr(code, R, F)
                    if not self.inside(x):
                        continue
                if x == pc:
                    continue
                w[(0, x)] = self.word(rng)
            w[(0, pc)] = code
            break
        for n in range(15):
            w[(1, n)] = R[n]
        r = {"PC": pc, "F": F}
        h = {}
        if self.first:
            h["K"] = self.K
            self.first = False
        return {"r": r, "h": h, "w": [(s, a, v) for (s, a), v in w.items()]}

    def opcode(self, case):
        c = {}
        for x in case["w"]:
            if len(x) == 3:
                c[x[0] * SPC + x[1]] = x[2]
            else:
                k = x[0] // SPC * SPC + x[0] % SPC // 2
                c[k] = c.get(k, 0) | x[1] << 16 * (x[0] & 1)
        return c.get(case["r"]["PC"] + (case["r"].get("PCh", 0) << 16), 0)

    def describe(self, case, sess, li):
        return "code %08x" % self.opcode(case)

    def key(self, case):
        c = self.opcode(case)
        return "%x %x" % (c >> 24 & 15, (c >> 7 & 31) if self.K == 1 else c >> 16 & 15)
