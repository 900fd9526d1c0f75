from .isa import Cpu

RMW = [0, 3, 4, 6, 7, 8, 9, 10, 12, 13, 15]
ALU = [0, 1, 2, 4, 5, 6, 8, 9, 10, 11]
BASE = [1] + list(range(6, 18)) + [22, 23, 25, 27] + [o for o in range(32, 48) if o != 33] + list(range(48, 56)) + [57, 59]
BASE += [0x40 + 16 * k + i for k in range(4) for i in RMW] + [0x6e, 0x7e]
for a in (0x80, 0xc0):
    for k in range(4):
        BASE += [a + 16 * k + i for i in ALU] + [a + 16 * k + 14]
        if k:
            BASE += [a + 16 * k + 7, a + 16 * k + 15]
BASE += [0x8c, 0x9c, 0xac, 0xbc, 0x8d, 0xad, 0xbd]
X01 = [4, 5, 33, 56, 58, 60, 61, 0x83, 0x93, 0xa3, 0xb3, 0xc3, 0xd3, 0xe3, 0xf3, 0xcc, 0xdc, 0xec, 0xfc, 0xdd, 0xed, 0xfd, 0x9d]
X11 = [2, 3, 0x8f] + [18, 19, 20, 21, 28, 29, 30, 31]
P18 = ([8, 9, 0x30, 0x35, 0x38, 0x3a, 0x3c, 0x8f, 0x8c, 0x9c, 0xac, 0xbc, 0xce, 0xde, 0xee, 0xfe, 0xdf, 0xef, 0xff,
        0x1c, 0x1d, 0x1e, 0x1f, 0x6e, 0xa3, 0xe3, 0xec, 0xed, 0xad, 0xae, 0xaf] + [0x60 + i for i in RMW] +
       [x + i for x in (0xa0, 0xe0) for i in ALU + [7]])
P1A = [0x83, 0x93, 0xa3, 0xb3, 0xac, 0xee, 0xef]
PCD = [0xa3, 0xac, 0xee, 0xef]


class M68(Cpu):
    name = "M68"
    spaces = [("rom", 65536, 1)]
    nofill = (0,)
    wins = []

    def __init__(self, kind=0):
        self.kind = kind
        self.sim = "m68hc11" if kind == 2 else "m6800"
        self.args = ("-t", ("M6800", "M6801", "HC11")[kind])
        self.regs = ["PC", "A", "B", "CC", "IX"] + ["IY"] * (kind == 2) + ["SP"]
        self.setup = Cpu.setup + ("fill rom 0 0x7fff 1", "fill rom 0x8100 0xffff 1")
        self.table = [(o,) for o in BASE + X01 * (kind > 0)]
        if kind == 2:
            self.table += [(o,) for o in X11] + [(0x18, o) for o in P18] + [(0x1a, o) for o in P1A] + [(0xcd, o) for o in PCD]

    def areas(self, sp):
        return [(0, 0x7fff), (0x8100, 0xffff)]     # peripherals between

    def regmask(self, n):
        return 0xff if n in ("A", "B", "CC") else 0xffff

    def ops(self):
        return self.table

    def deep(self):
        d = [(0x19,)] * 100 + [(o,) for o in (0x89, 0x82, 0x80, 0x8b, 0x1b, 0x10, 0x11, 0x40, 0x4a, 0x4c, 0x8c)] * 12
        if self.kind:
            d += [(o,) for o in (0x83, 0xc3, 5)] * 25
        if self.kind == 2:
            d += [(2,), (3,), (3,), (0x1a, 0x83), (0x18, 0x8c)] * 25
        return d

    def case(self, rng, op):
        b = lambda: rng.choice([rng.randrange(256)] * 3 + [0, 1, 0x7f, 0x80, 0xff, 9, 0x99, 0x0f, 0xf0])

        def w16():
            while 1:
                x = rng.choice([rng.randrange(65536)] * 4 + [0xffff, 0, 0x7fff, 0x8000, 0x100 * b(), b(), 0xff00 + b()])
                if not 0x7e00 <= x < 0x8200:     # no address in the peripherals
                    return x
        ix, iy = w16(), w16()
        a, bb = b(), b()
        if op in ((2,), (3,)) and rng.random() < .3:
            ix = rng.choice([b(), 0, 0x100 * a + bb, 0x100 * a + bb + rng.randrange(3) & 0xffff])
        while 1:
            pc = rng.choice([rng.randrange(0x100, 0xfff0)] * 3 + [0xffff - rng.randrange(3)])
            if not 0x7ff0 <= pc < 0x8100:
                break
        r = {"PC": pc, "A": a, "B": bb, "CC": rng.choice([rng.randrange(256)] * 3 + [0, 255]), "IX": ix, "SP": w16()}
        if self.kind == 2:
            r["IY"] = iy
        r["CC"] |= 0xc0
        if op == (0x19,):
            r["A"] = 16 * rng.choice([0, 3, 8, 9, 9, 0xa, 0xf]) + rng.choice([0, 2, 5, 6, 9, 0xa, 0xb, 0xf])
        e = w16()
        if op[-1] in (0x83, 0x8c, 0xc3):
            e = rng.choice([w16(), ix, iy, 0x8000, 0xffff, 0x100 * a + bb, 0x8000 | e, 0])
        code = list(op) + [e >> 8, e & 255]
        code += [b() for i in range(5 - len(code))]
        n = code[len(op)]
        w = {}
        for x in (e, e + 1, ix + n, ix + n + 1, iy + n, iy + n + 1, n, n + 1):
            if rng.random() < .8 and not 0x7fff <= x & 0xffff < 0x8100:
                w[x & 0xffff] = b()
        for k in range(1, 10):
            w[(r["SP"] + k) & 0xffff] = b()
        for k, x in enumerate(code):
            w[(pc + k) & 0xffff] = x
        h = {"K": self.kind}
        if self.kind < 2:
            h["IY"] = 0
        return {"r": r, "w": [(0, x, v) for x, v in w.items()], "h": h}

    def code(self, case, n):
        d = dict(map(tuple, case["w"]))
        return [d[(case["r"]["PC"] + i) & 0xffff] for i in range(n)]

    def describe(self, case, sess, li):
        return "code " + " ".join("%02x" % x for x in self.code(case, 5))

    def key(self, case):
        c = self.code(case, 2)
        return "%02x%02x" % tuple(c) if self.kind == 2 and c[0] in (0x18, 0x1a, 0xcd) else "%02x" % c[0]
