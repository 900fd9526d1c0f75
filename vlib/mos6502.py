from .isa import Cpu

NMOS = ([0, 0x40, 0x20, 0x60, 8, 0x48, 0x28, 0x68] + [16 + 32 * i for i in range(8)] +
        [0x18, 0x38, 0x58, 0x78, 0xb8, 0xd8, 0xf8, 0x88, 0xc8, 0xca, 0xe8, 0x8a, 0x98, 0xa8, 0xaa, 0xba, 0x9a, 0xea, 0x4c, 0x6c, 0x24, 0x2c] +
        [a * 32 + b * 4 + 1 for a in range(8) for b in range(8) if (a, b) != (4, 2)] +
        [a * 32 + b * 4 + 2 for a in (0, 1, 2, 3, 6, 7) for b in (1, 3, 5, 7)] + [0x0a, 0x2a, 0x4a, 0x6a] +
        [0x86, 0x8e, 0x96, 0xa2, 0xa6, 0xae, 0xb6, 0xbe, 0x84, 0x8c, 0x94, 0xa0, 0xa4, 0xac, 0xb4, 0xbc,
         0xc0, 0xc4, 0xcc, 0xe0, 0xe4, 0xec])
CMOS = NMOS + [0x5a, 0xda, 0x7a, 0xfa, 0x80, 0x1a, 0x3a, 0x7c, 0x34, 0x3c, 0x89, 4, 12, 0x14, 0x1c, 0x64, 0x74, 0x9c, 0x9e,
               2, 0x22, 0x42, 0x62, 0x82, 0xc2, 0xe2, 0x44, 0x54, 0xd4, 0xf4, 0x5c, 0xdc, 0xfc] + [0x12 + 32 * i for i in range(8)]
C02 = CMOS + [16 * i + k for i in range(16) for k in (3, 7, 11, 15)]
C02S = CMOS + [16 * i + k for i in range(16) for k in (3, 7, 7, 7, 11, 15, 15, 15) if (i, k) not in ((12, 11), (13, 11))]


class Mos6502(Cpu):
    name = "Mos6502"
    sim = "mos6502"
    regs = ["PC", "A", "X", "Y", "SP", "P"]
    spaces = [("rom", 65536, 0x60)]
    wins = []
    ticks = False

    def __init__(self, kind=0):
        self.kind = kind
        self.args = ("-t", ("6502", "65C02", "65C02S")[kind])
        self.table = (NMOS, C02, C02S)[kind]

    def regmask(self, n):
        return 0xffff if n == "PC" else 0xff

    def ops(self):
        return self.table

    def deep(self):
        return [0x69, 0xe9, 0x65, 0xf5, 0xc9, 0x6a, 0x71, 0x61, 0xe1, 0xf1] * 20

    def case(self, rng, op):
        b = lambda: rng.choice([rng.randrange(256)] * 3 + [0, 1, 0x7f, 0x80, 0xff, 9, 0x99])
        bcd = lambda: rng.choice([rng.randrange(10) * 16 + rng.randrange(10), 0x99, 0, 0x50, 0x49])
        pc = rng.randrange(0x200, 0xff00)
        r = {"PC": pc, "A": b(), "X": b(), "Y": b(), "SP": b(), "P": rng.randrange(256) & 0xcf, }
        if rng.random() < .75:
            r["P"] &= 0xf7
        if r["P"] & 8:
            r["A"] = bcd()
        w = {}

        def put(a, v):
            w[a & 0xffff] = v
        word = lambda: rng.choice([rng.randrange(65536)] * 3 + [0xffff, 0x1ff, 0xff00 + b()])
        v = bcd if r["P"] & 8 else b
        n = b()
        T = word()
        stack = lambda: [put(0x100 + ((r["SP"] + i) & 255), b()) for i in range(1, 4)]
        put(0xfffe, b())
        put(0xffff, b())
        stack()
        low = op & 0x1f
        # whatever addressing mode: put operands and pointers at all places it may look at
        code = [op, T & 255, T >> 8]
        if op == 0x6c and T & 255 == 255 and self.kind == 0:
            code[1] = 0x7f
        elif low not in (0x0c, 0x0d, 0x0e, 0x19, 0x1c, 0x1d, 0x1e, 0x1b):
            code[1] = n
        nn = code[1] + 256 * code[2]
        near = lambda a: abs((a - pc + 8) & 0xffff) < 20
        if near(nn) or near(nn + r["X"]) or near(nn + r["Y"]):
            code[2] ^= 0x80
            nn ^= 0x8000
        zs = {nn, nn + r["X"], nn + r["Y"], code[1], (code[1] + r["X"]) & 255, (code[1] + r["Y"]) & 255}
        for a in sorted(zs):
            put(a, v())
            if op in (0x6c, 0x7c):
                put(a + 1, b())
        if low in (1, 0x11, 0x12):
            p = code[1] + (r["X"] if low == 1 else 0)
            t = T
            while near(t) or near(t + r["Y"]) or t < 0x300 or t + r["Y"] > 0xfffd:
                t = rng.randrange(65536)
            put(p & 255, t & 255)
            put((p + 1) & 255, t >> 8)
            if (p + 1) & 255 == 0 and rng.random() < .5:
                put(0x100, b())
            put(t + (r["Y"] if low == 0x11 else 0), v())
        if low in (9, 2, 0):
            code[1] = v()
        for i, c in enumerate(code):
            put(pc + i, c)
        return {"r": r, "w": [(0, a, x) for a, x in w.items()], "h": {"K": self.kind}}

    def describe(self, case, sess, li):
        d = dict(map(tuple, case["w"]))
        pc = case["r"]["PC"]
        return "code %s" % " ".join("%02x" % d.get(pc + i, 0x60) for i in range(3))

    def key(self, case):
        return "%02x" % dict(map(tuple, case["w"]))[case["r"]["PC"]]
