"""HC08 / HCS08: instruction cases (spec/Hc08.tla)."""
from .isa import Cpu

RMW = [0, 1, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 15]
ALU = [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 14]
BASE = list(range(0x30)) + [k + i for k in (0x30, 0x40, 0x50, 0x60, 0x70) for i in RMW]
BASE += [0x35, 0x45, 0x55, 0x65, 0x75, 0x42, 0x52, 0x62, 0x72, 0x4e, 0x5e, 0x6e, 0x7e]
BASE += [0x80, 0x81] + list(range(0x83, 0x8d)) + [0x8e, 0x8f] + list(range(0x90, 0x96)) + list(range(0x97, 0x9e)) + [0x9f]
for k in range(0xa0, 0x100, 16):
    BASE += [k + i for i in ALU] + ([k + 7, k + 12, k + 13, k + 15] if k > 0xa0 else [0xa7, 0xad, 0xaf])
SP = [0x60 + i for i in RMW] + [k + i for k in (0xd0, 0xe0) for i in ALU + [7, 15]]


class Hc08(Cpu):
    name = "Hc08"
    sim = "m68hc08"
    spaces = [("rom", 65536, 1)]
    nofill = (0,)
    wins = []
    regs = ["PC", "A", "CC", "H", "X", "SP"]

    def __init__(self, kind=0):
        self.kind = kind
        self.args = ("-t", ("HC08", "HCS08")[kind])
        self.setup = Cpu.setup + ("fill rom 0 0xffff 1", "step")
        self.table = [(o,) for o in BASE] + [(0x9e, o) for o in SP]
        if kind:
            self.table += [(0x32,), (0x3e,), (0x96,)] + [(0x9e, o) for o in (0xae, 0xbe, 0xce, 0xfe, 0xff, 0xf3)]

    def regmask(self, n):
        return 0xffff if n in ("PC", "SP") else 0xff

    def ops(self):
        return self.table

    def deep(self):
        return [(0x72,)] * 100 + [(0x52,)] * 60 + [(o,) for o in (0xa9, 0xa2, 0xa0, 0xab, 0xa1, 0xa3, 0x40, 0x4a, 0x42)] * 12 + \
               [(o,) for o in (0x65, 0x75)] * 25

    def case(self, rng, op):
        b = lambda: rng.choice([rng.randrange(256)] * 3 + [0, 1, 0x7f, 0x80, 0xff, 9, 0x99, 0x0f, 0xf0])
        w16 = lambda: rng.choice([rng.randrange(65536)] * 4 + [0xffff, 0, 0x7fff, 0x8000, 0x100 * b(), b(), 0xff00 + b()])
        hx, a = w16(), b()
        pc = rng.choice([rng.randrange(0x100, 0xfff0)] * 3 + [0xffff - rng.randrange(3)])
        r = {"PC": pc, "A": a, "CC": rng.choice([rng.randrange(256)] * 3 + [0, 255]) | 0x60, "H": hx >> 8, "X": hx & 255, "SP": w16()}
        if op == (0x72,):
            h = rng.randrange(2)
            c = rng.randrange(2)
            r["A"] = 16 * rng.randrange(4 if c else 16) + rng.randrange(4 if h else 16)
            r["CC"] = r["CC"] & 0xee | 16 * h | c
        if op == (0x52,) and rng.random() < .6:
            r["X"] = max(1, r["X"])
            r["H"] = rng.choice([rng.randrange(r["X"]), 0, r["X"] - 1, r["X"]])
            hx = r["H"] * 256 + r["X"]
        e = w16()
        if op in ((0x65,), (0x45,)):
            e = rng.choice([e, hx, hx ^ 0x8000, hx + 1 & 0xffff, 0x8000, 0])
        code = list(op) + [e >> 8, e & 255]
        if op in ((0x41,), (0x51,)) and rng.random() < .4:
            code[1] = a if op == (0x41,) else r["X"]
        code += [b() for i in range(5 - len(code))]
        n = code[len(op)]
        bases = [0, hx, r["SP"]]
        w = {}
        for x in (e, n, code[len(op) + 1], hx + e, hx + n, r["SP"] + e, r["SP"] + n, hx):
            for d in (0, 1):
                if rng.random() < .8:
                    w[x + d & 0xffff] = rng.choice([b(), b(), a])
        if op in ((0x75,),) and rng.random() < .5:
            w[n], w[n + 1] = hx >> 8, rng.choice([hx & 255, b()])
        for k in range(1, 8):
            w[(r["SP"] + k) & 0xffff] = b()
        w[0xfffc], w[0xfffd] = b(), b()
        for k, x in enumerate(code):
            w[(pc + k) & 0xffff] = x
        return {"r": r, "w": [(0, x, v) for x, v in w.items()], "h": {"K": self.kind}}

    def code(self, case, n):
        d = dict(map(tuple, case["w"]))
        return [d[(case["r"]["PC"] + i) & 0xffff] for i in range(n)]

    def describe(self, case, sess, li):
        return "code " + " ".join("%02x" % x for x in self.code(case, 5))

    def key(self, case):
        c = self.code(case, 2)
        return "%02x%02x" % tuple(c) if c[0] == 0x9e else "%02x" % c[0]
