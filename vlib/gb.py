"""LR35902 (Game Boy): instruction cases (spec/Gb.tla)."""
from .isa import Cpu

BASE = [o for o in range(256) if o not in (0x10, 0x76, 0xcb, 0xd3, 0xdb, 0xdd, 0xe3, 0xe4, 0xeb, 0xec, 0xed, 0xf4, 0xfc, 0xfd)]


class Gb(Cpu):
    name = "Gb"
    sim = "z80"
    args = ("-t", "LR35902")
    spaces = [("rom", 65536, 1)]
    wins = []
    regs = ["PC", "A", "F", "B", "C", "D", "E", "H", "L", "SP"]
    nofill = (0,)
    setup = Cpu.setup + ("fill rom 0 0xffff 1",)

    def regmask(self, n):
        return 0xffff if n in ("PC", "SP") else 0xff

    def ops(self):
        return [(o,) for o in BASE] + [(0xcb, o) for o in range(256)]

    def deep(self):
        return [(0x27,)] * 150 + [(o,) for o in (0x88, 0x98, 0x8e, 0x9e, 0xce, 0xde, 0x80, 0x90, 0xb8, 0x3c, 0x3d, 9, 0x39, 0xe8, 0xf8)] * 15

    def case(self, rng, op):
        b = lambda: rng.choice([rng.randrange(256)] * 3 + [0, 1, 0x7f, 0x80, 0xff, 9, 0x99, 0x0f, 0xf0])
        w16 = lambda: rng.choice([rng.randrange(65536)] * 3 + [0xffff, 0, 0x7fff, 0x8000, 0x100 * b(), b()])
        pc = rng.choice([rng.randrange(0x100, 0xfff0)] * 3 + [0xffff - rng.randrange(3)])
        r = {"PC": pc, "A": b(), "F": 16 * rng.randrange(16)}
        for n in "BD":
            v = w16()
            r[n], r[chr(ord(n) + 1)] = v >> 8, v & 255
        hl, r["SP"] = w16(), w16()
        if hl - pc & 0xffff < 2:         # no instruction overwrites itself (its duration is looked up afterwards)
            hl = hl + 0x100 & 0xffff
        r["H"], r["L"] = hl >> 8, hl & 255
        if op == (0x27,):
            r["A"] = 16 * rng.choice([0, 3, 8, 9, 9, 0xa, 0xf]) + rng.choice([0, 2, 5, 6, 9, 0xa, 0xb, 0xf])
        e = w16()
        code = list(op) + [e & 255, e >> 8]
        w = {}
        for a in (r["B"] * 256 + r["C"], r["D"] * 256 + r["E"], hl, r["SP"], r["SP"] + 1, e, e + 1, 0xff00 + (e & 255), 0xff00 + r["C"]):
            if rng.random() < .8:
                w[a & 0xffff] = b()
        for i, c in enumerate(code):
            w[pc + i & 0xffff] = c
        return {"r": r, "w": [(0, a, x) for a, x in w.items()], "h": {}}

    def code(self, case, n):
        d = dict(map(tuple, case["w"]))
        return [d[(case["r"]["PC"] + i) & 0xffff] for i in range(n)]

    def describe(self, case, sess, li):
        return "code " + " ".join("%02x" % x for x in self.code(case, 3))

    def key(self, case):
        c = self.code(case, 2)
        return "%02x%02x" % tuple(c) if c[0] == 0xcb else "%02x" % c[0]
