from .isa import Cpu

# documented instructions
MAIN = [o for o in range(256) if o not in (0xcb, 0xdd, 0xed, 0xfd, 0x76)]
CB = [o for o in range(256) if not 0x30 <= o < 0x38]
ED = ([0x40 + 8 * i for i in range(8) if i != 6] + [0x41 + 8 * i for i in range(8) if i != 6] +
      [0x42 + 8 * i for i in range(8)] + [0x43 + 8 * i for i in range(8)] +
      [0x44, 0x45, 0x4d, 0x46, 0x56, 0x5e, 0x47, 0x4f, 0x57, 0x5f, 0x67, 0x6f] +
      [b + k for b in (0xa0, 0xa8, 0xb0, 0xb8) for k in range(4)])
IXM = [0x34, 0x35, 0x36] + [0x46 + 8 * i for i in range(8) if i != 6] + [0x70 + i for i in range(8) if i != 6] + [0x86 + 8 * i for i in range(8)]
IX = IXM + [0x09, 0x19, 0x29, 0x39, 0x21, 0x22, 0x2a, 0x23, 0x2b, 0xe1, 0xe3, 0xe5, 0xe9, 0xf9]
IXCB = [o for o in CB if o & 7 == 6]


class Z80(Cpu):
    name = "Z80"
    sim = "z80"
    regs = ["PC", "A", "F", "B", "C", "D", "E", "H", "L", "IX", "IY", "SP", "I", "R",
            "ALT_A", "ALT_F", "ALT_B", "ALT_C", "ALT_D", "ALT_E", "ALT_H", "ALT_L"]
    spaces = [("rom", 65536, 0x3c), ("inputs", 65536, 0x77), ("outputs", 65536, 0)]
    wins = []
    ticks = False

    def regmask(self, n):
        return 0xffff if n in ("PC", "IX", "IY", "SP") else 0xff

    def ops(self):
        return ([(o,) for o in MAIN] + [(0xcb, o) for o in CB] + [(0xed, o) for o in ED] +
                [(p, o) for p in (0xdd, 0xfd) for o in IX] + [(p, 0xcb, None, o) for p in (0xdd, 0xfd) for o in IXCB])

    def deep(self):
        return ([(0x27,)] * 200 + [(o,) for o in (0x88, 0x8e, 0x98, 0x9e, 0x80, 0x90, 0xb8, 0x09, 0x3c, 0x3d) for i in range(25)] +
                [(0xed, o) for o in (0x42, 0x4a, 0x44) for i in range(40)])

    def case(self, rng, op):
        b = lambda: rng.choice([rng.randrange(256)] * 3 + [0, 1, 0x7f, 0x80, 0xff, 9, 0x99, 0x0f, 0xf0])
        w16 = lambda: rng.choice([rng.randrange(65536), rng.randrange(65536), 0xffff, 0, 0x7fff, 0x0fff, 1, 0x100 * b(), b()])
        pc = rng.choice([rng.randrange(65536), rng.randrange(65536), 0xfffd + rng.randrange(3)])
        r = {x: w16() if x in ("IX", "IY", "SP") else b() for x in self.regs}
        r["PC"] = pc
        if op == (0x27,):
            r["A"] = 16 * rng.choice([0, 3, 8, 9, 9, 0xa, 0xf]) + rng.choice([0, 2, 5, 6, 9, 0xa, 0xb, 0xf])
            r["F"] = rng.randrange(256)
        if op[0] == 0xed and op[-1] & 0xb4 == 0xb0 and rng.random() < .5:
            r["B"], r["C"] = rng.choice([(0, 1), (1, 0), (0, 2), (1, 1)])
        if rng.random() < .15:
            r["F"] = rng.choice([0, 0xff, 1, 0x10, 0x11, 0x13, 2])
        code = [b() if x is None else x for x in op]
        code += [b() for i in range(4 - len(code))]
        w = {}

        def put(s, a, v):
            w[(s, a & 0xffff)] = v
        hl, bc, de = (r["H"] << 8) + r["L"], (r["B"] << 8) + r["C"], (r["D"] << 8) + r["E"]
        d = code[2] - 256 if code[2] > 127 else code[2]
        for a in (hl, bc, de, r["SP"], r["SP"] + 1, r["IX"] + d, r["IY"] + d, (code[2] << 8) + code[1], (code[2] << 8) + code[1] + 1):
            if rng.random() < .7:
                put(0, a, b())
        if op[0] == 0xed:
            put(1, bc & 255, b())
            put(0, (code[3] << 8) + code[2], b())
            put(0, (code[3] << 8) + code[2] + 1, b())
        if op[0] == 0xdb:
            put(1, code[1], b())
        if op[0] == 0xed and op[-1] & 0xa7 == 0xa1 and rng.random() < .4:
            put(0, hl, r["A"])
        for i, c in enumerate(code):
            put(0, pc + i, c)
        return {"r": r, "w": [(s, a, v) for (s, a), v in w.items()]}

    def describe(self, case, sess, li):
        d = dict(map(tuple, case["w"]))
        pc = case["r"]["PC"]
        return "code %s at 0x%04x" % (" ".join("%02x" % d.get((pc + i) & 0xffff, -1) for i in range(4)), pc)

    def key(self, case):
        d = dict(map(tuple, case["w"]))
        c = [d.get((case["r"]["PC"] + i) & 0xffff, -1) for i in range(4)]
        n = 4 if c[0] in (0xdd, 0xfd) and c[1] == 0xcb else 2 if c[0] in (0xdd, 0xfd, 0xed, 0xcb) else 1
        if n == 4:
            c[2] = 0
        return " ".join("%02x" % x for x in c[:n])
