from .isa import Cpu

BASE = [o for o in range(256) if o not in (0x76, 0xd3, 0xdb, 8, 0x10, 0x18, 0x20, 0x28, 0x30, 0x38, 0xcb, 0xd9, 0xdd, 0xed, 0xfd)]
X85 = [8, 0x10, 0x18, 0x28, 0x38, 0xcb, 0xd9, 0xdd, 0xed, 0xfd]


class I8080(Cpu):
    name = "I8080"
    sim = "i8085"
    regs = ["PC", "A", "F", "BC", "DE", "HL", "SP"]
    spaces = [("rom", 65536, 0x76)]
    wins = []

    def __init__(self, kind=0):
        self.kind = kind
        self.args = ("-t", ("I8080", "I8085")[kind])
        self.table = BASE + X85 * kind

    def regmask(self, n):
        return 0xff if n in ("A", "F") else 0xffff

    def ops(self):
        return self.table

    def deep(self):
        return [0x27] * 150 + [o for o in (0x88, 0x98, 0x8e, 0x9e, 0xce, 0xde, 0x80, 0x90, 0xb8, 0x3c, 0x3d)] * 15

    def case(self, rng, op):
        b = lambda: rng.choice([rng.randrange(256)] * 3 + [0, 1, 0x7f, 0x80, 0xff, 9, 0x99, 0x0f, 0xf0])
        w16 = lambda: rng.choice([rng.randrange(65536)] * 3 + [0xffff, 0, 0x7fff, 0x8000, 0x100 * b(), b()])
        pc = rng.randrange(0x100, 0xfff0)
        r = {"PC": pc, "A": b(), "F": rng.randrange(256), "BC": w16(), "DE": w16(), "HL": w16(), "SP": w16()}
        r["F"] = r["F"] & 0xd7 | 2 if self.kind == 0 else r["F"] & 0xf7
        if op == 0x27:
            r["A"] = 16 * rng.choice([0, 3, 8, 9, 9, 0xa, 0xf]) + rng.choice([0, 2, 5, 6, 9, 0xa, 0xb, 0xf])
        w = {}
        n, nn = b(), w16()
        code = [op, n, nn >> 8]
        for a in (r["BC"], r["DE"], r["DE"] + 1, r["HL"], r["SP"], r["SP"] + 1, n + (nn & 0xff00), n + (nn & 0xff00) + 1):
            if rng.random() < .8:
                w[a & 0xffff] = b()
        for i, c in enumerate(code):
            w[pc + i] = c
        return {"r": r, "w": [(0, a, x) for a, x in w.items()], "h": {"K": self.kind}}

    def describe(self, case, sess, li):
        d = dict(map(tuple, case["w"]))
        pc = case["r"]["PC"]
        return "code %s" % " ".join("%02x" % d.get(pc + i, 0x76) for i in range(3))

    def key(self, case):
        return "%02x" % dict(map(tuple, case["w"]))[case["r"]["PC"]]
