from .isa import Cpu

RMW = [0, 3, 4, 6, 7, 8, 9, 10, 12, 13, 15]
ALU = [0, 1, 2, 4, 5, 6, 8, 9, 10, 11]
TABLE = [(x + i,) for x in (0, 0x60, 0x70) for i in RMW + [14]] + [(x + i,) for x in (0x40, 0x50) for i in RMW]
TABLE += [(o,) for o in (0x12, 0x16, 0x17, 0x19, 0x1a, 0x1c, 0x1d, 0x1e, 0x1f)]
TABLE += [(0x20 + i,) for i in range(16)] + [(0x10, 0x21 + i) for i in range(15)]
TABLE += [(0x30 + i,) for i in (0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 13, 15)]
TABLE += [(0x10, 0x3f), (0x11, 0x3f)]
for a in (0x80, 0xc0):
    for k in range(4):
        TABLE += [(a + 16 * k + i,) for i in ALU + [3, 12, 14]]
        if k:
            TABLE += [(a + 16 * k + i,) for i in (7, 13, 15)]
TABLE += [(0x8d,)]
for k in range(4):
    TABLE += [(0x10, 0x80 + 16 * k + i) for i in (3, 12, 14)] + [(0x10, 0xce + 16 * k)]
    TABLE += [(0x11, 0x80 + 16 * k + i) for i in (3, 12)]
    if k:
        TABLE += [(0x10, 0x8f + 16 * k), (0x10, 0xcf + 16 * k)]
INDEXED = ([x for x in range(128)] + [0x80 + 32 * r + i + k for r in range(4) for i in (1, 3, 4, 5, 6, 8, 9, 11, 12, 13) for k in (0, 16)] * 2
           + [0x80 + 32 * r + i for r in range(4) for i in (0, 2)] * 3 + [0x9f] * 8)
REGS = [0, 1, 2, 3, 4, 5]
LO, HI = 0xbff0, 0xc030          # the peripherals


class M6809(Cpu):
    name = "M6809"
    sim = "m6809"
    args = ("-t", "M6809")
    regs = ["PC", "A", "B", "CC", "DP", "X", "Y", "U", "S"]
    spaces = [("rom", 65536, 1)]
    nofill = (0,)
    wins = []
    setup = Cpu.setup + ("fill rom 0 %d 1" % (LO - 1), "fill rom %d 0xffff 1" % HI)

    def areas(self, sp):
        return [(0, LO - 1), (HI, 0xffff)]

    def regmask(self, n):
        return 0xff if n in ("A", "B", "CC", "DP") else 0xffff

    def ops(self):
        return TABLE

    def deep(self):
        d = [(o,) for o in (0x89, 0x82, 0x80, 0x8b, 0x83, 0xc3, 0x8c, 0x19, 0x19, 0x1e, 0x1f, 0x3d)] * 12
        return d + [(o,) for o in (0x30, 0x31, 0x32, 0x33, 0xa6, 0xe7, 0xec, 0xed, 0x34, 0x35, 0x36, 0x37, 0x6c)] * 16

    def mode(self, op):
        o = op[-1]
        return o >> 4 in (6, 0xa, 0xe) or o in (0x30, 0x31, 0x32, 0x33)

    def ea(self, r, mem, o, pb):
        # address reached by an indexed operand (to place memory there)
        g = lambda a: mem.get(a & 0xffff, 1)
        w = lambda a: 256 * g(a) + g(a + 1)
        s8 = lambda v: v - 256 * (v > 127)
        x = r["XYUS"[pb >> 5 & 3]]
        if pb < 128:
            return x + (pb & 31) - 32 * (pb >> 4 & 1)
        k = pb & 15
        e = {0: x, 1: x, 2: x - 1, 3: x - 2, 4: x, 5: x + s8(r["B"]), 6: x + s8(r["A"]), 8: x + s8(g(o + 1)), 9: x + w(o + 1),
             11: x + 256 * r["A"] + r["B"], 12: o + 2 + s8(g(o + 1)), 13: o + 3 + w(o + 1), 15: w(o + 1)}[k]
        return (w(e), e) if pb & 16 else e

    def case(self, rng, op):
        while 1:
            c = self.case1(rng, op)
            if c:
                return c

    def case1(self, rng, op):
        b = lambda: rng.choice([rng.randrange(256)] * 3 + [0, 1, 0x7f, 0x80, 0xff, 9, 0x99, 0x0f, 0xf0])
        bad = lambda x: LO - 40 <= x & 0xffff < HI + 40

        def w16():
            while 1:
                x = rng.choice([rng.randrange(65536)] * 4 + [0xffff, 0, 0x7fff, 0x8000, 0x100 * b(), b(), 0xff00 + b()])
                if not bad(x):
                    return x
        pc = rng.choice([rng.randrange(0x100, 0xfff0)] * 3 + [0xffff - rng.randrange(3), rng.randrange(20)])
        if bad(pc):
            return
        r = {"PC": pc, "A": b(), "B": b(), "CC": rng.choice([rng.randrange(256)] * 3 + [0, 255]), "DP": rng.choice([b(), 0]),
             "X": w16(), "Y": w16(), "U": w16(), "S": w16()}
        if r["DP"] in range(LO - 300 >> 8, (HI + 300 >> 8) + 1):
            return
        o = op[-1]
        if op == (0x19,):
            r["A"] = 16 * rng.choice([0, 3, 8, 9, 9, 0xa, 0xf]) + rng.choice([0, 2, 5, 6, 9, 0xa, 0xb, 0xf])
        e = w16()
        if o & 0x8f in (0x83, 0x8c) and rng.random() < .6:
            e = rng.choice([r["X"], r["Y"], r["U"], r["S"], 0x8000, 0xffff, 0x100 * r["A"] + r["B"], 0x8000 | e, 0])
        rest = [e >> 8, e & 255, b(), b()]
        if o in (0x1e, 0x1f):
            g = rng.choice([[0, 1, 2, 3, 4, 5], [8, 9, 10, 11]])
            rest[0] = 16 * rng.choice(g) + rng.choice(g)
        if o in (0x34, 0x35, 0x36, 0x37):
            rest[0] = rng.choice([rng.randrange(256)] * 3 + [1 << rng.randrange(8), 255])
        if self.mode(op):
            rest[0] = rng.choice(INDEXED)
        code = list(op) + rest
        w = {}

        def put(a, n=2):
            for k in range(n):
                if rng.random() < .85:
                    w[a + k & 0xffff] = b()
        put(r["DP"] * 256 + rest[0])
        put(r["DP"] * 256 + (rest[0] + 1 & 255), 1)
        put(e)
        put(r["S"], 12)
        put(r["U"], 12)
        for a in (0xfff2, 0xfff4, 0xfffa):
            v = w16()
            w[a], w[a + 1] = v >> 8, v & 255
        cd = {}
        for k, x in enumerate(code):
            cd[pc + k & 0xffff] = x
        w.update(cd)
        if self.mode(op):
            pb = rest[0]
            if pb >= 128 and pb & 16:          # pointer first
                e2 = self.ea(r, dict(w), pc + len(op), pb)[1]
                v = w16()
                w[e2 & 0xffff], w[e2 + 1 & 0xffff] = v >> 8, v & 255
                w.update(cd)
                if bad(e2):
                    return
            ea = self.ea(r, w, pc + len(op), pb)
            ea = ea[0] if isinstance(ea, tuple) else ea
            if bad(ea):
                return
            put(ea)
            if o == 0xa3 or o & 0x8f == 0x8c and o != 0xec:
                if rng.random() < .3:
                    v = rng.choice([r["X"], 0x100 * r["A"] + r["B"]])
                    w[ea & 0xffff], w[ea + 1 & 0xffff] = v >> 8, v & 255
            w.update(cd)
        if any(bad(a) for a in w):
            return
        return {"r": r, "w": [(0, x, v) for x, v in w.items()]}

    def code(self, case, n):
        d = dict(map(tuple, case["w"]))
        return [d[(case["r"]["PC"] + i) & 0xffff] for i in range(n)]

    def describe(self, case, sess, li):
        return "code " + " ".join("%02x" % x for x in self.code(case, 5))

    def key(self, case):
        c = self.code(case, 2)
        return "%02x%02x" % tuple(c) if c[0] in (0x10, 0x11) else "%02x" % c[0]
