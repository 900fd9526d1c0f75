from .isa import Cpu


def table(K):
    """(fixed bits, variable bits, I/O field?)"""
    mw = {13: 6, 14: 7, 15: 8}[K]
    M, IO = (1 << mw) - 1, (1 << mw - 1) - 1
    t = [(0, 0, 0)]
    base, misc = (0x10, 0x30) if K == 13 else (0x60, 0x70)
    t += [(base + i, 0, 0) for i in (0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 13, 14)]
    t += [(misc + i, 0, 0) for i in (0, 2, 3, 10, 12)]
    t += [((1 if K == 13 else 2) << 8, 0xff, 0)]
    gl = ([] if K == 13 else [12, 13, 14, 15, 47]) + list(range(16, 47))
    t += [(g << mw, M, 0) for g in gl]
    for g in range(48, 64, 4):
        t += [(g << mw, (4 << mw) - 1, 1)] * 2
    if K == 13:
        t += [(x, 0xef, 0) for x in (0x200, 0x210, 0x300, 0x310)] * 2
        t += [(x << 8, 0xff, 0) for x in (0x10, 0x11, 0x12, 0x14, 0x15, 0x16, 0x17)]
        t += [(0x60, 0x1f, 1), (0x80, 0x1f, 1), (0xa0, 0x1f, 1), (0xe0, 0x1e, 0), (0xe1, 0x1e, 0), (0x1800, 0x3ff, 0), (0x1c00, 0x3ff, 0)]
    else:
        t += [(g << mw, (4 << mw) - 1, 0) for g in (64, 68, 72, 76)] * 2
        ib = 0x28 if K == 14 else 0x50
        t += [(ib + i << 8, 0xff, 0) for i in range(8)]
        t += [((8 if K == 14 else 92) << mw, (4 << mw) - 1, 1)]
        t += [(x, IO, 1) for x in ((0xc0, 0x180, 0x1c0) if K == 14 else (0x80, 0x100, 0x180))]
        t += [(7 << mw, M - 1, 0), (7 << mw | 1, M - 1, 0)]
        j = 2048 if K == 14 else 4096
        t += [(6 * j, j - 1, 0), (7 * j, j - 1, 0)]
    return t


class Pdk(Cpu):
    name = "Pdk"
    sim = "pdk"
    regs = ["PC", "A", "F", "SP"]
    spaces = [("rom", 0x2000, 0), ("ram", 0x200, 0), ("regs8", 0x80, 0)]
    nofill = (2,)
    ticks = False

    def __init__(self, K):
        self.K = K
        self.args = ("-t", "PDK%d" % K)
        self.io = [8] + list(range(0x10, 0x20)) + (list(range(0x20, 0x40)) if K > 13 else []) + (list(range(0x50, 0x80)) if K > 14 else [])
        self.setup = Cpu.setup + ("fill regs8 8 8 0", "fill regs8 0x10 0x1f 0", "fill regs8 0x20 0x3f 0", "fill regs8 0x50 0x7f 0")
        self.wins = [(1, 0, 0x3f), (2, 0x10, 0x1f)]

    def digits(self, sp):
        return (4, 2, 2)[sp]

    def areas(self, sp):
        return [(8, 8), (0x10, 0x3f), (0x50, 0x7f)] if sp == 2 else [(0, self.spaces[sp][1] - 1)]

    def regmask(self, n):
        return 0xffff if n == "PC" else 0xff

    def ops(self):
        return table(self.K)

    def deep(self):
        mw = self.K - 7
        return [(g << mw, (1 << mw) - 1, 0) for g in list(range(16, 20)) + list(range(24, 28)) + [32, 33, 34, 35, 36, 37, 44, 45]] * 8

    def case(self, rng, op):
        b = lambda: rng.choice([rng.randrange(256)] * 3 + [0, 1, 0x7f, 0x80, 0xff, 0x0f, 0x10])
        K = self.K
        f, v, io = op
        code = f | rng.randrange(1 << 16) & v
        if io:
            iw = 1 << K - 8
            code = code & ~(iw - 1) | rng.choice(self.io + [0, 2, 0, 2])
        pc = rng.randrange(0, 0xef0)
        sp = rng.randrange(2, 0xfb)
        r = {"PC": pc, "A": b(), "F": rng.randrange(16), "SP": sp}
        w = {}
        for a in range(0, 256):
            if rng.random() < .03:
                w[(1, a)] = b()
        for a in self.io:
            if rng.random() < .1:
                w[(2, a)] = b()
        ma = code & (1 << K - 7) - 1
        w[(1, ma)] = rng.choice([b(), b(), r["A"], 255, 1])
        if v & 0xff == v and f >> 8 in ((0x12,) if K == 13 else (0x2a, 0x2b) if K == 14 else (0x52, 0x53)) and rng.random() < .4:
            r["A"] = code & 255
        w[(1, sp - 1)] = rng.randrange(16)
        w[(1, sp - 2)] = b()
        w[(0, pc)] = code
        return {"r": r, "w": [(s, a, x) for (s, a), x in w.items()], "h": {"K": K}}

    def code(self, case):
        return dict(((s, a), v) for s, a, v in case["w"]).get((0, case["r"]["PC"]), 0) if len(case["w"][0]) == 3 else dict(map(tuple, case["w"]))[case["r"]["PC"]]

    def describe(self, case, sess, li):
        return "code %04x" % self.code(case)

    def key(self, case):
        c = self.code(case)
        for f, v, io in sorted(table(self.K), key=lambda x: x[1]):
            if c & ~v & 0xffff == f:
                return "%04x" % f
        return "?"
