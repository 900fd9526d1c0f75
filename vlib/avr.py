from .isa import Cpu

ONE = [  # (fixed bits, variable bits)
    (0x0000, 0), (0x0400, 0x3ff), (0x0800, 0x3ff), (0x0c00, 0x3ff), (0x1000, 0x3ff), (0x1400, 0x3ff), (0x1800, 0x3ff), (0x1c00, 0x3ff),
    (0x2000, 0x3ff), (0x2400, 0x3ff), (0x2800, 0x3ff), (0x2c00, 0x3ff), (0x3000, 0xfff), (0x4000, 0xfff), (0x5000, 0xfff), (0x6000, 0xfff),
    (0x7000, 0xfff), (0x8000, 0x2df7), (0x8008, 0x2df7), (0x8200, 0x2df7), (0x8208, 0x2df7)]
ONE += [(0x9000 | w << 9 | k, 0x1f0) for w in (0, 1) for k in (1, 2, 9, 10, 12, 13, 14, 15)]
ONE += [(0x9400 | k, 0x1f0) for k in (0, 1, 2, 3, 5, 6, 7, 10)]
ONE += [(0x9408, 0x70), (0x9488, 0x70), (0x95c8, 0), (0x9409, 0), (0x9509, 0), (0x9508, 0), (0x9518, 0), (0x9588, 0), (0x95a8, 0),
        (0x9600, 0xff), (0x9700, 0xff), (0x9800, 0xff), (0x9900, 0xff), (0x9a00, 0xff), (0x9b00, 0xff), (0x9c00, 0x3ff),
        (0xb000, 0x7ff), (0xb800, 0x7ff), (0xc000, 0xfff), (0xd000, 0xfff), (0xe000, 0xfff), (0xf000, 0x3ff), (0xf400, 0x3ff),
        (0xf800, 0x1f7), (0xfa00, 0x1f7), (0xfc00, 0x1f7), (0xfe00, 0x1f7)]
TWO = [(0x9000, 0x1f0), (0x9200, 0x1f0), (0x940c, 0), (0x940e, 0)]
ARITH = [0x0400, 0x0800, 0x0c00, 0x1400, 0x1800, 0x1c00, 0x3000, 0x4000, 0x5000, 0x9401, 0x9403, 0x9405, 0x9407, 0x940a, 0x9600, 0x9700, 0x9c00]
SKIP = [0x1000, 0x9900, 0x9b00, 0xfc00, 0xfe00]


class Avr(Cpu):
    name = "Avr"
    sim = "avr"
    regs = ["PC"]
    spaces = [("rom", 65536, 0), ("iram", 65536, 0)]
    wins = [(1, 0, 0x5f)]
    setup = Cpu.setup + ("memory create chip sram 0xff80 8", "memory create addressdecoder iram 0x80 0xffff sram 0")

    def digits(self, sp):
        return (4, 2)[sp]

    def regmask(self, n):
        return 0xffff

    def ops(self):
        return [o for o in ONE + TWO]

    def deep(self):
        return [o for o in ONE if o[0] in ARITH] * 6 + [o for o in ONE if o[0] in SKIP] * 4

    def fill(self, rng, op):
        f, v = op
        return f | rng.randrange(65536) & v

    def case(self, rng, op):
        b = lambda: rng.choice([rng.randrange(256)] * 3 + [0, 1, 0x7f, 0x80, 0xff, 0x0f, 0x10])
        pc = rng.choice([rng.randrange(0x10000)] * 6 + [0xfffe, 0xffff, 0xfffd, 0])
        word = self.fill(rng, op)
        f = op[0]
        if f in ARITH[:6] and rng.random() < .15:
            word = word & 0xfc00 | rng.choice([0x3ff & (d << 4 | d & 15 | (d & 16) << 5) for d in range(32)])
        if f & 0xfc00 == 0x9000 and f & 15 in (1, 2, 9, 10, 13, 14):
            p = {1: 30, 2: 30, 9: 28, 10: 28, 13: 26, 14: 26}[f & 15]
            while (word >> 4 & 31) in (p, p + 1):
                word = self.fill(rng, op)
        nw = rng.randrange(65536)
        if f in (0x9000, 0x9200):
            nw = rng.choice([rng.randrange(65536), rng.randrange(96), rng.randrange(0x60, 0x200), 0xffff, 95])
        elif f in SKIP:
            nw = self.fill(rng, rng.choice(TWO if rng.random() < .4 else ONE))
        w = {(0, pc): word, (0, (pc + 1) & 0xffff): nw}
        for i in range(32):
            w[(1, i)] = b()
        ptr = lambda: rng.choice([rng.randrange(0x60, 0x10000)] * 4 + [rng.randrange(0x60, 0x180), 0xffff, 0xff, 0x100, 0x1ff])
        ps = [ptr() for _ in range(3)]
        if f & 0xd000 == 0x8000 or f in (0x900c, 0x920c):       # no side effect on the pointer: any cell
            ps = [rng.choice([p, p, rng.randrange(96), 0xfff8 + rng.randrange(8)]) for p in ps]
        if f not in ARITH and (f < 0x8000 or f > 0x9100 and f not in (0x95c8, 0x9409, 0x9509) and f & 0xfc00 != 0x9000):
            ps = [None] * 3
        for p, v in zip((26, 28, 30), ps):
            if v is not None and f not in ARITH:
                w[(1, p)], w[(1, p + 1)] = v & 255, v >> 8
                for k in (-1, 0, 1):
                    a = v + k & 0xffff
                    if a >= 0x60 and rng.random() < .9:
                        w[(1, a)] = b()
        if f == 0x95c8:
            w[(0, (w[(1, 30)] | w[(1, 31)] << 8) >> 1)] = rng.randrange(65536) if ((w[(1, 30)] | w[(1, 31)] << 8) >> 1) != pc else word
        if f in ARITH and rng.random() < .3 and f in (0x9600, 0x9700):
            p = 24 + 2 * (word >> 4 & 3)
            k = word & 15 | (word >> 2 & 0x30)
            v = rng.choice([k, k - 1, 0x8000 + k, 0x8000 + k - 1, 0x7fff, 0xffff - k, 0x10000 - k, 0, 0x8000 - k]) & 0xffff
            w[(1, p)], w[(1, p + 1)] = v & 255, v >> 8
        if f == 0x1000 and rng.random() < .5:
            w[(1, word >> 4 & 31)] = w[(1, word & 15 | word >> 5 & 16)]
        if f in (0x9000, 0x9200) and nw >= 0x60:
            w[(1, nw)] = b()
        for i in range(32, 93):
            if rng.random() < .2:
                w[(1, i)] = b()
        if f in (0x9800, 0x9900, 0x9a00, 0x9b00):
            w[(1, 32 + (word >> 3 & 31))] = b()
        if f in (0xb000, 0xb800):
            w[(1, 32 + (word & 15 | word >> 5 & 0x30))] = b()
        sp = rng.choice([rng.randrange(0x63, 0x10000)] * 3 + [rng.randrange(0x63, 0x180), 0xffff, 0xfffe, 0x100, 0xff])
        w[(1, 93)], w[(1, 94)] = sp & 255, sp >> 8
        for k in (1, 2):
            if sp + k < 0x10000:
                w[(1, sp + k)] = b()
        w[(1, 95)] = rng.randrange(256)
        return {"r": {"PC": pc}, "w": [(s, a, x) for (s, a), x in w.items()]}

    def describe(self, case, sess, li):
        d = dict(map(tuple, case["w"]))
        pc = case["r"]["PC"]
        return "code %04x %04x" % (d.get(pc, 0), d.get(pc + 1 & 0xffff, 0))

    def key(self, case):
        w = dict(map(tuple, case["w"]))[case["r"]["PC"]]
        for f, v in ONE + TWO:
            if w & ~v & 0xffff == f:
                return "%04x" % f
        return "?"
