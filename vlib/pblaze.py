import re
from .isa import Cpu

ALU3 = [0, 2, 3, 5, 6, 7, 9, 10, 12, 13, 14, 15, 22, 23]
ALU6 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 14, 15, 22, 23]
SH = [0, 2, 4, 6, 7, 8, 10, 12, 14, 15]


class Pblaze(Cpu):
    name = "Pblaze"
    sim = "pblaze"
    regs = ["PC"]

    def __init__(self, K):
        self.K = K
        self.args = ("-t", "KCPSM%d" % K)
        self.spaces = [("rom", 0x400, 0), ("sfr", 0x22, 0), ("iram", 64, 0), ("stack", 31 if K == 3 else 30, 0)]
        self.wins = [(1, 0, 0x21), (2, 0, 0x3f)]
        self.post = ("info registers", "info hardware output_port[0]", "info hardware port_id[0]")

    def digits(self, sp):
        return (5, 2, 2, 3)[sp]

    def regmask(self, n):
        return 0xfff

    def postparse(self, txt):
        g = lambda e, b: int(re.search(e, txt).group(1), b)
        q = {"outv": g(r"output port: +([0-9A-F]+)", 16) & 255, "port": g(r"Port ID value: (\d+)", 10) & 255}
        if self.K == 6:
            q["bank"] = int(re.search(r"Active regbank= (\w)", txt).group(1) == "B")
        return q

    def ops(self):
        """(kind, main code)"""
        K6 = self.K == 6
        o = [("c" if (c % 2 == 1) == K6 else "r", c) for a in (ALU6 if K6 else ALU3) for c in (2 * a, 2 * a + 1)]
        o += [("s", k) for k in SH]
        if K6:
            o += [("k", c) for c in (32, 33, 34, 43, 48, 52, 56, 60, 50, 54, 58, 62)] + [("r", c) for c in (22, 36, 38)]
            o += [("0", c) for c in (37, 49, 53, 57, 61)] + [("i", 40), ("i", 41), ("i", 55), ("i", 55), ("h", 20)]
        else:
            o += [("k", c) for c in (48, 52)] + [("q", c) for c in (49, 53, 43)] * 3 + [("0", 42), ("i", 56), ("i", 60)]
        return o + [("bad", 0)]

    def deep(self):
        return []

    def session(self, rng, ops):
        self.first = True
        self.bank = 0
        return [self.case(rng, o) for o in ops]

    def code(self, rng, op):
        k, c = op
        x, y, kk = rng.randrange(16), rng.randrange(16), rng.choice([rng.randrange(256), 0, 255, 128, 1])
        if k == "c":
            if self.K == 3 and c in (6, 46):
                kk &= 63                               # six bits of address
            return c << 12 | x << 8 | kk
        if k == "r":
            return c << 12 | x << 8 | y << 4
        if k == "s":
            return (20 if self.K == 6 else 32) << 12 | x << 8 | c
        if k == "h":
            return 20 << 12 | x << 8 | 128
        if k == "0":
            return c << 12
        if k == "i":
            return c << 12 | rng.randrange(2)
        if k == "q":
            return c << 12 | rng.randrange(4) << 10 | (rng.randrange(1024) if c != 43 else 0)
        if k == "k":
            v = rng.randrange(4096) if c in (33, 43) else rng.randrange(1024)
            if self.K == 6 and c in (32, 34):
                v &= 0x3ff
            return c << 12 | v
        if self.K == 6:
            return rng.choice([0x17000, 0x2a000, 0x3f000, 0x37002, 0x28002, 0x25001, 0x14001, 0x14005, 0x00001, 0x2e007, 0x33000])
        return rng.choice([0x02000, 0x2a001, 0x3c002, 0x38003, 0x20001, 0x20005, 0x01001, 0x22000, 0x30400, 0x34800, 0x06040, 0x2e080])

    def case(self, rng, op):
        code = self.code(rng, op)
        b = lambda: rng.choice([rng.randrange(256)] * 3 + [0, 1, 0x7f, 0x80, 0xff, 0x55])
        pc = rng.choice([rng.randrange(0x3ff)] * 6 + [0, 0xff, 0x100, 0x3fe, 0x3ff])
        if self.K == 6 and pc == 0x3ff:
            pc = 0x3fe
        w = {}
        x, y = code >> 8 & 15, code >> 4 & 15
        for a in {x, y, x + 16, y + 16, rng.randrange(32)}:
            w[(1, a)] = b()
        if rng.random() < .25:
            w[(1, y)] = w[(1, x)] if y != x else w[(1, x)]
            w[(1, y + 16)] = w[(1, x + 16)]
        if op[1] in (36, 38) and op[0] == "r":         # addresses that exist
            for a in (x, x + 16):
                w[(1, a)] = w[(1, a)] & 0xf0 | rng.randrange(4)
        bad = int(op[0] == "bad")
        isint = op[0] == "i" and op[1] != 55
        irq = int(not bad and not isint and rng.random() < .2)
        w[(1, 0x20)] = rng.randrange(8)
        depth = 31 if self.K == 3 else 30
        sp = rng.choice([rng.randrange(depth)] * 4 + [0, depth - 1, 1])
        if self.K == 6 and not irq and rng.random() < .3:
            sp = rng.choice([0, 30])
        if irq and self.K == 6:
            sp = rng.randrange(1, 29)
        w[(1, 0x21)] = sp
        if op[1] in (36, 38) and op[0] == "r":
            for a in (x, x + 16):
                if a == y or a == y + 16:
                    pass
        down = sp - 1 if sp else 30
        if down < depth:
            w[(3, down)] = rng.choice([rng.randrange(0x3ff), rng.randrange(0x3ff), 0x3ff if self.K == 3 else 5, 0xfff])
        for i in range(3):
            w[(2, rng.randrange(64))] = b()
        for a in (code & 63, w.get((1, y), 0) & 63, w.get((1, y + 16), 0) & 63):
            w[(2, a)] = b()
        w[(0, pc)] = code
        give = b()
        h = {"irq": irq, "bad": bad, "give": give}
        if self.first:
            h.update(K=self.K, bank=0, sc=0, sz=0, sb=0, port=0, outv=0)
            self.first = False
        if op[0] == "i" and op[1] == (41 if self.K == 6 else 56):
            pass
        return {"r": {"PC": pc}, "w": [(s, a, v) for (s, a), v in w.items()], "h": h,
                "pre": ["set hardware irq[0] %d" % irq, "set hardware input_port[0] %d" % give]}

    def opcode(self, case):
        for x in case["w"]:
            s, a, v = x if len(x) == 3 else (x[0] >> 20, x[0] & 0xfffff, x[1])
            if s == 0 and a == case["r"]["PC"]:
                return v
        return 0

    def describe(self, case, sess, li):
        return "code %05x" % self.opcode(case)

    key = lambda self, case: "%02x" % (self.opcode(case) >> 12)
