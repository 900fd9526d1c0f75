from .isa import Cpu


def legal():
    out = []
    for op in range(256):
        hi, lo = op >> 4, op & 15
        if hi in (0, 1):
            p = (0, 0x92)
        elif hi == 2:
            p = (0, 0x92) if lo < 14 else ()           # 2e, 2f test the interrupt pin
        elif op == 0x42:
            p = (0, 0x90)
        elif 3 <= hi <= 7:
            if lo in (1, 2, 5, 11):
                p = ()
            else:
                p = {3: (0, 0x92), 4: (0,), 5: (0, 0x90), 6: (0, 0x90, 0x91, 0x92), 7: (0, 0x90)}[hi]
        elif hi == 8:
            p = {0: (0,), 1: (0,), 4: (0,), 5: (0, 0x90), 6: (0,), 8: (0,), 9: (0, 0x90), 10: (0,)}.get(lo, ())
        elif hi == 9:
            p = () if lo < 3 else (0, 0x90) if lo in (3, 4, 6, 7, 15) else (0,)
        elif hi == 10:
            p = () if lo in (7, 12, 15) else (0, 0x90) if lo in (3, 14) else (0, 0x92) if lo == 13 else (0,)
        elif hi in (11, 12):
            p = (0, 0x92) + ((0x90, 0x91) if lo in (3, 14, 15) else ())
        elif hi in (13, 14):
            p = (0, 0x90, 0x91, 0x92)
        else:
            p = (0, 0x90)
        out += [(x, op) for x in p]
    return out


class ST7(Cpu):
    name = "ST7"
    sim = "st7"
    regs = ["PC", "A", "CC", "X", "Y", "SP"]
    spaces = [("rom", 0x10000, 0)]
    wins = [(0, 0, 0xff)]

    def regmask(self, n):
        return 0xffff if n in ("PC", "SP") else 0xff

    def load(self, cases, wd):
        return ["step"]                                # the first one loads PC from the reset vector

    def ops(self):
        return legal()

    def deep(self):
        return [(p, o) for p, o in legal() if o in (0x40, 0x42, 0x46, 0x49, 0x57, 0xa0, 0xa1, 0xa2, 0xa3, 0xa9, 0xab) for i in range(8)]

    def case(self, rng, pop):
        p, op = pop
        hi, lo = op >> 4, op & 15
        b = lambda: rng.choice([rng.randrange(256)] * 3 + [0, 1, 0x7f, 0x80, 0xff, 0x0f, 0x10, 0x81])
        A, X, Y = b(), b(), b()
        pc = rng.choice([0x1000, 0x2ffd, 0x7f80, 0x80fe, 0xc0ff, 0x4400, rng.randrange(0x400, 0xfd00)])
        sp = rng.choice([0x17f, 0x140, 0x111, rng.randrange(0x110, 0x170)])
        w = {}
        if op in (0x94, 0x95):
            sp = sp
        k1, k2 = b(), rng.randrange(256)
        ind = p in (0x91, 0x92)
        ix = Y if p in (0x90, 0x91) else X
        word = hi in (12, 13)
        long = rng.choice([rng.randrange(0x200, 0xfff0), rng.randrange(0x200, 0x300), rng.randrange(0xff80, 0xfff0), k1 << 8 | k2, rng.randrange(256)])
        if hi == 13 and 0xfff0 <= long + ix < 0x10000:
            long &= 0xfe0f
        if word and not ind:
            k1, k2 = long >> 8, long & 255
        if ind:
            k1 = rng.randrange(0xf0)
            if word:
                w[(0, k1)], w[(0, k1 + 1)] = long >> 8, long & 255
            else:
                w[(0, k1)] = b()
        short = w.get((0, k1), 0) if ind else k1
        ea = {0: short, 1: short, 3: short, 11: short, 12: long, 13: (long + ix) & 0xffff, 6: short + ix, 14: short + ix, 7: ix, 15: ix}.get(hi)
        code = ([p] if p else []) + [op, k1, k2]
        if ea is not None:
            w.setdefault((0, ea), b())
            if pc <= ea < pc + 5:
                pc = 0x3000 if ea > 0x4000 else 0x5000
        if op in (0x80, 0x81, 0x84, 0x85, 0x86):
            vals = [b() for i in range(5)]
            if op in (0x80, 0x86):
                vals[0] &= 31
            for i, v in enumerate(vals):
                w[(0, sp + 1 + i)] = v
        for i, v in enumerate(code):
            w[(0, pc + i)] = v
        return {"r": {"PC": pc, "A": A, "X": X, "Y": Y, "SP": sp, "CC": rng.randrange(32)}, "w": [(s, a, v) for (s, a), v in w.items()]}

    def opcode(self, case):
        m = {}
        for x in case["w"]:
            s, a, v = x if len(x) == 3 else (x[0] >> 20, x[0] & 0xfffff, x[1])
            m[a] = v
        pc = case["r"]["PC"]
        p = m.get(pc, 0)
        return "%02x %02x" % (p, m.get(pc + 1, 0)) if p in (0x90, 0x91, 0x92) else "%02x" % p

    def describe(self, case, sess, li):
        return "code " + self.opcode(case)

    key = lambda self, case: self.opcode(case)
