from .isa import Cpu


class Mcs51(Cpu):
    name = "Mcs51"
    sim = "s51"
    args = ["-t", "52", "-X", "12M"]
    regs = ["PC"]
    spaces = [("iram", 256, 0), ("sfr", 256, 0), ("xram", 65536, 0x5a), ("rom", 65536, 0)]
    nofill = (1,)
    wins = [(0, 0, 255), (1, 0x80, 0xff)]

    def regmask(self, n):
        return 0xffff

    # SFRs without side effects on the clock while everything is switched off
    SFRS = [0xe0, 0xf0, 0xd0, 0x81, 0x82, 0x83]

    def gen(self, rng, n, ops=None):
        for i in range(n):
            op = ops[i % len(ops)] if ops else rng.randrange(256)
            yield self.case(rng, op)

    def case(self, rng, op):
        if op == 0xa5:
            op = 0
        b = lambda: rng.choice([rng.randrange(256), rng.randrange(256), rng.randrange(256),
                                0, 1, 0x7f, 0x80, 0xff, 9, 0x99])

        def direct():
            return rng.choice([rng.randrange(128), rng.randrange(128), rng.choice(self.SFRS)])

        def bitaddr():
            return rng.choice([rng.randrange(128), rng.randrange(128),
                               rng.choice([0xe0, 0xf0, 0xd0]) + rng.randrange(8)])
        pc = rng.choice([rng.randrange(65536), 0x100 + rng.randrange(64), 0x7fd + rng.randrange(4),
                         0xfffd + rng.randrange(3)])
        b1, b2 = b(), b()
        lo, hi = op & 15, op >> 4
        if lo == 5 and op != 0xa5 or op in (0x42, 0x43, 0x52, 0x53, 0x62, 0x63, 0xc0, 0xd0):
            b1 = direct()
        if op == 0x85:
            b2 = direct()
        if lo >= 6 and hi in (8, 10):
            b1 = direct()
        if op in (0x10, 0x20, 0x30, 0x72, 0x82, 0xa0, 0xb0, 0x92, 0xa2, 0xb2, 0xc2, 0xd2):
            b1 = bitaddr()
        psw = b() & 0xfe
        a = b()
        par = bin(a).count("1") & 1
        bank = psw & 0x18
        w = {(3, pc): op, (3, (pc + 1) & 0xffff): b1, (3, (pc + 2) & 0xffff): b2,
             (1, 0xe0): a, (1, 0xd0): psw | par, (1, 0xf0): b(), (1, 0x81): b(),
             (1, 0x82): b(), (1, 0x83): b(), (1, 0xa0): b()}
        for k in range(rng.randrange(1, 5)):
            w[(0, rng.randrange(256))] = b()
        for k in (0, 1, rng.randrange(8)):
            w[(0, bank + k)] = b()
        # make @Ri operands, stack top and bytes at the direct address vary
        w[(0, w[(0, bank + (op & 1))])] = b()
        if rng.random() < .5:
            w[(0, b1 & 0x7f)] = b()
        sp = w[(1, 0x81)]
        w[(0, sp)] = b()
        w[(0, (sp - 1) & 255)] = b()
        if op in (0x93, 0x83):
            t = ((w[(1, 0x83)] << 8) + w[(1, 0x82)] + a) if op == 0x93 else pc + 1 + a
            w.setdefault((3, t & 0xffff), b())
        if op in (0xe0, 0xe2, 0xe3):
            r = w[(0, bank + (op & 1))]
            t = (w[(1, 0x83)] << 8) + w[(1, 0x82)] if op == 0xe0 else (w[(1, 0xa0)] << 8) + r
            w[(2, t)] = b()
        if (op & 0xf0) == 0xb0 and op & 15 >= 4 and rng.random() < .3:
            # equal operands for CJNE
            w[(3, (pc + 1) & 0xffff)] = a if op == 0xb4 else w[(3, (pc + 1) & 0xffff)]
        return {"r": {"PC": pc}, "w": [(s, ad, v) for (s, ad), v in w.items()]}

    def describe(self, case, sess, li):
        pc = case["r"]["PC"]
        d = dict(map(tuple, case["w"]))
        return "opcode 0x%02x at 0x%04x" % (d.get(3 * (1 << 20) + pc, -1), pc)
