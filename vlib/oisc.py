from .isa import Cpu

SRC = [[0xfff0 + i for i in range(8)] + [0xffff], [0, 1, 2, 3, 7, 8]]
DST = [[0xfff0 + i for i in range(8)] + [0xffff], [0, 1, 2, 4, 7, 8, 9, 11, 12, 13, 14, 15]]
SRC += [SRC[1] + [5, 6, 10]]
DST += [DST[1] + [5, 6, 10]]


class Oisc(Cpu):
    name = "Oisc"
    sim = "oisc"
    spaces = [("rom", 65536, 1)]
    nofill = (0,)
    wins = []
    ticks = False
    setup = Cpu.setup + ("fill rom 0x10 0xffef 1",)

    def __init__(self, kind):
        self.kind = kind
        self.args = ("-t", ("URISC", "MISC16", "EM")[kind])
        self.regs = [["PC", "A", "F"], ["PC", "A", "C"], ["PC", "A", "C", "P"]][kind]

    def digits(self, sp):
        return 4

    def areas(self, sp):
        return [(16, 0xffef)]

    def regmask(self, n):
        return {"F": 15, "C": 1}.get(n, 0xffff)

    def ops(self):
        k = self.kind
        return [(s, d) for s in SRC[k] + [None] for d in DST[k] + [None] if not (k == 2 and s in (6, 10) and d in (6, 10))]

    def case(self, rng, op):
        s, d = op
        v16 = lambda: rng.choice([rng.randrange(65536)] * 3 + [0, 1, 2, 0x7fff, 0x8000, 0xffff, rng.randrange(256)])
        plain = lambda: rng.randrange(16, 0xffee)
        pc = rng.randrange(16, 0xffec)
        far = lambda x: 16 <= x < 0xffee and not pc - 2 <= x <= pc + 3
        while 1:
            r = {"PC": pc, "A": v16()}
            r.update({"F": rng.randrange(16)} if self.kind == 0 else {"C": rng.randrange(2)})
            if self.kind == 2:
                r["P"] = plain()
                if not far(r["P"]):
                    continue
            if self.kind and (s in (7, 10) or d in (7, 10)):
                r["A"] = plain()
                if not far(r["A"]):
                    continue
            sa = plain() if s is None else s
            da = plain() if d is None else d
            if (s is None and not far(sa)) or (d is None and not far(da)):
                continue
            break
        w = {}
        for x in ((sa,) if s is None else ()) + ((r["A"],) if self.kind and s in (7, 10) else ()) + ((r["P"],) if s == 6 and self.kind else ()):
            w[x] = rng.choice([v16()] * 3 + [r["A"], (r["A"] + 1) & 0xffff, (r["A"] ^ 0xffff)])
        w[pc], w[pc + 1] = sa, da
        h = {"K": self.kind}
        for n in ("F", "C", "P"):
            if n not in r:
                h[n] = 0
        return {"r": r, "w": [(0, x, v) for x, v in w.items()], "h": h}

    def code(self, case):
        d = {x[-2]: x[-1] for x in case["w"]}
        return d[case["r"]["PC"]], d[case["r"]["PC"] + 1]

    def describe(self, case, sess, li):
        return "move %04x to %04x" % self.code(case)

    def key(self, case):
        f = lambda x: "%04x" % x if x < 16 or x >= 0xfff0 else "mem"
        return "%s>%s" % tuple(f(x) for x in self.code(case))
