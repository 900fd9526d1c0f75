from .i8048 import I8048

TIMER = (0x16, 0x42, 0x62, 0x45, 0x55, 0x65)      # instructions that look at the timer


class I48Int(I8048):
    name = "I48Int"

    def __init__(self, K):
        I8048.__init__(self, K)
        if K == 8:
            self.regs = self.regs + ["timer0_int_request"]

    def ops(self):
        o = I8048.ops(self)
        t = [x for x in TIMER] * 12
        if self.K == 8:
            t += [5] * 40 + [0x15] * 12 + [0x25, 0x35] * 12 + [0x93] * 70 + [4, 0x24, 0x84, 0x14, 0x54, 0xe5, 0xf5] * 5 + [0] * 60
        return o + t + [0] * 40

    def deep(self):
        return []

    def session(self, rng, ops):
        self.first = True
        return [self.case(rng, o) for o in ops]

    def case(self, rng, op):
        if op == 5:
            c = I8048.case(self, rng, 0)
            c["w"] = [(s, a, 5 if s == 0 and a == c["r"]["PC"] else v) for s, a, v in c["w"]]
        else:
            c = I8048.case(self, rng, op)
        r, h = c["r"], c["h"]
        K8 = self.K == 8
        mode = rng.choice([0, 1, 1, 2, 2, 2])
        r.update(timer0_mode=mode, timer0=rng.choice([rng.randrange(256), 0xff, 0xff, 0xfe, 0]), timer0_flag=rng.randrange(2))
        quiet = op in TIMER or op in (0x93, 5, 0x25, 0x35)     # nothing happens to the timer meanwhile
        if K8:
            ien = rng.choice([0, 1, 1])
            r.update(timer0_int_enabled=ien, INT=int(rng.random() < .7 or op in (0x93, 5)))
            r["timer0_int_request"] = int(ien and rng.random() < .12 and not quiet)
        pre16, pre = (rng.randrange(6), rng.randrange(31)) if quiet else rng.choice([(rng.randrange(16), 31), (rng.randrange(16), rng.randrange(32)), (12, 31)])
        edges = 0
        c["pre"] = ["expr timer0_pre16=%d,timer0_pre=%d" % (pre16, pre)]
        if rng.random() < .5 and (mode == 1 or rng.random() < .3) and op not in (0x93, 5, 0x25):
            t = r["T1"]
            for i in range(rng.randrange(1, 6)):
                v = rng.randrange(2)
                c["pre"].append("expr T1=%d" % v)
                edges += t > v
                t = v
            h["T1"] = t
        h.update(pre16=pre16, pre=pre, edges=edges)
        if self.first:
            if K8:
                h.update(ene=0, isr=0)
            self.first = False
        return c
