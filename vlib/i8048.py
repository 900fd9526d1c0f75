from .isa import Cpu

UNDEF = {1, 6, 0x0b, 0x22, 0x33, 0x38, 0x3b, 0x63, 0x66, 0x73, 0x82, 0x87, 0x8b, 0x9b, 0xa2, 0xa6, 0xb7, 0xc0, 0xc1, 0xc2, 0xc3, 0xd6,
         0xe0, 0xe1, 0xe2, 0xf3, 5}              # 5: EN I (interrupts are left open)
ALL = [o for o in range(256) if o not in UNDEF]
# instructions the 8021 does not have
NOT21 = ({2, 0x25, 0x35, 0x26, 0x36, 0x15, 0x75, 0x76, 0x80, 0x81, 0x91, 0x85, 0x86, 0x88, 0x89, 0x8a, 0x93, 0x95, 0x98, 0x99, 0x9a, 0xa5, 0xb5, 0xb6, 0xc5, 0xd5, 0xc7, 0xd7,
          0xe3, 0xe5, 0xf5, 0x84, 0x94, 0xa4, 0xb4, 0xc4, 0xd4, 0xe4, 0xf4} | {0x12 + 32 * i for i in range(8)} | set(range(0xc8, 0xd0)))
COMMON = ["PC", "ACC", "psw", "T1", "timer0", "timer0_mode", "timer0_flag", "port1_odr", "port1_pin", "port2_odr", "port2_pin"] + \
         ["pext0_%s%d" % (x, i) for x in ("pin", "odr") for i in range(4, 8)]


class I8048(Cpu):
    name = "I8048"
    sim = "i8048"

    def __init__(self, K):
        self.K = K
        self.args = ("-t", {8: "I8050", 1: "I8021"}[K])
        self.spaces = [("rom", 0x1000, 0), ("iram", 256, 0), ("xram", 256, 0)] if K == 8 else [("rom", 0x400, 0), ("iram", 64, 0)]
        self.regs = COMMON + (["F1", "DBF", "T0", "INT", "timer0_int_enabled", "bus_in", "bus_out"] if K == 8 else ["port0_odr", "port0_pin"])
        self.wins = [(1, 0, 0x3f)]

    def regmask(self, n):
        return 0xfff if n == "PC" else 0xff

    def ops(self):
        return [o for o in ALL if self.K == 8 or o not in NOT21]

    def deep(self):
        return [0x57] * 120 + list(range(0x60, 0x62)) * 10 + list(range(0x70, 0x72)) * 10 + list(range(0xe8, 0xf0)) * 8 + [0xb3, 0xa3] * 10

    def case(self, rng, op):
        b = lambda: rng.choice([rng.randrange(256)] * 3 + [0, 1, 0x7f, 0x80, 0xff, 0x0f, 0xf0])
        bit = lambda: rng.randrange(2)
        K8 = self.K == 8
        top = 0x1000 if K8 else 0x400
        pc = rng.choice([rng.randrange(top - 2)] * 3 + [256 * rng.randrange(top // 256) + rng.choice([0xfd, 0xfe, 0xff, 0]), 0x7fe, 0x7ff])
        if pc > top - 3:
            pc = rng.choice([0xfe, 0x2ff]) if not K8 else pc
        if op == 0xe3:
            pc %= 0x800                                # from which bank MOVP3 reads there is left open
        n = b()
        r = {"psw": rng.randrange(256) | (8 if K8 else 0x18), "ACC": b(), "T1": bit(), "timer0_mode": 0, "timer0": b(),
             "timer0_flag": bit(), "port1_odr": b(), "port1_pin": b(), "port2_odr": b() if K8 else b() & 15, "port2_pin": b() if K8 else b() & 15}
        for i in range(4, 8):
            r["pext0_pin%d" % i] = rng.randrange(16)
            r["pext0_odr%d" % i] = rng.randrange(16)
        if K8:
            r.update(F1=bit(), DBF=bit(), T0=bit(), INT=1 if rng.random() < .5 else 0, timer0_int_enabled=bit(), bus_in=b(), bus_out=b())
        else:
            r.update(port0_odr=b(), port0_pin=b())
        if op == 0x57:
            r["ACC"] = 16 * rng.choice([0, 3, 8, 9, 9, 0xa, 0xf]) + rng.choice([0, 2, 5, 6, 9, 0xa, 0xb, 0xf])
        w = {}
        inc = lambda a: a & 0x800 | (a + 1) & 0x7ff
        bank = 24 if K8 and r["psw"] & 16 else 0
        p0, p1 = (rng.randrange(256) if K8 else rng.randrange(64) for i in "ab")
        w[(1, bank)] = p0
        w[(1, bank + 1)] = p1
        for i in range(2, 8):
            if rng.random() < .3:
                w[(1, bank + i)] = b()
        for i in range(4):
            w[(1, rng.randrange(8, 24))] = b()
        if 0xe8 <= op < 0xf0:
            w[(1, bank + op - 0xe8)] = rng.choice([1, 1, 0, 2, b()])
        if (1, p0) not in w:
            w[(1, p0)] = b()
        if (1, p1) not in w:
            w[(1, p1)] = b()
        if K8 and op in (0x80, 0x81):
            w[(2, w[(1, bank + op - 0x80)])] = b()
        for a in ((inc(pc) & 0xf00) + r["ACC"], 0x300 + r["ACC"]):
            if rng.random() < .8:
                w[(0, a)] = b()
        w[(0, pc)] = op
        w[(0, inc(pc))] = n
        if not K8:
            w = {(s, a): v for (s, a), v in w.items() if s or a < 0x400}
        r["PC"] = pc
        return {"r": r, "w": [(s, a, v) for (s, a), v in w.items()], "h": {"K": self.K}, "pre": ["expr timer0_pre16=0,timer0_pre=0"]}

    def opcode(self, case):
        for x in case["w"]:
            s, a, v = x if len(x) == 3 else (x[0] >> 20, x[0] & 0xfffff, x[1])
            if s == 0 and a == case["r"]["PC"]:
                return v
        return 0

    def describe(self, case, sess, li):
        return "code %02x" % self.opcode(case)

    key = lambda self, case: "%02x" % self.opcode(case)
