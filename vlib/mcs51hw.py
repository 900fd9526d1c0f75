import os
from . import isa
from .isa import Cpu
from .mcs51 import Mcs51

P0, SP, TCON, TMOD, TL0, TL1, TH0, TH1, P1, SCON, P2, IE, P3, IP = (
    0x80, 0x81, 0x88, 0x89, 0x8a, 0x8b, 0x8c, 0x8d, 0x90, 0x98, 0xa0, 0xa8, 0xb0, 0xb8)
SBUF, PCON, T2CON, RCAP2L, RCAP2H, TL2, TH2, T2MOD = 0x99, 0x87, 0xc8, 0xca, 0xcb, 0xcc, 0xcd, 0xc9


class Mcs51Hw(Mcs51):
    """histories of instructions that use the timers and interrupts, with changing pins"""
    name = "Mcs51Hw"
    args = ["-t", "C52", "-X", "12M"]
    setup = Mcs51.setup + ("set option selfjump_stop 0",)
    # a dumped port is the level of its pins; the latches and levels are read as variables
    wins = [(0, 0, 255), (1, 0x81, 0x8f), (1, 0x91, 0x98), (1, 0x9a, 0x9f), (1, 0xa1, 0xaf), (1, 0xb1, 0xff)]
    regs = ["PC"] + ["%s%d" % (x, i) for i in range(4) for x in "LV"]
    regcmd = dict([("L%d" % i, "port%d_odr" % i) for i in range(4)] + [("V%d" % i, "port%d_value" % i) for i in range(4)])

    def __init__(self, focus="irq"):
        self.focus = focus

    def finish(self, cases, steps):
        f = cases[0].get("outf")
        if f:
            with open(f, "rb") as h:
                steps[len(cases) - 1]["q"]["OUT"] = list(h.read())

    def history(self, rng, n, files=None):
        """files: prefix of the files connected to the UART"""
        inp, pre = [], []
        if files:
            inp = [rng.choice([x for x in range(256) if x not in (10, 13)]) for _ in range(40)]
            with open(files + ".in", "wb") as h:
                h.write(bytes(inp))
            pre = ["set hardware uart[0] raw 1", 'set hardware uart[0] in "%s.in"' % files,
                   'set hardware uart[0] out "%s.out"' % files, "expr uart0_check_often=1"]
        pins = [255, 255, 255, 255]
        first, placed, last = True, (), False
        queue = [[0], [0x75, IE, 0xff], [0x75, TMOD, rng.choice([0x11, 0x22, 0x23, 0x32, 0x01, 0x10, 0x66, 0x99])], [0x75, TCON, 0x55], [0x75, T2CON, rng.choice([4, 12, 13])]]
        for i in range(n):
            c = {"r": {}, "w": [], "h": {}, "pre": []}
            w = {}
            if first:
                c["h"] = {"pins": list(pins), "e1": 255, "e3": 255, "lv": [], "u": dict(ts=False, tb=0, tc=0, to=0, rs=False, rb=0, rc=0, ro=0, inp=inp, cur=0, sb=0, out=[])}
                c["pre"] = pre
                w[(1, SP)] = 0x30
            if not queue and rng.random() < (.6 if self.focus == "uart" else .1):
                queue = self.macro(rng)
            rst = not first and i < n - 1 and rng.random() < (.02 if self.focus == "uart" else .04)
            if rst:
                c["pre"].append("reset")
                c["h"]["rst"] = 1
                queue = rng.choice([[], queue])
            keep = not first and not rst and i < n - 1 and rng.random() < .15
            touchy = True
            code = None
            if queue:
                q = queue.pop(0)
                keep = q is None and not rst and i < n - 1
                if q is not None:
                    code, touchy = q, True
                elif rng.random() < .5:
                    touchy = False
            if not keep:
                pc = 0 if rst else 0x100 + rng.randrange(0xfe00)
                if code is None:
                    code, touchy = self.instr(rng)
                if rst:         # 0 .. 2 may be executed again, from any of them
                    code = [0] * 3 if 0xa5 in code else (code + [0, 0])[:3]
                for a in placed:        # what was executed is not met again later
                    w[(3, a)] = 0
                placed = range(pc, pc + len(code))
                last = touchy
                for k, x in enumerate(code):
                    w[(3, pc + k)] = x
                if not rst:
                    c["r"]["PC"] = pc
                if not rst and rng.random() < .1:
                    w[(1, SP)] = rng.choice([7, 0x20, 0x60, 0xc0])
            else:
                touchy = touchy or last
            if i == n - 1:
                c["pre"] = ["set hardware port[%d] 0xff" % k for k in range(4)]
                c["h"]["pins"] = [255] * 4
                w[(3, pc)] = 0
            elif not rst and not touchy and rng.random() < (.6 if self.focus != "irq" else .3):
                pt = rng.choice([1, 3, 3, 0, 2])
                if pt == 3:
                    m = rng.choice([4, 8, 16, 32, 48, 12, 4, 8])
                elif pt == 1:
                    m = rng.choice([1, 2, 3])
                else:
                    m = rng.randrange(256)
                pins[pt] ^= m
                c["pre"].append("set hardware port[%d] 0x%x" % (pt, pins[pt]))
                c["h"]["pins"] = list(pins)
            c["w"] = [(s, a, v) for (s, a), v in w.items()]
            if not c["r"]:
                del c["r"]
            if first and files:
                c["outf"] = files + ".out"
            first = False
            yield c

    def macro(self, rng):
        mov = lambda a, v: [0x75, a, v]
        nib = lambda: rng.choice([0, 1, 2, 3, 2, 1])
        k = {"irq": [0, 3, 4, 4, 5], "timer": [0, 1, 1, 2, 2, 5], "port": [1, 2, 5, 5], "uart": [6, 6, 6, 6, 1, 2]}[self.focus]
        k = rng.choice(k)
        if k == 6:      # a byte (or two) through the UART
            md = rng.choice([0, 1, 1, 2, 3, 3])
            t2 = rng.choice([0, 0, 0x10, 0x20, 0x30, 0x30])
            q = [mov(IE, rng.choice([0, 0, 0x90, 0x98])), mov(PCON, rng.choice([0, 0x80])), mov(TMOD, rng.choice([0x20, 0x20, 0x22, 0x21])),
                 mov(TH1, rng.choice([255, 255, 255, 254])), mov(TL1, 255), mov(TCON, 0x40), mov(RCAP2H, 255), mov(RCAP2L, rng.choice([255, 255, 254, 250])),
                 mov(T2CON, t2 | rng.choice([4, 4, 0, 6] if t2 else [4, 0])), mov(SCON, md << 6 | rng.choice([0x10, 0x10, 0])), mov(SBUF, rng.randrange(256))]
            n = [10, 100, 60, 110][md]
            for _ in range(rng.randrange(n)):
                q.append(rng.choice([None, [0xa4], [0xa4], [0xa4], [0x84]]))
                if rng.random() < .04:
                    q.append(rng.choice([[0xe5, SBUF], [0x10, SCON, 0], [0x10, SCON + 1, 0], mov(SBUF, rng.randrange(256)), [0xd2, SCON + 4], [5, SBUF],
                                         [0xc2, SCON + rng.randrange(2)], mov(PCON, rng.choice([0, 0x80])), mov(T2CON, rng.choice([0x34, 0x14, 0x24, 4])),
                                         [0x85, SBUF, 0x41], [0xf5, SBUF], [0x25, SBUF], [0x10, SCON + 4, 0]]))
            return q
        if k == 0:      # idle, ended by a timer
            t = rng.randrange(3)
            return [[0x32], [0x32], mov(IE, 0x80 | rng.choice([0x2a, 0x3f, 1 << (2 * t + 1)]))] + (
                [mov(TMOD, 0x22), mov([TH0, TH1, 0][t], rng.randrange(0xe0, 256)), mov(TCON, 0x50 | rng.randrange(16))] if t < 2 else
                [mov(RCAP2L, rng.randrange(0xe0, 256)), mov(RCAP2H, 0xff), mov(TL2, rng.randrange(0xe8, 256)), mov(TH2, 0xff), mov(T2CON, 4)]) + [
                mov(PCON, 1)] + [None] * rng.randrange(4, 34)
        if k == 1:      # timer 0/1 in all modes close to overflow
            return [mov(TMOD, nib() + 16 * nib() + rng.choice([0, 0, 8, 0x80]) + rng.choice([0, 0, 4, 0x40])), mov(TL0, rng.choice([0xfe, 0x1e, 0xf0])),
                    mov(TH0, rng.randrange(0xfd, 256)), mov(TL1, rng.choice([0xfe, 0x1e, 0xf0])), mov(TH1, rng.randrange(0xfd, 256)),
                    mov(TCON, 0x50 | rng.randrange(16))] + [None] * rng.randrange(12)
        if k == 2 and rng.random() < .4:      # timer 2 counts up and down
            r = rng.choice([0, 0, rng.randrange(0x10000), 0xffff, 0xfff0])
            near = lambda: (rng.choice([r, 0xffff, r]) + rng.choice([-3, 1, 2, 3, 6])) & 0xffff
            v = near()
            q = [mov(T2CON, rng.choice([0, 4, 0, 6, 12])), mov(T2MOD, rng.choice([1, 1, 1, 0xff, 0])), mov(RCAP2H, r >> 8), mov(RCAP2L, r & 255), mov(P1, rng.choice([0xff, 0xfd])),
                 mov(IE, rng.choice([0, 0xa0])), mov(TL2, v & 255), mov(TH2, v >> 8), [0xd2, T2CON + 2]] + [None] * rng.randrange(8)
            for _ in range(rng.randrange(4)):
                v = near()
                q += [mov(TL2, v & 255), mov(TH2, v >> 8), rng.choice([mov(P1, rng.choice([0xff, 0xfd])), [0xb2, P1 + 1], [0xb2, P1], mov(T2MOD, rng.randrange(2)), mov(T2CON, rng.choice([4, 6, 12, 5, 0x14, 4]))])]
                q += [None] * rng.randrange(8)
            return q
        if k == 2:      # timer 2
            return [mov(T2CON, rng.choice([4, 12, 5, 13, 0x34, 0x1c, 6, 14, 7, 15])), mov(RCAP2H, 0xff), mov(RCAP2L, rng.randrange(0xf0, 256)),
                    mov(TH2, 0xff), mov(TL2, rng.randrange(0xf0, 256))] + [None] * rng.randrange(12)
        if k == 3:      # several requests at once, different priorities
            return [mov(IE, 0), [0x32], [0x32], mov(IP, rng.randrange(64)), mov(TCON, 0x05 | rng.choice([0xaa, 0x22, 0x88, 0x28, 0x82, 0xa0])),
                    mov(SCON, rng.randrange(4)), mov(IE, 0x80 | rng.choice([0x3f, 0x3f, rng.randrange(64)]))] + [None] * 3 + [[0x32], None] * rng.randrange(6)
        if k == 4:      # a high priority request during a low priority service
            lo, hi = rng.randrange(4), rng.randrange(4)
            return [[0x32], [0x32], mov(IP, 1 << hi), mov(TCON, 5), mov(IE, 0x8f), [0xd2, TCON + [1, 5, 3, 7][lo]], None, None,
                    [0xd2, TCON + [1, 5, 3, 7][hi]], None, None, [0xd2, TCON + [1, 5, 3, 7][rng.randrange(4)]], None, [0x32], None, [0x32], None, [0x32], None]
        return [mov(TCON, rng.choice([0x55, 0x50, 0x51, 0x54])), mov(TMOD, 0x55 if rng.random() < .5 else 0x99), mov(IE, 0x80 | rng.randrange(64)),
                mov(TL0, 0xfe), mov(TH0, 0xff), mov(TL1, 0xfe), mov(TH1, 0xff)] + [None] * 10

    def instr(self, rng):
        """machine code, and whether it writes a register that pin changes depend on"""
        b = lambda: rng.choice([rng.randrange(256), 0, 0xff, 0xfe, 0xfd])
        hi = lambda: rng.choice([0xff, 0xfe, 0xfd, 0xfc, 0xf8, b()])
        f = self.focus
        k = rng.random()
        if f == "port" and rng.random() < .6:
            k = .37
        if f == "timer" and .12 <= k < .22:
            k = .75
        if f == "uart" and k < .22:
            return rng.choice([[0xe5, SBUF], [0x75, SBUF, b()], [0xa4]]), False
        mov = lambda a, v: [0x75, a, v]
        if k < .12:
            return rng.choice([[0], [0], [0xa4], [0x84], [0xa3], [4], [0x80, 5], [0x12, 2, 0]]), False
        if k < .22:
            return [0x32], False
        if k < .30:
            return mov(rng.choice([TL0, TL1, TL2, TH0, TH1, TH2]), hi()), False
        if k < .36:
            a = rng.choice([TL0, TL1, TL2, TH0, TH1, TH2, RCAP2L, RCAP2H])
            return rng.choice([[0xe5, a], [5, a], [0xf5, a], [0xd5, a, 0], [0xb5, a, 0]]), False
        if k < .42:
            a = rng.choice([P1, P3, P0, P2])
            bit = rng.choice([a + rng.randrange(8), P3 + rng.choice([2, 3, 4, 5]), P1 + rng.choice([0, 1])])
            return rng.choice([mov(a, b() | 0xc0), [0xe5, a], [0xd2, bit], [0xc2, bit], [0xb2, bit], [0xa2, bit], [0x20, bit, 3],
                               [0x30, bit, 3], [0x10, bit, 3], [0x92, bit], [0x53, a, b()], [0x43, a, b()], [0x85, a, 0x40],
                               [5, a], [0xd5, a, 2], [0xc0, a], [0x25, a], [0x65, a], [0xb5, a, 2], [0x72, bit], [0xa0, bit],
                               [0x82, bit], [0xb0, bit], [0xf2], [0xe3], [0xa6, a], [0xa8, a], [0x62, a], [0x42, a], [0x52, a], [0x63, a, b()]]), True
        if k < .50:
            return mov(IE, rng.choice([0xff, 0xbf, 0x80, 0x00, 0x80 | b(), 0x80 | b(), 0x80 | b(), 0x80 | 1 << rng.randrange(6)])), False
        if k < .54:
            return mov(IP, rng.choice([b() & 0x3f, 1 << rng.randrange(6), 0])), False
        if k < .58:
            return rng.choice([[0xd2, IE + rng.choice([7, 7, rng.randrange(6)])], [0xc2, IE + rng.choice([7, rng.randrange(6)])],
                               [0xd2, IP + rng.randrange(6)], [0xc2, IP + rng.randrange(6)]]), False
        if k < .66:
            return mov(TCON, rng.choice([0x50, 0x55, 5, 0x51, 0x54, b()])), True
        if k < .74:
            return [rng.choice([0xd2, 0xc2, 0xd2, 0xb2, 0x92]), TCON + rng.randrange(8)], True
        if k < .80:
            g = lambda: rng.choice([0, 1, 2, 3, 1, 2]) + rng.choice([0, 4, 4]) + rng.choice([0, 0, 8])
            return mov(TMOD, g() + 16 * g()), True
        if k < .86:
            return rng.choice([mov(T2CON, rng.choice([4, 5, 12, 13, 6, 14, 0x34, 0x24, 0x16, b()])),
                               [rng.choice([0xd2, 0xc2]), T2CON + rng.randrange(8)]]), True
        if k < .89:
            return mov(rng.choice([RCAP2L, RCAP2H, T2MOD]), hi()), False
        if k < .93:
            return rng.choice([mov(SCON, rng.choice([1, 2, 0, 3])), [0xd2, SCON + rng.randrange(2)], [0xc2, SCON + rng.randrange(2)]]), False
        # any register operand
        return [rng.choice([0x28, 0x98, 0x48, 0xe8, 0xf8]) + rng.randrange(8)], False

    def describe(self, case, sess, li):
        d = dict(map(tuple, case["w"]))
        code = [d[k] for k in sorted(d) if k >> 20 == 3]
        return "code %s" % " ".join("%02x" % x for x in code)

    def key(self, case):
        return self.describe(case, None, 0)


def check(ctx, focus):
    b = ctx.build(["s51"])["s51"]
    cpu = Mcs51Hw(focus)
    n, k = (64, 800) if ctx.thorough else (16, 500) if focus == "uart" else (24, 300)
    isa.check_isa(ctx, cpu, b, [list(cpu.history(ctx.rnd("h%d" % i), k, os.path.join(ctx.wd, "uart%d" % i) if focus == "uart" else None))
                                for i in range(n)])
