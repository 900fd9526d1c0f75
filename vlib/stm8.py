import os, random, tempfile
from .isa import Cpu

R, W, J = "read", "write", "jump"
COLS = {1: "sp", 10: "imm", 11: "short", 12: "long", 13: "longx", 14: "shortx", 15: "x"}
EAM = [(0, 11, "short"), (0, 12, "long"), (0, 13, "longx"), (0, 14, "shortx"), (0, 15, "x"),
       (0x90, 13, "longy"), (0x90, 14, "shorty"), (0x90, 15, "y"),
       (0x72, 12, "ilong"), (0x92, 12, "ishort"), (0x72, 13, "ilongx"), (0x92, 13, "ishortx"), (0x91, 13, "ishorty")]
RMW = [(0, 0, "sp"), (0, 3, "short"), (0, 4, None), (0, 5, None), (0x90, 5, None), (0, 6, "shortx"), (0, 7, "x"),
       (0x72, 3, "ilong"), (0x72, 4, "longx"), (0x72, 5, "long"), (0x72, 6, "ilongx"), (0x90, 4, "longy"),
       (0x90, 6, "shorty"), (0x90, 7, "y"), (0x91, 6, "ishorty"), (0x92, 3, "ishort"), (0x92, 6, "ishortx")]


def table():
    t = []
    for l in (0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13):
        for p, h, mode in EAM:
            if l in (12, 13) and h == 11:
                continue
            if l == 7 and False:
                continue
            t.append((p, h * 16 + l, mode, J if l in (12, 13) else W if l == 7 else R))
        if l not in (7, 12, 13):
            t.append((0, 0xa0 + l, "imm", R))
            if l != 6:
                t.append((0, 0x10 + l, "sp", R))
    for l, k in ((3, R), (14, R), (15, W)):
        for p, h, mode in EAM:
            # the Y forms of direct and short indirect operands
            t.append((p, h * 16 + l, mode, k))
        for p, h, mode in ((0x90, 11, "short"), (0x90, 12, "long"), (0x91, 12, "ishort")):
            t.append((p, h * 16 + l, mode, k))
    for o in (0xa3, 0xae):
        t += [(0, o, "imm2", R), (0x90, o, "imm2", R)]
    t += [(0, 0x13, "sp", R), (0, 0x16, "sp", R), (0, 0x1e, "sp", R), (0, 0x17, "sp", W), (0, 0x1f, "sp", W),
          (0, 0x6b, "sp", W), (0, 0x7b, "sp", R), (0, 0x1c, "imm2", R), (0, 0x1d, "imm2", R), (0x72, 0xa9, "imm2", R), (0x72, 0xa2, "imm2", R)]
    t += [(0x72, o, "long", R) for o in (0xbb, 0xb9, 0xb0, 0xb2)] + [(0x72, o, "sp", R) for o in (0xfb, 0xf9, 0xf0, 0xf2)]
    for l in (0, 3, 4, 6, 7, 8, 9, 10, 12, 13, 14, 15):
        for p, h, mode in RMW:
            t.append((p, h * 16 + l, mode, W))
    t += [(0x72, i, "bit", R) for i in range(16)] + [(p, 0x10 + i, "long", W) for p in (0x72, 0x90) for i in range(16)]
    t += [(0, 0x20 + i, "imm", R) for i in range(16)] + [(0x90, 0x20 + i, "imm", R) for i in (8, 9, 12, 13)]
    t += [(0, o, None, R) for o in (1, 2, 0x41, 0x51, 0x61, 0x42, 0x62, 0x65, 0x93, 0x94, 0x95, 0x96, 0x97, 0x9e, 0x9f, 0x80, 0x81, 0x83, 0x87,
                                    0x84, 0x85, 0x86, 0x88, 0x89, 0x8a, 0x8c, 0x98, 0x99, 0x9a, 0x9b, 0x9c, 0x9d)]
    t += [(0x90, o, None, R) for o in (1, 2, 0x42, 0x62, 0x93, 0x94, 0x95, 0x96, 0x97, 0x9e, 0x9f, 0x85, 0x89)]
    t += [(0, 0x5b, "imm", R), (0, 0x52, "imm", R), (0, 0x4b, "imm", R), (0, 0x31, "long", W), (0, 0x32, "long", W), (0, 0x3b, "long", R),
          (0, 0x35, "mov1", W), (0, 0x45, "mov2", W), (0, 0x55, "mov4", W), (0, 0xad, "imm", R), (0, 0x82, "ext", J), (0, 0xac, "ext", J),
          (0, 0x8d, "ext", J), (0x92, 0xac, "iext", J), (0x92, 0x8d, "iext", J), (0, 0xbc, "ext", R), (0, 0xbd, "ext", W),
          (0x92, 0xbc, "iext", R), (0x92, 0xbd, "iext", W), (0, 0xaf, "extx", R), (0, 0xa7, "extx", W), (0x90, 0xaf, "exty", R),
          (0x90, 0xa7, "exty", W), (0x92, 0xaf, "iextx", R), (0x92, 0xa7, "iextx", W), (0x91, 0xaf, "iexty", R), (0x91, 0xa7, "iexty", W)]
    return sorted(set(t), key=str)


class Stm8(Cpu):
    name = "Stm8"
    sim = "stm8"
    regs = ["PC", "A", "X", "Y", "SP", "CC"]
    spaces = [("rom", 0x28000, 0)]
    nofill = (0,)
    wins = []
    ticks = False

    def regmask(self, n):
        return {"PC": 0xffffff, "A": 255, "CC": 255}.get(n, 0xffff)

    def areas(self, sp):
        return [(0, 0x17ff), (0x8000, 0x27fff)]

    def load(self, cases, wd):
        """fill the flash memory, with code at both sides of the 64k border"""
        fd, f = tempfile.mkstemp(suffix=".ihx", dir=wd)
        rng = random.Random("%r" % cases[0])
        flash = cases[0]["flash"]
        for i in range(500):
            flash.setdefault(rng.randrange(0x8000, 0x28000), rng.randrange(256))
        with os.fdopen(fd, "w") as h:
            page = 0

            def rec(t, a, d):
                b = [len(d), a >> 8, a & 255, t] + d
                h.write(":" + "".join("%02X" % x for x in b + [-sum(b) & 255]) + "\n")
            for a, v in sorted(flash.items()):
                if a >> 16 != page:
                    page = a >> 16
                    rec(4, 0, [0, page])
                rec(0, a & 0xffff, [v])
            rec(1, 0, [])
        return ['fill rom 0 0x17ff 0', 'file "%s"' % f]

    def ops(self):
        return table()

    def deep(self):
        return [x for x in table() if x[1] in (0x62, 0x65, 0x42, 0x89)] * 20

    def session(self, rng, ops):
        self.flash = {}
        self.fpc = rng.choice([0x8000, 0x10000, 0x18000, 0x20000]) + rng.randrange(0x800)
        cs = [self.case(rng, o) for o in ops]
        cs[0]["flash"] = self.flash
        return cs

    def case(self, rng, op):
        p, o, mode, kind = op
        b = lambda: rng.choice([rng.randrange(256)] * 3 + [0, 1, 0x7f, 0x80, 0xff, 0x0f, 0xf0])
        w16 = lambda: rng.choice([rng.randrange(65536)] * 3 + [0xffff, 0, 0x7fff, 0x8000, 0xff, 0x100, 1])
        inflash = rng.random() < .3
        if inflash:
            self.fpc += rng.choice([8, 8, 100, 500])
            if self.fpc > 0x27f00:
                self.fpc = 0x8000
            pc = rng.choice([self.fpc, self.fpc, self.fpc])
        else:
            pc = rng.randrange(0x600, 0xe00)
        r = {"PC": pc, "A": b(), "X": w16(), "Y": w16(), "SP": rng.randrange(0x1520, 0x1700), "CC": rng.randrange(256) & 0xbf}
        if p in (0, 0x90) and o in (0x62, 0x65):
            r["X"], r["Y"] = [rng.choice([w16(), b(), 0, w16() & 0xfff]) for _ in "xy"]
            r["A"] = rng.choice([b(), 0, 1, 3])
        w = {}
        lowram = rng.randrange(0, 0x500) if rng.random() < .5 else rng.randrange(0x1000, 0x1480)
        T = lowram
        if kind == R and rng.random() < .3:
            T = rng.randrange(0x8000, 0x27f00)
        elif kind == J:
            T = rng.randrange(0x8000, 0xfff0) if rng.random() < .5 else rng.randrange(0xf00)
        if mode in ("short", "sp"):
            T &= 0xff
        if mode in ("long", "ilong", "ishort", "y", "x") and T > 0xffff:
            T &= 0xffff
            if T < 0x8000:
                T |= 0x8000
        arg = []
        put = lambda a, v: w.__setitem__(a, v)
        put2 = lambda a, v: (put(a, v >> 8), put(a + 1, v & 255))
        split = lambda v: [v >> 8 & 255, v & 255]
        reg = "Y" if (mode or "").endswith("y") else "X"
        ptr = rng.randrange(0, 0xfd)
        lptr = rng.choice([ptr, rng.randrange(0x100, 0x5f0), rng.randrange(0x1000, 0x14f0)])
        if mode in ("longx", "longy", "ilongx", "ishortx", "ishorty"):
            T = min(T, 0x1fffe)
            lo, hi = max(0, T - 65535), min(T, 65535)
            off = rng.randrange(lo, hi + 1)
            r[reg] = T - off
        elif mode in ("shortx", "shorty"):
            if T > 65535:
                T = 0x8000 + T % 0x8000
            off = rng.randrange(0, min(255, T) + 1)
            if T < 0x1000 or T >= 0x8000:
                pass
            r[reg] = T - off
        elif mode in ("x", "y"):
            r[reg] = T
        if mode == "imm":
            arg = [b()]
        elif mode == "imm2":
            arg = split(w16())
        elif mode == "short":
            arg = [T]
        elif mode == "sp":
            arg = [b()]
            T = r["SP"] + arg[0]
        elif mode == "long":
            arg = split(T)
        elif mode in ("longx", "longy"):
            arg = split(off)
        elif mode in ("shortx", "shorty"):
            arg = [off]
        elif mode == "ilong":
            arg = split(lptr)
            put2(lptr, T)
        elif mode == "ishort":
            arg = [ptr]
            put2(ptr, T)
        elif mode == "ilongx":
            arg = split(lptr)
            put2(lptr, off)
        elif mode in ("ishortx", "ishorty"):
            arg = [ptr]
            put2(ptr, off)
        elif mode == "bit":
            arg = split(T & 0xffff if T < 0x10000 else 0x8000 + T % 0x8000) + [b()]
        elif mode == "mov1":
            arg = [b()] + split(T)
        elif mode == "mov2":
            arg = [rng.randrange(256), rng.randrange(256)]
        elif mode == "mov4":
            arg = split(rng.choice([lptr, rng.randrange(0x8000, 0x10000)])) + split(T)
        elif mode in ("ext", "extx", "exty", "iext", "iextx", "iexty"):
            if kind == J and rng.random() < .5:
                T = rng.randrange(0x10000, 0x27f00)
            v = T
            if mode[-1] in "xy":
                v = rng.randrange(max(0, T - 65535), T + 1)
                r[reg] = T - v
            e3 = [v >> 16] + split(v & 0xffff)
            if mode[0] == "i":
                arg = split(lptr)
                for i in range(3):
                    put(lptr + i, e3[i])
            else:
                arg = e3
        if T < 0x1800 and rng.random() < .8 and mode not in ("imm", "imm2", None) and kind != J:
            for k in range(2):
                if T + k not in w:
                    put(T + k, b())
        for k in range(1, 10 if o == 0x80 else 4):
            if rng.random() < .7:
                put(r["SP"] + k, b())
        if o == 0x80:
            put(r["SP"] + 7, rng.randrange(3))
        if o == 0x87:
            put(r["SP"] + 1, rng.randrange(3))
        if o == 0x81 and p == 0 or o == 0x87 or o == 0x80:
            pass
        code = ([p] if p else []) + [o] + arg
        for i, c in enumerate(code):
            if inflash:
                self.flash[pc + i] = c
            else:
                w[pc + i] = c
        return {"r": r, "w": [(0, a, v) for a, v in w.items()], "code": code}

    def describe(self, case, sess, li):
        d = dict((a, v) for c in sess["cases"][:li + 1] for a, v in c.get("w", ())) if sess else dict(map(tuple, case["w"]))
        pc = case["r"]["PC"]
        return "code %s at 0x%06x" % (" ".join("%02x" % d.get(pc + i, -1) for i in range(5)), pc)

    def key(self, case):
        d = dict(map(tuple, case["w"]))
        pc = case["r"]["PC"]
        c = [d.get(pc + i, -1) for i in range(2)]
        return " ".join("%02x" % x for x in c[:2 if c[0] in (0x72, 0x90, 0x91, 0x92) else 1])
