from .isa import Cpu

XB = [5, 12, 13, 14, 15, 0x15, 0x19, 0x1a, 0x1b, 0x4b] + list(range(0x60, 0x70)) + [0xe7]
XB += [x + i for x in (0xa0, 0xe0) for i in range(16) if i != 7]
P0 = [1, 2, 3, 4] + list(range(5, 12)) + list(range(12, 24)) + list(range(25, 60)) + [61, 63] + list(range(64, 256))
P18 = list(range(0, 0x30)) + [0x3d, 0x3f, 0x30, 0x40, 0x9c, 0xff]
SAVED = {0x19: "IY", 0x1a: "IX", 0x1b: "SP", 0x6d: "IY", 0x6e: "IX", 0x6f: "SP", 0xad: "IY", 0xae: "IX", 0xaf: "SP",
         0xed: "IY", 0xee: "IX", 0xef: "SP", 0x15: "SP", 0x4b: "SP"}


class M68HC12(Cpu):
    name = "M68HC12"
    sim = "m68hc12"
    spaces = [("rom", 65536, 1)]
    nofill = (0,)
    wins = []
    ticks = False
    regs = ["PC", "A", "B", "CC", "IX", "IY", "SP", "TMP2", "TMP3"]
    setup = Cpu.setup + ("fill rom 0 0x7fff 1", "fill rom 0x8100 0xffff 1")

    def areas(self, sp):
        return [(0, 0x33), (0x35, 0x35), (0x38, 0x7fff), (0x8100, 0xffff)]     # peripherals between

    def regmask(self, n):
        return 0xff if n in ("A", "B", "CC") else 0xffff

    def ops(self):
        return [(o,) for o in P0] + [(0x18, o) for o in P18]

    def deep(self):
        return ([(o,) for o in (1, 4, 17, 19)] + [(0x18, o) for o in [7, 16, 17, 18, 18, 19, 20, 20, 21, 21] + list(range(24, 32))]) * 12 + \
            [(0xb7,)] * 150 + [(4,)] * 40 + [(0xa6,), (0x6b,), (0xec,)] * 30

    def case(self, rng, op):
        while 1:
            c = self.attempt(rng, op)
            if c:
                return c

    def attempt(self, rng, op):
        b = lambda: rng.choice([rng.randrange(256)] * 3 + [0, 1, 0x7f, 0x80, 0xff])
        ok = lambda x: 0x40 <= x < 0x7e00 or 0x8200 <= x < 0xfff0

        def w16(plain=False):
            while 1:
                x = rng.choice([rng.randrange(65536)] * 4 + ([] if plain else [0xfe00 + b(), b(), 0x40 + rng.randrange(64)]))
                if ok(x):
                    return x
        v16 = lambda: rng.choice([rng.randrange(65536)] * 3 + [0xffff, 0, 0x7fff, 0x8000, 0x100 * b(), b(), 0xff00 + b()])
        last, p18 = op[-1], len(op) == 2
        num = (p18 and last in (16, 17, 19, 20, 21)) or (not p18 and last in (2, 3, 4, 8, 9, 17, 18, 19, 0xb7))
        r = {"A": b(), "B": b(), "CC": rng.choice([rng.randrange(256)] * 3 + [0, 255])}
        for n in ("IX", "IY", "TMP2", "TMP3"):
            r[n] = v16() if num else w16()
        r["SP"] = w16()
        pc = r["PC"] = rng.randrange(0x200, 0x7d00) if rng.random() < .5 else rng.randrange(0x8300, 0xff00)
        w = {}
        D = lambda: r["A"] * 256 + r["B"]

        def put(a, *v):
            for k, x in enumerate(v or (b(),)):
                w[(a + k) & 0xffff] = x
        if p18 and last in (16, 17, 20, 21) or op == (17,):
            if rng.random() < .7:
                r["IX"] = rng.choice([rng.randrange(1, 256), rng.randrange(1, 65536), 0xffff - rng.randrange(99), D(), 1])
            if op == (17,) or last == 20:
                k = rng.randrange(3)
                if last == 17 and k == 2:
                    p = rng.choice([0xffff, 0x8000, 0x7fff, 0x10000, 1, 0]) * r["IX"] + rng.randrange(0, max(1, r["IX"]))
                    r["IY"], r["A"], r["B"] = (p >> 16) & 0xffff, (p >> 8) & 255, p & 255
                elif k == 0:
                    r["IY"] = rng.choice([0, rng.randrange(r["IX"] + 1)])
                elif k == 1 and last == 20:
                    x = r["IX"] - 65536 if r["IX"] >= 32768 else r["IX"]
                    p = rng.choice([rng.randrange(-32800, 32800), -32768, 32767, -32769, 32768]) * x
                    p += rng.randrange(-3, 4)
                    r["IY"], r["A"], r["B"] = (p >> 16) & 0xffff, (p >> 8) & 255, p & 255
            if last == 20 and rng.random() < .1:
                r["IY"], r["A"], r["B"], r["IX"] = 0x8000, 0, 0, 0xffff
            if last == 21 and rng.random() < .4:
                d = rng.choice([0x8000, 0x8000, 0x7fff, 0x8001, 0xffff])
                r["A"], r["B"], r["IX"] = d >> 8, d & 255, rng.choice([0xffff, 1, 0xfffe, 2, d])
            if last == 21 and rng.random() < .2:
                r["A"], r["B"], r["IX"] = 0x80, 0, 0xffff
            if last in (16, 17) and p18 and rng.random() < .3:
                d = rng.choice([r["IX"], r["IX"] - 1, r["IX"] + 1]) & 0xffff
                r["A"], r["B"] = d >> 8, d & 255
        if op in ((2,), (3,), (8,), (9,), (4,)) and rng.random() < .5:
            for n in ("IX", "IY"):
                r[n] = rng.choice([0, 1, 2, 0xff, 0x100, 0x101, 0x200, 0xffff])
            r["A"], r["B"] = rng.choice([0, 1, 255]), rng.choice([0, 1, 255])
        if op == (0x18, 7):                          # sum of two packed decimal numbers
            d = lambda: rng.randrange(10) * 16 + rng.randrange(10)
            x, y, c = d(), d(), rng.randrange(2)
            h = (x & 15) + (y & 15) + c > 15
            s = x + y + c
            r["A"], r["CC"] = s & 255, r["CC"] & 0xde | h * 0x20 | (s > 255)
        if op == (1,):
            r["IY"] = w16()
            p1, p2 = sorted((b(), b()))
            s1, s2 = rng.choice([0, b(), rng.randrange(9)]), rng.choice([0, b(), rng.randrange(9)])
            if rng.random() < .6:
                r["A"] = rng.randint(p1, p2)
            g1 = s1 * (r["A"] - p1) if s1 else 255
            g2 = s2 * (p2 - r["A"]) if s2 else 255
            if p1 <= r["A"] <= p2 and g1 > g2 and g1 <= 255 and s1:
                return None                          # left open
            put(r["IX"], p1, p2, s1, s2)
        if op == (0x18, 18):
            put(r["IX"], *[b() for i in range(2)])
            if r["IY"] != (r["IX"] + 1) & 0xffff:
                put(r["IY"], *[b() for i in range(2)])

        regn = ["IX", "IY", "SP"]
        touched = []
        keep = []                                    # pointers in memory

        def xb(at, types=(1, 2, 3, 4, 5, 6), fixed=0, q=None):
            """(postbyte and extension, effective address); fixed: further operand bytes follow"""
            t = rng.choice(types)
            q = q or r
            i = rng.randrange(3 if t == 3 or fixed else 4)
            e = []
            n = {1: 1, 3: 1, 4: 1, 5: 3, 6: 1}.get(t)
            if t == 1:
                o = rng.randrange(32)
                p, off = i * 64 + o, o - 32 if o > 15 else o
            elif t == 2:
                z = rng.randrange(2)
                if z:
                    off = rng.randrange(65536)
                    p, e = 0xe2 + 8 * i, [off >> 8, off & 255]
                else:
                    s = rng.randrange(2)
                    off = rng.randrange(256)
                    p, e = 0xe0 + 8 * i + s, [off]
                    off -= 256 * s
                n = 1 + len(e)
            elif t == 3:
                o = rng.randrange(16)
                d = o - 16 if o > 7 else o + 1
                post = rng.randrange(2)
                p = i * 64 + 0x20 + post * 16 + o
                nm = regn[i]
                if nm in touched or (not p18 and SAVED.get(last) == nm):
                    return None
                touched.append(nm)
                new = (q[nm] + d) & 0xffff
                ea = q[nm] if post else new
                q[nm] = new
                return [p], ea
            elif t == 4:
                k = rng.randrange(3)
                p, off = 0xe4 + 8 * i + k, (r["A"], r["B"], D())[k]
            elif t == 5:
                off = rng.randrange(65536)
                p, e = 0xe3 + 8 * i, [off >> 8, off & 255]
            else:
                p, off = 0xe7 + 8 * i, D()
            ea = ((q[regn[i]] if i < 3 else at + n) + off) & 0xffff
            if i < 3 and t != 3:
                touched.append(regn[i])
            if t in (5, 6):
                if not ok(ea):
                    return None
                ip, ea = ea, w16()
                put(ip, ea >> 8, ea & 255, b())
                keep.append((ip, ea))
            return [p] + e, ea
        q = dict(r)
        o = pc + len(op)
        ops, eas = [], []

        def idx(types=(1, 2, 3, 4, 5, 6), fixed=0):
            x = xb(o + len(ops), types, fixed, q)
            if not x:
                return False
            ops.extend(x[0])
            eas.append(x[1])
            return True

        def ext():
            x = w16()
            eas.append(x)
            ops.extend([x >> 8, x & 255])
            return True

        def dire():
            x = rng.randrange(0x40, 256)
            eas.append(x)
            ops.append(x)
            return True
        good = True
        S = (1, 3, 4)
        if p18 and last in (0, 1, 8, 9, 5, 13):
            good = idx(S, 1)
            if last in (0, 8):
                ops += [b() for i in range(2 if last == 0 else 1)]
            else:
                ext()
        elif p18 and last in (2, 10):
            good = idx(S, 1) and idx(S, 1)
        elif p18 and last in (3, 11):
            ops += [b() for i in range(2 if last == 3 else 1)]
            ext()
        elif p18 and last in (4, 12):
            ext() and ext()
        elif p18 and last == 18:
            ext()
        elif p18 and (24 <= last < 32):
            good = idx()
        elif p18 and last in (61, 63):
            good = idx(S)
        elif p18 and 32 <= last < 48:
            ops += [b(), b()]
        elif p18:
            pass
        elif last == 4:
            ops += [rng.randrange(3) * 64 + rng.randrange(4) * 16 + rng.choice([0, 1, 4, 5, 6, 7]), b()]
        elif last == 0xb7:
            ops += [rng.randrange(256) & 0xf7]
        elif last in (12, 13, 14, 15):
            good = idx((1, 2, 3, 4), 1)
            ops += [b(), b()]
        elif last == 0x4b:
            good = idx((1, 2, 4, 5, 6), 1)
            ops += [b()]
        elif last == 0x15:
            good = idx()
        elif last in (0x19, 0x1a, 0x1b):
            good = idx((1, 2, 3, 4))
        elif last in XB:
            good = idx()
        elif last in (6, 0x16, 0x4a) or 28 <= last < 32 or last >= 64 and last // 16 in (7, 11, 15) and last != 0xb7:
            ext()
            ops += [b(), b()]
        elif last in (0x17, 0x4c, 0x4d, 0x4e, 0x4f) or 0x5a <= last < 0x60 or last // 16 in (9, 13) and last % 16 != 7:
            dire()
            ops += [b(), b()]
        else:
            ops += [b(), b()]
        if not good or not all(ok(x) and ok((x + 3) & 0xffff) for x in eas):
            return None
        if last in (0x8c, 0x8d, 0x8e, 0x8f, 0x83, 0xc3) and not p18 and rng.random() < .3:
            x = rng.choice([D(), r["IX"], r["IY"], r["SP"], 0x8000, 0])
            ops[:2] = [x >> 8, x & 255]
        for x in eas:
            n = rng.choice([r["A"], r["A"] + rng.randrange(-1, 2)]) & 255 if rng.random() < .2 else b()
            put(x, n, rng.choice([b(), r["B"]]), b(), b())
        if p18 and last in (61, 63):
            v = sorted([b(), b()]) if last == 61 else sorted([v16(), v16()])
            put(eas[0], *(v if last == 61 else [v[0] >> 8, v[0] & 255, v[1] >> 8, v[1] & 255]))
        for k in range(-10, 10):
            if 1:
                put((r["SP"] + k) & 0xffff)
        if op in ((10,), (11,), (61,)):
            k = {10: 1, 11: 7, 61: 0}[last]
            t = w16()
            put(r["SP"] + k, t >> 8, t & 255)
            keep.append(((r["SP"] + k) & 0xffff, t))
        if op == (63,) or (p18 and last > 0x2f and last not in (61, 63)):
            t = w16()
            put(0xfff6 if op == (63,) else 0xfff8, t >> 8, t & 255)
        if any(w[x] != y >> 8 or w[x + 1] != y & 255 for x, y in keep):
            return None
        code = set(range(pc, pc + 8))
        if code & set(w) or not ok(pc + 9):
            return None
        if op == (1,):
            t = {(r["IX"] + i) & 0xffff for i in range(4)}
            if t & {(r["SP"] + k) & 0xffff for k in range(-10, 10)}:
                return None
        if p18 and last in (61, 63) and {(eas[0] + i) & 0xffff for i in range(4)} & {(r["SP"] + k) & 0xffff for k in range(-10, 10)}:
            return None
        for k, x in enumerate(list(op) + ops):
            w[pc + k] = x
        if any(0x34 <= x < 0x38 or 0x7e00 <= x < 0x8200 for x in w):
            return None
        if rng.random() < .3:
            w[0x35] = b()
        h = {}
        c = {"r": r, "w": [(0, x, v) for x, v in w.items()], "h": h}
        if r["CC"] & 0x40:            # X can only be set by a reset
            if 0x35 not in w:
                w[0x35] = b()
                c["w"].append((0, 0x35, w[0x35]))
            c["pre"] = ["reset", "set mem rom 0x35 0x%x" % w[0x35], "expr " + ",".join("%s=0x%x" % x for x in r.items())]
        return c

    def code(self, case, n):
        d = {x[-2]: x[-1] for x in case["w"]}
        return [d.get((case["r"]["PC"] + i) & 0xffff, 0) for i in range(n)]

    def describe(self, case, sess, li):
        return "code " + " ".join("%02x" % x for x in self.code(case, 6))

    def key(self, case):
        c = self.code(case, 2)
        return "%02x%02x" % tuple(c) if c[0] == 0x18 else "%02x" % c[0]
