"""Histories of the simulator interface for spec/SimIf.tla."""
import os, re, tempfile
from concurrent.futures import ProcessPoolExecutor
from . import sim as S, mem as M

# store/load: instructions accessing address a (register R holds the value); nop; self: self jump
T = {
    "s51": dict(args=["-t", "C52"], mem="xram", base=0x7ff0, reg="ACC", code=0x100, st=lambda a: [0xf0], ld=lambda a: [0xe0], nop=0,
                self=[0x80, 0xfe], pre=lambda a: "expr DPH=%d,DPL=%d" % (a >> 8, a & 255), rst=True, pc="PC=%d"),
    "z80": dict(args=[], mem="rom", base=0x7ff0, reg="A", code=0x100, st=lambda a: [0x32, a & 255, a >> 8], ld=lambda a: [0x3a, a & 255, a >> 8],
                nop=0, self=[0x18, 0xfe], rst=True),
    "m6800": dict(args=["-t", "M6800"], mem="rom", base=0x7000, reg="A", code=0x100, st=lambda a: [0xb7, a >> 8, a & 255],
                  ld=lambda a: [0xb6, a >> 8, a & 255], nop=1, self=[0x20, 0xfe], rst=False),
    "mos6502": dict(args=[], mem="rom", base=0x7000, reg="A", code=0x300, st=lambda a: [0x8d, a & 255, a >> 8],
                    ld=lambda a: [0xad, a & 255, a >> 8], nop=0xea, self=[0x4c, None], rst=False),
    "stm8": dict(args=["-t", "STM8S"], mem="rom", base=0x200, reg="A", code=0x100, st=lambda a: [0xc7, a >> 8, a & 255],
                 ld=lambda a: [0xc6, a >> 8, a & 255], nop=0x9d, self=[0x20, 0xfe], rst=False),
    "i8085": dict(args=[], mem="rom", base=0x7ff0, reg="A", code=0x100, st=lambda a: [0x32, a & 255, a >> 8], ld=lambda a: [0x3a, a & 255, a >> 8],
                  nop=0, self=[0xc3, None], rst=True),
}
PRINT = [c for c in range(33, 127)]
CMDS = [ord(c) for c in "_ivV@IhspxfrwRLl"]


class Gen:
    def __init__(self, r, name, length):
        self.r, self.t, self.length = r, T[name], length
        self.ad = [self.t["base"] + k for k in (0, 1, 6)]
        self.at = None
        self.act, self.need, self.left = 0, 0, 0
        self.ev = []

    def put(self, **e):
        self.ev.append(e)

    def gen(self):
        r = self.r
        self.cells = [[a, r.randrange(256)] for a in self.ad]
        if r.random() < .9:
            self.put(k="at", a=r.choice(self.ad))
            self.at = self.ev[-1]["a"]
        if r.random() < .7:
            self.g_fin()
        if r.random() < .7:
            self.g_fout()
        while len(self.ev) < self.length:
            getattr(self, "g_" + r.choice(["cmd"] * 14 + ["poke", "poke", "peek", "peek", "run", "fin", "fout", "at", "close", "cut"]))()
        return self.ev

    def con(self, a, other):
        """dumping (and set mem, which dumps, the next cell too) reads a cell as often as it likes"""
        return self.r.choice(["con", other]) if self.at not in (a, a + 1) and (other == "dump" or self.t["mem"] == "xram") else "con"

    def wr(self, a, v, cpu=False):
        how = "cpu" if cpu or self.r.random() < .6 else self.con(a, "set")
        self.put(k="w" if how == "cpu" else "cw", a=a, v=v, how=how)

    def rd(self, a):
        how = "cpu" if self.r.random() < .5 else self.con(a, "dump")
        self.put(k="r" if how == "cpu" else "cr", a=a, how=how)

    def home(self):
        return self.at if self.at is not None else self.r.choice(self.ad)

    def g_cmd(self):
        """a command, its parameters and reads of (about) its answer"""
        r = self.r
        c = r.choice(CMDS + [115, 119, 119, 114, 114, 102, 108, 76, 112, 120, 95])
        if c == 82 and not self.t["rst"]:
            return
        a = self.home()
        self.wr(a, c, c in (82,))
        n = {73: 1, 104: 1, 112: 1, 120: 1, 119: 1, 76: 4}.get(c, 0)
        lim = r.choice([[r.randrange(1, 9), 0, 0, 0], [0, 0, 0, 0], [3, 2, 0, 0], [r.randrange(256), 1, 2, 3]])
        small = lim[1:] == [0, 0, 0]
        for i in range(n):
            if r.random() < .06:
                self.rd(a)
            if c == 76:
                v = lim[i]
            elif c in (73, 104):
                v = r.choice(CMDS + [r.randrange(256)])
            elif c == 112:
                v = r.choice(PRINT)
            else:
                v = r.randrange(256)
            if v == 82 and not self.t["rst"]:
                v = 83
            if c == 76 and i == 3 and not small:
                self.put(k="cw", a=a, v=v, how="con")
            elif i == n - 1 and c != 112 and v != 82 and r.random() < .3:
                self.put(k="run", a=a, v=v, n=r.randrange(7), m=r.randrange(7))
            else:
                self.wr(a, v)
        k = {95: 1, 105: 17, 118: 1, 86: 9, 73: 3, 104: 24, 115: 1, 102: 1, 114: 1, 108: 5}.get(c, 0)
        if c not in (104, 86, 105) or r.random() < .35:
            for i in range(k + r.choice([0, 0, 0, 1, -1])):
                self.rd(a)

    def g_cut(self):
        """rest of any answer"""
        for i in range(self.r.choice([3, 17, 45])):
            self.rd(self.home())

    def g_poke(self):
        a = self.r.choice(self.ad)
        v = self.r.choice(CMDS + PRINT)
        while v == 82:
            v = self.r.choice(PRINT)
        self.put(k="cw", a=a, v=v, how=self.con(a, "set"))

    def g_peek(self):
        self.rd(self.r.choice(self.ad))

    def g_run(self):
        r = self.r
        self.put(k="run", a=self.home(), v=r.choice([115, 115, 115, 95, 0x41]), n=r.randrange(5), m=r.randrange(4))

    def g_fin(self):
        self.put(k="fin", b=[self.r.choice([0, 10, 13, 0xff, 3, 4, 26, self.r.randrange(256), self.r.randrange(256)]) for i in range(self.r.choice([0, 1, 3, 8, 20]))])

    def g_fout(self):
        self.put(k="fout", open=self.r.random() < .85)

    def g_close(self):
        self.put(k="close")

    def g_at(self):
        self.put(k="at", a=self.r.choice(self.ad))
        self.at = self.ev[-1]["a"]


def record(binary, name, events, cells, wd):
    t = T[name]
    d = tempfile.mkdtemp(dir=wd)
    b = S.Batch(binary, t["args"], d)
    b.do("set error stack off")
    b.do("set option selfjump_stop 1")
    code = t["code"]
    sp = t["mem"]
    for a, v in cells:
        b.do("set mem %s %d %d" % (sp, a, v))
    hv, hi = b.ask("version"), b.ask("info hw simif")
    nout = nin = 0
    out = None
    hs = []

    def prog(p):
        # no set mem: its echo is a disassembly, which may look at the cells the instructions name
        b.do("expr " + ",".join("rom[%d]=%d" % (code + i, v) for i, v in enumerate(p)))

    def selfj(at):
        s = list(t["self"])
        return s[:1] + [at & 255, at >> 8] if s[1] is None else s
    for e in events:
        k = e["k"]
        if k in ("w", "r", "run"):
            ins = t["st"](e["a"]) if k != "r" else t["ld"](e["a"])
            n, m = e.get("n", 0), e.get("m", 10)
            p = [t["nop"]] * n + ins + [t["nop"]] * m
            prog(p + selfj(code + len(p)))
            if "pre" in t:
                b.do(t["pre"](e["a"]))
            b.do("expr %s=%d" % (t["reg"], e.get("v", 0x5a)))
            b.do("PC=%d" % code)
            b.mark()
            b.do("step" if k != "run" else "run")
            h1 = b.mark()
            hs.append((h1, b.ask("expr /d PC"), b.ask("expr /d " + t["reg"])))
            e.update(next=code + n + len(ins), left=m, pc0=code)
        elif k == "cw":
            hs.append((b.ask("expr /X %s[%d]=%d" % (sp, e["a"], e["v"]) if e["how"] == "con" else "set mem %s %d %d" % (sp, e["a"], e["v"])),))
        elif k == "cr":
            hs.append((b.ask("expr /X %s[%d]" % (sp, e["a"]) if e["how"] == "con" else "dump /h %s %d %d" % (sp, e["a"], e["a"])),))
        elif k == "at":
            hs.append((b.ask("set hw simif %s %d" % (sp, e["a"])),))
        elif k == "fin":
            f = os.path.join(d, "in%d" % nin)
            nin += 1
            with open(f, "wb") as fh:
                fh.write(bytes(e["b"]))
            hs.append((b.ask('set hw simif fin "in%d"' % (nin - 1)),))
        elif k in ("fout", "close"):
            e["file"] = out
            if k == "fout" and e["open"]:
                out = "out%d" % nout
                nout += 1
            else:
                out = None
            hs.append((b.ask('set hw simif fout "%s"' % (out or "NULL")),))
    b.run()
    rec = []
    with S.parsing():
        ver = b.res(hv).strip()
        desc = [[int(x, 16), [ord(c) for c in y]] for x, y in re.findall(r"^0x(..)/. [^:]+: (.*?)\r?$", b.res(hi), flags=re.M)]
        rec.append(dict(k="init", cells=cells, ver=[ord(c) for c in ver], desc=desc, con=[]))
        for e, h in zip(events, hs):
            r = {k: v for k, v in e.items() if k not in ("how", "file")}
            x = b.res(h[0])
            con = ""
            k = e["k"]
            if k in ("w", "r", "run"):
                con = x[:re.search(r"\s*Stop at", x).start()]
                if k == "run":
                    con = re.sub(r"Simulation started, PC=0x[0-9a-f]+\s*", "", con)
                r["pc"] = int(b.res(h[1]))
                if k == "r":
                    r["v"] = int(b.res(h[2]))
            elif k in ("cw", "cr"):
                mm = re.match(r"(.*)0x([0-9a-f]+)\s*$" if e["how"] == "con" else r"(.*?)0x[0-9a-f]{2,6} +([0-9a-f]+) .*$", x, flags=re.S)
                con, r["got"] = mm.group(1), int(mm.group(2), 16)
            elif k == "close":
                r["b"] = list(open(os.path.join(d, e["file"]), "rb").read()) if e["file"] else []
            if k in ("at", "fin", "fout", "close") and x.strip():
                con = x
            r["con"] = [ord(c) for c in con]
            rec.append(r)
            if k in ("w", "run") and r["pc"] == r["pc0"] + r.get("n", 0) and name != "s51":
                break       # the disassembly shown at the stop has looked at the cell the instruction names
    return rec


def job(a):
    return record(*a)


def show(e):
    return " ".join(str(e[k]) for k in ("k", "how", "a", "v", "n", "m", "b") if k in e)


def check(ctx, n, length):
    names = sorted(T)
    bins = ctx.build(names)
    hist, args = [], []
    for i in range(n):
        nm = names[i % len(names)]
        g = Gen(ctx.rnd(("simif", i)), nm, length)
        g.gen()
        hist.append([dict(k="init " + nm)] + g.ev)
        args.append((bins[nm], nm, g.ev, g.cells, ctx.wd))
    with ProcessPoolExecutor(8) as ex:
        sess = list(ex.map(job, args))
    ctx.log("recorded %d histories, %d events" % (n, sum(map(len, sess))))
    M.validate(ctx, "TrSimIf", sess, lambda i: job(args[i]), show, hist)
