"""Histories of executions for spec/Hist.tla."""
import re, tempfile
from concurrent.futures import ProcessPoolExecutor
from . import sim as S, mem as M

hl = lambda op: lambda a, t: [op, t >> 8, t & 255]
lh = lambda op: lambda a, t: [op, t & 255, t >> 8]
T = {
    "s51": dict(args=["-t", "C52"], base=0x1000, nop=0, jmp=hl(2)),
    "z80": dict(args=[], base=0x1000, nop=0, jmp=lh(0xc3)),
    "i8085": dict(args=[], base=0x1000, nop=0, jmp=lh(0xc3)),
    "mos6502": dict(args=[], base=0x1000, nop=0xea, jmp=lh(0x4c)),
    "stm8": dict(args=["-t", "STM8S"], base=0x200, nop=0x9d, jmp=hl(0xcc)),
    "m6800": dict(args=[], base=0x1000, nop=1, jmp=hl(0x7e)),
    "avr": dict(args=[], base=0x400, nop=0, jmp=lambda a, t: [0xc000 | ((t - a - 1) & 0xfff)]),
}
SIZE = 0x200


class Gen:
    def __init__(self, r, name, length, long=False):
        self.r, self.t, self.length, self.long = r, T[name], length, long
        self.ev = []

    def put(self, k, **e):
        self.ev.append(dict(e, k=k))

    def gen(self):
        r, b = self.r, self.t["base"]
        self.j = {}
        if self.long:
            for i in range(3):
                self.put("line", a=b + r.randrange(3), n=r.choice([3000, 4000, 5000, 10000, 9999, 10050]))
                self.put("info")
                self.put("list", n=r.choice([3, 10]))
            self.put("list", n=r.choice([10000, 12000]))
        else:
            at = r.sample(range(8, SIZE - 8, 4), r.choice([2, 6, 20]))
            for a in at:
                self.j[b + a] = r.choice([b + a, b + r.choice(at), b + 4 * r.randrange(SIZE // 4 - 2)])
            self.j[b + SIZE - 8] = b + 4
        while len(self.ev) < self.length:
            getattr(self, "g_" + r.choice(["step"] * 4 + ["run"] * 4 + ["info"] * 3 + ["list"] * 4 + ["clear"]))()
        return self.ev

    def start(self):
        return self.t["base"] + 4 * self.r.randrange(SIZE // 4 - 2)

    def g_step(self):
        if self.long:
            return self.put("line", a=self.t["base"] + self.r.randrange(8), n=self.r.choice([1, 5, 60, 200]))
        self.put("step", a=self.start(), n=self.r.choice([1, 1, 2, 5, 20, 80]))

    def g_run(self):
        if self.long:
            return self.put("run", a=self.t["base"], b=self.t["base"] + 7)
        a = self.start()
        p, path = a, []
        for i in range(self.r.choice([1, 2, 5, 60])):
            p = self.j.get(p, p + 1)
            path.append(p)
        if path[-1] != a:           # "Addresses must be different"
            self.put("run", a=a, b=path[-1])

    def g_info(self):
        self.put("info")

    def g_clear(self):
        self.put("clear")

    def g_list(self):
        self.put("list", n=self.r.choice([10, 10, 1, 2, 5, 50, 1000, 0, -1]), how=self.r.randrange(3))


def record(binary, name, events, j, wd):
    t = T[name]
    b = S.Batch(binary, t["args"], tempfile.mkdtemp(dir=wd))
    b.do("fill rom %d %d %d" % (t["base"], t["base"] + (12000 if any(e["k"] == "line" for e in events) and name != "stm8" else SIZE), t["nop"]))
    for a in j:
        b.do("set mem rom %d %s" % (a, " ".join(str(x) for x in t["jmp"](a, j[a]))))
    hs = []
    for e in events:
        k, h = e["k"], None
        if k in ("step", "line"):
            b.do("pc %d" % e["a"])
            b.do("step %d" % e["n"])
            h = b.ask("pc")
        elif k == "run":
            b.do("run %d %d" % (e["a"], e["b"]))
            h = b.ask("pc")
        elif k == "clear":
            b.do("history clear")
        elif k == "info":
            h = b.ask("history info")
        elif k == "list":
            h = b.ask("history" if e["n"] == 10 and e.get("how") == 1 else "history list" if e["n"] == 10 and e.get("how") == 2 else "history list %d" % e["n"])
        hs.append(h)
    b.run()
    out = [dict(k="init", j=[[a, j[a]] for a in sorted(j)])]
    for e, h in zip(events, hs):
        e = dict(e)
        k = e["k"]
        with S.parsing():
            if k in ("step", "line", "run"):
                e["pc"] = int(re.search(r"0x([0-9a-f]+)", b.res(h)).group(1), 16)
            elif k == "info":
                e["o"] = [int(re.search(w + r": (\d+)$", b.res(h), flags=re.M).group(1)) for w in ("len", "used", "insts")]
            elif k == "list":
                o = []
                for ln in b.res(h).split("\n"):
                    m = re.match(r"\W*0x([0-9a-f]+)\s", ln)
                    if m:
                        n = re.search(r"\((\d+) times\)", ln)
                        o.append([int(m.group(1), 16), int(n.group(1)) if n else 1])
                e["o"] = o
        out.append(e)
    return out


def job(a):
    return record(*a)


def show(e):
    return " ".join(str(e[k]) for k in ("k", "a", "b", "n", "j") if k in e)


def check(ctx, n, length):
    names = sorted(T)
    bins = ctx.build(names)
    hist, args = [], []
    for i in range(n):
        nm = names[i % len(names)]
        g = Gen(ctx.rnd(("hist", i)), nm, length, long=i % 70 < 2 and nm not in ("stm8", "avr"))
        g.gen()
        hist.append([dict(k="init " + nm, j=sorted(g.j.items()))] + g.ev)
        args.append((bins[nm], nm, g.ev, g.j, ctx.wd))
    with ProcessPoolExecutor(8) as ex:
        sess = list(ex.map(job, args))
    ctx.log("recorded %d histories, %d events" % (n, sum(map(len, sess))))
    M.validate(ctx, "TrHist", sess, lambda i: job(args[i]), show, hist)
