"""Histories of value change dumpers for spec/Vcd.tla."""
import os, re, tempfile
from concurrent.futures import ProcessPoolExecutor
from . import sim as S, mem as M

# cells (the spec calls cell a of space k: 100000*k + a), instructions; ncyc: clocks of a NOP
T = {
    "s51": dict(args=["-t", "C52"], spaces=["iram", "xram"], cells=[(0, 0x20), (0, 0x23), (0, 0x2f), (0, 0x40), (0, 0x77), (1, 0x40), (1, 0x1234)],
                code=0x100, nop=[0], len=12, bits=lambda a: False,
                ins={"mov": lambda a, v, b: [0x75, a, v], "inc": lambda a, v, b: [5, a], "dec": lambda a, v, b: [0x15, a],
                     "setb": lambda a, v, b: [0xd2, (a - 0x20) * 8 + b], "clrb": lambda a, v, b: [0xc2, (a - 0x20) * 8 + b]}),
    "stm8": dict(args=["-t", "STM8S"], spaces=["rom"], cells=[(0, 0x100), (0, 0x101), (0, 0x10), (0, 0x3fe)], code=0x200, nop=[0x9d], len=1, bits=lambda a: True,
                 ins={"mov": lambda a, v, b: [0x35, v, a >> 8, a & 255], "inc": lambda a, v, b: [0x72, 0x5c, a >> 8, a & 255],
                      "dec": lambda a, v, b: [0x72, 0x5a, a >> 8, a & 255], "setb": lambda a, v, b: [0x72, 0x10 + 2 * b, a >> 8, a & 255],
                      "clrb": lambda a, v, b: [0x72, 0x11 + 2 * b, a >> 8, a & 255]}),
}


def key(c):
    return c[0] * 100000 + c[1]


class Gen:
    def __init__(self, r, name, length):
        self.r, self.t, self.length = r, T[name], length
        self.mhz = r.choice([1, 2, 4, 8])
        self.ns = 1000 // self.mhz
        self.cells = list(self.t["cells"])
        r.shuffle(self.cells)
        self.nd = r.choice([1, 2, 3])
        self.mode = [None] + [r.choice(["out", "out", "in"]) for i in range(self.nd)]
        self.src = self.cells[:len(self.cells) // 2]        # driven by inputs
        self.out = self.cells[len(self.src):]
        self.st = ["off"] * (self.nd + 1)
        self.vars = [[] for i in range(self.nd + 1)]
        self.ready = [False] * (self.nd + 1)
        self.ev = []

    def put(self, k, **e):
        self.ev.append(dict(e, k=k))

    def field(self):
        r = self.r
        if r.random() < .35:
            return dict(c=self.r.choice(self.out), hi=7, lo=0, how="cell")
        hi = r.randrange(8)
        lo = r.choice([hi, r.randrange(hi + 1)])
        return dict(c=r.choice(self.out), hi=hi, lo=lo, how=r.choice(["bits", "nums"]))

    def gen(self):
        r = self.r
        self.init = [[c, r.randrange(256)] for c in self.cells]
        for d in range(1, self.nd + 1):
            self.set_up(d)
        while len(self.ev) < self.length:
            getattr(self, "g_" + r.choice(["w"] * 4 + ["ins"] * 12 + ["tick", "tick", "ctl", "ctl", "ctl", "peek", "peek", "run"]))()
        for d in range(1, self.nd + 1):
            self.put("stop", d=d)
        return self.ev

    def set_up(self, d):
        r = self.r
        if self.mode[d] == "out":
            for i in range(r.choice([0, 1, 2, 3, 6, 20]) if not self.vars[d] else r.randrange(3)):
                self.g_add(d)
        else:
            self.g_input(d)
        if r.random() < .8:
            self.g_start(d)

    def g_add(self, d):
        x = self.field()
        self.vars[d].append(x)
        self.put("add", d=d, x=x)

    def g_del(self, d):
        self.put("del", d=d, x=dict(self.r.choice(self.vars[d])) if self.vars[d] and self.r.random() < .8 else self.field())

    def g_input(self, d):
        r = self.r
        n = r.choice([1, 2, 3])
        vs = []
        # fields of different cells, or not overlapping: order of changes at one time does not matter
        ids = list("!\"#$%&01bBxz.r~A9")
        r.shuffle(ids)
        mine = [c for i, c in enumerate(self.src) if i % self.nd == d - 1] or self.src
        for i in range(n):
            x = self.field()
            x = dict(c=r.choice(mine), hi=x["hi"], lo=x["lo"], id=ids[i])
            if not any((v["c"], v["hi"], v["lo"]) == (x["c"], x["hi"], x["lo"]) for v in vs):
                vs.append(x)
        unit = r.choice([u for u in (1, 10, 100, 1000, 10000) if u <= 1000 * self.t["len"]])
        step = self.ns * self.t["len"]
        t, ev = r.choice([0, 0, step * 3 + 500]), []
        t -= t % unit
        for i in range(r.randrange(25)):
            for j in range(r.choice([0, 1, 1, 1, 2])):
                v = r.randrange(len(vs))
                ev.append([t, v + 1, r.randrange(1 << (vs[v]["hi"] - vs[v]["lo"] + 1))])
            if not ev or ev[-1][0] != t:
                ev.append([t, 0, 0])
            t += r.choice([1, 1, 2, 3, 7]) * step // r.choice([1, 2, 3]) + unit
            t -= t % unit
        self.put("input", d=d, vs=vs, ev=ev, unit=unit, style=r.randrange(1 << 30))
        self.ready[d] = True

    def g_start(self, d):
        r = self.r
        if self.st[d] == "off":
            if self.mode[d] == "out":
                # units that divide the length of a clock and those which do not
                self.put("file", d=d, scale=r.choice([None, None, None, (1, "us"), (10, "us"), (1, "ns"), (100, "ns"), (125, "ns"), (1, "ms"), "auto"]))
            elif not self.ready[d]:
                return
            self.st[d] = "on"
            self.put("start", d=d, cmd=r.choice(["start", "start", "restart"]))

    def g_ctl(self):
        r = self.r
        d = r.randrange(1, self.nd + 1)
        x = r.choice(["start", "pause", "pause", "resume", "resume", "stop", "del", "add", "lim", "shift", "input"])
        if x == "start":
            self.g_start(d)
        elif x == "pause":
            if self.st[d] == "pause":
                self.st[d] = "on"
                self.put("resume", d=d, cmd="pause")
            else:
                self.put("pause", d=d)
                if self.st[d] == "on":
                    self.st[d] = "pause"
        elif x == "resume" and self.st[d] != "off":
            self.put("resume", d=d, cmd=r.choice(["start", "restart"]))
            self.st[d] = "on"
        elif x == "stop":
            if r.random() < .3:
                self.put("stop", d=d)
                self.st[d] = "off"
                self.set_up(d)
        elif x == "del" and self.mode[d] == "out":
            self.g_del(d)
        elif x == "add" and self.mode[d] == "out":
            self.g_add(d)
        elif x == "lim" and self.mode[d] == "out":
            self.put("lim", d=d, ns=r.choice([1, 5, 20, 30]) * 1000)
        elif x == "shift" and self.mode[d] == "in":
            self.put("shift", d=d, ns=r.choice([1, 3, 10]) * 700)
        elif x == "input" and self.mode[d] == "in" and self.st[d] == "off":
            self.g_input(d)

    def g_w(self):
        self.put("w", c=self.r.choice(self.cells), v=self.r.randrange(256), how=self.r.choice(["set", "expr"]))

    def g_ins(self):
        r = self.r
        cs = [c for c in self.cells if c[0] == 0]
        c = r.choice(cs)
        op = r.choice(["mov", "mov", "inc", "dec", "setb", "clrb", "nop"])
        if op in ("setb", "clrb") and not self.t["bits"](c[1]):
            op = "inc"
        self.put("ins", op=op, c=c, v=r.randrange(256), b=r.randrange(8))

    def g_tick(self):
        self.put("tick", n=self.r.choice([1, 1, 2, 5, 20]))

    def g_peek(self):
        self.put("peek", c=self.r.choice(self.src + self.cells))

    def g_run(self):
        d = [i for i in range(1, self.nd + 1) if self.mode[i] == "in"]
        n = self.r.randrange(1, 12)
        if not d:
            return
        d = self.r.choice(d)
        self.put("brk", d=d)
        self.put("run", n=n)
        self.put("brk", d=d)


def vcd_text(e):
    """the input file in one of many layouts"""
    import random
    r = random.Random(e["style"])
    unit = e["unit"]
    u = "%d%s" % ((unit, "ns") if unit < 1000 or r.random() < .3 else (unit // 1000, "us"))
    out = []
    if r.random() < .7:
        out.append("$date\n\tthis day 1!\n$end")
    out.append(r.choice(["$timescale %s $end", "$timescale\n %s\n$end"]) % u)
    out.append("$scope module top $end")
    for i, v in enumerate(e["vs"]):
        n = "in%d_%d" % (e["d"], v["ci"])
        if (v["hi"], v["lo"]) != (7, 0):
            n += ".%d" % v["lo"] if v["hi"] == v["lo"] else "[%d:%d]" % (v["hi"], v["lo"])
        out.append("$var wire %d %s %s $end" % (v["hi"] - v["lo"] + 1, v["id"], n))
    out.append("$upscope $end\n$enddefinitions $end")
    last = None
    for t, v, val in e["ev"]:
        if t != last:
            out.append("#%d" % (t // unit))
            last = t
        if r.random() < .1:
            out.append("$comment 0%s 1! b1 $end" % (e["vs"][0]["id"]))
        if v:
            x = e["vs"][v - 1]
            if x["hi"] == x["lo"] and r.random() < .8:
                out.append("%d%s" % (val, x["id"]))
            else:
                b = bin(val)[2:]
                out.append("%s%s %s" % (r.choice("bB"), b if r.random() < .5 else b.zfill(x["hi"] - x["lo"] + 1), x["id"]))
    return "\n".join(out) + "\n"


UNIT = {"ms": 1000000, "us": 1000, "ns": 1, "ps": 0}


def parse_vcd(path, t, names):
    txt = open(path).read()
    head, body = txt.split("$enddefinitions $end\n")
    n, u = re.search(r"\$timescale (\d+)([a-z]+) \$end", head).groups()
    unit, div = int(n) * UNIT[u], 1
    if u == "ps":
        unit, div = 1, 1000 // int(n)
    vs, ids = [], {}
    for w, i, name in re.findall(r"^\$var wire (\d+) (\S) (\S+) \$end$", head, flags=re.M):
        m = re.match(r"(?:(\w+?)_0x([0-9a-f]+)|(\w+?))(?:\.(\d+)|\[(\d+):(\d+)\])?$", name)
        c = names[m.group(3)] if m.group(3) else (t["spaces"].index(m.group(1)), int(m.group(2), 16))
        hi, lo = (int(m.group(4)),) * 2 if m.group(4) else (int(m.group(5)), int(m.group(6))) if m.group(5) else (7, 0)
        if i in ids or int(w) != hi - lo + 1:
            raise ValueError("bad $var " + name)
        ids[i] = len(vs)
        vs.append(dict(c=key(c), hi=hi, lo=lo, ch=[]))
    body = re.sub(r"\$comment.*?\$end", "", body, flags=re.S)
    now, mono, want = None, True, None
    for w in body.split():
        if want is not None:
            v = vs[ids[w]]
            if len(want) != v["hi"] - v["lo"] + 1:
                raise ValueError("bad vector " + want)
            v["ch"].append([now, -1 if "x" in want else int(want, 2)])
            want = None
        elif w[0] == "#":
            if int(w[1:]) % div:
                raise ValueError("time off the clock " + w)
            x = int(w[1:]) // div
            mono = mono and (now is None or x >= now)
            now = x
        elif w[0] == "b":
            want = w[1:]
        elif w[0] in "01x":
            v = vs[ids[w[1:]]]
            if v["hi"] != v["lo"]:
                raise ValueError("scalar value of a vector")
            v["ch"].append([now, -1 if w[0] == "x" else int(w[0])])
        elif w not in ("$dumpvars", "$dumpon", "$dumpoff", "$end"):
            raise ValueError("unexpected " + w)
    return dict(u=unit, mono=mono, vs=vs)


def record(binary, name, events, g, wd):
    t = T[name]
    d = tempfile.mkdtemp(dir=wd)
    b = S.Batch(binary, t["args"] + ["-X", "%dM" % g["mhz"]], d)
    sp, code = t["spaces"], t["code"]
    names = {}
    for i, (c, v) in enumerate(g["init"]):
        b.do("set mem %s %d %d" % (sp[c[0]], c[1], v))
        for dd in range(1, g["nd"] + 1):
            names["in%d_%d" % (dd, i)] = tuple(c)
    ci = {tuple(c): i for i, (c, v) in enumerate(g["init"])}
    vars_done = set()
    for dd in range(1, g["nd"] + 1):
        b.do("set hw vcd[0] new %d" % dd)
    hs, nf, cur = [], 0, [None] * (g["nd"] + 1)

    def prog(p):
        b.do("expr " + ",".join("rom[%d]=%d" % (code + i, v) for i, v in enumerate(p)))

    def fld(x):
        c = x["c"]
        if x["how"] == "cell":
            return "%s[%d]" % (sp[c[0]], c[1])
        if x["how"] == "nums":
            return "%s %d %s" % (sp[c[0]], c[1], "%d" % x["lo"] if x["hi"] == x["lo"] else "%d %d" % (x["hi"], x["lo"]))
        return "%s[%d]%s" % (sp[c[0]], c[1], ".%d" % x["lo"] if x["hi"] == x["lo"] else "[%d:%d]" % (x["hi"], x["lo"]))
    for e in events:
        k = e["k"]
        hw = "set hw vcd[%d] " % e.get("d", 0)
        h = None
        if k in ("add", "del"):
            b.do(hw + k + " " + fld(e["x"]))
        elif k == "file":
            cur[e["d"]] = "o%d.vcd" % nf
            nf += 1
            if e["scale"]:
                b.do(hw + ("timescale auto" if e["scale"] == "auto" else "timescale %d %s" % e["scale"]))
            b.do(hw + 'output "%s"' % cur[e["d"]])
        elif k == "input":
            for v in e["vs"]:
                v["ci"] = ci[tuple(v["c"])]
                nm = "in%d_%d" % (e["d"], v["ci"])
                if nm not in vars_done:
                    vars_done.add(nm)
                    b.do("var %s %s[%d]" % (nm, sp[v["c"][0]], v["c"][1]))
            with open(os.path.join(d, "i%d.vcd" % nf), "w") as f:
                f.write(vcd_text(e))
            b.do(hw + 'input "i%d.vcd"' % nf)
            nf += 1
        elif k in ("start", "resume"):
            b.do(hw + e["cmd"])
        elif k == "pause":
            b.do(hw + "pause")
            b.do("echo .")          # "Not started" comes without a newline
        elif k == "stop":
            b.do(hw + "stop")
            e["file"] = cur[e["d"]]
        elif k == "lim":
            b.do(hw + ("pausetime %d ns" % e["ns"] if e["ns"] % 3 else "pausetime %d us" % (e["ns"] // 1000)))
        elif k == "shift":
            b.do(hw + "starttime %d ns" % e["ns"])
        elif k == "brk":
            b.do(hw + "break")
        elif k == "w":
            c = e["c"]
            b.do("set mem %s %d %d" % (sp[c[0]], c[1], e["v"]) if e["how"] == "set" else "expr %s[%d]=%d" % (sp[c[0]], c[1], e["v"]))
        elif k == "ins":
            prog(t["nop"] if e["op"] == "nop" else t["ins"][e["op"]](e["c"][1], e["v"], e["b"]))
            b.do("PC=%d" % code)
            b.do("step")
            h = b.ask("state")
        elif k == "tick":
            b.do("tick %d" % e["n"])
            h = b.ask("state")
        elif k == "peek":
            h = b.ask("expr /d %s[%d]" % (sp[e["c"][0]], e["c"][1]))
        elif k == "run":
            prog(t["nop"] * 14)
            b.do("run %d %d" % (code, code + e["n"]))
            h = b.ask("expr /d PC")
            b.do("clear %d" % (code + e["n"]))
        hs.append(h)
    b.run()
    rec = [dict(k="init", cells=[[key(c), v] for c, v in g["init"]], n=g["nd"], ns=1000 // g["mhz"])]
    on = {}
    with S.parsing():
        for e, h in zip(events, hs):
            k = e["k"]
            r = {x: v for x, v in e.items() if x not in ("how", "file", "cmd", "unit", "style", "scale")}
            if k == "file":
                continue
            if k in ("w", "ins", "peek"):
                r["c"] = key(e["c"])
            if k in ("add", "del"):
                r["x"] = dict(c=key(e["x"]["c"]), hi=e["x"]["hi"], lo=e["x"]["lo"])
            if k in ("ins", "tick"):
                r["t1"] = int(re.search(r"\((\d+) clks\)", b.res(h)).group(1))
            if k == "peek":
                r["v"] = int(b.res(h))
            if k == "run":
                r["len"] = t["len"]
                r["cnt"] = int(b.res(h)) - code
            if k == "input":
                r["vs"] = [dict(c=key(v["c"]), hi=v["hi"], lo=v["lo"]) for v in e["vs"]]
            if k == "start":
                on[e["d"]] = True
            if k == "stop" and on.get(e["d"]) and e["file"]:
                r["f"] = parse_vcd(os.path.join(d, e["file"]), t, names)
                on[e["d"]] = False
            rec.append(r)
    return rec


def job(a):
    return record(*a)


def show(e):
    return " ".join(str(e[k]) for k in ("k", "d", "cmd", "x", "op", "c", "v", "b", "n", "ns", "vs", "ev", "scale") if k in e)


def check(ctx, n, length):
    names = sorted(T)
    bins = ctx.build(names)
    hist, args = [], []
    for i in range(n):
        nm = names[i % len(names)]
        g = Gen(ctx.rnd(("vcd", i)), nm, length)
        g.gen()
        info = dict(mhz=g.mhz, nd=g.nd, init=g.init)
        hist.append([dict(k="init " + nm)] + [e for e in g.ev if e["k"] != "file"])
        args.append((bins[nm], nm, g.ev, info, ctx.wd))
    with ProcessPoolExecutor(8) as ex:
        sess = list(ex.map(job, args))
    ctx.log("recorded %d histories, %d events" % (n, sum(map(len, sess))))
    M.validate(ctx, "TrVcd", sess, lambda i: job(args[i]), show, hist)
