"""Histories of error classes for spec/Errors.tla."""
import re, tempfile
from concurrent.futures import ProcessPoolExecutor
from . import sim as S, mem as M

T = {
    "s51": dict(args=["-t", "C52"], code=0x100, rd="sfr[0x81]", sp=(0, 0xff, 8), lim=0,
                ins=dict(nop=[0], push=[0xc0, 0x30], pop=[0xd0, 0x30], call=[0x12, "H", "L"], bad=[0xa5], bad2=[0xe5, 0xe0]), n=dict(push=1, pop=1, call=2)),
    "mos6502": dict(args=[], code=0x400, rd="SP", sp=(0, 0xff, 8), lim=0,
                    ins=dict(nop=[0xea], push=[0x48], pop=[0x68], call=[0x20, "L", "H"]), n=dict(push=1, pop=1, call=2)),
    "z80": dict(args=[], code=0x4000, rd="SP", sp=(0x8000, 0xfffe, 16), lim=0xf000,
                ins=dict(nop=[0], push=[0xc5], pop=[0xc1], call=[0xcd, "L", "H"], push2=[0xdd, 0xe5]), n=dict(push=2, pop=2, call=2, push2=2)),
    "i8085": dict(args=[], code=0x4000, rd="SP", sp=(0x8000, 0xfffe, 16), lim=0,
                  ins=dict(nop=[0], push=[0xc5], pop=[0xc1], call=[0xcd, "L", "H"], psw=[0xf5]), n=dict(push=2, pop=2, call=2, psw=2)),
    "stm8": dict(args=["-t", "STM8S"], code=0x200, rd="SP", sp=(0x1000, 0x17ff, 16), lim=0x14ff,
                 ins=dict(nop=[0x9d], push=[0x88], pushw=[0x89], pop=[0x84], popw=[0x85], call=[0xcd, "H", "L"], imm=[0x4b, 7], far=[0xbc, "E", "H", "L"], farw=[0xbd, "E", "H", "L"]),
                 n=dict(push=1, pop=1, call=2, pushw=2, popw=2, imm=1)),
}
OP = dict(nop="nop", push="push", call="push", pop="pop", bad="bad", bad2="bad", pushw="push", popw="pop", imm="push", push2="push", psw="push", far="far", farw="far")
NAMES = ["non-classified", "stack", "stack_overflow", "memory", "invalid_address", "non_decoded", "unknown_code"]
WORDS = {"on": ["on", "1", "t", "true", "yes", "Y", "T", "on", "on"], "off": ["off", "0", "f", "false", "no", "n", "off", "N", "off"],
         "unset": ["unset", "Unset", "unset", "u", "U"], "bad": ["x", "maybe", "2"]}


class Gen:
    def __init__(self, r, name, length):
        self.r, self.name, self.t, self.length = r, name, T[name], length
        self.ev = []
        self.lim = self.t["lim"]

    def put(self, k, **e):
        self.ev.append(dict(e, k=k))

    def gen(self):
        r = self.r
        self.g_sp()
        while len(self.ev) < self.length:
            getattr(self, "g_" + r.choice(["set"] * 4 + ["show"] + ["lim", "roll"] + ["sp"] * 2 + ["run"] * 6))()
        return self.ev

    def g_set(self):
        r = self.r
        v = r.choice(["on", "off", "unset", "on", "off", "unset", "on", "bad"])
        n = r.choice(NAMES) if r.random() < .93 else r.choice(["nothing", "stack_over", "memoryx"])
        w = r.choice(WORDS[v])
        self.put("set", n=n, v=v, w=w, as_="".join(r.choice([c, c.upper()]) if r.random() < .2 else c for c in n))

    def g_show(self):
        self.put("show")

    def g_lim(self):
        if self.t["sp"][2] == 16:
            lo, hi, w = self.t["sp"]
            self.lim = self.r.choice([0, self.r.randrange(lo, hi), self.r.randrange(lo, hi)])
            self.put("lim", v=self.lim)

    def g_roll(self):
        if self.name == "stm8":
            self.put("roll", v=self.r.randrange(2))

    def g_sp(self):
        r = self.r
        lo, hi, w = self.t["sp"]
        v = r.randrange(lo, hi)
        if w == 8 and r.random() < .7:
            v = r.choice([0, 1, 2, 3, 4, 0xff, 0xfe, 0xfd, 0xfc, 0xfb])
        if w == 16 and r.random() < .7 and lo + 20 < self.lim < hi - 20:
            v = self.lim + r.randrange(-4, 9)
        self.put("sp", v=v)

    def g_run(self):
        r = self.r
        ops = sorted(self.t["ins"])
        q, a = [], self.t["code"]
        for i in range(r.choice([1, 2, 4, 8])):
            o = r.choice(ops)
            code = self.t["ins"][o]
            x = r.choice([0x27fff, 0x28000, 0x28001, 0xfffff, r.randrange(0x8000, 0x1000000), r.randrange(0x20000, 0x30000)]) if "E" in code else a + len(code)
            code = [{"H": x >> 8 & 255, "L": x & 255, "E": x >> 16}.get(c, c) for c in code]
            q.append(dict(op=OP[o], a=a, len=len(code), n=self.t["n"].get(o, 0), x=x if OP[o] == "far" else code[0], size=0x28000, code=code))
            a += len(code)
        self.put("run", q=q, max=0 if r.random() < .6 else r.randrange(1, len(q) + 1))


def parse_run(txt, t):
    msg, stop = [], []
    for ln in txt.split("\n"):
        m = re.match(r"Stack overflow, PC=0x([0-9a-f]+)$", ln)
        if m:
            msg.append(["stack_overflow", int(m.group(1), 16)])
        m = re.match(r"error: unknown instruction code at 0x([0-9a-f]+) \(([0-9a-f]+)\)", ln)
        if m:
            msg.append(["unknown_code", int(m.group(1), 16), int(m.group(2), 16)])
        m = re.match(r"error: invalid address 0x([0-9a-f]+) in memory rom\.", ln)
        if m:
            msg.append(["invalid_address", int(m.group(1), 16)])
        m = re.match(r"error: access of non-decoded", ln)
        if m:
            msg.append(["non_decoded"])
        m = re.match(r"Erroneous instruction: . ?0x([0-9a-f]+)|Erroneous instruction: +0x([0-9a-f]+)", ln)
        if m:
            msg.append(["instruction", int(m.group(1) or m.group(2), 16)])
        m = re.match(r"Stop at 0x([0-9a-f]+): \((\d+)\)", ln)
        if m:
            stop.append((int(m.group(1), 16), int(m.group(2))))
    # an instruction of several stores may report the same error more than once
    one = []
    for x in msg:
        if x not in one:
            one.append(x)
    return one, stop


def record(binary, name, events, wd):
    t = T[name]
    b = S.Batch(binary, t["args"], tempfile.mkdtemp(dir=wd))
    b.do("fill rom %d %d 0" % (t["code"], t["code"] + 0x100))
    if t["sp"][2] == 16:
        b.do("expr sp_limit=%d" % t["lim"])
    hs = []
    for e in events:
        k, h = e["k"], None
        if k == "set":
            b.do("set error %s %s" % (e["as_"], e["w"]))
        elif k == "show":
            h = b.ask("show error")
        elif k == "lim":
            b.do("expr sp_limit=%d" % e["v"])
        elif k == "roll":
            b.do("expr rollover=%d" % e["v"])
        elif k == "sp":
            b.do("expr %s=%d" % (t["rd"], e["v"]))
        elif k == "run":
            q = e["q"]
            b.do("set mem rom %d %s" % (t["code"], " ".join(str(c) for i in q for c in i["code"])))
            end = q[-1]["a"] + q[-1]["len"]
            if e["max"]:
                b.do("pc %d" % t["code"])
                h = b.ask("step %d" % e["max"])
            else:
                h = b.ask("run %d %d" % (t["code"], end))
            h = (h, b.ask("expr %s" % t["rd"]), b.ask("pc"))
            b.do("clear %d" % end)
            b.do("echo .")
        hs.append(h)
    b.run()
    out = [dict(k="init", cpu=name, lim=t["lim"], sp=0)]
    for e, h in zip(events, hs):
        e = dict(e)
        k = e["k"]
        if k == "show":
            with S.parsing():
                rep = []
                for ln in b.res(h).split("\n"):
                    m = re.match(r"( *)error: (\S+) \[(\w+)/(\w+)\]$", ln)
                    if m:
                        rep.append([len(m.group(1)) // 2, m.group(2), m.group(3), m.group(4)])
            e["rep"] = rep
        elif k == "run":
            with S.parsing():
                msg, stop = parse_run(b.res(h[0]), t)
                sp = int(re.match(r"\s*(\d+)", b.res(h[1])).group(1))
                pc = int(re.search(r"0x([0-9a-f]+)", b.res(h[2])).group(1), 16)
                # one stop, at the address where PC is
                e["o"] = dict(pc=pc if [pc] == [s[0] for s in stop] else -1, sp=sp, stop=stop[0][1] if stop else -1, msg=msg)
            e["q"] = [{x: i[x] for x in i if x != "code"} for i in e["q"]]
        out.append(e)
    return out


def job(a):
    return record(*a)


def show(e):
    if e["k"] == "run":
        return "run %s %s" % (e["max"] or "", " ".join(bytes(i["code"]).hex() for i in e["q"]))
    return " ".join(str(e[k]) for k in ("k", "as_", "w", "v") if k in e)


def check(ctx, n, length):
    names = sorted(T)
    bins = ctx.build(names)
    hist, args = [], []
    for i in range(n):
        nm = names[i % len(names)]
        g = Gen(ctx.rnd(("errs", i)), nm, length)
        g.gen()
        hist.append([dict(k="init " + nm)] + g.ev)
        args.append((bins[nm], nm, g.ev, ctx.wd))
    with ProcessPoolExecutor(8) as ex:
        sess = list(ex.map(job, args))
    ctx.log("recorded %d histories, %d events" % (n, sum(map(len, sess))))
    M.validate(ctx, "TrErrors", sess, lambda i: job(args[i]), show, hist)
