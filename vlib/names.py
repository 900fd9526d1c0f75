"""Histories of commands about named cells and bits for spec/Names.tla."""
import re, tempfile
from concurrent.futures import ProcessPoolExecutor
from . import sim as S, mem as M

T = {
    "s51": dict(args=["-t", "C52"], sp={"iram": (0x28, 16, 8), "xram": (0x100, 8, 8), "variables": (0, 12, 32), "rom": (0x200, 8, 8)}),
    "avr": dict(args=[], sp={"iram": (0x80, 16, 8), "variables": (0, 12, 32), "rom": (0x300, 8, 16)}),
    "pdk": dict(args=["-t", "PDK14"], sp={"ram": (0x20, 16, 8), "variables": (0, 12, 32)}),
    "pblaze": dict(args=[], sp={"iram": (0x10, 16, 8), "variables": (0, 12, 32)}),
}
NAMES = ["zq%d" % i for i in range(1, 6)] + ["zqa", "zqA", "zqB", "_zq_", "zq_"]


class Gen:
    def __init__(self, r, name, length):
        self.r, self.t, self.length = r, T[name], length
        self.ev, self.v = [], {}
        self.dataspaces = [x for x in self.t["sp"] if x != "rom"]

    def put(self, k, **e):
        e["k"] = k
        if "p" in e and (k != "var"):
            d = self.at(e["p"])                  # where the names of the command are at this time
            e["at"] = {"sp": d["sp"]}
        self.ev.append(e)

    def gen(self):
        for i in range(3):
            self.g_var()
        while len(self.ev) < self.length:
            getattr(self, "g_" + self.r.choice(["var"] * 4 + ["rmvar", "expr", "expr", "let", "let", "setn", "set", "fill", "dump", "dump", "dump", "dumpb", "dumpb", "info", "info", "pc"]))()
        return self.ev

    def addr(self, sp):
        lo, n, w = self.t["sp"][sp]
        return lo + self.r.choice([self.r.randrange(n), self.r.randrange(4)])

    def space(self):
        return self.r.choice(list(self.t["sp"]))

    def bits(self, sp):
        w = min(self.t["sp"][sp][2], 30)
        a, b = self.r.randrange(w), self.r.randrange(w)
        return (a, a) if self.r.random() < .4 else (w - 1, 0) if w < 30 and self.r.random() < .15 else (a, b)

    def known(self, f=lambda d: True):
        q = [n for n in self.v if f(self.v[n])]
        return self.r.choice(q) if q else None

    def place(self, bit=None, rom=False):
        """an existing name or a location"""
        n = self.known(lambda d: (rom or d["sp"] != "rom") and (bit is None or (d["hi"] >= 0) == bit))
        if n and self.r.random() < .6:
            return {"n": n}
        sp = self.r.choice(self.dataspaces)
        hi, lo = self.bits(sp) if (bit if bit is not None else self.r.random() < .5) else (-1, -1)
        return {"sp": sp, "a": self.addr(sp), "hi": max(hi, lo), "lo": min(hi, lo)}

    def at(self, p):
        return self.v[p["n"]] if "n" in p else p

    def value(self, d):
        w = min(self.t["sp"][d["sp"]][2] if d["hi"] < 0 else d["hi"] - d["lo"] + 1, 29)
        return self.r.choice([self.r.randrange(1 << w), 0, (1 << w) - 1])

    def g_var(self):
        r = self.r
        n = r.choice(NAMES)
        if r.random() < .05:
            return self.put("var", n="9zq", invalid=True, p={"sp": self.dataspaces[0], "a": self.addr(self.dataspaces[0]), "hi": -1, "lo": -1}, form=0)
        if r.random() < .12:
            used = [d["a"] for d in self.v.values() if d["sp"] == "variables"]
            free = [a for a in range(12) if a not in used]
            if free:
                self.v[n] = {"sp": "variables", "a": free[0], "hi": -1, "lo": -1}
                self.put("var", n=n, invalid=False, form=0)
            return
        if r.random() < .15:
            o = self.known(lambda d: True)
            if o:
                self.put("var", n=n, invalid=False, p={"n": o}, form=0)
                self.v[n] = dict(self.v[o])
                return
        sp = self.space()
        a = self.addr(sp)
        if r.random() < .05:
            hi, lo = self.bits(sp) if r.random() < .6 else (-1, -1)
            return self.put("var", n=n, invalid=False, p={"sp": sp, "a": 0x123456, "hi": hi, "lo": lo}, form=0)
        hi, lo = self.bits(sp) if r.random() < .6 else (-1, -1)
        if r.random() < .05:
            return self.put("var", n=n, invalid=False, p={"sp": sp, "a": a, "hi": r.choice([32, 40]), "lo": 3}, form=0)
        p = {"sp": sp, "a": a, "hi": hi, "lo": lo}
        self.put("var", n=n, invalid=False, p=p, form=r.randrange(2))
        self.v[n] = {"sp": sp, "a": a, "hi": max(hi, lo), "lo": min(hi, lo)}

    def g_rmvar(self):
        n = self.r.choice(NAMES)
        self.put("rmvar", n=n)
        self.v.pop(n, None)

    def g_expr(self):
        self.put("expr", p=self.place(rom=True))

    def g_let(self):
        p = self.place()
        self.put("let", p=p, x=self.value(self.at(p)))

    def g_setn(self):
        p = self.place(bit=True)
        self.put("setn", p=p, x=[self.value(self.at(p))], form=self.r.randrange(2))

    def g_set(self):
        p = self.place(bit=False)
        d = self.at(p)
        lo, n, w = self.t["sp"][d["sp"]]
        k = min(self.r.choice([1, 1, 2, 3, 9]), lo + n - d["a"])
        self.put("set", p=p, x=[self.value(d) for i in range(k)], form=self.r.randrange(2))

    def g_fill(self):
        p = self.place(bit=False)
        d = self.at(p)
        lo, n, w = self.t["sp"][d["sp"]]
        e = {"sp": d["sp"], "a": min(d["a"] + self.r.randrange(4), lo + n - 1), "hi": -1, "lo": -1}
        self.put("fill", p=p, e=e, x=self.value(d))

    def g_dump(self):
        p = self.place(bit=False)
        d = self.at(p)
        lo, n, w = self.t["sp"][d["sp"]]
        e = {"sp": d["sp"], "a": min(d["a"] + self.r.choice([0, 1, 2, 5, 11]), lo + n - 1), "hi": -1, "lo": -1}
        self.put("dump", p=p, e=e)

    def g_dumpb(self):
        p = self.place(bit=True)
        d = self.at(p)
        self.put("dumpb", p=p)

    def g_info(self):
        self.put("info", n=self.r.choice(["", "", self.r.choice(NAMES[:7])]))

    def g_pc(self):
        n = self.known(lambda d: d["sp"] == "rom" and d["hi"] < 0)
        if n:
            self.put("pc", p={"n": n})


def loc(p, adr=False):
    """as one word: NAME, SPACE[ADDRESS], SPACE[ADDRESS].BIT or SPACE[ADDRESS][HIGH:LOW]"""
    if "n" in p:
        return p["n"]
    s = "%s[0x%x]" % (p["sp"], p["a"])
    return s if p["hi"] < 0 else s + (".%d" % p["hi"] if p["hi"] == p["lo"] else "[%d:%d]" % (max(p["hi"], p["lo"]), min(p["hi"], p["lo"])))


def text(e, at):
    """at: where the names of the command are"""
    k, p = e["k"], e.get("p")
    if k == "var":
        if p is None:
            return "var " + e["n"]
        if "n" in p or e.get("form"):
            return "var %s %s" % (e["n"], loc(p))
        return "var %s %s 0x%x%s" % (e["n"], p["sp"], p["a"], "" if p["hi"] < 0 else " %d" % p["hi"] if p["hi"] == p["lo"] else " %d %d" % (p["hi"], p["lo"]))
    if k == "rmvar":
        return "rmvar " + e["n"]
    if k == "expr":
        return "expr " + loc(p)
    if k == "let":
        return "expr /n %s=%d" % (loc(p), e["x"])
    two = lambda q: "%s %s" % (at["sp"], q["n"] if "n" in q else "0x%x" % q["a"])
    if k in ("setn", "set"):
        return "set %s %s %s" % ("bit" if k == "setn" and e["form"] else "mem", two(p) if k == "set" else loc(p), " ".join(str(x) for x in e["x"]))
    if k == "fill":
        return "fill %s 0x%x %d" % (two(p), e["e"]["a"], e["x"])
    if k == "dump":
        return "dump %s 0x%x" % (two(p), e["e"]["a"])
    if k == "dumpb":
        return "dump " + loc(p)
    if k == "info":
        return "info var " + (e["n"] or "zq")
    return "pc " + loc(p)


def bits(m):
    """0b--0101- -> high, low, value"""
    f = m.strip("-")
    lo = len(m) - len(m.rstrip("-"))
    return lo + len(f) - 1, lo, int(f, 2) if f else 0


def parse_dump(txt, w):
    """[address, name, high, low, value]; a line that has a name only shares the data of the next one"""
    out, pend, a = [], [], None
    for ln in txt.split("\n"):
        m = re.match(r"0x([0-9a-f]+)(?:\.\d+|\[\d+:\d+\])?(?=\s)", ln)
        if m:
            a = int(m.group(1), 16)
            ln = ln[m.end():]
        elif not ln.startswith(" "):
            continue
        m = re.match(r"\s*([A-Za-z_]\w*)(\.\d+|\[\d+:\d+\])?:", ln)
        if m:
            pend.append(m.group(1))
            ln = ln[m.end():]
        ln = ln.lstrip()
        if not ln:
            continue
        m = re.match(r"0b([-01]+)\s+0x([0-9a-f]+)\s", ln)
        if m:
            hi, lo, v = bits(m.group(1))
            if v != int(m.group(2), 16):
                v = -1                           # the line contradicts itself
            for n in pend or [""]:
                out.append([a, n, hi, lo, v])
        else:
            n, x = w // 4, []
            while re.match(r"[0-9a-f]{%d}(\s|$)" % n, ln):
                x.append(int(ln[:n], 16))
                ln = ln[n + 1:]
            if n == 2:                           # the characters may look like one more value
                while x and len(ln.strip()) < len(x) and not (len(ln) >= 1 and len(ln.lstrip()) <= len(x) and tail(x, ln)):
                    ln = "%02x %s" % (x.pop(), ln)
            if not x:
                raise S.SimError("unreadable dump line %r" % ln)
            for i, y in enumerate(x):
                for nm in (pend if i == 0 and pend else [""]):
                    out.append([a + i, nm, w - 1, 0, y])
            a += len(x)
        pend = []
    if pend:
        raise S.SimError("dump ends without data: %r" % txt[-200:])
    return out


def tail(x, ln):
    return ln.rstrip("\r\n").endswith("".join(chr(v) if 32 <= v < 127 else "." for v in x))


def parse_info(txt):
    out = []
    for ln in txt.split("\n"):
        m = re.match(r"(\w+) (\w+)\[0x([0-9a-f]+)\](?:\.(\d+)|\[(\d+):(\d+)\])? = (0x|0b)?([0-9a-f]+),", ln)
        if m:
            n, sp, a, b, hi, lo, x, v = m.groups()
            hi, lo = (b, b) if b else (hi, lo) if hi else (-1, -1)
            out.append([n, sp, int(a, 16), int(hi), int(lo), int(v, 16 if x == "0x" else 2)])
    return out


def memories(t, b):
    hs = []
    for sp in t["sp"]:
        lo, n, w = t["sp"][sp]
        hs.append(b.ask("dump /h %s 0x%x 0x%x" % (sp, lo, lo + n - 1)))
    return hs


def contents(t, b, hs):
    out = {}
    for h, sp in zip(hs, t["sp"]):
        lo, n, w = t["sp"][sp]
        q = {}
        for ln in b.res(h).split("\n"):
            m = re.match(r"0x([0-9a-f]+) (.*)", ln)
            if m:
                a = int(m.group(1), 16)
                for i, x in enumerate(re.match(r"((?:[0-9a-f]{%d} )+)" % (w // 4), m.group(2)).group(1).split()):
                    if lo <= a + i < lo + n:
                        q.setdefault(a + i, int(x, 16))
        if len(q) != n:
            raise S.SimError("unreadable dump of %s: %s" % (sp, b.res(h)[:300]))
        out[sp] = {"lo": lo, "q": [q[a] for a in sorted(q)]}
    return out


def record(binary, name, events, wd, vals):
    t = T[name]
    b = S.Batch(binary, t["args"], tempfile.mkdtemp(dir=wd))
    for sp in t["sp"]:
        b.do("set mem %s 0x%x %s" % (sp, t["sp"][sp][0], " ".join(str(x) for x in vals[sp])))
    first = memories(t, b)
    hs = []
    for e in events:
        h = b.ask(text(e, e.get("at")))
        hs.append((h, memories(t, b)))
    b.run()
    out = []
    with S.parsing():
        out.append(dict(k="init", mem=contents(t, b, first), w={sp: t["sp"][sp][2] for sp in t["sp"]}))
        for e, (h, mh) in zip(events, hs):
            e = dict(e)
            k, r = e["k"], b.res(h)
            e["mem"] = contents(t, b, mh)
            at = e.pop("at", None)
            if k == "var":
                e["o"] = "name" if "name is invalid" in r else "address" if "invalid address" in r else "bits" if "max bit" in r else "".join(r.split())
            elif k in ("rmvar", "let", "fill"):
                e["o"] = "".join(r.split())
            elif k == "expr":
                e["o"] = int(r) if re.match(r"\s*-?\d+\s*$", r) else -999
            elif k in ("dump", "dumpb", "set", "setn"):
                e["o"] = parse_dump(r, t["sp"][at["sp"]][2])
            elif k == "info":
                e["o"] = [x for x in parse_info(r)]
            elif k == "pc":
                m = re.search(r"^\W*0x([0-9a-f]+)\s", r, flags=re.M)
                e["o"] = int(m.group(1), 16) if m else -999
            out.append(e)
    return out


def job(a):
    return record(*a)


def show(e):
    return text(e, e.get("at")) if e["k"] != "init" else "init " + e["cpu"]


def check(ctx, n, length):
    names = sorted(T)
    bins = ctx.build(names)
    hist, args = [], []
    for i in range(n):
        nm = names[i % len(names)] if i % 2 else "s51"
        r = ctx.rnd(("names", i))
        g = Gen(r, nm, length)
        g.gen()
        vals = {sp: [r.randrange(1 << min(w, 29)) for _ in range(k)] for sp, (lo, k, w) in T[nm]["sp"].items()}
        hist.append([dict(k="init", cpu=nm)] + g.ev)
        args.append((bins[nm], nm, g.ev, ctx.wd, vals))
    with ProcessPoolExecutor(8) as ex:
        sess = list(ex.map(job, args))
    ctx.log("recorded %d histories, %d events" % (n, sum(map(len, sess))))
    M.validate(ctx, "TrNames", sess, lambda i: job(args[i]), show, hist)
