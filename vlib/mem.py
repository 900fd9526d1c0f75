"""Histories of memory commands for spec/Mem.tla: random chips, spaces, decoders,
bankers, banders, writes and searches on the console of the 8051 simulator."""
import json, os, re
from concurrent.futures import ProcessPoolExecutor
from . import tlc as T, sim as S
from .core import Violation


class Gen:
    """One history.  The only thing tracked here is which objects exist."""

    def __init__(self, r, mix, length):
        self.r, self.mix, self.length = r, mix, length
        self.ev = []
        self.w = r.choice([8, 8, 8, 16, 24, 4, 12]) if r.random() < .7 else 1
        self.cw = 8 if self.w == 1 else self.w
        self.chips, self.spaces = {}, {}

    def val(self, w):
        r = self.r
        if w == 1:
            return r.choice([0, 1, 1, 0, 2])
        return r.choice([0, 1, (1 << w) - 1, r.randrange(1 << w), r.randrange(1 << w), r.choice([97, 65, 98, 66]) % (1 << w),
                         (1 << w) + r.randrange(8)])

    def put(self, **e):
        if e["k"] == "set" and e["s"] in self.spaces and e["a"] < self.spaces[e["s"]][0] and e["how"] != "set":
            e["v"] = e["v"][:1]
        self.ev.append(e)

    def space(self):
        return self.r.choice(sorted(self.spaces))

    def data(self):
        return self.r.choice([s for s in sorted(self.spaces) if s != "sl"])

    def chip(self):
        return self.r.choice([c for c in sorted(self.chips) if c != "cl"] or ["ca"])

    def addr(self, n, slack=1):
        st, sz = self.spaces[n][:2] if n in self.spaces else (0, self.chips.get(n, (4, 8))[0])
        if self.r.random() < .06:
            return max(0, self.r.choice([st - 1, st + sz, st + sz + 1]))
        return st + self.r.randrange(sz)

    def area(self, s):
        st, n, w = self.spaces[s]
        k = self.r.random()
        if k < .15:
            return st, st + n - 1
        if k < .2:
            return self.addr(s), self.addr(s)
        b, e = sorted((st + self.r.randrange(n), st + self.r.randrange(n)))
        if k > .98:
            e = st + n
        return b, e

    def gen(self):
        r = self.r
        self.chips["cl"] = (4, 8)
        self.spaces["sl"] = (r.choice([0, 0, 5]), 4, 8)
        self.put(k="mkchip", c="cl", n=4, w=8)
        self.put(k="mkspace", s="sl", st=self.spaces["sl"][0], n=4, w=8)
        self.put(k="mkdec", s="sl", b=self.spaces["sl"][0], e=self.spaces["sl"][0] + 3, c="cl", cb=0)
        for c in ("ca", "cb", "cc")[:r.choice([2, 3])]:
            n = r.choice([4, 8, 12, 20, 24])
            self.chips[c] = (n, self.cw)
            self.put(k="mkchip", c=c, n=n, w=self.cw)
        for s in ("sa", "sb")[:r.choice([1, 2, 2])]:
            st, n = r.choice([0, 0, 3, 16, 250]), r.choice([6, 8, 16, 24])
            self.spaces[s] = (st, n, self.w)
            self.put(k="mkspace", s=s, st=st, n=n, w=self.w)
        for i in range(self.length):
            getattr(self, "g_" + r.choice(self.mix))()
        return self.ev

    def g_dec(self):
        s, c = self.data(), self.chip()
        b, e = self.area(s)
        cb = self.r.choice([0, 0, self.r.randrange(self.chips.get(c, (4,))[0] + 1)])
        n = self.chips.get(c, (4,))[0]
        if self.r.random() < .5 and n > 1:
            e = min(e, b + max(0, n - cb - 1))
        self.put(k="mkdec", s=s, b=b, e=e, c=c, cb=cb)

    def g_banker(self):
        s = self.data()
        b, e = self.area(s)
        sa = self.addr("sl")
        mask = self.r.choice([1, 2, 3, 6, 0x30, 0x80, 7, 5, 0, 0x14])
        self.put(k="mkbanker", sel="sl", sa=sa, mask=mask, s=s, b=b, e=e)
        for n in range(self.r.choice([0, 1, 2, 3])):
            self.bank(s, b)

    def bank(self, s, b):
        c = self.chip()
        self.put(k="mkbank", s=s, b=b, n=self.r.choice([0, 0, 1, 1, 2, 3, 5, 8]), c=c,
                 cb=self.r.choice([0, 0, self.r.randrange(self.chips.get(c, (4,))[0] + 1)]))

    def g_bank(self):
        s = self.data()
        self.bank(s, self.addr(s))

    def g_bander(self):
        if self.w != 1:
            return self.g_dec()
        s, c = self.data(), self.chip()
        b, e = self.area(s)
        self.put(k="mkbander", s=s, b=b, e=e, c=c, cb=self.r.randrange(self.chips.get(c, (4,))[0] + 1),
                 bpc=self.r.choice([8, 8, 8, 1, 2, 3, 4, 5]), dist=self.r.choice([1, 1, 2, 3]))

    def g_rmchip(self):
        if self.r.random() < .5:
            c = self.chip()
            self.put(k="rmchip", c=c)
            self.chips.pop(c, None)

    def g_newchip(self):
        for c in ("cd", "ce", "cf", "cg"):
            if c not in self.chips and not any(e.get("c") == c for e in self.ev):
                n = self.r.choice([4, 8, 16])
                self.chips[c] = (n, self.cw)
                return self.put(k="mkchip", c=c, n=n, w=self.cw)

    def target(self):
        k = self.r.random()
        if k < .15 and self.chips:
            return self.chip() if self.chip() in self.chips else self.data()
        return self.data()

    def g_sel(self):
        self.put(k="set", s="sl", a=self.addr("sl"), v=[self.r.choice([0, 1, 2, 3, 6, 0x10, 0x30, 0x80, 0xff, self.r.randrange(256)])
                                                        for i in range(self.r.choice([1, 1, 1, 2]))],
                 how=self.r.choice(["set", "expr", "fill"]))

    def width(self, s):
        return self.spaces[s][2] if s in self.spaces else self.chips[s][1]

    def g_set(self):
        s = self.target()
        n = self.r.choice([1, 1, 2, 5])
        self.put(k="set", s=s, a=self.addr(s), v=[self.val(self.width(s)) for i in range(n)], how=self.r.choice(["set", "set", "expr"]))

    def g_fill(self):
        s = self.target()
        b, e = self.area(s) if s in self.spaces else (0, self.chips[s][0] - 1)
        if b > e:
            b, e = e, b
        self.put(k="fill", s=s, a=b, e=e, v=self.val(self.width(s)))

    def g_where(self):
        s = self.target()
        w = self.width(s)
        m = (1 << w) - 1
        p = [self.r.choice([0, 1, 97, 65, 66, 98, 0xff]) & m for i in range(self.r.choice([1, 1, 2, 3, 4]))]
        self.put(k="where", s=s, p=p, cs=self.r.random() < .5)

    def g_hole(self):
        s = self.target()
        self.put(k="hole", s=s, v=self.r.choice([0, 1, 65]) & ((1 << self.width(s)) - 1), n=self.r.choice([0, 1, 2, 4]))

    def g_dump(self):
        s = self.target()
        a, e = self.addr(s), self.addr(s)
        if a > e:
            a, e = e, a
        self.put(k="dump", s=s, a=a, e=e)

    def g_get(self):
        s = self.data()
        self.put(k="get", s=s, a=self.spaces[s][0] + self.r.randrange(self.spaces[s][1]))

    def g_cell(self):
        s = self.data()
        self.put(k="cell", s=s, a=self.spaces[s][0] + self.r.randrange(self.spaces[s][1]))


def commands(e):
    k = e["k"]
    f = dict(e)
    if k == "mkchip":
        return ["memory create chip %(c)s %(n)d %(w)d" % f]
    if k == "mkspace":
        return ["memory create addressspace %(s)s %(st)d %(n)d %(w)d" % f]
    if k == "mkdec":
        return ["memory create addressdecoder %(s)s %(b)d %(e)d %(c)s %(cb)d" % f]
    if k == "mkbanker":
        return ["memory create banker %(sel)s %(sa)d %(mask)d %(s)s %(b)d %(e)d" % f]
    if k == "mkbank":
        return ["memory create bank %(s)s %(b)d %(n)d %(c)s %(cb)d" % f]
    if k == "mkbander":
        return ["memory create bander %(s)s %(b)d %(e)d %(c)s %(cb)d %(bpc)d %(dist)d" % f]
    if k == "rmchip":
        return ["memory remove chip %(c)s" % f]
    if k == "set":
        if f.get("how") == "expr":
            return ["expr %s[%d]=%d" % (f["s"], f["a"] + i, v) for i, v in enumerate(f["v"])]
        if f.get("how") == "fill":
            return ["fill %s %d %d %d" % (f["s"], f["a"] + i, f["a"] + i, v) for i, v in enumerate(f["v"])]
        return ["set mem %s %d %s" % (f["s"], f["a"], " ".join(map(str, f["v"])))]
    if k == "fill":
        return ["fill %(s)s %(a)d %(e)d %(v)d" % f]
    if k == "where":
        return ["%s %s %s" % ("Where" if f["cs"] else "where", f["s"], " ".join(map(str, f["p"])))]
    if k == "hole":
        return ["hole %(s)s %(n)d %(v)d" % f]
    if k == "dump":
        return ["dump /h %(s)s %(a)d %(e)d" % f]
    if k == "get":
        return ["expr %(s)s[%(a)d]" % f]
    if k == "cell":
        return ["memory cell %(s)s %(a)d" % f]
    raise AssertionError(k)


def parse_dump(txt, w, lo, hi, bpl=0):
    """{address: value} of dump /h of lo .. hi; cells nothing answers for may be
    wider than the others, so values are counted and not measured"""
    bpl = min(bpl or (4 if w > 16 else 8), hi - lo + 1)
    out = {}
    for ln in txt.splitlines():
        m = re.match(r"0x([0-9a-f]+) (.*)$", ln)
        if not m:
            raise ValueError("dump line " + ln)
        a = int(m.group(1), 16)
        n = min(bpl, hi - a + 1)
        t = m.group(2).split(" ", n)
        if a != lo + len(out) or len(t) < n + 1 or t[n] == "":
            raise ValueError("dump line " + ln)
        for x in t[:n]:
            if not re.match("[0-9a-f]+$", x):
                raise ValueError("dump line %s in %s" % (ln, txt))
            out[a] = int(x, 16)
            a += 1
    return out


def record(binary, events, wd):
    b = S.Batch(binary, [], wd)
    size, st, w = {}, {}, {}
    hs = []
    for e in events:
        if e["k"] == "mkchip":
            size[e["c"]], st[e["c"]], w[e["c"]] = e["n"], 0, e["w"]
        if e["k"] == "mkspace":
            size[e["s"]], st[e["s"]], w[e["s"]] = e["n"], e["st"], e["w"]
        h = None
        b.mark()
        for c in commands(e):
            b.do(c)
        h = b.mark()
        if e["k"] == "rmchip":
            size.pop(e["c"], None)
        hs.append((h, [(n, b.ask("dump /h %s %d %d" % (n, st[n], st[n] + size[n] - 1)), st[n], size[n], w[n]) for n in sorted(size)]))
    b.run()
    out = []
    for e, (h, dumps) in zip(events, hs):
        txt = b.res(h)
        r = dict(e)
        r.pop("how", None)
        o = {}
        with S.parsing():
            for n, dh, lo, sz, wd_ in dumps:
                d = parse_dump(b.res(dh), wd_, lo, lo + sz - 1)
                o[n] = [d[a] for a in range(lo, lo + sz)]
            r["o"] = o
            k = e["k"]
            r["ok"] = True
            if k.startswith("mk") or k == "rmchip":
                r["ok"] = txt.strip() == ""
            elif k == "where":
                r["ans"] = [int(ln.split()[0], 16) for ln in txt.splitlines() if ln.strip()] if e["s"] in o else []
            elif k == "hole":
                r["ans"] = [[int(ln.split()[0], 16), int(ln.split()[1])] for ln in txt.splitlines() if ln.strip()] if e["s"] in o else []
            elif k == "dump":
                n = e["s"]
                lo, hi = max(e["a"], st[n]), min(e["e"], st[n] + size.get(n, 0) - 1)
                d = parse_dump(txt, w[n], lo, hi) if lo <= hi else {}
                r["ans"] = [[a, d[a]] for a in sorted(d)]
            elif k == "get":
                r["ans"] = int(txt.split()[0])
            elif k == "cell":
                m = re.search(r"decoded to (\w+)\[(\d+)\]", txt)
                r["chip"], r["i"] = (m.group(1), int(m.group(2))) if m else ("", 0)
        out.append(r)
    return out


def gen(r, mix, length):
    return Gen(r, mix, length).gen()


def check(ctx, mix, n, length):
    binary = ctx.build(["s51"])["s51"]
    histories = [gen(ctx.rnd(("mem", i)), mix, length) for i in range(n)]
    with ProcessPoolExecutor(8) as ex:
        sess = list(ex.map(record, [binary] * n, histories, [ctx.wd] * n))
    ctx.log("recorded %d histories, %d commands" % (n, sum(map(len, sess))))
    validate(ctx, "TrMem", sess, lambda i: record(binary, histories[i], ctx.wd), lambda e: "; ".join(commands(e)), histories)


def validate(ctx, module, sess, again, show, src, workers=8):
    """sess: lists of events; a rejected session is recorded once more before it is reported"""
    path = os.path.join(ctx.wd, module + ".ndjson")

    def write(ss):
        with open(path, "w") as f:
            for s in ss:
                f.write(json.dumps(s) + "\n")
    write(sess)
    total = sum(len(s) for s in sess) + len(sess)
    res = T.run(module, env={"TRACE": path}, workers=workers, timeout=700 if ctx.thorough else 240)
    if res.ok:
        if res.distinct != total:
            raise T.TlcError("trace not consumed: %d states, expected %d" % (res.distinct, total))
        ctx.cov["states"] += res.distinct
        ctx.cov["transitions"] += res.generated
        ctx.cov["traces_validated_against_impl"] += len(sess)
        if len(ctx.cov["samples"]) < 3:
            ctx.cov["samples"].append([show(e) for e in src[0][:12]])
        ctx.log("%s: validated %d sessions (%d states)" % (module, len(sess), res.distinct))
        return
    bad = T.last_value(res.out, "bad") or "?"
    si = re.search(r"session \|-> (\d+)", bad)
    li = re.search(r"case \|-> (\d+)", bad)
    if not (si and li):
        raise T.TlcError("unreadable rejection:\n" + res.out[-3000:])
    si, li = int(si.group(1)) - 1, int(li.group(1)) - 1
    write([again(si)])
    res2 = T.run(module, env={"TRACE": path}, workers=1, timeout=700 if ctx.thorough else 240)
    if res2.ok:
        ctx.log("rejection not repeated; dropped")
        return
    nice = re.sub(r"\s+", " ", T.last_value(res2.out, "bad") or bad)
    hist = [show(e) for e in src[si][:li + 1]]
    rp = ctx.save_replay("history", {"history": hist, "rejected": sess[si][li], "verdict": nice})
    raise Violation("specification %s rejects command %d of history %d: %s: %s" %
                    (module, li, si, hist[-1], nice[:1500]), rp)
