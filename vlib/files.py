"""Histories of file loads, checks and dumps for spec/Load.tla (over the memory
histories of vlib/mem.py)."""
import os, re
from concurrent.futures import ProcessPoolExecutor
from . import mem as M, sim as S

ROMN = 64       # modelled part of the program memory


class FGen(M.Gen):
    def gen(self):
        self.w = self.r.choice([8, 8, 8, 16, 16, 24, 12])
        self.cw = self.w
        self.nf = 0
        self.last = None
        self.put(k="pre", s="rom", c="rom_chip", n=ROMN, w=8)
        evs = super().gen()
        return evs

    def fsize(self, s):
        return self.spaces[s][:2] if s in self.spaces else (0, self.chips[s][0]) if s in self.chips else (0, ROMN)

    def ftarget(self):
        k = self.r.random()
        if k < .2:
            return "rom"
        return self.target()

    def units(self, s):
        return 1 if s == "rom" else (self.w + 7) // 8

    def byte(self):
        return self.r.choice([0, 0xff, self.r.randrange(256), self.r.randrange(256), 0x41])

    def where(self, s):
        """a place in the file (cell), a number of cells, an offset and a range"""
        r = self.r
        st, n = self.fsize(s)
        off = r.choice([0, 0, 0, 0, 1, 5, -1, -3, 16])
        c = st + r.randrange(n) - off
        k = r.random()
        if s == "rom":
            c = r.randrange(0, 40)
            off = r.choice([0, 0, 3, -2])
        elif k < .08:
            c = st + n - 1 - off
        elif k < .12:
            c = max(0, st - 1 - off)
        elif k < .3 and s in self.spaces:
            c = r.randrange(st + n, 5 * n + st + 2) - off       # banks
        c = max(0, c)
        return c, off

    def recs(self, fmt, s):
        r = self.r
        out = []
        u = self.units(s) if fmt in ("hex", "s19") else 1
        c, off = self.where(s)
        top = 0
        for i in range(r.choice([1, 1, 2, 3, 5])):
            bad = r.random() < .12
            n = r.choice([1, 2, 3, 4, 6, 8])
            if s != "rom" and c + off >= sum(self.fsize(s)) and u > 1:
                n = 1
            a = c * u + (r.randrange(u) if r.random() < .4 else 0)
            d = [self.byte() for x in range(n)]
            if fmt == "hex":
                if r.random() < .12:
                    q = [2, 0, 0, 4, 0, 1 if r.random() < .3 else 0]
                    top = q[5]
                    out.append(q + [-sum(q) & 255])
                if r.random() < .08:
                    q = [2, 0, 0, r.choice([3, 5]), 0x10, 0]
                    out.append(q + [-sum(q) & 255])
                if a > 0xff00:
                    a = 0xff00
                q = [n, a >> 8, a & 255, 0] + d
                out.append(q + [(-sum(q) & 255) ^ (r.randrange(1, 256) if bad else 0)])
                if top and r.random() < .8:
                    top = 0
                    q = [2, 0, 0, 4, 0, 0]
                    out.append(q + [-sum(q) & 255])
            elif fmt == "s19":
                k = r.choice([1, 1, 2, 3])
                if r.random() < .15:
                    out.append(self.srec(r.choice([0, 5]), 2, 3, [1, 2, 3], False))
                out.append(self.srec(k, k + 1, a, d, bad))
            elif fmt == "omf":
                if r.random() < .2:
                    out.append([2, 4, 0, 1, 2, 3, 0])
                q = [6, n + 4, 0, 0, a & 255, a >> 8] + d
                out.append(q + [-sum(q) & 255])
            elif fmt == "p2h":
                out.append([self.val(self.w if s != "rom" else 8) & ((1 << 24) - 1), c])
            else:
                out.append([self.val(self.w if s != "rom" else 8) & ((1 << 24) - 1)])
            c = max(0, c + r.choice([n // u, 1, -1, -2, 0, 3]))
            if r.random() < .3:
                c, x = self.where(s)
            if s == "rom":
                c = min(c, 40)
        if fmt == "hex" and r.random() < .8:
            out.append([0, 0, 0, 1, 255])
            if r.random() < .2:
                q = [1, 0, r.randrange(8), 0, 0x55]
                out.append(q + [-sum(q) & 255])
        if fmt == "s19" and r.random() < .7:
            out.append(self.srec(9, 2, 0, [], False))
        return out, off

    def srec(self, k, ab, a, d, bad):
        q = [ab + len(d) + 1] + [(a >> (8 * (ab - 1 - i))) & 255 for i in range(ab)] + d
        return [k] + q + [(255 - sum(q) & 255) ^ (self.r.randrange(1, 256) if bad else 0)]

    def rng(self, s):
        st, n = self.fsize(s)
        k = self.r.random()
        if k < .7:
            return [0, -1]
        a, b = sorted((st + self.r.randrange(n), st + self.r.randrange(n)))
        return [a, -1] if k < .78 else [a, b]

    def g_load(self):
        r = self.r
        s = self.ftarget()
        fmt = r.choice(["hex", "hex", "hex", "s19", "s19", "omf", "p2h", "asc"])
        recs, off = self.recs(fmt, s)
        dl = s == "rom" and fmt == "hex" and r.random() < .4
        if dl:
            if [0, 0, 0, 1, 255] in recs:
                recs = recs[:recs.index([0, 0, 0, 1, 255])]
            recs = recs + [[0, 0, 0, 1, 255]]
        self.put(k="load", s=s, fmt=fmt, recs=recs, off=0 if dl else off, rng=[0, -1] if dl else self.rng(s), f=self.nf, dl=dl)
        self.last = dict(self.ev[-1], dl=False)
        self.nf += 1

    def g_check(self):
        r = self.r
        if self.last and r.random() < .6 and (self.last["s"] in self.spaces or self.last["s"] in self.chips or self.last["s"] == "rom"):
            e = dict(self.last, k="check")
            if r.random() < .3:
                e["rng"] = self.rng(e["s"])
        else:
            s = self.ftarget()
            fmt = r.choice(["hex", "hex", "s19", "omf", "p2h", "asc"])
            recs, off = self.recs(fmt, s)
            e = dict(k="check", s=s, fmt=fmt, recs=recs, off=off, rng=self.rng(s), f=self.nf)
        if self.w % 8:
            return
        e["f"] = self.nf
        self.nf += 1
        self.put(**e)

    def drange(self):
        s = self.target()
        st, n = self.fsize(s)
        a, b = sorted((st + self.r.randrange(n), st + self.r.randrange(n)))
        return s, a, b

    def g_dumpi(self):
        s, a, b = self.drange()
        self.put(k="dumpi", s=s, a=a, e=b)

    def g_round(self):
        """hex dump into a file, then loaded into another memory"""
        s, a, b = self.drange()
        t = self.target()
        self.put(k="dumpi", s=s, a=a, e=b, f=self.nf)
        o = self.fsize(t)[0] - self.fsize(s)[0] if self.r.random() < .7 else 0
        self.put(k="load", s=t, fmt="hex", recs=None, off=o, rng=[0, -1], f=self.nf, dl=False)
        self.nf += 1

    def g_dumph(self):
        s, a, b = self.drange()
        self.put(k="dump", s=s, a=a, e=b, bpl=self.r.choice([1, 2, 3, 4, 7, 16, 32]))

    def g_cont(self):
        s, a, b = self.drange()
        st, n = self.fsize(s)
        self.put(k="cont", s=s, b=a, e=b, a=b + 1 if b + 1 < st + n else st, how=self.r.choice(["/h", "/h", "/i"]))

    def g_str(self):
        s, a, b = self.drange()
        if self.w != 8:
            return self.g_dumpi()
        n = self.r.randrange(1, 7)
        self.put(k="set", s=s, a=a, v=[self.r.choice([39, 34, 63, 92, 7, 8, 12, 10, 13, 9, 11, 65, 122, 32, 126, 127, 1, 200, 255, self.r.randrange(256)])
                                       for i in range(n)] + [0], how="set")
        self.put(k="dumps", s=s, a=a)


def content(e):
    r, fmt = e["recs"], e["fmt"]
    hx = lambda q: "".join("%02X" % x for x in q)
    if fmt == "omf":
        return b"".join(bytes(q) for q in r)
    lines = {"hex": lambda q: ":" + hx(q), "s19": lambda q: "S%d" % q[0] + hx(q[1:]),
             "p2h": lambda q: "%08X //C %06x" % (q[0], q[1]), "asc": lambda q: "%x  comment" % q[0]}[fmt]
    # the end of the last line may be missing, lines may end as on other systems
    eol = "\n" if e.get("dl") else ["\n", "\n", "\r\n"][e["f"] % 3]
    t = eol.join(map(lines, r)) + ("" if e["f"] % 5 == 4 and not e.get("dl") else eol)
    return t.encode()


def fname(e):
    return "f%d.%s" % (e["f"], {"hex": "ihx", "omf": "omf", "s19": "s19", "p2h": "p2h", "asc": "asc"}[e.get("fmt", "hex")])


def spec(e, d):
    t = os.path.join(d, fname(e))
    if e["s"] != "rom":
        t += "@" + e["s"]
    if e["off"]:
        t += ":%d" % e["off"]
    if e["rng"] != [0, -1]:
        t += "#%d" % e["rng"][0] + ("-%d" % e["rng"][1] if e["rng"][1] != -1 else "")
    return t


def commands(e, d="."):
    k = e["k"]
    if k == "pre":
        return []
    if k in ("load", "check"):
        if e.get("dl"):
            return ["download"] + content(e).decode().split("\n")[:-1]
        return ['%s "%s"' % ("file" if k == "load" else "check", spec(e, d))]
    if k == "dumpi":
        return ["dump /i %s %d %d%s" % (e["s"], e["a"], e["e"], ' >"%s"' % os.path.join(d, fname(e)) if "f" in e else "")]
    if k == "dumps":
        return ["dump /s %(s)s %(a)d" % e]
    if k == "cont":
        return ["dump %s %s %d %d" % (e["how"], e["s"], e["b"], e["e"])]
    if k == "dump" and "bpl" in e:
        return ["dump /h %(s)s %(a)d %(e)d %(bpl)d" % e]
    return M.commands(e)


def hexrecs(txt):
    out = []
    for ln in txt.split("\n"):
        ln = ln.strip()
        if ln == "":
            continue
        if not re.match(r":([0-9A-Fa-f]{2})+$", ln):
            raise ValueError("hex record " + ln)
        out.append([int(ln[i:i + 2], 16) for i in range(1, len(ln), 2)])
    return out


def cells(txt):
    """cells of dump /h lines of any width (address, then values of w digits)"""
    out = []
    for ln in txt.splitlines():
        m = re.match(r"0x([0-9a-f]+) ((?:[0-9a-f]+ )+)", ln)
        if not m:
            raise ValueError("dump line " + ln)
        out.append((int(m.group(1), 16), [int(x, 16) for x in m.group(2).split()]))
    return out


def record(binary, events, wd):
    import shutil, tempfile
    d = tempfile.mkdtemp(dir=wd)
    try:
        return _record(binary, events, d)
    finally:
        shutil.rmtree(d)



def _record(binary, events, d):
    b = S.Batch(binary, [], d)
    size, st, w = {}, {}, {}
    hs = []
    for e in events:
        k = e["k"]
        if k in ("load", "check") and e["recs"] is not None and not e.get("dl"):
            with open(os.path.join(d, fname(e)), "wb") as f:
                f.write(content(e))
        if k == "pre":
            size["rom"] = size["rom_chip"] = ROMN
            st["rom"] = st["rom_chip"] = 0
            w["rom"] = w["rom_chip"] = 8
        if k == "mkchip":
            size[e["c"]], st[e["c"]], w[e["c"]] = e["n"], 0, e["w"]
        if k == "mkspace":
            size[e["s"]], st[e["s"]], w[e["s"]] = e["n"], e["st"], e["w"]
        b.mark()
        for c in commands(e, d):
            b.do(c)
        if k == "cont":
            h = b.ask("dump /h %s" % e["s"])
        else:
            h = b.mark()
        if k == "rmchip":
            size.pop(e["c"], None)
        hs.append((h, [(n, b.ask("dump /h %s %d %d" % (n, st[n], st[n] + size[n] - 1)), st[n], size[n], w[n]) for n in sorted(size)]))
    b.run()
    out = []
    loaded = {}
    for e, (h, dumps) in zip(events, hs):
        txt = b.res(h)
        k = e["k"]
        r = dict(e)
        r.pop("how", None)
        o = {}
        with S.parsing():
            for n, dh, lo, sz, wd_ in dumps:
                dd = M.parse_dump(b.res(dh), wd_, lo, lo + sz - 1)
                o[n] = [dd[a] for a in range(lo, lo + sz)]
            r["o"] = o
            r["ok"] = True
            if k.startswith("mk") or k == "rmchip":
                r["ok"] = txt.strip() == ""
            elif k == "load" and e["recs"] is None:
                r["recs"] = loaded[e["f"]]
            elif k == "check":
                r["ans"] = [[int(x, 16) - (1 << 32 if int(x, 16) > 0x7fffffff else 0) for x in q] for q in
                            re.findall(r"^Diff at ([0-9a-f]+), FILE=([0-9a-f]+) MEM=([0-9a-f]+)", txt, re.M)]
            elif k == "dumpi":
                if "f" in e:
                    with open(os.path.join(d, fname(e))) as f:
                        txt = f.read()
                r["recs"] = hexrecs(txt)
                if "f" in e:
                    loaded[e["f"]] = r["recs"]
            elif k == "dumps":
                r["ans"] = [ord(c) for c in txt.rstrip("\n")]
            elif k == "dump":
                n = e["s"]
                lo, hi = max(e["a"], st[n]), min(e["e"], st[n] + size.get(n, 0) - 1)
                if "bpl" in e:
                    r["ans"] = []
                    if hi - lo + 1 > 0:
                        q = M.parse_dump(txt, w[n], lo, hi, e["bpl"])
                        r["ans"] = [[a, q[a]] for a in sorted(q)]
                else:
                    q = M.parse_dump(txt, w[n], lo, hi) if lo <= hi else {}
                    r["ans"] = [[a, q[a]] for a in sorted(q)]
            elif k == "cont":
                n = e["s"]
                m = re.match(r"0x([0-9a-f]+) ", txt)
                a = int(m.group(1), 16)
                last = st[n] + size[n] - 1
                q = M.parse_dump(txt, w[n], a, last) if st[n] <= a <= last else {a: -2}
                r["ans"] = [[x, q[x]] for x in sorted(q)]
            elif k == "get":
                r["ans"] = int(txt.split()[0])
            elif k == "cell":
                m = re.search(r"decoded to (\w+)\[(\d+)\]", txt)
                r["chip"], r["i"] = (m.group(1), int(m.group(2))) if m else ("", 0)
        out.append(r)
    return out


def gen(r, mix, length):
    return FGen(r, mix, length).gen()


def check(ctx, mix, n, length):
    binary = ctx.build(["s51"])["s51"]
    histories = [gen(ctx.rnd(("file", i)), mix, length) for i in range(n)]
    with ProcessPoolExecutor(8) as ex:
        sess = list(ex.map(record, [binary] * n, histories, [ctx.wd] * n))
    ctx.log("recorded %d histories, %d commands" % (n, sum(map(len, sess))))
    M.validate(ctx, "TrMem", sess, lambda i: record(binary, histories[i], ctx.wd),
               lambda e: "; ".join(commands(e)) + (" <%s>" % content(e).decode("latin1") if e.get("recs") and e["k"] in ("load", "check") else ""),
               histories)
