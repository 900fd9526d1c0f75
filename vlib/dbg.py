"""Debugger sessions: random programs and command histories for spec/Dbg.tla.

A target assembles abstract instructions; the driver records the answers of the
real console and TLC decides them against the specification."""
import copy, json, os, re
from concurrent.futures import ProcessPoolExecutor
from . import tlc as T, sim as S
from .core import Violation

XTAL51 = 11059200.0


class Tgen:
    """Other simulators: nop, inc, ld, st, jmp, call, ret; clock ticks of every
    instruction are measured on the simulator before the sessions."""
    counters = False
    base = 0x400
    end = 0x100
    loopcell = 0
    xtal = 0
    without = ("reset",)

    def __init__(self, sim, binary, code, acc="A", rom="rom", data=None, args=(), cells=(0x300, 0x301, 0x302),
                 init=(), big=True, base=0x400, subs=True, leaf=False, step0=False):
        self.sim, self.binary, self.code, self.accvar, self.rom = sim, binary, code, acc, rom
        self.data = data or rom
        self.args = args
        self.cells = ["%s:%d" % (self.data, a) for a in cells]
        self.lo, self.hi = min(cells), max(cells)
        self.init = list(init)
        self.base, self.leaf = base, leaf
        self.ops = tuple(o for o in ("nop", "inc", "ld", "st") if o in code) + (("call",) if subs else ())
        self.ticks = {}

    def variant(self, name, **code):
        t = copy.copy(self)
        t.sim, t.ticks = self.sim + "/" + name, {}
        t.code = dict(self.code, **code)
        return t

    def setup(self, b):
        b.do("set error stack off")
        b.do("set error non-classified off")

    def setup2(self, b):
        for c in self.init:
            b.do(c)

    def size(self, op):
        return len(self.code[op])

    def bytes(self, op, a, x, y):
        ad = int(x.split(":")[1]) if x else y
        out = []
        for v in self.code[op]:
            if v == "h":
                out.append(ad >> 8)
            elif v == "l":
                out.append(ad & 255)
            elif v == "w":
                out.append(ad)
            elif isinstance(v, tuple):               # field of the code word
                out.append(v[0] | ad)
            elif v == "rc":                          # AVR: 12 bits relative to the next word
                out.append(0xd000 | ad - a - 1 & 0xfff)
            elif v == "r":
                out.append((ad - (a + len(self.code[op]))) & 255)
            elif v in ("rh", "rl"):                  # 16 bits, relative to the next instruction
                out.append((ad - (a + len(self.code[op])) >> (8 if v == "rh" else 0)) & 255)
            elif v == "r1":                      # relative to the operand byte
                out.append((ad - (a + len(self.code[op]) - 1)) & 255)
            else:
                out.append(v)
        return out

    def enc(self, op, a, x, y):
        return (self.bytes(op, a, x, y), self.ticks.get(op, 0), 0, 0)

    def plain(self, cell):
        return True

    def place(self, cell):
        return cell.split(":")

    def poke(self, cell, v):
        sp, a = cell.split(":")
        return "set mem %s %s 0x%x" % (sp, a, v)

    def windows(self):
        return [(self.data, self.lo, self.hi)]

    def cellname(self, sp, a):
        return "%s:%d" % (self.data, a)

    def calibrate(self, binary, wd):
        b = S.Batch(binary, self.args, wd)
        self.setup(b)
        hs = {}
        for op in self.code:
            a = self.base + 8
            y = self.base + 16
            x = self.cells[0] if op in ("ld", "st") else None
            b.do("reset")
            self.setup2(b)
            if op == "ret":
                for i, v in enumerate(self.bytes("call", a, None, y)):
                    b.do("set mem %s 0x%x 0x%x" % (self.rom, a + i, v))
                for i, v in enumerate(self.bytes("ret", y, None, 0)):
                    b.do("set mem %s 0x%x 0x%x" % (self.rom, y + i, v))
                b.do("pc 0x%x" % a)
                b.do("step")
            else:
                for i, v in enumerate(self.bytes(op, a, x, y)):
                    b.do("set mem %s 0x%x 0x%x" % (self.rom, a + i, v))
                b.do("pc 0x%x" % a)
            b.mark()
            b.do("step")
            hs[op] = b.mark()
        b.run(timeout=30)
        for op, h in hs.items():
            m = re.search(r"stepped (\d+) ticks", b.res(h))
            self.ticks[op] = int(m.group(1)) if m else 0


class T51:
    """MCS-51: all abstract instructions."""
    sim = "s51"
    binary = "s51"
    args = ("-t", "52")
    xtal = 11059200.0
    rom = "rom"
    accvar = "ACC"
    ops = ("nop", "inc", "ld", "st", "incm", "jz", "djnz", "xld", "xst", "call")
    cells = ["iram:%d" % a for a in range(0x60, 0x64)] + ["xram:%d" % a for a in (0x10, 0x11)]
    counters = True
    end = 0x100
    base = 0
    loopcell = 1

    def setup(self, b):
        b.do("set error stack off")

    def size(self, op):
        return {"nop": 1, "inc": 1, "ld": 2, "st": 2, "incm": 2, "jmp": 2, "jz": 2, "djnz": 3, "call": 3,
                "ret": 1, "dptr": 3, "xld": 1, "xst": 1}[op]

    def setup2(self, b):
        pass

    def enc(self, op, a, x, y):
        """(bytes, length, ticks, reads, writes)"""
        n = self.size(op)
        rel = lambda t: (t - (a + n)) & 0xff
        ad = int(x.split(":")[1]) if x else 0
        return {"nop": ([0x00], 12, 0, 0), "inc": ([0x04], 12, 0, 0), "ld": ([0xe5, ad], 12, 1, 0),
                "st": ([0xf5, ad], 12, 0, 1), "incm": ([0x05, ad], 12, 1, 1), "jmp": ([0x80, rel(y)], 24, 0, 0),
                "jz": ([0x60, rel(y)], 24, 0, 0), "djnz": ([0xd5, ad, rel(y)], 24, 1, 1),
                "call": ([0x12, y >> 8, y & 255], 24, 0, 2), "ret": ([0x22], 24, 2, 0),
                "dptr": ([0x90, ad >> 8, ad & 255], 24, 0, 2), "xld": ([0xe0], 24, 3, 0), "xst": ([0xf0], 24, 2, 1)}[op]

    def plain(self, cell):
        return cell.startswith("iram")

    def place(self, cell):
        return cell.split(":")

    def poke(self, cell, v):
        sp, a = cell.split(":")
        return "set mem %s %s 0x%x" % (sp, a, v)


def gen_program(t, rng, nbody):
    """main loop with forward branches, short count loops and leaf subroutines.
    Returns {address: entry}, bytes, list of addresses fit to start at."""
    items = []          # (label, op, x, y-label)
    ncell = len(t.cells)
    subs = ["s%d" % i for i in range(rng.randint(1, 3))] if "call" in t.ops else []
    base = [o for o in t.ops if o not in ("call", "djnz", "jz", "xld", "xst")]
    nl = [0]

    def newl():
        nl[0] += 1
        return "L%d" % nl[0]

    def simple():
        op = rng.choice(base + [o for o in ("xld", "xst") if o in t.ops])
        if op in ("xld", "xst"):
            c = rng.choice([c for c in t.cells if c.startswith("xram")])
            return [(None, "dptr", c, None), (None, op, c, None)]
        c = rng.choice([c for c in t.cells[t.loopcell:] if t.plain(c)]) if op in ("ld", "st", "incm") else None
        return [(None, op, c, None)]

    def body(n, calls):
        out = []
        i = 0
        while i < n:
            r = rng.random()
            if r < 0.12 and "jz" in t.ops:
                l = newl()
                out.append((None, "jz", None, l))
                for _ in range(rng.randint(1, 3)):
                    out += simple()
                out.append((l, "nop", None, None))
            elif r < 0.2 and "djnz" in t.ops:
                l = newl()
                c = t.cells[0]
                out.append((None, "incm", c, None))
                out.append((None, "incm", c, None))
                out.append((None, "incm", c, None))
                out.append((l, "nop", None, None))
                out += [(None, "inc", None, None)]
                out.append((None, "djnz", c, l))
            elif r < 0.4 and calls:
                out.append((None, "call", None, rng.choice(calls)))
            else:
                out += simple()
            i += 1
        return out

    main = [("main", "nop", None, None)] + body(nbody, subs)
    main.append((None, "jmp", None, "main"))
    code = main
    for k, sname in enumerate(subs):
        sb = body(rng.randint(1, 3), [] if getattr(t, 'leaf', False) else subs[k + 1:])
        l, op, x, y = ("nop",) * 4
        code = code + [(sname, "nop", None, None)] + sb + [(None, "ret", None, None)]
    out = code
    # layout
    a = t.base
    lab = {}
    addrs = []
    for (l, op, x, y) in out:
        if l:
            lab[l] = a
        addrs.append(a)
        a += t.size(op)
    prog = {}
    img = {}
    starts = []
    prev = None
    for (l, op, x, y), ad in zip(out, addrs):
        yy = lab[y] if y else 0
        by, tk, vr, vw = t.enc(op, ad, x, yy)
        for i, v in enumerate(by):
            img[ad + i] = v
        sop = {"dptr": "nop", "xld": "ld", "xst": "st"}.get(op, op)
        prog[ad] = {"n": t.size(op), "t": tk, "op": sop, "x": x or "", "y": yy, "vr": vr, "vw": vw}
        if op not in ("xld", "xst"):
            starts.append(ad)
        prev = op
    nmain = len(main)
    mains = [ad for ad in addrs[:nmain] if ad in starts]
    return prog, img, mains, addrs, lab["main"]


def gen_commands(t, rng, prog, mains, addrs, main, n, mix):
    """command list; a fetch breakpoint on the loop head is renewed before every
    command that could run for ever."""
    cmds = []
    sentinel = {"k": "break", "a": main, "hit": 6, "cond": [], "perm": "keep"}
    cells = t.cells
    names = ["u1", "u2", "u3"]

    def cond():
        if rng.random() < 0.6:
            return []
        v = rng.choice(["acc", "acc", rng.choice(cells)])
        op = rng.choice(["=", "<", ">", "#", "&"])
        return [v, op, rng.choice([1, 2, 4, 8, 64]) if op == "&" else rng.choice([0, 1, 2, 3, 5, 20, 128])]

    def tref():
        r = rng.random()
        if r < 0.5:
            return {"id": 0, "nm": rng.choice(names)}
        return {"id": rng.choice([1, 2, 5, 6, 7, 8, 9, 10]), "nm": ""}

    kinds = list(mix)
    while len(cmds) < n:
        k = rng.choice(kinds)
        if k == "break":
            cmds.append({"k": "break", "form": rng.randrange(4), "a": rng.choice([a for a in addrs if a != main]), "hit": rng.choice([1, 1, 1, 1, 2, 2, 3, 4, 0, 7, 99999, 100000] if rng.random() < .3 else [1, 1, 2, 3]),
                         "cond": cond(), "perm": rng.choice(["keep", "keep", "del"])})
        elif k == "evbreak":
            x = rng.choice(cells)
            if rng.random() < .3 and t.place(x)[0] not in ("rom", "nas"):
                cmds.append({"k": "cbreak", "a": x, "hit": rng.choice([1, 1, 2, 3, 5]), "cond": cond(), "perm": rng.choice(["keep", "keep", "del"])})
                continue
            cmds.append({"k": "evbreak", "ek": rng.choice("rw"), "a": rng.choice(cells), "hit": rng.choice([1, 1, 1, 2, 3, 5]),
                         "cond": cond(), "perm": rng.choice(["keep", "keep", "del"])})
        elif k == "clear":
            cmds.append({"k": "clear", "as": [rng.choice(addrs) for _ in range(rng.choice([0, 1, 1, 2, 3]))]})
        elif k == "delete":
            r = rng.random()
            cmds.append({"k": "delete", "ns": [] if r < 0.15 else [rng.randint(1, 8) for _ in range(rng.choice([1, 1, 2]))]})
        elif k == "commands":
            nr = rng.randint(1, 8)
            cmds.append({"k": "commands", "nr": nr, "cmd": rng.choice(["", "X%d" % rng.randint(1, 9), "X%d" % rng.randint(1, 9)])})
        elif k == "run":
            cmds.append(dict(sentinel))
            r = rng.random()
            a = []
            if r < 0.15:
                a = [rng.choice(mains)]
            elif r < 0.35:
                a = [rng.choice(mains), rng.choice(addrs)]
            cmds.append({"k": "run", "as": a})
        elif k == "step":
            cmds.append({"k": "step", "n": rng.choice([1, 1, 1, 2, 3, 5, 8, 13, 40, 0, 150]), "unit": ""})
        elif k == "stepu":
            cmds.append(dict(sentinel))
            u = rng.choice(["clk", "fclk", "rclk", "wclk", "vclk", "us"] if t.counters else ["clk", "fclk"])
            cmds.append({"k": "step", "n": rng.choice([1, 2, 5, 12, 13, 24, 30, 60, 100]), "unit": u})
        elif k == "next":
            cmds.append(dict(sentinel))
            cmds.append({"k": "next"})
        elif k == "pc":
            cmds.append({"k": "pc", "a": rng.choice(mains)})
        elif k == "acc":
            cmds.append({"k": "acc", "a": rng.choice([0, 1, 2, 127, 255])})
        elif k == "poke":
            cmds.append({"k": "poke", "a": rng.choice(cells), "v": rng.choice([0, 1, 2, 255, 128])})
            if t.loopcell and cmds[-1]["a"] == cells[0]:
                cmds[-1]["v"] = rng.choice([0, 1, 5])
        elif k == "reset":
            if rng.random() < 0.3:
                cmds.append({"k": "reset"})
        elif k == "tadd":
            c = tref()
            c.update(k="tadd", dir=rng.choice([1, 1, -1]), ty=rng.choice(["any", "any", "any", "isr", "idle", "halt"]))
            if c["id"]:
                c["nm"] = "unnamed"
            cmds.append(c)
        elif k in ("tdel", "tset", "trun"):
            c = tref()
            c["k"] = k
            if k == "tset":
                c["v"] = rng.choice([0, 1, 100, 5000])
            if k == "trun":
                c["on"] = rng.random() < 0.5
            cmds.append(c)
    return cmds


def text(t, c):
    """console form of a command"""
    k = c["k"]

    def hc(c):
        s = ""
        if c["hit"] != 1 or c["cond"]:
            s += " %d" % c["hit"]
        if c["cond"]:
            v, op, n = c["cond"]
            v = t.accvar if v == "acc" else "%s[%s]" % tuple(t.place(v))
            s += ' if "%s%s%d"' % (v, {"=": "==", "#": "!="}.get(op, op), n)
        return s
    pre = "break" if c.get("perm") == "keep" else "tbreak"
    if k == "break":                             # a cell of the code memory is a fetch address, too
        return "%s %s%s" % (pre, "rom[0x%x]" % c["a"] if c.get("form") == 3 and getattr(t, "data", "") not in ("nas", "data") else "0x%x" % c["a"], hc(c))
    if k == "cbreak":
        return "%s %s[%s]%s" % ((pre,) + tuple(t.place(c["a"])) + (hc(c),))
    if k == "evbreak":
        sp, a = t.place(c["a"])
        return "%s %s %s %s%s" % ("break" if c["perm"] == "keep" else "tbreak", sp, c["ek"], a, hc(c))
    if k == "clear":
        return "clear " + " ".join("0x%x" % a for a in c["as"])
    if k == "delete":
        return "delete " + " ".join(str(x) for x in c["ns"])
    if k == "commands":
        return "commands %d%s" % (c["nr"], " echo " + c["cmd"] if c["cmd"] else "")
    if k == "run":
        return "run " + " ".join("0x%x" % a for a in c["as"])
    if k == "step":
        return "step %d %s" % (c["n"], c["unit"])
    if k == "next":
        return "next"
    if k == "pc":
        return "pc 0x%x" % c["a"]
    if k == "acc":
        return "expr /n %s=%d" % (t.accvar, c["a"])
    if k == "poke":
        return t.poke(c["a"], c["v"])
    if k == "reset":
        return "reset"
    tid = c["nm"] if not c.get("id") else str(c["id"])
    if k == "tadd":
        return "timer add %s %d%s" % (tid, c["dir"], "" if c["ty"] == "any" else " " + c["ty"])
    if k == "tdel":
        return "timer delete " + tid
    if k == "tset":
        return "timer set %s %d" % (tid, c["v"])
    if k == "trun":
        return "timer %s %s" % ("start" if c["on"] else "stop", tid)
    raise ValueError(k)


def tsigned(s):
    v = int(s)
    return v - (1 << 64) if v >= 1 << 63 else v


def observe(t, b, timers):
    b.mark()
    b.do("info breakpoints")
    h = [b.mark()]
    b.do("expr " + t.accvar)
    h.append(b.mark())
    for sp, lo, hi in t.windows():
        b.do("dump /h %s 0x%x 0x%x" % (sp, lo, hi))
    h.append(b.mark())
    b.do("state")
    h.append(b.mark())
    if timers:
        b.do("timer list")
    h.append(b.mark())
    return h


_stop = re.compile(r"^Stop at 0x([0-9a-f]+): \((\d+)\)", re.M)


def parse(t, b, h0, hs, timers):
    from .isa import parse_dump
    tx = b.res(h0)
    o = {"why": 0, "at": 0, "ticks": 0, "ev": [], "cmds": [], "msg": []}
    m = _stop.search(tx)
    if m:
        o["why"] = int(m.group(2))
        o["at"] = int(m.group(1), 16)
    m = re.search(r"stepped (-?\d+) ticks", tx)
    if m:
        o["ticks"] = int(m.group(1))
    ev = set()
    for m in re.finditer(r"^Event `(read|write)' at (\S+)\[0x([0-9a-f]+)\]", tx, re.M):
        ev.add((m.group(1)[0], t.cellname(m.group(2), int(m.group(3), 16))))
    o["ev"] = sorted(ev)
    o["cmds"] = sorted(set(re.findall(r"^(X\d+)\s*$", tx, re.M)))
    for ln in tx.splitlines():
        for pat, f in ((r"^Breakpoint at 0x([0-9a-f]+) is already set", lambda g: ["dup", int(g[0], 16)]),
                       (r"^Hit value (\d+) is too big", lambda g: ["toobig", int(g[0])]),
                       (r"^Breakpoint (\d+) at 0x([0-9a-f]+) ", lambda g: ["set", int(g[0]), int(g[1], 16)]),
                       (r"^No breakpoint at this address", lambda g: ["nobphere", 0]),
                       (r"^No breakpoint at 0x([0-9a-f]+)", lambda g: ["nobp", int(g[0], 16)]),
                       (r"^no breakpoint \((\d+)\)", lambda g: ["nobpnr", int(g[0])]),
                       (r"^Error\s*$", lambda g: ["error", 0]),
                       (r"^Addresses must be different", lambda g: ["same", 0]),
                       (r"Timer .*already exists", lambda g: ["texists", 0]),
                       (r"Timer .*does not exist", lambda g: ["tnone", 0]),
                       (r"Timer is not user", lambda g: ["tnotuser", 0])):
            m = re.search(pat, ln)
            if m:
                o["msg"].append(f(m.groups()))
                break
    o["b"] = []
    for m in re.finditer(r"^(\d+)\s+(fetch|event)\s+(keep|del)\s+(-?\d+)\s+(-?\d+)\s+0x([0-9a-f]+)\s+(\S+)", b.res(hs[0]), re.M):
        nr, ty, perm, hit, cnt, a, last = m.groups()
        k = "f" if ty == "fetch" else last[0]
        o["b"].append([int(nr), k, perm, int(hit), int(cnt),
                       str(int(a, 16)) if k == "f" else t.cellname(None, int(a, 16))])
    o["b"].sort()
    pa = b.res(hs[1]).split()
    if len(pa) != 1:
        raise S.SimError("bad answer %r" % b.res(hs[1]))
    o["pc"] = int(re.search(r"PC= 0x([0-9a-f]+)", b.res(hs[3])).group(1), 16)
    o["acc"] = int(pa[0]) & (getattr(t, "am", 256) - 1)
    o["mem"] = {}
    txt = b.res(hs[2]).splitlines()
    for sp, lo, hi in t.windows():
        got = {}
        while txt and len(got) < hi - lo + 1:
            r = parse_dump(txt[0], 0, getattr(t, 'digits', 2), lo, hi)
            txt.pop(0)
            got.update(r)
        for a, v in got.items():
            c = t.cellname(sp, a)
            if c in t.cells:
                o["mem"][c] = v
    st = b.res(hs[3])
    f = re.search(r"Fetch= (\d+) Read= (\d+) Write= (\d+)", st)
    ck = re.search(r"Total time since last reset= \S+ sec \((\d+) clks\)", st)
    o["ctr"] = [int(ck.group(1)), int(f.group(1)), int(f.group(2)), int(f.group(3))] if t.counters else [int(ck.group(1))]
    o["tm"] = []
    if timers:
        for m in re.finditer(r'^timer #(\d+)\("([^"]*)"\) (ON|OFF)(,\w+)? (\S+) sec \((\d+) clks\)', b.res(hs[4]), re.M):
            i, nm, on, ty, rt, v = m.groups()
            o["tm"].append([int(i), nm, on == "ON", (ty or ",any")[1:].lower(), tsigned(v), round(float(rt) * t.xtal)])
    return o


class T51a(T51):
    """ACALL within a page"""
    without = ("reset",)

    def __init__(self, page):
        self.sim = "s51/acall%d" % page
        self.base = page << 8

    def size(self, op):
        return 2 if op == "call" else T51.size(self, op)

    def enc(self, op, a, x, y):
        return ([0x11 | y >> 3 & 0xe0, y & 255], 24, 0, 2) if op == "call" else T51.enc(self, op, a, x, y)


def _t51_windows(self):
    return [("iram", 0x60, 0x63), ("xram", 0x10, 0x11)]


def _t51_cellname(self, sp, a):
    if sp is None:
        sp = "xram" if a < 0x20 else "iram"
    return "%s:%d" % (sp, a)


T51.windows = _t51_windows
T51.cellname = _t51_cellname


def record(t, binary, prog, img, cmds, wd, timers, main, addrs):
    b = S.Batch(binary, t.args, wd)
    t.setup(b)
    lo = min(img)
    hi = max(img)
    b.do("fill %s 0x%x 0x%x 0" % (t.rom, t.base, t.base + t.end))
    for a in range(lo, hi + 1):
        if a % 16 == 0 or a == lo:
            b.do("set mem %s 0x%x %s" % (t.rom, a, " ".join("0x%x" % img.get(x, 0) for x in range(a, min(hi + 1, (a // 16 + 1) * 16)))))
    t.setup2(b)
    for c in t.cells:
        b.do(t.poke(c, 0))
    b.do("reset")
    t.setup2(b)
    b.do("pc 0x%x" % main)
    b.do("expr /n %s=0" % t.accvar)
    h0 = b.mark()
    hi0 = observe(t, b, timers)
    hs = []
    for c in cmds:
        b.mark()
        b.do(text(t, c))
        h = b.mark()
        hs.append((h, observe(t, b, timers)))
    b.run(timeout=40)
    with S.parsing():
        return collect(t, b, prog, cmds, h0, hi0, hs, timers, addrs)


def collect(t, b, prog, cmds, h0, hi0, hs, timers, addrs):
    o0 = parse(t, b, h0, hi0, timers)
    cases = []
    for c, (h, ho) in zip(cmds, hs):
        d = dict(c)
        d["o"] = parse(t, b, h, ho, timers)
        cases.append(d)
    pl = [prog.get(a, []) for a in range(t.base, max(prog) + 1)]
    ctr = (o0["ctr"] + [0, 0, 0])[:4]
    return {"prog": pl, "xc": int(t.xtal / 100), "base": t.base, "pc": o0["pc"], "acc": o0["acc"], "am": getattr(t, "am", 256), "mem": o0["mem"], "clk": ctr[0], "vf": ctr[1],
            "vr": ctr[2], "vw": ctr[3], "cases": cases, "addrs": addrs}


def one(args):
    t, binary, seed, mix, n, wd, timers = args
    import random
    rng = random.Random(seed)
    prog, img, mains, addrs, main = gen_program(t, rng, rng.randint(4, 12))
    cmds = gen_commands(t, rng, prog, mains, addrs, main, n, mix)
    return record(t, binary, prog, img, cmds, wd, timers, main, addrs)


def check(ctx, runs, mix, n, timers=False, label=""):
    """runs: list of (target, binary, number of sessions)"""
    jobs = []
    for t, binary, sessions in runs:
        if hasattr(t, "calibrate"):
            t.calibrate(binary, ctx.wd)
        m = [k for k in mix if k not in getattr(t, "without", ())]
        jobs += [(t, binary, "%s-%d-%s-%s-%d" % (ctx.pid, ctx.seed, t.sim, label, i), m, n, ctx.wd, timers)
                 for i in range(sessions)]
    with ProcessPoolExecutor(8) as ex:
        sess = list(ex.map(one, jobs, chunksize=2))
    path = os.path.join(ctx.wd, "dbg%s.ndjson" % label)

    def write(ss):
        with open(path, "w") as f:
            for x in ss:
                f.write(json.dumps({k: v for k, v in x.items() if k != "addrs"}, separators=(",", ":")) + "\n")
    write(sess)
    ncase = sum(len(x["cases"]) for x in sess)
    ctx.log("recorded %d sessions, %d commands on %s" % (len(sess), ncase, ",".join(t.sim for t, b, k in runs)))
    r = T.run("TrDbg", env={"TRACE": path}, timeout=800)
    if r.ok:
        if r.distinct != ncase + len(sess):
            raise T.TlcError("trace not consumed: %d of %d" % (r.distinct, ncase + len(sess)))
        ctx.cov["states"] += r.distinct
        ctx.cov["transitions"] += r.generated
        ctx.cov["traces_validated_against_impl"] += len(sess)
        ctx.cov["engines"].append({"trace_spec": "TrDbg", "sims": [t.sim for t, b, k in runs],
                                   "sessions": len(sess), "commands": ncase})
        if len(ctx.cov["samples"]) < 3:
            t = jobs[0][0]
            ctx.cov["samples"].append({"sim": t.sim, "commands": [text(t, c) for c in sess[0]["cases"][:12]]})
        ctx.log("validated (%d states)" % r.distinct)
        return
    bad = T.last_value(r.out, "bad") or "?"
    si = int(re.search(r"session \|-> (\d+)", bad).group(1)) - 1
    li = int(re.search(r"case \|-> (\d+)", bad).group(1)) - 1
    again = one(jobs[si])
    write([again])
    r2 = T.run("TrDbg", env={"TRACE": path}, workers=1, timeout=800)
    if r2.ok:
        ctx.log("rejection not repeated; dropped")
        return
    t = jobs[si][0]
    bad = re.sub(r"\s+", " ", T.last_value(r2.out, "bad") or bad)
    rp = ctx.save_replay("dbg" + label, {"sim": t.sim, "args": list(t.args), "program": sess[si]["prog"],
                                         "commands": [text(t, c) for c in sess[si]["cases"][:li + 1]],
                                         "rejected": sess[si]["cases"][li], "verdict": bad})
    raise Violation("debugger specification rejects `%s' (command %d of session %d on %s): %s" %
                    (text(t, sess[si]["cases"][li]), li, si, t.sim, bad[:1500]), rp)


def runs(ctx, n51, ngen):
    ts = targets()
    b = ctx.build(["s51"] + [t.binary for t in ts])
    if n51:
        ts = [T51a(p) for p in range(9)] + ts
    return [(T51(), b["s51"], n51)] + [(t, b[t.binary], max(1, ngen // 4) if t.sim.startswith('s51') else ngen) for t in ts]


def targets():
    """the simulators other than MCS-51 with the debugger test programs"""
    z = {"nop": [0x00], "inc": [0x3c], "ld": [0x3a, "l", "h"], "st": [0x32, "l", "h"], "jmp": [0xc3, "l", "h"],
         "call": [0xcd, "l", "h"], "ret": [0xc9]}
    m68 = {"nop": [0x01], "inc": [0x4c], "ld": [0xb6, "h", "l"], "st": [0xb7, "h", "l"], "jmp": [0x7e, "h", "l"],
           "call": [0xbd, "h", "l"], "ret": [0x39]}
    st = {"nop": [0x9d], "inc": [0x4c], "ld": [0xc6, "h", "l"], "st": [0xc7, "h", "l"], "jmp": [0xcc, "h", "l"],
          "call": [0xcd, "h", "l"], "ret": [0x81]}
    hc12 = {"nop": [0xa7], "inc": [0x42], "ld": [0xb6, "h", "l"], "st": [0x7a, "h", "l"], "jmp": [0x06, "h", "l"],
            "call": [0x16, "h", "l"], "ret": [0x3d]}
    m6809 = Tgen("m6809", "m6809", dict(m68, nop=[0x12]), init=["expr /n S=0x7000"])
    m6809.without = ("reset", "evbreak")         # its stores read the cell, too
    ts = [
        Tgen("z80", "z80", z, init=["expr /n SP=0x7000"]),
        Tgen("i8085", "i8085", z, init=["expr /n SP=0x7000"]),
        Tgen("rxk", "rxk", z, init=["expr /n SP=0x7000"]),
        Tgen("mos6502", "mos6502", {"nop": [0xea], "ld": [0xad, "l", "h"], "st": [0x8d, "l", "h"], "jmp": [0x4c, "l", "h"],
                                    "call": [0x20, "l", "h"], "ret": [0x60]}, init=["expr /n SP=0xff"]),
        Tgen("m6800", "m6800", m68, init=["expr /n SP=0x7000"]),
        Tgen("m68hc11", "m68hc11", m68, init=["expr /n SP=0x7000"]),
        m6809,
        Tgen("m68hc08", "m68hc08", st, init=["step", "expr /n SP=0x7000"]),
        Tgen("m68hc12", "m68hc12", hc12, init=["expr /n SP=0x7000"]),
        Tgen("stm8", "stm8", st, init=["expr /n SP=0x7ff"]),
        Tgen("st7", "st7", st, init=["step"]),
        Tgen("avr", "avr", {"nop": [0], "inc": [0x9503], "ld": [0x9100, "w"], "st": [0x9300, "w"], "jmp": [0x940c, "w"],
                            "call": [0x940e, "w"], "ret": [0x9508]}, acc="iram[16]", init=["set mem iram 0x5d 0x7f 0"], data="iram", cells=(0x60, 0x61, 0x62)),
    ] + more(z)
    d = {t.sim: t for t in ts}
    return ts + [d["avr"].variant("rcall", call=["rc"]), d["m6800"].variant("bsr", call=[0x8d, "r"]), d["m68hc11"].variant("bsr", call=[0x8d, "r"]),
                 d["m6809"].variant("bsr", call=[0x8d, "r"]), d["m6809"].variant("lbsr", call=[0x17, "rh", "rl"]),
                 d["m68hc08"].variant("bsr", call=[0xad, "r"]), d["stm8"].variant("callr", call=[0xad, "r"]), d["st7"].variant("callr", call=[0xad, "r"]),
                 d["m68hc12"].variant("bsr", call=[0x07, "r"])]


def more(z):
    def pdk(k):
        c = {13: {"nop": [0], "inc": [0x1001 | 0], "ld": [(0x07c0,)], "st": [(0x05c0,)], "jmp": [(0x1800,)], "call": [(0x1c00,)], "ret": [0x3a]},
             14: {"nop": [0], "inc": [0x2801], "ld": [(0x0f80,)], "st": [(0x0b80,)], "jmp": [(0x3000,)], "call": [(0x3800,)], "ret": [0x7a]},
             15: {"nop": [0], "inc": [0x5001], "ld": [(0x1f00,)], "st": [(0x1700,)], "jmp": [(0x6000,)], "call": [(0x7000,)], "ret": [0x7a]}}[k]
        return Tgen("pdk%d" % k, "pdk", c, data="ram", args=("-t", "PDK%d" % k), cells=(0x10, 0x11, 0x12), base=0x100,
                    init=["expr /n SP=0x20"])
    gb = dict(z, ld=[0xfa, "l", "h"], st=[0xea, "l", "h"])
    rxk = {"nop": [0x00], "inc": [0x3c], "ld": [0x3a, "l", "h"], "st": [0x32, "l", "h"], "jmp": [0xc3, "l", "h"],
           "call": [0xcd, "l", "h"], "ret": [0xc9]}
    p15 = {"nop": [0], "inc": [0x07110200], "jmp": [(0x04f00000,)], "call": [(0x08000000,)], "ret": [0x03fe0000]}
    p22 = {"nop": [0], "inc": [0x01140001], "jmp": [(0x01f20000,)], "call": [(0x04000000,)], "ret": [0x00f00e00]}
    t90 = {"nop": [0], "inc": [0x86], "ld": [0x27, "l"], "st": [0x2f, "l"], "jmp": [0x1a, "l", "h"], "call": [0x1c, "l", "h"], "ret": [0x1e]}
    p1, p2 = [Tgen(n.lower(), "p1516", c, acc="R1", args=("-t", n), leaf=True) for n, c in (("P1516", p15), ("P2223", p22))]
    p1.digits = p2.digits = 8
    p1.am = p2.am = 1 << 24
    return [pdk(13), pdk(14), pdk(15), p1, p2] + [
        Tgen("z80/" + v.lower(), "z80", z, args=("-t", v), init=["expr /n SP=0x7000"]) for v in ("Z180", "EZ80", "R800", "Z80N")] + [
        Tgen("z80/gb", "z80", gb, args=("-t", "LR35902"), init=["expr /n SP=0xd000"], cells=(0xc010, 0xc011, 0xc012)),
        Tgen("rxk/r4k", "rxk", rxk, args=("-t", "R4K"), init=["expr /n SP=0x7000"]),
        Tgen("i8085/8080", "i8085", z, args=("-t", "I8080"), init=["expr /n SP=0x7000"]),
        Tgen("pblaze3", "pblaze", {"nop": [0x01000], "inc": [0x18001], "ld": [(0x06000,)], "st": [(0x2e000,)], "jmp": [(0x34000,)],
                                   "call": [(0x30000,)], "ret": [0x2a000]}, acc="sfr[0]", data="iram", cells=(0x10, 0x11, 0x12), base=0x100),
        Tgen("i8048", "i8048", {"nop": [0], "inc": [0x17], "jmp": [0x84, "l"], "call": [0x94, "l"], "ret": [0x83]}, acc="ACC", data="iram",
             cells=(0x30, 0x31, 0x32)),
        Tgen("f8", "f8", {"nop": [0x08], "inc": [0x52], "ld": [0x81, "l", "h"], "st": [0x8b, "l", "h"], "jmp": [0x64, "l", "h"],
                          "call": [0x66, "l", "h"], "ret": [0xba]}, acc="XL", base=0x2400, cells=(0x2800, 0x2801, 0x2802),
             init=["expr /n SP=0x3f00"]),
        Tgen("tlcs870c1", "tlcs", {"nop": [0], "inc": [0x20], "ld": [0x0c, "l"], "st": [0x0e, "l"], "jmp": [0xfe, "l", "h"],
                                   "call": [0xfd, "l", "h"], "ret": [0xfa]}, rom="code", data="data", args=("-t", "TLCS870C1"), base=0x8400,
             init=["expr /n SP=0x700"], cells=(0x50, 0x51, 0x52)),
        Tgen("tlcs90", "tlcs", t90, rom="nas", args=("-t", "TLCS90"), init=["expr /n SP=0x7000"], cells=(0xff20, 0xff21, 0xff22)),
    ]
