"""Random expressions of the command console for spec/Expr.tla: values stay below
2^30 (the widest number TLC computes with), side effects stand where C defines
their order."""
import re
from concurrent.futures import ProcessPoolExecutor
from . import sim as S, mem as M

LIM = 1 << 30
# spaces: {name: (width, first address of the window)}, aliases {name: space}, registers {name: width}
TARGETS = {
    "s51": dict(args=["-t", "C52"], spaces={"iram": (8, 0x28), "xram": (8, 0x1230)},
                alias={"iram": "iram", "iram_chip": "iram", "xram": "xram", "xram_chip": "xram"}, regs={}, bits=True),
    "m6800": dict(args=["-t", "M6801"], spaces={"rom": (8, 0x100)}, alias={"rom": "rom", "rom_chip": "rom"},
                  regs={"A": 8, "B": 8, "IX": 16, "SP": 16}, bits=False),
    "avr": dict(args=[], spaces={"rom": (16, 0x40), "iram": (8, 0x60)}, alias={"rom": "rom", "rom_chip": "rom", "iram": "iram"},
                regs={}, bits=False),
}
WIN = 16
BIN = [("||",), ("&&",), ("|",), ("^",), ("&",), ("==", "!="), ("<", ">", "<=", ">="), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]
LEV = {o: i + 3 for i, ops in enumerate(BIN) for o in ops}
ASG = ["*=", "/=", "%=", "+=", "-=", "<<=", ">>=", "&=", "^=", "|="]
ESC = {7: "a", 8: "b", 12: "f", 10: "n", 13: "r", 9: "t", 11: "v"}
LEX = re.compile(r"""(?P<num>(?:\$|0[xX])[0-9a-fA-F]+|0b[01]+|0[0-7]*|[1-9][0-9]*|'[^']+')|(?P<id>\.?[a-zA-Z_][0-9a-zA-Z_]*(?:\$[0-9]+)?)"""
                 r"""|(?P<op><<=|>>=|[*/%+\-&^|=!<>]=|&&|\|\||\+\+|--|<<|>>|.)""")


def lex(txt):
    """the words of an expression, the longest at each place"""
    out, i = [], 0
    while i < len(txt):
        if txt[i] in " \t":
            i += 1
            continue
        best = max((LEX.match(txt, i),), key=lambda m: m.end())
        out.append(best.group())
        i = best.end()
    return out


class Tok:
    """a token: its text and its form in the trace"""
    def __init__(self, s, j=None):
        self.s, self.j = s, j or [s]


def ops(*a):
    return [Tok(x) for x in a]


def pw(x):
    return (1 << max(1, x.bit_length()))


class Ex:
    """token list, precedence level of the outermost operator, largest absolute value"""
    def __init__(self, t, lev, b):
        self.t, self.lev, self.b = t, lev, b

    def at(self, lev, r=None):
        if self.lev < lev or (r is not None and r.random() < .12):
            return ops("(") + self.t + ops(")")
        return self.t


class Gen:
    def __init__(self, r, name, length):
        self.r, self.name, self.t = r, name, TARGETS[name]
        self.vars = {}          # name: (sp, a, hi, lo)
        self.length = length
        self.ev = []

    # ---- expressions without side effects
    def num(self, v):
        r = self.r
        k = r.choice("dddxx$0bc")
        if k == "c" and (v in ESC or 33 <= v < 127) and chr(v) not in "'\\\"#;`$":
            return Tok("'\\%s'" % ESC[v] if v in ESC else "'%c'" % v, ["num", 10, [int(c) for c in str(v)]])
        if k == "b" and v < 1 << 12:
            d = bin(v)[2:].rjust(r.choice([0, 0, 8]), "0")
            return Tok("0b" + d, ["num", 2, [int(c) for c in d]])
        if k == "0" or v == 0 and k == "d":
            d = "%o" % v
            return Tok("0" + d if v else "0", ["num", 8, [int(c) for c in d]])
        if k in "x$":
            d = ("%x" % v).rjust(r.choice([0, 0, 4]), "0")
            if r.random() < .4:
                d = d.upper()
            return Tok({"x": r.choice(["0x", "0X"]), "$": "$"}[k] + d, ["num", 16, [int(c, 16) for c in d]])
        if v == 0:
            return self.num(0)
        return Tok(str(v), ["num", 10, [int(c) for c in str(v)]])

    def lit(self, lim=None):
        r = self.r
        v = r.choice([0, 1, 2, 3, 7, 8, 10, 15, 16, 0x41, 0x7a, 127, 128, 255, 256, 65535, r.randrange(20), r.randrange(256), r.randrange(65536), r.randrange(1 << 26)])
        if lim and v >= lim:
            v %= lim
        return Ex([self.num(v)], 15, v)

    def index(self, sp, d):
        """an address of the window, read only in its operands"""
        lo = self.t["spaces"][sp][1]
        r = self.r
        if d > 0 and r.random() < .3:
            e = self.expr(d - 1)
            return [self.num(lo)] + ops(r.choice("+|" if lo % WIN == 0 else "+"), "(", "(") + e.t + ops(")", "&") + [self.num(WIN - 1)] + ops(")")
        if r.random() < .15:
            k = r.randrange(WIN)
            return [self.num(lo + k + 5)] + ops("-") + [self.num(5)]
        return [self.num(lo + r.randrange(WIN))]

    def whole(self, d=0):
        """(tokens, space or register, width) of a whole cell"""
        r = self.r
        vs = [n for n, v in self.vars.items() if v[2] < 0]
        k = r.random()
        if vs and k < .4:
            n = r.choice(sorted(vs))
            sp = self.vars[n][0]
            return [Tok(n, ["id", n])], sp, self.t["spaces"][sp][0], False
        if self.t["regs"] and k < .6:
            n = r.choice(sorted(self.t["regs"]))
            return [Tok(n, ["id", n])], n, self.t["regs"][n], True
        al = r.choice(sorted(self.t["alias"]))
        sp = self.t["alias"][al]
        return [Tok(al, ["mem", al])] + ops("[") + self.index(sp, d) + ops("]"), sp, self.t["spaces"][sp][0], False

    def small(self, w):
        """a bit number"""
        k = self.r.randrange(w)
        if self.r.random() < .15:
            return ops("(") + [self.num(k + 3)] + ops("-") + [self.num(3)] + ops(")"), k
        return [self.num(k)], k

    def part(self, d=0):
        """(tokens, number of bits) of a bit or field"""
        r = self.r
        vs = [n for n, v in self.vars.items() if v[2] >= 0]
        if vs and r.random() < .5:
            n = r.choice(sorted(vs))
            v = self.vars[n]
            return [Tok(n, ["id", n])], v[2] - v[3] + 1
        while True:
            t, sp, w, reg = self.whole(d)
            if not reg:
                break
        if r.random() < .6:
            return t + ops(".") + self.small(w)[0], 1
        (a, x), (b, y) = self.small(w), self.small(w)
        return t + ops("[") + a + ops(":") + b + ops("]"), abs(x - y) + 1

    def leaf(self, d):
        r = self.r
        k = r.random()
        if k < .45:
            return self.lit()
        if k < .75:
            t, sp, w, reg = self.whole(d)
            if not reg and r.random() < .15:
                return Ex(ops("(", "int", ")") + t, 13, 1 << w)
            return Ex(t, 15, 1 << w)
        if k < .8:
            while True:
                t, sp, w, reg = self.whole(0)
                if not reg:
                    return Ex(ops("&") + t, 14, 1 << 16)
        t, n = self.part(d)
        return Ex(ops("(") + t + ops(")") if self.greedy(t) else t, 15, 1 << n)

    def greedy(self, t):
        return any(x.j == ["."] for x in t)

    def bitaddr(self):
        """& of a bit which has an address"""
        t, sp, w, reg = [Tok("iram", ["mem", "iram"])] + ops("[") + [self.num(self.r.randrange(0x28, 0x30))] + ops("]"), 0, 8, 0
        return Ex(ops("(", "&") + t + ops(".") + self.small(8)[0] + ops(")"), 15, 256)

    def expr(self, d):
        r = self.r
        if d <= 0 or r.random() < .12:
            if self.t["bits"] and r.random() < .05:
                return self.bitaddr()
            return self.leaf(d)
        k = r.random()
        if k < .2:
            e = self.expr(d - 1)
            o = r.choice("-+~!")
            return Ex(ops(o) + e.at(14, r), 14, 1 if o == "!" else e.b + 1)
        if k < .28:
            c, a, b = self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)
            return Ex(c.at(3, r) + ops("?") + a.at(0, r) + ops(":") + b.at(2, r), 2, max(a.b, b.b))
        if k < .31:
            a, b = self.expr(d - 1), self.expr(d - 1)
            return Ex(ops("(") + a.t + ops(",") + b.t + ops(")"), 15, b.b)
        for _ in range(8):
            o = r.choice(r.choice(BIN))
            a = self.expr(d - 1)
            if o in ("<<", ">>"):
                n = r.randrange(13)
                b = Ex([self.num(n)], 15, n)
                bound = a.b << n if o == "<<" else a.b
            else:
                b = self.expr(d - 1)
                bound = {"*": a.b * b.b, "+": a.b + b.b, "-": a.b + b.b, "/": a.b, "%": a.b}.get(o, 1)
                if o in "|&^":
                    bound = pw(max(a.b, b.b))
            if bound < LIM:
                lev = LEV[o]
                return Ex(a.at(lev, r) + ops(o) + b.at(lev + 1, r), lev, bound)
        return self.leaf(d)

    # ---- with side effects
    def assign(self, d):
        r = self.r
        if r.random() < .25:
            t, n = self.part(0)
            e = self.expr(d) if r.random() < .8 else self.assign(d - 1)
            if t[-1].s.isdigit() and self.greedy(t) is False:
                pass
            return Ex(t + ops("=") + e.at(1), 1, 1 << n)
        t, sp, w, reg = self.whole(0)
        o = r.choice(["=", "=", "=", "="] + ASG)
        if o in ("<<=", ">>="):
            e = Ex([self.num(r.randrange(13))], 15, 12)
        else:
            for _ in range(20):
                e = self.expr(d) if o != "=" or r.random() < .8 else self.assign(d - 1)
                if o != "*=" or e.b < 1 << 14:
                    break
            else:
                e = self.lit(256)
        return Ex(t + ops(o) + e.at(1), 1, 1 << w)

    def incdec(self):
        r = self.r
        t, sp, w, reg = self.whole(0)
        o = r.choice(["++", "--"])
        e = Ex(ops(o) + t, 14, 1 << w) if r.random() < .5 else Ex(t + ops(o), 15, 1 << w)
        for _ in range(r.choice([0, 0, 1, 2])):
            p = r.choice("+-|^&")
            c = self.lit(1 << 20)
            a, b = (e, c) if r.random() < .5 else (c, e)
            e = Ex(a.at(LEV[p], r) + ops(p) + b.at(LEV[p] + 1, r), LEV[p], pw(max(e.b, c.b)) * 2)
        return e

    def one(self):
        r = self.r
        k = r.random()
        if k < .5:
            e = self.expr(r.choice([1, 2, 3, 3, 4]))
        elif k < .8:
            e = self.assign(r.choice([0, 1, 2, 3]))
        else:
            e = self.incdec()
        return e

    def full(self):
        e = self.one()
        t = e.t
        for _ in range(self.r.choice([0, 0, 0, 0, 1, 2])):
            f = self.one()
            if self.greedy(t) and not any(x.s in ("=", ")") for x in t):
                t = ops("(") + t + ops(")")
            t = (t if not self.greedy(t) else ops("(") + t + ops(")")) + ops(",") + f.t
        return t

    def toks(self, space):
        """tokens and text; the text reads back as the tokens"""
        while True:
            t = self.full()
            if len(t) > 120:
                continue
            txt = "".join(x.s for x in t)
            if space:
                txt = t[0].s
                for x in t[1:]:
                    txt += ("" if x.s[0] == ">" or self.r.random() < .4 else " ") + x.s
            if lex(txt) == [x.s for x in t]:
                return [x.j for x in t], txt

    # ---- history
    def fmt(self):
        r = self.r
        return [r.choice("xX$0duoBLcnb") for _ in range(r.choice([1, 1, 2, 4]))]

    def gen(self):
        r = self.r
        for i in range(3):
            self.g_var()
        for i in range(self.length):
            getattr(self, "g_" + r.choice(["expr"] * 10 + ["direct"] * 3 + ["var"] * 2 + ["rmvar", "opt", "bad", "bad"]))()
        return self.ev

    def g_var(self):
        r = self.r
        n = r.choice(["foo", "Foo", "v1", "v2", "_q", "x9", "bar_", "zed"])
        sp = r.choice(sorted(self.t["spaces"]))
        w, lo = self.t["spaces"][sp]
        a = lo + r.randrange(WIN)
        k = r.random()
        hi = l = -1
        if k < .5:
            c = "var %s %s %d" % (n, sp, a)
        elif k < .6:
            c = "var %s %s[%d]" % (n, sp, a)
        elif k < .7:
            hi = l = r.randrange(w)
            c = "var %s %s %d %d" % (n, sp, a, l)
        elif k < .8:
            hi = l = r.randrange(w)
            c = "var %s %s[%d].%d" % (n, sp, a, l)
        else:
            x, y = r.randrange(w), r.randrange(w)
            hi, l = max(x, y), min(x, y)
            if (hi, l) == (w - 1, 0):
                hi -= 1
            c = "var %s %s%s" % (n, sp, r.choice(["[%d][%d:%d]", " %d %d %d"]) % (a, *r.choice([(hi, l), (l, hi)])))
        if n in self.vars:
            self.g_rmvar(n)
        self.vars[n] = (sp, a, hi, l)
        self.ev.append(dict(k="var", n=n, sp=sp, a=a, hi=hi, lo=l, cmd=c))

    def g_rmvar(self, n=None):
        if not n and len(self.vars) < 3:
            return
        n = n or self.r.choice(sorted(self.vars))
        del self.vars[n]
        self.ev.append(dict(k="rmvar", n=n, cmd="rmvar " + n))

    def g_opt(self):
        f = self.fmt() if self.r.random() < .7 else []
        self.ev.append(dict(k="opt", f=f, cmd='set option expression_format "%s"' % "".join(f)))

    def g_expr(self):
        es, cmd = [], self.r.choice(["expr", "expr", "expression"])
        for i in range(self.r.choice([1, 1, 2, 3])):
            f = self.fmt() if self.r.random() < .25 else []
            t, txt = self.toks(False)
            es.append(dict(t=t, f=f))
            cmd += (" /" + "".join(f) if f else "") + " " + txt
        self.ev.append(dict(k="expr", e=es, cmd=cmd))

    def g_direct(self):
        """a line that is no command is an expression"""
        for _ in range(50):
            t, txt = self.toks(True)
            if re.match(r"[0-9(]", txt) and not re.search(r"[;#\"`]", txt) and " >" not in txt:
                return self.ev.append(dict(k="expr", e=[dict(t=t, f=[])], cmd=txt))

    def g_bad(self):
        r = self.r
        while True:
            t = self.expr(2).t
            txt = "".join(x.s for x in t)
            if lex(txt) == [x.s for x in t]:
                break
        txt = r.choice([txt + "+", "(" + txt, "5+3)", "*" + txt, "5=3", "(5)++", "3==", "1+*2", "5[1]", "(int)5", "&7", txt + "?1", "1?2:",
                        "+", txt + "&&", "||" + txt, "1,,2", "(1,)", "=5"])
        self.ev.append(dict(k="bad", cmd="expr " + txt))


def gen(r, name, length):
    return Gen(r, name, length).gen()


def record(binary, name, seed, events, wd):
    tg = TARGETS[name]
    import random
    rr = random.Random(seed)
    b = S.Batch(binary, tg["args"], wd)
    for sp in sorted(tg["spaces"]):
        w, lo = tg["spaces"][sp]
        b.do("set mem %s %d %s" % (sp, lo, " ".join(str(rr.choice([0, 1, (1 << w) - 1, 1 << (w - 1), rr.randrange(1 << w)])) for i in range(WIN))))
    for n in sorted(tg["regs"]):
        b.do("expr %s=%d" % (n, rr.randrange(1 << tg["regs"][n])))

    def look():
        return ([(sp, b.ask("dump /h %s %d %d" % (sp, lo, lo + WIN - 1))) for sp, (w, lo) in sorted(tg["spaces"].items())],
                [(n, b.ask("expr /d " + n)) for n in sorted(tg["regs"])])
    hs = [(None, look())]
    for e in events:
        hs.append((b.ask(e["cmd"]), look()))
    b.run()
    out = []
    with S.parsing():
        for e, (h, (ds, rs)) in zip([None] + events, hs):
            o = {}
            for sp, dh in ds:
                w, lo = tg["spaces"][sp]
                o[sp] = sorted([a, v] for a, v in M.parse_dump(b.res(dh), w, lo, lo + WIN - 1).items())
            for n, rh in rs:
                o[n] = [[0, int(b.res(rh))]]
            if e is None:
                ws = {sp: w for sp, (w, lo) in tg["spaces"].items()}
                ws.update(tg["regs"])
                out.append(dict(k="init", o=o, w=ws, al=tg["alias"], regs=tg["regs"] or {"": 1}, ans=[], err=0))
                continue
            r = {k: v for k, v in e.items() if k != "cmd"}
            # an expression given without a command is first split like a command, which may remark on its words
            lines = [x.rstrip("\r") for x in b.res(h).splitlines() if x.startswith("Parser") or not re.match("[A-Z][a-z]+ ", x)]
            r["err"] = sum(x.startswith("Parser error") for x in lines)
            r["ans"] = [x for x in lines if not x.startswith("Parser error")] if e["k"] in ("expr", "bad") else []
            if e["k"] in ("var", "rmvar", "opt") and any(x.strip() for x in lines):
                r["err"] = 1
            r["o"] = o
            out.append(r)
    return out


def job(a):
    return record(*a)


def check(ctx, n, length):
    names = sorted(TARGETS)
    bins = ctx.build(names)
    hist, args = [], []
    for i in range(n):
        nm = names[i % len(names)]
        r = ctx.rnd(("expr", i))
        hist.append(gen(r, nm, length))
        args.append((bins[nm], nm, r.random(), hist[-1], ctx.wd))
    with ProcessPoolExecutor(8) as ex:
        sess = list(ex.map(job, args))
    ctx.log("recorded %d histories, %d commands" % (n, sum(map(len, sess))))
    src = [[dict(cmd=names[i % len(names)])] + h for i, h in enumerate(hist)]
    M.validate(ctx, "TrExpr", sess, lambda i: job(args[i]), lambda e: e["cmd"], src)
