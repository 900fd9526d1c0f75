"""Histories of the MCS-51 watchdog for spec/Wdt.tla."""
import re, tempfile
from concurrent.futures import ProcessPoolExecutor
from . import sim as S, mem as M

TYPES = ["51R", "89C51R"]


def gen(r, length):
    """events; the generator does not know the state of the watchdog"""
    ev = []
    flip = lambda v: v ^ 1 << r.randrange(8)
    at = lambda: r.choice([r.randrange(0x100, 0xff00), r.randrange(0x100, 0x200), 0, 3])

    def ins(code, c, v=-1, md="run", r0=None):
        ev.append(dict(k="ins", a=at(), b=len(code), c=c, v=v, md=md, code=code, r0=r0))

    def wr(v):
        if r.random() < .6:
            ins([0x75, 0xa6, v], 2, v)
        else:
            ins([0x88, 0xa6], 2, v, r0=v)

    def feed():
        wr(0x1e)
        k = r.random()
        if k < .2:
            wr(r.choice([0x1e, 0xe1, 0, r.randrange(256)]))
        elif k < .28:
            ev[-1]["v"] = x = flip(0x1e)
            ev[-1].update(r0=x) if ev[-1]["r0"] is not None else ev[-1].update(code=[0x75, 0xa6, x])
        elif k < .4:
            nops(r.choice([1, 5, 300]))
        elif k < .5:
            ev.append(dict(k="reset"))
        wr(r.choice([0xe1] * 8 + [flip(0xe1), 0x1e, r.randrange(256)]))

    def nops(n):
        ev.append(dict(k="nops", a=at(), n=n))

    while len(ev) < length:
        k = r.random()
        if k < .3:
            feed()
        elif k < .4:
            wr(r.choice([0x1e, 0xe1, r.randrange(256)]))
        elif k < .5:
            ins(r.choice([[0xa4], [0x84]]), 4)
        elif k < .54:
            ins([0x75, 0x87, 1], 2, md="idle")
        elif k < .56:
            ins([0x75, 0x87, 2], 2, md="pd")
            for _ in range(r.randrange(3)):
                nops(r.choice([1, 20000]))
            ev.append(dict(k="reset"))
        elif k < .6:
            ev.append(dict(k="reset"))
        elif k < .66:
            ev.append(dict(k="sp", a=r.randrange(8, 256)))
        elif k < .8:
            n = r.choice([16383, 16381, 16380, 16379, 16370])
            nops(n - r.randrange(20))
            for _ in range(r.randrange(20)):
                nops(1) if r.random() < .6 else ins(r.choice([[0xa4], [0], [0x80, 0], [0x75, 0xa6, 0x1e]]), 1)
                e = ev[-1]
                if e["k"] == "ins":
                    e["c"] = {0xa4: 4, 0: 1}.get(e["code"][0], 2)
                    e["v"] = 0x1e if e["code"][0] == 0x75 else -1
        else:
            nops(r.choice([1, 2, 10, 100, 1000, 8000, 16384, 40000]))
    return ev


def record(binary, typ, events, wd):
    b = S.Batch(binary, ["-t", typ], tempfile.mkdtemp(dir=wd))
    b.do("set option selfjump_stop 0")
    b.do("fill rom 0 0xffff 0")
    b.do("reset")
    hs = []
    for e in events:
        k = e["k"]
        if k == "reset":
            b.do("reset")
        elif k == "sp":
            b.do("set memory sfr 0x81 %d" % e["a"])
        else:
            if k == "ins":
                b.do("set memory rom %d %s" % (e["a"], " ".join(map(str, e["code"]))))
                if e["r0"] is not None:
                    b.do("set memory iram 0 %d" % e["r0"])
            b.do("pc %d" % e["a"])
            b.do("step %d" % e.get("n", 1))
            if k == "ins":
                b.do("fill rom %d %d 0" % (e["a"], e["a"] + len(e["code"]) - 1))
        hs.append((b.ask("pc"), b.ask("dump sfr 0x81 0x81"), b.ask("info hardware wdt")))
    b.run()
    out = []
    for e, h in zip(events, hs):
        e = dict(e)
        with S.parsing():
            pc = int(re.search(r"0x([0-9a-f]+)", b.res(h[0])).group(1), 16)
            sp = int(re.search(r"0b[01]{8} 0x([0-9a-f]{2}) ", b.res(h[1])).group(1), 16)
            on, cnt = re.search(r"wdt\[0\] (ON|OFF) counter=(-?\d+)", b.res(h[2])).groups()
        e["o"] = [pc, sp, int(cnt) if on == "ON" else -1]
        e.pop("code", None)
        e.pop("r0", None)
        out.append(e)
    return out


def job(a):
    return record(*a)


def show(e):
    return " ".join("%s=%s" % (k, e[k]) for k in ("k", "a", "n", "c", "v", "md") if k in e)


def check(ctx, n, length):
    bin = ctx.build(["s51"])["s51"]
    hist, args = [], []
    for i in range(n):
        t = TYPES[i % len(TYPES)]
        ev = gen(ctx.rnd(("wdt", i)), length)
        hist.append([dict(k="type " + t)] + ev)
        args.append((bin, t, ev, ctx.wd))
    with ProcessPoolExecutor(8) as ex:
        sess = list(ex.map(job, args))
    ctx.log("recorded %d histories, %d events" % (n, sum(map(len, sess))))
    M.validate(ctx, "TrWdt", sess, lambda i: job(args[i]), show, hist)
