"""Record single-instruction executions of a simulator and validate them against
a TLA+ instruction-set specification (spec/IsaTrace.tla)."""
import json, os, re, random
from concurrent.futures import ProcessPoolExecutor
from . import tlc as T, sim as S
from .core import Violation

SPC = 1 << 20


class Cpu:
    """name     TLA trace module is Tr<name>
       sim      src/sims/<sim>.src
       args     command line arguments
       regs     registers: names of console variables (also field names in the spec)
       spaces   [(console memory name, size, fill)]; index = space number in the spec
       wins     [(space, lo, hi)] observed after every step
       init     console commands run once at start
       gen(rng, n) yields n cases: {"r": {reg: val}, "w": [(space, addr, val)]}
       and optionally "h": {hidden field of the specification's r: value} and
       "pre": [console commands before the step]
       cellfmt  hex digits of a dumped cell per space (2 default)"""
    setup = ("set error non-classified off", "set error stack off")
    args = ()
    fills = True
    ticks = True
    flagfix = None
    nofill = ()          # spaces that are not filled; read at the start instead
    regcmd = {}          # register -> expression when it differs from its name
    post = ()            # console commands after every step whose answers hold further state

    def postparse(self, txt):
        """{field: value} out of the answers of post"""
        return {}

    def digits(self, sp):
        return 2

    def finish(self, cases, steps):
        """add observations made after the session"""

    def transform(self, out):
        """the session as it is written to the trace"""
        return out

    def session(self, rng, ops):
        return [self.case(rng, o) for o in ops]

    def areas(self, sp):
        """parts of a space that are compared at the end"""
        return [(0, self.spaces[sp][1] - 1)]

    def load(self, cases, wd):
        """console commands before the first dump (they may set memory)"""
        return []

    def deep(self):
        """instructions whose operands need many more samples"""
        return []

    def key(self, case):
        return self.describe(case, None, 0)


def dump_cmd(cpu, w):
    sp, lo, hi = w
    return "dump /h %s 0x%x 0x%x" % (cpu.spaces[sp][0], lo, hi)


_line = re.compile(r"^0x([0-9a-f]+) (.*)$", re.I)


def parse_dump(txt, sp, digits, lo, hi):
    """{offset: value} of a hex dump"""
    out = {}
    w = digits + 1
    for ln in txt.splitlines():
        m = _line.match(ln)
        if not m:
            continue
        a = int(m.group(1), 16)
        body = m.group(2)
        i = 0
        while True:
            tok = body[i * w:i * w + w]
            if len(tok) < w or tok[-1] != " " or a > hi or i >= 8:
                break
            t = tok[:-1]
            if t.strip("-") == "":
                i += 1
                a += 1
                continue
            try:
                v = int(t, 16)
            except ValueError:
                break
            out[a] = v
            i += 1
            a += 1
    return out


def record(cpu, binary, cases, wd, sync_every=0, tag=""):
    """Run the cases in one simulator process; returns the session record."""
    b = S.Batch(binary, cpu.args, wd)
    for c in cpu.setup:
        b.do(c)
    for i, (n, size, fill) in enumerate(cpu.spaces):
        if i not in cpu.nofill:
            b.do("fill %s 0 0x%x 0x%x" % (n, size - 1, fill))
    for c in cpu.load(cases, wd):
        b.do(c)
    full = []
    for i, (n, size, fill) in enumerate(cpu.spaces):
        b.mark()
        for lo, hi in cpu.areas(i):
            b.do("dump /h %s 0x%x 0x%x" % (n, lo, hi))
        full.append((i, b.mark()))
    hs = []
    names = list(cpu.regs)
    expr_get = "\n".join("expr " + cpu.regcmd.get(x, x) for x in names)
    for ci, c in enumerate(cases):
        pk = sorted({(s, a): v for s, a, v in c.get("w", ())}.items())
        j = 0
        while j < len(pk):
            (sp, a), _ = pk[j]
            k = j
            vals = []
            while k < len(pk) and pk[k][0] == (sp, a + (k - j)) and k - j < 16:
                vals.append("0x%x" % pk[k][1])
                k += 1
            b.do("set mem %s 0x%x %s" % (cpu.spaces[sp][0], a, " ".join(vals)))
            j = k
        if c.get("r"):
            b.do("expr " + ",".join("%s=0x%x" % (cpu.regcmd.get(x, x), v) for x, v in c["r"].items()))
        for x in c.get("pre", ()):
            b.do(x)
        b.mark()
        b.do("step")
        h1 = b.mark()
        b.do(expr_get)
        h2 = b.mark()
        for w in cpu.wins:
            b.do(dump_cmd(cpu, w))
        h3 = b.mark()
        for x in cpu.post:
            b.do(x)
        hs.append((h1, h2, h3, b.mark() if cpu.post else None))
    fin = []
    for i, (n, size, fill) in enumerate(cpu.spaces):
        b.mark()
        for lo, hi in cpu.areas(i):
            b.do("dump /h %s 0x%x 0x%x" % (n, lo, hi))
        fin.append((i, b.mark()))
    b.run(timeout=300)
    with S.parsing():
        out = collect(cpu, b, cases, full, fin, hs, names)
        cpu.finish(cases, out["cases"])
        return cpu.transform(out)


def collect(cpu, b, cases, full, fin, hs, names):
    base = [f for (_, _, f) in cpu.spaces]

    def fulldump(lst):
        st = {}
        for i, h in lst:
            n, size, fill = cpu.spaces[i]
            for ln in b.res(h).splitlines():
                pass
            for a, v in parse_dump(b.res(h), i, cpu.digits(i), 0, size - 1).items():
                if v != fill:
                    st[i * SPC + a] = v
        return st

    st0 = fulldump(full)
    mirror = dict(st0)         # observed non-fill cells

    def mget(a):
        return mirror.get(a, base[a // SPC])

    out = []
    lastwin = None
    stop = None
    for ci, (c, (h1, h2, h3, h4)) in enumerate(zip(cases, hs)):
        w = {s * SPC + a: v for s, a, v in c.get("w", ())}
        if ci == 0:
            w0 = dict(st0)
            w0.update(w)
            wj = w0
        else:
            wj = w
        mirror.update(w)
        t1 = b.res(h1)
        m = re.search(r"stepped (\d+) ticks", t1)
        vals = b.res(h2).split()
        if len(vals) != len(names):
            raise S.SimError("bad register answer %r" % b.res(h2)[:200])
        q = {n: int(v) & cpu.regmask(n) for n, v in zip(names, vals)}
        if h4 is not None:
            q.update(cpu.postparse(b.res(h4)))
        d = []
        wt = b.res(h3)
        if wt != lastwin or w:
            lines = wt
            for (sp, lo, hi), part in zip(cpu.wins, split_wins(cpu, lines)):
                for a, v in part.items():
                    k = sp * SPC + a
                    if mget(k) != v:
                        d.append([k, v])
                        mirror[k] = v
            lastwin = wt
        out.append({"k": "step", "r": dict(c.get("r") or {}, **c.get("h", {})) or [],
                    "w": [[a, v] for a, v in sorted(wj.items())], "q": q, "d": d,
                    "t": int(m.group(1)) if m and cpu.ticks else -1})
        if m is None:
            out[-1]["note"] = t1.strip()[:120]
    fd = fulldump(fin)
    out.append({"k": "sync", "d": [[a, v] for a, v in sorted(fd.items())]})
    return {"base": base, "win": [[sp * SPC + lo, sp * SPC + hi] for sp, lo, hi in cpu.wins],
            "cases": out}


def split_wins(cpu, txt):
    lines = txt.splitlines()
    i = 0
    for (sp, lo, hi) in cpu.wins:
        res = {}
        want = hi - lo + 1
        buf = []
        last = lo - 1
        while i < len(lines) and len(res) < want:
            r = parse_dump(lines[i], sp, cpu.digits(sp), lo, hi)
            if r and (min(r) <= last or min(r) > hi):
                break
            i += 1
            if not r:
                continue
            last = max(r)
            res.update(r)
        yield res


def write_trace(path, sessions):
    with open(path, "w") as f:
        for s in sessions:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")


def check_isa(ctx, cpu, binary, sessions_cases, label="", workers=8):
    """Record all sessions (lists of cases), validate, raise Violation on rejection."""
    n = len(sessions_cases)
    with ProcessPoolExecutor(8) as ex:
        sess = list(ex.map(record, [cpu] * n, [binary] * n, sessions_cases, [ctx.wd] * n))
    ctx.log("%s%s: recorded %d sessions, %d steps" %
            (cpu.name, label, len(sess), sum(len(s["cases"]) - 1 for s in sess)))
    path = os.path.join(ctx.wd, "trace%s.ndjson" % label)
    write_trace(path, sess)
    total = sum(len(s["cases"]) for s in sess) + len(sess)
    env = {"TRACE": path}
    if "LISTREJ" in os.environ:
        return list_rejects(cpu, sess, T.run("Tr" + cpu.name, env=dict(env, LISTREJ="1"), workers=workers, timeout=800).out)
    res = T.run("Tr" + cpu.name, env=env, workers=workers, timeout=800)
    if res.ok:
        if res.distinct != total:
            raise T.TlcError("trace not consumed: %d states, expected %d" % (res.distinct, total))
        ctx.cov["states"] += res.distinct
        ctx.cov["transitions"] += res.generated
        ctx.cov["traces_validated_against_impl"] += len(sess)
        ctx.cov["samples"].append({"session0": sess[0]["cases"][0:2]} if len(ctx.cov["samples"]) < 3 else "more")
        ctx.log("%s%s: validated (%d states)" % (cpu.name, label, res.distinct))
        return
    bad = T.last_value(res.out, "bad") or "?"
    si = re.search(r"session \|-> (\d+)", bad)
    li = re.search(r"case \|-> (\d+)", bad)
    if not (si and li):
        raise T.TlcError("unreadable rejection:\n" + res.out[-3000:])
    si, li = int(si.group(1)) - 1, int(li.group(1)) - 1
    # once more, from the real code
    again = record(cpu, binary, sessions_cases[si], ctx.wd)
    write_trace(path, [again])
    res2 = T.run("Tr" + cpu.name, env={"TRACE": path}, workers=1, timeout=800)
    if res2.ok:
        ctx.log("rejection not repeated; dropped")
        return
    case = sess[si]["cases"][li]
    bad2 = T.last_value(res2.out, "bad") or bad
    nice = re.sub(r"\s+", " ", bad2)
    src = sessions_cases[si][li] if li < len(sessions_cases[si]) else None
    rp = ctx.save_replay("isa", {"cpu": cpu.name, "binary": "src/sims/%s.src" % cpu.sim, "args": list(cpu.args),
                                 "rejected_step": case, "driver_case": src, "verdict": nice,
                                 "history": sessions_cases[si][max(0, li - 3):li + 1]})
    code = ("memory at the end" if case.get("k") == "sync" else
            cpu.describe(case, sess[si], li) if hasattr(cpu, "describe") else "")
    raise Violation("specification %s rejects step %d of session %d: %s %s" %
                    (cpu.name, li, si, code, nice[:1500]), rp)


def run_table(ctx, cpu, per, ns=150, label=""):
    """every instruction of cpu.ops() per times (those of cpu.deep() as often again as they are
    listed there), in random order, in 8 sessions or more of at least ns steps"""
    binary = ctx.build([cpu.sim])[cpu.sim]
    ops = cpu.ops() * per + cpu.deep() * (4 if ctx.thorough else 1)
    ctx.rnd("ops" + label).shuffle(ops)
    ns = max(ns, min(700, -(-len(ops) // 8)))
    parts = [ops[i:i + ns] for i in range(0, len(ops), ns)]
    cases = []
    for i, part in enumerate(parts):
        r = ctx.rnd("s%d%s" % (i, label))
        cases.append(cpu.session(r, part))
    check_isa(ctx, cpu, binary, cases, label)


def list_rejects(cpu, sess, out):
    """development aid: all rejected steps by instruction"""
    g = {}
    for m in re.finditer(r'REJ<<\[session \|-> (\d+), case \|-> (\d+), (.*?)\]>>"?$', out, re.M):
        si, li = int(m.group(1)) - 1, int(m.group(2)) - 1
        g.setdefault(cpu.key(sess[si]["cases"][li]), []).append((m.group(3), sess[si]["cases"][li].get("note", ""), sess[si]["cases"][li]))
    for k in sorted(g, key=str):
        print(k, len(g[k]), g[k][0][0][:700], g[k][0][1])
        if k in os.environ['LISTREJ'].split(','):
            print('CASE', g[k][0][2])
    print(len(g), "instructions rejected;", "finished" if "REJ" in out or g == {} else "?", out[-200:] if "rror" in out else "")
