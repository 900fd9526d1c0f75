from vlib import isa, mcs51
LEVEL = "model_checking"


def run(ctx):
    b = ctx.build(["s51"])["s51"]
    cpu = mcs51.Mcs51()
    per = 60 if ctx.thorough else 12          # executions of every opcode
    ops = [o for o in range(256) if o != 0xa5]
    rng = ctx.rnd("ops")
    allops = ops * per
    rng.shuffle(allops)
    ns = 400
    sess = [allops[i:i + ns] for i in range(0, len(allops), ns)]
    cases = [list(cpu.gen(ctx.rnd("s%d" % i), len(o), o)) for i, o in enumerate(sess)]
    isa.check_isa(ctx, cpu, b, cases)
