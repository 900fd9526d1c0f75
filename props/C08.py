from vlib import dbg
LEVEL = "model_checking"
MIX = ["tadd"] * 4 + ["tdel", "tset", "trun", "trun"] + ["step"] * 4 + ["stepu", "run", "next", "reset", "pc"]


def run(ctx):
    b = ctx.build(["s51"])["s51"]
    n = 600 if ctx.thorough else 80
    dbg.check(ctx, [(dbg.T51(), b, n)], MIX, 40, timers=True)
    # clock of the other simulators
    r = dbg.runs(ctx, 0, 40) if ctx.thorough else dbg.runs(ctx, 0, 3)
    dbg.check(ctx, r[1:], ["step"] * 4 + ["run"] * 2 + ["stepu", "next", "pc", "break"], 40, label="clk")
