from vlib import mem
LEVEL = "model_checking"
MIX = ["set"] * 6 + ["fill"] * 3 + ["dec"] * 3 + ["get", "get", "dump", "dump", "cell", "sel", "bander", "newchip"]


def run(ctx):
    ctx.model("MCMem", "MCMem3.cfg" if ctx.thorough else "MCMem2.cfg")
    mem.check(ctx, MIX, 1000 if ctx.thorough else 120, 40)
