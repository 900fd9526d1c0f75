from vlib import mem
LEVEL = "model_checking"
MIX = ["where"] * 8 + ["hole"] * 5 + ["set"] * 4 + ["fill"] * 3 + ["dec", "dec", "banker", "sel"]


def run(ctx):
    ctx.model("MCMem", "MCMem2.cfg")
    mem.check(ctx, MIX, 1500 if ctx.thorough else 200, 50)
