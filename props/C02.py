from vlib import mem
LEVEL = "model_checking"
MIX = ["dec"] * 5 + ["banker"] * 5 + ["bank"] * 4 + ["bander"] * 4 + ["sel"] * 5 + ["set"] * 4 + ["fill", "rmchip", "newchip", "cell", "cell", "get"]


def run(ctx):
    ctx.model("MCMem", "MCMem3.cfg" if ctx.thorough else "MCMem2.cfg")
    mem.check(ctx, MIX, 1500 if ctx.thorough else 200, 40)
