from vlib import dbg
LEVEL = "model_checking"
MIX = ["step"] * 4 + ["stepu"] * 4 + ["next"] * 4 + ["run"] * 3 + ["break", "evbreak", "clear", "delete", "pc", "acc", "poke", "reset"]


def run(ctx):
    ctx.model("MCDbg", "MCDbg4.cfg" if ctx.thorough else "MCDbg.cfg")
    r = dbg.runs(ctx, 480, 60) if ctx.thorough else dbg.runs(ctx, 60, 5)
    dbg.check(ctx, r, MIX, 40)
