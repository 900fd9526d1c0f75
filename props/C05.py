from vlib import dbg
LEVEL = "model_checking"
MIX = ["break"] * 6 + ["run"] * 6 + ["clear", "delete", "commands", "step", "next", "pc", "acc", "reset"]


def run(ctx):
    ctx.model("MCDbg", "MCDbg4.cfg" if ctx.thorough else "MCDbg.cfg")
    r = dbg.runs(ctx, 320, 60) if ctx.thorough else dbg.runs(ctx, 40, 5)
    dbg.check(ctx, r, MIX, 40)
