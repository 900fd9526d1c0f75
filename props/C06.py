from vlib import dbg
LEVEL = "model_checking"
MIX = ["evbreak"] * 6 + ["run"] * 5 + ["break", "clear", "delete", "delete", "commands", "step", "next", "pc", "poke", "poke"]


def run(ctx):
    r = dbg.runs(ctx, 480, 60) if ctx.thorough else dbg.runs(ctx, 60, 5)
    dbg.check(ctx, r, MIX, 40)
