from vlib import vcd
LEVEL = "model_checking"


def run(ctx):
    vcd.check(ctx, *((6000, 120) if ctx.thorough else (2500, 70)))
