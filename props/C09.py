from vlib import hist
LEVEL = "model_checking"


def run(ctx):
    hist.check(ctx, *((2500, 80) if ctx.thorough else (1200, 50)))
