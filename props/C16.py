from vlib import errs
LEVEL = "model_checking"


def run(ctx):
    errs.check(ctx, *((4000, 120) if ctx.thorough else (1200, 60)))
