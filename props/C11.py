from vlib import names
LEVEL = "model_checking"


def run(ctx):
    names.check(ctx, *((1500, 80) if ctx.thorough else (300, 50)))
