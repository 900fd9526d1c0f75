from vlib import expr
LEVEL = "model_checking"


def run(ctx):
    expr.check(ctx, *((1500, 50) if ctx.thorough else (360, 30)))
