from vlib import simif
LEVEL = "model_checking"


def run(ctx):
    simif.check(ctx, *((4000, 100) if ctx.thorough else (1200, 60)))
