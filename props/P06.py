from vlib import wdt
LEVEL = "model_checking"


def run(ctx):
    wdt.check(ctx, *((600, 120) if ctx.thorough else (160, 80)))
