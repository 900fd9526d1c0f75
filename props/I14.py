from vlib import isa, st7
LEVEL = "model_checking"


def run(ctx):
    isa.run_table(ctx, st7.ST7(), 80 if ctx.thorough else 16)
