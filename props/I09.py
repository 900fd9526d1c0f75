from vlib import isa, gb
LEVEL = "model_checking"


def run(ctx):
    isa.run_table(ctx, gb.Gb(), 40 if ctx.thorough else 8)
