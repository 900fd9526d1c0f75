from vlib import isa, stm8
LEVEL = "model_checking"


def run(ctx):
    isa.run_table(ctx, stm8.Stm8(), 60 if ctx.thorough else 12)
