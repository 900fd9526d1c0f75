from vlib import isa, m6809
LEVEL = "model_checking"


def run(ctx):
    isa.run_table(ctx, m6809.M6809(), 60 if ctx.thorough else 12)
