from vlib import isa, z80
LEVEL = "model_checking"


def run(ctx):
    isa.run_table(ctx, z80.Z80(), 40 if ctx.thorough else 8)
