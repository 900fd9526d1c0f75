from vlib import isa, m68hc12
LEVEL = "model_checking"


def run(ctx):
    isa.run_table(ctx, m68hc12.M68HC12(), 80 if ctx.thorough else 16)
