from vlib import isa, mos6502
LEVEL = "model_checking"


def run(ctx):
    for k in (0, 1, 2):
        isa.run_table(ctx, mos6502.Mos6502(k), 60 if ctx.thorough else 12, label="k%d" % k)
