from vlib import isa, i8048
LEVEL = "model_checking"


def run(ctx):
    for k in (8, 1):
        isa.run_table(ctx, i8048.I8048(k), 60 if ctx.thorough else 12, label="k%d" % k)
