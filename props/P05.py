from vlib import isa, i48int
LEVEL = "model_checking"


def run(ctx):
    for k in (8, 1):
        isa.run_table(ctx, i48int.I48Int(k), 12 if ctx.thorough else 3, label="k%d" % k)
