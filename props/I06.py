from vlib import isa, m68
LEVEL = "model_checking"


def run(ctx):
    for k in (0, 1, 2):
        isa.run_table(ctx, m68.M68(k), 40 if ctx.thorough else 8, label="k%d" % k)
