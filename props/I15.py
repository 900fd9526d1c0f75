from vlib import isa, p1516
LEVEL = "model_checking"


def run(ctx):
    for k in (1, 2):
        isa.run_table(ctx, p1516.P1516(k), 400 if ctx.thorough else 50, label="k%d" % k)
