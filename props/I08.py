from vlib import isa, hc08
LEVEL = "model_checking"


def run(ctx):
    for k in (0, 1):
        isa.run_table(ctx, hc08.Hc08(k), 40 if ctx.thorough else 8, label="k%d" % k)
