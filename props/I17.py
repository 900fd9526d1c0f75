from vlib import isa, oisc
LEVEL = "model_checking"


def run(ctx):
    for k in range(3):
        isa.run_table(ctx, oisc.Oisc(k), 60 if ctx.thorough else 8, label="k%d" % k)
