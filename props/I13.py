from vlib import isa, pblaze
LEVEL = "model_checking"


def run(ctx):
    for k in (3, 6):
        isa.run_table(ctx, pblaze.Pblaze(k), 250 if ctx.thorough else 40, label="k%d" % k)
