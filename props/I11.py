from vlib import isa, pdk
LEVEL = "model_checking"


def run(ctx):
    for k in (13, 14, 15):
        isa.run_table(ctx, pdk.Pdk(k), 60 if ctx.thorough else 12, label="k%d" % k)
