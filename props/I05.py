from vlib import isa, i8080
LEVEL = "model_checking"


def run(ctx):
    for k in (0, 1):
        isa.run_table(ctx, i8080.I8080(k), 60 if ctx.thorough else 12, label="k%d" % k)
