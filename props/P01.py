from vlib import mcs51hw
LEVEL = "model_checking"


def run(ctx):
    mcs51hw.check(ctx, "irq")
