from vlib import isa, avr
LEVEL = "model_checking"


def run(ctx):
    isa.run_table(ctx, avr.Avr(), 120 if ctx.thorough else 20)
