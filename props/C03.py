from vlib import files
LEVEL = "model_checking"
MIX = ["load"] * 8 + ["check"] * 5 + ["set"] * 2 + ["fill", "dec", "banker", "banker", "bank", "bank", "sel", "sel"]


def run(ctx):
    files.check(ctx, MIX, 1500 if ctx.thorough else 200, 30)
