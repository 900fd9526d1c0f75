from vlib import files
LEVEL = "model_checking"
MIX = ["dumpi"] * 3 + ["round"] * 4 + ["dumph"] * 4 + ["cont"] * 3 + ["str"] * 4 + ["set"] * 4 + ["fill", "dec", "dec", "banker", "sel"]


def run(ctx):
    files.check(ctx, MIX, 1500 if ctx.thorough else 200, 30)
