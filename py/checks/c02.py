"""C02: floating point instructions."""
from vlib import nums


def run(ctx):
    nums.check(ctx, nums.FLT_OPS, ctx.n(1200, 16000), ctx.n(1000, 10000))
