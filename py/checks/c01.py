"""C01: integer and float-to-integer instructions."""
from vlib import nums


def run(ctx):
    nums.check(ctx, nums.INT_OPS, ctx.n(900, 10000), ctx.n(600, 6000))
