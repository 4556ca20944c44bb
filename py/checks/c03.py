"""C03: v128 instructions."""
from vlib import simd


def run(ctx):
    simd.check(ctx, simd.OPS, ctx.n(60, 1500))
