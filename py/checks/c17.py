"""C17: WASI path operations mirror a POSIX directory tree."""
from vlib import build, progs, wasicheck, wasigen


def run(ctx):
    b = build.build(("rel", "dbg"), ("wasidrv",))
    jobs = []
    for v in ("rel", "dbg"):
        for i in range(ctx.n(220, 3000)):
            jobs.append((v, lambda s, v=v, i=i: wasigen.session(
                progs.rng(ctx, "path%s%d" % (v, i)), wasigen.PATHOPS, (50, 50, 25)[i % 3], trees=5)(s)))
    wasicheck.run(ctx, b, jobs)
