"""C18: WASI environment, clock, random, poll, socket and exit calls, and the
guest memory of every call."""
from vlib import build, clicfg, progs, wasicheck, wasigen

KINDS = [("pr", "pw", "nul", "ss", "sl", "ss"), ("ss", "sl", "pr", "ss"), ("nul", "nul", "nul"), ("sl", "pq", "pr", "rw")]
ALL = {**wasigen.FDOPS, **wasigen.PATHOPS, **wasigen.PROCOPS}


def run(ctx):
    b = build.build(("rel", "dbg"), ("wasidrv",))
    jobs = []
    for v in ("rel", "dbg"):
        for i in range(ctx.n(140, 2000)):
            jobs.append((v, lambda s, v=v, i=i: wasigen.session(
                progs.rng(ctx, "proc%s%d" % (v, i)), wasigen.PROCOPS, 50, KINDS[i % len(KINDS)],
                exit=i % 2 == 0)(s)))
        # every call, with many wrong pointers
        for i in range(ctx.n(60, 1000)):
            jobs.append((v, lambda s, v=v, i=i: wasigen.session(
                progs.rng(ctx, "ptr%s%d" % (v, i)), ALL, 60, KINDS[i % len(KINDS)], bad=0.3)(s)))
    wasicheck.run(ctx, b, jobs)
    clicfg.run(ctx, b, lambda s: progs.rng(ctx, s), ctx.n(60, 1000))
