"""C16: WASI descriptors behave as POSIX open files."""
from concurrent.futures import ThreadPoolExecutor

from vlib import build, fdconc, progs, thr, tr, wasicheck, wasigen

KINDS = [(), ("nul", "nul", "nul"), ("ro", "rw", "ap"), ("pr", "pq", "pw"), ("rw", "rw", "ap", "pr", "ro"),
         ("ss", "ap", "sl", "pr")]


def binding(ctx, T):
    """changed traces must be refused"""
    C = []
    for t in T:
        for i, l in enumerate(t["s"]):
            for j, c in enumerate(l):
                if c["k"] in ("tell", "write") and c["e"] == 0:
                    m = l[:j] + [dict(c, v=c["v"] + 999)] + l[j + 1:]
                    C.append(dict(t, s=t["s"][:i] + [m] + t["s"][i + 1:]))
        if len(C) >= 30:
            break
    un, res = tr.search("FdConc", C, nproc=2)
    ctx.add_tlc(res)
    if len(un) != len(C):
        raise RuntimeError("FdConc accepts %d of %d changed traces" % (len(C) - len(un), len(C)))


def concurrent(ctx, b):
    """threads that use the same descriptors"""
    jobs = []
    for v, n in (("rel", ctx.n(220, 3000)), ("dbg", ctx.n(60, 800))):
        for i in range(n):
            r = progs.rng(ctx, "conc%s%d" % (v, i))
            jobs.append((v, fdconc.Prog(r), thr.kws(b, v, r, i)))
    stop = []

    def one(j):
        if len(stop) > 1:
            return None
        o = fdconc.run_one(j[2], j[1])
        if o.hang and not o.still:
            o = fdconc.run_one(j[2], j[1])
        if o.hang or o.rc:
            stop.append(o)
        return o
    with ThreadPoolExecutor(6) as ex:
        outs = list(ex.map(one, jobs))
    T, where = [], []
    for (v, p, kw), o in zip(jobs, outs):
        if o is None:
            continue
        if o.hang or o.rc:
            ctx.violation("program with threads that share descriptors %s (%s)" % ("did not end" if o.hang else "failed", v),
                          {"wasm": p.wasm.hex(), "rc": o.rc, "err": o.err[-1500:]})
            continue
        T.append(p.trace(o.out))
        where.append((v, p))
    un, res = tr.search("FdConc", T)
    ctx.add_tlc(res)
    for i in un:
        ctx.violation("results of concurrent calls have no explanation (%s)" % where[i][0],
                      {"trace": T[i], "wasm": where[i][1].wasm.hex()})
    ctx.traces += len(T)
    binding(ctx, T)
    n = {}
    for t in T:
        for c in (c for l in t["s"] for c in l):
            k = "%s:%d" % (c["k"], c["e"])
            n[k] = n.get(k, 0) + 1
    ctx.extra["concurrent"] = n


def run(ctx):
    b = build.build(("rel", "dbg"), ("wasidrv", "shim"))
    concurrent(ctx, b)
    jobs = []
    for v in ("rel", "dbg"):
        for i in range(ctx.n(180, 2500)):
            jobs.append((v, lambda s, v=v, i=i: wasigen.session(
                progs.rng(ctx, "fd%s%d" % (v, i)), wasigen.FDOPS, 60, KINDS[i % len(KINDS)])(s)))
    wasicheck.run(ctx, b, jobs)
