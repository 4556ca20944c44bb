"""C22: the command line and the REPL report module outcomes faithfully."""
from vlib import build, clicfg, progs, repl


def binding(ctx, T):
    """changed traces must be refused"""
    C = []
    for t in T:
        k = next((k for k, e in enumerate(t["v"]) if e["v"] == "cmd" and e["c"] == "invoke" and
                  e["out"] and bytes(e["out"][0]).startswith(b"Result: ") and e["out"][0][8] in range(48, 57)), None)
        if k is not None:
            e = t["v"][k]
            l = list(e["out"][0])
            l[8] += 1
            C.append(dict(t, v=t["v"][:k] + [dict(e, out=[l])] + t["v"][k + 1:]))
        k = next((k for k, e in enumerate(t["v"]) if e["v"] == "cmd" and e["tr"]), None)
        if k is not None:
            e = t["v"][k]
            C.append(dict(t, v=t["v"][:k] + [dict(e, tr=[dict(e["tr"][0], id=12)])] + t["v"][k + 1:]))
        if len(C) >= 24:
            break
    bad, res = repl.judge(C)
    ctx.add_tlc(res)
    if len(bad) != len(C):
        raise RuntimeError("ReplTrace accepts changed traces")
    ctx.extra["changed traces refused"] = len(C)


def run(ctx):
    b = build.build(("rel", "dbg", "alt"), ())
    jobs = []
    for v, n in (("rel", ctx.n(600, 6000)), ("dbg", ctx.n(300, 3000)), ("alt", ctx.n(150, 2000))):
        for i in range(n):
            jobs.append((v, lambda v=v, i=i: repl.Session(progs.rng(ctx, "repl%s%d" % (v, i)), i % 3 == 2)))
    outs = repl.run(b, jobs)
    ctx.log("%d sessions" % len(jobs))
    T, where = [], []
    for k, (t, f) in enumerate(outs):
        if f is not None and f.startswith("Hang"):
            t, f = repl.run(b, [jobs[k]])[0]
        if f is not None:
            ctx.violation("session ended: %s" % f.splitlines()[0][:200],
                          {"failure": f, "argv": jobs[k][1]().argv(), "trace": t, "variant": jobs[k][0]})
            continue
        T.append(t)
        where.append(k)
    bad, res = repl.judge(T)
    ctx.add_tlc(res)
    for i, l in bad.items():
        ctx.violation("no explanation for %s" % repl.describe(T[i]["v"][l - 1])[:400],
                      {"trace": T[i], "event": l, "variant": jobs[where[i]][0]})
    if not bad:
        binding(ctx, T)
    clicfg.run(ctx, b, lambda s: progs.rng(ctx, s), ctx.n(60, 1000))
    ctx.traces += len(T) - len(bad)
    seen = {}
    for t in T:
        for e in t["v"]:
            if e["v"] == "cmd":
                x = "trap" if e["tr"] else "error" if any(bytes(l).startswith(b"Error") for l in e["out"]) else "done"
                k = e["c"] + " " + x
            else:
                k = "%s %d" % (e["v"], e["status"])
            seen[k] = seen.get(k, 0) + 1
    ctx.extra["outcomes"] = seen
    if T:
        ctx.sample([repl.describe(e) for e in T[0]["v"][:12]])
