"""C19: dynamic linking resolves symbols and lays out modules consistently."""
from vlib import build, dyl, progs


def kinds(T):
    """how often each act was seen"""
    n = {}
    for t in T:
        fns = {m["id"]: m["fns"] for m in t["cfg"]["mods"]}
        for e in t["v"]:
            if e["v"] == "log":
                a = fns[e["m"]][e["tag"] // 100 - 1]["acts"][e["tag"] % 100 - 1]
                k = a["a"]
                if k in ("load", "sym"):
                    k += " failed" if e["val"] else " done"
                elif k == "try" and e["val"] >= 1000000:
                    k = "caught"
                elif k in ("gm", "gf") and e["val"] == 0:
                    k += " weak"
            else:
                k = "exit %d" % e["status"]
            n[k] = n.get(k, 0) + 1
    return n


def binding(ctx, T):
    """changed traces must be refused"""
    C = []
    for t in T:
        fns = {m["id"]: m["fns"] for m in t["cfg"]["mods"]}
        ks = [k for k, e in enumerate(t["v"]) if e["v"] == "log" and
              fns[e["m"]][e["tag"] // 100 - 1]["acts"][e["tag"] % 100 - 1]["a"] in ("call", "ld", "arg", "load", "try")]
        if ks:
            k = ks[len(ks) // 2]
            C.append(dict(t, v=t["v"][:k] + [dict(t["v"][k], val=t["v"][k]["val"] + 1)] + t["v"][k + 1:]))
        if len(t["v"]) > 1:
            C.append(dict(t, v=t["v"][:-2] + t["v"][-1:]))
            C.append(dict(t, v=t["v"][:-1] + [dict(t["v"][-1], status=1 - t["v"][-1]["status"])]))
        if len(C) >= 60:
            break
    bad, res = dyl.judge(C)
    ctx.add_tlc(res)
    # a program whose last output is missing may have been stopped by a trap instead
    if len(bad) < 0.9 * len(C):
        raise RuntimeError("DyldTrace accepts %d of %d changed traces" % (len(C) - len(bad), len(C)))
    ctx.extra["changed traces refused"] = "%d of %d" % (len(bad), len(C))


def run(ctx):
    b = build.build(("rel", "dbg", "alt"), ())
    jobs = []
    for v, n in (("rel", ctx.n(900, 9000)), ("dbg", ctx.n(500, 4000)), ("alt", ctx.n(200, 2000))):
        for i in range(n):
            jobs.append((v, lambda v=v, i=i: dyl.Program(progs.rng(ctx, "dyl%s%d" % (v, i)))))
    outs = dyl.run(b, jobs)
    ctx.log("%d programs" % len(jobs))
    T, where = [], []
    for k, (t, f) in enumerate(outs):
        if f is not None and f.startswith("Hang"):
            t, f = dyl.run(b, [jobs[k]])[0]
        if f is not None:
            ctx.violation("program ended: %s" % f.splitlines()[0][:200],
                          {"failure": f, "argv": jobs[k][1]().argv(), "trace": t, "variant": jobs[k][0]})
            continue
        T.append(t)
        where.append(k)
    bad, res = dyl.judge(T)
    ctx.add_tlc(res)
    for i, l in bad.items():
        e = T[i]["v"][l - 1]
        if e["v"] == "log":
            m = T[i]["cfg"]["mods"][e["m"] - 1]
            what = "module %d: %s" % (e["m"], m["fns"][e["tag"] // 100 - 1]["acts"][e["tag"] % 100 - 1])
        else:
            what = T[i]["err"].strip()[-200:]
        ctx.violation("no explanation for %s %s" % (e, what), {"trace": T[i], "event": l, "variant": jobs[where[i]][0]})
    if not bad:
        binding(ctx, T)
    ctx.traces += len(T) - len(bad)
    ctx.extra["acts"] = kinds(T)
    if T:
        ctx.sample([[e["m"], e["tag"], e["val"]] for e in T[0]["v"][:20]])
