"""Runs WASI sessions and has TLC judge them."""
import re

from . import tr, wasi

CFG = tr.SEARCH


def judge(T):
    """({index: event that could not be explained}, TLC results, loose)"""
    un, res = tr.search("WasiTrace", T)
    n = max(1, min(8, len(T)))
    reach = {}
    loose = 0
    for k, r in enumerate(res):
        m = re.search(r'<<\s*"reached",\s*<<(.*?)>>\s*>>', r.out, re.S)
        xs = [int(x) for x in re.findall(r"\d+", m.group(1))]
        for j, i in enumerate(list(range(len(T)))[k::n]):
            reach[i] = xs[j]
        loose += int(re.search(r'<<\s*"loose",\s*(\d+)', r.out).group(1))
    return {i: reach[i] for i in un}, res, loose


def binding(ctx, T):
    """traces with one recorded result changed must be refused"""
    C = []
    for t in T:
        k = next((k for k, e in enumerate(t["v"]) if e["v"] == "call" and e["t"] == -1 and e["r"] == 0), None)
        if k is not None:
            C.append(dict(t, v=t["v"][:k] + [dict(t["v"][k], r=99)] + t["v"][k + 1:]))
        # contents seen by the host
        k = next((k for k, e in enumerate(t["v"]) if e["v"] == "tree" and e["tree"]), None)
        if k is not None and k < 3:
            C.append(dict(t, v=t["v"][:k] + [dict(t["v"][k], tree=t["v"][k]["tree"][1:])] + t["v"][k + 1:]))
    bad, res, _ = judge(C)
    ctx.add_tlc(res)
    if len(bad) * 4 < len(C) * 3:      # (some have become loose before)
        raise RuntimeError("WasiTrace accepts changed traces")
    ctx.extra["changed traces refused"] = len(bad)


def run(ctx, b, jobs):
    outs = wasi.run(ctx, b, jobs)
    ctx.log("%d sessions" % len(jobs))
    T, where = [], []
    hangs = 0
    for k, (t, f) in enumerate(outs):
        if f is not None:
            # once more: the machine may have been busy
            if f.startswith("Hang"):
                hangs += 1
                if hangs > 3:
                    continue
                t2, f2 = wasi.run(ctx, b, [jobs[k]])[0]
                if f2 is None:
                    t, f = t2, None
            if f is not None:
                ctx.violation("session ended: %s" % f.splitlines()[0], {"failure": f, "trace": t, "variant": jobs[k][0]})
                continue
        T.append(t)
        where.append(k)
    bad, res, loose = judge(T)
    ctx.add_tlc(res)
    # what is refused must be refused again
    known = sorted(bad)[:24]
    if known:
        again = wasi.run(ctx, b, [jobs[where[i]] for i in known])
        A = [(i, t) for i, (t, f) in zip(known, again) if f is None]
        bad2, res2, _ = judge([t for i, t in A]) if A else ({}, [], 0)
        ctx.add_tlc(res2)
        ok = {i for k, (i, t) in enumerate(A) if k not in bad2}
        for i in known:
            if i in ok:
                ctx.log("not repeated: %s" % describe(T[i]["v"][bad[i] - 1]))
                ctx.extra["not repeated"] = ctx.extra.get("not repeated", 0) + 1
                continue
            e = T[i]["v"][bad[i] - 1]
            ctx.violation("no explanation for %s" % describe(e),
                          {"trace": T[i], "event": bad[i], "variant": jobs[where[i]][0]})
    else:
        binding(ctx, T[:12])
    ctx.traces += len(T) - len(bad)
    seen = {}
    calls = 0
    for t in T:
        for e in t["v"]:
            if e["v"] == "call":
                calls += 1
                z = seen.setdefault(e["c"], {})
                x = "trap%d" % e["t"] if e["t"] != -1 else str(e["r"])
                z[x] = z.get(x, 0) + 1
    ctx.extra["calls"] = calls
    ctx.extra["outcomes"] = seen
    ctx.extra["loose"] = loose
    if T:
        ctx.sample([describe(e) for e in T[0]["v"][:12]])


def describe(e):
    if e["v"] != "call":
        return str({k: x for k, x in e.items()})[:200]
    a = [x if isinstance(x, int) else int.from_bytes(bytes(x), "little") for x in e["a"]]
    return "%s%s%s -> errno %d trap %d" % ("unstable " if e["u"] else "", e["c"], tuple(a), e["r"], e["t"])
