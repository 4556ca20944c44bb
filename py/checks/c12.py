"""C12: limits on frames and cells, allocation failures, memory accounting."""
import copy
import os

from vlib import build, drv, gen, progs, scen, tlc, tr
from vlib.wasm import (EXTERNREF, F64, FUNCREF, I32, I64, V128, Module, const, elem_active, s32, u)

CBS = progs.CBS


def deep(r, i):
    """mutually recursive functions with calls of every kind; n levels"""
    m = Module()
    for n, k, p, q in progs.HOSTS[:1] + CBS:
        m.imp_func("host", n, p, q)
    hosts = {n: j for j, (n, *_) in enumerate(progs.HOSTS[:1] + CBS)}
    tag = m.tag((I32,)) if r.random() < .4 else None
    nf = r.randrange(1, 5)
    first = m.nimpfuncs
    t1 = m.type((I32,), (I32,))
    kinds = []
    for k in range(nf):
        kinds.append(r.choice(["call", "call", "ind", "tail", "itail", "cb", "tcb", "try"]))
    for k in range(nf):
        nxt = r.randrange(nf)
        locs = [r.choice([I32, I64, F64, V128, FUNCREF, EXTERNREF]) for _ in range(r.choice([0, 0, 1, 3, 9]))]
        # some values kept on the stack during the call
        keep = [r.choice([I32, I64, V128]) for _ in range(r.choice([0, 0, 1, 4]))]
        dec = b"\x20\x00" + const(I32, 1) + b"\x6b"
        kd = kinds[k]
        if kd == "call" or kd == "try":
            c = dec + b"\x10" + u(first + nxt)
            if kd == "try" and tag is not None:
                # catch at some levels only
                c = b"\x02\x7f\x1f\x7f\x01\x00" + u(tag) + b"\x00" + c + b"\x0b\x0b"
        elif kd == "ind":
            c = dec + const(I32, nxt) + b"\x11" + u(t1) + b"\x00"
        elif kd == "tail":
            keep = []
            c = dec + b"\x12" + u(first + nxt)
        elif kd == "itail":
            keep = []
            c = dec + const(I32, nxt) + b"\x13" + u(t1) + b"\x00"
        elif kd == "cb":    # cb1: (function, argument) -> result
            c = const(I32, nxt) + dec + b"\x10" + u(hosts["cb1"])
        else:
            c = const(I32, nxt) + dec + b"\x10" + u(hosts["tcb0"])
        base = const(I32, k) if tag is None or r.random() < .5 else const(I32, k) + b"\x08" + u(tag)
        b = b"\x20\x00\x45\x04\x40" + base + b"\x0f\x0b"
        b += b"".join(const(t, 3) for t in keep) + c
        if keep:
            b += b"\x21\x00" + b"\x1a" * len(keep) + b"\x20\x00"
        b += const(I32, k + 1) + b"\x6a\x0b"
        m.func((I32,), (I32,), locs, b, "f%d" % k)
    m.table(FUNCREF, nf)
    m.export("tab", 1, 0)
    m.export("__indirect_function_table", 1, 0)
    m.elems.append(elem_active(const(I32, 0), range(first, first + nf)))
    if r.random() < .3:
        m.start = m.func((), (), (), const(I32, r.randrange(6)) + b"\x10" + u(first) + b"\x1a\x0b")
    s = scen.Scen(meta="deep %d" % i)
    for h in progs.HOSTS[:1] + CBS:
        s.host(*h)
    k = s.inst(s.mod(m), ["host"])
    for _ in range(6):
        s.call(k, "f%d" % r.randrange(nf), [(I32, r.choice([0, 1, 2, 3, 4, 5, 7, 9, 15, 30]))])
    return s


def tailloop(i):
    """a tail call chain needs a constant number of frames"""
    m = Module()
    f = m.func((I32, I64), (I64,), (), b"\x20\x00\x45\x04\x40\x20\x01\x0f\x0b\x20\x00" + const(I32, 1) +
               b"\x6b\x20\x01" + const(I64, 3) + b"\x7c\x12\x00\x0b", "f")
    t = m.type((I32, I64), (I64,))
    m.func((I32, I64), (I64,), (), b"\x20\x00\x45\x04\x40\x20\x01\x0f\x0b\x20\x00" + const(I32, 1) +
           b"\x6b\x20\x01" + const(I64, 3) + b"\x7c" + const(I32, 0) + b"\x13" + u(t) + b"\x00\x0b", "g")
    m.table(FUNCREF, 1)
    m.elems.append(elem_active(const(I32, 0), [f + 1]))
    s = scen.Scen(meta="tail")
    k = s.inst(s.mod(m))
    for n in "fg":
        s.call(k, n, [(I32, 200), (I64, 0)])
    return s


def opt(s, **o):
    c = copy.copy(s)
    c.opts = dict(s.opts, **o)
    return c


def program(r, i):
    kw = {}
    if i % 3 == 0:
        kw = {"exn": True, "profile": progs.EXN}
    if i % 2 == 0:
        kw["cbs"] = CBS
        kw["sigs"] = progs.CBSIGS
    # no growth: which one a failing allocation refuses is looked for (scen.soft)
    # among few candidates only, see grower
    kw["profile"] = dict(kw.get("profile", {}), grow=0)
    return progs.one(r, meta=i, ncalls=2, start=i % 4 == 1, **kw)


def grower(r, i):
    """growth, bulk operations, segments, imports of another instance"""
    m = Module()
    ps = r.choice([None, None, 0])
    sh = r.random() < .4
    m.mem(1, 12 if ps is None else 3000, sh, ps)
    m.table(FUNCREF, 2)
    m.table(EXTERNREF, 1, 50000)
    g = m.func((I32,), (I32,), (), b"\x20\x00\x40\x00\x0b", "gm")
    m.func((I32,), (I32,), (), b"\xd2" + u(g) + b"\x20\x00\xfc\x0f\x00\x0b", "gt")
    m.func((I32,), (I32,), (), b"\xd0\x6f\x20\x00\xfc\x0f\x01\x0b", "ge")
    m.func((), (I32, I32, I32), (), b"\x3f\x00\xfc\x10\x00\xfc\x10\x01\x0b", "sz")
    m.func((I32, I32), (), (), b"\x20\x00\x20\x01\x3a\x00\x00\x0b", "st")
    m.func((I32,), (I32,), (), b"\x20\x00\x2d\x00\x00\x0b", "ld")
    m.export("m", 2, 0)
    m.export("t", 1, 0)
    m.elems.append(elem_active(const(I32, 0), [g]))
    s = scen.Scen(meta="grow %d" % i)
    k = s.inst(s.mod(m))
    big = [1, 1, 2, 3] if ps is None else [1, 5, 100, 1000]
    for _ in range(8):
        c = r.randrange(6)
        if c == 0:
            s.call(k, "gm", [(I32, r.choice(big))])
        elif c == 1:
            s.call(k, "gt", [(I32, r.choice([1, 2, 60, 200]))])
        elif c == 2:
            s.call(k, "ge", [(I32, r.choice([1, 2, 60, 300]))])
        elif c == 3:
            s.call(k, "st", [(I32, r.choice([0, 100, 1000, 65535, 65536, 140000, 300000])), (I32, 7)])
        else:
            s.call(k, "ld", [(I32, r.choice([0, 100, 1000, 65535, 65536, 140000]))])
        s.call(k, "sz")
    s.mem(k)
    return s


def baseline(b, variant, ss):
    ev, _ = drv.run_jobs(os.path.join(b[variant]["bin"], "twdrv"), [s.job({}) for s in ss], variant)
    return [next((e for e in x if e["e"] == "end"), None) for x in ev]


def limits(ctx):
    """frame and cell limits"""
    ss = []
    for i in range(ctx.n(300, 4000)):
        r = progs.rng(ctx, "d%d" % i)
        s = deep(r, i)
        if i % 2 == 0:
            ss.append(opt(s, mf=r.choice([1, 1, 2, 3, 4, 5, 6, 8, 11, 16, 31, 32])))
        else:
            ss.append(opt(s, mc=r.choice([5, 6, 7, 8, 9, 12, 20, 33, 60, 100, 200])))
    for i in range(ctx.n(80, 2000)):
        r = progs.rng(ctx, "p%d" % i)
        s = program(r, i)
        ss.append(opt(s, mf=r.choice([1, 2, 3, 4, 6])) if i % 2 else
                  opt(s, mc=r.choice([4, 10, 20, 40, 80, 160])))
    ss += [opt(tailloop(0), mf=n) for n in (1, 2)]
    scen.run(ctx, ss, what="limited execution")


def faults(ctx):
    """every (or every sampled) single allocation fails; memory limits"""
    b = build.build(("rel", "dbg", "alt"))
    for variant in ("rel", "dbg", "alt"):
        ss = []
        for i in range(ctx.n(12, 200)):
            r = progs.rng(ctx, "%s%d" % (variant, i))
            ss.append(program(r, i) if i % 4 == 0 else deep(r, i) if i % 4 == 1 else
                      grower(r, i) if i % 4 == 2 else graph(r, i))
        base = baseline(b, variant, ss)
        fs = []
        total = 0
        for s, e in zip(ss, base):
            if e is None:
                continue
            r = progs.rng(ctx, "%s/%s" % (variant, s.meta))
            na = e["na"]
            ns = range(na) if na <= ctx.n(60, 1500) else \
                sorted(r.sample(range(na), ctx.n(60, 1500)))
            total += len(ns)
            fs += [opt(s, af=n) for n in ns]
            root, mm, im = e["pk"]
            ls = {0, 1, mm - 1, mm, mm + 1, root - 1, root - 2, root // 2} | \
                {r.randrange(root + 1) for _ in range(ctx.n(12, 100))}
            fs += [opt(s, ml=n) for n in sorted(ls) if n >= 0]
            fs += [opt(s, il=n) for n in {0, im // 2, im - 1, r.randrange(im + 1)} if n >= 0]
            # at the measured peak nothing may fail
            fs += [opt(s, ml=root, fault=0), opt(s, il=im, fault=0), opt(s, ml=root, il=im, fault=0)]
        ctx.extra["failed_allocations"] = ctx.extra.get("failed_allocations", 0) + total
        scen.run(ctx, fs, [(variant, {})], what="failing allocation")
        if ctx.viol:
            break


def graph(r, i):
    """two instances sharing a memory, a table, globals and a tag"""
    a = Module()
    a.imp_func("host", "h0", (I32,), ())
    a.mem(1, 4)
    a.table(FUNCREF, 4, 20)
    a.tag((I32,))
    a.glob(I32, 1, const(I32, 5))
    f = a.func((I32,), (I32,), (), b"\x20\x00\x08\x00\x0b", "th")
    for n, k in (("m", 2), ("t", 1), ("e", 4), ("g", 3)):
        a.export(n, k, 0)
    a.elems.append(elem_active(const(I32, 1), [f]))
    c = Module()
    th = c.imp_func("a", "th", (I32,), (I32,))
    c.imp_table("a", "t", FUNCREF, b"\x01\x04\x14")
    c.imp_mem("a", "m", b"\x01\x01\x04")
    c.imp_global("a", "g", I32, 1)
    c.imp_tag("a", "e", (I32,))
    g = c.func((I32,), (I32,), (), b"\x02\x7f\x1f\x7f\x01\x00\x00\x00\x20\x00\x10" + u(th) + b"\x0b\x0b"
               b"\x23\x00\x6a\x24\x00\x23\x00\x0b", "ca")
    c.func((I32,), (I32,), (), b"\xd2" + u(g) + b"\x20\x00\xfc\x0f\x00\x0b", "gt")
    c.elems.append(elem_active(const(I32, r.choice([0, 2, 3, 4])), [g]))
    s = scen.Scen(meta="graph %d" % i)
    s.host(*progs.HOSTS[0])
    x = s.inst(s.mod(a), ["host"])
    y = s.inst(s.mod(c), [("a", x)])
    for _ in range(4):
        s.call(y, r.choice(["ca", "gt"]), [(I32, r.randrange(9))])
    s.tab(x, 0)
    s.glob(x, 0)
    return s


UNL = 2147483647


def account(r):
    """use of a tree of contexts"""
    n = r.randrange(1, 6)
    par = [-1] + [r.randrange(k) if r.random() < .9 else -1 for k in range(1, n)]
    lim = [r.choice([UNL, UNL, 0, 10, 1000, 5000, 20000]) for _ in range(n)]
    lines = ["K " + " ".join("%d %d" % (p, l if l != UNL else (1 << 62)) for p, l in zip(par, lim))]
    ops, live = [], {}
    free = list(range(16))
    for _ in range(r.randrange(10, 60)):
        c = r.randrange(n)
        k = r.random()
        d = r.choice([1, 1, 2, 9, 10, 11, 100, 999, 1000, 1001, 4000, 5000, 19999, 20001,
                      r.randrange(1, 3000)])
        if k < .4 and free:
            o = r.choice("azc")
            i = r.choice(free)
            # the generator cannot know whether it succeeds: a slot is used once
            free.remove(i)
            live[i] = (c, d)
            if o == "c":
                if r.random() < .1:
                    lines.append("Y c %d %d %d %d" % (c, i, 1 << 40, 1 << r.choice([24, 30, 40])))
                    live.pop(i)
                    free.append(i)
                    d = -1
                else:
                    a, b = r.choice([(d, 1), (1, d), (7, 3), (10, 100)])
                    d = a * b
                    live[i] = (c, d)
                    lines.append("Y c %d %d %d %d" % (c, i, a, b))
            else:
                lines.append("Y %s %d %d %d" % (o, c, i, d))
            ops.append({"o": o, "c": c + 1, "i": i + 1, "d": d})
        elif k < .8 and live:
            i = r.choice(sorted(live))
            ops.append({"o": "?", "c": 1, "i": i + 1, "d": d, "k": r.choice("eEsf")})
            lines.append(None)
        elif k < .9:
            l = r.choice([0, 10, 100, 1000, 5000, 20000, UNL])
            lines.append("Y l %d %d" % (c, l if l != UNL else (1 << 62)))
            ops.append({"o": "l", "c": c + 1, "i": 1, "d": l})
    # which later operations apply depends on what succeeded: simulate
    al = [0] * n
    lm = list(lim)

    def anc(c):
        while c >= 0:
            yield c
            c = par[c]
    slot = {}
    out, ls = [], [lines[0]]
    for o, l in zip(ops, lines[1:]):
        if o["o"] in "azc":
            if o["d"] < 0 or o["i"] - 1 in slot:
                if o["d"] >= 0:
                    continue
            elif all(lm[a] - al[a] >= o["d"] for a in anc(o["c"] - 1)):
                for a in anc(o["c"] - 1):
                    al[a] += o["d"]
                slot[o["i"] - 1] = [o["c"] - 1, o["d"]]
        elif o["o"] == "l":
            if o["d"] >= al[o["c"] - 1]:
                lm[o["c"] - 1] = o["d"]
        else:
            i = o["i"] - 1
            if i not in slot:
                continue
            c, z = slot[i]
            k = o.pop("k")
            d = o["d"]
            if k == "f":
                l, d = "Y f %d" % i, 0
                del slot[i]
                for a in anc(c):
                    al[a] -= z
            elif k == "s":
                d = r.randrange(1, z) if z > 1 else 0
                if d == 0:
                    continue
                l = "Y s %d %d" % (i, d)
                slot[i][1] = d
                for a in anc(c):
                    al[a] -= z - d
            else:
                d = z + d
                l = "Y %s %d %d" % (k, i, d)
                if all(lm[a] - al[a] >= d - z for a in anc(c)):
                    slot[i][1] = d
                    for a in anc(c):
                        al[a] += d - z
            o = dict(o, o=k, d=d)
        out.append(o)
        ls.append(l)
    for i in sorted(slot):
        out.append({"o": "f", "c": 1, "i": i + 1, "d": 0})
        ls.append("Y f %d" % i)
    return {"par": [p + 1 for p in par], "lim": lim, "s": out}, ls


MC = """SPECIFICATION Spec
INVARIANT IsExact
INVARIANT IsLimited
CONSTANTS
  Sizes = {1, 2, 3}
  Limits = %s
  Slots = %d
CHECK_DEADLOCK FALSE
"""


def accounts(ctx):
    r = tlc.run("MemCtxMC", MC % (("{2, 4}", 2) if ctx.quick else ("{1, 3, 5}", 3)), workers=8, cont=False)
    if r.violations:
        raise tlc.TLCError("MemCtx: " + str(r.violations[0]))
    ctx.add_tlc(r)
    items = [account(progs.rng(ctx, "acc%d" % i)) for i in range(ctx.n(300, 3000))]
    b = build.build(("rel", "dbg", "alt"))
    seen, ts = {}, []
    for variant in ("rel", "dbg"):
        exe = os.path.join(b[variant]["bin"], "twdrv")
        ev, _ = drv.run_jobs(exe, [drv.Job(ls) for _, ls in items], variant)
        for (t, ls), e in zip(items, ev):
            v = [{"e": x["e"], "ok": x.get("ok", 0), "bad": x.get("bad", 0), "al": x.get("al", []),
                  "pk": x.get("pk", []) if x["e"] == "ma" else []} for x in e]
            k = str((t, v))
            if k not in seen:
                seen[k] = 1
                ts.append((dict(t, v=v), ls, variant))
    bad, res = tr.validate("MemCtxTrace", [x for x, _, _ in ts])
    ctx.add_tlc(res)
    ctx.traces += len(ts)
    for i in sorted(bad)[:3]:
        t, ls, variant = ts[i]
        l = int(bad[i]["l"])
        ctx.violation("memory accounting (%s): operation %s gave %s" % (
            variant, t["s"][l - 1] if l <= len(t["s"]) else "end",
            t["v"][l - 1] if l <= len(t["v"]) else None), {"lines": ls, "trace": t})


def run(ctx):
    for part in (accounts, limits, faults):
        part(ctx)
        if ctx.viol:
            break
