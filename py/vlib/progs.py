"""Scenarios built from random programs."""
import random

from . import gen, scen
from .wasm import EXTERNREF, F32, F64, FUNCREF, I32, I64, V128, u

HOSTS = [("h0", "log", (I32,), ()), ("h1", "log", (I64, F64), (I32,)),
         ("h2", "log", (V128, FUNCREF, EXTERNREF), (I64, F32)), ("h3", "log", (), (F64, I32, V128))]
CBS = [("cb0", "cb", (I32,), ()), ("cb1", "cb", (I32, I32), (I32,)),
       ("cb2", "cb", (I32, I64, V128), (F64, I32)), ("cbn", "cbn", (I32, I32, I32), (I32,)),
       ("tcb0", "tcb", (I32, I32), (I32,)), ("tcb1", "tcb", (I32, I64), (I64, I64)),
       ("cbz", "cb", (), (I32,)), ("cin", "copyin", (I32, I32, I32), (I32,)), ("cout", "copyout", (I32, I32, I32), ())]
# signatures that the callbacks can reach
CBSIGS = [([], []), ([I32], [I32]), ([I64, V128], [F64, I32]), ([I32, I32], [I32]),
          ([I32, I64], [I64, I64]), ([], [I32])]
EXN = {"try": 7, "throw": 4, "throw_ref": 2}


def calls(r, s, k, p, n=3):
    for name, ps, _ in p.entries:
        for _ in range(n):
            s.call(k, name, [(t, gen.value_of(r, t)) for t in ps])


def dumps(s, k, p):
    for g in p.globs:
        s.glob(k, g[0])
    for g in p.mems:
        s.mem(k, g[0])
    for g in p.tabs:
        s.tab(k, g[0])


def add_start(r, p):
    """a start function that calls one of the entries"""
    fs = [(i, n) for n, k, i in p.m.exports if k == 0]
    i, n = r.choice(fs)
    ps, q = next((a, b) for x, a, b in p.entries if x == n)
    p.m.start = p.m.func((), (), (), b"".join(gen.const_of(r, t) for t in ps) + b"\x10" + u(i) +
                         b"\x1a" * len(q) + b"\x0b")


def one(r, hosts=HOSTS, cbs=(), ncalls=3, opts=None, meta=None, abandon=None, write=False,
        start=False, **kw):
    """one module, its entries called, its state dumped"""
    p = gen.Prog(r, hosts=hosts, cbs=cbs, **kw)
    if start:
        add_start(r, p)
    s = scen.Scen(opts, meta)
    for h in list(hosts) + list(cbs):
        s.host(*h)
    m = s.mod(p.m)
    if write:
        m = s.write(m)
    k = s.inst(m, ["host"])
    if abandon is None:
        calls(r, s, k, p, ncalls)
        dumps(s, k, p)
    else:
        name, ps, _ = r.choice(p.entries)
        s.call(k, name, [(t, gen.value_of(r, t)) for t in ps], abandon=abandon)
    return s


def linked(r, hosts=HOSTS, cbs=(), ncalls=2, opts=None, meta=None, **kw):
    """two or three instances that use each other's functions, tables, memories,
    globals and tags"""
    s = scen.Scen(opts, meta)
    for h in list(hosts) + list(cbs):
        s.host(*h)
    kw.setdefault("nfuncs", (2, 4))
    a = gen.Prog(r, hosts=hosts, cbs=cbs, share=True, **kw)
    ma = s.mod(a.m)
    ka = s.inst(ma, ["host"])
    ps = [(ka, a)]
    links, ims = [("a", a)], [("a", ka)]
    if r.random() < .3:
        # a second instance of the same module
        k2 = s.inst(ma, ["host"])
        links.append(("b", a))
        ims.append(("b", k2))
        ps.append((k2, a))
    b = gen.Prog(r, hosts=hosts[:2], cbs=cbs, links=links, **kw)
    kb = s.inst(s.mod(b.m), ["host"] + ims)
    ps.append((kb, b))
    for _ in range(2):
        for k, p in reversed(ps):
            calls(r, s, k, p, 1 if k != kb else ncalls)
    for k, p in ps:
        dumps(s, k, p)
    return s


def rng(ctx, i):
    """generator of item i (any printable)"""
    return random.Random("%s/%d/%s" % (ctx.prop, ctx.seed, i))
