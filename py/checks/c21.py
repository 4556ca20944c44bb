"""C21: host functions, callbacks and guest pointers."""
from vlib import gen, progs, scen
from vlib.wasm import (EXTERNREF, F32, F64, FUNCREF, I32, I64, V128, Module, const, elem_active,
                       limits, u)

VT = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF]


def tys(r, n):
    return tuple(r.choice(VT) for _ in range(r.randrange(n + 1)))


def sigs(r):
    """random host functions: (hosts, callbacks, wanted signatures)"""
    hosts = [("h%d" % k, "log", tys(r, 6), tys(r, 5)) for k in range(r.randrange(2, 5))]
    for k in ("trap", "err"):
        if r.random() < .25:
            hosts.append((k, k, tys(r, 3), tys(r, 2)))
    cbs, want = [], [([], []), ([I32], [I32])]
    for k in range(r.randrange(1, 4)):
        p, q = tys(r, 3), tys(r, 3)
        cbs.append(("cb%d" % k, "cb", (I32,) + p, q))
        want.append((list(p), list(q)))
    if r.random() < .5:
        q = tys(r, 2)
        cbs.append(("cbz", "cb", (), q))
        want.append(([], list(q)))
    for k in range(r.randrange(0, 3)):
        p, q = (I32,) + tys(r, 2), tys(r, 3)
        cbs.append(("tcb%d" % k, "tcb", p, q))
        want.append((list(p), list(q)))
    if r.random() < .5:
        cbs.append(("cbn", "cbn", (I32, I32, I32), (I32,)))
    if r.random() < .5:
        cbs += [("cin", "copyin", (I32, I32, I32), (I32,)), ("cout", "copyout", (I32, I32, I32), ())]
    return hosts, cbs, want


def program(r, i):
    hosts, cbs, want = sigs(r)
    return progs.one(r, hosts=hosts, cbs=cbs, sigs=want, meta=i, exn=i % 3 == 0, start=i % 6 == 0,
                     profile=dict(progs.EXN if i % 3 == 0 else {}, host=14, call=6))


def pointers(r, i):
    """copies at every kind of address, with the memory under various names"""
    m = Module()
    cin = m.imp_func("host", "cin", (I32, I32, I32), (I32,))
    cout = m.imp_func("host", "cout", (I32, I32, I32), ())
    cb = m.imp_func("host", "cb", (I32, I32), (I32,))
    ps = r.choice([None, None, 0])
    sh = r.random() < .3
    kinds = r.choice([["memory"], ["memory"], [], ["mem", "memory"], ["memory", "mem"], ["mem"]])
    sizes = []
    for n in kinds:
        mn = r.choice([0, 1, 2]) if ps is None else r.choice([0, 1, 100, 4099])
        k = m.mem(mn, mn + 300, sh, ps)
        m.export(n, 2, k)
        sizes.append(mn * (65536 if ps is None else 1))
    m.func((I32, I32, I32), (I32,), (), b"\x20\x00\x20\x01\x20\x02\x10" + u(cin) + b"\x0b", "in")
    m.func((I32, I32, I32), (), (), b"\x20\x00\x20\x01\x20\x02\x10" + u(cout) + b"\x0b", "out")
    m.func((I32, I32), (I32,), (), b"\x20\x00\x20\x01\x10" + u(cb) + b"\x0b", "cb")
    f = m.func((I32,), (I32,), (), b"\x20\x00" + const(I32, 3) + b"\x6c\x0b")
    g = m.func((I64,), (I32,), (), const(I32, 1) + b"\x0b")
    if kinds:
        m.func((I32,), (I32,), (), b"\x20\x00\x40" + u(len(kinds) - 1) + b"\x0b", "grow")
    tk = r.choice(["ok", "ok", "ok", "none", "ext", "other"])
    if tk == "ext":
        m.table(EXTERNREF, 5)
        m.export("__indirect_function_table", 1, 0)
    elif tk != "none":
        m.table(FUNCREF, 5)
        m.export("__indirect_function_table" if tk == "ok" else "table", 1, 0)
        m.elems.append(elem_active(const(I32, 1), [f, g, f]))
    s = scen.Scen(meta="pointers %d" % i)
    s.host("cin", "copyin", (I32, I32, I32), (I32,))
    s.host("cout", "copyout", (I32, I32, I32), ())
    s.host("cb", "cb", (I32, I32), (I32,))
    k = s.inst(s.mod(m), ["host"])
    pts = sorted({x + d for x in sizes + [0, 65536, 0x80000000, 0xffffffff]
                  for d in (-17, -16, -8, -5, -4, -2, -1, 0, 1, 2, 3) if 0 <= x + d < 1 << 32})
    for _ in range(24):
        c = r.random()
        if c < .12 and kinds:
            s.call(k, "grow", [(I32, r.choice([0, 1, 2, 17]))])
        elif c < .25:
            s.call(k, "cb", [(I32, r.choice([0, 1, 2, 3, 4, 5, 0xffffffff])), (I32, r.randrange(100))])
        else:
            a = [(I32, r.choice(pts)), (I32, r.choice([0, 0, 1, 2, 3, 4, 5, 8, 15, 16, 17, 100, 4096] +
                                                      ([65535, 65536, 0xffffffff] if c < .6 else []))),
                 (I32, r.choice([1, 1, 1, 2, 4, 8, 16]))]
            s.call(k, "in" if c < .6 else "out", a)
    for x in range(len(kinds)):
        s.mem(k, x)
    return s


def direct(r, i):
    """host functions reached by every way a function can be reached"""
    hosts, cbs, _ = sigs(r)
    hosts = [h for h in hosts if h[1] != "err" or r.random() < .5]
    p, q = (I32,), (I32,)
    hosts.append(("same", "log", p, q))
    hosts.append(("start", r.choice(["log", "log", "log", "trap", "err"]), (), ()))
    cbs.append(("cbx", "cb", (I32, I32), (I32,)))
    m = Module()
    al = [(m.imp_func("host", n, a, b), a, b) for n, _, a, b in hosts + cbs]
    base = len(al)
    tp = m.type(p, q)
    for j, a, b in al:
        m.export("x%d" % j, 0, j)
        m.func(a, b, (), b"".join(b"\x20" + u(x) for x in range(len(a))) + b"\x12" + u(j) + b"\x0b", "t%d" % j)
        m.func(a, b, (), b"".join(b"\x20" + u(x) for x in range(len(a))) + const(I32, j) +
               b"\x13" + u(m.type(a, b)) + b"\x00\x0b", "it%d" % j)
        m.func(a, b, (), b"".join(b"\x20" + u(x) for x in range(len(a))) + const(I32, j) +
               b"\x11" + u(m.type(a, b)) + b"\x00\x0b", "i%d" % j)
        # some values below the arguments must survive
        m.func(a, b + (I64,), (), const(I64, 77 + j) +
               b"".join(b"\x20" + u(x) for x in range(len(a))) + b"\x10" + u(j) +
               b"".join(b"\x21" + u(len(a) + x) for x in reversed(range(len(b)))) +
               b"\x21" + u(len(a) + len(b)) +
               b"".join(b"\x20" + u(len(a) + x) for x in range(len(b) + 1)) + b"\x0b", "k%d" % j)
        m.codes[-1] = (list(b) + [I64], m.codes[-1][1])
    m.table(FUNCREF, base + 2)
    m.elems.append(elem_active(const(I32, 0), range(base)))
    m.export("__indirect_function_table", 1, 0)
    m.mem(1)
    m.export("memory", 2, 0)
    if r.random() < .5:
        m.start = next(j for j, (n, *_) in enumerate(hosts) if n == "start")
    s = scen.Scen(meta="direct %d" % i)
    for h in hosts + cbs:
        s.host(*h)
    k = s.inst(s.mod(m), ["host"])
    # a second module that imports the re-exported host functions
    m2 = Module()
    if r.random() < .75:
        m2.imp_table("a", "__indirect_function_table", FUNCREF, limits(base + 2))
        m2.export("__indirect_function_table", 1, 0)
    if r.random() < .75:
        m2.imp_mem("a", "memory", limits(1))
        m2.export("memory", 2, 0)
    pick = [x for x in al if r.random() < .5]
    for j, a, b in pick:
        m2.imp_func("a", "x%d" % j, a, b)
    for x, (j, a, b) in enumerate(pick):
        m2.func(a, b, (), b"".join(b"\x20" + u(y) for y in range(len(a))) + b"\x10" + u(x) + b"\x0b", "y%d" % j)
    k2 = s.inst(s.mod(m2), [("a", k)])
    for _ in range(30):
        j, a, b = r.choice(al)
        kd = (hosts + cbs)[j][1]
        args = [(t, gen.value_of(r, t)) for t in a]
        if kd in ("cb", "tcb", "cbn") and a:
            # a callback whose target is the calling host function would not end
            args = [(t, v | 4096 if t == I32 else v) for t, v in args]
            args[0] = (I32, r.choice([len(hosts) - 2] + [x for x in range(base + 3)
                                                         if x >= base or (hosts + cbs)[x][1] != "tcb"]))
            if kd == "cbn":
                args[1] = (I32, r.randrange(4))
        if kd in ("copyin", "copyout"):
            args = [(I32, r.choice([0, 8, 65528, 65536])), (I32, r.choice([0, 8, 9])), (I32, r.choice([1, 8]))]
        n = r.choice(["x", "t", "it", "i", "k", "y"])
        s.call(k2 if n == "y" and (j, a, b) in pick else k, (n if n != "y" or (j, a, b) in pick else "x") + str(j), args)
    return s


def nested(r, i):
    """two instances calling back into each other; the host sees the latest table"""
    s = scen.Scen(meta="nested %d" % i)
    hosts = [("h0", "log", (I32,), ()), ("cb1", "cb", (I32, I32), (I32,)), ("cbn", "cbn", (I32, I32, I32), (I32,)),
             ("tcb0", "tcb", (I32, I32), (I32,)), ("cbz", "cb", (), (I32,))]
    for h in hosts:
        s.host(*h)
    ins = []
    for x in range(r.randrange(1, 3)):
        m = Module()
        for n, _, p, q in hosts:
            m.imp_func("host", n, p, q)
        if ins:
            m.imp_table("a", "t", FUNCREF, limits(8))
            m.imp_func("a", "f0", (I32,), (I32,))
        else:
            m.table(FUNCREF, 8)
        b0 = m.nimpfuncs
        nf = r.randrange(2, 5)
        m.glob(I32, 1, const(I32, 0))
        t1 = m.type((I32,), (I32,))
        for k in range(nf):
            c = r.choice(["cb", "cbn", "tcb", "call", "ind", "tail"])
            dec = b"\x20\x00" + const(I32, 1) + b"\x6b"
            slot = const(I32, r.randrange(8))
            b = {"cb": slot + dec + b"\x10\x01", "cbn": slot + const(I32, r.randrange(3)) + dec + b"\x10\x02",
                 "tcb": slot + dec + b"\x10\x03", "call": dec + b"\x10" + u(b0 + r.randrange(nf)),
                 "ind": dec + slot + b"\x11" + u(t1) + b"\x00", "tail": slot + dec + b"\x12\x01"}[c]
            m.func((I32,), (I32,), (I64,), b"\x23\x00" + const(I32, 1) + b"\x6a\x24\x00\x23\x00\x10\x00"
                   b"\x20\x00\x45\x04\x40" + const(I32, k) + b"\x0f\x0b" + const(I64, k) + b"\x21\x01" +
                   b"\x20\x00" + b + b"\x6a\x0b", "f%d" % k)
        # tcb functions take the function index too
        m.func((I32, I32), (I32,), (), b"\x20\x00\x20\x01\x6a\x10\x00\x20\x01\x0b", "g")
        # functions without parameters, called back through element 0
        z = m.func((), (I32,), (), b"\x23\x00" + const(I32, 1) + b"\x6a\x24\x00\x23\x00" + const(I32, 40) +
                   b"\x4b\x04\x7f" + const(I32, 5) + b"\x05" +
                   r.choice([const(I32, 3), b"\x10\x04", const(I32, 2) + b"\x10" + u(b0)]) + b"\x0b\x0b", "z")
        m.func((), (I32,), (), r.choice([b"\x10\x04\x0b", b"\x12\x04\x0b"]), "y")
        fs = [b0 + r.randrange(nf + 1) for _ in range(r.randrange(3, 9))]
        m.elems.append(elem_active(const(I32, 0 if len(fs) == 8 else r.randrange(8 - len(fs))), fs))
        if r.random() < .7:
            m.elems.append(elem_active(const(I32, 0), [z]))
        m.export("t", 1, 0)
        m.export("__indirect_function_table", 1, 0)
        ins.append(s.inst(s.mod(m), ["host"] + [("a", y) for y in ins]))
    s.opts["mf"] = 300
    for _ in range(6):
        s.call(r.choice(ins), "f%d" % r.randrange(2), [(I32, r.choice([0, 1, 2, 3, 4, 5, 6]))])
        s.call(r.choice(ins), r.choice(["z", "y"]))
    for x in ins:
        s.glob(x, 0)
    return s


def run(ctx):
    ss = [program(progs.rng(ctx, "p%d" % i), i) for i in range(ctx.n(150, 4000))]
    ss += [pointers(progs.rng(ctx, "m%d" % i), i) for i in range(ctx.n(120, 1500))]
    ss += [direct(progs.rng(ctx, "d%d" % i), i) for i in range(ctx.n(120, 1500))]
    ss += [nested(progs.rng(ctx, "n%d" % i), i) for i in range(ctx.n(120, 1500))]
    scen.run(ctx, ss, scen.MODES if ctx.quick else scen.MODES_MORE, what="host call")
