"""C11: interruption.  The specification knows no interrupts: runs of the same
programs interrupted at every possible point must give the traces it allows."""
from vlib import gen, progs, scen
from vlib.wasm import I32, I64, Module, const, limits, u

# "intr": n: one interrupt every n + 1 checks (0 would never let it go on)
INTR = [("rel", {"intr": 1}), ("rel", {"intr": 2, "cont": 1}), ("dbg", {"intr": 1}),
        ("alt", {"intr": 1, "jt": 0, "rc": 0, "lc": 0, "cont": 1}), ("dbg", {"intr": 2, "cont": 1}),
        ("rel", {"intr": 13})]
HOSTS = progs.HOSTS + [("hi", "intr", (I32,), (I32,)), ("hk", "chk", (I32,), (I32,)),
                       ("hk2", "chk", (I64, I32), ())]


def waits(r, i):
    """timed waits, notifications, growth and host calls on a shared memory"""
    m = Module()
    m.imp_func("host", "h0", (I32,), ())
    m.imp_func("host", "hi", (I32,), (I32,))
    m.imp_func("host", "hk", (I32,), (I32,))
    m.mem(1, 3, True)
    n = r.randrange(2, 6)
    b = b""
    for k in range(n):
        a = 8 * r.randrange(4)
        c = r.randrange(6)
        ns = r.choice([0, 1, 200000, 1000000, 2000000])
        if i % 12 == 0 and k == 0:
            # longer than the interval between checks for interrupts
            b += const(I32, 40) + const(I32, 0) + const(I64, 450000000) + b"\xfe\x01\x02\x00\x10\x00"
        if c == 0:
            b += const(I32, a) + const(I32, r.choice([0, 7])) + const(I64, ns) + b"\xfe\x01\x02\x00\x10\x00"
        elif c == 1:
            b += const(I32, a) + const(I64, r.choice([0, 7])) + const(I64, ns) + b"\xfe\x02\x03\x00\x10\x00"
        elif c == 2:
            b += const(I32, a) + const(I32, r.choice([0, 1, 9])) + b"\xfe\x00\x02\x00\x10\x00"
        elif c == 3:
            b += const(I32, a) + const(I32, r.choice([0, 7])) + b"\xfe\x17\x02\x00"
        elif c == 4:
            b += const(I32, r.choice([0, 1, 2])) + b"\x40\x00\x10\x00"
        else:
            b += const(I32, a) + b"\x10" + u(r.choice([1, 2])) + b"\x10\x00"
    b = b"\x03\x40" + b + b"\x23\x00" + const(I32, 1) + b"\x6b\x24\x00\x23\x00\x0d\x00\x0b\x0b"
    f = m.func((), (), (), const(I32, 1 if i % 12 == 0 else r.randrange(1, 4)) + b"\x24\x00" + b, "f")
    m.glob(I32, 1, const(I32, 0))
    if r.random() < .5:
        m.start = f
    s = scen.Scen({"tmo": 30} if i % 12 == 0 else None, meta="wait %d" % i)
    for h in HOSTS:
        s.host(*h)
    k = s.inst(s.mod(m), ["host"])
    s.call(k, "f")
    s.mem(k)
    return s


def program(r, i):
    kw = {}
    if i % 3 == 0:
        kw = {"exn": True, "profile": progs.EXN}
    if i % 2 == 0:
        kw["cbs"] = progs.CBS
        kw["sigs"] = progs.CBSIGS
    if i % 11 == 3:
        return progs.linked(r, hosts=HOSTS, meta=i, fuel=100, **kw)
    if i % 5 == 0:
        kw["profile"] = dict(kw.get("profile", {}), tail=8, itail=6, host=8)
    return progs.one(r, hosts=HOSTS, meta=i, start=i % 7 == 0, fuel=100, **kw)


def run(ctx):
    ss = [program(progs.rng(ctx, i), i) for i in range(ctx.n(240, 5000))]
    ss += [waits(progs.rng(ctx, "w%d" % i), i) for i in range(ctx.n(60, 600))]
    T, _ = scen.run(ctx, ss, INTR if ctx.quick else INTR + [("alt", {"intr": 1}), ("dbg", {"intr": 5})],
                    what="interrupted program")
    # executions given up after some interrupts release what they held
    ab = []
    for i in range(ctx.n(150, 3000)):
        r = progs.rng(ctx, "a%d" % i)
        ab.append(progs.one(r, hosts=HOSTS, cbs=progs.CBS, sigs=progs.CBSIGS, meta="abandon %d" % i,
                            exn=i % 2 == 0, profile=progs.EXN if i % 2 == 0 else {},
                            abandon=r.choice([0, 1, 2, 3, 5, 8, 13, 30, 60])))
    scen.run(ctx, ab, [("rel", {"intr": 1}), ("dbg", {"intr": 1}), ("alt", {"intr": 2})],
             what="abandoned execution")
