"""C06: control flow, calls and locals."""
from vlib import progs, scen
from vlib.wasm import F64, I32, I64, V128, Module, const, u


def slot(r, n):
    """one construct of n bytes: the block starts at the same place, its parts don't"""
    a = b"\x20\x00" + const(I32, r.randrange(12)) + b"\x76" + const(I32, 1) + b"\x71"

    def step():
        # local 1 := local 1 * k + c
        return b"\x20\x01" + const(I32, r.choice([3, 5, 7])) + b"\x6c" + const(I32, r.randrange(60)) + b"\x6a\x21\x01"
    k = r.randrange(4)
    if k == 0:
        o, parts = b"\x04\x40", [step(), b"\x05", step(), b"\x0b"]
    elif k == 1:
        o, parts = b"\x04\x40", [step(), b"\x0b"]
    elif k == 2:
        a, o = b"", b"\x02\x40"
        parts = [b"\x20\x00" + const(I32, r.randrange(12)) + b"\x76" + const(I32, 1) + b"\x71\x0d\x00", step(), b"\x0b"]
        o = b"\x01" * 7 + o
    else:
        o, parts = b"\x04\x7f", [const(I32, r.randrange(60)), b"\x05", step() + const(I32, r.randrange(60)), b"\x0b",
                                 b"\x20\x01\x6a\x21\x01"]
    left = n - len(a + o + b"".join(parts))
    # the padding goes anywhere after the start of the block
    b = a + o
    for i, x in enumerate(parts):
        w = r.randrange(left + 1) if i < len(parts) - 1 else 0
        left -= w
        b += x + b"\x01" * w
    return b + b"\x01" * left


def twins(r, i):
    """modules of the same layout, whose jumps go to different places"""
    s = scen.Scen(meta="twin %d" % i)
    s.host("hl", "log", (I32,), (I32,))
    n = r.randrange(2, 5)
    plan = [r.random() < .5 for _ in range(2 * n)]
    reps = r.randrange(1, 4)
    prev = None
    ks = []
    for x in range(r.randrange(2, 4)):
        m = Module()
        m.imp_func("host" if prev is None else "twin", "hl" if prev is None else "f0", (I32,), (I32,))
        for j in range(2):
            b = const(I32, reps) + b"\x21\x02\x03\x40"
            for y in range(n):
                b += slot(r, 44)
                if plan[j * n + y]:
                    b += b"\x20\x01" + const(I32, 63) + b"\x71\x20\x00\x6a\x10" + (b"\x00" if j == 0 else b"\x01") + \
                        b"\x20\x01\x6a\x21\x01"
            b += b"\x20\x02" + const(I32, 1) + b"\x6b\x22\x02\x0d\x00\x0b\x20\x01\x0b"
            m.func((I32,), (I32,), (I32, I32), b, "f%d" % j)
        prev = s.inst(s.mod(m), ["host"] if prev is None else [("twin", prev)])
        ks.append(prev)
    for _ in range(6):
        s.call(r.choice(ks), r.choice(["f0", "f1"]), [(I32, r.getrandbits(12))])
    return s


def wide(r, i):
    """a function with about 65535 cells of locals, some of them used"""
    m = Module()
    total = [65535, 65536, 65537, 65534, 70000, 131073, 65539, 66000][i % 8]
    ps = [(), (I32,), (I64, I32), (V128, I32)][i // 2 % 4]
    size = {I32: 1, I64: 2, V128: 4, F64: 2}
    ch, n = [], 0
    while n < total:
        t = r.choice([V128, V128, I64, F64, I32])
        k = min((total - n) // size[t], r.choice([1, 3, 6000, 12000, 16380]))
        if k:
            ch.append((t, k))
            n += k * size[t]
    locs = [t for t, k in ch for _ in range(k)]
    al = list(ps) + locs
    # the last ones, the borders of the runs, some others
    ix = {len(al) - 1, len(al) - 2, len(ps), r.randrange(len(al)), r.randrange(len(al))}
    x = len(ps)
    for t, k in ch:
        x += k
        ix |= {x - 1, min(x, len(al) - 1)}
    c = 0
    for j, t in enumerate(al):
        c += size[t]
        if 65530 <= c <= 65542:
            ix.add(j)
    ix = sorted(ix)
    if len(ix) > 24:
        ix = sorted(ix[-3:] + r.sample(ix[:-3], 20))
    get = {I32: b"", I64: b"\xa7", F64: b"\xbd\xa7", V128: b"\xfd\x1b\x00"}
    b = b""
    for j in ix[len(ps):] if i % 3 else ix:
        b += (const(al[j], r.getrandbits(20)) if al[j] != F64 else const(I64, r.getrandbits(20)) + b"\xbf") + b"\x21" + u(j)
    b += const(I32, 1)
    for j in ix:
        b += const(I32, 31) + b"\x6c\x20" + u(j) + get[al[j]] + b"\x6a"
    m.func(ps, (I32,), locs, b + b"\x0b", "f")
    s = scen.Scen(opts={"mc": 400000}, meta="wide %d" % i)
    k = s.inst(s.mod(m), [])
    s.call(k, "f", [(t, r.getrandbits(30)) for t in ps])
    return s


def run(ctx):
    ss = []
    for i in range(ctx.n(260, 6000)):
        r = progs.rng(ctx, i)
        kw = {}
        if i % 5 == 0:
            kw = {"big": True}
        if i % 7 == 0:
            kw["size"] = (60, 160)
        if i % 3 == 0:
            # control flow only
            kw["profile"] = {"mem": 1, "bulk": 0, "table": 1, "vec": 1, "num": 5, "block": 10,
                             "loop": 6, "if": 10, "br_if": 9, "br_table": 8, "br": 5}
        ss.append(progs.one(r, meta=i, **kw))
    for i in range(ctx.n(90, 2000)):
        ss.append(progs.linked(progs.rng(ctx, "l%d" % i), meta="l%d" % i))
    for i in range(ctx.n(60, 600)):
        ss.append(twins(progs.rng(ctx, "t%d" % i), i))
    for i in range(ctx.n(8, 60)):
        ss.append(wide(progs.rng(ctx, "w%d" % i), i))
    scen.run(ctx, ss, scen.MODES_OTH if ctx.quick else scen.MODES_MORE + [("big", {})], what="program")
