"""C20: a written module, loaded again, is the same module."""
from checks import c08, c09
from vlib import gen, progs, scen
from vlib.wasm import (EXTERNREF, F32, F64, FUNCREF, I32, I64, V128, Module, const, data_active,
                       data_passive, limits, name, u, vec)

NAMES = ["", "a", "b", "é€", "x" * 130, "memory", "\x01", "日本語", "a\"b\\", "名"]


def forms(r):
    """a module with declarations of every kind and form"""
    m = Module()
    vts = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF]

    def tys(n):
        return tuple(r.choice(vts) for _ in range(r.randrange(n)))
    for _ in range(r.randrange(3)):
        m.type(tys(4), tys(4))
    if r.random() < .2:
        m.types.append(((), ()))
        m.types.append(((), ()))      # the same type twice

    def tlim():
        mn = r.choice([0, 1, 5, 40])
        return mn, r.choice([None, mn, mn + 1, 1000, 0xffffffff])

    def mlim():
        ps = r.choice([None, None, None, 0, 16])
        top = 0xffffffff if ps == 0 else 65536
        mn = r.choice([0, 1, 2, 3])
        mx = r.choice([None, mn, mn + 1, 200, top])
        sh = r.random() < .3
        if sh and mx is None:
            mx = r.choice([top, mn + 1])
        return mn, mx, sh, ps
    nt, nm = [], 0
    gi = []
    for k in range(r.randrange(6)):
        mn, n = r.choice(NAMES), r.choice(NAMES)
        c = r.randrange(5)
        if c == 0:
            m.imp_func(mn, n, tys(3), tys(3))
        elif c == 1:
            et = r.choice([FUNCREF, EXTERNREF])
            m.imp_table(mn, n, et, limits(*tlim()))
            nt.append(et)
        elif c == 2:
            m.imp_mem(mn, n, limits(*mlim()))
            nm += 1
        elif c == 3:
            t, mut = r.choice(vts), r.randrange(2)
            m.imp_global(mn, n, t, mut)
            gi.append((t, mut))
        else:
            m.imp_tag(mn, n, tys(3))
    for _ in range(r.randrange(3)):
        et = r.choice([FUNCREF, EXTERNREF])
        m.table(et, *tlim())
        nt.append(et)
    for _ in range(r.randrange(3)):
        m.mem(*mlim())
        nm += 1
    for _ in range(r.randrange(3)):
        m.tag(tys(3))
    nf = m.nimpfuncs + r.randrange(1, 4)

    def ref(et):
        if et == FUNCREF and r.random() < .7:
            return b"\xd2" + u(r.randrange(nf))
        gs = [i for i, (t, mut) in enumerate(gi) if t == et and not mut]
        if gs and r.random() < .5:
            return b"\x23" + u(r.choice(gs))
        return b"\xd0" + bytes([et])

    def off():
        gs = [i for i, (t, mut) in enumerate(gi) if t == I32 and not mut]
        if gs and r.random() < .5:
            return b"\x23" + u(r.choice(gs))
        e = const(I32, r.choice([0, 1, 0, 2]))
        if r.random() < .2:
            e += const(I32, 1) + r.choice([b"\x6a", b"\x6b", b"\x6c"])
        return e
    for _ in range(r.randrange(4)):
        t = r.choice(vts)
        if t in (FUNCREF, EXTERNREF):
            e = ref(t)
        elif t in (F32, F64, V128):
            e = gen.const_of(r, t)
        else:
            e = const(t, r.getrandbits(64))
        m.glob(t, r.randrange(2), e)
    for _ in range(nf - m.nimpfuncs):
        p, q = tys(3), tys(3)
        locs = vec(u(n) + bytes([r.choice(vts)]) for n in
                   [r.choice([0, 0, 1, 2, 130]) for _ in range(r.randrange(5))])
        m.func(p, q, locs, b"".join(gen.const_of(r, t) if t not in (FUNCREF, EXTERNREF) else b"\xd0" + bytes([t])
                                    for t in q) + b"\x0b")
    for i in range(r.randrange(5)):
        c = r.randrange(5)
        n = [nf, len(nt), nm, m.nimpglobals + len(m.globals), m.nimptags + len(m.tags)][c]
        if n:
            m.export("" if i == 0 else r.choice(NAMES) + str(i), c, r.randrange(n))
    if r.random() < .2:
        fs = [i for i, t in enumerate(m.funcs) if m.types[t] == ((), ())]
        if fs:
            m.start = m.nimpfuncs + fs[0]
    for _ in range(r.randrange(5)):
        k = r.randrange(8)
        n = r.choice([0, 0, 1, 2, 5])
        fn = vec(u(r.randrange(nf)) for _ in range(n))
        ft = [i for i, t in enumerate(nt) if t == FUNCREF]
        if k == 0 and nt and nt[0] == FUNCREF:
            m.elems.append(b"\x00" + off() + b"\x0b" + fn)
        elif k == 1:
            m.elems.append(b"\x01\x00" + fn)
        elif k == 2 and ft:
            m.elems.append(b"\x02" + u(r.choice(ft)) + off() + b"\x0b\x00" + fn)
        elif k == 3:
            m.elems.append(b"\x03\x00" + fn)
        elif k == 4 and nt and nt[0] == FUNCREF:
            m.elems.append(b"\x04" + off() + b"\x0b" + vec(ref(FUNCREF) + b"\x0b" for _ in range(n)))
        elif k in (5, 7):
            et = r.choice([FUNCREF, EXTERNREF])
            m.elems.append(bytes([k, et]) + vec(ref(et) + b"\x0b" for _ in range(n)))
        elif k == 6 and nt:
            t = r.randrange(len(nt))
            m.elems.append(b"\x06" + u(t) + off() + b"\x0b" + bytes([nt[t]]) +
                           vec(ref(nt[t]) + b"\x0b" for _ in range(n)))
    for _ in range(r.randrange(4)):
        b = bytes(r.randrange(256) for _ in range(r.choice([0, 0, 1, 5, 200])))
        k = r.randrange(3)
        if k == 1:
            m.datas.append(data_passive(b))
        elif nm:
            x = 0 if k == 0 else r.randrange(nm)
            m.datas.append((b"\x00" if k == 0 else b"\x02" + u(x)) + off() + b"\x0b" + u(len(b)) + b)
    if r.random() < .5 or any(d[0] == 1 for d in m.datas):
        m.datacount = len(m.datas)
    ss = m.sections()
    for _ in range(r.choice([0, 0, 1, 2])):
        ss.insert(r.randrange(len(ss) + 1), (0, name(r.choice(NAMES)) + b"xyz"))
    return c09.enc(ss)


def write(desc, ms):
    s = scen.Scen(meta=desc)
    for b in ms:
        s.write(s.mod(b))
    return s


def run(ctx):
    r = progs.rng(ctx, 0)
    ms = [forms(progs.rng(ctx, "f%d" % i)) for i in range(ctx.n(700, 20000))]
    ms += [b for _, b in c09.locs() + c09.names()]
    ms += [c09.enc(c09.base(k)) for k in range(5)]
    ms += [b for _, b in c08.rules(r)]
    ss = [write("forms", ms[i:i + 10]) for i in range(0, len(ms), 10)]
    scen.run(ctx, ss, what="written module")
    # the written module is executed
    ss = []
    for i in range(ctx.n(150, 4000)):
        q = progs.rng(ctx, i)
        ss.append(progs.one(q, write=True, meta=i, start=i % 5 == 0, exn=i % 3 == 0,
                            profile=progs.EXN if i % 3 == 0 else {}))
    scen.run(ctx, ss, what="written program")
