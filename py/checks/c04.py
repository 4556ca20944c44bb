"""C04: linear memory.  Modules with one exported function per memory
instruction; random walks over them with addresses around every boundary."""
from vlib import gen, progs, scen
from vlib.wasm import (F32, F64, I32, I64, V128, Module, const, data_active, data_passive, limits, u)

VLOADS = [(0, 4, 16)] + [(n, 3, 8) for n in range(1, 7)] + \
    [(7, 0, 1), (8, 1, 2), (9, 2, 4), (10, 3, 8), (92, 2, 4), (93, 3, 8)]
LANES = [(0, 16, 1), (1, 8, 2), (2, 4, 4), (3, 2, 8)]


def memarg(r, al, mi, off):
    al = r.randrange(al + 1)
    if mi or r.random() < .1:
        return u(al | 0x40) + u(mi) + u(off)
    return u(al) + u(off)


def fn(m, name, p, q, op):
    m.func(p, q, (), b"".join(b"\x20" + u(i) for i in range(len(p))) + op + b"\x0b", name)


def build(r, imported):
    """-> module, functions [(name, params, kind, mem, width, off)], memories [(min, max, ps)]"""
    m = Module()
    mems = []
    ni = 0
    if imported:
        # the memory of another instance, perhaps under two indices
        mn, mx = r.choice([1, 1, 7, 60]), 100
        ps = 1 if mn > 1 else 65536
        if ps == 65536:
            mx = r.choice([None, 2, 3])
        ni = r.choice([1, 2, 2])
        for k in range(ni):
            m.imp_mem("a", "m", limits(r.choice([0, mn]), r.choice([None, mx]), False, 0 if ps == 1 else None))
            mems.append((mn, mx, ps, False))
    for k in range(r.choice([1, 1, 2, 3]) - (1 if ni else 0)):
        one = r.random() < .4
        if one:
            mn = r.choice([0, 1, 7, 30, 60, 100])
            mx = r.choice([None, mn, mn + 1, mn + 9, mn + 40, 65536])
        else:
            mn = r.choice([0, 1, 1, 1, 2])
            mx = r.choice([None, mn, mn + 1, mn + 2, 65536])
        mems.append((mn, mx, 1 if one else 65536, None))
    shared = r.random() < .2
    for k, (mn, mx, ps, _) in enumerate(mems):
        if k < ni:
            m.export("m%d" % k, 2, k)
            continue
        sh = shared and mx is not None and (mx < 100 or r.random() < .2)
        mems[k] = (mn, mx, ps, sh)
        m.mem(mn, mx, sh, 0 if ps == 1 else r.choice([None, None, 16]))
        m.export("m%d" % k, 2, k)
    segs = [bytes(r.randrange(1, 256) for _ in range(r.choice([0, 1, 5, 20, 40])))
            for _ in range(r.randrange(1, 4))]
    m.datacount = len(segs)
    for b in segs:
        k = r.randrange(len(mems))
        mn, mx, ps, _ = mems[k]
        if r.random() < .3 and mn * ps >= len(b):
            m.datas.append(data_active(const(I32, r.choice([0, mn * ps - len(b)])), b, k))
        else:
            m.datas.append(data_passive(b))
    fs = []
    offs = [0, 0, 1, 3, 8, 15, 16, 100, 65535, 65536, 0x7fffffff, 0xffffffff, 0xfffffff8]
    for k in range(len(mems)):
        for _ in range(14):
            off = r.choice(offs if r.random() < .35 else [0, 1, 3, 8, 15, 16])
            j = r.randrange(6)
            nm = "f%d" % len(fs)
            if j == 0:
                t = r.choice([I32, I64, F32, F64])
                op, al = r.choice(gen.LOADS[t])
                fn(m, nm, [I32], [t], bytes([op]) + memarg(r, al, k, off))
                fs.append((nm, [I32], "a", k, 1 << al, off))
            elif j in (1, 2):
                t = r.choice([I32, I64, F32, F64])
                op, al = r.choice(gen.STORES[t])
                fn(m, nm, [I32, t], [], bytes([op]) + memarg(r, al, k, off))
                fs.append((nm, [I32, t], "a", k, 1 << al, off))
            elif j == 3:
                op, al, w = r.choice(VLOADS)
                fn(m, nm, [I32], [V128], b"\xfd" + u(op) + memarg(r, al, k, off))
                fs.append((nm, [I32], "a", k, w, off))
            elif j == 4:
                al, n, w = r.choice(LANES)
                st = r.random() < .5
                fn(m, nm, [I32, V128], [] if st else [V128],
                   b"\xfd" + u((88 if st else 84) + al) + memarg(r, al, k, off) +
                   bytes([r.randrange(n)]))
                fs.append((nm, [I32, V128], "a", k, w, off))
            else:
                fn(m, nm, [I32, V128], [], b"\xfd" + u(11) + memarg(r, 4, k, off))
                fs.append((nm, [I32, V128], "a", k, 16, off))
        fn(m, "size%d" % k, [], [I32], b"\x3f" + u(k))
        fs.append(("size%d" % k, [], "s", k, 0, 0))
        fn(m, "grow%d" % k, [I32], [I32], b"\x40" + u(k))
        fs += [("grow%d" % k, [I32], "g", k, 0, 0)] * 2
        fn(m, "fill%d" % k, [I32] * 3, [], b"\xfc\x0b" + u(k))
        fs += [("fill%d" % k, [I32] * 3, "f", k, 0, 0)] * 3
        for j in range(len(mems)):
            fn(m, "copy%d%d" % (k, j), [I32] * 3, [], b"\xfc\x0a" + u(k) + u(j))
            fs += [("copy%d%d" % (k, j), [I32] * 3, "c", k, j, 0)] * 3
        for j in range(len(segs)):
            fn(m, "init%d%d" % (k, j), [I32] * 3, [], b"\xfc\x08" + u(j) + u(k))
            fs += [("init%d%d" % (k, j), [I32] * 3, "i", k, len(segs[j]), 0)] * 2
    for j in range(len(segs)):
        fn(m, "drop%d" % j, [], [], b"\xfc\x09" + u(j))
        fs.append(("drop%d" % j, [], "d", 0, 0, 0))
    return m, fs, mems, ni


def near(r, end):
    """addresses around interesting places of a memory of `end` bytes"""
    c = [0, 1, 5, 15, 16, 17, 30, end - 1, end, end + 1, end - 2, end - 4, end - 8, end - 16, end - 17,
         end - 3, end - 7, end // 2, 0xffffffff, 0xfffffffe, 0xfffffff0, 0x80000000, 0x7fffffff]
    return r.choice(c) & 0xffffffff


def scenario(r, i):
    m, fs, mems, ni = build(r, r.random() < .25)
    s = scen.Scen(meta=i)
    ims = []
    if ni:
        p = Module()
        mn, mx, ps, _ = mems[0]
        p.mem(mn, mx, False, 0 if ps == 1 else None)
        p.export("m", 2, 0)
        fn(p, "grow", [I32], [I32], b"\x40\x00")
        ims = [("a", s.inst(s.mod(p)))]
    k = s.inst(s.mod(m), ims)
    size = [mn for mn, _, _, _ in mems]     # guess, only steers the addresses
    for n in range(45):
        if ni and r.random() < .03:
            s.call(ims[0][1], "grow", [(I32, 1)])
            if size[0] + 1 <= (mems[0][1] or 65536):
                size[:ni] = [size[0] + 1] * ni
            continue
        nm, ps, kind, mi, w, off = r.choice(fs)
        mn, mx, pg, sh = mems[mi]
        end = size[mi] * pg
        if kind == "a":
            b = r.choice([0, 16, end, end, end, r.randrange(0, end + 1)])
            a = b - off - r.choice([0, w, w, w - 1, w + 1, 2 * w, r.randrange(0, 40)])
            if a < 0 and r.random() < .7:
                a = r.randrange(0, max(1, min(64, end)))
            if r.random() < .15:
                a = near(r, end)
            args = [(I32, a & 0xffffffff)] + [(t, gen.value_of(r, t)) for t in ps[1:]]
        elif kind == "g":
            top = mx if mx is not None else (65536 if pg == 65536 else 0xffffffff)
            c = [0, 1, 1, 2, 0xffffffff, 0x80000000, top - size[mi] + 1]
            if mx is not None and mx < 300:
                c += [mx - size[mi]]
            d = r.choice(c) & 0xffffffff
            if size[mi] == 0 and d > 1000 and mx is None:
                d = 1
            if size[mi] + d <= top and d < 100:
                size[mi] += d
            elif size[mi] + d <= top:
                d = 0xffffffff if size[mi] else 0
            if mi < ni:
                size[:ni] = [size[mi]] * ni
            args = [(I32, d)]
        elif kind == "f":
            n_ = r.choice([0, 1, 3, 16, 17, 40, 5, 0xffffffff, end])
            a = near(r, end) if r.random() < .5 else max(0, end - n_ + r.choice([-1, 0, 0, 1]))
            if n_ > 70 and a + n_ <= end:
                n_ = 40
            args = [(I32, a), (I32, gen.value_of(r, I32)), (I32, n_)]
        elif kind == "c":
            send = size[w] * mems[w][2]
            n_ = r.choice([0, 1, 3, 8, 16, 17, 33, 0xffffffff])
            a = near(r, end) if r.random() < .3 else r.randrange(0, 60)
            b = near(r, send) if r.random() < .3 else r.randrange(0, 60)
            args = [(I32, a), (I32, b), (I32, n_)]
        elif kind == "i":
            n_ = r.choice([0, 1, 2, w, w, w + 1, 0xffffffff])
            sidx = r.choice([0, 0, 1, max(0, w - n_), w, w + 1, 0xffffffff])
            a = near(r, end) if r.random() < .4 else r.randrange(0, 60)
            args = [(I32, a), (I32, sidx & 0xffffffff), (I32, n_)]
        else:
            args = []
        s.call(k, nm, args)
        if r.random() < .04:
            s.mem(k, mi)
    for j in range(len(mems)):
        s.mem(k, j)
    return s


def run(ctx):
    ss = [scenario(progs.rng(ctx, i), i) for i in range(ctx.n(1300, 20000))]
    scen.run(ctx, ss, scen.MODES if ctx.quick else scen.MODES_OTH + [("big", {})], what="memory walk")
