"""C05: tables, references and indirect calls.  Modules with one exported
function per table instruction and random walks over them."""
from vlib import gen, progs, scen
from vlib.wasm import (EXTERNREF, F32, F64, FUNCREF, I32, I64, V128, Module, const, elem_active,
                       elem_active_expr, elem_decl, elem_decl_expr, elem_passive,
                       elem_passive_expr, u)

SIGS = [((), ()), ((), (I32,)), ((I32,), (I32,)), ((I64,), (I64, I32)), ((V128, I32), (V128,)),
        ((FUNCREF,), (FUNCREF,)), ((EXTERNREF, F64), (F64, EXTERNREF)),
        # alike but for one type
        ((I32,), (I64,)), ((I64,), (I64, F32)), ((I32,), ()), ((F32,), (I32,)), ((FUNCREF,), (EXTERNREF,)),
        ((I32, V128), (V128,))]


def fn(m, name, p, q, op):
    return m.func(p, q, (), b"".join(b"\x20" + u(i) for i in range(len(p))) + op + b"\x0b", name)


def build(r):
    m = Module()
    # type indices: the same signature may appear more than once
    if r.random() < .5:
        m.types += [tuple(map(tuple, SIGS[2])), tuple(map(tuple, SIGS[1]))]
    m.imp_func("host", "hi", (I32,), (I32,))
    ng = r.choice([0, 1, 2])
    for k in range(ng):
        m.imp_global("a", "g%d" % k, FUNCREF if k == 0 else EXTERNREF, 0)
    ntab = r.choice([1, 2, 3])
    tabs = []
    imp = r.random() < .3
    for k in range(ntab):
        et = FUNCREF if k == 0 or r.random() < .6 else EXTERNREF
        mn = r.choice([0, 1, 3, 5, 10, 20])
        mx = r.choice([None, mn, mn + 1, mn + 4, 30])
        if mx is not None and mx < mn:
            mx = mn
        if k == 0 and imp:
            mn, mx = 6, None
            m.imp_table("a", "t", FUNCREF, b"\x00\x04")
        else:
            m.table(et, mn, mx)
        m.export("t%d" % k, 1, k)
        tabs.append((et, mn, mx))
    fs = []
    targets = []
    # two type indices may denote the same type
    if r.random() < .5:
        m.types.append(m.types[m.type(*SIGS[2])])
    for k, (p, q) in enumerate(SIGS):
        for j in range(2 if k in (1, 2) else 1):
            # results: constants and parameters, distinguishable
            b = b""
            for t in q:
                if t in p:
                    b += b"\x20" + u(p.index(t))
                    if t == I32:
                        b += const(I32, 100 * k + j + 1) + b"\x6a"
                else:
                    b += const(t, 1000 * k + j) if t not in (FUNCREF, EXTERNREF) else b"\xd0" + bytes([t])
            targets.append((m.func(p, q, (), b + b"\x0b"), p, q))
    dup = len(m.types) - 1 if m.types[-1] in m.types[:-1] else None
    if dup is not None:
        # a function declared with the duplicate type
        p, q = m.types[dup]
        m.funcs.append(dup)
        m.codes.append(([], b"\x20\x00" + const(I32, 77) + b"\x6a\x0b"))
        targets.append((m.nimpfuncs + len(m.funcs) - 1, p, q))
    targets.append((0, (I32,), (I32,)))
    allf = [f for f, _, _ in targets]
    # element segments in every form
    segs = []
    for _ in range(r.randrange(2, 6)):
        k = r.randrange(8)
        n = r.choice([0, 1, 2, 4, 7])
        fl = [r.choice(allf) for _ in range(n)]

        def ex(et):
            o = []
            for f in fl:
                j = r.random()
                if j < .2:
                    o.append(b"\xd0" + bytes([et]))
                elif j < .4 and (ng > 0 if et == FUNCREF else ng > 1):
                    o.append(b"\x23" + u(0 if et == FUNCREF else 1))
                elif et == FUNCREF:
                    o.append(b"\xd2" + u(f))
                else:
                    o.append(b"\xd0" + bytes([et]))
            return o
        ti = r.randrange(ntab)
        et = tabs[ti][0]
        fit = tabs[ti][1] >= n
        off = const(I32, r.choice([0, tabs[ti][1] - n]) if fit else 0)
        if k in (0, 2) and fit and et == FUNCREF:
            m.elems.append(elem_active(off, fl, ti if k == 2 or ti else 0) if not (k == 2 and ti == 0)
                           else b"\x02\x00" + off + b"\x0b\x00" + u(n) + b"".join(u(f) for f in fl))
            segs.append((FUNCREF, n))
        elif k in (4, 6) and fit:
            if k == 4 and (ti or et != FUNCREF):
                k = 6
            m.elems.append(elem_active_expr(off, ex(et), None if k == 4 else ti, et))
            segs.append((et, n))
        elif k == 1:
            m.elems.append(elem_passive(fl))
            segs.append((FUNCREF, n))
        elif k == 3:
            m.elems.append(elem_decl(fl))
            segs.append((FUNCREF, n))
        elif k == 7:
            et = r.choice([FUNCREF, EXTERNREF])
            m.elems.append(elem_decl_expr(ex(et), et))
            segs.append((et, n))
        else:
            et = r.choice([FUNCREF, FUNCREF, EXTERNREF])
            m.elems.append(elem_passive_expr(ex(et), et))
            segs.append((et, n))
    m.elems.append(elem_decl(allf))
    for ti, (et, mn, mx) in enumerate(tabs):
        z = "%d" % ti
        fn(m, "get" + z, [I32], [et], b"\x25" + u(ti))
        fs += [("get" + z, [I32], "x", ti, 1)] * 3
        fn(m, "set" + z, [I32, et], [], b"\x26" + u(ti))
        fs += [("set" + z, [I32, et], "x", ti, 1)] * 4
        fn(m, "size" + z, [], [I32], b"\xfc\x10" + u(ti))
        fs.append(("size" + z, [], "", ti, 0))
        fn(m, "grow" + z, [et, I32], [I32], b"\xfc\x0f" + u(ti))
        fs += [("grow" + z, [et, I32], "g", ti, 0)] * 2
        fn(m, "fill" + z, [I32, et, I32], [], b"\xfc\x11" + u(ti))
        fs += [("fill" + z, [I32, et, I32], "f", ti, 0)] * 2
        for tj, (et2, _, _) in enumerate(tabs):
            if et2 == et:
                fn(m, "copy%d%d" % (ti, tj), [I32] * 3, [], b"\xfc\x0e" + u(ti) + u(tj))
                fs += [("copy%d%d" % (ti, tj), [I32] * 3, "c", ti, tj)] * 3
        for sj, (et2, n) in enumerate(segs):
            if et2 == et:
                fn(m, "init%d%d" % (ti, sj), [I32] * 3, [], b"\xfc\x0c" + u(sj) + u(ti))
                fs += [("init%d%d" % (ti, sj), [I32] * 3, "i", ti, n)] * 2
        if et == FUNCREF:
            for k, (p, q) in enumerate(SIGS):
                tx = m.type(p, q)
                if dup is not None and m.types[dup] == m.types[tx] and r.random() < .5:
                    tx = dup
                tail = r.random() < .3
                nm = "call%d%d" % (ti, k)
                fn(m, nm, list(p) + [I32], q, (b"\x13" if tail else b"\x11") + u(tx) + u(ti))
                fs += [(nm, list(p) + [I32], "y", ti, k)] * 2
    for sj in range(len(segs)):
        fn(m, "drop%d" % sj, [], [], b"\xfc\x0d" + u(sj))
        fs.append(("drop%d" % sj, [], "", 0, 0))
    for f, _, _ in targets:
        nm = "ref%d" % f
        fn(m, nm, [], [FUNCREF], b"\xd2" + u(f))
    fn(m, "isn", [FUNCREF], [I32], b"\xd1")
    fn(m, "isx", [EXTERNREF], [I32], b"\xd1")
    fn(m, "nul", [], [FUNCREF, EXTERNREF], b"\xd0\x70\xd0\x6f")
    fs += [("isn", [FUNCREF], "", 0, 0), ("isx", [EXTERNREF], "", 0, 0), ("nul", [], "", 0, 0)]
    # set a known function, so that calls succeed
    for ti, (et, _, _) in enumerate(tabs):
        if et == FUNCREF:
            for f, _, _ in targets:
                nm = "put%d_%d" % (ti, f)
                fn(m, nm, [I32], [], b"\xd2" + u(f) + b"\x26" + u(ti))
                fs.append((nm, [I32], "x", ti, 1))
    return m, fs, tabs, targets, ng, imp


def provider():
    m = Module()
    f = m.func((I32,), (I32,), (), b"\x20\x00" + const(I32, 9) + b"\x6c\x0b", "f")
    m.func((), (), (), b"\x0b", "g")
    m.table(FUNCREF, 6, None)
    m.export("t", 1, 0)
    m.elems.append(elem_active(const(I32, 1), [f, f + 1], 0))
    m.glob(FUNCREF, 0, b"\xd2" + u(f))
    m.export("g0", 3, 0)
    m.glob(EXTERNREF, 0, b"\xd0\x6f")
    m.export("g1", 3, 1)
    return m


def scenario(r, i):
    m, fs, tabs, targets, ng, imp = build(r)
    allf = [f for f, _, _ in targets]
    s = scen.Scen(meta=i)
    s.host("hi", "log", (I32,), (I32,))
    pr = s.inst(s.mod(provider()))
    k = s.inst(s.mod(m), ["host", ("a", pr)])
    size = [mn for _, mn, _ in tabs]

    def ref(t):
        if t == EXTERNREF:
            return gen.value_of(r, t)
        j = r.random()
        return None if j < .2 else (pr, r.randrange(2)) if j < .3 else (k, r.choice(allf))

    def idx(n, w=1):
        if r.random() < .7 and n:
            return r.randrange(n)
        return r.choice([0, n - 1, n, n + 1, n - w, n - w + 1, 0xffffffff, 0x80000000]) & 0xffffffff
    for _ in range(50):
        nm, ps, kind, ti, w = r.choice(fs)
        n = size[ti]
        if kind == "x":
            a = [idx(n)] + [ref(t) for t in ps[1:]]
        elif kind == "y":
            a = [gen.value_of(r, t) if t != FUNCREF else ref(t) for t in ps[:-1]] + [idx(n)]
        elif kind == "g":
            top = tabs[ti][2]
            d = r.choice([0, 1, 1, 2, 3, 0xffffffff if n else 0] +
                         ([top - n, top - n + 1] if top is not None else [])) & 0xffffffff
            if top is None and n + d > 60:
                d = 0
            if n + d <= (60 if top is None else top):
                size[ti] += d
            a = [ref(ps[0]), d]
        elif kind == "f":
            c = r.choice([0, 1, 2, 3, n, n + 1, 0xffffffff])
            a = [idx(n, c), ref(ps[1]), c]
        elif kind == "c":
            c = r.choice([0, 1, 2, 3, n, n + 1, 0xffffffff])
            a = [idx(n, c), idx(size[w], c), c]
        elif kind == "i":
            c = r.choice([0, 1, 2, w, w, w + 1, 0xffffffff])
            a = [idx(n, c), r.choice([0, 0, 1, max(0, w - c), w, w + 1, 0xffffffff]), c]
        else:
            a = [gen.value_of(r, t) if t != FUNCREF else ref(t) for t in ps]
        if kind == "y" and r.random() < .5:
            # store a function of the type, or one of a similar type, first
            p, q = SIGS[w]
            c = [f for f, p2, q2 in targets if p2 == p and (q2 == q or r.random() < .4)]
            s.call(k, "put%d_%d" % (ti, r.choice(c)), [(I32, a[-1])])
        s.call(k, nm, list(zip(ps, a)))
        if r.random() < .04:
            s.tab(k, ti)
    for j in range(len(tabs)):
        s.tab(k, j)
    if imp:
        s.tab(pr, 0)
    return s


def run(ctx):
    ss = [scenario(progs.rng(ctx, i), i) for i in range(ctx.n(500, 10000))]
    scen.run(ctx, ss, scen.MODES if ctx.quick else scen.MODES_OTH + [("big", {})], what="table walk")
