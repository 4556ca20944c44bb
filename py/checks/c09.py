"""C09: binary format.  Modules using every section and form, changed byte by
byte, cut, spliced and padded; the specification (Binary, Valid) says which are
accepted.  Programs re-encoded in other valid ways run as the specification
says."""
from vlib import gen, mods, progs, scen
from vlib.wasm import (EXTERNREF, F64, FUNCREF, I32, I64, V128, Module, const, data_active,
                       data_passive, elem_active, elem_active_expr, elem_decl, elem_decl_expr,
                       elem_passive, elem_passive_expr, limits, name, u, vec)

MAGIC = b"\0asm\x01\0\0\0"


def base(k):
    """small modules which together use every section and encoding form"""
    m = Module()
    P = const(I32, 1)
    if k == 0:
        m.imp_func("a", "f", (I32,), (I64, I32))
        m.imp_table("a", "t", FUNCREF, limits(1, 9))
        m.imp_mem("a", "é", limits(1, 2, True))
        m.imp_global("a", "g", I32, 0)
        m.imp_tag("b", "t", (I32,))
        m.func((), (), [I32, I32, I64, V128], b"\x02\x40\x0c\x00\x0b\x41\xff\x7e\x21\x00\x0b")
        m.export("f", 0, 1)
        m.export("€", 2, 0)
        m.start = 1
        return m.sections()
    if k == 1:
        m.table(FUNCREF, 5)
        m.table(EXTERNREF, 5, 300)
        m.mem(1)
        m.mem(1, 3, False, 0)
        m.tag((I64,))
        m.glob(I64, 1, const(I64, 0x123456789))
        m.glob(FUNCREF, 0, b"\xd2\x00")
        m.func((), (), (), b"\x0b")
        m.elems += [elem_active(P, [0]), elem_passive([0, 0]), b"\x02\x00" + P + b"\x0b\x00\x01\x00",
                    elem_decl([0]), elem_active_expr(P, [b"\xd2\x00"]), elem_passive_expr([b"\xd0\x6f"], EXTERNREF),
                    elem_active_expr(P, [b"\xd0\x6f"], 1, EXTERNREF), elem_decl_expr([b"\xd2\x00"])]
        m.datas += [data_active(P, b"abc"), data_passive(b"de"), b"\x02\x01" + P + b"\x0b\x01q"]
        m.datacount = 3
        return m.sections()
    if k == 2:
        # instructions with every kind of immediate
        m.mem(1)
        m.table(FUNCREF, 1)
        m.tag((I32,))
        m.datacount = 1
        m.datas.append(data_passive(b"x"))
        m.elems.append(elem_passive([0]))
        b = (const(I64, -5) + b"\x1a" + const(F64, 1 << 62) + b"\x1a" + P + b"\x28\x02\x80\x01\x1a" + P + P +
             b"\x3a\x40\x00\x05" + P * 3 + b"\xfc\x08\x00\x00" + P * 3 + b"\xfc\x0a\x00\x00" + P * 3 + b"\xfc\x0b\x00" +
             b"\x3f\x00\x40\x00\x1a" + P * 3 + b"\xfc\x0c\x00\x00" + b"\xfc\x09\x00\xfc\x0d\x00" +
             b"\xfe\x03\x00" + P + b"\xfe\x10\x02\x00\x1a" + const(V128, 77) + b"\xfd\x15\x03\x1a" +
             const(V128, 0) * 2 + b"\xfd\x0d" + bytes(range(16)) + b"\x1a" + P + b"\xfd\x8d\x01\x1a"[:0] + b"\x1a" +
             P + b"\x0e\x02\x00\x00\x00" + b"\x0b")
        m.func((), (), (), b)
        return m.sections()
    if k == 3:
        m.tag((I32,))
        m.table(FUNCREF, 1)
        t = m.type((I32,), (I32,))
        m.func((), (I32,), [F64, F64], P + b"\x02" + u(t) + b"\x04\x40\x01\x05\x01\x0b" + P + b"\x0b" + P + b"\x1c\x01\x7f"[:0] +
               b"\x6a" + b"\x02\x7f\x1f\x7f\x02\x00\x00\x00\x02\x01" + P + b"\x0b\x0b\x6a" + P + b"\x11" + u(t) + b"\x00\x0b")
        return m.sections()
    # custom sections, names, dylink
    m.func((), (), (), b"\x0b")
    s = m.sections()
    sub = b"\x01\x04\x10\x02\x03\x01" + b"\x02\x07\x02\x02ab\x02cd" + b"\x03\x04\x01\x01f\x10" + \
        b"\x04\x06\x01\x01m\x01n\x01"
    return [(0, name("dylink.0") + sub[:13] + sub[13:])] + [(0, name("name") + b"\x01\x04\x01\x00\x01f")] + s + \
        [(0, name("x"))]


def enc(ss):
    return MAGIC + b"".join(bytes([i]) + u(len(p)) + p for i, p in ss)


def bytewise(k, r, per):
    """every position of the encoded module"""
    ss = base(k)
    b = enc(ss)
    o = [("base %d" % k, b)]
    for i in range(len(b) + 1):
        o.append(("base %d cut %d" % (k, i), b[:i]))
    for i in range(len(b)):
        vs = {b[i] ^ 0x80, (b[i] + 1) & 255, (b[i] - 1) & 255, 0, 0xff, 0x7f, b[i] ^ 0x40}
        vs.discard(b[i])
        vs = sorted(vs)
        r.shuffle(vs)
        for v in vs[:per]:
            o.append(("base %d byte %d = %x" % (k, i, v), b[:i] + bytes([v]) + b[i + 1:]))
        if r.random() < .5:
            o.append(("base %d without byte %d" % (k, i), b[:i] + b[i + 1:]))
        else:
            o.append(("base %d insert at %d" % (k, i), b[:i] + bytes([r.choice([0, 1, 0x80, 0x0b, 0xff])]) + b[i:]))
    # the same inside the sections with their sizes corrected
    for j, (sid, p) in enumerate(ss):
        if sid == 10:
            continue
        for i in range(len(p)):
            c = p[i]
            reps = [b"" + bytes([c | 0x80, 0]), bytes([c | 0x80, 0x80, 0x80, 0x80, 0]),
                    bytes([c | 0x80, 0x80, 0x80, 0x80, 0x80, 0]), bytes([c | 0x80, 0x80, 0x80, 0x80, 0x10]),
                    bytes([c | 0x80, 0x7f]), b"", bytes([c, c])]
            r.shuffle(reps)
            for x in reps[:per]:
                t = list(ss)
                t[j] = (sid, p[:i] + x + p[i + 1:])
                o.append(("base %d section %d byte %d -> %s" % (k, sid, i, x.hex()), enc(t)))
    for j, (sid, p) in enumerate(ss):
        if sid != 10:
            continue
        # function bodies: recompute the body size
        n, i = mods.rd_u(p, 0)
        bs = []
        for _ in range(n):
            z, i = mods.rd_u(p, i)
            bs.append(p[i:i + z])
            i += z
        for f, body in enumerate(bs):
            for i in range(len(body)):
                c = body[i]
                reps = [bytes([c | 0x80, 0]), bytes([c | 0x80, 0x80, 0x80, 0x80, 0]),
                        bytes([c | 0x80, 0x80, 0x80, 0x80, 0x10]), bytes([c | 0x80, 0x7f]), b"", bytes([c, c]),
                        bytes([c | 0x80, 0x80, 0x80, 0x80, 0x80, 0]), bytes([c | 0x80] + [0x80] * 8 + [0]),
                        bytes([c | 0x80] + [0xff] * 8 + [0x7f]), bytes([c | 0x80, 0xff, 0xff, 0xff, 0x7f]),
                        bytes([c | 0x80] + [0xff] * 8 + [1])]
                r.shuffle(reps)
                for x in reps[:per + 2]:
                    nb = list(bs)
                    nb[f] = body[:i] + x + body[i + 1:]
                    t = list(ss)
                    t[j] = (sid, u(n) + b"".join(u(len(y)) + y for y in nb))
                    o.append(("base %d code byte %d -> %s" % (k, i, x.hex()), enc(t)))
            for d in (-1, 1):
                t = list(ss)
                t[j] = (sid, u(n) + b"".join(u(len(y) + (d if q == f else 0)) + y for q, y in enumerate(bs)))
                o.append(("base %d body size %+d" % (k, d), enc(t)))
        for d in (-1, 1):
            t = list(ss)
            t[j] = (sid, u(n + d) + p[len(u(n)):])
            o.append(("base %d code count %+d" % (k, d), enc(t)))
    # section level
    for i in range(len(ss) + 1):
        for x in range(16):
            o.append(("base %d empty section %d at %d" % (k, x, i), enc(ss[:i] + [(x, b"")] + ss[i:])))
            o.append(("base %d section %d at %d" % (k, x, i), enc(ss[:i] + [(x, b"\x00")] + ss[i:])))
        o.append(("base %d custom at %d" % (k, i), enc(ss[:i] + [(0, name("y") + b"\xff\xff")] + ss[i:])))
    for i in range(len(ss)):
        o.append(("base %d without section %d" % (k, ss[i][0]), enc(ss[:i] + ss[i + 1:])))
        o.append(("base %d twice section %d" % (k, ss[i][0]), enc(ss[:i] + [ss[i]] + ss[i:])))
        o.append(("base %d trailing byte in %d" % (k, ss[i][0]),
                  enc(ss[:i] + [(ss[i][0], ss[i][1] + b"\x00")] + ss[i + 1:])))
        for j in range(i):
            t = list(ss)
            t[i], t[j] = t[j], t[i]
            o.append(("base %d sections %d %d" % (k, i, j), enc(t)))
        # the size of the section
        for z in (u(len(ss[i][1]) + 1), u(max(0, len(ss[i][1]) - 1)), u(len(ss[i][1]), 1), u(len(ss[i][1]), 3),
                  u(len(ss[i][1]), 5), b"\xff\xff\xff\xff\x0f", b"\xff\xff\xff\xff\x7f", b"\x80"):
            o.append(("base %d section %d size %s" % (k, ss[i][0], z.hex()), MAGIC + b"".join(
                bytes([a]) + (z if q == i else u(len(p))) + p for q, (a, p) in enumerate(ss))))
    return o


def dylink(r):
    """subsections of dylink.0"""
    o = []
    subs = [b"\x01\x04\x10\x02\x03\x01", b"\x02\x07\x02\x02ab\x02cd", b"\x03\x04\x01\x01f\x10",
            b"\x04\x06\x01\x01m\x01n\x01", b"\x05\x01\x00", b"\x07\x00", b"\x00\x00", b"\x02\x01\x00", b"\x03\x01\x00"]
    # 2, 3 and 4 element lists in every order
    for a in range(len(subs)):
        o.append([subs[a]])
        for b in range(len(subs)):
            o.append([subs[a], subs[b]])
            c = r.randrange(len(subs))
            o.append([subs[a], subs[b], subs[c]])
    o.append([])
    res = [("dylink %s" % [x[0] for x in q], enc([(0, name("dylink.0") + b"".join(q))])) for q in o]
    for q in o[:40]:
        x = b"".join(q)
        for i in range(len(x)):
            y = x[:i] + bytes([(x[i] + r.choice([1, 255, 128])) & 255]) + x[i + 1:]
            res.append(("dylink byte", enc([(0, name("dylink.0") + y)])))
    res.append(("dylink twice", enc([(0, name("dylink.0") + subs[0])] * 2)))
    return res


UTF = [b"", b"a", b"\x00", b"\x7f", b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc2\x80", b"\xc2", b"\xc2\x7f",
       b"\xc2\xc0", b"\xdf\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xe0\xa0\x80", b"\xe0\xa0", b"\xe1\x80\x80",
       b"\xe1\x80\x7f", b"\xed\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xee\x80\x80", b"\xef\xbf\xbf",
       b"\xef\xbf\xbe", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf0\x90\x80\x80", b"\xf0\x90\x80",
       b"\xf1\x80\x80\x80", b"\xf4\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x80\x80\x80\x80",
       b"\xfc\x80\x80\x80\x80\x80", b"\xfe", b"\xff", b"\xf0\x9f\x98\x80", b"\xe2\x82\xac", b"\xc2\x80\x80",
       b"\xf1\x80\x80\xc0", b"\xf1\x80\x7f\x80", b"\xe1\x7f\x80", b"\xf4\x80\x80\x80\x80"]


def names():
    o = []
    for x in UTF:
        for pre, post in ((b"", b""), (b"a", b"b"), (b"\xe2\x82\xac", b""), (b"", b"\xc2\x80")):
            n = pre + x + post
            o.append(("custom name", enc([(0, u(len(n)) + n)])))
            o.append(("import name", enc([(1, b"\x01\x60\x00\x00"), (2, b"\x01" + u(len(n)) + n + b"\x01a\x00\x00")])))
            o.append(("import name2", enc([(1, b"\x01\x60\x00\x00"), (2, b"\x01\x01a" + u(len(n)) + n + b"\x00\x00")])))
            o.append(("export name", enc([(5, b"\x01\x00\x01"), (7, b"\x01" + u(len(n)) + n + b"\x02\x00")])))
        o.append(("name cut", enc([(0, u(len(x) + 1) + x)])))
    return o


def lebs(r):
    """integers in every position of a constant"""
    o = []
    tails = [[], [0], [0x7f], [0x80], [0xff], [1], [0x40], [0x3f], [0x0f], [0x10], [0x70], [0x78], [0x07], [0x08], [0x4f]]
    for op, q, mx in ((0x41, I32, 5), (0x42, I64, 10)):
        for n in range(0, mx + 2):
            for t in tails:
                for fill in (0x80, 0xff):
                    b = bytes([fill] * n + t)
                    m = Module()
                    m.func((), (q,), (), bytes([op]) + b + b"\x0b")
                    o.append(("const %x %s" % (op, b.hex()), m.encode()))
    for n in range(0, 7):
        for t in tails:
            for fill in (0x80, 0xff):
                b = bytes([fill] * n + t)
                o.append(("u32 %s" % b.hex(), enc([(5, b"\x01\x00" + b)])))
                o.append(("u32 max %s" % b.hex(), enc([(5, b"\x01\x01\x00" + b)])))
                m = Module()
                m.func((), (), (), b"\x00\x02" + b + b"\x00\x0b\x00\x0b")
                o.append(("s33 %s" % b.hex(), m.encode()))
                m = Module()
                m.mem(1)
                m.func((), (), (), const(I32, 0) + b"\x28\x00" + b + b"\x1a\x0b")
                o.append(("offset %s" % b.hex(), m.encode()))
                m = Module()
                m.func((), (), b"\x01" + b + b"\x7f", b"\x0b")
                if n < 2:
                    o.append(("locals %s" % b.hex(), m.encode()))
                o.append(("count %s" % b.hex(), enc([(1, b + b"\x60\x00\x00")])))
    return o


def locs():
    """numbers of locals"""
    o = []
    for p in ((), (I32,), (I64, I32)):
        for ch in ([0xffffffff], [0xffffffff, 1], [0x80000000, 0x80000000], [0x80000000, 0x7fffffff],
                   [0xfffffffe], [0xfffffffe, 1], [1, 0xffffffff], [0, 3, 0], [300, 700]):
            if len(p) + sum(ch) < 1 << 32 and sum(ch) > 100000:
                continue          # would be accepted, and needs the memory
            # (each of the large ones is slow with the address sanitizer)
            large = sum(ch) > 100000
            for g in (0, 0xffffffff) if large else (0, 1, 2, 3, 4, 299, 300, 301, 302, 999, 1000, 1001, 1002, 0xffffffff):
                for t in (I32,) if large else (I32, I64):
                    m = Module()
                    m.func(p, (t,), vec(u(n) + bytes([I32 if i % 2 == 0 else I64]) for i, n in enumerate(ch)),
                           b"\x20" + u(g) + b"\x0b")
                    o.append(("locals %s %s %s" % (p, ch, g), m.encode()))
    return o


def pad_body(r, body):
    o = []
    for x in mods.split(body):
        if x[0] in (0x0c, 0x0d, 0x10, 0x12, 0xd2, 0x3f, 0x40, 0x08) or 0x20 <= x[0] <= 0x26:
            n, _ = mods.rd_u(x, 1)
            x = x[:1] + u(n, r.choice([0, 0, 1, 2]))
        elif x[0] in (0x41, 0x42):
            if len(x) < 4 and r.random() < .3:
                # sign extended padding
                x = x[:-1] + bytes([x[-1] | 0x80, 0x7f if x[-1] & 0x40 else 0])
        elif 0x28 <= x[0] <= 0x3e:
            f, i = mods.rd_u(x, 1)
            mi = 0
            if f & 0x40:
                mi, i = mods.rd_u(x, i)
            off, _ = mods.rd_u(x, i)
            x = x[:1] + (u(f) if not f & 0x40 and r.random() < .7 else u(f | 0x40, r.randrange(2)) +
                         u(mi, r.randrange(3))) + u(off, r.choice([0, 1]))
        elif x[0] == 0x02 and x[1:] == b"\x40" and False:
            pass
        o.append(x)
    return b"".join(o)


def variant(r, m):
    """another encoding of the same module"""
    cs = []
    for locs, body in m.codes:
        ch = []
        for t in locs:
            if ch and ch[-1][1] == t and r.random() < .6:
                ch[-1][0] += 1
            else:
                if r.random() < .1:
                    ch.append([0, r.choice(mods.VT)])
                ch.append([1, t])
        cs.append((vec(u(n, r.randrange(2)) + bytes([t]) for n, t in ch), pad_body(r, body)))
    m.codes = cs
    ss = []
    for i, p in m.sections():
        if r.random() < .3:
            ss.append((0, name(r.choice(["", "a", "name", "producers"])) +
                       bytes(r.randrange(256) for _ in range(r.randrange(0, 9)))))
        ss.append((i, p))
    if m.datacount is None and not m.datas and r.random() < .5:
        k = [i for i, _ in ss]
        ss.insert(k.index(10) if 10 in k else len(ss), (12, b"\x00"))
    return MAGIC + b"".join(bytes([i]) + u(len(p), r.choice([0, 0, 1, 2])) + p for i, p in ss)


def small(r, b):
    """one small change of bytes which have their length elsewhere"""
    b = bytearray(b)
    if not b:
        return bytes(b)
    i = r.randrange(len(b))
    k = r.randrange(6)
    if k < 2:
        b[i] = (b[i] + r.choice([1, -1])) & 255
    elif k == 2:
        b[i] = r.choice([0, 1, 2, 3, 4, 0x0b, 0x40, 0x6f, 0x70, 0x7c, 0x7e, 0x7f, 0x80, r.randrange(256)])
    elif k == 3:
        b[i] ^= 1 << r.randrange(8)
    elif k == 4:
        j = r.randrange(len(b))
        b[i], b[j] = b[j], b[i]
    else:
        b[i:i + 1] = bytes([b[i] | 0x80] + [0x80] * r.randrange(4) + [r.choice([0, 0, 0x7f, 1])])
    return bytes(b)


def noise(r):
    if r.random() < .6:
        # sizes stay right
        ss = base(r.randrange(5))
        for _ in range(r.choice([1, 1, 2, 3])):
            j = r.randrange(len(ss))
            sid, p = ss[j]
            if sid == 10:
                n, i = mods.rd_u(p, 0)
                q = u(n)
                f = r.randrange(n)
                for x in range(n):
                    z, i = mods.rd_u(p, i)
                    c = small(r, p[i:i + z]) if x == f else p[i:i + z]
                    q += u(len(c)) + c
                    i += z
                ss[j] = (sid, q)
            else:
                ss[j] = (sid, small(r, p))
        return enc(ss)
    b = bytearray(enc(base(r.randrange(5))))
    for _ in range(r.randrange(1, 5)):
        k = r.randrange(4)
        i = r.randrange(8, len(b))
        if k == 0:
            b[i] = r.randrange(256)
        elif k == 1:
            del b[i:i + r.randrange(1, 4)]
        elif k == 2:
            b[i:i] = bytes(r.randrange(256) for _ in range(r.randrange(1, 4)))
        else:
            j = r.randrange(8, len(b))
            b[i:i + 4] = b[j:j + r.randrange(1, 8)]
        if len(b) < 9:
            break
    return bytes(b)


def run(ctx):
    r = progs.rng(ctx, 0)
    o = []
    for k in range(5):
        o += bytewise(k, r, ctx.n(2, 7))
    o += dylink(r) + names() + lebs(r) + locs()
    mods.run(ctx, o, what="binary format", per=40)
    o = [("noise", noise(progs.rng(ctx, i + 1))) for i in range(ctx.n(2500, 60000))]
    mods.run(ctx, o, what="changed module", per=40)
    ss = []
    for i in range(ctx.n(60, 2000)):
        r = progs.rng(ctx, -i - 1)
        p = gen.Prog(r, hosts=progs.HOSTS, size=(10, 40), exn=i % 3 == 0,
                     profile=progs.EXN if i % 3 == 0 else {})
        s = scen.Scen(meta=i)
        for h in progs.HOSTS:
            s.host(*h)
        k = s.inst(s.mod(variant(r, p.m)), ["host"])
        progs.calls(r, s, k, p, 2)
        progs.dumps(s, k, p)
        ss.append(s)
    scen.run(ctx, ss, scen.MODES, what="encoding variant")
