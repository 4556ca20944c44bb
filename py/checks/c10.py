"""C10: instantiation and linking.  Chains of instances exporting, importing and
re-exporting every kind of entity, with matching and almost matching types, and
initialisation that may trap half way."""
from vlib import gen, progs, scen
from vlib.wasm import (EXTERNREF, F32, F64, FUNCREF, I32, I64, V128, Module, const, data_active,
                       data_passive, elem_active, elem_active_expr, elem_decl, elem_passive, limits, u)

VT = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF]
SIGS = [((), ()), ((), (I32,)), ((I32,), (I32,)), ((I64,), (I64,)), ((I32, I64), (I64, I32)), ((I32,), ())]
TAGS = [(), (I32,), (I64,), (I32, I32)]


class Ent:
    """an importable entity as its exporter declares it"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)
        self.size = kw["lim"][0] if "lim" in kw else 0      # expected size now


def lims(r, mem):
    ps = None
    if mem:
        ps = r.choice([None, None, None, 0, 16])
    mn = r.choice([0, 1, 2]) if mem and ps != 0 else r.choice([0, 1, 3, 6])
    mx = r.choice([None, mn, mn + 1, mn + 3, 10])
    sh = mem and mx is not None and r.random() < .25
    return mn, mx, sh, ps


def desc(r, e, wrong):
    """import descriptor for entity e; wrong: maybe not matching"""
    k = e.kind
    if k == "f":
        p, q = e.sig
        if wrong:
            p, q = r.choice([x for x in SIGS if x != e.sig] + [(p + (I32,), q), (p, q + (I32,)), (q, p)])
        return ("f", (p, q))
    if k == "g":
        t, mut = e.t, e.mut
        if wrong:
            if r.random() < .5:
                mut = 1 - mut
            else:
                t = r.choice([x for x in VT if x != t])
        return ("g", (t, mut))
    if k == "x":
        p = e.p
        if wrong:
            p = r.choice([x for x in TAGS if x != p])
        return ("x", p)
    mn, mx, sh, ps = e.lim
    mn = e.size
    et = getattr(e, "et", None)
    mn2 = r.choice([0, max(0, mn - 1), mn])
    mx2 = None if mx is None or r.random() < .4 else mx + r.choice([0, 0, 1, 2])
    if sh and mx2 is None:
        mx2 = mx
    if wrong:
        c = r.randrange(5 if k == "m" else 4)
        if c == 0:
            mn2 = mn + r.choice([1, 1, 2, 5])
            if mx2 is not None:
                mx2 = max(mx2, mn2)
        elif c == 1 and mx is not None and mx > 0:
            mx2 = r.choice([mx - 1, 0, mn])
            mn2 = min(mn2, mx2)
        elif c == 1:
            mx2 = r.choice([mn, mn + 1, 60000, 65536 if k == "m" else 0xffffffff])
        elif c == 2 and k == "t":
            et = FUNCREF if et == EXTERNREF else EXTERNREF
        elif c == 2:
            sh = not sh
            if sh and mx2 is None:
                mx2 = mn2 + 5
        elif c == 3 and k == "m":
            ps = {None: 0, 16: 0, 0: r.choice([None, 16])}[ps]
        elif c == 3:
            mn2, mx2 = 0xffffffff, None
        else:
            mx2 = 65536
    elif k == "m":
        # the two ways to write the default page size
        if ps in (None, 16):
            ps = r.choice([None, 16])
    return (k, (et, mn2, mx2, sh, ps))


def imp(m, mod, nm, d):
    k, x = d
    if k == "f":
        return m.imp_func(mod, nm, *x)
    if k == "g":
        return m.imp_global(mod, nm, *x)
    if k == "x":
        return m.imp_tag(mod, nm, x)
    if k == "t":
        return m.imp_table(mod, nm, x[0], limits(x[1], x[2], x[3], x[4]))
    return m.imp_mem(mod, nm, limits(x[1], x[2], x[3], x[4]))


KIND = {"f": 0, "t": 1, "m": 2, "g": 3, "x": 4}


class Mod:
    """One module: imports from earlier ones, own entities, accessors for
    everything, initialisation."""

    def __init__(self, r, names, avail, wrong, tricky):
        """avail: [(import module, name, entity)]"""
        self.r = r
        m = self.m = Module()
        self.all = {k: [] for k in "ftmgx"}     # (index, declared, entity)
        for _ in range(r.randrange(0, 9) if avail else 0):
            mod, nm, e = r.choice(avail)
            if r.random() < tricky * .3:
                nm = r.choice([nm + "x", "", nm[:-1], nm.upper()])
            if r.random() < tricky * .2:
                mod = r.choice(["a", "b", "c", ""])
            bad = r.random() < wrong
            d = desc(r, e, bad)
            if r.random() < wrong * .2:
                d = desc(r, r.choice(avail)[2], False)
            i = imp(m, mod, nm, d)
            self.all[d[0]].append((i, d[1], e))
        m.imp_func("host", "h", (I32,), ())
        self.hostf = m.nimpfuncs - 1
        nimpg = m.nimpglobals
        # own entities
        own = []
        for _ in range(r.randrange(1, 4)):
            t, mut = r.choice(VT), r.randrange(2)
            init = gen.const_of(r, t)
            c = [g for g in self.all["g"] if g[0] < nimpg and g[1] == (t, 0)]
            if c and r.random() < .6:
                init = b"\x23" + u(r.choice(c)[0])
                if t == I32 and r.random() < .4:
                    init += const(I32, r.randrange(9)) + r.choice([b"\x6a", b"\x6b", b"\x6c"])
            own.append((m.glob(t, mut, init), Ent("g", t=t, mut=mut)))
            self.all["g"].append((own[-1][0], (t, mut), own[-1][1]))
        for _ in range(r.randrange(0, 3)):
            l = lims(r, False)
            et = r.choice([FUNCREF, FUNCREF, EXTERNREF])
            i = m.table(et, l[0], l[1])
            own.append((i, Ent("t", et=et, lim=l)))
            self.all["t"].append((i, (et,) + l, own[-1][1]))
        for _ in range(r.randrange(0, 3)):
            l = lims(r, True)
            i = m.mem(*l)
            own.append((i, Ent("m", lim=l)))
            self.all["m"].append((i, (None,) + l, own[-1][1]))
        for _ in range(r.randrange(0, 3)):
            p = r.choice(TAGS)
            i = m.tag(p)
            own.append((i, Ent("x", p=p)))
            self.all["x"].append((i, p, own[-1][1]))
        self.entries = []
        fs = []
        for _ in range(r.randrange(1, 4)):
            s = r.choice(SIGS)
            i = m.func(s[0], s[1], (), self.body(s))
            fs.append(i)
            own.append((i, Ent("f", sig=s)))
            self.all["f"].append((i, s, own[-1][1]))
        self.accessors()
        # segments
        for i, d, e in self.all["t"]:
            if d[0] == FUNCREF and r.random() < .7:
                l = [r.choice(fs + [f[0] for f in self.all["f"]]) for _ in range(r.randrange(0, 3))]
                room = d[1] - len(l)
                off = const(I32, r.choice([0, 1, 2, 5]) if r.random() < tricky * .2 else max(0, room))
                if room < 0 and r.random() > tricky * .2:
                    l = []
                c = [g for g in self.all["g"] if g[0] < nimpg and g[1] == (I32, 0)]
                if c and r.random() < .1:
                    off = b"\x23" + u(r.choice(c)[0])
                if r.random() < .5:
                    m.elems.append(elem_active(off, l, i))
                else:
                    m.elems.append(elem_active_expr(off, [b"\xd2" + u(f) for f in l], i))
        m.elems.append(elem_decl([f[0] for f in self.all["f"]]))
        for i, d, e in self.all["m"]:
            if r.random() < .7:
                b = bytes(r.randrange(1, 256) for _ in range(r.randrange(0, 6)))
                room = d[1] * (1 if d[4] == 0 else 65536) - len(b)
                off = const(I32, r.choice([0, 1, 3, 100, 65530, 65536, 0xffffffff]) if r.random() < tricky * .2
                            else max(0, r.choice([0, room])))
                if room < 0 and r.random() > tricky * .2:
                    b = b""
                    off = const(I32, 0)
                m.datas.append(data_active(off, b, i))
        r.shuffle(m.elems)
        r.shuffle(m.datas)
        if r.random() < .4:
            c = [f for f in self.all["f"] if f[1] == ((), ())]
            if c and r.random() < .5:
                m.start = r.choice(c)[0]
            else:
                b = const(I32, r.randrange(100)) + b"\x10" + u(self.hostf)
                for g in self.all["g"]:
                    if g[1][1] and g[1][0] in (I32, I64):
                        b += const(g[1][0], r.randrange(1000)) + b"\x24" + u(g[0])
                b += b"\x00" if r.random() < tricky * .5 else b""
                m.start = m.func((), (), (), b + b"\x0b")
        # exports: own and imported, some twice
        self.exports = []
        n = 0
        for k in "ftmgx":
            for i, d, e in self.all[k]:
                for _ in range(r.choice([0, 1, 1, 1, 2])):
                    nm = "%s%d" % (r.choice(["e", "f", k]), n)
                    n += 1
                    m.export(nm, KIND[k], i)
                    self.exports.append((nm, e))
        del names

    def body(self, s):
        """some effect on globals, a host call, then results"""
        r = self.r
        p, q = s
        b = b""
        for g in self.all["g"]:
            if g[1][1] and g[1][0] == I32 and r.random() < .5:
                b += b"\x23" + u(g[0]) + const(I32, r.randrange(1, 5)) + b"\x6a\x24" + u(g[0])
        if r.random() < .3:
            b += const(I32, r.randrange(100)) + b"\x10" + u(self.hostf)
        if self.all["f"] and r.random() < .3:
            i, fs, _ = r.choice(self.all["f"])
            b += b"".join(const(t, r.randrange(50)) for t in fs[0]) + b"\x10" + u(i) + b"\x1a" * len(fs[1])
        if r.random() < .07:
            return b + b"\x00\x0b"
        for t in q:
            b += b"\x20" + u(p.index(t)) if t in p and r.random() < .7 else const(t, r.randrange(1000))
        return b + b"\x0b"

    def acc(self, nm, p, q, b):
        self.m.func(p, q, (), b"".join(b"\x20" + u(i) for i in range(len(p))) + b + b"\x0b", nm)
        self.entries.append((nm, p))

    def accessors(self):
        r, m = self.r, self.m
        for i, (p, q), _ in list(self.all["f"]):
            self.acc("call%d" % i, p, q, b"\x10" + u(i))
        for i, (t, mut), _ in self.all["g"]:
            self.acc("gg%d" % i, (), (t,), b"\x23" + u(i))
            if mut:
                self.acc("gs%d" % i, (t,), (), b"\x24" + u(i))
        for i, d, _ in self.all["m"]:
            M = u(0x40) + u(i) + b"\x00"
            self.acc("ml%d" % i, (I32,), (I32,), b"\x2d" + M)
            self.acc("ms%d" % i, (I32, I32), (), b"\x3a" + M)
            self.acc("mz%d" % i, (), (I32,), b"\x3f" + u(i))
            self.acc("mg%d" % i, (I32,), (I32,), b"\x40" + u(i))
        for i, d, _ in self.all["t"]:
            self.acc("tg%d" % i, (I32,), (d[0],), b"\x25" + u(i))
            self.acc("ts%d" % i, (I32, d[0]), (), b"\x26" + u(i))
            self.acc("tz%d" % i, (), (I32,), b"\xfc\x10" + u(i))
            self.acc("tw%d" % i, (d[0], I32), (I32,), b"\xfc\x0f" + u(i))
            if d[0] == FUNCREF:
                for s in r.sample(SIGS, 3):
                    self.acc("ci%d_%d" % (i, SIGS.index(s)), s[0] + (I32,), s[1], b"\x11" + u(m.type(*s)) + u(i))
        xs = [x for x in self.all["x"] if x[1] in ((), (I32,))]
        for i, p, _ in xs:
            self.acc("th%d" % i, p, (), b"\x08" + u(i))
            # catch it or let it pass
            for j, p2, _ in xs:
                b = b"\x02\x40\x1f\x40\x01\x00" + u(j) + b"\x00\x0b\x0b" if p2 == () else \
                    b"\x02\x7f\x1f\x40\x01\x00" + u(j) + b"\x00\x0b\x41\x7f\x0b\x1a"
                inner = b"".join(b"\x20" + u(q) for q in range(len(p))) + b"\x08" + u(i)
                k = b.index(b"\x00\x0b") + 1
                m.func(p, (I32,), (), b[:k] + inner + b[k:] + const(I32, 5) + b"\x0b", "tc%d_%d" % (i, j))
                self.entries.append(("tc%d_%d" % (i, j), p))
            # call a function that throws, catching with this tag
            for f, s, _ in self.all["f"]:
                if s == ((), ()) and p == ():
                    self.m.func((), (I32,), (), b"\x02\x40\x1f\x40\x01\x00" + u(i) + b"\x00\x10" + u(f) + b"\x0b" +
                                const(I32, 1) + b"\x0f\x0b" + const(I32, 2) + b"\x0b", "cc%d_%d" % (i, f))
                    self.entries.append(("cc%d_%d" % (i, f), ()))
        for i, p, _ in xs:
            if p == ():
                # exported thrower, to be caught elsewhere
                f = m.func((), (), (), b"\x08" + u(i) + b"\x0b")
                self.all["f"].append((f, ((), ()), Ent("f", sig=((), ()))))


def scenario(r, i, wrong, tricky):
    s = scen.Scen(meta=i)
    s.host("h", "log", (I32,), ())
    insts = []          # (slot, Mod)
    avail = []
    chain = r.choice([1, 2, 2, 3])
    for n in range(chain + r.choice([1, 2, 3])):
        probe = n >= chain
        md = Mod(r, None, avail, wrong if probe else 0, tricky if probe else 0)
        ims = []
        names = ["a", "b", "c", "d"]
        for j, (sl, _) in enumerate(insts[:chain]):
            ims.append((names[j], sl))
        ims.append("host")
        if r.random() < .3:
            r.shuffle(ims)
        if r.random() < tricky * .3 and insts:
            # two objects under one name
            ims.append((r.choice(names[:chain]), r.choice(insts[:chain])[0]))
            r.shuffle(ims)
        k = s.inst(s.mod(md.m), ims)
        if not probe:
            for nm, e in md.exports:
                avail.append((names[n], nm, e))
        insts.append((k, md))
        # use what exists so far
        for _ in range(r.randrange(2, 9)):
            k2, md2 = r.choice(insts)
            nm, ps = r.choice(md2.entries)
            c = [x for x in md2.entries if x[0][:2] in ("mg", "tw")]
            if c and r.random() < .25:
                nm, ps = r.choice(c)
            a = []
            for j, t in enumerate(ps):
                if t == I32:
                    a.append((t, r.choice([0, 1, 2, 3, 4, 7, 1, 2])))
                elif t == FUNCREF:
                    a.append((t, None if r.random() < .4 else (k2, r.choice(md2.all["f"])[0])))
                else:
                    a.append((t, gen.value_of(r, t)))
            if nm[:2] in ("mg", "tw"):
                e = next(x[2] for x in md2.all["m" if nm[0] == "m" else "t"] if x[0] == int(nm[2:]))
                if e.kind in "mt" and (e.lim[1] is None or e.size + a[-1][1] <= e.lim[1]):
                    e.size += a[-1][1]
            s.call(k2, nm, a)
    for k, md in insts:
        for kind, f in (("g", s.glob), ("t", s.tab), ("m", s.mem)):
            for x in md.all[kind]:
                if r.random() < .6:
                    f(k, x[0])
    return s


def run(ctx):
    ss = []
    for i in range(ctx.n(1600, 20000)):
        r = progs.rng(ctx, i)
        ss.append(scenario(r, i, r.choice([0, 0, .05, .3]), r.choice([0, .1, 1])))
    scen.run(ctx, ss, scen.MODES, what="linking")
