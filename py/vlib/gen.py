"""Random well-typed, terminating programs.

The generator keeps an abstract operand stack and emits instructions whose
operands it can provide.  Every loop and every call burns fuel from a global,
so all programs end.  Float results are normalised when they are NaN because
the specification allows several."""
from .wasm import (EXNREF, EXTERNREF, F32, F64, FUNCREF, I32, I64, V128, Module, const,
                   data_active, data_passive, elem_active, elem_active_expr, elem_decl,
                   elem_passive, elem_passive_expr, limits, s, u)

NUM = [I32, I64, F32, F64]
ALLT = NUM + [V128, FUNCREF, EXTERNREF]
ISZ = {I32: 4, I64: 8, F32: 4, F64: 8, V128: 16}
EDGE32 = [0, 1, 2, 3, 7, 8, 31, 32, 63, 64, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000,
          0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff]
EDGE64 = EDGE32 + [0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff,
                   0xffffffff80000000, 0xffffffff7fffffff]
EDGEF32 = [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x4f000000,
           0x4b000000, 0x3f000000, 0x40490fdb, 0xffc12345, 0x42280000]
EDGEF64 = [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x7ff0000000000000,
           0xfff0000000000000, 0x7ff8000000000000, 1, 0x41e0000000000000, 0x3fe0000000000000,
           0x400921fb54442d18, 0xfff8000000012345, 0x4045000000000000]

# (opcode bytes, params, result, float result may be NaN)
OPS = []


def _ops():
    def add(op, p, r, nan=False):
        OPS.append((bytes([op]), p, r, nan))
    for t, base in ((I32, 0x45), (I64, 0x50)):
        add(base, [t], I32)
        for k in range(1, 11):
            add(base + k, [t, t], I32)
    for t, base in ((F32, 0x5b), (F64, 0x61)):
        for k in range(6):
            add(base + k, [t, t], I32)
    for t, base in ((I32, 0x67), (I64, 0x79)):
        for k in range(3):
            add(base + k, [t], t)
        for k in range(3, 18):
            add(base + k, [t, t], t)
    for t, base in ((F32, 0x8b), (F64, 0x99)):
        add(base, [t], t)
        add(base + 1, [t], t)
        for k in range(2, 7):
            add(base + k, [t], t, True)
        for k in range(7, 13):
            add(base + k, [t, t], t, True)
        add(base + 13, [t, t], t)
    add(0xa7, [I64], I32)
    for k, (a, r) in enumerate([(F32, I32), (F32, I32), (F64, I32), (F64, I32)]):
        add(0xa8 + k, [a], r)
    add(0xac, [I32], I64)
    add(0xad, [I32], I64)
    for k, (a, r) in enumerate([(F32, I64), (F32, I64), (F64, I64), (F64, I64)]):
        add(0xae + k, [a], r)
    for k, (a, r) in enumerate([(I32, F32), (I32, F32), (I64, F32), (I64, F32)]):
        add(0xb2 + k, [a], r)
    add(0xb6, [F64], F32, True)
    for k, (a, r) in enumerate([(I32, F64), (I32, F64), (I64, F64), (I64, F64)]):
        add(0xb7 + k, [a], r)
    add(0xbb, [F32], F64, True)
    add(0xbc, [F32], I32)
    add(0xbd, [F64], I64)
    add(0xbe, [I32], F32)
    add(0xbf, [I64], F64)
    add(0xc0, [I32], I32)
    add(0xc1, [I32], I32)
    for k in range(2, 5):
        add(0xc0 + k, [I64], I64)
    for k in range(8):
        OPS.append((b"\xfc" + bytes([k]), [[F32, F64][(k // 2) % 2]], I32 if k < 4 else I64, False))


_ops()
TRAPPY = {b"\x6d", b"\x6e", b"\x6f", b"\x70", b"\x7f", b"\x80", b"\x81", b"\x82"} | \
    {bytes([k]) for k in (0xa8, 0xa9, 0xaa, 0xab, 0xae, 0xaf, 0xb0, 0xb1)}
SAFE = [o for o in OPS if o[0] not in TRAPPY]
INTSAFE = [o for o in SAFE if o[2] in (I32, I64) and all(t in (I32, I64) for t in o[1])]

# some vector instructions: (number, operands, result, lanes of the immediate or 0)
VOPS = [(15, [I32], V128, 0), (16, [I32], V128, 0), (17, [I32], V128, 0), (18, [I64], V128, 0),
        (21, [V128], I32, 16), (22, [V128], I32, 16), (23, [V128, I32], V128, 16),
        (24, [V128], I32, 8), (26, [V128, I32], V128, 8), (27, [V128], I32, 4),
        (28, [V128, I32], V128, 4), (29, [V128], I64, 2), (30, [V128, I64], V128, 2),
        (14, [V128, V128], V128, 0), (35, [V128, V128], V128, 0), (77, [V128], V128, 0),
        (78, [V128, V128], V128, 0), (80, [V128, V128], V128, 0), (81, [V128, V128], V128, 0),
        (82, [V128, V128, V128], V128, 0), (83, [V128], I32, 0), (96, [V128], V128, 0),
        (99, [V128], I32, 0), (100, [V128], I32, 0), (107, [V128, I32], V128, 0),
        (110, [V128, V128], V128, 0), (113, [V128, V128], V128, 0), (142, [V128, V128], V128, 0),
        (149, [V128, V128], V128, 0), (174, [V128, V128], V128, 0), (177, [V128, V128], V128, 0),
        (181, [V128, V128], V128, 0), (206, [V128, V128], V128, 0), (13, [V128, V128], V128, 32)]

LOADS = {I32: [(0x28, 2), (0x2c, 0), (0x2d, 0), (0x2e, 1), (0x2f, 1)],
         I64: [(0x29, 3), (0x30, 0), (0x31, 0), (0x32, 1), (0x33, 1), (0x34, 2), (0x35, 2)],
         F32: [(0x2a, 2)], F64: [(0x2b, 3)]}
STORES = {I32: [(0x36, 2), (0x3a, 0), (0x3b, 1)], I64: [(0x37, 3), (0x3c, 0), (0x3d, 1), (0x3e, 2)],
          F32: [(0x38, 2)], F64: [(0x39, 3)]}

PROFILE = {"num": 14, "trappy": 1, "vec": 3, "local": 14, "global": 6, "drop": 3, "select": 3,
           "block": 7, "loop": 4, "if": 7, "br": 3, "br_if": 6, "br_table": 4, "return": 1,
           "unreachable": 0.2, "call": 5, "icall": 4, "tail": 2, "itail": 1.5, "mem": 6, "bulk": 1.5,
           "table": 3, "ref": 2, "host": 5, "try": 0, "throw": 0, "throw_ref": 0, "grow": 0.5,
           "atomic": 0, "stack": 3}


def const_of(r, t):
    if t == I32:
        return const(t, r.choice(EDGE32) if r.random() < .5 else r.getrandbits(r.choice([3, 8, 32])))
    if t == I64:
        return const(t, r.choice(EDGE64) if r.random() < .5 else r.getrandbits(r.choice([3, 8, 64])))
    if t == F32:
        return const(t, r.choice(EDGEF32) if r.random() < .6 else r.getrandbits(32))
    if t == F64:
        return const(t, r.choice(EDGEF64) if r.random() < .6 else r.getrandbits(64))
    if t == V128:
        return const(t, r.getrandbits(128))
    return b"\xd0" + bytes([t])


def value_of(r, t):
    """an argument for the driver"""
    if t == I32:
        return r.choice(EDGE32) if r.random() < .4 else r.getrandbits(r.choice([2, 6, 32]))
    if t == I64:
        return r.choice(EDGE64) if r.random() < .4 else r.getrandbits(r.choice([2, 6, 64]))
    if t == F32:
        return r.choice(EDGEF32) if r.random() < .6 else r.getrandbits(32)
    if t == F64:
        return r.choice(EDGEF64) if r.random() < .6 else r.getrandbits(64)
    if t == V128:
        return r.getrandbits(128)
    if t == EXTERNREF:
        return None if r.random() < .4 else bytes([r.randrange(1, 256, 2)] + [r.randrange(256)
                                                                             for _ in range(7)])
    return None


class Prog:
    """One module under construction plus what the body generator may use."""

    def __init__(self, r, profile=None, hosts=(), size=(20, 60), nfuncs=(3, 6), fuel=120,
                 types=None, exn=False, mem2=False, cbs=(), big=False, tables=True, sigs=(),
                 links=(), share=False):
        """links: [(import module, Prog)] built with share=True, which exports
        everything; this program uses what they export"""
        self.r = r
        self.p = dict(PROFILE)
        self.p.update(profile or {})
        self.size = size
        self.types = types or ALLT
        self.exn = exn
        m = self.m = Module()
        self.hosts = [(m.imp_func("host", n, p, q), p, q) for n, _, p, q in hosts]
        self.cbs = []
        for n, k, p, q in cbs:
            self.cbs.append((m.imp_func("host", n, p, q), k, p, q))
        self.fuels = []
        self.xfuncs = []    # functions of other instances
        self.globs = []
        self.mems = []
        self.tags = []
        self.tabs = []
        self.slots = {}     # table -> {slot: func}, or signature when not of this module
        for nm, a in links:
            self.link(nm, a)
        if not links:
            self.fuel = m.glob(I32, 1, const(I32, fuel))
            self.globs = [(self.fuel, I32, 0)]
            self.fuels = [self.fuel]
        self.fuel0 = fuel
        for _ in range(r.randrange(3, 8)):
            t = r.choice(self.types)
            mut = r.random() < .85
            self.globs.append((m.glob(t, mut, const_of(r, t)), t, mut))
        self.mems.append((m.mem(1, r.choice([None, 2, 3])), 65536))
        m.export("memory", 2, 0)
        if mem2 or r.random() < .25:
            self.mems.append((m.mem(1, r.choice([None, 4])), 65536))
        self.ndata = r.randrange(0, 3)
        if self.ndata:
            m.datacount = self.ndata
            for _ in range(self.ndata):
                b = bytes(r.randrange(256) for _ in range(r.randrange(0, 40)))
                m.datas.append(data_passive(b) if r.random() < .6 else
                               data_active(const(I32, r.randrange(0, 60)), b))
        # function signatures first, so that any may call any
        n = r.randrange(*nfuncs) + 1
        pool = [self.sig() for _ in range(max(2, n // 2))]
        for _, a in links:
            pool += r.sample(a.sigs, min(2, len(a.sigs)))
        self.sigs = [pool[i % len(pool)] if r.random() < .7 else self.sig() for i in range(n)]
        # wanted signatures, reachable through the first table
        self.sigs += [(list(p), list(q)) for p, q in sigs]
        n = len(self.sigs)
        self.f0 = m.nimpfuncs
        for p, q in self.sigs:
            m.funcs.append(m.type(p, q))
        if tables and not self.tabs:
            k = r.randrange(4, 12) + len(sigs)
            self.tabs.append((m.table(FUNCREF, k, r.choice([None, k + 5])), FUNCREF, k))
            m.export("__indirect_function_table", 1, 0)
        elif self.tabs:
            m.export("__indirect_function_table", 1, 0)
        if tables:
            if r.random() < .4:
                self.tabs.append((m.table(EXTERNREF, 5, r.choice([None, 8])), EXTERNREF, 5))
            if r.random() < .3:
                self.tabs.append((m.table(FUNCREF, 6), FUNCREF, 6))
        for ti, et, k in self.tabs:
            if et != FUNCREF:
                continue
            if ti in self.slots:
                # a table of another instance: replace some by functions of the same type
                for i, f in list(self.slots[ti].items()):
                    c = [self.f0 + j for j, x in enumerate(self.sigs) if x == self.fsig(f)]
                    if c and r.random() < .6:
                        f = r.choice(c)
                        self.slots[ti][i] = f
                        m.elems.append(elem_active(const(I32, i), [f], ti))
                continue
            fs = [r.randrange(self.f0, self.f0 + n) if r.random() < .9 or not self.hosts
                  else r.choice(self.hosts)[0] for _ in range(r.randrange(2, k + 1))]
            if ti == 0:
                fs = (fs + [self.f0 + n - 1 - i for i in range(len(sigs))])[-k:]
                r.shuffle(fs)
            off = r.randrange(0, k - len(fs) + 1)
            zero = [q for _, kd, p, q in self.cbs if kd == "cb" and not p]
            if ti == 0 and zero and r.random() < .8:
                # the callee of a callback without parameters
                off = 0
                c = [self.f0 + j for j, x in enumerate(self.sigs) if x == ([], list(zero[0]))]
                fs[0] = r.choice(c or fs)
            self.slots[ti] = {off + i: f for i, f in enumerate(fs)}
            if r.random() < .6:
                m.elems.append(elem_active(const(I32, off), fs, ti))
            else:
                m.elems.append(elem_active_expr(const(I32, off), [b"\xd2" + u(f) for f in fs], ti))
        self.nelem = []
        if self.tabs and r.random() < .6:
            fs = [r.randrange(self.f0, self.f0 + n) for _ in range(r.randrange(0, 4))]
            self.nelem.append((len(m.elems), len(fs)))
            m.elems.append(elem_passive(fs) if r.random() < .5 else
                           elem_passive_expr([b"\xd2" + u(f) for f in fs]))
        m.elems.append(elem_decl(list(range(self.f0, self.f0 + n))))
        if exn:
            for _ in range(r.randrange(2, 5) if not links else r.randrange(1, 3)):
                p = r.choice([[], [I32], [I64], [I32, I32], [F64], [I32, I64], [V128], [F32, I32],
                              [FUNCREF], [EXTERNREF, I32]])
                self.tags.append((m.tag(p), p))
            if r.random() < .5:
                # another tag of the same type
                p = r.choice(self.tags)[1]
                self.tags.append((m.tag(p), p))
        if share:
            for i in range(n):
                m.export("x%d" % i, 0, self.f0 + i)
            for i, _ in self.tags:
                m.export("e%d" % i, 4, i)
            for i, _, _ in self.globs:
                m.export("g%d" % i, 3, i)
            for i, _ in self.mems:
                m.export("m%d" % i, 2, i)
        self.big = big
        self.n = n
        for i, (p, q) in enumerate(self.sigs):
            locs, body = Body(self, i, p, q).code()
            m.codes.append((locs, body))
        # entries reset the fuel
        self.entries = []
        for i, (p, q) in enumerate(self.sigs):
            if i and r.random() < .5:
                continue
            b = b"".join(const(I32, fuel) + b"\x24" + u(f) for f in self.fuels)
            b += b"".join(b"\x20" + u(j) for j in range(len(p)))
            b += (b"\x12" if r.random() < .3 else b"\x10") + u(self.f0 + i) + b"\x0b"
            m.func(p, q, (), b, "f%d" % i)
            self.entries.append(("f%d" % i, p, q))

    def sig(self):
        r = self.r
        ts = self.types + ([EXNREF] if self.exn and r.random() < .2 else [])
        return ([r.choice(ts) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5]))],
                [r.choice(ts) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]))])

    def link(self, nm, a):
        r, m = self.r, self.m
        for i, (p, q) in enumerate(a.sigs):
            if r.random() < .7:
                self.xfuncs.append((m.imp_func(nm, "x%d" % i, p, q), list(p), list(q)))
        f = m.imp_global(nm, "g%d" % a.fuel, I32, 1)
        if not self.globs:
            self.fuel = f
            self.globs.append((f, I32, 0))
        self.fuels.append(f)
        for i, t, mut in a.globs[1:]:
            if r.random() < .4:
                self.globs.append((m.imp_global(nm, "g%d" % i, t, mut), t, mut))
        for i, _ in a.mems:
            # possibly the same memory more than once
            for _ in range(r.choice([0, 0, 1, 2])):
                self.mems.append((m.imp_mem(nm, "m%d" % i, limits(1)), 65536))
        for i, p in a.tags:
            if r.random() < .7:
                self.tags.append((m.imp_tag(nm, "e%d" % i, p), p))
        if a.tabs and not self.tabs and r.random() < .7:
            ti = m.imp_table(nm, "__indirect_function_table", FUNCREF, limits(a.tabs[0][2]))
            self.tabs.append((ti, FUNCREF, a.tabs[0][2]))
            self.slots[ti] = {i: [list(x) for x in a.fsig(f)] for i, f in a.slots.get(0, {}).items()}

    def fsig(self, f):
        if isinstance(f, list):
            return tuple(f)
        if f >= self.f0:
            return self.sigs[f - self.f0]
        for i, p, q in self.xfuncs:
            if i == f:
                return p, q
        for i, p, q in self.hosts:
            if i == f:
                return p, q
        for i, _, p, q in self.cbs:
            if i == f:
                return p, q


class Body:
    def __init__(self, prog, idx, params, results):
        r = self.r = prog.r
        self.g = prog
        self.m = prog.m
        self.idx = idx
        self.params = params
        self.results = results
        ts = prog.types + ([EXNREF] if prog.exn else [])
        n = r.choice([0, 2, 4, 8]) if not prog.big or r.random() < .7 else r.choice([60, 300])
        ex = [r.choice(ts) for _ in range(n)] + [I32, I64]
        r.shuffle(ex)
        self.locs = ex + [F32, F64]
        self.lt = list(params) + self.locs
        self.tf32, self.tf64 = len(self.lt) - 2, len(self.lt) - 1
        self.lt[self.tf32] = self.lt[self.tf64] = None     # scratch, may hold any NaN
        self.out = bytearray()
        self.labels = []
        self.st = []
        self.dead = False
        self.budget = r.randrange(*prog.size)

    # -- emission helpers
    def e(self, *bs):
        for b in bs:
            self.out += b if isinstance(b, (bytes, bytearray)) else bytes([b])

    def newlocal(self, t):
        self.locs.append(t)
        self.lt.append(t)
        return len(self.lt) - 1

    def burn(self):
        g = u(self.g.fuel)
        self.e(0x23, g, const(I32, 1), 0x6b, 0x24, g, 0x23, g, const(I32, 1), 0x48,
               0x04, 0x40, 0x00, 0x0b)

    def push(self, t):
        r = self.r
        k = r.random()
        c = [i for i, x in enumerate(self.lt) if x == t]
        if c and k < .55:
            self.e(0x20, u(r.choice(c)))
        elif k < .75 and [g for g in self.g.globs[1:] if g[1] == t]:
            self.e(0x23, u(r.choice([g for g in self.g.globs[1:] if g[1] == t])[0]))
        elif t == FUNCREF and k < .95:
            self.e(0xd2, u(r.randrange(self.g.f0, self.g.f0 + self.g.n)))
        else:
            self.e(const_of(r, t))
        self.st.append(t)

    def need(self, ts):
        """make the top of the stack ts"""
        ts = list(ts)
        if self.dead:
            # polymorphic below: remove what does not fit
            while self.st and not any(self.st == ts[k:k + len(self.st)] and k + len(self.st) == len(ts)
                                      for k in range(len(ts) + 1)):
                self.e(0x1a)
                self.st.pop()
            for t in ts[len(self.st):]:
                pass
            return
        for k in range(len(ts), -1, -1):
            if k == 0 or self.st[len(self.st) - k:] == ts[:k] and k <= len(self.st):
                for t in ts[k:]:
                    self.push(t)
                return

    def take(self, ts, rs=()):
        n = min(len(ts), len(self.st))
        if n:
            del self.st[-n:]
        self.st += list(rs)

    def sink(self):
        """remove the top value, mostly keeping it in a local or global"""
        t = self.st[-1]
        r = self.r
        c = [i for i, x in enumerate(self.lt) if x == t]
        gs = [g for g in self.g.globs[1:] if g[1] == t and g[2]]
        if gs and r.random() < .4:
            self.e(0x24, u(r.choice(gs)[0]))
        elif c and r.random() < .8:
            self.e(0x21, u(r.choice(c)))
        else:
            self.e(0x1a)
        self.st.pop()

    def coerce(self, want):
        """make the whole stack (of this block) exactly want"""
        want = list(want)
        if self.dead:
            while self.st and self.st != want[len(want) - len(self.st):]:
                self.e(0x1a)
                self.st.pop()
            self.st = list(want)
            return
        while self.st != want[:len(self.st)]:
            self.sink()
        for t in want[len(self.st):]:
            self.push(t)

    def bt(self, p, q):
        if not p and not q and self.r.random() < .8:
            return b"\x40"
        if not p and len(q) == 1 and self.r.random() < .8:
            return bytes([q[0]])
        return s(self.m.type(p, q))

    def some_types(self, n=None):
        r = self.r
        ts = self.g.types + ([EXNREF] if self.g.exn and r.random() < .2 else [])
        return [r.choice(ts) for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if n is None else n)]

    def taken(self):
        """parameters of a block: a suffix of the current stack"""
        if self.dead or not self.st or self.r.random() < .5:
            return []
        k = self.r.randrange(0, min(3, len(self.st)) + 1)
        return self.st[len(self.st) - k:] if k else []

    # -- structured pieces
    def inner(self, lab, p, want, pre=None, post=None):
        """body of a block: label types lab, parameters p, results want"""
        st, dead = self.st, self.dead
        self.st, self.dead = list(p), False
        self.labels.append(lab)
        if pre:
            pre()
        n = self.r.randrange(1, 9)
        while n > 0 and self.budget > 0:
            n -= 1
            self.step()
        if post:
            post()
        self.coerce(want)
        self.labels.pop()
        self.st, self.dead = st, dead

    def code(self):
        self.burn()
        self.labels.append(("f", list(self.results), None))
        while self.budget > 0:
            self.step()
            if self.dead and self.r.random() < .5:
                break
        self.coerce(self.results)
        self.e(0x0b)
        return self.locs, bytes(self.out)

    def step(self):
        self.budget -= 1
        r = self.r
        if self.dead:
            # a little unreachable code
            if r.random() < .6:
                return
            k = r.choice(["num", "drop", "local", "select"])
        else:
            p = self.g.p
            k = r.choices(list(p), list(p.values()))[0]
        if len(self.st) > 12 and k in ("local", "ref", "stack"):
            k = "drop"
        getattr(self, "i_" + k)()

    def canon(self, t):
        l = u(self.tf32 if t == F32 else self.tf64)
        nan = const(t, 0x7fc00000 if t == F32 else 0x7ff8000000000000)
        self.e(0x21, l, nan, 0x20, l, 0x20, l, 0x20, l, 0x5c if t == F32 else 0x62, 0x1b)

    def numop(self, pool):
        # prefer one that consumes what is on the stack
        r = self.r
        c = [o for o in pool if self.st and o[1][0] == self.st[-1] or len(self.st) > 1 and
             self.st[-len(o[1]):] == o[1]]
        o = r.choice(c or pool) if r.random() < .8 else r.choice(pool)
        self.need(o[1])
        self.e(o[0])
        self.take(o[1], [o[2]])
        if o[3]:
            self.canon(o[2])

    def i_num(self):
        self.numop(SAFE if self.r.random() < .6 else INTSAFE)

    def i_trappy(self):
        self.numop([o for o in OPS if o[0] in TRAPPY])

    def i_vec(self):
        r = self.r
        n, p, q, k = r.choice(VOPS)
        self.need(p)
        self.e(0xfd, u(n))
        if k == 32:
            self.e(bytes(r.randrange(32) for _ in range(16)))
        elif k:
            self.e(r.randrange(k))
        self.take(p, [q])

    def i_local(self):
        r = self.r
        i = r.randrange(len(self.lt))
        t = self.lt[i]
        k = r.random()
        if t is None:
            return
        if k < .45 and not self.dead:
            self.e(0x20, u(i))
            self.st.append(t)
        elif k < .8:
            self.need([t])
            self.e(0x21, u(i))
            self.take([t])
        else:
            self.need([t])
            self.e(0x22, u(i))
            self.take([t], [t])

    def i_global(self):
        r = self.r
        g = r.choice(self.g.globs[1:])
        if g[2] and r.random() < .6:
            self.need([g[1]])
            self.e(0x24, u(g[0]))
            self.take([g[1]])
        else:
            self.e(0x23, u(g[0]))
            self.st.append(g[1])

    def i_drop(self):
        if self.st:
            self.e(0x1a)
            self.st.pop()
        elif self.dead:
            self.e(0x1a)

    def i_stack(self):
        for t in self.some_types(self.r.randrange(1, 4)):
            self.push(t)

    def i_select(self):
        r = self.r
        t = r.choice(self.g.types) if not self.st or self.st[-1] == EXNREF else self.st[-1]
        self.need([t, t, I32])
        if t in ISZ and r.random() < .6:
            self.e(0x1b)
        else:
            self.e(0x1c, 1, t)
        self.take([t, t, I32], [t])

    def i_block(self):
        p = self.taken()
        q = self.some_types()
        self.e(0x02, self.bt(p, q))
        self.inner(("b", q, None), p, q)
        self.e(0x0b)
        self.take(p, q)

    def i_loop(self):
        r = self.r
        p = self.taken()
        q = self.some_types()
        c = self.newlocal(I32)
        self.e(const(I32, r.randrange(1, 5)), 0x21, u(c))
        self.e(0x03, self.bt(p, q))

        def post():
            if self.dead:
                return
            self.need(p)
            self.e(0x20, u(c), const(I32, 1), 0x6b, 0x22, u(c), 0x0d, 0)
        self.inner(("l", p, c), p, q, pre=self.burn, post=post)
        self.e(0x0b)
        self.take(p, q)

    def i_if(self):
        r = self.r
        self.need([I32])
        self.st.pop()
        p = self.taken()
        if r.random() < .3:
            # without else: results = parameters
            self.e(0x04, self.bt(p, p))
            self.inner(("b", p, None), p, p)
            self.e(0x0b)
            return
        q = self.some_types()
        self.e(0x04, self.bt(p, q))
        self.inner(("b", q, None), p, q)
        self.e(0x05)
        self.inner(("b", q, None), p, q)
        self.e(0x0b)
        self.take(p, q)

    def target(self, loops):
        r = self.r
        c = [i for i, l in enumerate(reversed(self.labels)) if loops or l[0] != "l"]
        if not c:
            return None
        return r.choice(c)

    def lab(self, d):
        return self.labels[len(self.labels) - 1 - d]

    def i_br(self):
        d = self.target(False)
        ts = self.lab(d)[1]
        self.need(ts)
        self.e(0x0c, u(d))
        self.st, self.dead = [], True

    def i_br_if(self):
        r = self.r
        d = self.target(True)
        k, ts, c = self.lab(d)
        self.need(ts)
        if k == "l":
            self.e(0x20, u(c), const(I32, 1), 0x6b, 0x22, u(c))
        elif r.random() < .7:
            l = r.choice([i for i, t in enumerate(self.lt) if t == I32])
            self.e(0x20, u(l), const(I32, r.choice([1, 2, 4])), 0x71)
        else:
            self.e(const_of(r, I32))
        self.e(0x0d, u(d))

    def i_br_table(self):
        r = self.r
        d = self.target(False)
        ts = self.lab(d)[1]
        c = [i for i, l in enumerate(reversed(self.labels)) if l[1] == ts and l[0] != "l"]
        loops = [i for i, l in enumerate(reversed(self.labels)) if l[1] == ts and l[0] == "l"]
        self.need(ts)
        # a loop target only while its counter lasts
        tg = [r.choice(c) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))]
        if loops and r.random() < .6:
            x = r.choice(loops)
            cnt = self.lab(x)[2]
            # index 0 goes back to the loop
            self.e(0x20, u(cnt), const(I32, 1), 0x6b, 0x22, u(cnt), 0x45)
            tg = [x] + tg
        else:
            l = r.choice([i for i, t in enumerate(self.lt) if t == I32])
            self.e(0x20, u(l))
            if r.random() < .8:
                self.e(const(I32, r.choice([1, 3, 7])), 0x71)
        self.e(0x0e, u(len(tg)), b"".join(u(t) for t in tg), u(r.choice(c)))
        self.st, self.dead = [], True

    def i_return(self):
        if self.r.random() < .6 and self.labels[0] is not self.labels[-1]:
            return
        self.need(self.results)
        self.e(0x0f)
        self.st, self.dead = [], True

    def i_unreachable(self):
        self.e(0x00)
        self.st, self.dead = [], True

    def callee(self):
        r = self.r
        if r.random() < .75 and self.idx + 1 < self.g.n:
            return r.randrange(self.idx + 1, self.g.n)
        return r.randrange(self.g.n)

    def i_call(self):
        if self.g.xfuncs and self.r.random() < .5:
            f, p, q = self.r.choice(self.g.xfuncs)
            self.need(p)
            self.e(0x10, u(f))
            self.take(p, q)
            return
        f = self.callee()
        p, q = self.g.sigs[f]
        self.need(p)
        self.e(0x10, u(self.g.f0 + f))
        self.take(p, q)

    def icallee(self):
        r = self.r
        if not self.g.slots:
            return None
        ti = r.choice(list(self.g.slots))
        sl = self.g.slots[ti]
        i = r.choice(list(sl))
        p, q = self.g.fsig(sl[i])
        return ti, i, p, q

    def index(self, i):
        r = self.r
        if r.random() < .93:
            self.e(const(I32, i))
        else:
            self.e(const(I32, r.choice([r.randrange(12), 0xffffffff, 100])))

    def i_icall(self):
        c = self.icallee()
        if not c:
            return
        ti, i, p, q = c
        self.need(p)
        self.index(i)
        self.e(0x11, u(self.m.type(p, q)), u(ti))
        self.take(p, q)

    def i_tail(self):
        c = [(self.g.f0 + i, p) for i, (p, q) in enumerate(self.g.sigs)
             if list(q) == list(self.results)]
        c += [(i, p) for i, p, q in self.g.hosts + self.g.xfuncs if list(q) == list(self.results)]
        if not c or self.r.random() < .4:
            return
        f, p = self.r.choice(c)
        self.need(p)
        self.e(0x12, u(f))
        self.st, self.dead = [], True

    def i_itail(self):
        for _ in range(6):
            c = self.icallee()
            if c and list(c[3]) == list(self.results):
                ti, i, p, q = c
                self.need(p)
                self.index(i)
                self.e(0x13, u(self.m.type(p, q)), u(ti))
                self.st, self.dead = [], True
                return

    def addr(self):
        r = self.r
        k = r.random()
        if k < .9:
            return r.randrange(0, 64)
        if k < .98:
            return 65536 - r.randrange(16, 40)
        return 65536 - r.randrange(0, 16)

    def memarg(self, al):
        r = self.r
        mi = r.randrange(len(self.g.mems))
        off = r.choice([0, 0, 0, 4, 13, 100])
        al = r.randrange(0, al + 1)
        if mi or r.random() < .05:
            return u(al | 0x40) + u(mi) + u(off)
        return u(al) + u(off)

    def i_mem(self):
        r = self.r
        t = r.choice([I32, I32, I64, F32, F64, V128])
        if r.random() < .5:
            self.e(const(I32, self.addr()))
            if t == V128:
                self.e(0xfd, 0, self.memarg(4))
            else:
                op, al = r.choice(LOADS[t])
                self.e(op, self.memarg(al))
            self.st.append(t)
        else:
            c = [i for i, x in enumerate(self.lt) if x == t]
            self.e(const(I32, self.addr()))
            self.st.append(I32)
            self.push(t)
            if t == V128:
                self.e(0xfd, 11, self.memarg(4))
            else:
                op, al = r.choice(STORES[t])
                self.e(op, self.memarg(al))
            self.take([I32, t])
            del c

    def i_bulk(self):
        r = self.r
        k = r.randrange(4)
        mi = r.randrange(len(self.g.mems))
        if k == 0:
            self.e(const(I32, r.randrange(100)), const_of(r, I32), const(I32, r.randrange(20)),
                   0xfc, 11, u(mi))
        elif k == 1:
            self.e(const(I32, r.randrange(60)), const(I32, r.randrange(60)), const(I32, r.randrange(30)),
                   0xfc, 10, u(mi), u(r.randrange(len(self.g.mems))))
        elif self.g.ndata:
            d = r.randrange(self.g.ndata)
            if r.random() < .2:
                self.e(0xfc, 9, u(d))
            else:
                n = r.choice([0, 0, 1, 3])
                self.e(const(I32, r.randrange(60)), const(I32, 0 if n == 0 else r.randrange(8)),
                       const(I32, n), 0xfc, 8, u(d), u(mi))

    def i_grow(self):
        r = self.r
        mi = r.randrange(len(self.g.mems))
        if r.random() < .5:
            self.e(0x3f, u(mi))
            self.st.append(I32)
        else:
            self.e(const(I32, r.choice([0, 1, 70000, 0xffffffff])), 0x40, u(mi))
            self.st.append(I32)

    def i_table(self):
        r = self.r
        if not self.g.tabs:
            return
        ti, et, n = r.choice(self.g.tabs)
        k = r.random()
        i = const(I32, r.randrange(n) if r.random() < .95 else r.randrange(2 * n))
        if k < .3:
            self.e(i, 0x25, u(ti))
            self.st.append(et)
        elif k < .55:
            self.e(i)
            self.st.append(I32)
            self.push(et)
            self.e(0x26, u(ti))
            self.take([I32, et])
        elif k < .65:
            self.e(0xfc, 16, u(ti))
            self.st.append(I32)
        elif k < .75:
            self.push(et)
            self.e(const(I32, r.choice([0, 1, 1, 3])), 0xfc, 15, u(ti))
            self.take([et], [I32])
        elif k < .85:
            self.e(const(I32, r.randrange(3)))
            self.st.append(I32)
            self.push(et)
            self.e(const(I32, r.randrange(3)), 0xfc, 17, u(ti))
            self.take([I32, et])
        elif k < .93:
            c = [x for x in self.g.tabs if x[1] == et]
            self.e(const(I32, r.randrange(3)), const(I32, r.randrange(3)), const(I32, r.randrange(3)),
                   0xfc, 14, u(ti), u(r.choice(c)[0]))
        elif self.g.nelem and et == FUNCREF:
            x, ln = r.choice(self.g.nelem)
            if r.random() < .2:
                self.e(0xfc, 13, u(x))
            else:
                c = r.randrange(0, ln + 1)
                self.e(const(I32, r.randrange(3)), const(I32, 0), const(I32, c if r.random() < .5 else 0),
                       0xfc, 12, u(x), u(ti))

    def i_ref(self):
        r = self.r
        k = r.random()
        if k < .4:
            self.push(r.choice([FUNCREF, EXTERNREF]))
        else:
            t = self.st[-1] if self.st and self.st[-1] in (FUNCREF, EXTERNREF, EXNREF) else FUNCREF
            self.need([t])
            self.e(0xd1)
            self.take([t], [I32])

    def i_host(self):
        r = self.r
        c = self.g.hosts + [(i, p, q) for i, k, p, q in self.g.cbs if k not in ("cb", "tcb", "cbn", "copyin", "copyout")]
        cb = [x for x in self.g.cbs if x[1] in ("cb", "tcb", "cbn", "copyin", "copyout")]
        if cb and r.random() < .5:
            i, k, p, q = r.choice(cb)
            if k in ("copyin", "copyout"):
                self.e(const(I32, self.addr() & ~7 if r.random() < .9 else self.addr()),
                       const(I32, r.randrange(0, 24)), const(I32, r.choice([1, 1, 2, 4, 8])))
                self.st += [I32] * 3
            elif k == "cbn":
                c2 = self.slot_for([I32], [I32])
                self.e(const(I32, c2), const(I32, r.randrange(0, 4)))
                self.st += [I32, I32]
                self.push(I32)
            else:
                want = (p[1:], q) if k == "cb" else (p, q)
                if p:
                    self.e(const(I32, self.slot_for(*want)))
                    self.st.append(I32)
                for t in p[1:]:
                    self.push(t)
            self.e(0x10, u(i))
            self.take(p, q)
            return
        if not c:
            return
        i, p, q = r.choice(c)
        self.need(p)
        self.e(0x10, u(i))
        self.take(p, q)

    def slot_for(self, p, q):
        sl = self.g.slots.get(0, {})
        c = [k for k, f in sl.items() if [list(x) for x in self.g.fsig(f)] == [list(p), list(q)]]
        if c and self.r.random() < .95:
            return self.r.choice(c)
        return self.r.randrange(0, 14)

    # -- exceptions
    def i_throw(self):
        if not self.g.tags:
            return
        x, p = self.r.choice(self.g.tags)
        self.need(p)
        if self.r.random() < .6:
            # conditionally
            self.take(p)
            l = self.r.choice([i for i, t in enumerate(self.lt) if t == I32])
            self.e(0x20, u(l), const(I32, self.r.choice([1, 2, 4])), 0x71, 0x04, self.bt(p, []))
            self.e(0x08, u(x), 0x05)
            for _ in p:
                self.e(0x1a)
            self.e(0x0b)
            return
        self.e(0x08, u(x))
        self.st, self.dead = [], True

    def i_throw_ref(self):
        if not self.g.exn:
            return
        r = self.r
        c = [i for i, t in enumerate(self.lt) if t == EXNREF]
        if not c:
            return
        l = u(r.choice(c))
        if r.random() < .9:
            self.e(0x20, l, 0xd1, 0x45, 0x04, 0x40, 0x20, l, 0x0a, 0x0b)
        else:
            self.e(0x20, l, 0x0a)
            self.st, self.dead = [], True

    def i_try(self):
        r = self.r
        if not self.g.tags:
            return
        p = self.taken()
        q = self.some_types(r.choice([0, 0, 1, 2]))
        n = r.choice([0, 1, 1, 2, 2, 3])
        cl = []
        for _ in range(n):
            k = r.choices([0, 1, 2, 3], [5, 3, 2, 2])[0]
            x, tp = r.choice(self.g.tags)
            ts = (list(tp) if k < 2 else []) + ([EXNREF] if k in (1, 3) else [])
            cl.append((k, x, ts))
        # block done (p)->q ; n handler blocks around the try_table
        self.e(0x02, self.bt(p, q))
        outer = self.labels
        saved = (self.st, self.dead)
        self.labels = outer + [("b", q, None)]
        for i in range(n):
            # the parameters travel inwards as block parameters
            self.e(0x02, self.bt(p, cl[i][2]))
            self.labels = self.labels + [("b", cl[i][2], None)]
        # clauses refer to labels outside the try_table
        enc = []
        for i in range(n):
            k, x, ts = cl[i]
            d = n - 1 - i
            if r.random() < .15:
                # any other label of the same type
                c = [j for j, l in enumerate(reversed(self.labels)) if l[1] == ts and l[0] != "l"]
                d = r.choice(c)
            enc.append(bytes([k]) + (u(x) if k < 2 else b"") + u(d))
        order = list(range(n))
        r.shuffle(order)
        self.e(0x1f, self.bt(p, q), u(n), b"".join(enc[i] for i in order))
        self.inner(("b", q, None), p, q)
        self.e(0x0b)
        if n:
            self.e(0x0c, u(n))
        for i in range(n - 1, -1, -1):
            self.e(0x0b)
            self.labels = self.labels[:-1]
            self.st, self.dead = list(cl[i][2]), False
            for _ in range(r.randrange(0, 4)):
                if self.budget > 0:
                    self.step()
            if i or r.random() < .5:
                self.need(q)
                self.e(0x0c, u(i))
                self.dead, self.st = True, []
                # end of the enclosing handler block: unreachable
            else:
                self.coerce(q)
        self.e(0x0b)
        self.labels = outer
        self.st, self.dead = saved
        self.take(p, q)

    def i_atomic(self):
        r = self.r
        mi = 0
        k = r.randrange(7)
        t = [I32, I64, I32, I32, I64, I64, I64][k]
        w = [2, 3, 0, 1, 0, 1, 2][k]
        a = self.addr() >> w << w
        off = r.choice([0, 8, 16])
        grp = r.randrange(9)
        op = 16 + 7 * grp + k
        self.e(const(I32, a))
        self.st.append(I32)
        ops = [I32]
        if grp == 0:
            pass
        elif grp < 8:
            self.push(t)
            ops = [I32, t]
        else:
            self.push(t)
            self.push(t)
            ops = [I32, t, t]
        self.e(0xfe, u(op), u(w), u(off))
        self.take(ops, [] if grp == 1 else [t])
        del mi
