"""C08: validation.  Every instruction with right and wrong operands, random
function bodies with one thing changed, and module level rules one by one; the
specification (Valid) says which modules are valid."""
from vlib import gen, mods, progs
from vlib.mods import VT, push
from vlib.wasm import (EXNREF, EXTERNREF, F32, F64, FUNCREF, I32, I64, V128, Module, const,
                       data_active, data_passive, elem_active, elem_active_expr, elem_decl,
                       elem_passive, elem_passive_expr, limits, u, s as sleb)


def ctxmod(body, p=(), q=(), locs=()):
    m = Module()
    m.imp_global("a", "g", I32, 0)
    m.mem(1)
    m.mem(1)
    m.func(p, q, locs, body + b"\x0b")
    return m.encode()


def typing(r):
    """each instruction: right operands, each one wrong, missing, extra, polymorphic"""
    o = []
    for nm, enc, p, q in mods.ops():
        ok = b"".join(push(t) for t in p)
        o.append((nm + " ok", ctxmod(ok + enc, (), q)))
        for i in range(len(p)):
            t = r.choice([x for x in VT if x != p[i]])
            o.append((nm + " operand %d" % i, ctxmod(
                b"".join(push(t if j == i else x) for j, x in enumerate(p)) + enc, (), q)))
        if p:
            o.append((nm + " missing", ctxmod(b"".join(push(x) for x in p[1:]) + enc, (), q)))
            k = r.randrange(len(p) + 1)
            o.append((nm + " poly", ctxmod(b"\x00" + b"".join(push(x) for x in p[k:]) + enc, (), q)))
            t = r.choice([x for x in VT if x != p[-1]])
            o.append((nm + " poly wrong", ctxmod(b"\x00" + push(t) + enc, (), q)))
            # operands below a block boundary are not visible
            o.append((nm + " below", ctxmod(push(p[0]) + b"\x02\x40" + b"".join(push(x) for x in p[1:]) +
                                            enc + b"\x1a" * len(q) + b"\x0b\x1a")))
        if q:
            t = r.choice([x for x in VT if x != q[0]])
            o.append((nm + " result", ctxmod(ok + enc, (), [t])))
        o.append((nm + " extra", ctxmod(push(I32) + ok + enc, (), q)))
        o.append((nm + " empty", ctxmod(ok + enc)))
    # select: untyped and typed, every type
    for t in VT:
        for t2 in (t, r.choice([x for x in VT if x != t])):
            a = push(t) + push(t2) + push(I32)
            o.append(("select", ctxmod(a + b"\x1b", (), [t])))
            o.append(("select_t", ctxmod(a + b"\x1c\x01" + bytes([t]), (), [t])))
            o.append(("select_t", ctxmod(a + b"\x1c\x01" + bytes([t2]), (), [t])))
        o.append(("select poly", ctxmod(b"\x00" + push(t) + push(I32) + b"\x1b", (), [t])))
        o.append(("select poly", ctxmod(b"\x00" + push(I32) + b"\x1b", (), [t])))
        o.append(("select_t 2", ctxmod(push(t) * 4 + push(I32) + b"\x1c\x02" + bytes([t, t]), (), [t, t])))
        o.append(("select_t 0", ctxmod(push(t) * 2 + push(I32) + b"\x1c\x00", (), [t])))
        o.append(("is_null", ctxmod(push(t) + b"\xd1", (), [I32])))
        o.append(("drop", ctxmod(push(t) + b"\x1a")))
        o.append(("throw_ref", ctxmod(push(t) + b"\x0a")))
        for t2 in VT:
            o.append(("local.set", ctxmod(push(t) + b"\x21\x00", [t2])))
            o.append(("local.tee", ctxmod(push(t) + b"\x22\x00", [t2], [t])))
            o.append(("local.get", ctxmod(b"\x20\x00", [t2], [t])))
        # in unreachable code the operands that are there still count
        for t2 in VT:
            o.append(("poly local.set", ctxmod(b"\x00" + push(t) + b"\x21\x00", [t2])))
            o.append(("poly local.set 2", ctxmod(b"\x00\x1a" + push(t) + b"\x21\x00", [t2])))
            o.append(("poly result", ctxmod(b"\x00" + push(t), (), [t2])))
            o.append(("poly results", ctxmod(b"\x00" + push(t), (), [t2, t])))
            o.append(("poly br", ctxmod(b"\x02" + bytes([t2]) + b"\x00" + push(t) + b"\x0c\x00\x0b\x1a")))
            o.append(("poly br_if", ctxmod(b"\x02" + bytes([t2]) + b"\x00" + push(t) + push(I32) + b"\x0d\x00\x0b\x1a")))
            o.append(("poly br_table", ctxmod(b"\x02" + bytes([t2]) + b"\x02" + bytes([t]) + b"\x00" + push(I32) +
                                              b"\x0e\x01\x00\x01\x0b\x1a\x00\x0b\x1a")))
            o.append(("poly return", ctxmod(b"\x00" + push(t) + b"\x0f", (), [t2])))
            o.append(("poly select_t", ctxmod(b"\x00" + push(t) + push(I32) + b"\x1c\x01" + bytes([t2]) + b"\x1a")))
            o.append(("poly select", ctxmod(b"\x00" + push(I32) + b"\x1b" + push(t) + push(I32) + b"\x1b\x21\x00", [t2])))
            o.append(("poly block", ctxmod(b"\x00" + push(t) + b"\x02" + bytes([t2]) + b"\x0b\x1a")))
            o.append(("poly if", ctxmod(b"\x00" + push(I32) + b"\x04" + bytes([t2]) + push(t) + b"\x05" + push(t2) + b"\x0b\x1a")))
    for op in range(0x100):
        # opcodes without a meaning
        if op in (0x06, 0x07, 0x09, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1d, 0x1e, 0x27) or \
           0xc5 <= op < 0xd0 or op in range(0xd3, 0xfc) or op == 0xff:
            o.append(("opcode %x" % op, ctxmod(b"\x00" + bytes([op]))))
    for pre, rg in ((0xfc, range(18, 40)), (0xfd, sorted(mods.simd.HOLES) + list(range(256, 280)) + [14]),
                    (0xfe, list(range(4, 16)) + list(range(79, 90)))):
        for n in rg:
            o.append(("opcode %x %x" % (pre, n), ctxmod(b"\x00" + bytes([pre]) + u(n) + b"\x00\x00")))
    return o


def immediates(r):
    o = []
    for pre, al, exact, p, q, lanes in mods.memops():
        ok = b"".join(push(t) for t in p)
        for a in {0, max(0, al - 1), al, al + 1, 5, 31, 32}:
            for mi in ((None,) if a != al else (None, 0, 1, 2)):
                for ln in ((b"\x00",) if lanes is None or a != al or mi is not None else
                           (b"\x00", bytes([lanes - 1]), bytes([lanes]), b"\xff")):
                    o.append(("%s align %d mem %s lane %s" % (pre.hex(), a, mi, ln.hex()), ctxmod(
                        ok + pre + (u(a) if mi is None else u(a | 0x40) + u(mi)) + u(0xffffffff) +
                        (ln if lanes else b""), (), q)))
        # without memory
        m = Module()
        m.func((), q, (), ok + pre + u(al) + b"\x00" + (b"\x00" if lanes else b"") + b"\x0b")
        o.append((pre.hex() + " no memory", m.encode()))
    for n, k in mods.simd.LANES.items():
        p, q = mods.simd.sig(n)
        for ln in (0, k - 1, k, 31, 255):
            o.append(("fd%x lane %d" % (n, ln), ctxmod(
                b"".join(push(t) for t in p) + b"\xfd" + u(n) + bytes([ln]), (), [q])))
    for i in range(16):
        for x in (31, 32, 255):
            o.append(("shuffle", ctxmod(push(V128) * 2 + b"\xfd\x0d" + bytes(x if j == i else j * 2
                                                                             for j in range(16)), (), [V128])))
    return o


class R:
    """a module with two of everything; bodies and sections are varied"""

    def __init__(self):
        m = self.m = Module()
        m.type((), ())
        m.type((I32,), (I64,))
        m.imp_func("a", "f", (I32,), (I64,))
        m.imp_global("a", "g", I32, 0)
        m.imp_global("a", "gm", I32, 1)
        m.imp_global("a", "gf", FUNCREF, 0)
        m.func((), (), (), b"\x0b")
        m.mem(1)
        m.mem(2, 5)
        m.table(FUNCREF, 5)
        m.table(EXTERNREF, 5)
        m.tag((I32,))
        m.tag((I64, F64))          # the largest an exception can be
        m.glob(I32, 1, const(I32, 0))
        m.glob(F64, 0, const(F64, 0))
        m.datas += [data_passive(b"abc"), data_passive(b"x")]
        m.datacount = 2
        m.elems += [elem_passive([0]), elem_passive_expr([b"\xd0\x6f"], EXTERNREF), elem_decl([1])]

    def body(self, b, p=(), q=()):
        self.m.func(p, q, (), b + b"\x0b")
        return self.m.encode()


def rules(r):
    o = []

    def add(d, f):
        x = R()
        b = f(x)
        o.append((d, b if isinstance(b, bytes) else x.m.encode()))
    B = (0, 1, 2, 3, 4, 5, 6, 127, 0xffffffff)
    P = push(I32)
    for i in B:
        U = u(i)
        add("call %d" % i, lambda x: x.body(P + b"\x10" + U + b"\x00"))
        add("call0 %d" % i, lambda x: x.body(b"\x10" + U))
        add("return_call %d" % i, lambda x: x.body(P + b"\x12" + U))
        add("return_call r %d" % i, lambda x: x.body(P + b"\x12" + U, (), (I64,)))
        add("ref.func %d" % i, lambda x: x.body(b"\xd2" + U + b"\x1a"))
        for t in (0, 1, 2, 3):
            add("call_indirect %d %d" % (t, i), lambda x: x.body(P + P + b"\x11" + u(t) + U + b"\x00"))
            add("return_call_indirect %d %d" % (t, i), lambda x: x.body(
                P + P + b"\x13" + u(t) + U, (), (I64,)))
        for nm, op in (("get", b"\x25"), ("size", b"\xfc\x10")):
            add("table.%s %d" % (nm, i), lambda x: x.body((P if nm == "get" else b"") + op + U + b"\x1a"))
        for t in (FUNCREF, EXTERNREF):
            N = b"\xd0" + bytes([t])
            add("table.set %d" % i, lambda x: x.body(P + N + b"\x26" + U))
            add("table.grow %d" % i, lambda x: x.body(N + P + b"\xfc\x0f" + U + b"\x1a"))
            add("table.fill %d" % i, lambda x: x.body(P + N + P + b"\xfc\x11" + U))
            add("table.get r %d" % i, lambda x: x.body(P + b"\x25" + U, (), (t,)))
        for j in (0, 1, 2, 3):
            add("table.copy %d %d" % (i, j), lambda x: x.body(P * 3 + b"\xfc\x0e" + U + u(j)))
            add("table.init %d %d" % (i, j), lambda x: x.body(P * 3 + b"\xfc\x0c" + U + u(j)))
            add("memory.copy %d %d" % (i, j), lambda x: x.body(P * 3 + b"\xfc\x0a" + U + u(j)))
            add("memory.init %d %d" % (i, j), lambda x: x.body(P * 3 + b"\xfc\x08" + U + u(j)))
        add("elem.drop %d" % i, lambda x: x.body(b"\xfc\x0d" + U))
        add("data.drop %d" % i, lambda x: x.body(b"\xfc\x09" + U))
        add("memory.fill %d" % i, lambda x: x.body(P * 3 + b"\xfc\x0b" + U))
        add("memory.size %d" % i, lambda x: x.body(b"\x3f" + U + b"\x1a"))
        add("memory.grow %d" % i, lambda x: x.body(P + b"\x40" + U + b"\x1a"))
        add("global.get %d" % i, lambda x: x.body(b"\x23" + U + b"\x1a"))
        for t in (I32, F64, FUNCREF):
            add("global.set %d" % i, lambda x: x.body(push(t) + b"\x24" + U))
            add("global.get %d" % i, lambda x: x.body(b"\x23" + U, (), (t,)))
        add("throw %d" % i, lambda x: x.body(P + b"\x08" + U))
        add("throw1 %d" % i, lambda x: x.body(push(I64) + push(F64) + b"\x08" + U))
        add("br %d" % i, lambda x: x.body(b"\x02\x40\x0c" + U + b"\x0b"))
        add("br_if %d" % i, lambda x: x.body(b"\x02\x7f" + P + P + b"\x0d" + U + b"\x0b\x1a"))
        add("br_table %d" % i, lambda x: x.body(b"\x02\x40\x02\x40" + P + b"\x0e\x02\x00" + U + b"\x01\x0b\x0b"))
        add("br_table d %d" % i, lambda x: x.body(b"\x02\x40\x02\x40" + P + b"\x0e\x01\x00" + U + b"\x0b\x0b"))
        add("local.get %d" % i, lambda x: x.body(b"\x20" + U + b"\x1a", (I32, I64, F32)))
        add("local.set %d" % i, lambda x: x.body(P + b"\x21" + U, (I32, I32)))
        add("local.tee %d" % i, lambda x: x.body(P + b"\x22" + U + b"\x1a", (I32,)))
        add("start %d" % i, lambda x: setattr(x.m, "start", i))
        for p, q in (((I32,), ()), ((), (I32,)), ((), (I64, F32)), ((), ())):
            add("start %d %s %s" % (i, p, q), lambda x: (x.m.func(p, q, (), b"\x00\x0b"), setattr(x.m, "start", i))[1])
        for k in range(6):
            add("export %d %d" % (k, i), lambda x: x.m.export("e", k, i))
        add("func type %d" % i, lambda x: (x.m.funcs.append(i), x.m.codes.append(([], b"\x00\x0b")), None)[2])
        add("import func type %d" % i, lambda x: x.m.imports.append(("a", "b", b"\x00" + U)))
        add("import tag type %d" % i, lambda x: x.m.imports.append(("a", "b", b"\x04\x00" + U)))
        add("tag type %d" % i, lambda x: x.m.tags.append(b"\x00" + U))
        for e in (b"\x00", b"\x01", b"\x02"):
            add("tag attr", lambda x: x.m.tags.append(e + U))
        add("elem active %d" % i, lambda x: x.m.elems.append(b"\x02" + U + P + b"\x0b\x00\x01\x00"))
        add("elem func %d" % i, lambda x: x.m.elems.append(elem_passive([i])))
        add("elem expr func %d" % i, lambda x: x.m.elems.append(elem_passive_expr([b"\xd2" + U])))
        add("data active %d" % i, lambda x: (x.m.datas.append(b"\x02" + U + P + b"\x0b\x01z"),
                                             setattr(x.m, "datacount", 3))[1])
        add("datacount %d" % i, lambda x: setattr(x.m, "datacount", i))
        add("block type %d" % i, lambda x: x.body(P + b"\x02" + sleb(i) + b"\x00\x0b\x00"))
        for k in (0, 1, 2, 3):
            add("catch %d tag %d" % (k, i), lambda x: x.body(
                b"\x02\x40\x1f\x40\x01" + bytes([k]) + (U if k < 2 else b"") + b"\x00\x0b\x0b"))
            for bt in (b"\x7f", b"\x69", b"\x7e"):
                add("catch %d tag %d" % (k, i), lambda x: x.body(
                    b"\x02" + bt + b"\x1f\x40\x01" + bytes([k]) + (U if k < 2 else b"") + b"\x00\x0b" +
                    b"\x00\x0b\x1a"))
            add("catch label %d" % i, lambda x: x.body(
                b"\x02\x40\x1f\x40\x01\x02" + U + b"\x0b\x0b"))
    # labels of one br_table, catch clauses and their labels, functions called last
    L = ((), (I32,), (I64,), (I32, I32), (I32, I64), (FUNCREF, I32))
    for a in L:
        for b in L:
            v = b"".join(push(t) for t in a)
            w = b"".join(push(t) for t in b)
            for pre in (v, b"\x00", b"\x00" + v, b"\x00" + v[-5:]):
                add("br_table %s %s" % (a, b), lambda x: x.body(
                    b"\x02" + sleb(x.m.type((), a)) + b"\x02" + sleb(x.m.type((), b)) + pre + P +
                    b"\x0e\x02\x00\x00\x01\x0b\x00\x0b\x00"))
                add("br_if %s %s" % (a, b), lambda x: x.body(
                    b"\x02" + sleb(x.m.type((), b)) + pre + P + b"\x0d\x00" + r.choice([b"", b"\x00"]) + b"\x0b\x00"))
                # what a br_if leaves has the types of the label
                add("br_if then %s %s" % (a, b), lambda x: x.body(
                    b"\x02" + sleb(x.m.type((), b)) + pre + P + b"\x0d\x00" +
                    b"".join({I32: b"\x45\x1a", I64: b"\x50\x1a", FUNCREF: b"\xd1\x1a"}[t] for t in a[::-1]) +
                    b"\x00\x0b\x00"))
            add("if %s %s" % (a, b), lambda x: x.body(v + P + b"\x04" + sleb(x.m.type(a, b)) + b"\x00\x0b\x00"))
            add("if else %s %s" % (a, b), lambda x: x.body(v + P + b"\x04" + sleb(x.m.type(a, b)) + b"\x00\x05\x0b\x00"))
            add("block %s %s" % (a, b), lambda x: x.body(v + b"\x02" + sleb(x.m.type(a, b)) + b"\x0b\x00"))
            add("loop %s %s" % (a, b), lambda x: x.body(v + b"\x03" + sleb(x.m.type(a, b)) + w + b"\x0c\x00\x0b\x00"))
            add("return_call %s %s" % (a, b), lambda x: (
                x.m.func((), a, (), b"\x00\x0b"), x.body(b"\x12" + u(2), (), b))[1])
            add("return_call_indirect %s %s" % (a, b), lambda x: x.body(
                P + b"\x13" + u(x.m.type((), a)) + b"\x00", (), b))
            for k in range(4):
                for under in (b"", v):
                    add("catch %d %s %s" % (k, a, b), lambda x: (x.m.tag(a), x.body(
                        b"\x02" + sleb(x.m.type((), b)) + under + b"\x1f\x40\x01" + bytes([k]) + (u(2) if k < 2 else b"") +
                        b"\x00\x0b\x00\x0b\x00"))[1])
                    add("catch %d %s %s ref" % (k, a, b), lambda x: (x.m.tag(a), x.body(
                        b"\x02" + sleb(x.m.type((), b + (EXNREF,))) + under + b"\x1f\x40\x01" + bytes([k]) +
                        (u(2) if k < 2 else b"") + b"\x00\x0b\x00\x0b\x00"))[1])
    # code after the end of a path, again ended
    for a in (b"\x00", b"\x0f", b"\x0c\x00", P + b"\x0e\x00\x00", b"\x12\x01"):
        for c in (b"", P, P + P, push(I64)):
            for b in (b"\x00", b"\x0f", b"\x0c\x00", P + b"\x0e\x00\x00", b"\x12\x01", b"\x01", b"\x1a"):
                add("ended twice", lambda x: x.body(a + c + b))
                add("ended twice", lambda x: x.body(a + c + b + b"\x1a"))
                add("ended twice", lambda x: x.body(b"\x02\x40" + a + c + b + b"\x0b"))
                add("ended twice", lambda x: x.body(a + b"\x02\x40" + c + b + b"\x0b" + c + b))
    # a function without datacount section
    add("no datacount", lambda x: (setattr(x.m, "datacount", None), x.body(P * 3 + b"\xfc\x08\x00\x00"))[1])
    add("no datacount", lambda x: (setattr(x.m, "datacount", None), x.body(b"\xfc\x09\x00"))[1])
    add("no datacount", lambda x: setattr(x.m, "datacount", None))
    add("undeclared ref.func", lambda x: (x.m.elems.pop(), x.body(b"\xd2\x01\x1a"))[1])
    add("declared by export", lambda x: (x.m.elems.pop(), x.m.export("z", 0, 1), x.body(b"\xd2\x01\x1a"))[2])
    add("declared by global", lambda x: (x.m.elems.pop(), x.m.glob(FUNCREF, 0, b"\xd2\x01"),
                                         x.body(b"\xd2\x01\x1a"))[2])
    add("self declared", lambda x: x.body(b"\xd2\x02\x1a"))
    for a in ("e", "f", "memory"):
        add("export twice", lambda x: (x.m.export("e", 0, 0), x.m.export(a, 2, 0), None)[2])
    # constant expressions, for globals of every type, offsets, elements
    ce = [(t, push(t)) for t in VT] + [
        (None, b"\x23\x00"), (None, b"\x23\x01"), (None, b"\x23\x02"), (None, b"\x23\x03"), (None, b"\x23\x04"),
        (None, b"\x23\x05"), (None, b"\xd2\x00"), (None, b"\xd2\x01"), (None, b"\xd2\x02"),
        (None, P + P + b"\x6a"), (None, P + P + b"\x6b"), (None, P + P + b"\x6c"), (None, P + P + b"\x6d"),
        (None, P + P + b"\x71"), (None, push(I64) * 2 + b"\x7c"), (None, push(I64) * 2 + b"\x7d"),
        (None, push(I64) * 2 + b"\x7e"), (None, push(I64) * 2 + b"\x7f"), (None, P + b"\x45"),
        (None, b""), (None, P + P), (None, P + b"\x1a"), (None, P + b"\x01"), (None, b"\x00"), (None, b"\x01" + P),
        (None, P + b"\x23\x00\x6a"), (None, b"\x23\x00\x23\x01\x6a"), (None, push(F32) * 2 + b"\x92"),
        (None, P + b"\x6a"), (None, P + push(I64) + b"\x6a"), (None, b"\x02\x7f" + P + b"\x0b"),
        (None, P + b"\x0f"), (None, P + b"\x67"), (None, b"\x10\x00"), (None, P + b"\x28\x00\x00"),
        (None, b"\x20\x00"), (None, P + P + b"\x6a" + P + b"\x6c" + b"\x23\x00\x6b"), (None, b"\x3f\x00")]
    for _, e in ce:
        for t in VT:
            add("global init %x %s" % (t, e.hex()), lambda x: (x.m.glob(t, 0, e), None)[1])
        for n in (0, 1, 2):
            add("elem offset %s" % e.hex(), lambda x: x.m.elems.append(
                b"\x06" + u(n) + e + b"\x0b" + (b"\x6f" if n == 1 else b"\x70") + b"\x00"))
        add("elem offset0 %s" % e.hex(), lambda x: x.m.elems.append(elem_active(e, [0])))
        add("data offset %s" % e.hex(), lambda x: (x.m.datas.append(data_active(e, b"z")),
                                                   setattr(x.m, "datacount", 3))[1])
        for et in (FUNCREF, EXTERNREF, EXNREF, I32):
            add("elem expr %x %s" % (et, e.hex()), lambda x: x.m.elems.append(elem_passive_expr([e], et)))
        add("elem expr4 %s" % e.hex(), lambda x: x.m.elems.append(elem_active_expr(P, [e])))
    # a global may refer only to imported ones; tables and elements of different type
    for ti in (0, 1):
        for et in (FUNCREF, EXTERNREF):
            add("elem table type", lambda x: x.m.elems.append(
                elem_active_expr(P, [b"\xd0" + bytes([et])], ti, et)))
            add("elem table type", lambda x: x.m.elems.append(elem_active_expr(P, [], ti, et)))
        add("elem table func", lambda x: x.m.elems.append(b"\x02" + u(ti) + P + b"\x0b\x00\x00"))
    # limits
    big = [0, 1, 2, 65535, 65536, 65537, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]
    for mn in big:
        for mx in [None] + big:
            for sh in (False, True):
                for ps in (None, 0, 16, 1, 15, 17, 31, 32):
                    if ps in (1, 15, 17, 31, 32) and (mn > 2 or sh):
                        continue
                    if r.random() < .5:
                        m = Module()
                        m.mem(mn, mx, sh, ps)
                        o.append(("memory %s %s %s %s" % (mn, mx, sh, ps), m.encode()))
                    else:
                        m = Module()
                        m.imp_mem("a", "m", limits(mn, mx, sh, ps))
                        o.append(("import memory %s %s %s %s" % (mn, mx, sh, ps), m.encode()))
            for sh, ps in ((False, None), (True, None), (False, 0), (False, 16)):
                if (sh or ps is not None) and r.random() < .8:
                    continue
                m = Module()
                l = bytes([r.choice([FUNCREF, EXTERNREF])]) + limits(mn, mx, sh, ps)
                if mn < 100 and r.random() < .7:
                    m.tables.append(l)
                else:
                    m.imports.append(("a", "t", b"\x01" + l))
                o.append(("table %s %s %s %s" % (mn, mx, sh, ps), m.encode()))
    for f in range(256):
        m = Module()
        m.mems.append(bytes([f, 1, 2, 0]))
        o.append(("limits flag %x" % f, m.encode()))
        m = Module()
        m.mems.append(bytes([f, 1]))
        o.append(("limits flag %x" % f, m.encode()))
        m = Module()
        m.tables.append(bytes([FUNCREF, f, 1, 2]))
        o.append(("table limits flag %x" % f, m.encode()))
        for k, d in ((4, bytes([f, 0, 1])), (6, bytes([f, 0]) + P + b"\x0b"), (2, b"\x01a\x01b\x03" + bytes([f, 0])),
                     (1, b"\x60\x01" + bytes([f]) + b"\x00"), (2, b"\x01a\x01b" + bytes([f]) + b"\x7f\x00"),
                     (2, b"\x01a\x01b\x03\x7f" + bytes([f])), (6, bytes([I32, f]) + P + b"\x0b")):
            o.append(("byte %x in %d" % (f, k), b"\0asm\x01\0\0\0" + bytes([k, len(d) + 1, 1]) + d))
        m = Module()
        m.func((), (), b"\x01\x01" + bytes([f]), b"\x0b")
        o.append(("local type %x" % f, m.encode()))
        m = Module()
        m.func((), (), (), b"\x00\x02" + bytes([f]) + b"\x00\x0b\x00\x0b")
        o.append(("block type %x" % f, m.encode()))
        m = Module()
        m.func((), (), (), b"\xd0" + bytes([f]) + b"\x1a\x0b")
        o.append(("ref.null %x" % f, m.encode()))
    return o


class Nest:
    """small random nests of blocks over a few types; mostly well typed: every
    step is wrong with a small probability"""
    TS = [I32, I64, FUNCREF, V128, EXNREF]

    def __init__(self, r):
        self.r = r
        m = self.m = Module()
        self.bts = [((), (), b"\x40")] + [((), (t,), bytes([t])) for t in (I32, I64, FUNCREF)]
        for p in ((), (I32,), (I64, I32), (V128,)):
            for q in ((), (I32,), (I32, I64), (I64, I32), (I32, EXNREF), (EXNREF,)):
                self.bts.append((p, q, sleb(m.type(p, q))))
        self.tags = [(m.tag(p), p) for p in ((), (I32,), (I64, I32))]
        self.err = r.choice([0, 0, .03, .08])
        self.lt = [I32, I64, V128]
        self.res = r.choice([(), (), (I32,), (I32, I64)])
        self.labels = [self.res]
        self.st, self.dead = [], False
        self.n = r.randrange(2, 25)
        b = self.seq(r.randrange(1, 8)) + self.want(self.res)
        m.func(self.lt[:2], self.res, self.lt[2:], b + b"\x0b")

    def wrong(self):
        return self.r.random() < self.err

    def push(self, t):
        if self.wrong():
            t = self.r.choice(self.TS)
        self.st.append(t)
        if t in self.lt and self.r.random() < .3:
            return b"\x20" + u(self.lt.index(t))
        return push(t)

    def want(self, ts, keep=False):
        """exactly ts on the stack (or on top of it with keep)"""
        ts = list(ts)
        b = b""
        if self.wrong():
            return b
        if not keep:
            while self.st and self.st != ts[:len(self.st)]:
                if self.dead and ts and self.st == ts[-len(self.st):]:
                    return b            # the rest comes from the polymorphic stack
                b += b"\x1a"
                self.st.pop()
            for t in ts[len(self.st):]:
                b += self.push(t)
        else:
            for k in range(min(len(ts), len(self.st)), -1, -1):
                if k == 0 or self.st[-k:] == ts[:k]:
                    for t in ts[k:]:
                        b += self.push(t)
                    break
        return b

    def pop(self, ts, rs=()):
        for _ in ts:
            if self.st:
                self.st.pop()
        self.st += list(rs)

    def label(self):
        n = len(self.labels)
        if self.wrong():
            return n + self.r.randrange(0, 2), ()
        i = self.r.randrange(n)
        return i, self.labels[n - 1 - i]

    def seq(self, n):
        r = self.r
        b = b""
        for _ in range(n):
            self.n -= 1
            if self.n < 0:
                break
            k = r.randrange(16)
            if k < 3:
                b += self.push(r.choice(self.TS))
            elif k == 3 and self.st:
                b += b"\x1a"
                self.st.pop()
            elif k == 4:
                p, q, op = r.choice([([I32, I32], [I32], b"\x6a"), ([I64], [I32], b"\xa7"),
                                     ([I32], [I64], b"\xac"), ([FUNCREF], [I32], b"\xd1"),
                                     ([EXNREF], [I32], b"\xd1"), ([V128], [V128], b"\xfd\x4d"),
                                     ([I32, I32, I32], [I32], b"\x1b"), ([V128, V128, I32], [V128], b"\x1b"),
                                     ([FUNCREF, FUNCREF, I32], [FUNCREF], b"\x1c\x01\x70"), ([], [], b"\x01")])
                if self.dead and r.random() < .4:
                    self.pop(p)
                else:
                    b += self.want(p, True)
                    self.pop(p)
                b += op
                self.st += q
            elif k == 5:
                i, ts = self.label()
                b += self.want(list(ts) + [I32], True) + b"\x0d" + u(i)
                self.pop([I32])
                if self.dead:
                    self.pop(ts, ts)
            elif k == 6 and r.random() < .4:
                c = r.randrange(6)
                if c == 0:
                    i, ts = self.label()
                    b += self.want(ts, True) + b"\x0c" + u(i)
                elif c == 1:
                    b += self.want(self.res, True) + b"\x0f"
                elif c == 2:
                    b += b"\x00"
                elif c == 3:
                    i, ts = self.label()
                    same = [j for j in range(len(self.labels)) if self.labels[-1 - j] == ts] or [i]
                    if self.dead:
                        same = [j for j in range(len(self.labels)) if len(self.labels[-1 - j]) == len(ts)] or [i]
                        b += b"".join(b"\x1a" for _ in self.st)
                        self.st = []
                        b += self.push(I32) if r.random() < .5 else b""
                    else:
                        b += self.want(list(ts) + [I32], True)
                    b += b"\x0e" + u(2) + u(r.choice(same)) + u(r.choice(same)) + u(i)
                elif c == 4:
                    i, ts = r.choice(self.tags)
                    b += self.want(ts, True) + b"\x08" + u(i)
                else:
                    b += self.want([EXNREF], True) + b"\x0a"
                self.st, self.dead = [], True
            elif k < 13 and len(self.labels) < 5:
                b += self.block()
            elif self.lt:
                i = r.randrange(len(self.lt) + (1 if self.wrong() else 0))
                t = self.lt[i] if i < len(self.lt) else I32
                c = r.randrange(3)
                if c == 0:
                    b += b"\x20" + u(i)
                    self.st.append(t)
                else:
                    b += self.want([t], True) + (b"\x21" if c == 1 else b"\x22") + u(i)
                    self.pop([t], [t] if c == 2 else [])
        return b

    def block(self):
        r = self.r
        op = r.choice([0x02, 0x02, 0x03, 0x04, 0x04, 0x1f])
        p, q, bt = r.choice(self.bts)
        b = self.want(list(p) + ([I32] if op == 4 else []), True)
        self.pop(p)
        if op == 4:
            self.pop([I32])
        b += bytes([op]) + bt
        if op == 0x1f:
            cs = []
            for _ in range(r.randrange(0, 4)):
                kk = r.randrange(4)
                i, tp = r.choice(self.tags)
                got = (tp if kk < 2 else ()) + ((EXNREF,) if kk in (1, 3) else ())
                fit = [j for j in range(len(self.labels)) if self.labels[-1 - j] == got]
                if not fit and not self.wrong():
                    continue
                lb = r.choice(fit) if fit else self.label()[0]
                cs.append(bytes([kk]) + (u(i) if kk < 2 else b"") + u(lb))
            b += u(len(cs)) + b"".join(cs)
        saved = self.st, self.dead
        self.labels.append(p if op == 3 else q)
        self.st, self.dead = list(p), False
        b += self.seq(r.randrange(0, 5)) + self.want(q)
        if op == 4 and (p != q or r.random() < .7) and not self.wrong():
            self.st, self.dead = list(p), False
            b += b"\x05" + self.seq(r.randrange(0, 5)) + self.want(q)
        self.labels.pop()
        self.st, self.dead = saved
        self.st += q
        return b + b"\x0b"


def ctrl(r):
    return Nest(r).m.encode()


SIMPLE = [b"\x1a", b"\x01", b"\x00", b"\x0f", b"\x1b", b"\x6a", b"\x7c", b"\x45", b"\xa7", b"\xac", b"\xd1",
          b"\x0b", b"\x05", b"\x0a"]


def mutate(r, m, f0):
    """one change in a function body of a random program"""
    k = r.randrange(len(m.codes))
    locs, body = m.codes[k]
    ins = mods.split(body)
    i = r.randrange(len(ins) - 1) if len(ins) > 1 else 0
    c = r.randrange(10)
    if c == 0:
        del ins[i]
    elif c == 1:
        ins.insert(i, r.choice(SIMPLE))
    elif c == 2:
        ins.insert(i, push(r.choice(VT)))
    elif c == 3:
        ins.insert(i, r.choice([b"\x20", b"\x21", b"\x22", b"\x23", b"\x24", b"\x0c", b"\x0d", b"\x10", b"\x12"]) +
                   u(r.randrange(0, 12)))
    elif c == 4 and i + 1 < len(ins) - 1:
        ins[i], ins[i + 1] = ins[i + 1], ins[i]
    elif c == 5:
        ins[i] = ins[r.randrange(len(ins) - 1)] if len(ins) > 1 else ins[i]
    elif c in (6, 7):
        # change an immediate
        j = [x for x in range(len(ins)) if len(ins[x]) > 1]
        if j:
            i = r.choice(j)
            x = bytearray(ins[i])
            p = r.randrange(1, len(x))
            x[p] = (x[p] + r.choice([1, 0xff, 2])) & 0x7f if x[p] < 0x80 else x[p] ^ 1
            ins[i] = bytes(x)
    elif c == 8 and locs:
        locs = list(locs)
        locs[r.randrange(len(locs))] = r.choice(VT)
    else:
        # change the declared type of the function
        p, q = m.types[m.funcs[k]]
        p, q = list(p), list(q)
        t = r.choice([p, q])
        if t and r.random() < .7:
            t[r.randrange(len(t))] = r.choice(VT)
        else:
            t.insert(r.randrange(len(t) + 1), r.choice(VT))
        m.funcs[k] = m.type(p, q)
    body = b"".join(ins)
    if not body.endswith(b"\x0b"):
        body += b"\x0b"
    m.codes[k] = (locs, body)
    return "mutation %d" % c


def run(ctx):
    r = progs.rng(ctx, 0)
    mods.run(ctx, typing(r) + immediates(r), what="instruction typing")
    mods.run(ctx, rules(r), what="module rule")
    o = []
    for i in range(ctx.n(7000, 100000)):
        o.append(("control", ctrl(progs.rng(ctx, i + 1))))
    for i in range(ctx.n(700, 10000)):
        r = progs.rng(ctx, -i - 1)
        p = gen.Prog(r, hosts=progs.HOSTS, size=(3, 14), nfuncs=(1, 3), exn=r.random() < .4,
                     profile=progs.EXN if r.random() < .4 else {})
        d = mutate(r, p.m, p.f0)
        o.append((d, p.m.encode()))
    mods.run(ctx, o, what="random module")
