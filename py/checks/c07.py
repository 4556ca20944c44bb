"""C07: exceptions."""
import itertools

from vlib import progs, scen
from vlib.wasm import EXNREF, F64, FUNCREF, I32, I64, V128, Module, const, elem_active, u

TAGS = [(), (I32,), (I64, I32), (V128,), (F64, I32)]
TARGETS = ["func", "loop", "block", "if", "else"]
THROWS = ["here", "call", "indirect", "deep", "again"]


def zero(r, t):
    return b"\xd0\x69" if t == EXNREF else const(t, r.getrandbits(50) if t != F64 else 0)


def fold(ts, acc, tmp):
    """the values ts go into local acc (i32)"""
    b = b""
    for t in reversed(ts):
        b += {I32: b"", I64: b"\x42\x07\x82\xa7", V128: b"\xfd\x1b\x02", F64: b"\xbd\x42\x15\x88\xa7",
              EXNREF: b"\xd1"}[t]
        b += b"\x21" + u(tmp) + b"\x20" + u(acc) + const(I32, 31) + b"\x6c\x20" + u(tmp) + b"\x6a\x21" + u(acc)
    return b


def shape(r, i, tag, kind, target, how):
    """where a clause goes to, from which depth, with which values"""
    m = Module()
    tags = [m.tag(TAGS[tag]), m.tag(())]
    tp = list(TAGS[tag])
    ts = (tp if kind < 2 else []) + ([EXNREF] if kind in (1, 3) else [])
    bt = lambda p, q: u(m.type(tuple(p), tuple(q)))
    junk = lambda: b"".join(zero(r, r.choice([I32, I64, V128])) for _ in range(r.randrange(3)))
    throw = b"".join(zero(r, t) for t in tp) + b"\x08" + u(tags[0])
    m.table(FUNCREF, 1)
    # 0: throws; 1: calls 0; 2: calls it as a tail, from a clause that does not apply
    m.func((I32,), (I32,), (V128, I64), junk() + throw + b"\x0b")
    m.func((I32,), (I32,), (I32, V128), junk() + b"\x02\x40\x1f\x40\x01\x00" + u(tags[1]) + u(0) +
           b"\x20\x00\x10\x00\x1a\x0b\x0b\x20\x00\x0f\x0b")
    m.func((I32,), (I32,), (), junk() + b"\x20\x00\x12\x01\x0b")
    m.elems.append(elem_active(const(I32, 0), [r.randrange(3)]))
    if how == "here":
        th = junk() + throw
    elif how == "call":
        th = junk() + const(I32, 5) + b"\x10" + u(r.randrange(3)) + b"\x1a\x00"
    elif how == "indirect":
        th = const(I32, 5) + const(I32, 0) + b"\x11" + u(m.type((I32,), (I32,))) + b"\x00\x1a"
    elif how == "deep":
        th = b"\x02\x40" + junk() + b"\x03\x40" + junk() + const(I32, 1) + b"\x04\x40" + throw + b"\x0b\x00\x0b\x00\x0b"
    else:       # thrown again by a handler inside
        th = b"\x02\x69\x1f\x40\x01\x03\x00" + throw + b"\x0b\x00\x0b\x0a"
    ws = [r.choice(["b", "l", "t"]) for _ in range(r.randrange(3))]      # what is between the target and try_table
    others = [bytes([0]) + u(tags[1]) + u(len(ws) + x) for x in range(1)] if not ts else []
    cl = [bytes([kind]) + (u(tags[0]) if kind < 2 else b"") + u(len(ws))]
    cl = others[:r.randrange(2)] + cl
    inner = b"\x1f\x40" + u(len(cl)) + b"".join(cl) + th + b"\x0b"
    for x, w in enumerate(ws):
        inner = junk() + {"b": b"\x02\x40", "l": b"\x03\x40", "t": b"\x1f\x40\x01\x00" + u(tags[1]) + u(0)
                          if (not ts or x + 1 < len(ws)) and r.randrange(2) else b"\x1f\x40\x00"}[w] + inner + b"\x00\x0b"
    inner = junk() + inner + b"\x00"
    A, N, T = 1, 0, 2       # locals: count, sum, scratch
    L = (I32, I32, V128)
    if target == "func":
        f = m.func((I32,), tuple(ts), L, inner + b"\x0b")
        body = junk() + b"\x20" + u(N) + b"\x10" + u(f) + fold(ts, A, T)
    elif target == "loop":
        # block; loop (ts): sum; count down; leave or throw
        body = junk() + b"\x02\x40" + b"".join(zero(r, t) for t in ts) + b"\x03" + bt(ts, ()) + fold(ts, A, T) + \
            b"\x20\x00\x45\x0d\x01\x20\x00" + const(I32, 1) + b"\x6b\x21\x00" + inner + b"\x0b\x0b"
    elif target == "block":
        body = junk() + b"\x02" + bt((), ts) + inner + b"\x0b" + fold(ts, A, T)
    else:
        o = b"".join(zero(r, t) for t in ts)
        body = junk() + b"\x20\x00" + const(I32, 1) + b"\x71\x04" + bt((), ts) + \
            (inner + b"\x05" + o if target == "if" else o + b"\x05" + inner) + b"\x0b" + fold(ts, A, T)
    m.func((I32,), (I32,), L, body + b"\x20\x01\x0f\x0b", "f")
    s = scen.Scen(meta="shape %d" % i)
    k = s.inst(s.mod(m), [])
    for n in (0, 1, 2, 5):
        s.call(k, "f", [(I32, n)])
    return s


def run(ctx):
    ss = []
    for i in range(ctx.n(260, 6000)):
        r = progs.rng(ctx, i)
        kw = {}
        if i % 4 == 0:
            kw["cbs"] = progs.CBS
            kw["sigs"] = progs.CBSIGS
        pr = dict(progs.EXN)
        if i % 3 == 0:
            pr.update({"num": 5, "mem": 1, "bulk": 0, "vec": 1, "try": 12, "throw": 7, "throw_ref": 4,
                       "call": 8})
        if i % 4 == 0:
            pr.update({"host": 10, "try": 12, "throw": 6})
        ss.append(progs.one(r, meta=i, exn=True, profile=pr, **kw))
    for i in range(ctx.n(120, 2500)):
        r = progs.rng(ctx, "l%d" % i)
        kw = {}
        pr = dict(progs.EXN)
        pr.update({"num": 5, "mem": 1, "bulk": 0, "vec": 1, "try": 12, "throw": 7, "throw_ref": 4,
                   "call": 10})
        if i % 4 == 0:
            kw = {"cbs": progs.CBS, "sigs": progs.CBSIGS}
            pr.update({"host": 12})
        ss.append(progs.linked(r, meta="l%d" % i, exn=True, profile=pr, **kw))
    for i, x in enumerate(itertools.product(range(len(TAGS)), range(4), TARGETS, THROWS)):
        for j in range(ctx.n(1, 6)):
            ss.append(shape(progs.rng(ctx, "s%d.%d" % (i, j)), i, *x))
    scen.run(ctx, ss, scen.MODES if ctx.quick else scen.MODES_MORE, what="program")
