"""Operand generators and the single instruction conformance run (C01, C02)."""
import json
import os
import struct
import tempfile

from . import build, drv, tlc, wasm
from .wasm import F32, F64, I32, I64

W = {I32: 4, F32: 4, I64: 8, F64: 8}


def sig(op):
    if op == 0x45:
        return (I32,), I32
    if 0x46 <= op <= 0x4f:
        return (I32, I32), I32
    if op == 0x50:
        return (I64,), I32
    if 0x51 <= op <= 0x5a:
        return (I64, I64), I32
    if 0x5b <= op <= 0x60:
        return (F32, F32), I32
    if 0x61 <= op <= 0x66:
        return (F64, F64), I32
    if 0x67 <= op <= 0x69:
        return (I32,), I32
    if 0x6a <= op <= 0x78:
        return (I32, I32), I32
    if 0x79 <= op <= 0x7b:
        return (I64,), I64
    if 0x7c <= op <= 0x8a:
        return (I64, I64), I64
    if 0x8b <= op <= 0x91:
        return (F32,), F32
    if 0x92 <= op <= 0x98:
        return (F32, F32), F32
    if 0x99 <= op <= 0x9f:
        return (F64,), F64
    if 0xa0 <= op <= 0xa6:
        return (F64, F64), F64
    conv = {0xa7: (I64, I32), 0xa8: (F32, I32), 0xa9: (F32, I32), 0xaa: (F64, I32),
            0xab: (F64, I32), 0xac: (I32, I64), 0xad: (I32, I64), 0xae: (F32, I64),
            0xaf: (F32, I64), 0xb0: (F64, I64), 0xb1: (F64, I64), 0xb2: (I32, F32),
            0xb3: (I32, F32), 0xb4: (I64, F32), 0xb5: (I64, F32), 0xb6: (F64, F32),
            0xb7: (I32, F64), 0xb8: (I32, F64), 0xb9: (I64, F64), 0xba: (I64, F64),
            0xbb: (F32, F64), 0xbc: (F32, I32), 0xbd: (F64, I64), 0xbe: (I32, F32),
            0xbf: (I64, F64), 0xc0: (I32, I32), 0xc1: (I32, I32), 0xc2: (I64, I64),
            0xc3: (I64, I64), 0xc4: (I64, I64),
            0xfc00: (F32, I32), 0xfc01: (F32, I32), 0xfc02: (F64, I32), 0xfc03: (F64, I32),
            0xfc04: (F32, I64), 0xfc05: (F32, I64), 0xfc06: (F64, I64), 0xfc07: (F64, I64)}
    if op in conv:
        a, r = conv[op]
        return (a,), r
    raise KeyError(op)


OPS = list(range(0x45, 0xc5)) + list(range(0xfc00, 0xfc08))
INT_OPS = ([o for o in OPS if all(t in (I32, I64) for t in sig(o)[0]) and sig(o)[1] in (I32, I64)]
           + [0xa8, 0xa9, 0xaa, 0xab, 0xae, 0xaf, 0xb0, 0xb1, 0xbc, 0xbd, 0xbe, 0xbf]
           + list(range(0xfc00, 0xfc08)))
FLT_OPS = [o for o in OPS if o not in INT_OPS]


def enc(op):
    return bytes([op]) if op < 0x100 else b"\xfc" + wasm.u(op & 0xff)


def ints(bits):
    m = (1 << bits) - 1
    v = {0, 1, 2, 3, 5, 7, 10, 100, 12345, m, m - 1, m - 2, m - 6}
    for k in range(bits):
        if bits == 32 or k < 9 or k > 54 or 28 <= k <= 35 or k in (15, 16, 17, 47, 48):
            v |= {1 << k, (1 << k) - 1, (1 << k) + 1, m ^ (1 << k), m - (1 << k)}
    v |= {0x55555555 & m, 0xaaaaaaaa & m, 0x0123456789abcdef & m, 0xfedcba9876543210 & m,
          0xff00ff00ff00ff00 & m, 0x80808080, 0x7f7f7f7f, 0x000080ff, 0xffff7fff}
    return sorted(x & m for x in v)


def f32s():
    v = [0, 1, 2, 3, 0x7fffff, 0x7ffffe, 0x400000, 0x800000, 0x800001, 0xffffff, 0x1000000,
         0x3f800000, 0x3f7fffff, 0x3f800001, 0x3f000000, 0x3effffff, 0x3f000001, 0x3fc00000,
         0x40000000, 0x40200000, 0x40600000, 0x40400000, 0x40490fdb, 0x3eaaaaab, 0x3dcccccd,
         0x4afffffe, 0x4affffff, 0x4b000000, 0x4b000001, 0x4b7fffff, 0x4b800000, 0x4b800001,
         0x4a800001, 0x4a7fffff,
         0x4effffff, 0x4f000000, 0x4f000001, 0x4f7fffff, 0x4f800000, 0x4f800001,
         0x5effffff, 0x5f000000, 0x5f000001, 0x5f7fffff, 0x5f800000, 0x5f800001,
         0x7f000000, 0x7e800000, 0x7f7fffff, 0x7f7ffffe, 0x7f800000,
         0x7fc00000, 0x7fc00001, 0x7fe00000, 0x7fffffff, 0x7f800001, 0x7fa00000, 0x7fbfffff,
         0x33800000, 0x33800001, 0x34000000, 0x1f800000, 0x20000000, 0x5f3759df, 0x42280000]
    return sorted(set(v + [x | 0x80000000 for x in v]))


def f64s():
    v = [0, 1, 2, 0xfffffffffffff, 0x8000000000000, 0x10000000000000, 0x10000000000001,
         0x3ff0000000000000, 0x3fefffffffffffff, 0x3ff0000000000001, 0x3fe0000000000000,
         0x3fdfffffffffffff, 0x3fe0000000000001, 0x3ff8000000000000, 0x4000000000000000,
         0x4004000000000000, 0x400c000000000000, 0x400921fb54442d18, 0x3fd5555555555555,
         0x3fb999999999999a,
         0x41dfffffffc00000, 0x41dfffffffe00000, 0x41dfffffffffffff, 0x41e0000000000000,
         0x41e0000000100000, 0x41e0000000200000, 0x41efffffffe00000, 0x41efffffffffffff,
         0x41f0000000000000, 0x41f0000000100000,
         0x43dfffffffffffff, 0x43e0000000000000, 0x43e0000000000001, 0x43efffffffffffff,
         0x43f0000000000000, 0x43f0000000000001,
         0x432fffffffffffff, 0x4330000000000000, 0x4330000000000001, 0x433fffffffffffff,
         0x4340000000000000, 0x4340000000000001, 0x4320000000000001, 0x431fffffffffffff,
         0x7fe0000000000000, 0x7fefffffffffffff, 0x7feffffffffffffe, 0x7ff0000000000000,
         0x7ff8000000000000, 0x7ff8000000000001, 0x7ffc000000000000, 0x7fffffffffffffff,
         0x7ff0000000000001, 0x7ff4000000000000, 0x7ff7ffffffffffff, 0x7ff0000020000000,
         # around the f32 range: overflow, subnormal and halfway cases
         0x47efffffe0000000, 0x47efffffefffffff, 0x47effffff0000000, 0x47effffff0000001,
         0x47f0000000000000, 0x3810000000000000, 0x380fffffffffffff, 0x380fffffe0000000,
         0x36a0000000000000, 0x3690000000000000, 0x3690000000000001, 0x368fffffffffffff,
         0x36afffffffffffff, 0x3ff0000010000000, 0x3ff0000030000000, 0x3ff0000010000001,
         0x3ff000000fffffff, 0x36b8000000000000, 0x3ca0000000000000, 0x3ca0000000000001,
         0x1ff0000000000000, 0x2000000000000000, 0x5fe0000000000000]
    return sorted(set(v + [x | 0x8000000000000000 for x in v]))


BOUND = {I32: ints(32), I64: ints(64), F32: f32s(), F64: f64s()}


CORE = {
    I32: [0, 1, 2, 3, 7, 31, 32, 33, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff,
          0xfffffffe, 0xfffffff9, 0x10000, 0xffff],
    I64: [0, 1, 2, 7, 31, 32, 63, 64, 65, (1 << 63) - 1, 1 << 63, (1 << 63) + 1,
          (1 << 64) - 1, (1 << 64) - 2, (1 << 64) - 7, 1 << 32, (1 << 32) - 1, 1 << 31,
          0xffffffff80000000],
    F32: [0, 1, 0x7fffff, 0x800000, 0x3f800000, 0x3f800001, 0x40000000, 0x7f7fffff, 0x7f800000,
          0x7fc00000, 0x7fc00001, 0x7fa00000],
    F64: [0, 1, 0xfffffffffffff, 0x10000000000000, 0x3ff0000000000000, 0x3ff0000000000001,
          0x4000000000000000, 0x7fefffffffffffff, 0x7ff0000000000000, 0x7ff8000000000000,
          0x7ff8000000000001, 0x7ff4000000000000],
}
CORE[F32] += [x | 1 << 31 for x in CORE[F32]]
CORE[F64] += [x | 1 << 63 for x in CORE[F64]]


def rnd(rng, t):
    if t in (I32, I64):
        b = 8 * W[t]
        k = rng.random()
        if k < .3:
            return rng.getrandbits(b)
        if k < .6:
            return rng.getrandbits(rng.randrange(1, b + 1))
        if k < .8:
            return (-rng.getrandbits(rng.randrange(1, b + 1))) & ((1 << b) - 1)
        return rng.choice(BOUND[t])
    eb, mb = (8, 23) if t == F32 else (11, 52)
    bias = (1 << eb - 1) - 1
    k = rng.random()
    s = rng.getrandbits(1)
    if k < .25:
        return rng.getrandbits(8 * W[t])
    if k < .4:
        return rng.choice(BOUND[t])
    # exponents clustered around 1, and mantissas with few set bits
    e = bias + rng.randrange(-70, 71) if k < .8 else rng.choice(
        [0, 1, 2, mb, mb + 1, 2 * bias, 2 * bias - 1, bias + mb, bias + mb - 1, bias // 2])
    q = rng.random()
    if q < .4:
        m = rng.getrandbits(mb)
    elif q < .7:
        m = 0
        for _ in range(rng.randrange(0, 4)):
            m |= 1 << rng.randrange(mb)
    else:
        m = ((1 << mb) - 1) ^ (rng.getrandbits(rng.randrange(1, mb + 1)))
    return s << (eb + mb) | e << mb | m


def near(rng, t, x):
    """an operand close to x (for add/sub/compare/div)"""
    m = (1 << 8 * W[t]) - 1
    return (x + rng.randrange(-3, 4)) & m if rng.random() < .5 else \
        x ^ (1 << (8 * W[t] - 1))


def module():
    m = wasm.Module()
    for i, op in enumerate(OPS):
        p, r = sig(op)
        body = b"".join(b"\x20" + wasm.u(k) for k in range(len(p))) + enc(op) + b"\x0b"
        m.func(p, (r,), (), body, "f%d" % i)
    return m.encode()


CFG = "SPECIFICATION Spec\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n"


def cases(rng, op, n):
    p, _ = sig(op)
    seen = set()
    out = []

    def add(c):
        if c not in seen:
            seen.add(c)
            out.append(c)
    if len(p) == 1:
        for x in BOUND[p[0]]:
            add((x,))
        while len(out) < max(n, len(BOUND[p[0]])):
            add((rnd(rng, p[0]),))
        return out
    b = BOUND[p[0]]
    for x in CORE[p[0]]:
        for y in CORE[p[1]]:
            add((x, y))
    n += len(out)
    allp = len(b) * len(b)
    for _ in range(min(n // 2, allp)):
        add((rng.choice(b), rng.choice(b)))
    tries = 0
    while len(out) < n and tries < 10 * n:
        tries += 1
        x = rnd(rng, p[0])
        y = rnd(rng, p[1]) if rng.random() < .8 else near(rng, p[0], x)
        if rng.random() < .5:
            x, y = y, x
        add((x, y))
    return out


def events_to_records(op, cs, evs):
    p, r = sig(op)
    rets = [e for e in evs if e["e"] in ("ret", "crash", "hang")]
    for c, e in zip(cs, rets):
        a = [list(x.to_bytes(W[t], "little")) for x, t in zip(c, p)]
        if e["e"] == "ret" and e["r"] == "ok" and len(e["v"]) == 1 and e["v"][0][0] == r:
            yield {"op": op, "a": a, "r": e["v"][0][1], "t": -1}
        elif e["e"] == "ret" and e["r"] == "trap":
            yield {"op": op, "a": a, "r": [], "t": e["t"]}
        else:
            yield {"op": op, "a": a, "r": [], "t": 999}
        if e["e"] != "ret":
            return


def job_for(modhex, op, cs, opts):
    p, _ = sig(op)
    i = OPS.index(op)
    f = ("f%d" % i).encode().hex()
    lines = ["M 0 " + modhex, "I 0 0"]
    for c in cs:
        lines.append("C 0 %s %s" % (f, " ".join(wasm.val(t, x) for t, x in zip(p, c))))
    return drv.Job(lines, opts, op)


def validate(records, nproc=8, module="NumTrace"):
    """returns (bad records, results)"""
    keys = sorted({json.dumps(r, sort_keys=True) for r in records})
    n = min(nproc, len(keys) // 20 + 1)
    with tempfile.TemporaryDirectory(prefix="numtrace-") as td:
        files = []
        for k in range(n):
            f = os.path.join(td, "t%d.ndjson" % k)
            with open(f, "w") as fp:
                fp.write("\n".join(keys[k::n]) + "\n")
            files.append(f)
        res = tlc.shards(module, CFG, files, nproc)
    bad = []
    for k, r in enumerate(res):
        for v in r.violations:
            bad.append(json.loads(keys[k::n][int(v["i"]) - 1]))
    return bad, res, len(keys)


def check(ctx, ops, nbin, nun):
    modes = [("rel", {}), ("dbg", {}), ("alt", {"jt": 0, "rc": 0, "lc": 0})] + \
        ([] if ctx.quick else [("big", {}), ("oth", {})])
    b = build.build([v for v, _ in modes])
    mh = module().hex()
    jobs = []
    for op in ops:
        cs = cases(ctx.rng, op, nbin if len(sig(op)[0]) == 2 else nun)
        # a crash must not hide later operands: small jobs
        for k in range(0, len(cs), 400):
            jobs.append((op, cs[k:k + 400]))
    recs = []
    where = {}
    for variant, opts in modes:
        js = [job_for(mh, op, cs, opts) for op, cs in jobs]
        evs, leaks = drv.run_jobs(os.path.join(b[variant]["bin"], "twdrv"), js, variant)
        for lk in leaks:
            ctx.violation("leak report (%s)" % variant, {"report": lk[-3000:]})
        for (op, cs), ev in zip(jobs, evs):
            for r in events_to_records(op, cs, ev):
                recs.append(r)
                where.setdefault(json.dumps(r, sort_keys=True), variant)
    ctx.log("%d executions of %d opcodes" % (len(recs), len(ops)))
    bad, res, distinct = validate(recs)
    ctx.add_tlc(res)
    ctx.traces += distinct
    ctx.extra.update({"executions": len(recs), "opcodes": len(ops)})
    for r in recs[:: max(1, len(recs) // 5)][:5]:
        ctx.sample(r)
    for r in bad[:5]:
        # confirm by running it again
        variant = where[json.dumps(r, sort_keys=True)]
        c = tuple(int.from_bytes(bytes(x), "little") for x in r["a"])
        opts = {"jt": 0, "rc": 0, "lc": 0} if variant == "alt" else {}
        j = job_for(mh, r["op"], [c], opts)
        evs, _ = drv.run_jobs(os.path.join(b[variant]["bin"], "twdrv"), [j], variant)
        again = list(events_to_records(r["op"], [c], evs[0]))
        bad2, _, _ = validate(again)
        if bad2:
            ctx.violation("opcode 0x%x operands %s gave %s trap %s" % (
                r["op"], r["a"], r["r"], r["t"]), {"record": r, "variant": variant})
        else:
            ctx.log("not repeated:", r)
