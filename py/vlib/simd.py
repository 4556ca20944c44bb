"""Single v128 instruction conformance run (C03)."""
import json
import os

from . import build, drv, wasm
from .nums import BOUND, CORE, near, rnd, validate
from .wasm import F32, F64, I32, I64, V128

HOLES = {154, 162, 165, 166, 175, 176, 178, 179, 180, 187, 194, 197, 198, 207, 208, 210, 211,
         212, 226, 238}
UN = {77, 94, 95, 96, 97, 98, 103, 104, 105, 106, 116, 117, 122, 148, 124, 125, 126, 127,
      128, 129, 135, 136, 137, 138, 160, 161, 167, 168, 169, 170, 192, 193, 199, 200, 201, 202,
      224, 225, 227, 236, 237, 239} | set(range(248, 256))
TEST = {83, 99, 100, 131, 132, 163, 164, 195, 196}
SHIFT = {107, 108, 109, 139, 140, 141, 171, 172, 173, 203, 204, 205}
MEM = set(range(0, 12)) | set(range(84, 94))
LANES = {21: 16, 22: 16, 23: 16, 24: 8, 25: 8, 26: 8, 27: 4, 28: 4, 29: 2, 30: 2, 31: 4, 32: 4,
         33: 2, 34: 2}
LT = {21: I32, 22: I32, 23: I32, 24: I32, 25: I32, 26: I32, 27: I32, 28: I32, 29: I64, 30: I64,
      31: F32, 32: F32, 33: F64, 34: F64}
OPS = [n for n in range(12, 256) if n not in HOLES and n not in MEM]


def sig(n):
    if n in TEST:
        return (V128,), I32
    if n in SHIFT:
        return (V128, I32), V128
    if n in UN:
        return (V128,), V128
    if n == 82:
        return (V128,) * 3, V128
    if n == 12:
        return (), V128
    if 15 <= n <= 20:
        return ((I32, I32, I32, I64, F32, F64)[n - 15],), V128
    if n in LANES:
        return ((V128, LT[n]), V128) if n in (23, 26, 28, 30, 32, 34) else ((V128,), LT[n])
    return (V128, V128), V128


def lanekind(n):
    """operand lane type: 'b', 'h', I32, I64, F32 or F64"""
    if n in (94, 116, 117, 122, 148, 236, 237, 239, 252, 253) or 71 <= n <= 76 or 240 <= n <= 247 \
            or n in (20, 33, 34):
        return F64
    if n in (95, 103, 104, 105, 106, 224, 225, 227, 248, 249) or 65 <= n <= 70 \
            or 228 <= n <= 235 or n in (19, 31, 32):
        return F32
    if n in (250, 251, 254, 255) or 55 <= n <= 64:
        return I32
    if 214 <= n <= 219:
        return I64
    if 45 <= n <= 54:
        return "h"
    if 35 <= n <= 44 or n in (13, 14, 77, 78, 79, 80, 81, 82, 83):
        return "b"
    if n in (101, 102, 126, 127) or 167 <= n <= 170 or n in (186,) or 188 <= n <= 191:
        return "h"
    if n in (133, 134) or 199 <= n <= 202 or 220 <= n <= 223:
        return I32
    if 124 <= n <= 125 or 135 <= n <= 138 or 156 <= n <= 159:
        return "b"
    if 96 <= n <= 123:
        return "b"
    if 128 <= n <= 155:
        return "h"
    if 160 <= n <= 191:
        return I32
    if 192 <= n <= 223:
        return I64
    return "b"


WID = {"b": 1, "h": 2, I32: 4, I64: 8, F32: 4, F64: 8}
CO = dict(CORE)
CO["b"] = [0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 0x3f, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0xaa, 0xc0, 0xfe,
           0xff]
CO["h"] = [0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x4000, 0x5a5a, 0x7ffe, 0x7fff, 0x8000, 0x8001,
           0xff7f, 0xff80, 0xff00, 0xfffe, 0xffff]
CO[I32] = CORE[I32] + [0x7f, 0xff, 0x8000, 0x7fff, 0xffff8000, 0xffff7fff, 0x80008000]


def lane(rng, k):
    if k == "b":
        return rng.getrandbits(8) if rng.random() < .7 else rng.choice(CO["b"])
    if k == "h":
        return rng.getrandbits(16) if rng.random() < .6 else rng.choice(CO["h"])
    return rng.choice(BOUND[k]) if rng.random() < .4 else rnd(rng, k)


def pack(k, xs):
    return b"".join(x.to_bytes(WID[k], "little") for x in xs)


def vecs1(rng, k, n):
    L = 16 // WID[k]
    c = list(CO[k]) + (list(BOUND[k]) if k not in ("b", "h") else
                       (list(range(256)) if k == "b" else []))
    rng.shuffle(c)
    while len(c) % L:
        c.append(rng.choice(c))
    out = [pack(k, c[i:i + L]) for i in range(0, len(c), L)]
    out += [b"\0" * 16, b"\xff" * 16]
    for _ in range(16):   # one lane different
        b = bytearray(rng.choice([b"\0" * 16, b"\xff" * 16]))
        i = rng.randrange(16)
        b[i] = rng.choice([1, 0x80, 0x7f, 0, 0xfe])
        out.append(bytes(b))
    while len(out) < n:
        out.append(pack(k, [lane(rng, k) for _ in range(L)]))
    return out


def vecs2(rng, k, n):
    L = 16 // WID[k]
    c = CO[k]
    ps = [(x, y) for x in c for y in c]
    rng.shuffle(ps)
    while len(ps) % L:
        ps.append(rng.choice(ps))
    out = [(pack(k, [p[0] for p in ps[i:i + L]]), pack(k, [p[1] for p in ps[i:i + L]]))
           for i in range(0, len(ps), L)]
    m = len(out) + n
    while len(out) < m:
        a = [lane(rng, k) for _ in range(L)]
        b = [lane(rng, k) if rng.random() < .8 or k in ("b", "h") else near(rng, k, x) for x in a]
        out.append((pack(k, a), pack(k, b)))
    return out


def cases(rng, n, cnt):
    """[(immediate list, [operand bytes])]"""
    p, _ = sig(n)
    k = lanekind(n)
    if n == 12:
        return [(list(rng.randbytes(16)), []) for _ in range(6)]
    if n == 13:
        out = []
        for i in range(32):
            out.append((([(i + j) % 32 for j in range(16)]), [rng.randbytes(16), rng.randbytes(16)]))
        for _ in range(cnt // 4):
            out.append(([rng.randrange(32) for _ in range(16)], [rng.randbytes(16), rng.randbytes(16)]))
        return out
    if 15 <= n <= 20:
        t = p[0]
        w = WID[t]
        return [([0], [x.to_bytes(w, "little")]) for x in
                list(BOUND[t])[:: max(1, len(BOUND[t]) // 40)] + [rnd(rng, t) for _ in range(cnt // 4)]]
    if n in LANES:
        out = []
        kk = {16: "b", 8: "h", 4: I32, 2: I64}[LANES[n]]
        vs = vecs1(rng, kk, 40)
        for ln in range(LANES[n]):
            for _ in range(max(4, cnt // 2 // LANES[n])):
                a = [rng.choice(vs)]
                if len(p) == 2:
                    a.append(rnd(rng, p[1]).to_bytes(WID[p[1]], "little"))
                out.append(([ln], a))
        return out
    if len(p) == 1:
        return [([0], [v]) for v in vecs1(rng, k, cnt)]
    if n in SHIFT:
        w = 8 * WID[k]
        out = []
        vs = vecs1(rng, k, 30)
        for c in list(range(0, 2 * w + 2)) + [255, 256, 0x80000000, 0xffffffff] + \
                [rng.getrandbits(32) for _ in range(10)]:
            for _ in range(max(2, cnt // w // 2)):
                out.append(([0], [rng.choice(vs), (c & 0xffffffff).to_bytes(4, "little")]))
        return out
    if n == 82:
        return [([0], [rng.randbytes(16), rng.randbytes(16),
                       rng.choice([b"\0" * 16, b"\xff" * 16, rng.randbytes(16), rng.randbytes(16)])])
                for _ in range(cnt)]
    if n == 14:
        out = []
        for _ in range(cnt):
            out.append(([0], [rng.randbytes(16), bytes(rng.choice([rng.randrange(16), rng.randrange(14, 20),
                                                                    rng.randrange(256)]) for _ in range(16))]))
        return out
    return [([0], list(v)) for v in vecs2(rng, k, cnt)]


def enc(n, imm):
    b = b"\xfd" + wasm.u(n)
    if n in (12, 13):
        return b + bytes(imm)
    if n in LANES:
        return b + bytes(imm)
    return b


def body(n, imm):
    p, _ = sig(n)
    return b"".join(b"\x20" + wasm.u(k) for k in range(len(p))) + enc(n, imm) + b"\x0b"


def job_for(n, cs, opts):
    p, r = sig(n)
    m = wasm.Module()
    fn = {}
    lines = []
    for imm, a in cs:
        k = tuple(imm)
        if k not in fn:
            fn[k] = "f%d" % len(fn)
            m.func(p, (r,), (), body(n, imm), fn[k])
        lines.append(("C 0 %s " % fn[k].encode().hex()) + " ".join(
            "%02x:%s" % (t, x.hex()) for t, x in zip(p, a)))
    return drv.Job(["M 0 " + m.encode().hex(), "I 0 0"] + lines, opts, n)


def records(n, cs, evs):
    _, r = sig(n)
    rets = [e for e in evs if e["e"] in ("ret", "crash", "hang")]
    for (imm, a), e in zip(cs, rets):
        rec = {"op": n, "m": list(imm), "a": [list(x) for x in a], "r": [], "t": -1}
        if e["e"] == "ret" and e["r"] == "ok" and len(e["v"]) == 1 and e["v"][0][0] == r:
            rec["r"] = e["v"][0][1]
        elif e["e"] == "ret" and e["r"] == "trap":
            rec["t"] = e["t"]
        else:
            rec["t"] = 999
        yield rec
        if e["e"] != "ret":
            return


def check(ctx, ops, cnt):
    modes = [("rel", {}), ("dbg", {}), ("alt", {"jt": 0, "rc": 0, "lc": 0})] + \
        ([] if ctx.quick else [("big", {}), ("oth", {})])
    b = build.build([v for v, _ in modes])
    jobs = []
    for op in ops:
        cs = cases(ctx.rng, op, cnt)
        for k in range(0, len(cs), 400):
            jobs.append((op, cs[k:k + 400]))
    recs = []
    where = {}
    for variant, opts in modes:
        js = [job_for(op, cs, opts) for op, cs in jobs]
        evs, leaks = drv.run_jobs(os.path.join(b[variant]["bin"], "twdrv"), js, variant)
        for lk in leaks:
            ctx.violation("leak report (%s)" % variant, {"report": lk[-3000:]})
        for (op, cs), ev in zip(jobs, evs):
            got = 0
            for r in records(op, cs, ev):
                recs.append(r)
                got += 1
                where.setdefault(json.dumps(r, sort_keys=True), variant)
            if got != len(cs) and (not recs or recs[-1]["t"] != 999):
                ctx.violation("v128 opcode %d: module not usable" % op,
                              {"op": op, "variant": variant, "events": ev[:3]})
    ctx.log("%d executions of %d opcodes" % (len(recs), len(ops)))
    bad, res, distinct = validate(recs, module="SimdTrace")
    ctx.add_tlc(res)
    ctx.traces += distinct
    ctx.extra.update({"executions": len(recs), "opcodes": len(ops)})
    for r in recs[:: max(1, len(recs) // 5)][:5]:
        ctx.sample(r)
    for r in bad[:5]:
        variant = where[json.dumps(r, sort_keys=True)]
        opts = {"jt": 0, "rc": 0, "lc": 0} if variant == "alt" else {}
        cs = [(r["m"], [bytes(x) for x in r["a"]])]
        evs, _ = drv.run_jobs(os.path.join(b[variant]["bin"], "twdrv"),
                              [job_for(r["op"], cs, opts)], variant)
        again = list(records(r["op"], cs, evs[0]))
        bad2, _, _ = validate(again, module="SimdTrace")
        if bad2:
            ctx.violation("v128 opcode %d imm %s operands %s gave %s trap %s" % (
                r["op"], r["m"], r["a"], r["r"], r["t"]), {"record": r, "variant": variant})
        else:
            ctx.log("not repeated:", r)
