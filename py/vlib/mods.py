"""Modules as test inputs of the loader: instruction splitting, mutation, and
the acceptance run (every module is loaded; the specification says which are
to be accepted)."""
from . import nums, scen, simd
from .wasm import (EMPTY, EXNREF, EXTERNREF, F32, F64, FUNCREF, I32, I64, V128, const, u)

VT = [I32, I64, F32, F64, V128, FUNCREF, EXTERNREF, EXNREF]


def rd_u(b, i):
    x = s = 0
    while True:
        x |= (b[i] & 0x7f) << s
        s += 7
        i += 1
        if not b[i - 1] & 0x80:
            return x, i


def skip_leb(b, i):
    while b[i] & 0x80:
        i += 1
    return i + 1


def skip_memarg(b, i):
    f, i = rd_u(b, i)
    if f & 0x40:
        i = skip_leb(b, i)
    return skip_leb(b, i)


def insn_end(b, i):
    op = b[i]
    i += 1
    if op in (0x02, 0x03, 0x04, 0x1f):
        i = skip_leb(b, i)
        if op == 0x1f:
            n, i = rd_u(b, i)
            for _ in range(n):
                k = b[i]
                i += 1
                if k < 2:
                    i = skip_leb(b, i)
                i = skip_leb(b, i)
        return i
    if op in (0x0c, 0x0d, 0x08, 0x10, 0x12, 0xd2, 0xd0, 0x3f, 0x40, 0x41, 0x42) or 0x20 <= op <= 0x26:
        return skip_leb(b, i)
    if op in (0x11, 0x13):
        return skip_leb(b, skip_leb(b, i))
    if op == 0x0e:
        n, i = rd_u(b, i)
        for _ in range(n + 1):
            i = skip_leb(b, i)
        return i
    if op == 0x1c:
        n, i = rd_u(b, i)
        return i + n
    if 0x28 <= op <= 0x3e:
        return skip_memarg(b, i)
    if op == 0x43:
        return i + 4
    if op == 0x44:
        return i + 8
    if op == 0xfc:
        n, i = rd_u(b, i)
        for _ in range({8: 2, 9: 1, 10: 2, 11: 1, 12: 2, 13: 1, 14: 2, 15: 1, 16: 1, 17: 1}.get(n, 0)):
            i = skip_leb(b, i)
        return i
    if op == 0xfd:
        n, i = rd_u(b, i)
        if n in simd.MEM:
            i = skip_memarg(b, i)
            return i + (84 <= n <= 91)
        if n in (12, 13):
            return i + 16
        return i + (21 <= n <= 34)
    if op == 0xfe:
        n, i = rd_u(b, i)
        return i + 1 if n == 3 else skip_memarg(b, i)
    return i


def split(b):
    o, i = [], 0
    while i < len(b):
        j = insn_end(b, i)
        o.append(bytes(b[i:j]))
        i = j
    return o


def push(t):
    return const(t, 1) if t in (I32, I64, F32, F64, V128) else b"\xd0" + bytes([t])


NAT = {0x28: 2, 0x29: 3, 0x2a: 2, 0x2b: 3, 0x2c: 0, 0x2d: 0, 0x2e: 1, 0x2f: 1, 0x30: 0, 0x31: 0, 0x32: 1,
       0x33: 1, 0x34: 2, 0x35: 2, 0x36: 2, 0x37: 3, 0x38: 2, 0x39: 3, 0x3a: 0, 0x3b: 1, 0x3c: 0, 0x3d: 1,
       0x3e: 2}
LT = {0x28: I32, 0x29: I64, 0x2a: F32, 0x2b: F64, 0x2c: I32, 0x2d: I32, 0x2e: I32, 0x2f: I32, 0x30: I64,
      0x31: I64, 0x32: I64, 0x33: I64, 0x34: I64, 0x35: I64, 0x36: I32, 0x37: I64, 0x38: F32, 0x39: F64,
      0x3a: I32, 0x3b: I32, 0x3c: I64, 0x3d: I64, 0x3e: I64}
SNAT = {0: 4, 11: 4, 1: 3, 2: 3, 3: 3, 4: 3, 5: 3, 6: 3, 7: 0, 8: 1, 9: 2, 10: 3, 92: 2, 93: 3, 84: 0, 85: 1,
        86: 2, 87: 3, 88: 0, 89: 1, 90: 2, 91: 3}
ANAT = [2, 3, 0, 1, 0, 1, 2]
ATY = [I32, I64, I32, I32, I64, I64, I64]


def memops():
    """(prefix bytes, natural alignment, exact, params, results, lanes or None)"""
    o = []
    for op, al in NAT.items():
        t = LT[op]
        o.append((bytes([op]), al, False, *(([I32, t], []) if op >= 0x36 else ([I32], [t])), None))
    for n, al in SNAT.items():
        lanes = 16 >> al if 84 <= n <= 91 else None
        p, q = ([I32, V128], []) if n == 11 or n >= 88 and n < 92 else \
            ([I32, V128], [V128]) if 84 <= n < 88 else ([I32], [V128])
        o.append((b"\xfd" + u(n), al, False, p, q, lanes))
    for n in [0, 1, 2] + list(range(16, 79)):
        k = (n - 16) % 7
        t = ATY[k]
        p, q = {0: ([I32, I32], [I32]), 1: ([I32, I32, I64], [I32]), 2: ([I32, I64, I64], [I32])}.get(n) or \
            (([I32], [t]) if n < 23 else ([I32, t], []) if n < 30 else
             ([I32, t], [t]) if n < 72 else ([I32, t, t], [t]))
        al = 3 if n == 2 else 2 if n < 2 else ANAT[k]
        o.append((b"\xfe" + u(n), al, True, p, q, None))
    return o


def ops():
    """(name, encoding, params, results) of every instruction with a fixed type"""
    o = []
    for op in nums.OPS:
        p, q = nums.sig(op)
        o.append(("%x" % op, nums.enc(op), list(p), [q]))
    for n in simd.OPS:
        p, q = simd.sig(n)
        imm = bytes(16) if n in (12, 13) else b"\x00" if n in simd.LANES else b""
        o.append(("fd%x" % n, b"\xfd" + u(n) + imm, list(p), [q]))
    for pre, al, _, p, q, lanes in memops():
        o.append((pre.hex(), pre + u(al) + b"\x00" + (b"\x00" if lanes else b""), p, q))
    o.append(("fence", b"\xfe\x03\x00", [], []))
    for t in (I32, I64, F32, F64, V128):
        o.append(("const%x" % t, const(t, 1), [], [t]))
    return o


def run(ctx, mods, modes=scen.MODES, what="load", per=25, key=None):
    """mods: [(description, bytes)]"""
    ss = []
    for i in range(0, len(mods), per):
        s = scen.Scen(meta=[d for d, _ in mods[i:i + per]])
        for _, b in mods[i:i + per]:
            s.mod(b)
        ss.append(s)
    T, bad = scen.run(ctx, ss, modes, what=what, key=key)
    ok = sum(e["e"] == "load" and e["ok"] for t, _ in T.list for e in t["v"])
    ctx.log("%s: %d modules, %d accepted" % (what, len(mods), ok))
    ctx.extra["modules"] = ctx.extra.get("modules", 0) + len(mods)
    return T, bad
