"""C13: atomic instructions, wait and notify."""
import struct

from vlib import build, progs, scen, thr, tlc, tr
from vlib.wasm import I32, I64, Module, const, u

TY = (I32, I64, I32, I32, I64, I64, I64)     # value type of n = 16 + 7 k + x
W = (4, 8, 1, 2, 1, 2, 4)


NOTHING = {"o": [], "bad": [0, 0, 0, 0]}


# ---------------------------------------------------------------- one thread
def walk(r, i):
    """random sequences of atomic instructions at every kind of address"""
    m = Module()
    ps = r.choice([None, None, 0])
    unit = 65536 if ps is None else 1
    mems = []
    for _ in range(r.choice([1, 1, 2])):
        mn = r.choice([1, 2]) if ps is None else r.choice([16, 40, 4096])
        m.mem(mn, mn + 4, r.random() < .6, ps)
        mems.append(mn * unit)
    ops = []
    for _ in range(40):
        k = r.choice([0, 1, 2, 3] + list(range(16, 79)) * 2)
        mi = r.randrange(len(mems))
        w = 4 if k in (0, 1) else 8 if k in (2, 3) else W[(k - 16) % 7]
        off = r.choice([0, 0, 0, 1, w, 8, mems[mi] - w, 0x7fffffff, 0xffffffff - r.randrange(3)])
        al = {1: 0, 2: 1, 4: 2, 8: 3}[w]
        if k == 3:
            m.func((), (), (), b"\xfe\x03\x00\x0b", "f%d" % len(ops))
            ops.append((k, (), mi, w, off))
            continue
        t = TY[(k - 16) % 7] if k >= 16 else I32
        ps_ = {0: (I32, I32), 1: (I32, I32, I64), 2: (I32, I64, I64)}.get(
            k, (I32,) + ((t,) if 23 <= k < 72 else (t, t) if k >= 72 else ()))
        q = () if 23 <= k < 30 else (t,)
        ma = u(al) if mi == 0 and r.random() < .8 else u(al | 64) + u(mi)
        b = b"".join(b"\x20" + u(x) for x in range(len(ps_))) + b"\xfe" + u(k) + ma + u(off) + b"\x0b"
        m.func(ps_, q, (), b, "f%d" % len(ops))
        ops.append((k, ps_, mi, w, off))
    for x in range(len(mems)):
        m.func((I32,), (I64,), (), b"\x20\x00\x29" + (u(0) if x == 0 else u(64) + u(x)) + b"\x00\x0b", "l%d" % x)
        m.func((I32,), (I32,), (), b"\x20\x00\x40" + u(x) + b"\x0b", "g%d" % x)
    s = scen.Scen(meta="atomics %d" % i)
    k = s.inst(s.mod(m), [])
    last = [r.getrandbits(64) for _ in range(4)]
    for _ in range(60):
        if r.random() < .04:
            s.call(k, "g%d" % r.randrange(len(mems)), [(I32, r.choice([0, 1, 5]))])
            continue
        f = r.randrange(len(ops))
        n, ps_, mi, w, off = ops[f]
        if n == 3:
            s.call(k, "f%d" % f, [])
            continue
        c = r.random()
        if c < .7:
            tgt = r.choice([0, 8, 16, 24]) + (0 if w == 8 else r.randrange(8 // w) * w)
        elif c < .85:
            tgt = r.choice([mems[mi] - w, mems[mi], mems[mi] - w + 1, mems[mi] + w, mems[mi] - 1])
        else:
            tgt = r.randrange(33)
        a = tgt - off
        if a < 0:
            a = r.choice([0, tgt]) if r.random() < .9 else a & 0xffffffff
        args = [(I32, a)]
        for j, t in enumerate(ps_[1:]):
            v = r.choice(last + [0, 1, 0xff, 0xffff, 0xffffffff, (1 << 64) - 1, r.getrandbits(64)])
            if r.random() < .4:
                v &= (1 << 8 * w) - 1
            if n in (1, 2) and j == 1:
                v = r.choice([0, 1, 1000, 100000])
            elif n == 0:
                v = r.choice([0, 1, 2, 0xffffffff])
            else:
                last[r.randrange(4)] = v
            args.append((t, v & (0xffffffff if t == I32 else (1 << 64) - 1)))
        s.call(k, "f%d" % f, args)
    for x in range(len(mems)):
        s.call(k, "l%d" % x, [(I32, r.choice([0, 8, 16]))])
        s.mem(k, x)
    return s


# ------------------------------------------------------------ several threads
def le(v, n):
    return list((v & ((1 << 8 * n) - 1)).to_bytes(n, "little"))


class Round:
    """operations of n threads on one 64-byte cell"""

    def __init__(self, pg, r, n, nops, kind):
        self.cell = pg.slot(64)
        # where the word at 8 really is: next to the first one, a page away, in another memory
        self.far = r.choice(["", "", "page", "mem"]) if kind == "wait" else ""
        self.offs = [r.choice([0, 0, 1, 4, 8, 64, self.cell]) for _ in range(7)]
        if self.far == "mem":
            pg.second()
        if self.far:
            pg.after += const(I32, self.cell + 8) + const(I32, self.cell + (65536 if self.far == "page" else 0)) + \
                (thr.mem_op(0x29) if self.far == "page" else b"\x29\x40\x01\x00") + thr.mem_op(0x37)
        self.kind = kind
        self.ops = []       # per thread: (n, a, v, x, slot)
        pool = [0, 1]

        def value(w):
            v = r.getrandbits(8 * w)
            pool.append(v)
            return v
        foc = r.choice([W.index(8), None, None])
        for _ in range(n):
            l = []
            for _ in range(nops):
                if kind == "wait":
                    c = r.random()
                    a = r.choice([0, 0, 0, 8])
                    if c < .35:
                        l.append((1, a, [r.choice([0, 0, 1])], r.choice([0, 1000, 2000, 20000, 60000]), pg.slot(16)))
                    elif c < .45:
                        l.append((2, a, [r.choice([0, 0, 1])], r.choice([0, 1000, 20000]), pg.slot(16)))
                    elif c < .8:
                        l.append((0, a, [], r.choice([0, 1, 1, 2, 3, 100]), pg.slot(8)))
                    elif c < .9:
                        l.append((r.choice([23, 24]), a, [r.choice([0, 0, 0, 1])], 0, None))
                    else:
                        l.append((16, a, [], 0, pg.slot(8)))
                    continue
                g = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 7, 7, 8, 8, 8, 2])
                x = foc if foc is not None else r.randrange(7)
                k = 16 + 7 * g + x
                w = W[x]
                tw = 4 if TY[x] == I32 else 8
                a = r.randrange(8 // w) * w if r.random() < .4 else 0
                v = []
                if g in (1, 2, 3, 4, 5, 6, 7):
                    v = [value(tw if r.random() < .5 else w)]
                elif g == 8:
                    v = [r.choice(pool) & ((1 << 8 * w) - 1), value(w)]
                l.append((k, a, v, 0, pg.slot(8)))
            self.ops.append(l)

    def code(self, pg, i):
        b = b""
        for j, (k, a, v, x, s) in enumerate(self.ops[i]):
            o, a, mi = self.offs[(i * 3 + j) % 7], self.cell + a, 0
            if a != self.cell and self.far:
                a, mi = (self.cell + 65536, 0) if self.far == "page" else (self.cell, 1)
            ad = const(I32, a - o)
            if k in (1, 2):
                tm = const(I32, 0) + const(I64, 0) + const(I32, s + 8) + b"\x10" + u(pg.clk) + b"\x1a"
                b += tm
                b += thr.wr(s, ad + const(I32 if k == 1 else I64, v[0]) + const(I64, x * 1000) + thr.at_op(k, o, mi) + thr.EXT)
                # elapsed time, through the scratch slot of the thread
                b += const(I32, 0) + const(I64, 0) + const(I32, 256 + 8 * i) + b"\x10" + u(pg.clk) + b"\x1a"
                b += const(I32, s + 8) + const(I32, 256 + 8 * i) + thr.mem_op(0x29) + const(I32, s + 8) + \
                    thr.mem_op(0x29) + b"\x7d" + thr.mem_op(0x37)
            elif k == 0:
                b += thr.wr(s, ad + const(I32, x) + thr.at_op(0, o, mi) + thr.EXT)
            else:
                t = TY[(k - 16) % 7]
                c = ad + b"".join(const(t, y) for y in v) + thr.at_op(k, o, mi)
                if 23 <= k < 30:
                    b += c
                else:
                    b += thr.wr(s, c + (thr.EXT if t == I32 else b""))
        return b

    def trace(self, mem):
        s = []
        for l in self.ops:
            o = []
            for k, a, v, x, sl in l:
                tw = 4 if k in (0, 1, 2) else 4 if TY[(k - 16) % 7] == I32 else 8
                vw = 8 if k == 2 else tw
                r = [] if 23 <= k < 30 else list(mem[sl - thr.CELLS:sl - thr.CELLS + tw])
                el = 0
                if k in (1, 2):
                    el = min(1 << 30, struct.unpack_from("<q", mem, sl + 8 - thr.CELLS)[0] // 1000)
                o.append({"n": k, "a": a, "v": [le(y, vw) for y in v], "x": x, "r": r, "el": el})
            s.append(o)
        b = self.cell - thr.CELLS
        return {"s": s, "c0": [0] * 16, "c1": list(mem[b:b + 16]), "g0": 1, "g1": 1, "gm": 1}


def rounds(r, n, nr, nops, kind):
    pg = thr.Prog()
    rs = [Round(pg, r, n, nops, kind) for _ in range(nr)]
    for i in range(n):
        pg.thread(b"".join(thr.barrier(k + 1, n) + x.code(pg, i) for k, x in enumerate(rs)))
    return pg, rs


def hammer(r, n, cnt):
    """each thread repeats operations whose combined outcome does not depend
    on the order: counters, own bits of a word, tokens changing hands"""
    pg = thr.Prog()
    specs = []
    for j in range(7):
        for g, nm in ((2, "add"), (3, "sub"), (6, "xor"), (4, "and"), (7, "xchg"), (8, "cas")):
            specs.append((nm, g, j, pg.slot(64)))
    bad = pg.slot(64)
    tok = {(i, k): pg.slot(8) for i in range(n) for k in range(len(specs))}
    for i in range(n):
        b = b""
        for k, (nm, g, x, cell) in enumerate(specs):
            t = TY[x]
            w = W[x]
            op = thr.at_op(16 + 7 * g + x)
            ad = const(I32, cell)
            ld = thr.at_op(16 + x)
            bit = 1 << i
            T = 2 if t == I32 else 3     # local of the type
            if nm in ("add", "sub"):
                body = ad + const(t, 1 + i) + op + b"\x1a"
            elif nm == "xor":
                body = ad + const(t, bit) + op + b"\x1a"
            elif nm == "and":
                # set and clear the own bit; the old value tells whether it was kept
                o5 = thr.at_op(16 + 7 * 5 + x)
                body = ad + const(t, bit) + o5 + const(t, bit) + (b"\x71" if t == I32 else b"\x83") + \
                    (b"" if t == I32 else b"\xa7") + b"\x04\x40" + const(I32, bad) + const(I32, 1) + \
                    thr.at_op(30) + b"\x1a\x0b"
                body += ad + const(t, ((1 << 8 * w) - 1) ^ bit) + op + const(t, bit) + \
                    (b"\x71" if t == I32 else b"\x83") + (b"" if t == I32 else b"\xa7") + b"\x45\x04\x40" + \
                    const(I32, bad) + const(I32, 1) + thr.at_op(30) + b"\x1a\x0b"
            elif nm == "xchg":
                body = ad + b"\x20" + u(T) + op + b"\x21" + u(T)
            else:
                # increment by compare and exchange
                mask = (1 << 8 * w) - 1
                add = b"\x6a" if t == I32 else b"\x7c"
                an = b"\x71" if t == I32 else b"\x83"
                eq = b"\x46" if t == I32 else b"\x51"
                body = b"\x03\x40" + ad + ad + ld + b"\x22" + u(T) + b"\x20" + u(T) + const(t, 1) + add + \
                    const(t, mask) + an + op + b"\x20" + u(T) + eq + b"\x45\x0d\x00\x0b"
            b += thr.barrier(k + 1, n)
            b += const(t, i + 1) + b"\x21" + u(T)
            b += const(I32, cnt) + b"\x21\x04\x03\x40" + body + \
                b"\x20\x04" + const(I32, 1) + b"\x6b\x22\x04\x0d\x00\x0b"
            b += thr.wr(tok[i, k], b"\x20" + u(T) + (thr.EXT if t == I32 else b""))
        pg.thread(b, (I32, I64, I32))
    return pg, (specs, bad, tok, n, cnt)


def hammer_trace(info, mem):
    """as a trace: what the sum of all operations must have left"""
    specs, bad, tok, n, cnt = info
    o = []
    for k, (nm, g, x, cell) in enumerate(specs):
        w = W[x]
        b = cell - thr.CELLS
        o.append({"k": nm, "w": w, "n": n, "cnt": cnt, "c": list(mem[b:b + w]),
                  "over": list(mem[b + w:b + 16]),
                  "tok": [list(mem[tok[i, k] - thr.CELLS:][:8]) for i in range(n)]})
    return {"o": o, "bad": list(mem[bad - thr.CELLS:][:4])}


def protocols(r, n, cnt):
    """a mutex, a ring and a semaphore made of waits without time limit;
    every thread gets to the end and no update is lost"""
    pg = thr.Prog()
    lk, ctr, ring, sem, sctr = (pg.slot(64) for _ in range(5))
    inf = const(I64, -1)
    for i in range(n):
        def ex(a, v, op):
            return const(I32, a) + const(I32, v) + thr.at_op(op)
        lock = (b"\x02\x40" + const(I32, lk) + const(I32, 0) + const(I32, 1) + thr.at_op(72) + b"\x45\x0d\x00"
                b"\x03\x40" + ex(lk, 2, 65) + b"\x45\x0d\x01" +
                const(I32, lk) + const(I32, 2) + inf + thr.at_op(1) + b"\x1a\x0c\x00\x0b\x0b")
        unlock = ex(lk, 0, 65) + const(I32, 2) + b"\x46\x04\x40" + const(I32, lk) + const(I32, 1) + thr.at_op(0) + b"\x1a\x0b"
        # not atomic, guarded by the mutex
        inc = const(I32, ctr) + const(I32, ctr) + thr.mem_op(0x28) + const(I32, 1) + b"\x6a" + thr.mem_op(0x36)
        mutex = const(I32, cnt) + b"\x21\x02\x03\x40" + lock + inc + unlock + \
            b"\x20\x02" + const(I32, 1) + b"\x6b\x22\x02\x0d\x00\x0b"
        # token ring: wait for own turn
        turn = const(I32, ring) + thr.at_op(16)
        pas = (b"\x02\x40\x03\x40" + turn + b"\x22\x03" + const(I32, n) + b"\x70" + const(I32, i) + b"\x46\x0d\x01" +
               const(I32, ring) + b"\x20\x03" + inf + thr.at_op(1) + b"\x1a\x0c\x00\x0b\x0b" +
               ex(ring, 1, 30) + b"\x1a" + const(I32, ring) + const(I32, 0xffffffff) + thr.at_op(0) + b"\x1a")
        ringc = const(I32, max(2, cnt // 20)) + b"\x21\x02\x03\x40" + pas + \
            b"\x20\x02" + const(I32, 1) + b"\x6b\x22\x02\x0d\x00\x0b"
        # semaphore: thread 0 posts, the others take; the word is 64 bits wide
        if i == 0:
            semc = const(I32, (n - 1) * cnt) + b"\x21\x02\x03\x40" + const(I32, sem) + const(I64, 1) + thr.at_op(31) + \
                b"\x1a" + const(I32, sem) + const(I32, 1) + thr.at_op(0) + b"\x1a" + \
                b"\x20\x02" + const(I32, 1) + b"\x6b\x22\x02\x0d\x00\x0b"
        else:
            take = (b"\x02\x40\x03\x40" + const(I32, sem) + thr.at_op(17) + b"\x22\x04\x50\x04\x40" +
                    const(I32, sem) + const(I64, 0) + inf + thr.at_op(2) + b"\x1a\x05" +
                    const(I32, sem) + b"\x20\x04\x20\x04" + const(I64, 1) + b"\x7d" + thr.at_op(73) +
                    b"\x20\x04\x51\x0d\x02\x0b\x0c\x00\x0b\x0b" + ex(sctr, 1, 30) + b"\x1a")
            semc = const(I32, cnt) + b"\x21\x02\x03\x40" + take + \
                b"\x20\x02" + const(I32, 1) + b"\x6b\x22\x02\x0d\x00\x0b"
        pg.thread(thr.barrier(1, n) + mutex + thr.barrier(2, n) + ringc + thr.barrier(3, n) + semc, (I32, I32, I64))
    return pg, (n, cnt, dict(lk=lk, ctr=ctr, ring=ring, sem=sem, sctr=sctr))


def protocol_trace(info, mem):
    n, cnt, c = info
    return dict({k: struct.unpack_from("<I", mem, a - thr.CELLS)[0] & 0x7fffffff for k, a in c.items()},
                n=n, cnt=cnt, per=max(2, cnt // 20))


def threads(ctx):
    b = build.build(("rel", "dbg", "alt"), ("twdrv", "shim"))
    jobs, infos = [], []
    for v in ("rel", "alt", "dbg"):
        for i in range(ctx.n(12 if v != "dbg" else 6, 200)):
            r = progs.rng(ctx, "t%s%d" % (v, i))
            pg, rs = rounds(r, 3 + i % 2, 40, r.choice([8, 12, 16]), "rmw")
            jobs.append((v, pg.encode(), pg.pos - thr.CELLS, thr.kws(b, v, r, i)))
            infos.append(("rounds", rs))
        for i in range(ctx.n(8, 60)):
            r = progs.rng(ctx, "w%s%d" % (v, i))
            pg, rs = rounds(r, 3 + i % 3, 8, r.choice([4, 6]), "wait")
            jobs.append((v, pg.encode(), pg.pos - thr.CELLS, thr.kws(b, v, r, i)))
            infos.append(("rounds", rs))
        for i in range(ctx.n(2, 12)):
            r = progs.rng(ctx, "h%s%d" % (v, i))
            pg, x = hammer(r, 3 + i % 2, ctx.n(2000, 20000) if v != "dbg" else 200)
            jobs.append((v, pg.encode(), pg.pos - thr.CELLS, thr.kws(b, v, r, 3 * i)))
            infos.append(("hammer", x))
        for i in range(ctx.n(4, 40)):
            r = progs.rng(ctx, "p%s%d" % (v, i))
            pg, x = protocols(r, 2 + i % 4, ctx.n(200, 2000) if v != "dbg" else 60)
            jobs.append((v, pg.encode(), pg.pos - thr.CELLS, dict(thr.kws(b, v, r, i), us=50)))
            infos.append(("protocol", x))
    outs = thr.execute(ctx, jobs)
    ctx.log("%d programs run" % len(jobs))
    T, where, bulk, bw, prot, pw = [], [], [], [], [], []
    for k, (o, (kind, x)) in enumerate(zip(outs, infos)):
        if o is None:
            continue
        if kind == "rounds":
            for j, rd in enumerate(x):
                T.append(rd.trace(o.out))
                where.append((k, j))
        elif kind == "hammer":
            bulk.append(hammer_trace(x, o.out))
            bw.append(k)
        else:
            prot.append(protocol_trace(x, o.out))
            pw.append(k)
    un, res = tr.search("SharedTrace", T)
    ctx.add_tlc(res)
    for i in un:
        k, j = where[i]
        ctx.violation("results of concurrent atomic operations have no explanation (%s, round %d)" % (jobs[k][0], j),
                      {"trace": T[i], "wasm": jobs[k][1].hex()})
    one = [{"h": h, "p": [], "w": []} for h in bulk] + [{"h": NOTHING, "p": [q], "w": []} for q in prot]
    bad, res = tr.validate("SharedSum", one, weight=lambda t: 1)
    ctx.add_tlc(res)
    for i in bad:
        k = (bw + pw)[i]
        ctx.violation("concurrent updates were lost (%s)" % jobs[k][0], {"trace": one[i], "wasm": jobs[k][1].hex()})
    ctx.traces += len(T) + len(one)
    res = {}
    for x in T:
        for l in x["s"]:
            for o in l:
                n = "notify" if o["n"] == 0 else "wait" if o["n"] < 3 else "access"
                z = "%s:%d" % (n, min(o["r"][0], 4)) if o["n"] < 3 else n
                res[z] = res.get(z, 0) + 1
    ctx.extra["concurrent"] = res
    ctx.sample({"trace": {"threads": len(T[0]["s"]), "first": T[0]["s"][0][:3]}} if T else {})


def run(ctx):
    for cfg in ("WaitMC.cfg",):
        r = tlc.run("WaitMC", open("spec/" + cfg).read(), workers=4, cont=False)
        if r.violations:
            raise tlc.TLCError("WaitMC: %s" % r.violations[0])
        ctx.add_tlc(r)
    ss = [walk(progs.rng(ctx, "s%d" % i), i) for i in range(ctx.n(150, 3000))]
    scen.run(ctx, ss, scen.MODES if ctx.quick else scen.MODES_MORE, what="atomic access")
    threads(ctx)
