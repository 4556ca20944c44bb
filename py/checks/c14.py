"""C14: growing a shared memory."""
import struct

from checks import c13
from vlib import build, progs, thr, tlc, tr
from vlib.wasm import I32, I64, const, u

SIZE, GROW = 100, 101
SUB = 512       # poll subscription
MARK = 0x1122334455000000


def sleep(pg, ns, ev):
    return (const(I32, SUB + 24) + const(I64, ns) + thr.mem_op(0x37) +
            const(I32, SUB) + const(I32, ev) + const(I32, 1) + const(I32, ev + 32) + b"\x10" + u(pg.poll) + b"\x1a")


class Round(c13.Round):
    """operations on the size of the memory between operations on a cell"""

    def __init__(self, pg, r, n, nops, mix):
        c13.Round.__init__(self, pg, r, n, nops, "rmw")
        self.size = pg.slot(8)
        self.mix = mix
        for i, l in enumerate(self.ops):
            o = []
            for k, x in enumerate(l):
                c = r.random()
                if c < mix["grow"]:
                    o.append((GROW, 0, [], r.choice([0, 1, 1, 1, 2, 3, 1000]), pg.slot(16)))
                elif c < mix["grow"] + .15:
                    o.append((SIZE, 0, [], 0, pg.slot(8)))
                elif c < mix["grow"] + mix["wait"] + .15:
                    o.append((1, 8, [0], r.choice([0, 100, 1000]), pg.slot(16)))
                elif c < mix["grow"] + mix["wait"] + mix["sleep"] + .15:
                    o.append(("sleep", 0, [], r.choice([1000, 100000, 1000000]), None))
                else:
                    o.append(x)
            self.ops[i] = o
        self.ops = [l[:r.randrange(2, len(l) + 1)] for l in self.ops]

    def code(self, pg, i):
        b = b""
        full = self.ops[i]
        for x in full:
            k, a, v, n, s = x
            if k == GROW:
                b += const(I32, n) + b"\x40\x00\x22\x02" + b"\x1a" + \
                    thr.wr(s, b"\x20\x02" + thr.EXT) + \
                    b"\x20\x02" + const(I32, -1) + b"\x47\x04\x40" + \
                    (b"" if n == 0 else
                     # the first word of the new memory is zero, then ours
                     b"\x20\x02" + const(I32, 16) + b"\x74\x22\x03" + thr.mem_op(0x29) + b"\x50\x45\x04\x40\x00\x0b" +
                     b"\x20\x03" + const(I64, MARK + s) + thr.mem_op(0x37) +
                     b"\x20\x03" + const(I32, 65536 * n - 8) + b"\x6a" + const(I64, MARK + s) + thr.mem_op(0x37) +
                     const(I32, s + 8) + b"\x20\x03" + thr.mem_op(0x36)) + b"\x0b"
            elif k == SIZE:
                b += thr.wr(s, b"\x3f\x00" + thr.EXT)
            elif k == "sleep":
                b += sleep(pg, n, 1024 + 64 * i)
            else:
                self.ops[i] = [x]
                b += c13.Round.code(self, pg, i)
                self.ops[i] = full
        return b

    def trace(self, mem, g1, gm):
        full = self.ops
        self.ops = [[x for x in l if x[0] not in (SIZE, GROW, "sleep")] for l in full]
        t = c13.Round.trace(self, mem)
        for i, l in enumerate(full):
            it = iter(t["s"][i])
            o = []
            for k, a, v, n, s in l:
                if k == "sleep":
                    continue
                if k in (SIZE, GROW):
                    o.append({"n": k, "a": 0, "v": [], "x": n, "r": list(mem[s - thr.CELLS:][:4]), "el": 0})
                else:
                    o.append(next(it))
            t["s"][i] = o
        self.ops = full
        t["g0"] = struct.unpack_from("<I", mem, self.size - thr.CELLS)[0]
        t["g1"] = g1 if g1 is not None else -1
        t["gm"] = gm
        return t


class Prog(thr.Prog):
    def __init__(self, mn, mx):
        thr.Prog.__init__(self, mn, mx)
        self.poll = None


def program(r, n, nr, nops):
    mn = r.choice([4, 5])
    mx = mn + r.choice([2, 5, 10, 40, 200])
    pg = Prog(mn, mx)
    # imports come before functions
    pg.poll = pg.m.imp_func("wasi_snapshot_preview1", "poll_oneoff", (I32,) * 4, (I32,))
    mix = r.choice([dict(grow=.5, wait=0, sleep=0), dict(grow=.3, wait=.1, sleep=0),
                    dict(grow=.25, wait=.05, sleep=.1), dict(grow=.15, wait=0, sleep=0)])
    rs = [Round(pg, r, n, nops, mix) for _ in range(nr)]
    fin = pg.slot(8)
    late = pg.slot(8)
    plain = [pg.slot(64) for _ in range(n)]
    for i in range(n):
        b = b""
        for k, x in enumerate(rs):
            b += thr.barrier(2 * k + 1, n)
            if i == 0:
                b += thr.wr(x.size, b"\x3f\x00" + thr.EXT)
            b += thr.barrier(2 * k + 2, n) + x.code(pg, i)
        b += thr.barrier(2 * nr + 1, n)
        if i == 0:
            b += thr.wr(fin, b"\x3f\x00" + thr.EXT)
        b += thr.barrier(2 * nr + 2, n)
        # unsynchronised use of own memory while others grow it; growers end early
        c = plain[i]
        one = const(I32, c) + const(I32, c) + thr.mem_op(0x29) + const(I64, 1) + b"\x7c" + thr.mem_op(0x37) + \
            const(I32, c + 8) + const(I32, c) + thr.mem_op(0x28) + const(I32, 40) + b"\xfc\x0b\x00" + \
            const(I32, c + 8 + 39) + thr.mem_op(0x2d) + const(I32, c) + thr.mem_op(0x2d) + b"\x47\x04\x40\x00\x0b"
        if i % 2:
            one = const(I32, 1) + b"\x40\x00\x1a" + one
        cnt = 400 if i % 2 == 0 else 12
        b += const(I32, cnt) + b"\x21\x02\x03\x40" + one + b"\x20\x02" + const(I32, 1) + b"\x6b\x22\x02\x0d\x00\x0b"
        pg.thread(b, (I32, I32))
    return pg, (rs, mx, fin, plain, late)


def churn(r, cnt):
    """threads that come and go while the memory grows"""
    mn = 4
    pg = Prog(mn, mn + r.choice([cnt // 2, cnt * 3]))
    got, size, alive = (pg.slot(8) for _ in range(3))

    def grow(n):
        # grow and count what was got
        return const(I32, n) + b"\x40\x00" + const(I32, -1) + b"\x47\x04\x40" + const(I32, got) + const(I32, n) + \
            thr.at_op(30) + b"\x1a\x0b"
    lag = r.choice([0, 0, 10, 100, 400])
    spin = const(I32, lag) + b"\x21\x02\x03\x40\x20\x02" + const(I32, 1) + b"\x6b\x22\x02\x0d\x00\x0b" if lag else b""
    b = const(I32, cnt) + b"\x21\x03\x03\x40"
    # at most three of them at a time
    b += b"\x03\x40" + const(I32, alive) + thr.at_op(16) + const(I32, r.choice([0, 1, 2])) + b"\x4a\x0d\x00\x0b"
    b += const(I32, alive) + const(I32, 1) + thr.at_op(30) + b"\x1a"
    b += const(I32, 1) + b"\x10" + u(pg.spawn) + const(I32, 1) + b"\x48\x04\x40" + const(I32, 99) + b"\x10" + u(pg.exit) + b"\x0b"
    b += spin + grow(1)
    b += b"\x20\x03" + const(I32, 1) + b"\x6b\x22\x03\x0d\x00\x0b"
    b += b"\x03\x40" + const(I32, thr.CTL) + thr.at_op(16) + const(I32, cnt + 1) + b"\x47\x0d\x00\x0b"
    b += thr.wr(size, b"\x3f\x00" + thr.EXT) + const(I32, thr.CTL) + const(I32, 1) + thr.at_op(23)
    pg.thread(b, (I32, I32))
    # the thread made by encode() is not counted as alive
    pg.thread((grow(1) if r.random() < .3 else b"") + const(I32, alive) + const(I32, -1) + thr.at_op(30) + b"\x1a", (I32, I32))
    return pg, (mn, got, size)


def encode(pg, info):
    """the module, with a last part of the main thread that looks at every
    marker; the outcome goes to its slot"""
    rs, mx, fin, plain, late = info
    b = b""
    for x in rs:
        for l in x.ops:
            for k, a, v, n, s in l:
                if k != GROW or n == 0:
                    continue
                # nothing to look at unless the growth succeeded (address kept)
                for off in (0, 65536 * n - 8):
                    b += const(I32, s + 8) + thr.mem_op(0x28) + b"\x04\x40" + \
                        const(I32, s + 8) + thr.mem_op(0x28) + const(I32, off) + b"\x6a" + thr.mem_op(0x29) + \
                        const(I64, MARK + s) + b"\x52\x04\x40" + const(I32, late) + const(I32, 1) + \
                        thr.at_op(30) + b"\x1a\x0b\x0b"
    pg.after = b
    return pg.encode()


def run(ctx):
    r = tlc.run("SuspendMC", open("spec/SuspendMC.cfg").read(), workers=4, cont=False)
    if r.violations:
        raise tlc.TLCError("SuspendMC: %s" % r.violations[0])
    ctx.add_tlc(r)
    b = build.build(("rel", "dbg", "alt"), ("twdrv", "shim"))
    jobs, infos = [], []
    for v in ("rel", "dbg", "alt"):
        for i in range(ctx.n({"rel": 16, "dbg": 16, "alt": 8}[v], 200)):
            r = progs.rng(ctx, "g%s%d" % (v, i))
            pg, x = program(r, 2 + i % 4, 12, r.choice([4, 6, 8]))
            w = encode(pg, x)
            jobs.append((v, w, pg.pos - thr.CELLS, thr.kws(b, v, r, i)))
            infos.append(x)
        for i in range(ctx.n({"rel": 12, "dbg": 6, "alt": 6}[v], 60)):
            r = progs.rng(ctx, "c%s%d" % (v, i))
            pg, x = churn(r, 60)
            jobs.append((v, pg.encode(), pg.pos - thr.CELLS, thr.kws(b, v, r, i)))
            infos.append(x)
    outs = thr.execute(ctx, jobs)
    ctx.log("%d programs run" % len(jobs))
    T, where, sums, sw = [], [], [], []
    for k, (o, x) in enumerate(zip(outs, infos)):
        if o is None:
            continue
        if len(x) == 3:
            got, size = (struct.unpack_from("<I", o.out, a - thr.CELLS)[0] for a in x[1:])
            sums.append({"lost": 0, "own": [size], "want": [x[0] + got]})
            sw.append(k)
            continue
        rs, mx, fin, plain, late = x
        nxt = [struct.unpack_from("<I", o.out, x.size - thr.CELLS)[0] for x in rs[1:]] + \
            [struct.unpack_from("<I", o.out, fin - thr.CELLS)[0]]
        for j, x in enumerate(rs):
            T.append(x.trace(o.out, nxt[j], mx))
            where.append((k, j))
        sums.append({"lost": struct.unpack_from("<I", o.out, late - thr.CELLS)[0],
                     "own": [struct.unpack_from("<I", o.out, a - thr.CELLS)[0] for a in plain],
                     "want": [400 if i % 2 == 0 else 12 for i in range(len(plain))]})
        sw.append(k)
    sums = [{"h": c13.NOTHING, "p": [], "w": [x]} for x in sums]
    bad, res = tr.validate("SharedSum", sums, weight=lambda t: 1)
    ctx.add_tlc(res)
    for i in bad:
        ctx.violation("contents of the memory were lost (%s)" % jobs[sw[i]][0],
                      {"sums": sums[i], "wasm": jobs[sw[i]][1].hex()})
    un, res = tr.search("SharedTrace", T)
    ctx.add_tlc(res)
    for i in un:
        k, j = where[i]
        ctx.violation("results of concurrent growths have no explanation (%s, round %d)" % (jobs[k][0], j),
                      {"trace": T[i], "wasm": jobs[k][1].hex()})
    ctx.traces += len(T) + len(sums)
    res = {}
    for x in T:
        for l in x["s"]:
            for o in l:
                n = {SIZE: "size", GROW: "grow"}.get(o["n"], "other")
                z = n + (":fail" if n == "grow" and o["r"] == [255] * 4 else "")
                res[z] = res.get(z, 0) + 1
    ctx.extra["operations"] = res
    if T:
        ctx.sample({"trace": {"threads": len(T[0]["s"]), "first": T[0]["s"][0][:3]}})
