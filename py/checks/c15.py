"""C15: threads of a program: identifiers, start, exit (wasi-threads)."""
import re
import struct

from vlib import build, progs, thr, tlc, tr
from vlib.wasm import FUNCREF, I32, I64, Module, const, elem_active, limits, u

NK = 16
FLAG = 4096         # per thread: 1 over, 2 refused
BUF = 8192          # per thread
BARR = 2048
NEVER = 1024        # nobody notifies here
BOOM = 1032         # start functions trap while this is set
MAGIC = 0xa5
KINDS = ["ask", "res", "start", "end", "quit"]
TRAPS = [(4, b"\x00"), (1, const(I32, 1) + const(I32, 0) + b"\x6d\x1a"),
         (3, const(I32, -4) + thr.mem_op(0x28) + b"\x1a"),
         (2, const(I32, -0x80000000) + const(I32, -1) + b"\x6d\x1a"),
         (17, const(I32, 2) + thr.at_op(16) + b"\x1a"),
         (7, const(I32, 1000) + b"\x11\x00\x00")]


class Prog:
    def __init__(self, r, abi, entry="ok", mem=(1, 4)):
        self.r = r
        self.m = m = Module()
        self.abi = abi
        ft = {"new": ((I32, I32), ()), "old": ((I32,), (I32,)), "orig": ((I32,), (I32,))}[abi]
        self.tvoid = m.type((), ())
        self.spawn = m.imp_func("wasi", "thread_spawn" if abi == "orig" else "thread-spawn", *ft)
        self.texit = m.imp_func("wasi", "thread_exit", (), ())
        w = "wasi_snapshot_preview1"
        self.fdw = m.imp_func(w, "fd_write", (I32,) * 4, (I32,))
        self.fdr = m.imp_func(w, "fd_read", (I32,) * 4, (I32,))
        self.exit = m.imp_func(w, "proc_exit", (I32,), ())
        self.poll = m.imp_func(w, "poll_oneoff", (I32,) * 4, (I32,))
        m.imp_mem("env", "memory", limits(*mem, True))
        m.export("memory", 2, 0)
        m.glob(I32, 1, const(I32, 0))
        self.entry = entry
        self.body = {k: b"" for k in range(NK)}
        self.last = {}
        self.arg = [0] * NK
        self.fk = [0] * NK
        self.nbar = 0
        self.late = set()
        self.nk = 1

    def new(self):
        k = self.nk
        self.nk += 1
        assert k < NK
        self.arg[k] = k | self.r.choice([0, 0x100, 0x7fffff00, -0x80000000, -256])
        return k

    def log(self, kind, k, a=b"\x41\x00", b=b"\x41\x00", c=b"\x41\x00", by=None):
        """the record; by: thread that writes it (its buffer)"""
        p = BUF + 128 * (k if by is None else by)
        s = const(I32, p + 16) + const(I32, MAGIC | KINDS.index(kind) << 8 | k << 16) + thr.mem_op(0x36)
        for i, x in enumerate((a, b, c)):
            s += const(I32, p + 20 + 4 * i) + x + thr.mem_op(0x36)
        s += const(I32, p) + const(I32, p + 16) + thr.mem_op(0x36) + const(I32, p + 4) + const(I32, 16) + thr.mem_op(0x36)
        return s + const(I32, 1) + const(I32, p) + const(I32, 1) + const(I32, p + 8) + b"\x10" + u(self.fdw) + b"\x1a"

    def do(self, w, *ops):
        for o in ops:
            self.body[w] += getattr(self, "o_" + o[0])(w, *o[1:])

    def o_spawn(self, w, k, boom=False):
        s = self.log("ask", k, const(I32, w), by=w)
        if boom:
            self.fk[k] = 1
            s += const(I32, BOOM) + const(I32, 1) + thr.at_op(23)
        if self.abi == "new":
            p = BUF + 128 * w + 64
            s += const(I32, p) + const(I64, -1) + thr.mem_op(0x37)
            s += const(I32, self.arg[k]) + const(I32, p) + b"\x10" + u(self.spawn)
            # an error flag and an identifier, or nothing
            s += (b"\x41\xff\x7e" if False else const(I32, -1)) + const(I32, p + 4) + thr.mem_op(0x28) + \
                const(I32, p) + thr.mem_op(0x2d) + b"\x1b\x21\x00"
        else:
            s += const(I32, self.arg[k]) + b"\x10" + u(self.spawn) + b"\x21\x00"
        if boom:
            s += const(I32, BOOM) + const(I32, 0) + thr.at_op(23)
        s += self.log("res", k, b"\x20\x00", by=w)
        s += b"\x20\x00" + const(I32, 0) + b"\x4c\x04\x40" + self.set(k, 2) + b"\x0b"
        return s

    def set(self, k, v):
        return const(I32, FLAG + 8 * k) + const(I32, v) + thr.at_op(23) + \
            const(I32, FLAG + 8 * k) + const(I32, 1000) + thr.at_op(0) + b"\x1a"

    def o_join(self, w, k):
        a = FLAG + 8 * k
        return (b"\x03\x40" + const(I32, a) + const(I32, 0) + const(I64, -1) + thr.at_op(1) + b"\x1a" +
                const(I32, a) + thr.at_op(16) + b"\x45\x0d\x00\x0b")

    def o_bar(self, w, b, n):
        a = BARR + 8 * b
        return (const(I32, a) + const(I32, 1) + thr.at_op(30) + b"\x1a" +
                const(I32, a) + const(I32, 1000) + thr.at_op(0) + b"\x1a" +
                b"\x02\x40\x03\x40" + const(I32, a) + thr.at_op(16) + b"\x22\x00" + const(I32, n) + b"\x4f\x0d\x01" +
                const(I32, a) + b"\x20\x00" + const(I64, -1) + thr.at_op(1) + b"\x1a\x0c\x00\x0b\x0b")

    def o_sleep(self, w, ns):
        p = BUF + 128 * NK + 128 * w
        return (const(I32, p) + const(I64, 0) + thr.mem_op(0x37) + const(I32, p + 8) + const(I64, 0) + thr.mem_op(0x37) +
                const(I32, p + 16) + const(I32, 1) + thr.mem_op(0x36) +
                const(I32, p + 24) + const(I64, ns) + thr.mem_op(0x37) +
                const(I32, p + 32) + const(I64, 1) + thr.mem_op(0x37) +
                const(I32, p + 40) + const(I64, 0) + thr.mem_op(0x37) +
                const(I32, p) + const(I32, p + 64) + const(I32, 1) + const(I32, p + 96) +
                b"\x10" + u(self.poll) + b"\x1a")

    def o_block(self, w, how):
        p = BUF + 128 * NK + 128 * w
        if how == "wait":
            return const(I32, NEVER) + const(I32, 0) + const(I64, -1) + thr.at_op(1) + b"\x1a"
        if how == "twait":
            return const(I32, NEVER) + const(I32, 0) + const(I64, 10**12) + thr.at_op(1) + b"\x1a"
        if how == "spin":
            return b"\x03\x40\x0c\x00\x0b"
        if how == "calls":
            return b"\x03\x40" + const(I32, 0) + b"\x10" + u(self.idle) + b"\x0c\x00\x0b"
        if how == "poll":
            return self.o_sleep(w, 10**12)
        if how == "read":
            return (const(I32, p) + const(I32, p + 16) + thr.mem_op(0x36) + const(I32, p + 4) + const(I32, 4) + thr.mem_op(0x36) +
                    const(I32, 0) + const(I32, p) + const(I32, 1) + const(I32, p + 8) + b"\x10" + u(self.fdr) + b"\x1a")
        if how == "grow":
            return b"\x03\x40" + const(I32, 0) + b"\x40\x00\x1a\x0c\x00\x0b"

    def o_exit(self, w, code):
        return self.log("quit", w, const(I32, code)) + const(I32, code) + b"\x10" + u(self.exit)

    def o_trap(self, w, i):
        n, b = TRAPS[i]
        return self.log("quit", w, const(I32, n), const(I32, 1)) + b

    def o_slow(self, w, i):
        """a trap, not announced, at the end of a long piece without checks"""
        return (const(I32, 65536) + const(I32, w) + const(I32, 511 * 65536) + b"\xfc\x0b\x00") * 40 + TRAPS[i][1]

    def o_late(self, w, code):
        self.late.add(w)
        return self.o_sleep(w, 4 * 10**9) + self.o_exit(w, code)

    def o_end(self, w, texit=False):
        return self.log("end", w, c=b"\x23\x00") + self.set(w, 1) + (b"\x10" + u(self.texit) if texit else b"\x0f")

    def encode(self):
        m = self.m
        done = [m.func((), (), (I32,), self.body[k] + self.o_end(k) + b"\x0b") for k in range(self.nk)]
        m.table(FUNCREF, NK)
        m.elems.append(elem_active(const(I32, 0), done))
        ent = b""
        # locals: 0 identifier 1 argument 2 thread
        ent += b"\x20\x01" + const(I32, 255) + b"\x71\x21\x02"
        p = BUF + 128 * 2 * NK     # a buffer that depends on the thread
        base = b"\x20\x02" + const(I32, 7) + b"\x74"
        ent += base + const(I32, MAGIC | KINDS.index("start") << 8) + b"\x20\x02" + const(I32, 16) + b"\x74\x72" + thr.mem_op(0x36, p + 16)
        ent += base + b"\x20\x00" + thr.mem_op(0x36, p + 20)
        ent += base + b"\x20\x01" + thr.mem_op(0x36, p + 24)
        ent += base + b"\x23\x00" + thr.mem_op(0x36, p + 28)
        ent += base + base + const(I32, p + 16) + b"\x6a" + thr.mem_op(0x36, p)
        ent += base + const(I32, 16) + thr.mem_op(0x36, p + 4)
        ent += const(I32, 1) + base + const(I32, p) + b"\x6a" + const(I32, 1) + base + const(I32, p + 8) + b"\x6a" + \
            b"\x10" + u(self.fdw) + b"\x1a"
        ent += b"\x20\x02" + const(I32, 7) + b"\x6a\x24\x00"
        ent += b"\x20\x02\x11" + u(self.tvoid) + b"\x00\x0b"
        e = self.entry
        if e == "ok":
            m.func((I32, I32), (), (I32,), ent, "wasi_thread_start")
        elif e == "type":
            m.func((I32, I32), (I32,), (I32,), ent[:-1] + const(I32, 0) + b"\x0b", "wasi_thread_start")
        elif e == "kind":
            m.export("wasi_thread_start", 3, 0)
        elif e == "none":
            m.func((I32, I32), (), (I32,), ent, "wasi_thread_start_")
        m.start = m.func((), (), (), const(I32, BOOM) + thr.at_op(16) + b"\x04\x40\x00\x0b\x0b")
        m.func((), (), (), const(I32, 7) + b"\x24\x00\x10" + u(done[0]) + b"\x0b", "_start")
        return m.encode()

    def parse(self, o, extra):
        """the log and the outcome as a trace; None: unintelligible"""
        v = []
        out = o.out
        while len(out) >= 16 and out[0] == MAGIC:
            h, a, b, c = struct.unpack_from("<Iiii", out)
            k = h >> 16
            if (h >> 8) & 255 >= len(KINDS) or k >= NK:
                return None
            kind = KINDS[(h >> 8) & 255]
            v.append({"o": kind, "k": k, "a": a, "b": b, "c": c,
                      "z": int(kind == "quit" and k in self.late)})
            out = out[16:]
        t = re.fullmatch(rb"Error: \[trap\] [^\n]*?\((\d+)\): [^\n]*\n(.*)", out, re.S)
        if out and not t:
            return None
        if t and o.rc != 1:
            return None
        return dict({"v": v, "arg": self.arg, "fk": self.fk, "fc": 0, "all": 0,
                     "glob": [k + 7 for k in range(NK)],
                     "rt": 1 if t else 0, "rc": int(t.group(1)) if t else o.rc}, **extra)


BLOCKS = ["wait", "twait", "spin", "poll", "read", "grow"]
CODES = [0, 1, 3, 42, 125, 126, 200, 255]


def some(pg, r, w, own):
    """an ending for thread w"""
    c = r.random()
    if c < .25:
        pg.do(w, ("exit", own))
    elif c < .5:
        pg.do(w, ("trap", r.randrange(len(TRAPS))))
    elif c < .8:
        pg.do(w, ("block", r.choice(BLOCKS)))
    elif c < .9 and w:
        pg.do(w, ("end", True))


def waves(r, pg):
    """threads come and go; at last the main function returns while others
    are busy, or somebody exits"""
    leaf = []

    def grow(w, depth):
        ks = []
        for _ in range(r.randrange(1, 4)):
            if pg.nk >= NK - 2:
                break
            k = pg.new()
            ks.append(k)
            pg.do(w, ("spawn", k))
            if r.random() < .3:
                pg.do(w, ("join", k))
                ks.pop()
            if depth and r.random() < .4:
                grow(k, depth - 1)
            if r.random() < .3:
                pg.do(k, ("sleep", r.choice([1000, 10**6, 20 * 10**6])))
            if r.random() < .2:
                pg.do(k, ("end", True))
        for k in ks:
            pg.do(w, ("join", k))
    grow(0, 1)
    if pg.nk < NK - 4:
        grow(0, 1)
    last = []
    for _ in range(r.randrange(3)):
        if pg.nk < NK:
            k = pg.new()
            last.append(k)
            pg.do(0, ("spawn", k))
            pg.do(k, ("block", r.choice(BLOCKS)))
    if r.random() < .3:
        pg.do(0, ("sleep", r.choice([10**6, 60 * 10**6])))
    return {"all": 1} if not last else {}


def race(r, pg):
    """several threads exit, trap, return at the same time"""
    n = r.randrange(1, 5)
    ks = [pg.new() for _ in range(n)]
    for k in ks:
        pg.do(0, ("spawn", k))
    for w in [0] + ks:
        pg.do(w, ("bar", 0, n + 1))
        d = r.choice([0, 0, 1000, 10**6])
        if d:
            pg.do(w, ("sleep", d))
        some(pg, r, w, r.choice(CODES))
    # somebody ends it
    w = r.choice([0] + ks)
    pg.body[w] = pg.body[w][:0] + b""
    redo(pg, w, ks, n, r)
    return {}


def redo(pg, w, ks, n, r):
    if w == 0:
        for k in ks:
            pg.do(0, ("spawn", k))
    pg.do(w, ("bar", 0, n + 1))
    pg.do(w, ("exit", r.choice(CODES)) if r.random() < .5 else ("trap", r.randrange(len(TRAPS))))


def late(r, pg):
    """one ends the program, others would do so seconds later"""
    n = r.randrange(1, 5)
    ks = [pg.new() for _ in range(n)]
    for k in ks:
        pg.do(0, ("spawn", k))
    who = r.choice([0] + ks)
    for w in [0] + ks:
        pg.do(w, ("bar", 0, n + 1))
        if w == who:
            pg.do(w, r.choice([("exit", r.choice(CODES)), ("trap", r.randrange(len(TRAPS)))] +
                              ([("end",)] if w == 0 else [])))
        else:
            pg.do(w, ("late", 77) if r.random() < .6 else ("block", r.choice(BLOCKS)))
    return {}


def slow(r, pg):
    """one ends the program, others trap a while later"""
    n = r.randrange(1, 3)
    ks = [pg.new() for _ in range(n)]
    for k in ks:
        pg.do(0, ("spawn", k))
    who = r.choice([0] + ks)
    ts = list(range(len(TRAPS)))
    r.shuffle(ts)
    for w in [0] + ks:
        pg.do(w, ("bar", 0, n + 1))
        if w == who:
            pg.do(w, r.choice([("exit", r.choice(CODES)), ("trap", ts[0])]))
        else:
            pg.do(w, ("slow", ts[1]))
    return {}


def boom(r, pg):
    """instances that cannot be made, one thread at a time asking"""
    for i in range(r.randrange(2, 6)):
        k = pg.new()
        pg.do(0, ("spawn", k, r.random() < .5), ("join", k))
    k = pg.new()
    pg.do(0, ("spawn", k, False), ("join", k))
    return {"all": 1}


def nth(r, pg):
    """the host cannot create a thread once"""
    x = waves(r, pg)
    pg.fk = [2] * NK
    x["fc"] = 1
    return x


def never(r, pg):
    """modules without a usable entry point"""
    for _ in range(3):
        k = pg.new()
        pg.fk[k] = 1
        pg.do(0, ("spawn", k), ("join", k))
    return {"all": 1}


KINDSOF = [waves, race, late, boom, nth, never]


def again(job, pg, x):
    """whether another run can be explained"""
    _, w, kw = job
    o = thr.run_one(**dict(kw, wasm=w, stdin=True))
    t = None if o.hang else pg.parse(o, x)
    return bool(t) and not tr.search("ThreadsTrace", [t], cfg=tr.SEARCH + "CONSTANT Ks <- TK\n")[0]


def run(ctx):
    r = tlc.run("ThreadsMC", open("spec/ThreadsMC.cfg").read(), workers=4, cont=False)
    if r.violations:
        raise tlc.TLCError("ThreadsMC: %s" % r.violations[0])
    ctx.add_tlc(r)
    b = build.build(("rel", "dbg", "alt", "usr"), ("twdrv", "shim"))
    jobs, infos = [], []
    for v in ("rel", "dbg", "alt", "usr"):
        for i in range(ctx.n({"rel": 60, "dbg": 60, "alt": 30, "usr": 30}[v], 600)):
            r = progs.rng(ctx, "t%s%d" % (v, i))
            kind = KINDSOF[i % len(KINDSOF)] if i % 12 < 6 else r.choice([waves, race, race, nth])
            if v == "usr" and kind is nth:
                kind = waves
            if v in ("rel", "alt") and i % 15 == 7:
                kind = slow
            pg = Prog(r, r.choice(["new", "old", "orig"]),
                      r.choice(["type", "kind", "none"]) if kind is never else "ok",
                      (512, 512) if kind is slow else (1, 4))
            x = kind(r, pg)
            w = pg.encode()
            kw = thr.kws(b, v, r, i)
            if kind is nth:
                kw["fail"] = r.randrange(pg.nk - 1)
            jobs.append((kind.__name__ + "/" + v, w, kw))
            infos.append((pg, x))
    outs = thr.run_many([dict(kw, wasm=w, stdin=True) for _, w, kw in jobs], nproc=6)
    ctx.log("%d programs run" % len(jobs))
    T, where = [], []
    for k, ((nm, w, kw), o, (pg, x)) in enumerate(zip(jobs, outs, infos)):
        if o is None:
            continue
        first = o
        if o.hang and not o.still:
            for _ in range(3):
                o = thr.run_one(**dict(kw, wasm=w, stdin=True))
                if o.hang:
                    break
        t = None if o.hang else pg.parse(o, x)
        if o.hang or t is None or o.rc < 0 or o.rc in (94, 95):
            ctx.violation("%s: program with threads %s" % (nm, "did not end" if o.hang else "failed"),
                          {"wasm": w.hex(), "rc": [first.rc, o.rc], "hang": [first.hang, o.hang],
                           "out": o.out.hex()[-400:], "err": o.err[-1500:],
                           "kw": {a: str(c) for a, c in kw.items() if a != "b"}})
            continue
        T.append(t)
        where.append(k)
    un, res = tr.search("ThreadsTrace", T, cfg=tr.SEARCH + "CONSTANT Ks <- TK\n")
    ctx.add_tlc(res)
    for i in un:
        nm, w, kw = jobs[where[i]]
        if nm.startswith("slow") and any(again(jobs[where[i]], *infos[where[i]]) for _ in range(4)):
            continue        # the order of events was by time only
        ctx.violation("%s: log and outcome of a program with threads have no explanation" % nm,
                      {"trace": T[i], "wasm": w.hex(), "kw": {a: str(c) for a, c in kw.items() if a != "b"}})
    ctx.traces += len(T)
    seen = {}
    for t in T:
        z = "trap" if t["rt"] else "exit" if t["rc"] else "zero"
        seen[z] = seen.get(z, 0) + 1
        for e in t["v"]:
            z = e["o"] + ("-" if e["o"] == "res" and e["a"] <= 0 else "")
            seen[z] = seen.get(z, 0) + 1
        ids = [e["a"] for e in t["v"] if e["o"] == "start"]
        seen["reused ids"] = seen.get("reused ids", 0) + len(ids) - len(set(ids))
    ctx.extra["records"] = seen
    if T:
        ctx.sample({"trace": T[0]["v"][:8], "outcome": [T[0]["rt"], T[0]["rc"]]})
