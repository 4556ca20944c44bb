"""Programs started by the command line tool: what they are given."""
import os
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from . import tr
from .wasm import I32, I64, Module, const, u

SIZE = 28672
MAXDIR = 6


SPINS = ["loop", "table", "call", "tail", "poll", "yield", "start"]


def program(code, spin=None):
    """fills its memory through the calls and writes it to the standard output, or never ends"""
    m = Module()
    w = "wasi_snapshot_preview1"
    f = {n: m.imp_func(w, n, p, (I32,)) for n, p in (
        ("args_sizes_get", (I32, I32)), ("args_get", (I32, I32)),
        ("environ_sizes_get", (I32, I32)), ("environ_get", (I32, I32)),
        ("fd_prestat_get", (I32, I32)), ("fd_prestat_dir_name", (I32, I32, I32)),
        ("path_open", (I32, I32, I32, I32, I32, I64, I64, I32, I32)),
        ("fd_read", (I32,) * 4), ("fd_write", (I32,) * 4), ("sched_yield", ()), ("poll_oneoff", (I32,) * 4))}
    x = m.imp_func(w, "proc_exit", (I32,), ())
    m.mem(1)
    m.export("memory", 2, 0)
    c = lambda n: const(I32, n)
    call = lambda n, *a: b"".join(c(y) if isinstance(y, int) else y for y in a) + b"\x10" + u(f[n])
    st = lambda a, b: c(a) + b + b"\x36\x02\x00"
    ld = lambda a: c(a) + b"\x28\x02\x00"
    b = c(0) + c(238) + c(SIZE) + b"\xfc\x0b\x00"
    b += call("args_sizes_get", 0, 4) + b"\x1a" + call("args_get", 256, 4096) + b"\x1a"
    b += call("environ_sizes_get", 8, 12) + b"\x1a" + call("environ_get", 512, 12288) + b"\x1a"
    b += st(30000, c(0x6469))       # "id"
    for i in range(MAXDIR + 1):
        k = 768 + 32 * i
        b += st(k, call("fd_prestat_get", 3 + i, k + 8))
        b += ld(k) + b"\x45\x04\x40"
        b += st(k + 16, call("fd_prestat_dir_name", 3 + i, 20480 + 512 * i, ld(k + 12)))
        b += st(k + 20, call("path_open", 3 + i, 0, 30000, 2, 0, const(I64, 2), const(I64, 2), 0, 30016))
        b += st(30020, c(24576 + 64 * i)) + st(30024, c(8))
        b += call("fd_read", ld(30016), 30020, 1, 30028) + b"\x1a\x0b"
    b += st(30020, c(0)) + st(30024, c(SIZE)) + call("fd_write", 1, 30020, 1, 30028) + b"\x1a"
    me = len(f) + 1
    if spin == "poll":
        # a clock, an hour
        b = st(8, c(0)) + st(16, c(1)) + c(24) + const(I64, 3600 * 10 ** 9) + b"\x37\x03\x00" + \
            call("poll_oneoff", 0, 64, 1, 128) + b"\x1a" + b
    elif spin and spin != "start":
        b = {"loop": b"\x03\x40\x0c\x00\x0b", "table": b"\x03\x40" + c(5) + b"\x0e\x01\x00\x00\x0b",
             "call": b"\x03\x40\x10" + u(me + 1) + b"\x0c\x00\x0b", "tail": b"\x12" + u(me),
             "yield": b"\x03\x40\x10" + u(f["sched_yield"]) + b"\x1a\x0c\x00\x0b"}[spin] + b
    if code is not None:
        b += c(code) + b"\x10" + u(x)
    m.func((), (), (), b + b"\x0b", "_start")
    m.func((), (), (), b"\x0b")
    if spin == "start":
        m.start = m.func((), (), (), b"\x03\x40\x0c\x00\x0b\x0b")
    return m.encode()


def text(r, what):
    n = r.choice([0, 1, 1, 3, 8, 8, 30, 200])
    al = "abcXYZ019_-./:= \t\"'\\$*é" if what == "arg" else "abcXYZ_=: é"
    return "".join(r.choice(al) for _ in range(n))


class Line:
    """a command line"""

    def __init__(self, r):
        self.code = r.choice([None, None, 0, 1, 5, 77, 255])
        self.hosts = r.sample(["d", "e", "d/s", "x:y", "a b", "..d"], 3)
        self.opts = []
        if r.random() < .95:
            self.opts.append(("wasi", ""))
        for _ in range(r.choice([0, 1, 2, 2, 3, 5])):
            n = "".join(r.choice("ABc_1") for _ in range(r.choice([1, 2, 9])))
            self.opts.append(("env", n + "=" + text(r, "env")))
        nd = 0
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            h = r.choice(self.hosts) if r.random() < .95 else "missing"
            g = r.choice([None, None, "/", "/g", ".", h, "g::h", "x:", "a b/c", "g" * 100])
            self.opts.append(("dir", h if g is None else h + "::" + g))
            nd += 1
        if r.random() < .3:
            self.opts.append(("plain", r.choice(["--disable-jump-table", "--print-stats", "--dyld-bindnow"][:1] +
                                                ["--disable-localtype-cellidx", "--disable-resulttype-cellidx"])))
        if r.random() < .15:
            self.opts.append((r.choice(["frames", "cells"]), r.choice(["1000", "1000", "1000000", "x", "10x", ""])))
        if r.random() < .15:
            self.opts.append(("mem", r.choice(["100000000", "0x8000000", "0", "1000", "20000", "1k", "-", "99999999999999999999999"])))
        self.extra = r.choice([None] * 6 + ["--print-stats", "--version", "--print-build-options"])
        self.spin = r.choice(SPINS) if r.random() < .2 else None
        if self.spin:
            self.extra = None
            self.opts.append(("time", r.choice(["100", "300", "500"])))
        elif r.random() < .15:
            self.opts.append(("time", r.choice(["50000", "60000"])))
        if self.extra:
            self.opts.append(("plain", self.extra))
        if r.random() < .05:
            self.opts.append(("bad", r.choice(["--nosuch", "--wasi-dirs", "-x"])))
        c = r.random()
        if c < .3:
            r.shuffle(self.opts)
        elif c < .6:        # environment and directories mixed, the others where they are
            t = self.opts[1:]
            r.shuffle(t)
            self.opts = self.opts[:1] + t
        self.args = [text(r, "arg") for _ in range(r.choice([0, 1, 2, 5, 12]))]
        if r.random() < .2:
            self.args = ["--wasi-env", "A=b", "--", "--nosuch"][:r.randrange(1, 5)]
        self.path = r.choice(["m.wasm", "./m.wasm", "d/m.wasm", "d/../d/m.wasm", "e//m.wasm", "odd name"])
        if r.random() < .03:
            self.path += "/"
        self.dash = self.args and self.args[0].startswith("-") or r.random() < .3

    def argv(self):
        a = []
        for o, x in self.opts:
            if o == "wasi":
                a.append("--wasi")
            elif o in ("plain", "bad"):
                a.append(x)
            else:
                a += ["--" + {"env": "wasi-env", "dir": "wasi-dir", "frames": "max-frames", "cells": "max-stack-cells",
                            "mem": "max-memory", "time": "timeout"}[o], x]
        return a + (["--"] if self.dash else []) + [self.path] + self.args


def execute(cli, c):
    td = tempfile.mkdtemp(prefix="cli-")
    try:
        host = []
        for k, h in enumerate(["d", "e"] + [h for h in c.hosts if h not in ("d", "e")]):
            os.makedirs(os.path.join(td, h), exist_ok=True)
            with open(os.path.join(td, h, "id"), "wb") as fp:
                fp.write(b"%08d" % (k * 1111))
            host.append({"n": list(h.encode()), "id": list(b"%08d" % (k * 1111))})
        w = program(c.code, c.spin)
        for p in ("m.wasm", "d/m.wasm", "e/m.wasm", "odd name"):
            with open(os.path.join(td, p), "wb") as fp:
                fp.write(w)
        env = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=1", UBSAN_OPTIONS="exitcode=99", POSIXLY_CORRECT="1")
        t0 = time.time()
        try:
            q = subprocess.run([cli] + c.argv(), cwd=td, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=60)
            ms = int((time.time() - t0) * 1000)
        except subprocess.TimeoutExpired:
            return None, "Hang: %s" % c.argv()
        if q.returncode < 0 or q.returncode == 99:
            return None, "Died: %s %s %s" % (q.returncode, c.argv(), q.stderr.decode("latin1")[-2000:])
        # what the tool itself was told to print, before or after the program
        so = q.stdout
        if c.extra and b"\0" in so:
            k = so.index(0) - 1         # the number of arguments
            so, rest = so[k:k + SIZE], so[:k] + so[k + SIZE:]
            if not rest.isascii() or b"\0" in rest:
                so = q.stdout
        # messages of the tool (usage) are no output of the program
        out = so if len(so) == SIZE else b"" if q.returncode == 1 and not so.startswith(b"\0") else so
        return {"opts": [{"o": o, "a": list(x.encode())} for o, x in c.opts], "path": list(c.path.encode()),
                "args": [list(x.encode()) for x in c.args], "host": host, "mem": list(out) if len(out) == SIZE else
                list(out[:100]), "status": q.returncode, "code": c.code or 0,
                "spin": int(c.spin is not None), "ms": ms}, None
    finally:
        shutil.rmtree(td)


def binding(ctx, T):
    """changed traces must be refused"""
    C = []
    for t in T:
        if t["mem"]:
            for k in (0, 8, t["mem"][256] + 256 * t["mem"][257]):      # counts, the first argument
                m = list(t["mem"])
                m[k] ^= 1
                C.append(dict(t, mem=m))
            C.append(dict(t, status=t["status"] ^ 1))
            C.append(dict(t, args=t["args"] + [[]]))
            C.append(dict(t, spin=1))
        else:
            C.append(dict(t, status=0))
        if len(C) >= 30:
            break
    bad, res = tr.validate("CliTrace", C, weight=lambda t: 1)
    ctx.add_tlc(res)
    if len(bad) != len(C):
        raise RuntimeError("CliTrace accepts changed traces")


def run(ctx, b, rng, n):
    """n command lines"""
    jobs = [(v, i) for i in range(n) for v in ("rel", "dbg")]

    def one(j):
        return execute(b[j[0]]["cli"], Line(rng("cli%d" % j[1])))
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, jobs))
    T, where = [], []
    for j, (t, f) in zip(jobs, outs):
        if f is not None:
            t, f = one(j)
        if f is not None:
            ctx.violation("command line: %s" % f[:300], {"failure": f})
            continue
        T.append(t)
        where.append(j)
    bad, res = tr.validate("CliTrace", T, weight=lambda t: 1)
    ctx.add_tlc(res)
    ctx.traces += len(T)
    ctx.extra["command lines"] = len(T)
    ctx.extra["command lines that work"] = sum(t["mem"] != [] for t in T)
    if not bad:
        binding(ctx, T)
    for i in sorted(bad)[:3]:
        c = Line(rng("cli%d" % where[i][1]))
        t, f = one(where[i])
        if f is None and not tr.validate("CliTrace", [t], weight=lambda t: 1)[0]:
            continue
        ctx.violation("a program started with %s does not see what it was given (status %d)" % (c.argv(), T[i]["status"]),
                      {"argv": c.argv(), "status": T[i]["status"], "seen": bytes(T[i]["mem"]).hex()[:20000]})
