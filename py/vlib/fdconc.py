"""Threads that use the same descriptors at the same time."""
import os
import shutil
import struct
import tempfile

from . import thr
from .wasm import I32, I64, const, u

TKT = 256           # the next ticket
SCR = 4096          # scratch, 256 bytes per thread
FIRST = 4           # descriptor of the first file; 3 is the directory
KINDS = ["open", "close", "renumber", "tell", "seek", "write", "read", "size"]


class Prog:
    def __init__(self, r):
        self.r = r
        self.p = p = thr.Prog()
        m, w = p.m, "wasi_snapshot_preview1"
        f = {"open": ((I32,) * 5 + (I64, I64, I32, I32)), "close": (I32,), "renumber": (I32, I32), "tell": (I32, I32),
             "seek": (I32, I64, I32, I32), "read": (I32,) * 4, "size": (I32, I32)}
        n = {"open": "path_open", "size": "fd_filestat_get"}
        self.fn = {k: m.imp_func(w, n.get(k, "fd_" + k), a, (I32,)) for k, a in f.items()}
        self.fn["write"] = p.fdw
        nth = r.choice([2, 3, 3, 4])
        nf = r.choice([1, 2, 3])
        self.n = r.choice([0, 3, 8, 20])        # bytes for the standard input
        self.ops = [[] for _ in range(nth)]
        fds = [FIRST + k for k in range(nf + 1)] + [0] * r.choice([0, 1, 1])
        for i in range(nth):
            b = b""
            if i == 0:
                for k in range(nf):
                    b += self.op(i, "open", k + 2, 0)
            b += thr.barrier(1, nth)
            w = [2, 3, 3, 2, 2, 4, 3, 1] if r.random() < 0.7 else [3, 4, 4, 1, 1, 2, 1, 0]
            for _ in range(r.randrange(3, 9)):
                k = r.choices(KINDS, w)[0]
                fd = r.choice(fds)
                x, y = {"open": (r.randrange(2, 2 + nf), 0), "renumber": (fd, r.choice(fds)),
                        "seek": (fd, r.choice([0, 5, 100])), "write": (fd, r.choice([1, 3, 7, 0])),
                        "read": (fd, r.choice([1, 4, 9, 30]))}.get(k, (fd, 0))
                if k == "write" and x == 0:
                    k = "read"
                b += self.op(i, k, x, y)
            p.thread(b, (I32, I32))
        self.wasm = p.encode()

    def op(self, i, k, x, y):
        s = SCR + 256 * i
        tick = const(I32, TKT) + const(I32, 1) + thr.at_op(30)
        st = lambda a, b, o=0x36: const(I32, a) + b + thr.mem_op(o)
        pre, val = b"", const(I32, 0)
        ld = const(I32, s) + thr.mem_op(0x28)
        if k == "open":
            pre = st(s + 8, const(I32, ord("f") | (ord("0") + x) << 8))
            a = const(I32, 3) + const(I32, 0) + const(I32, s + 8) + const(I32, 2) + const(I32, 1) + const(I64, 0x1fffffff) * 2 + \
                const(I32, 0) + const(I32, s)
            val = ld
        elif k == "close":
            a = const(I32, x)
        elif k == "renumber":
            a = const(I32, x) + const(I32, y)
        elif k == "tell":
            a = const(I32, x) + const(I32, s)
            val = ld
        elif k == "seek":
            a = const(I32, x) + const(I64, y) + const(I32, 0) + const(I32, s)
            val = ld
        elif k == "size":
            a = const(I32, x) + const(I32, s)
            val = const(I32, s + 32) + thr.mem_op(0x28)
        else:
            pre = st(s + 8, const(I32, s + 64)) + st(s + 12, const(I32, y))
            a = const(I32, x) + const(I32, s + 8) + const(I32, 1) + const(I32, s)
            val = ld
        at = self.p.slot(16)
        self.ops[i].append((k, x, y, at - thr.CELLS))
        # locals 2, 3: the first ticket, the error
        return pre + tick + b"\x21\x02" + a + b"\x10" + u(self.fn[k]) + b"\x21\x03" + st(at + 4, tick) + \
            st(at, b"\x20\x02") + st(at + 8, b"\x20\x03") + st(at + 12, val)

    def trace(self, out):
        s = []
        for l in self.ops:
            s.append([])
            for k, x, y, at in l:
                a, b, e, v = struct.unpack_from("<4I", out, at)
                s[-1].append({"k": k, "x": x, "y": y, "a": a, "b": b, "e": e, "v": v if e == 0 else 0})
        return {"s": s, "n": self.n}


def run_one(kw, prog):
    td = tempfile.mkdtemp(prefix="fdc-")
    try:
        return thr.run_one(wasm=prog.wasm, pre=("--wasi-dir", td), stdin=b"x" * prog.n, **kw)
    finally:
        shutil.rmtree(td)
