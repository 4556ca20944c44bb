"""Programs with threads, run by the command line tool (wasi-threads).

A program has a body per thread.  The bodies log 8-byte results in their own
slots of the shared memory; when all are done the main thread writes the
memory from LOG on to the standard output."""
import os
import signal
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from .wasm import FUNCREF, I32, I64, Module, const, elem_active, limits, u

CTL = 0         # number of threads that are done
BAR = 64        # barriers, 64 bytes apart, reused cyclically as a counter
IOV = 128
CELLS = 65536   # cells, 64 bytes apart


def mem_op(op, off=0, align=0):
    return bytes([op]) + u(align) + u(off)


def at_op(n, off=0, mem=0):
    w = 2 if n in (0, 1) else 3 if n == 2 else (2, 3, 0, 1, 0, 1, 2)[(n - 16) % 7]
    return b"\xfe" + u(n) + (u(w | 64) + u(mem) if mem else u(w)) + u(off)


def wr(addr, body):
    """store the i64 result of body at addr"""
    return const(I32, addr) + body + mem_op(0x37)


EXT = b"\xad"   # i64.extend_i32_u


def barrier(k, n):
    """spin until the n threads have come to barrier number k (1, 2, ...)"""
    return (const(I32, BAR) + const(I32, 1) + at_op(30) + b"\x1a"
            b"\x03\x40" + const(I32, BAR) + at_op(16) + const(I32, k * n) + b"\x49\x0d\x00\x0b")


class Prog:
    def __init__(self, mn=4, mx=16, nlog=0):
        self.m = m = Module()
        self.spawn = m.imp_func("wasi", "thread-spawn", (I32,), (I32,))
        self.fdw = m.imp_func("wasi_snapshot_preview1", "fd_write", (I32,) * 4, (I32,))
        self.clk = m.imp_func("wasi_snapshot_preview1", "clock_time_get", (I32, I64, I32), (I32,))
        self.exit = m.imp_func("wasi_snapshot_preview1", "proc_exit", (I32,), ())
        m.imp_mem("env", "memory", limits(mn, mx, True))
        m.export("memory", 2, 0)
        self.bodies = []
        self.locs = []
        self.pos = CELLS
        self.two = False
        self.after = b""      # of the main thread, when all are done

    def second(self):
        """another shared memory, with index 1"""
        if not self.two:
            self.two = True
            self.m.imp_mem("env", "memory2", limits(4, 16, True))

    def slot(self, n=8):
        a = self.pos
        self.pos += n
        return a

    def thread(self, body, locs=()):
        """body: code with locals 0 = thread id, 1 = argument"""
        self.bodies.append(body)
        self.locs.append(list(locs))

    def encode(self):
        m = self.m
        n = len(self.bodies)
        done = const(I32, CTL) + const(I32, 1) + at_op(30) + b"\x1a"
        fs = [m.func((I32, I32), (), l, b + (done if i else b"") + b"\x0b")
              for i, (b, l) in enumerate(zip(self.bodies, self.locs))]
        t = m.type((I32, I32), ())
        m.table(FUNCREF, n)
        m.elems.append(elem_active(const(I32, 0), fs))
        m.func((I32, I32), (), (), b"\x20\x00\x20\x01\x20\x01\x11" + u(t) + b"\x00\x0b", "wasi_thread_start")
        b = b""
        for i in range(1, n):
            # a spawn that fails ends the run
            b += const(I32, i) + b"\x10" + u(self.spawn) + const(I32, 1) + b"\x48\x04\x40" + \
                const(I32, 99) + b"\x10" + u(self.exit) + b"\x0b"
        b += const(I32, 0) + const(I32, 0) + b"\x10" + u(fs[0])
        b += b"\x03\x40" + const(I32, CTL) + at_op(16) + const(I32, n - 1) + b"\x47\x0d\x00\x0b"
        b += self.after
        b += const(I32, IOV) + const(I32, CELLS) + mem_op(0x36)
        b += const(I32, IOV + 4) + const(I32, self.pos - CELLS) + mem_op(0x36)
        b += const(I32, 1) + const(I32, IOV) + const(I32, 1) + const(I32, IOV + 8) + b"\x10" + u(self.fdw) + b"\x1a"
        m.func((), (), (), b + b"\x0b", "_start")
        return m.encode()


def _env(shim, seed, p, us, fail):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "exitcode=95:verify_asan_link_order=0:detect_leaks=1:allocator_may_return_null=1"
    e["LSAN_OPTIONS"] = "exitcode=94"
    if shim:
        e["LD_PRELOAD"] = shim
        e["SHIM_SEED"] = str(seed)
        e["SHIM_P"] = str(p)
        e["SHIM_US"] = str(us)
        if fail is not None:
            e["SHIM_FAILTHREAD"] = str(fail)
    return e


class Run:
    """outcome of one run: rc (negative signal), hang, out, err; still: it
    hung with no thread doing anything"""

    def __init__(self, rc, hang, out, err, still=False):
        self.rc, self.hang, self.out, self.err, self.still = rc, hang, out, err, still


def activity(pid):
    """states and processor time of the threads of a process"""
    l = []
    for t in os.listdir("/proc/%d/task" % pid):
        with open("/proc/%d/task/%s/stat" % (pid, t)) as fp:
            x = fp.read().rsplit(")", 1)[1].split()
        l.append((t, x[0], x[11], x[12]))
    return sorted(l)


def comm(pr, timeout):
    fin, pr.stdin = pr.stdin, None
    try:
        return pr.communicate(timeout=timeout)
    finally:
        pr.stdin = fin
        if fin and pr.returncode is not None:
            fin.close()


def run_one(b, wasm, timeout, shim=True, seed=1, p=0, us=100, fail=None, cpus=None, args=(), pre=(), stdin=False):
    with tempfile.NamedTemporaryFile(suffix=".wasm", prefix="thr-") as fp:
        fp.write(wasm)
        fp.flush()
        cmd = [b["cli"], "--wasi"] + list(pre) + [fp.name] + list(args)
        lib = os.path.join(b["bin"], "libshim.so")

        def setup():
            if cpus:
                os.sched_setaffinity(0, cpus)
        pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              stdin=subprocess.DEVNULL if stdin is False else subprocess.PIPE, preexec_fn=setup,
                              env=_env(lib if shim and (p or fail is not None) else None, seed, p, us, fail))
        if isinstance(stdin, bytes):
            # comes somewhat late, all at once
            time.sleep(0.05)
            try:
                pr.stdin.write(stdin)
                pr.stdin.close()
            except BrokenPipeError:
                pass
            pr.stdin = None
        end, last, same = time.monotonic() + timeout, None, 0
        while True:
            try:
                # with stdin, a pipe that stays open and empty
                out, err = comm(pr, 2)
                return Run(pr.returncode, False, out, err.decode(errors="replace")[-3000:])
            except subprocess.TimeoutExpired:
                try:
                    a = activity(pr.pid)
                except OSError:
                    a = None
                same = same + 1 if a and a == last and all(x[1] == "S" for x in a) else 0
                last = a
                if same < 5 and time.monotonic() < end:
                    continue
                pr.send_signal(signal.SIGKILL)
                out, err = comm(pr, None)
                return Run(pr.returncode, True, out, err.decode(errors="replace")[-3000:], same > 0)


def run_many(jobs, nproc=3):
    """jobs: list of keyword dictionaries for run_one; after two runs that did
    not end the rest is not run (None)"""
    hangs = []

    def one(j):
        if len(hangs) > 1:
            return None
        o = run_one(**j)
        if o.hang:
            hangs.append(o)
        return o
    with ThreadPoolExecutor(nproc) as ex:
        return list(ex.map(one, jobs))


def kws(b, v, r, i):
    """ways to disturb the schedule"""
    kw = {"b": b[v], "timeout": 30, "seed": i + 1}
    c = i % 4
    if c == 1:
        kw.update(p=300, us=200)
    elif c == 2:
        kw.update(p=20, us=3000)
    elif c == 3:
        kw.update(cpus={r.randrange(4), 4 + r.randrange(4)})
    return kw


def execute(ctx, jobs):
    """jobs: [(name, wasm, size of the output, kw)].  A run that did not end
    must do so again to be reported, unless no thread of it did anything any
    more; a crash or a wrong status is final."""
    def ok(o, size):
        return o.rc == 0 and not o.hang and len(o.out) == size
    outs = run_many([dict(kw, wasm=w) for _, w, _, kw in jobs])
    for i, ((nm, w, size, kw), o) in enumerate(zip(jobs, outs)):
        if o is None or ok(o, size):
            continue
        if ctx.viol and o.hang:
            outs[i] = None
            continue
        first = o
        if (o.hang and not o.still) or o.rc == -signal.SIGKILL:
            for _ in range(4):
                o = run_one(**dict(kw, wasm=w))
                if not ok(o, size):
                    break
        if ok(o, size):
            outs[i] = o
            continue
        outs[i] = None
        ctx.violation("%s: program with threads %s" % (nm, "did not end" if o.hang else "failed"),
                      {"wasm": w.hex(), "rc": [first.rc, o.rc], "hang": [first.hang, o.hang],
                       "out": [len(o.out), size], "err": o.err[-1500:],
                       "kw": {k: str(v) for k, v in kw.items() if k != "b"}})
    return outs
