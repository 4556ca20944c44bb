"""Sessions with the WASI driver: a guest whose calls are chosen one by one.

Nothing here decides whether an answer is right; the recorded events are
judged by spec/WasiTrace.tla.  The little that is remembered about earlier
answers only serves to choose interesting next calls and to avoid calls that
would wait forever.
"""
import json
import os
import select
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from . import wasm
from .wasm import I32, I64

UID = 65534
MEM = 65536

SIGS = {
    "args_get": "ii", "args_sizes_get": "ii", "clock_res_get": "ii", "clock_time_get": "iIi",
    "environ_get": "ii", "environ_sizes_get": "ii", "fd_advise": "iIIi", "fd_allocate": "iII",
    "fd_close": "i", "fd_datasync": "i", "fd_fdstat_get": "ii", "fd_fdstat_set_flags": "ii",
    "fd_fdstat_set_rights": "iII", "fd_filestat_get": "ii", "fd_filestat_set_size": "iI",
    "fd_filestat_set_times": "iIIi", "fd_pread": "iiiIi", "fd_prestat_dir_name": "iii",
    "fd_prestat_get": "ii", "fd_pwrite": "iiiIi", "fd_read": "iiii", "fd_readdir": "iiiIi",
    "fd_renumber": "ii", "fd_seek": "iIii", "fd_sync": "i", "fd_tell": "ii", "fd_write": "iiii",
    "path_create_directory": "iii", "path_filestat_get": "iiiii",
    "path_filestat_set_times": "iiiiIIi", "path_link": "iiiiiii", "path_open": "iiiiiIIii",
    "path_readlink": "iiiiii", "path_remove_directory": "iii", "path_rename": "iiiiii",
    "path_symlink": "iiiii", "path_unlink_file": "iii", "poll_oneoff": "iiii", "proc_exit": "i",
    "random_get": "ii", "sched_yield": "", "sock_accept": "iii", "sock_recv": "iiiiii",
    "sock_send": "iiiii", "sock_shutdown": "ii",
}


def module():
    """imports every call from both versions and exports a wrapper of each"""
    m = wasm.Module()
    todo = []
    for pre, mod in (("p1", "wasi_snapshot_preview1"), ("un", "wasi_unstable")):
        for n, s in SIGS.items():
            if pre == "un" and n == "sock_accept":
                continue
            p = [I32 if c == "i" else I64 for c in s]
            r = [] if n == "proc_exit" else [I32]
            todo.append((pre + "." + n, m.imp_func(mod, n, p, r), p, r))
    for i, (n, f, p, r) in enumerate(todo):
        m.funcs.append(m.type(p, r))
        body = b"".join(b"\x20" + wasm.u(k) for k in range(len(p)))
        m.codes.append(([], body + b"\x10" + wasm.u(f) + b"\x0b"))
        m.export(n, 0, len(todo) + i)
    m.mems.append(wasm.limits(1, 1))
    m.export("memory", 2, 0)
    return m.encode()


def u32(v):
    v &= 0xffffffff
    return v if v < 1 << 29 else (1 << 29) + (v & 0xff)


def b8(v):
    return list((v & (1 << 64) - 1).to_bytes(8, "little"))


class Hang(Exception):
    pass


class Died(Exception):
    pass


class Session:
    """One driver process.  The model root is DIR; `nodes` describes it."""

    def __init__(self, exe, wasmfile, scratch, preload=None):
        self.dir = tempfile.mkdtemp(prefix="s", dir=scratch)
        self.root = os.path.join(self.dir, "r")
        os.mkdir(self.root)
        self.exe, self.wasmfile = exe, wasmfile
        self.ino = [None, {"k": "d", "c": [], "e": [], "p": 0}]
        self.late, self.cap = None, []
        self.fd, self.str, self.args, self.envs = [], [], [], []
        self.v = []
        self.p = None

    # ---- before the start
    def mk(self, path, kind, c=b""):
        """a file, directory or link in the tree; returns its node"""
        comps = path.split("/")
        par = 1
        for x in comps[:-1]:
            par = dict((bytes(n).decode(), i) for n, i in self.ino[par]["e"])[x]
        i = len(self.ino)
        self.ino.append({"k": kind, "c": list(c), "e": [], "p": par if kind == "d" else 0})
        self.ino[par]["e"].append([list(comps[-1].encode()), i])
        full = os.path.join(self.root, path)
        if kind == "d":
            os.mkdir(full)
        elif kind == "l":
            os.symlink(c.decode(), full)
        else:
            with open(full, "wb") as fp:
                fp.write(c)
        return i

    def node(self, path):
        i = 1
        for x in path.split("/"):
            i = dict((bytes(n).decode(), k) for n, k in self.ino[i]["e"])[x]
        return i

    def start(self):
        for d, ds, fs in os.walk(self.dir):
            for x in [d] + [os.path.join(d, y) for y in ds + fs]:
                os.chown(x, UID, UID, follow_symlinks=False)
        self.p = subprocess.Popen([self.exe, self.wasmfile, str(UID), self.root],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open(os.path.join(self.dir, "err"), "wb"),
                                  env={"PATH": "/usr/bin:/bin", "ASAN_OPTIONS": "detect_leaks=1",
                                       "TZ": "UTC"})
        self.buf = b""

    def err(self):
        try:
            with open(os.path.join(self.dir, "err"), "rb") as fp:
                return fp.read()[-3000:].decode("latin1")
        except OSError:
            return ""

    def cmd(self, line, timeout=20):
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            raise Died("driver gone")
        end = time.time() + timeout
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r:
                raise Hang(line[:200])
            x = os.read(self.p.stdout.fileno(), 1 << 20)
            if not x:
                raise Died("driver ended: %s" % line[:200])
            self.buf += x
        l, self.buf = self.buf.split(b"\n", 1)
        return json.loads(l)

    # ---- configuration
    def strings(self, args, envs):
        self.args, self.envs = [list(x) for x in args], [list(x) for x in envs]
        if args:
            self.cmd("A " + " ".join(x.hex() or "-" for x in args))
        if envs:
            self.cmd("V " + " ".join(x.hex() or "-" for x in envs))

    def preopen(self, host, guest):
        r = self.cmd("P " + (host + "::" + guest).encode().hex())
        n = 3 + sum(1 for f in self.fd if f["k"] == "pre")
        self.fd.append({"n": n, "k": "pre", "i": self.node(host), "rd": 1, "wr": 1, "ap": 0,
                        "nm": list(guest.encode()), "hp": list(host.encode())})
        if r["r"] != 0:
            raise Died("preopen %s" % r)
        return n

    def hostfd(self, n, kind, path=None):
        r = self.cmd("H %d %s%s" % (n, kind, " " + path if path else ""))
        if r["r"] != 0:
            raise Died("hostfd %s" % r)
        k = {"pr": "pipe", "pw": "pipe", "pq": "pipe", "ss": "sock", "sl": "lst", "nul": "nul"}.get(kind, "file")
        i = n
        if k == "file":
            i = self.node(path)
        elif k != "nul":
            self.str.append(n)
            if kind == "pq":
                self.cap.append(n)
        self.fd.append({"n": n, "k": k, "i": i, "rd": int(kind not in ("pw", "pq")),
                        "wr": int(kind not in ("pr", "ro")), "ap": int(kind == "ap"),
                        "nm": [], "hp": []})

    def inst(self):
        self.cmd("I")

    # ---- events
    def call(self, name, args, segs=(), un=0):
        l = "C %s.%s %s" % ("un" if un else "p1", name, " ".join(str(a) for a in args))
        for a, b in segs:
            if b:
                l += " ; %d %s" % (a, b.hex())
        self.last = l
        o = self.cmd(l)
        if self.late is not None:
            self.v.append(self.peer_event(*self.late, o["late"]))
            self.late = None
        sig = SIGS[name]
        e = {"v": "call", "c": name, "u": un,
             "a": [u32(a) if c == "i" else b8(a) for a, c in zip(args, sig)],
             "s": [[a, list(b)] for a, b in segs if b],
             "r": o["r"], "t": o["t"], "g": o["g"]}
        if name in ("clock_time_get", "poll_oneoff"):
            e["lo"], e["hi"] = [b8(x) for x in o["lo"]], [b8(x) for x in o["hi"]]
            e["ns"] = b8(o["hi"][1] - o["lo"][1])
        if name == "clock_res_get":
            e["res"] = [b8(x) for x in o["res"]]
        if name == "proc_exit":
            e["x"], e["code"] = b8(o["x"]), b8(args[0] & 0xffffffff)
        self.v.append(e)
        return e

    def peer(self, i, op, k=0, b=b""):
        """other end of stream i: w(rite b) r(ead k) c(lose) s(hutdown k) n(ew stream k)"""
        e = self.peer_event(i, op, k, b, self.cmd("O %d %s %s" % (i, op, self.peer_arg(op, k, b))))
        self.v.append(e)
        return e

    def peer_arg(self, op, k, b):
        return {"w": b.hex(), "r": str(k), "s": str(k), "n": str(k), "c": "-"}[op]

    def peer_event(self, i, op, k, b, o):
        return {"v": "peer", "i": i, "op": op, "k": k, "n": o["n"], "e": o["e"],
                "b": list(b) if op == "w" else o["b"]}

    def later(self, i, op, k=0, b=b"", intr=0):
        """the same, while the next call waits for it: the call ends after it"""
        self.cmd("L %d %d %s %s" % (intr, i, op, self.peer_arg(op, k, b)))
        self.late = (i, op, k, b)

    def interrupts(self, n):
        """the next call is interrupted n times"""
        self.cmd("L %d" % n)

    def tree(self):
        self.v.append(dict(self.cmd("T ."), v="tree"))

    def end(self):
        o = self.cmd("E")
        self.v.append({"v": "end", "open": o["open"], "mem": o["mem"]})
        self.p.stdin.close()
        try:
            rc = self.p.wait(30)
        except subprocess.TimeoutExpired:
            raise Hang("exit")
        if rc != 0:
            raise Died("status %d" % rc)

    def kill(self):
        if self.p is not None:
            if self.p.poll() is None:
                self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            try:
                self.p.stdin.close()
            except OSError:
                pass

    def clean(self):
        self.kill()
        assert self.dir.startswith("/tmp/wasi-")
        shutil.rmtree(self.dir, ignore_errors=True)

    def trace(self):
        return {"ino": self.ino[1:], "fd": self.fd, "str": self.str, "cap": self.cap, "args": self.args,
                "envs": self.envs, "v": self.v}


def got(e, addr, n):
    """bytes after the call"""
    out = []
    for a in range(addr, addr + n):
        x = 238
        for s, b in e["s"]:
            if s <= a < s + len(b):
                x = b[a - s]
        for s, b in e["g"]:
            if s <= a < s + len(b):
                x = b[a - s]
        out.append(x)
    return out


def run(ctx, b, jobs, nproc=6):
    """jobs: (variant, function(session, job) that drives one session).
    Returns [(trace or None, failure or None)]."""
    scratch = tempfile.mkdtemp(prefix="wasi-", dir="/tmp")
    os.chmod(scratch, 0o755)
    wf = os.path.join(scratch, "m.wasm")
    with open(wf, "wb") as fp:
        fp.write(module())

    def one(job):
        variant, fn = job
        s = Session(os.path.join(b[variant]["bin"], "wasidrv"), wf, scratch)
        try:
            fn(s)
            return s.trace(), None
        except (Hang, Died) as x:
            s.kill()
            return s.trace(), "%s: %s\n%s" % (type(x).__name__, x, s.err())
        finally:
            s.clean()
    try:
        with ThreadPoolExecutor(nproc) as ex:
            return list(ex.map(one, jobs))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
