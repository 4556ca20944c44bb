"""Sessions of the command line tool: modules of a simple family, options and
REPL commands, and what the tool prints."""
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from . import tr
from .wasm import (EXTERNREF, F32, F64, FUNCREF, I32, I64, V128, Module, const, elem_active, u)

PROMPT = "@@%%"
TYPES = [I32, I64, F32, F64, V128, EXTERNREF, FUNCREF]
FNAMES = [b"f", b"g0", b"", b"a b", "é≠".encode(), b'q"q', b"b\\x", b"_start", b"add", b"h-1", b"z\0y", b"F",
          b"f ", b"ff"]
GNAMES = [b"glob", b"G", b"g g", b"c", b"counter"]
REGS = [b"A", b"B", b"env", b"a-long-name"]


def nbytes(t):
    return {I32: 4, F32: 4, I64: 8, F64: 8, V128: 16}.get(t, 8)


def const_of(t, v):
    if t in (FUNCREF, EXTERNREF):
        return b"\xd0" + bytes([t])
    if t == V128:
        return b"\xfd\x0c" + bytes(v)
    if t == F32:
        return b"\x43" + bytes(v)
    if t == F64:
        return b"\x44" + bytes(v)
    return const(t, int.from_bytes(bytes(v), "little"))


def value(r, t):
    if t in (FUNCREF, EXTERNREF):
        return []
    n = nbytes(t)
    x = r.random()
    if x < 0.3:
        return list(r.randrange(200).to_bytes(n, "little"))
    if x < 0.5:
        return list(r.choice([0, 1 << (8 * n - 1), (1 << (8 * n)) - 1, (1 << (8 * n - 1)) - 1]).to_bytes(n, "little"))
    return [r.randrange(256) for _ in range(n)]


def traps(m, rec):
    """(acceptable numbers, body)"""
    ty = m.type((), ())
    return [
        ([4], b"\x00"),
        ([1], const(I32, 1) + const(I32, 0) + b"\x6d\x1a\x00"),
        ([2], const(I32, -(1 << 31)) + const(I32, -1) + b"\x6d\x1a\x00"),
        ([3], const(I32, -1) + b"\x28\x02\x00\x1a\x00"),
        ([8], const(I32, 1) + b"\x11" + u(ty) + b"\x00\x00"),
        ([7], const(I32, 5) + b"\x11" + u(ty) + b"\x00\x00"),
        ([9], const(I32, 0) + b"\x11" + u(ty) + b"\x00\x00"),
        ([10], b"\x43\x00\x00\xc0\x7f\xa8\x1a\x00"),
        ([14], const(I32, 100) + b"\x25\x00\x1a\x00"),
        ([5, 6], b"\x10" + u(rec) + b"\x00"),
        ([20], b"\x08\x00\x00"),
        ([17], const(I32, 1) + b"\xfe\x10\x02\x00\x1a\x00"),
        ([16], const(I32, 0) + const(I32, 0) + const(I64, 0) + b"\xfe\x01\x02\x00\x1a\x00"),
    ]


def make(r, lib, wasi):
    """a module: (description, bytes); imports refer to earlier ones of lib"""
    d = {"ok": 1, "imps": [], "fns": [], "gls": [], "cex": 0, "cnm": [], "cv": [0] * 8, "start": 0, "reg": []}
    m = Module()
    names = r.sample(FNAMES, len(FNAMES))
    gnames = r.sample(GNAMES, len(GNAMES))
    # imports
    fimps = []
    src = [x for x in lib if x["ok"] and x["reg"]]
    for k in range(r.choice([0, 1, 1, 2]) if src else r.choice([0, 0, 0, 1])):
        o = r.choice(src) if src and r.random() < 0.9 else None
        if o is None:
            fimps.append((r.choice(REGS), r.choice(FNAMES), [I32], [I32]))
            continue
        fs = [x for x in o["fns"] if x["ex"]]
        if not fs:
            continue
        f = r.choice(fs)
        p, q = list(f["p"]), list(f["r"])
        if r.random() < 0.08:
            p = p + [I32]
        nm = bytes(f["nm"]) if r.random() < 0.93 else b"nonesuch"
        fimps.append((bytes(o["reg"]), nm, p, q))
    for mm, nm, p, q in fimps:
        m.imp_func(mm, nm, tuple(p), tuple(q))
        d["imps"].append({"k": "f", "m": list(mm), "n": list(nm), "p": p, "r": q})
    ex = None
    if wasi and r.random() < 0.5 or r.random() < 0.03:
        ex = m.imp_func("wasi_snapshot_preview1", "proc_exit", (I32,), ())
        d["imps"].append({"k": "x", "m": [], "n": [], "p": [], "r": []})
    gsrc = [x for x in src if x["cex"]]
    if gsrc and r.random() < 0.4:
        o = r.choice(gsrc)
        m.imp_global(bytes(o["reg"]), bytes(o["cnm"]), I64, True)
        d["imps"].append({"k": "g", "m": o["reg"], "n": o["cnm"], "p": [], "r": []})
    else:
        d["cv"] = value(r, I64) if r.random() < 0.3 else list(r.randrange(50).to_bytes(8, "little"))
        m.glob(I64, True, const_of(I64, d["cv"]))
    m.mem(1)
    m.table(FUNCREF, 2)
    m.tag(())
    bump = b"\x23\x00" + const(I64, 1) + b"\x7c\x24\x00"
    # functions that are not exported, for the traps
    odd = m.func((I32, I32), (I32,), (), b"\x20\x00\x0b")
    nimp = len(fimps) + (ex is not None)
    rec = nimp + 1
    m.func((), (), (), b"\x10" + u(rec) + b"\x0b")
    m.elems.append(elem_active(const(I32, 0), [odd]))
    for _ in range(2):
        d["fns"].append({"ex": 0, "nm": [], "k": "id", "p": [], "r": [], "vs": [], "ids": [], "code": 0, "j": 0})

    def add(k, p, q, body, vs=(), ids=(), code=0, j=0, export=True):
        i = m.func(tuple(p), tuple(q), (), body + b"\x0b")
        nm = names.pop() if export else b""
        if export and not p and b"_start" in names and r.random() < 0.5:
            names.append(nm)
            names.remove(b"_start")
            nm = b"_start"
        if export:
            m.export(nm, 0, i)
        d["fns"].append({"ex": int(export), "nm": list(nm), "k": k, "p": list(p), "r": list(q), "vs": list(vs),
                         "ids": list(ids), "code": code, "j": j})

    tl = lambda n: [r.choice(TYPES) for _ in range(n)]
    for _ in range(r.randrange(3, 9)):
        x = r.random()
        if x < 0.3:
            p = tl(r.choice([0, 1, 1, 2, 2, 3, 5, 9]))
            add("id", p, p, b"".join(b"\x20" + u(i) for i in range(len(p))))
        elif x < 0.42:
            q = tl(r.choice([0, 1, 2, 4]))
            vs = [value(r, t) for t in q]
            add("const", tl(r.randrange(2)), q, b"".join(const_of(t, v) for t, v in zip(q, vs)), vs=vs)
        elif x < 0.58:
            add("inc", [I32], [I64], b"\x23\x00\x20\x00\xad\x7c\x24\x00\x23\x00")
        elif x < 0.66:
            add("get", [], [I64], b"\x23\x00")
        elif x < 0.82:
            ids, body = r.choice(traps(m, rec))
            add("trap", tl(r.randrange(2)), tl(r.randrange(2)), bump + body + b"\x00", ids=ids)
        elif x < 0.9 and ex is not None:
            code = r.choice([0, 1, 2, 7, 42, 125, 200, 255])
            add("exit", [], tl(r.randrange(2)), bump + const(I32, code) + b"\x10" + u(ex) + b"\x00", code=code)
        elif fimps:
            j = r.randrange(len(fimps))
            p, q = fimps[j][2:]
            add("imp", p, q, bump + b"".join(b"\x20" + u(i) for i in range(len(p))) + b"\x10" + u(j), j=j + 1)
    for _ in range(r.randrange(3)):
        t = r.choice(TYPES)
        v = value(r, t)
        i = m.glob(t, False, const_of(t, v))
        nm = gnames.pop()
        m.export(nm, 3, i)
        d["gls"].append({"ex": 1, "nm": list(nm), "t": t, "v": v})
    if r.random() < 0.6:
        d["cex"], d["cnm"] = 1, list(gnames.pop())
        m.export(bytes(d["cnm"]), 3, 0)
    if r.random() < 0.25:
        ok = [k for k, f in enumerate(d["fns"]) if not f["p"] and not f["r"] and k >= 2]
        if ok:
            k = r.choice(ok)
            d["start"] = k + 1
            m.start = nimp + k
    b = m.encode()
    x = r.random()
    if x < 0.12:
        d["ok"] = 0
        if x < 0.04:
            ends, at = {8}, 8       # whole sections may be a module
            for _, q in m.sections():
                at += 1 + len(u(len(q))) + len(q)
                ends.add(at)
            n = r.randrange(len(b))
            b = b[:n - 1 if n in ends else n]
        elif x < 0.08:
            b = b"\0asm\x02" + b[5:]
        else:
            m.func((), (I32,), (), b"\x42\x00\x0b")
            b = m.encode()
    d["reg"] = list(r.choice(REGS))
    return d, b


def escape(r, nm):
    if nm == b"":
        return '""'
    s = ""
    for c in nm:
        if c <= 32 or c >= 127 or c in b'"\\' or r.random() < 0.04:
            s += ("\\x%02x" if r.random() < 0.7 else "\\x%02X") % c
        else:
            s += chr(c)
    if r.random() < 0.05:
        s = '"' + s + '"'
    return s


def literal(r, t, good=False):
    """an argument, sometimes wrong"""
    x = r.random()
    if good:
        x = 0.2 + 0.7 * x
    if t == V128:
        s = "%032x" % int.from_bytes(bytes(value(r, V128)), "little")
        if x < 0.1:
            k = r.randrange(32)
            s = r.choice([s[:-1], s + "0", s[:k] + "g" + s[k + 1:], s[:31] + "-", s[:20] + "  "[:1].replace(" ", ".") + s[21:],
                          "0x" + s[2:], "-" + s[1:], s[:16] + "+" + s[17:]])
        return s.upper() if r.random() < 0.2 else s
    if t in (FUNCREF, EXTERNREF):
        if t == FUNCREF or x < 0.4:
            return "null" if x < 0.95 or t == EXTERNREF else r.choice(["nul", "nulll", "x"])
        v = r.choice([0, 1, 5, 1 << 32, (1 << 63) + 5, r.randrange(1 << 60)])
        return str(v) if r.random() < 0.8 else hex(v)
    n = nbytes(t)
    if x < 0.14:
        return r.choice(["", "x", "1x", "0x", "0xg", str(1 << (8 * n)), str((1 << (8 * n)) + 5), str(1 << 64), "9" * 30,
                         "-1", "-5", "+7", "1.5", "1e3", "--1", "0x" + "f" * 17, "null", "1,2", "0b1", str((1 << 32) - 1),
                         str(1 << 32), "08", "010", "%d" % (1 << 33)]) or "y"
    v = int.from_bytes(bytes(value(r, {I32: I32, F32: I32}.get(t, I64))), "little")
    return str(v) if r.random() < 0.75 else (hex(v) if r.random() < 0.7 else hex(v).upper().replace("0X", "0x"))


class Session:
    def __init__(self, r, cli):
        self.r = r
        self.wasi = int(r.random() < 0.5)
        self.au = int(r.random() < 0.15)
        self.lib, self.bytes, self.files = [], [], {}
        for i in range(r.randrange(3, 7)):
            d, b = make(r, self.lib, self.wasi)
            self.lib.append(d)
            self.bytes.append(b)
            self.files["m%d.wasm" % i] = i + 1
        self.files["empty.wasm"] = 0
        self.mods = []          # (name, module), as far as known
        self.reg = set()
        self.names = ["x", "mod1", "$m", "load", "é", "mod", "mod12", "x1"]
        r.shuffle(self.names)
        self.nsave = 0
        self.saved = []
        self.opts = []
        self.run = None
        self.repl = not cli
        self.slow = False
        if cli:
            for _ in range(r.choice([0, 1, 2, 3, 5])):
                self.opts.append(self.cmd(True))
            if r.random() < 0.6:
                self.run = r.choice([f for f, i in self.files.items() if i and self.starts(self.lib[i - 1])] or
                                    list(self.files)) if r.random() < 0.8 else r.choice(list(self.files))
            self.cmds = []
        else:
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                self.opts.append(self.cmd(True))
            n = r.randrange(8, 30)
            self.cmds = [self.cmd(False) for _ in range(n)]
            if r.random() < 0.3:
                self.cmds.append({"c": "exit"})
            self.slow = r.random() < 0.2

    @staticmethod
    def starts(d):
        return d["ok"] and any(f["ex"] and bytes(f["nm"]) == b"_start" and not f["p"] for f in d["fns"])

    def target(self, cli, c):
        """which module: (has, name, index or None)"""
        r = self.r
        named = [x for x in self.mods if x[0]]
        if not cli and named and r.random() < 0.5:
            nm, i = r.choice(named)
        elif not cli and r.random() < 0.04:
            nm, i = r.choice([n for n in ("nobody", "mo", "mod123", "xx", "$", "l") if n not in [y[0] for y in named]]), None
        else:
            nm, i = None, self.mods[-1][1] if self.mods else None
        c["has"], c["nm"] = int(nm is not None), list((nm or "").encode())
        return i

    def cmd(self, cli):
        r = self.r
        c = {"v": "cmd", "has": 0, "nm": [], "f": [], "tok": [], "args": [], "mi": 0, "w": 0}
        x = r.random()
        if not self.mods:
            x = x * 0.3 if r.random() < 0.85 else x
        if x < 0.22:
            avail = list(self.files) + (["none.wasm"] if r.random() < 0.2 else []) + self.saved
            if r.random() < 0.7:    # one that can be linked
                avail = [f for f in self.files if self.files[f] and self.lib[self.files[f] - 1]["ok"] and
                         all(bytes(im["m"]) in self.reg for im in self.lib[self.files[f] - 1]["imps"] if im["k"] != "x")] or avail
            f = r.choice(avail)
            i = self.files.get(f) or None
            if not cli and self.names and r.random() < 0.5:
                nm = self.names.pop()
                c["has"], c["nm"] = 1, list(nm.encode())
            else:
                nm = None
            ok = i and self.lib[i - 1]["ok"] and all(bytes(im["m"]) in self.reg for im in self.lib[i - 1]["imps"]
                                                     if im["k"] != "x")
            if ok:
                self.mods.append((nm, i))
            if not cli and i and r.random() < 0.25:
                c["c"], c["mi"] = "hex", i
            else:
                c["c"], c["f"] = "load", list(f.encode())
            return c
        if x < 0.34:
            c["c"] = "register"
            i = self.target(cli, c)
            nm = bytes(self.lib[i - 1]["reg"]) if i and r.random() < 0.85 else r.choice(REGS)
            if i:
                self.reg.add(nm)
            c["f"] = list(nm)
            return c
        if x < 0.78:
            c["c"] = "invoke"
            i = self.target(cli, c)
            fs = [f for f in self.lib[i - 1]["fns"] if f["ex"]] if i else []
            if not fs or r.random() < 0.06:
                tok, n = r.choice(["nope", "f", "a\\x2", "\\q", '"f', "\\x66", "glob"]), r.randrange(2)
                c["args"] = [list(b"1")] * n
            else:
                f = r.choice(fs)
                tok = escape(r, bytes(f["nm"]))
                good = cli and r.random() < 0.8
                a = [literal(r, t, good) for t in f["p"]]
                if not good and r.random() < 0.06:
                    a = a[:-1] if a and r.random() < 0.5 else a + ["1"]
                c["args"] = [list(y.encode()) for y in a]
            c["tok"] = list(tok.encode())
            return c
        if cli:
            return self.cmd(cli)
        if x < 0.9:
            c["c"] = "global-get"
            i = self.target(cli, c)
            nms = [g["nm"] for g in self.lib[i - 1]["gls"]] + ([self.lib[i - 1]["cnm"]] if self.lib[i - 1]["cex"] else []) \
                if i else []
            c["tok"] = list((escape(r, bytes(r.choice(nms))) if nms and r.random() < 0.92 else
                             r.choice(["nope", "f", "\\x", '"c'])).encode())
            return c
        if x < 0.94:
            c["c"] = "save"
            self.target(cli, c)
            if r.random() < 0.8:
                f, c["w"] = "s%d.wasm" % self.nsave, 1
                self.nsave += 1
                self.saved.append(f)
            else:
                f = r.choice(["nodir/x.wasm", "."])
            c["f"] = list(f.encode())
            return c
        if x < 0.96:
            c["c"] = "init"
            self.mods, self.reg = [], set()
            return c
        if x < 0.98:
            c["c"] = "junk"
            c["f"] = list(r.choice(["", "   ", "hello", "load m0.wasm", ":nosuch", ":nosuch x", "invoke f"]).encode())
            return c
        c["c"] = "half"
        c["f"] = list(r.choice([":module x", ":invoke  ", ":module  x  "]).encode())
        return c

    def text(self, c):
        """the line of a command"""
        r = self.r
        if c["c"] == "exit":
            return b":exit\n"
        if c["c"] in ("junk", "half"):
            return bytes(c["f"]) + b"\n"
        if c["c"] == "init":
            return b":init\n"
        head = b":"
        if c["has"]:
            head = b":module " + bytes(c["nm"]) + b" "
        if c["c"] == "hex":
            b = self.bytes[c["mi"] - 1]
            return head + b"load-hex %d\n" % len(b) + b.hex().encode() + b"\n"
        if c["c"] in ("load", "register", "save"):
            return head + c["c"].encode() + b" " + bytes(c["f"]) + b"\n"
        if c["c"] == "global-get":
            return head + b"global-get " + bytes(c["tok"]) + b"\n"
        sp = b" " if r.random() < 0.9 else b"   "
        return head + b"invoke " + sp.join([bytes(c["tok"])] + [bytes(a) for a in c["args"]]) + b"\n"

    def argv(self):
        a = ["--max-frames", "300"]
        if self.wasi:
            a.append("--wasi")
        if self.au:
            a.append("--allow-unresolved-functions")
        for c in self.opts:
            if c["c"] == "load":
                a += ["--load", os.fsdecode(bytes(c["f"]))]
            elif c["c"] == "register":
                a += ["--register", os.fsdecode(bytes(c["f"]))]
            else:
                a += ["--invoke", os.fsdecode(b" ".join([bytes(c["tok"])] + [bytes(x) for x in c["args"]]))]
        if self.repl:
            a += ["--repl", "--repl-prompt", PROMPT]
        elif self.run:
            a += ["--", self.run]
        return a


def lines(b):
    out, traps_ = [], []
    for l in b.split(b"\n"):
        if not l or len(out) > 60:
            continue
        if l.startswith((b"Result: ", b"Error: ")):
            out.append(list(l))
            m = re.match(rb"Error: \[trap\] (.*?) \((\d+)\): ", l)
            if m:
                traps_.append({"msg": m.group(1).decode("latin1"), "id": int(m.group(2))})
    return out, traps_


def slow(argv, text, s, td, env):
    """input that arrives in pieces, some of them cut within a module"""
    cuts, at = [], 0
    for l in text.splitlines(True):
        if len(l) > 4 and s.r.random() < 0.3:
            cuts.append(at + s.r.randrange(1, len(l)))
        at += len(l)
    cuts = [0] + cuts[:6] + [len(text)]
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
        p = subprocess.Popen(argv, stdin=subprocess.PIPE, cwd=td, env=env, stdout=out, stderr=err)
        try:
            for a, b in zip(cuts, cuts[1:]):
                p.stdin.write(text[a:b])
                p.stdin.flush()
                time.sleep(0.03)
            p.stdin.close()
        except BrokenPipeError:
            pass
        try:
            p.wait(60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise
        out.seek(0)
        err.seek(0)
        return subprocess.CompletedProcess(argv, p.returncode, out.read(), err.read())


def execute(cli, s):
    """(trace, failure)"""
    td = tempfile.mkdtemp(prefix="repl-")
    try:
        for f, i in s.files.items():
            with open(os.path.join(td, f), "wb") as fp:
                fp.write(s.bytes[i - 1] if i else b"")
        text = b"".join(s.text(c) for c in s.cmds)
        env = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=1", UBSAN_OPTIONS="exitcode=99")
        try:
            if s.slow:
                p = slow([cli] + s.argv(), text, s, td, env)
            else:
                p = subprocess.run([cli] + s.argv(), input=text, cwd=td, env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return None, "Hang: %s" % s.argv()
        t = {"lib": s.lib, "files": [[list(f.encode()), i] for f, i in s.files.items()], "wasi": s.wasi, "au": s.au, "v": []}
        parts = p.stdout.split(PROMPT.encode() + b"> ")
        o, tt = lines(parts[0])
        started = s.repl and len(parts) > 1
        t["v"].append({"v": "opts", "os": s.opts, "run": int(s.run is not None), "f": list((s.run or "").encode()),
                       "repl": int(s.repl), "out": o, "tr": tt, "status": -1 if started else p.returncode})
        if p.returncode < 0 or p.returncode == 99:
            return t, "Died: %s %s" % (p.returncode, p.stderr.decode("latin1")[-3000:])
        if started:
            cs = s.cmds
            n = len(cs) + (0 if cs and cs[-1]["c"] == "exit" else 1)
            if len(parts) != n + 1:
                return t, "Prompts: %d for %d commands" % (len(parts) - 1, len(cs))
            for c, b in zip(cs, parts[1:]):
                if c["c"] == "exit":
                    continue
                o, tt = lines(b)
                t["v"].append(dict(c, out=o, tr=tt))
            t["v"].append({"v": "end", "status": p.returncode})
        return t, None
    finally:
        shutil.rmtree(td)


def run(b, jobs):
    """jobs: (variant, function that makes the session)"""
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: execute(b[j[0]]["cli"], j[1]()), jobs))


def judge(T, module="ReplTrace"):
    un, res = tr.search(module, T)
    n = max(1, min(8, len(T)))
    reach = {}
    for k, r in enumerate(res):
        m = re.search(r'<<\s*"reached",\s*<<(.*?)>>\s*>>', r.out, re.S)
        xs = [int(x) for x in re.findall(r"\d+", m.group(1))]
        for j, i in enumerate(list(range(len(T)))[k::n]):
            reach[i] = xs[j]
    return {i: reach[i] for i in un}, res


def describe(e):
    tx = lambda x: bytes(x).decode("latin1")
    if e["v"] == "end":
        return "exit status %d" % e["status"]
    if e["v"] == "opts":
        return "options %s -> %s status %d" % (
            [(o["c"], tx(o["f"]), tx(o["tok"]), [tx(a) for a in o["args"]]) for o in e["os"]] + [tx(e["f"])],
            [tx(l) for l in e["out"]], e["status"])
    return "%s %s%s%s %s -> %s" % (e["c"], "(%s) " % tx(e["nm"]) if e["has"] else "", tx(e["f"]), tx(e["tok"]),
                                   [tx(a) for a in e["args"]], [tx(l) for l in e["out"]])
