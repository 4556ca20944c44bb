"""Programs with shared libraries: descriptions, their encoding as modules
with dylink.0 sections, and runs under the command line tool."""
import os
import shutil
import struct
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import repl, tr
from .wasm import EXTERNREF, FUNCREF, I32, I64, Module, const, data_active, elem_active, limits, name, u, vec

SCRATCH = 96                # own bytes before the data cells: parameters of the log, names
T1, T2 = ((), ()), ((I32,), (I32,))
TY = {1: T1, 2: T2}
ZONES = {"sl": "__stack_low", "sh": "__stack_high", "hb": "__heap_base", "he": "__heap_end"}


def act(a, s="", k=0, x=0, t=0):
    return {"a": a, "s": s, "k": k, "x": x, "t": t}


def blank(i):
    return {"id": i, "err": 0, "dl": 0, "needs": [], "ms": 0, "ma": 2, "ts": 0, "ta": 0, "fx": [], "gx": [], "fi": [],
            "gm": [], "gf": [], "weak": [], "fns": [], "rel": 0, "ini": 0, "ctor": 0, "start": 0, "elems": [], "data": [], "odd": []}


def dylink(m, r):
    if m["err"] == 4:           # cannot be placed
        m = dict(m, **r.choice([{"ma": 32}, {"ma": 255}, {"ta": 40}, {"ms": (1 << 32) - 1, "ma": 16}, {"ma": (1 << 32) - 1}]))
    def sub(k, b):
        return bytes([k]) + u(len(b)) + b
    subs = [sub(1, u(m["ms"]) + u(m["ma"]) + u(m["ts"]) + u(m["ta"])),
            sub(2, vec(name(n.encode("latin1")) for n in m["needs"])) if m["needs"] or r.random() < 0.5 else b"",
            sub(3, vec([name(b"zzz") + u(0)])) if r.random() < 0.2 else b"",
            sub(4, vec(name(b"env") + name(n) + u(fl) for n, fl in
                       [(n, 0x11) for n in m["weak"]] + [(x["n"], 0x10) for x in m["fi"] if x["n"] not in m["weak"]]))
            if m["weak"] or r.random() < 0.5 else b""]
    b = name(b"dylink.0") + b"".join(subs)
    return b"\x00" + u(len(b)) + b


def encode(m, static, cfg, r):
    """bytes of a module; static: brings memory and table of its own"""
    w = Module()
    fd_write = w.imp_func("wasi_snapshot_preview1", "fd_write", (I32,) * 4, (I32,))
    if m["dl"]:
        dl_load = w.imp_func("dyld", "load_object", (I32,) * 4, (I32,))
        dl_sym = w.imp_func("dyld", "resolve_symbol", (I32,) * 5, (I32,))
    plt = {x["n"]: w.imp_func("env", x["n"], *TY[x["t"]]) for x in m["fi"]}
    g = {}
    acts = [a for f in m["fns"] for a in f["acts"]]
    ps = {65536: None, 1: 0}[cfg["pg"]]
    wrong = None if m["err"] != 5 else r.choice(STATIC if static else PIC[m["id"] == 1:])
    if not static:
        w.imp_mem("env", "memory", limits(r.choice([0, 0, 1]) if m["id"] == 1 else 0, 1 if wrong == "max" else None,
                                          ps=(0 if ps is None else None) if wrong == "page" else ps))
        w.imp_table("env", "__indirect_function_table", FUNCREF, limits(1 << 20 if wrong == "table" else 0))
        # what is read before the address is set must not be relied on: such modules do not load
        g["mb"] = w.imp_global("env", "__memory_base", I64 if wrong == "base" else I32, 0)
        g["tb"] = w.imp_global("env", "__table_base", I32, 1 if wrong == "mut" else 0)
        g["sp"] = w.imp_global("env", "__stack_pointer", I32, 0 if wrong == "sp" else 1)
        tag = w.imp_tag("env", "__cpp_exception", (I32,)) if any(a["a"] in ("try", "throw") for a in acts) else None
        for z in {a["s"] for a in acts if a["a"] == "zone"}:
            g["zone" + z] = w.imp_global("GOT.mem", ZONES[z], I32, 1)
    for n in m["gm"]:
        g["m" + n] = w.imp_global("GOT.mem", n, I32, 1)
    for n in m["gf"]:
        g["f" + n] = w.imp_global("GOT.func", n, I32, 1)
    G = lambda n: b"\x23" + u(g[n])
    if static:
        w.mem(cfg["msz"], ps=ps)
        w.table(FUNCREF, cfg["tsz"])
        if wrong != "nomem":
            w.export("memory", 2, 0)
        if wrong != "notable":
            w.export("__indirect_function_table", 1, 0 if wrong != "table" else w.table(EXTERNREF, 100))
        if wrong != "nosp":
            w.export("__stack_pointer", 3, w.glob(I32, 0 if wrong == "sp" else 1, const(I32, cfg["sp"])))
        odd = r.choice(sorted(ZONES))
        for z in ZONES:
            if z != odd or wrong != "nozone":
                t = I64 if z == odd and wrong == "zone64" else I32
                w.export(ZONES[z], 3, w.glob(t, int(z == odd and wrong == "zonemut"), const(t, cfg["zone"][z])))
    mb = const(I32, 0) if static else G("mb")
    tb = const(I32, cfg["tb"]) if static else G("tb")
    names = sorted({a["s"] for a in acts if a["a"] in ("load", "sym")})
    off, at = SCRATCH + 4 * len(m["data"]), {}
    blob = b""
    for n in names:
        at[n] = (off + len(blob), len(n.encode("latin1")))
        blob += n.encode("latin1")
    m["ms"] = max(m["ms"], off + len(blob))
    cell = lambda k: mb + const(I32, SCRATCH + k) + b"\x6a"
    ty = lambda t: u(w.type(*TY[t]))
    log = len(plt) + 1 + (2 if m["dl"] else 0)
    first = log + 1
    w.func((I32, I32), (), (), mb + const(I32, m["id"]) + b"\x36\x02\x00" + mb + b"\x20\x00\x36\x02\x04" +
           mb + b"\x20\x01\x36\x02\x08" + mb + mb + b"\x36\x02\x10" + mb + const(I32, 12) + b"\x36\x02\x14" +
           const(I32, 1) + mb + const(I32, 16) + b"\x6a" + const(I32, 1) + mb + const(I32, 24) + b"\x6a" +
           b"\x10" + u(fd_write) + b"\x1a\x0b")
    for fi, f in enumerate(m["fns"], 1):
        # local 1 or 0+1: the value to put out
        np = len(TY[f["t"]][0])
        v = np
        b = b""
        p = b"\x20\x00" if np else const(I32, 0)
        for ai, a in enumerate(f["acts"], 1):
            k = a["a"]
            res = lambda: b"" if a["t"] == 2 else const(I32, 0)
            arg = const(I32, a["x"]) if a["t"] == 2 else b""
            if k == "log":
                e = const(I32, a["x"])
            elif k == "arg":
                e = p
            elif k == "call":
                e = arg + b"\x10" + u(plt[a["s"]]) + res()
            elif k == "try":
                # block $r (i32); try_table (catch 0 0) ... br 1; end; end -> +1000000
                e = b"\x02\x7f\x02\x7f\x1f\x7f\x01\x00" + u(tag) + b"\x00" + arg + b"\x10" + u(plt[a["s"]]) + res() + \
                    b"\x0b\x0c\x01\x0b" + const(I32, 1000000) + b"\x6a\x0b"
            elif k == "tail":
                b += arg + b"\x12" + u(plt[a["s"]])
                break
            elif k == "self":
                e = arg + b"\x10" + u(first + a["k"] - 1) + res()
            elif k in ("icall", "ecall", "pcall"):
                ix = {"icall": lambda: G("f" + a["s"]), "ecall": lambda: tb + const(I32, a["k"] - 1) + b"\x6a",
                      "pcall": lambda: cell(a["k"]) + b"\x28\x02\x00"}[k]()
                e = arg + ix + b"\x11" + ty(a["t"]) + b"\x00" + res()
            elif k == "throw":
                b += const(I32, a["x"]) + b"\x08" + u(tag)
                break
            elif k == "trap":
                b += b"\x00"
                break
            elif k in ("mb", "tb", "sp"):
                e = {"mb": mb, "tb": tb}.get(k) or G("sp")
            elif k == "zone":
                e = G("zone" + a["s"])
            elif k == "gm":
                e = G("m" + a["s"])
            elif k == "gf":
                e = G("f" + a["s"])
            elif k == "rel":
                x = G(("m" if a["x"] == 1 else "f") + a["s"])
                e = cell(a["k"]) + x + b"\x36\x02\x00" + x
            elif k == "cell":
                e = cell(a["k"]) + b"\x28\x02\x00"
            elif k in ("ld", "st"):
                x = G("m" + a["s"])
                do = x + b"\x28\x02\x00" if k == "ld" else x + const(I32, a["x"]) + b"\x36\x02\x00" + x + b"\x28\x02\x00"
                e = x + b"\x04\x7f" + do + b"\x05" + const(I32, -1) + b"\x0b"
            elif k == "msize":
                e = b"\x3f\x00"
            elif k == "mgrow":
                e = const(I32, a["x"]) + b"\x40\x00"
            elif k == "tsize":
                e = b"\xfc\x10\x00"
            elif k == "tgrow":
                e = b"\xd0\x70" + const(I32, a["x"]) + b"\xfc\x0f\x00"
            elif k == "load":
                o, n = at[a["s"]]
                e = mb + const(I32, o) + b"\x6a" + const(I32, n) + const(I32, 0) + cell(a["k"]) + b"\x10" + u(dl_load)
            elif k == "sym":
                o, n = at[a["s"]]
                e = cell(a["t"]) + const(I32, 0) + b"\x36\x02\x00" if a["x"] == 1 else b""
                e += cell(a["k"]) + b"\x28\x02\x00" + const(I32, a["x"]) + mb + const(I32, o) + b"\x6a" + const(I32, n) + \
                    cell(a["t"]) + b"\x10" + u(dl_sym)
            else:
                raise ValueError(k)
            b += e + b"\x21" + u(v) + const(I32, fi * 100 + ai) + b"\x20" + u(v) + b"\x10" + u(log)
        else:
            if f["t"] == 2:
                b += p + const(I32, f["k"]) + b"\x6a"
        w.func(*TY[f["t"]], (I32,), b + b"\x0b")
    for x in m["fx"]:
        w.export(x["n"], 0, first + x["f"] - 1)
    for x in m["gx"]:
        w.export(x["n"], 3, w.glob(I32, 0, const(I32, x["off"] + SCRATCH)))
    for n, mut in m["odd"]:     # globals that are no addresses
        w.export(n, 3, w.glob(I32, 1, const(I32, 5)) if mut else w.glob(I64, 0, const(I64, 5)))
    for n, f in (("__wasm_apply_data_relocs", m["rel"]), ("_initialize", m["ini"]), ("__wasm_call_ctors", m["ctor"]),
                 ("_start", m["start"])):
        if f:
            w.export(n, 0, first + f - 1)
    if m["elems"]:
        w.elems.append(elem_active(tb, [first + f - 1 for f in m["elems"]]))
    w.datas.append(data_active(mb, bytes(SCRATCH) + b"".join(struct.pack("<i", x) for x in m["data"]) + blob))
    if wrong == "start":
        w.start = w.func((), (), (), b"\x00\x0b")
    if wrong == "data":
        w.datas.append(data_active(const(I32, -1), b"xx"))
    if m["err"] == 2:
        w.imp_func("nowhere", "f", (), ())     # shifts every index: not valid, and nothing provides it
    r.shuffle(w.exports)
    b = w.encode()
    if m["err"] == 1:
        return b
    if m["err"] == 3:
        return b[:8] + dylink(m, r) + b[8:-3]
    return b[:8] + dylink(m, r) + b[8:]


# parts of the interface that are not as they should be
STATIC = ["nomem", "notable", "table", "nosp", "sp", "nozone", "zone64", "zonemut", "start", "data"]
PIC = ["page", "max", "table", "base", "mut", "sp", "start", "data"]
LIBS = ["liba.so", "libb.so", "libc.so", "libd.so", "libe.so", "libf.so"]
BAD = ["../liba.so", "x/liba.so", "/liba.so", "..", "lib..so", "liba.so\0"]


class Program:
    def __init__(self, r, depth=1):
        self.r = r
        n = r.choice([1, 2, 2, 3, 3, 4, 5])
        self.pie = int(r.random() < 0.7)
        self.dl = int(r.random() < 0.5)
        libs = LIBS[:n]
        self.mods = [blank(i + 1) for i in range(n + 1)]
        for m in self.mods:
            m["lib"] = m["id"] != 1
        self.dirs = r.choice([1, 1, 2, 3])
        dirs = [[] for _ in range(self.dirs)]
        for i, l in enumerate(libs):
            dirs[r.randrange(self.dirs)].append({"n": l, "m": i + 2})
        # the same name in two places
        if self.dirs > 1 and r.random() < 0.5:
            k = r.randrange(n)
            m = dict(blank(len(self.mods) + 1), lib=True)
            self.mods.append(m)
            d = [d for d in dirs if all(x["n"] != libs[k] for x in d)]
            r.choice(d).append({"n": libs[k], "m": m["id"]})
        now = [l for l in libs if r.random() < 0.7]
        self.later = [l for l in libs if l not in now]
        names = libs + (["libmissing.so"] if r.random() < 0.04 else [])
        for m in self.mods:
            c = now if m["id"] == 1 else libs
            want = r.sample(c, r.randrange(0, len(c) + 1)) if m["id"] == 1 else \
                [x for x in libs if r.random() < (0.3 if r.random() < 0.8 else 0.6)]
            r.shuffle(want)
            if r.random() < 0.1 and want:
                want.append(want[0])
            if r.random() < 0.015:
                want.append(r.choice(["libmissing.so"] + BAD))
            m["needs"] = want
        self.names = names
        pg = r.choice([65536] * 5 + [1])
        cfg = {"dirs": dirs, "badnames": BAD, "pie": self.pie, "dl": self.dl, "now": int(r.random() < 0.5),
               "scr": SCRATCH, "ss": r.choice([16384, 1, 0, 65536, 100000, 4096]), "pg": pg, "msz": r.randrange(1, 4) if pg > 1 else r.randrange(65536, 150000), "tsz": r.randrange(8, 20), "tb": 1,
               "sp": 4096, "zone": {"sl": 1024, "sh": 4096, "hb": 4096, "he": 65536}}
        self.cfg = cfg
        # symbols: s<rank>; data d<k>
        self.fs = ["s%d" % i for i in range(1, r.choice([4, 6, 9]))]
        self.ds = ["d%d" % i for i in range(r.choice([2, 4, 6]))]
        self.fty = {s: r.choice([1, 2, 2]) for s in self.fs}
        for m in self.mods:
            self.define(m)
        for m in self.mods:
            # what is not there is weak, mostly
            ms = self.closure(1) | self.closure(m["id"])
            self.df = {x["n"] for i in ms for x in self.mods[i - 1]["fx"]}
            self.dd = {x["n"] for i in ms for x in self.mods[i - 1]["gx"]}
            self.body(m)
        if r.random() < 0.08:
            m = r.choice(self.mods)
            m["err"] = r.choice([1, 2, 3, 4, 4, 5, 5, 5, 5])
            if m["id"] == 1 and not self.pie and m["err"] == 4:
                m["err"] = 1
        cfg["mods"] = self.mods

    def closure(self, i):
        """the modules that loading one brings"""
        find = lambda n: next((x["m"] for d in self.cfg["dirs"] for x in d if x["n"] == n), None)
        S, todo = set(), [i]
        while todo:
            k = todo.pop()
            if k and k not in S:
                S.add(k)
                todo += [find(n) for n in self.mods[k - 1]["needs"]]
        return S

    def define(self, m):
        r = self.r
        static = m["id"] == 1 and not self.pie
        m["data"] = [r.randrange(1, 1000) for _ in range(r.randrange(2, 8))] + [0] * 4
        nd = len(m["data"]) - 4
        m["free"] = [4 * (nd + i) for i in range(4)]
        for s in self.ds:
            if r.random() < 0.35:
                m["gx"].append({"n": s, "off": 4 * r.randrange(nd)})
        for s in self.fs:
            if r.random() < 0.35:
                t = self.fty[s] if r.random() < 0.97 else 3 - self.fty[s]
                m["fns"].append({"t": t, "k": r.randrange(1000), "acts": [], "rank": int(s[1:])})
                m["fx"].append({"n": s, "f": len(m["fns"])})
                if r.random() < 0.1 and int(s[1:]) > 1:    # a second name
                    s2 = "s%d" % r.randrange(1, int(s[1:]))
                    if s2 not in [x["n"] for x in m["fx"]] and self.fty.get(s2) == t:
                        m["fx"].append({"n": s2, "f": len(m["fns"])})
                        m["fns"][-1]["rank"] = int(s[1:])
        # other things under the names of functions and data
        taken = {x["n"] for x in m["fx"] + m["gx"]}
        for s in self.fs + self.ds:
            if s not in taken and r.random() < 0.06:
                if s in self.ds and r.random() < 0.3 and m["fns"]:
                    m["fx"].append({"n": s, "f": r.randrange(len(m["fns"])) + 1})
                elif s in self.fs and r.random() < 0.5:
                    m["gx"].append({"n": s, "off": 4 * r.randrange(nd)})
                else:
                    m["odd"].append((s, r.randrange(2)))
        for _ in range(r.randrange(2)):
            m["fns"].append({"t": r.choice([1, 2]), "k": r.randrange(1000), "acts": [], "rank": 50})
        if not static:
            m["ma"] = r.choice([2, 2, 3, 4, 4, 6, 10, 16, 0 if False else 2])
            m["ms"] = r.choice([0, 0, 100, 1000, 5000, 65536, 70000])
        n = len(m["fns"])
        if n and r.random() < 0.6:
            m["elems"] = r.sample(range(1, n + 1), r.randrange(1, n + 1))
            if static:
                m["elems"] = m["elems"][:self.cfg["tsz"] - 1]
        if not static:
            m["ts"] = max(len(m["elems"]) + r.choice([0, 0, 1, 5]), 0)
            m["ta"] = r.choice([0, 0, 0, 1, 2, 3])

    def use(self, m, kind, pool):
        """an import of a name, weak now and then"""
        r = self.r
        pool = list(pool)
        if not pool:
            return None
        s = r.choice(pool)
        known = s in (self.dd if kind == "gm" else self.df)
        if s not in m["weak"] and (r.random() < 0.08 or (not known and r.random() < 0.9)):
            if not known or r.random() < 0.5:
                m["weak"].append(s)
        if not known and s not in m["weak"] and r.random() < 0.98:
            return None
        if kind == "fi":
            if s not in [x["n"] for x in m["fi"]]:
                t = self.fty[s] if r.random() < 0.98 else 3 - self.fty[s]
                m["fi"].append({"n": s, "t": t})
        elif s not in m[kind]:
            m[kind].append(s)
        return s

    def acts(self, m, rank, n, where):
        r = self.r
        static = m["id"] == 1 and not self.pie
        dl = self.dl and not static
        ftypes = lambda: {x["n"]: x["t"] for x in m["fi"]}
        above = [s for s in self.fs if int(s[1:]) > rank]
        out = []
        for _ in range(n):
            x = r.random()
            if x < 0.1:
                out.append(act("log", x=r.randrange(1000)))
            elif x < 0.2 and not static:
                out.append(act(r.choice(["mb", "tb", "mb", "tb", "sp"])))
            elif x < 0.24 and not static:
                out.append(act("zone", s=r.choice(list(ZONES))))
            elif x < 0.32:
                s = self.use(m, "gm", self.ds)
                if s:
                    out.append(act("gm", s=s))
            elif x < 0.42:
                s = self.use(m, "gf", self.fs)
                if s:
                    out.append(act("gf", s=s))
            elif x < 0.56:
                s = self.use(m, "gm", self.ds)
                if s:
                    out.append(act("ld", s=s) if r.random() < 0.6 else act("st", s=s, x=r.randrange(1, 5000)))
            elif x < 0.70:
                s = self.use(m, "fi", above)
                if s and (s not in m["weak"] or s in self.df or r.random() < 0.1):
                    k = "call"
                    if not static and r.random() < 0.45:
                        k = "try"
                    out.append(act(k, s=s, x=r.randrange(100), t=ftypes()[s]))
            elif x < 0.80:
                s = self.use(m, "gf", above)
                if s and (s not in m["weak"] or s in self.df or r.random() < 0.1):
                    t = self.fty[s] if r.random() < 0.98 else 3 - self.fty[s]
                    out.append(act("icall", s=s, x=r.randrange(100), t=t))
            elif x < 0.83 and m["elems"]:
                k = r.randrange(len(m["elems"]))
                f = m["fns"][m["elems"][k] - 1]
                if f["rank"] > rank:
                    out.append(act("ecall", k=k + 1, x=r.randrange(100), t=f["t"]))
            elif x < 0.86:
                c = [i for i, f in enumerate(m["fns"], 1) if f["rank"] > rank and f["rank"] < 100]
                if c:
                    k = r.choice(c)
                    out.append(act("self", k=k, x=r.randrange(100), t=m["fns"][k - 1]["t"]))
            elif x < 0.88:
                out.append(act("cell", k=4 * r.randrange(len(m["data"]) - 4)))
            elif x < 0.90:
                out.append(act(r.choice(["msize", "tsize"])))
            elif x < 0.92:
                out.append(act(r.choice(["mgrow", "tgrow"]), x=r.choice([0, 1, 2, 3, 3])))
            elif x < 0.935 and where != "rel" and r.random() < 0.12:
                out.append(act("trap"))
            elif x < 0.96 and where == "fn" and not static and r.random() < 0.8:
                out.append(act("throw", x=r.randrange(1000)))
            elif dl and where in ("main", "ctor", "fn") and (where == "main" or (r.random() < 0.15)):
                m["dl"] = 1
                c = r.choice(m["free"][:2])
                y = r.random()
                nm = r.choice(self.later) if self.later and y < 0.7 else r.choice(LIBS[:5]) if y < 0.93 else r.choice(BAD[:4])
                out.append(act("load", s=nm, k=c))
                tm = next((self.mods[y["m"] - 1] for dd in self.cfg["dirs"] for y in dd if y["n"] == nm), None)
                has = [y["n"] for y in tm["fx"] if y["n"] in above] if tm else []
                for _ in range(r.randrange(0, 4)):
                    if r.random() < 0.6 and above:
                        s = r.choice(has) if has and r.random() < 0.8 else r.choice(above)
                        d = m["free"][2]
                        out.append(act("sym", s=s, k=c, x=1, t=d))
                        out.append(act("cell", k=d))
                        if r.random() < 0.5:
                            out.append(act("pcall", k=d, x=r.randrange(100), t=self.fty[s]))
                    else:
                        d = m["free"][3]
                        hd = [y["n"] for y in tm["gx"]] if tm else []
                        out.append(act("sym", s=r.choice(hd) if hd and r.random() < 0.6 else r.choice(self.ds + ["nosuch"]), k=r.choice([c, c, c, m["free"][2]]),
                                       x=r.choice([2, 2, 2, 2, 3]), t=d))
                        out.append(act("cell", k=d))
        return out

    def body(self, m):
        r = self.r
        static = m["id"] == 1 and not self.pie
        # a function called through names of several ranks counts with the highest
        for f in m["fns"]:
            f["acts"] = self.acts(m, f["rank"], r.choice([0, 1, 2, 3, 5]), "fn")
            if f["rank"] < 100 and r.random() < 0.1:
                s = self.use(m, "fi", [s for s in self.fs if int(s[1:]) > f["rank"]])
                if s and {x["n"]: x["t"] for x in m["fi"]}[s] == f["t"] and s in self.df:
                    f["acts"].append(act("tail", s=s, x=r.randrange(100), t=f["t"]))
            if f["t"] == 2 and r.random() < 0.5:
                f["acts"].insert(0, act("arg"))

        def add(acts, t=1):
            m["fns"].append({"t": t, "k": 0, "acts": acts, "rank": 100})
            return len(m["fns"])
        nd = len(m["data"]) - 4
        if r.random() < 0.6:
            a = [act("log", x=r.randrange(1000))]
            for _ in range(r.randrange(4)):
                if r.random() < 0.5:
                    s = self.use(m, "gm", self.ds)
                    a += [act("rel", s=s, k=4 * r.randrange(nd), x=1)] if s else []
                else:
                    s = self.use(m, "gf", self.fs)
                    a += [act("rel", s=s, k=4 * r.randrange(nd), x=2)] if s else []
            if not static and r.random() < 0.7:
                a += [act("mb"), act("tb")]
            m["rel"] = add(a)
        few = lambda: r.choice([0, 1, 1, 2, 4]) if m["id"] > 1 else r.choice([0, 1, 2])
        if r.random() < 0.6:
            m["ctor"] = add([act("log", x=r.randrange(1000))] + self.acts(m, 0, few(), "ctor"), 1 if r.random() < 0.99 else 2)
        if r.random() < 0.25:
            m["ini"] = add([act("log", x=r.randrange(1000))] + self.acts(m, 0, few(), "ctor"))
        if m["id"] == 1:
            a = [act("log", x=7)]
            if not static:
                a += [act("mb"), act("tb"), act("sp")] + [act("zone", s=z) for z in ZONES] + [act("msize"), act("tsize")]
            a += self.acts(m, 0, r.choice([4, 8, 14, 20]), "main")
            m["start"] = add(a)

    def argv(self):
        a = ["--wasi", "--dyld", "--dyld-stack-size", str(self.cfg["ss"])]
        if self.cfg["now"]:
            a.append("--dyld-bindnow")
        if self.dl:
            a.append("--dyld-dlfcn")
        for i in range(self.dirs):
            a += ["--dyld-path", "p%d" % i]
        return a + ["main.wasm"]

    def files(self):
        """encodes: sizes in the descriptions are final afterwards"""
        o = {}
        for m in self.mods:
            b = encode(m, m["id"] == 1 and not self.pie, self.cfg, self.r)
            if m["id"] == 1:
                o["main.wasm"] = b
            for i, d in enumerate(self.cfg["dirs"]):
                for x in d:
                    if x["m"] == m["id"]:
                        o["p%d/%s" % (i, x["n"])] = b
        return o


def records(out):
    """what the program wrote, without a closing message of the tool"""
    n = 0
    while n + 12 <= len(out) and out[n:n + 5] != b"Error":
        n += 12
    return out[:n]


def execute(cli, p, keep=None):
    """(trace, failure)"""
    td = keep or tempfile.mkdtemp(prefix="dyl-")
    try:
        for i in range(p.dirs):
            os.makedirs(os.path.join(td, "p%d" % i), exist_ok=True)
        for f, b in p.files().items():
            with open(os.path.join(td, f), "wb") as fp:
                fp.write(b)
        env = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=1", UBSAN_OPTIONS="exitcode=99")
        try:
            q = subprocess.run([cli] + p.argv(), cwd=td, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return None, "Hang: %s" % p.argv()
        cfg = dict(p.cfg, mods=[{k: v for k, v in m.items() if k not in ("lib", "free", "odd")} for m in p.mods])
        v = [{"v": "log", "m": m, "tag": t, "val": x, "status": 0}
             for m, t, x in struct.iter_unpack("<iii", records(q.stdout))]
        v.append({"v": "end", "m": 0, "tag": 0, "val": 0, "status": q.returncode})
        t = {"cfg": cfg, "v": v}
        if q.returncode < 0 or q.returncode == 99:
            return t, "Died: %s %s" % (q.returncode, q.stderr.decode("latin1")[-3000:])
        t["err"] = q.stderr.decode("latin1")[-500:]
        return t, None
    finally:
        if not keep:
            shutil.rmtree(td)


def run(b, jobs):
    """jobs: (variant, function that makes the program)"""
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: execute(b[j[0]]["cli"], j[1]()), jobs))


def judge(T):
    return repl.judge([{"cfg": t["cfg"], "v": t["v"]} for t in T], "DyldTrace")
