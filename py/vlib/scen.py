"""Scenarios: scripts for the driver, their recorded event traces, and the
validation of the traces against spec/ScenTrace.tla."""
import json
import os
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import build, drv, tlc, wasm
from .wasm import EXNREF, EXTERNREF, F32, F64, FUNCREF, I32, I64, SIGCH, V128

W = {I32: 4, F32: 4, I64: 8, F64: 8, V128: 16}
CFG = """SPECIFICATION Spec
INVARIANT Conforms
INVARIANT Sound
CONSTRAINT Count
POSTCONDITION AllDone
CHECK_DEADLOCK FALSE
"""

# (variant, driver options); the traces must be the same
MODES = [("rel", {}),
         ("dbg", {}),
         ("alt", {"jt": 0, "rc": 0, "lc": 0})]
MODES_OTH = MODES + [("oth", {})]
MODES_MORE = MODES_OTH + [("rel", {"jt": 0}), ("alt", {}), ("dbg", {"rc": 0, "lc": 0, "jt": 0})]


def wbytes(t, v):
    """value -> bytes list of the spec (None: null)"""
    if t in W:
        if isinstance(v, int):
            v = (v & ((1 << 8 * W[t]) - 1)).to_bytes(W[t], "little")
        return list(v)
    return [] if v is None else list(v)


def argtext(t, v):
    if t in W:
        return "%02x:%s" % (t, bytes(wbytes(t, v)).hex())
    if v is None:
        return "%02x:null" % t
    if t == FUNCREF:
        return "70:%d.%d" % tuple(v)
    return "%02x:%s" % (t, bytes(v).hex())


class Scen:
    def __init__(self, opts=None, meta=None):
        self.hosts = []
        self.lines = []
        self.script = []      # m fields hold module bytes
        self.nm = 0
        self.ni = 0
        self.opts = dict(opts or {})
        self.meta = meta

    def host(self, name, kind, p=(), r=()):
        self.hosts.append((name, kind, tuple(p), tuple(r)))
        return len(self.hosts) - 1

    def mod(self, b):
        b = b.encode() if isinstance(b, wasm.Module) else bytes(b)
        i = self.nm
        self.nm += 1
        self.lines.append("M %d %s" % (i, b.hex()))
        self.script.append({"c": "M", "i": i, "m": b})
        return i

    def inst(self, m, imports=()):
        """imports: "host" or (name, instance)"""
        i = self.ni
        self.ni += 1
        t, im = [], []
        for x in imports:
            if x == "host":
                t.append("host")
                im.append({"h": 1, "n": [], "i": 0})
            else:
                n = x[0].encode() if isinstance(x[0], str) else x[0]
                t.append("%s=%d" % (n.hex(), x[1]))
                im.append({"h": 0, "n": list(n), "i": x[1]})
        self.lines.append(" ".join(["I", str(i), str(m)] + t))
        self.script.append({"c": "I", "i": i, "m": m, "im": im})
        return i

    def call(self, i, f, args=(), abandon=None):
        n = f.encode() if isinstance(f, str) else f
        fs = "#%d" % n if isinstance(n, int) else n.hex()
        a = [argtext(t, v) for t, v in args]
        if abandon is None:
            self.lines.append(" ".join(["C", str(i), fs] + a))
        else:
            self.lines.append(" ".join(["X", str(abandon), str(i), fs] + a))
        self.script.append({"c": "C" if abandon is None else "X", "i": i,
                            "x": n if isinstance(n, int) else -1,
                            "n": [] if isinstance(n, int) else list(n),
                            "a": [[t, wbytes(t, v)] for t, v in args]})

    def _dump(self, c, i, x):
        self.lines.append("%s %d %d" % (c, i, x))
        self.script.append({"c": c, "i": i, "x": x})

    def mem(self, i, x=0):
        self._dump("D", i, x)

    def glob(self, i, x):
        self._dump("G", i, x)

    def tab(self, i, x):
        self._dump("T", i, x)

    def write(self, m):
        j = self.nm
        self.nm += 1
        self.lines.append("W %d %d" % (m, j))
        self.script.append({"c": "W", "i": m, "x": j})
        return j

    def job(self, opts):
        ls = ["H %s %s (%s)%s" % (n, k, "".join(SIGCH[t] for t in p),
                                  "".join(SIGCH[t] for t in r))
              for n, k, p, r in self.hosts]
        o = dict(self.opts)
        o.update(opts)
        o.pop("fault", None)
        return drv.Job(ls + self.lines, o)

    def spec_hosts(self):
        return [{"n": list(n.encode()), "k": k, "p": list(p), "r": list(r)}
                for n, k, p, r in self.hosts]


def norm(ev):
    """uniform fields so that the specification can look at any of them"""
    e = ev["e"]
    o = {"e": e, "ok": 0, "n": 0, "r": "", "t": -1, "f": -1, "v": [], "b": [], "p": [],
         "ch": [], "left": 0, "wm": 0, "leak": [], "acct": []}
    for k in ("ok", "n", "r", "t", "f", "v", "b", "p", "left", "leak"):
        if k in ev:
            o[k] = ev[k]
    if e == "tab":
        o["p"] = ev["n"]
        o["n"] = 0
    if e == "mem":
        ch = {}
        for off, x in ev["nz"]:
            if off < 0 and x == 12:
                o["n"] = 12
                continue
            ch.setdefault(off // 16, [0] * 16)[off % 16] = x
        o["ch"] = sorted([q, c] for q, c in ch.items())
    if e == "load":
        o["n"] = 12 if ev["n"] == 12 else 0     # which error is not part of the contract
    if e == "link":
        o["n"] = 12 if ev["n"] == 12 else 0
    if e in ("crash", "hang"):
        o["r"] = e
    if e == "end":
        o["t"] = 0
    return o


class Traces:
    """Collects traces, each distinct one once."""

    def __init__(self):
        self.mods = {}
        self.items = {}       # key -> index
        self.list = []        # (trace without module numbering, first (scen, variant, opts))

    def add(self, sc, evs, variant, opts):
        o = dict(sc.opts)
        o.update(opts)
        tr = {"h": sc.spec_hosts(), "n": max(1, sc.ni), "nm": max(1, sc.nm),
              "mf": o.get("mf", -1), "mc": o.get("mc", -1),
              "ml": o.get("ml", -1), "il": o.get("il", -1),
              "gf": [], "fault": o.get("fault", 1 if {"af", "ml", "il"} & set(o) else 0),
              "s": [dict(x, m=x["m"].hex()) if isinstance(x.get("m"), bytes) else x
                    for x in sc.script],
              "v": [norm(e) for e in evs]}
        for e, r in zip(tr["v"], evs):
            if e["e"] == "end" and {"ml", "il"} & set(o):
                e["acct"] = r["live"] + r["pk"]
            if e["e"] == "write" and r["ok"]:
                e["wm"] = bytes(r["b"]).hex()
                e["b"] = []
        k = json.dumps(tr, sort_keys=True)
        if k not in self.items:
            self.items[k] = len(self.list)
            self.list.append((tr, (sc, variant, opts)))
        return self.items[k]


def validate(traces, nproc=8, xmx="3g", timeout=3000):
    """traces: list of trace dicts.  Returns (set of bad indices, results)"""
    if not traces:
        return {}, []
    # spread long traces evenly
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]["v"]))
    n = max(1, min(nproc, len(traces)))
    shards = [order[k::n] for k in range(n)]
    bad = {}
    with tempfile.TemporaryDirectory(prefix="scen-") as td:
        def one(k):
            ids = {}
            tf = os.path.join(td, "t%d.ndjson" % k)
            mf = os.path.join(td, "m%d.ndjson" % k)

            def mid(h):
                if h not in ids:
                    ids[h] = len(ids) + 1
                return ids[h]
            with open(tf, "w") as fp:
                for i in shards[k]:
                    tr = traces[i]
                    s = [dict(x, m=mid(x["m"])) if isinstance(x.get("m"), str) else x
                         for x in tr["s"]]
                    v = [dict(x, wm=mid(x["wm"])) if isinstance(x["wm"], str) else x
                         for x in tr["v"]]
                    fp.write(json.dumps(dict(tr, s=s, v=v)) + "\n")
            with open(mf, "w") as fp:
                for h in ids:
                    fp.write(json.dumps({"b": list(bytes.fromhex(h))}) + "\n")
                if not ids:
                    fp.write('{"b": []}\n')
            r = tlc.run("ScenTrace", CFG, env={"TRACE": tf, "MODS": mf}, xmx=xmx,
                        timeout=timeout)
            unsound = [v for v in r.violations if v["_inv"] == "Sound"]
            if unsound:
                raise tlc.TLCError("specification not well formed: %s" % str(unsound[0])[:3000])
            b = {}
            for v in r.violations:
                b[shards[k][int(v["t"]) - 1]] = v
            fin = [int(l.split(",")[1].strip(" >")) for l in r.out.splitlines()
                   if l.startswith('<<"finished"')]
            if not fin or fin[-1] + len(b) != len(shards[k]):
                raise tlc.TLCError("traces not followed to the end: %s of %d\n%s" % (
                    fin, len(shards[k]), r.out[-2000:]))
            return b, r
        with ThreadPoolExecutor(nproc) as ex:
            parts = list(ex.map(one, range(n)))
    for b, _ in parts:
        bad.update(b)
    return bad, [r for _, r in parts]


def soft(T, bad, chunk=60):
    """With allocation failures a growth may fail although the limits allow it.
    Drops from bad the traces explained by such failures, and those not looked
    at because others are left already."""
    todo = [i for i in bad if T.list[i][0]["fault"]]
    left = 0
    for c in range(0, len(todo), chunk):
        part = todo[c:c + chunk]
        if left > 2:
            for i in part:
                del bad[i]
            continue
        soft_some(T, bad, part)
        left += sum(i in bad for i in part)


def soft_some(T, bad, part, rounds=12, ahead=10):
    """Looks for the refused growths one after another, each time keeping the
    choice that explains most."""
    cand = {i: ([], int(bad[i].get("l", "1"))) for i in part}
    for _ in range(rounds):
        if not cand:
            return
        vs, own = [], []
        for i, (gf, _) in cand.items():
            for j in range(ahead):
                vs.append(dict(T.list[i][0], gf=gf + [0] * j + [1]))
                own.append(i)
        b2, _ = validate(vs)
        best = {}
        for k, i in enumerate(own):
            l = int(b2[k].get("l", "1")) if k in b2 else 1 << 30
            if l > best.get(i, ([], cand[i][1]))[1]:
                best[i] = (vs[k]["gf"], l)
        for i in list(cand):
            if i not in best:
                del cand[i]
            elif best[i][1] == 1 << 30:
                bad.pop(i, None)
                del cand[i]
            else:
                cand[i] = best[i]


def where(tr, v):
    """the event that does not fit"""
    l = int(v.get("l", "1"))
    k = int(v.get("k", "1"))
    ev = tr["v"][l - 1] if l <= len(tr["v"]) else None
    cmd = tr["s"][k - 1] if k <= len(tr["s"]) else None
    import re
    m = re.search(r"out \|->\s*(<<.*?>>\s*)(?:,\s*\w+ \|->|\])", v.get("S", ""), re.S)
    return cmd, ev, (m.group(1) if m else "")[:600]


def outcome(e):
    if e["e"] == "ret":
        return "ret:%s%s" % (e["r"], e["t"] if e["t"] >= 0 else "")
    if e["e"] in ("load", "link"):
        return "%s:%s" % (e["e"], "ok" if e["ok"] else e["n"])
    return e["e"] + (":" + str(e["r"]) if e["r"] else "")


def run(ctx, scens, modes=MODES, key=None, what="scenario", limit=5):
    """Runs the scenarios in all modes and validates the traces."""
    b = build.build(sorted({v for v, _ in modes}))
    T = Traces()
    nrun = 0
    for variant, opts in modes:
        jobs = [s.job(opts) for s in scens]
        evs, leaks = drv.run_jobs(os.path.join(b[variant]["bin"], "twdrv"), jobs, variant, skip=True)
        for lk in leaks:
            ctx.violation("leak report (%s)" % variant, {"report": lk[-3000:]})
        for s, ev in zip(scens, evs):
            if ev is None:
                continue
            T.add(s, ev, variant, opts)
            nrun += 1
    ctx.log("%d runs, %d distinct traces" % (nrun, len(T.list)))
    bad, res = validate([t for t, _ in T.list])
    soft(T, bad)
    ctx.add_tlc(res)
    ctx.traces += len(T.list)
    ctx.extra["runs"] = ctx.extra.get("runs", 0) + nrun
    ctx.extra["scenarios"] = ctx.extra.get("scenarios", 0) + len(scens)
    for tr, _ in T.list[:: max(1, len(T.list) // 3)][:3]:
        ctx.sample({"script": "".join(x["c"] for x in tr["s"]),
                    "events": " ".join(outcome(e) for e in tr["v"][:60])})
    oc = ctx.extra.setdefault("outcomes", {})
    for tr, _ in T.list:
        for e in tr["v"]:
            o = outcome(e)
            oc[o] = oc.get(o, 0) + 1
    done = 0
    for i in sorted(bad):
        tr, (s, variant, opts) = T.list[i]
        j = s.job(opts)
        ev2, _ = drv.run_jobs(os.path.join(b[variant]["bin"], "twdrv"), [j], variant)
        T2 = Traces()
        T2.add(s, ev2[0], variant, opts)
        b2, _ = validate([t for t, _ in T2.list])
        soft(T2, b2)
        cmd, ev, exp = where(tr, bad[i])
        if b2:
            crash = [e for e in ev2[0] if e["e"] in ("crash", "hang")]
            ctx.violation("%s: %s (%s %s): recorded %s, specification says %s" % (
                what, {x: y for x, y in (cmd or {}).items() if x != "m"}, variant, opts,
                str(ev)[:300], exp),
                {"job": j.text(), "variant": variant, "opts": opts, "event": ev,
                 "command": {x: y for x, y in (cmd or {}).items() if x != "m"},
                 "expected": exp, "meta": s.meta, "crash": crash[:1]},
                key=key(s, tr, ev) if key else None)
            done += 2 if any(e["e"] == "hang" for e in ev2[0]) else 1
            if done >= limit:
                break
        else:
            ctx.log("not repeated:", cmd, ev)
    return T, bad
