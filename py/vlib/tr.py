"""Validation of recorded traces against a trace specification of the usual
form: variables t (trace), l (position), invariants Conforms and Sound, a
postcondition that prints how many traces were followed to their end."""
import json
import os
import re
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import tlc

CFG = """SPECIFICATION Spec
INVARIANT Conforms
INVARIANT Sound
CONSTRAINT Count
POSTCONDITION AllDone
CHECK_DEADLOCK FALSE
"""


def validate(module, traces, nproc=8, xmx="3g", timeout=3000, cfg=CFG, env=None,
             weight=lambda t: len(t["v"])):
    """({index: violating state}, TLC results)"""
    if not traces:
        return {}, []
    order = sorted(range(len(traces)), key=lambda i: -weight(traces[i]))
    n = max(1, min(nproc, len(traces)))
    shards = [order[k::n] for k in range(n)]
    with tempfile.TemporaryDirectory(prefix="tr-") as td:
        def one(k):
            tf = os.path.join(td, "t%d.ndjson" % k)
            with open(tf, "w") as fp:
                for i in shards[k]:
                    fp.write(json.dumps(traces[i]) + "\n")
            r = tlc.run(module, cfg, env=dict(env or {}, TRACE=tf), xmx=xmx, timeout=timeout)
            unsound = [v for v in r.violations if v["_inv"] != "Conforms"]
            if unsound:
                raise tlc.TLCError("specification not well formed: %s" % str(unsound[0])[:3000])
            b = {shards[k][int(v["t"]) - 1]: v for v in r.violations}
            fin = [int(x.split(",")[1].strip(" >")) for x in r.out.splitlines()
                   if x.startswith('<<"finished"')]
            if not fin or fin[-1] + len(b) != len(shards[k]):
                raise tlc.TLCError("traces not followed to the end: %s of %d\n%s" % (
                    fin, len(shards[k]), r.out[-2000:]))
            return b, r
        with ThreadPoolExecutor(nproc) as ex:
            parts = list(ex.map(one, range(n)))
    bad = {}
    for b, _ in parts:
        bad.update(b)
    return bad, [r for _, r in parts]


SEARCH = """SPECIFICATION Spec
INVARIANT Sound
CONSTRAINT Count
POSTCONDITION AllDone
CHECK_DEADLOCK FALSE
"""


def search(module, traces, nproc=8, xmx="3g", timeout=3000, cfg=SEARCH, env=None):
    """for specifications that look for an explanation of each trace:
    (indices of traces without one, TLC results)"""
    if not traces:
        return [], []
    n = max(1, min(nproc, len(traces)))
    shards = [list(range(len(traces)))[k::n] for k in range(n)]
    with tempfile.TemporaryDirectory(prefix="tr-") as td:
        def one(k):
            tf = os.path.join(td, "t%d.ndjson" % k)
            with open(tf, "w") as fp:
                for i in shards[k]:
                    fp.write(json.dumps(traces[i]) + "\n")
            r = tlc.run(module, cfg, env=dict(env or {}, TRACE=tf), xmx=xmx, timeout=timeout)
            if r.violations:
                raise tlc.TLCError("specification not well formed: %s" % str(r.violations[0])[:3000])
            out = re.search(r'<<\s*"explained",(.*?)>>', r.out, re.S).group(1)
            ok = {int(x) for x in re.findall(r"\d+", out)}
            return [i for j, i in enumerate(shards[k]) if j + 1 not in ok], r
        with ThreadPoolExecutor(nproc) as ex:
            parts = list(ex.map(one, range(n)))
    return sorted(i for b, _ in parts for i in b), [r for _, r in parts]
