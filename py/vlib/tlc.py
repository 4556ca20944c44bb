"""Runs TLC."""
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(ROOT, "spec")
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")


class TLCError(Exception):
    pass


class Result:
    def __init__(self):
        self.violations = []   # [{"var": "value"...}] the last state of each counterexample
        self.states = 0        # distinct
        self.generated = 0
        self.diameter = 0
        self.out = ""
        self.rc = 0


def run(module, cfg, env=None, workers=1, cont=True, xmx="3g", timeout=3000, extra=()):
    """cfg: text of the configuration.  Returns Result; raises TLCError on
    anything that is neither success nor an invariant violation."""
    with tempfile.TemporaryDirectory(prefix="tlc-") as td:
        c = os.path.join(td, module + ".cfg")
        with open(c, "w") as fp:
            fp.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseSerialGC", "-Xss512m", "-Xmx" + xmx,
               "-XX:CICompilerCount=2",
               "-Djava.io.tmpdir=" + td, "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(td, "m"),
               "-noGenerateSpecTE", "-config", c] + \
              (["-continue"] if cont else []) + list(extra) + \
              [os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=td, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError("TLC timeout: " + module)
    r = Result()
    r.rc = p.returncode
    r.out = out = p.stdout.decode(errors="replace")
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        r.generated = int(m[-1][0].replace(",", ""))
        r.states = int(m[-1][1].replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        r.diameter = int(m.group(1))
    if p.returncode not in (0, 12):
        raise TLCError("TLC exit %d in %s\n%s" % (p.returncode, module, out[-5000:]))
    errs = [l for l in re.findall(r"(?m)^.*rror:.*$", out)
            if not re.match(r"Error: (Invariant \w+ is violated|The behavior up to this point)", l)]
    if "Finished in" not in out or errs:
        raise TLCError("TLC did not finish properly\n" + out[-5000:])
    for blk in re.split(r"(?m)^Error: Invariant ", out)[1:]:
        name = blk.split(" ", 1)[0]
        blk = re.split(r"(?m)^(?:Progress|\d+ states generated|Model checking)", blk)[0]
        sts = re.split(r"(?m)^State \d+:.*$", blk)
        st = {"_inv": name}
        for v, x in re.findall(r"(?ms)^(?:/\\ )?(\w+) = (.*?)(?=^/\\ |\n\s*\n|\Z)", sts[-1]):
            st[v] = x.strip()
        r.violations.append(st)
    if p.returncode == 12 and not r.violations:
        raise TLCError("cannot parse TLC output\n" + out[-5000:])
    return r


def shards(module, cfg, traces, nproc=8, **kw):
    """One TLC process per trace file (environment variable TRACE)."""
    def one(t):
        return run(module, cfg, env={"TRACE": t}, **kw)
    with ThreadPoolExecutor(nproc) as ex:
        return list(ex.map(one, traces))
