"""Runs job scripts on the twdrv driver and collects the recorded events."""
import json
import os
import signal
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

NPROC = 8
MAXEV = 200000


class Job:
    """One scenario: driver options and command lines.  `meta` is whatever the
    generator wants to remember."""

    def __init__(self, lines, opts=None, meta=None):
        self.id = None
        self.lines = lines
        self.opts = opts or {}
        self.meta = meta

    def text(self):
        o = "".join(" %s=%d" % kv for kv in sorted(self.opts.items()))
        return "J %d%s\n" % (self.id, o) + "".join(l + "\n" for l in self.lines) + "E\n"


def _env(variant):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("exitcode=99:detect_leaks=1:allocator_may_return_null=1:"
                           "max_allocation_size_mb=6000:handle_abort=0:"
                           "detect_stack_use_after_return=0")
    env["LSAN_OPTIONS"] = "exitcode=98"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=97"
    return env


HANGS = []          # jobs that did not end
MAXHANGS = 5


def _run_chunk(exe, jobs, variant, wd, skip):
    """Run the jobs of one chunk in order.  If the process dies, the job being
    run gets a crash event and the rest is run in a new process.  With skip,
    the rest is left out after some jobs that did not end."""
    res = {}
    if not jobs or (skip and len(HANGS) > MAXHANGS):
        return res
    script = os.path.join(wd, "s%d.txt" % jobs[0].id)
    with open(script, "w") as fp:
        for j in jobs:
            fp.write(j.text())
    start = -1
    env = _env(variant)
    while True:
        r, w = os.pipe()
        env["TWDRV_FD"] = str(w)
        with tempfile.TemporaryFile() as err:
            p = subprocess.Popen([exe, script, str(start)], stdout=subprocess.DEVNULL,
                                 stderr=err, stdin=subprocess.DEVNULL, cwd=wd,
                                 env=env, pass_fds=(w,))
            os.close(w)
            cur = None
            done = set()
            with os.fdopen(r, "rb") as fp:
                for line in fp:
                    try:
                        ev = json.loads(line)
                    except ValueError:
                        continue  # cut off line of a dying process
                    if ev["e"] == "begin":
                        cur = ev["job"]
                        res[cur] = []
                    else:
                        res[cur].append(ev)
                        if len(res[cur]) > MAXEV:
                            p.kill()  # a run that never ends
                            del res[cur][1000:]
                            break
                        if ev["e"] == "end":
                            done.add(cur)
                            cur = None
            p.wait()
            err.seek(0)
            msg = err.read().decode(errors="replace")
        if p.returncode == 77:
            raise RuntimeError("driver: " + msg[-2000:])
        if p.returncode == 0:
            break
        if p.returncode == 98 and cur is None and len(res) == len(jobs):
            # leak report at exit: cannot be attributed to a job here
            res["leak"] = msg
            break
        if cur is None:
            raise RuntimeError("driver died between jobs rc=%d: %s" % (p.returncode, msg[-2000:]))
        kind = "hang" if p.returncode == -signal.SIGALRM else "crash"
        res[cur].append({"e": kind, "rc": p.returncode, "m": msg[-3000:]})
        nxt = [j.id for j in jobs if j.id > cur]
        if kind == "hang":
            HANGS.append(cur)
        if not nxt or (skip and len(HANGS) > MAXHANGS):
            break
        start = nxt[0]
    os.unlink(script)
    return res


def run_jobs(exe, jobs, variant="rel", nproc=NPROC, base=0, skip=False):
    """Numbers the jobs and returns the list of their event lists; None for a
    job left out."""
    for i, j in enumerate(jobs):
        j.id = base + i
    with tempfile.TemporaryDirectory(prefix="twdrv-") as wd:
        n = max(1, min(nproc * 4, len(jobs) // 8 + 1))
        chunks = [jobs[k::n] for k in range(n)]
        with ThreadPoolExecutor(nproc) as ex:
            parts = list(ex.map(lambda c: _run_chunk(exe, c, variant, wd, skip), chunks))
    out = {}
    leaks = []
    for p in parts:
        lk = p.pop("leak", None)
        if lk:
            leaks.append(lk)
        out.update(p)
    return [out.get(j.id, None if skip else []) for j in jobs], leaks
