#!/usr/bin/env python3
"""Work on planted bugs (development aid; no check uses this).

  bugtool.py mk ID            make seeded/ID/patch.diff from seeded-src ID edits on stdin
                              (json list of [file, old, new])
  bugtool.py confirm ID...    builds+tests the patched tree in a private mount
                              namespace, runs the demo on both trees
  bugtool.py try ID [PROP..]  runs checks against the patched tree
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = "/verif"
SEED = ROOT + "/seeded"
WORK = "/tmp/bugwork"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def copy_repo(dst):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    r = sh("cp -a /repo %s" % dst)
    assert r.returncode == 0, r.stdout


def in_ns(dst, cmd, timeout=1500):
    return subprocess.run(["unshare", "-m", "bash", "-c",
                           "mount --bind %s /repo && cd /repo && %s" % (dst, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", timeout=timeout)


def mk(bid, edits):
    d = os.path.join(SEED, bid)
    os.makedirs(d, exist_ok=True)
    w = WORK + "/mk"
    if os.path.exists(w):
        shutil.rmtree(w)
    os.makedirs(w)
    r = sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && "
           "git -c user.name=x -c user.email=x commit -qm x" % (w, w))
    assert r.returncode == 0, r.stdout
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit("%s: %d matches of %r" % (f, s.count(old), old))
        open(p, "w").write(s.replace(old, new))
    r = sh("cd %s && git diff" % w)
    open(os.path.join(d, "patch.diff"), "w").write(r.stdout)
    shutil.rmtree(w)


def confirm1(bid):
    d = os.path.join(SEED, bid)
    w = WORK + "/c-" + bid
    res = {"id": bid}
    copy_repo(w)
    try:
        r = sh("git -C %s apply %s/patch.diff" % (w, d))
        if r.returncode:
            return dict(res, ok=False, why="apply: " + r.stdout)
        out = w + "/.out.json"
        r = in_ns(w, "bash /opt/vp/test.sh /repo/_build/out.json")
        try:
            j = json.load(open(w + "/_build/out.json"))
        except Exception:
            return dict(res, ok=False, why="test: " + r.stdout[-1500:])
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        miss = base - set(j["passed"])
        if miss:
            return dict(res, ok=False, why="tests fail: %s\n%s" % (sorted(miss)[:5], r.stdout[-600:]))
        r = in_ns(w, "bash %s/demo.sh" % d, 400)
        res["demo_bug"] = r.returncode
        res["demo_bug_out"] = r.stdout[-400:]
        c = WORK + "/clean"
        r = in_ns(c, "bash %s/demo.sh" % d, 400)
        res["demo_clean"] = r.returncode
        res["demo_clean_out"] = r.stdout[-400:]
        res["ok"] = res["demo_bug"] != 0 and res["demo_clean"] == 0
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True)


def prep_clean():
    c = WORK + "/clean"
    copy_repo(c)
    r = sh("git -C %s checkout -q -- ." % c)
    r = in_ns(c, "bash /opt/vp/build.sh")
    assert r.returncode == 0, r.stdout[-3000:]


def try1(bid, props):
    d = os.path.join(SEED, bid)
    w = WORK + "/t-" + bid
    copy_repo(w)
    res = []
    try:
        r = sh("git -C %s checkout -q -- . ; git -C %s apply %s/patch.diff" % (w, w, d))
        assert r.returncode == 0, r.stdout
        if not props:
            props = [json.load(open(d + "/meta.json"))["property"]]
        for p in props:
            env = dict(os.environ, VERIF_REPO=w, VERIF_BUILD=WORK + "/b-" + bid,
                       VERIF_EVID=WORK + "/b-" + bid)
            r = sh("cd /verif && timeout 1500 bin/check %s" % p, env=env)
            last = [l for l in r.stdout.splitlines() if "violation:" in l or "VIOLATION" in l]
            res.append((p, r.returncode, last[:2], "" if r.returncode in (0, 1) else r.stdout[-3000:]))
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(WORK + "/b-" + bid, ignore_errors=True)
    return bid, res


if __name__ == "__main__":
    c = sys.argv[1]
    if c == "mk":
        mk(sys.argv[2], json.load(sys.stdin))
    elif c == "confirm":
        ids = sys.argv[2:]
        prep_clean()
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(confirm1, ids):
                print(json.dumps(r), flush=True)
        shutil.rmtree(WORK + "/clean", ignore_errors=True)
    elif c == "try":
        bid, res = try1(sys.argv[2], sys.argv[3:])
        for x in res:
            print(bid, *x, flush=True)
