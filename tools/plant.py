#!/usr/bin/env python3
"""Author-side helper (no check uses it): verify planted bugs and record which checks catch them.

  plant.py verify ID...        applies, rebuilds, stable tests, demo with and without the patch
  plant.py check ID [PROP...]  runs the registered quick checks against the patched tree
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
R = "/repo"

def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), text=True, capture_output=True, **k)

def undo():
    sh("git -C /repo checkout -- .")

def apply(i):
    assert not sh("git -C /repo status --short").stdout.strip(), "dirty /repo"
    p = sh(["git", "-C", R, "apply", os.path.join(S, i, "patch.diff")])
    assert p.returncode == 0, p.stderr

def tests():
    p = sh("bash /opt/vp/build.sh")
    if p.returncode: return "build failed:\n" + p.stderr[-3000:]
    sh("bash /opt/vp/test.sh /tmp/plant-out.json")
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    got = json.load(open("/tmp/plant-out.json"))
    passed = set(got.get("passed") or [k for k, v in got.get("tests", {}).items() if v == "passed"])
    bad = [t for t in stable if t not in passed]
    return "tests fail: %s" % bad[:6] if bad else None

def demo(i):
    return sh(["bash", os.path.join(S, i, "demo.sh")], cwd=R, timeout=300)

def verify(i):
    apply(i)
    try:
        t = tests()
        d = demo(i)
    finally:
        undo()
    c = demo(i)
    ok = t is None and d.returncode != 0 and c.returncode == 0
    print(("OK  " if ok else "BAD ") + i, t or "", "patched demo rc=%d" % d.returncode, "clean rc=%d" % c.returncode)
    if d.returncode == 0 or not ok: print((d.stdout + d.stderr)[-1500:])
    else: print("    ", (d.stdout + d.stderr).strip().splitlines()[-1:] )
    if c.returncode: print("CLEAN:", (c.stdout + c.stderr)[-1500:])
    return ok

def check(i, props):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    man = {c["property"]: c["quick_cmd"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
    props = sorted(man) if props == ["all"] else (props or [m["property"]])
    apply(i)
    res = {}
    try:
        for p in props:
            r = sh(man[p], cwd=V, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % p)]
            res[p] = ("caught" if r.returncode == 1 and v else "quiet" if r.returncode == 0 else "error rc=%d" % r.returncode)
            print(i, p, res[p], flush=True)
            if res[p] != "caught": print("   ", (r.stdout + r.stderr)[-600:])
    finally:
        undo()
    return res

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "verify":
        for i in (a[1:] or sorted(os.listdir(S))): verify(i)
    else:
        ids = sorted(os.listdir(S)) if a[1] == "all" else [a[1]]
        for i in ids: check(i, a[2:])
