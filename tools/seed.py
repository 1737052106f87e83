#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and runs this property's check against them.
  seed.py ID...      (all when none given)    options: --nocheck, --tests-only
Scratch copy: /tmp/seedrepo (kept between calls; remove it when done)."""
import json, os, subprocess, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "/tmp/seedrepo"
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def build():
    if not os.path.exists(C + "/_build/build.ninja"):
        s = open("/opt/vp/build.sh").read().replace("/repo", C)
        return sh(s)
    return sh(["ninja", "-C", C + "/_build"])
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    ids = args or sorted(os.path.basename(p) for p in glob.glob(HERE + "/seeded/*"))
    if not os.path.exists(C):
        print(sh(["git", "clone", "-q", "/repo", C]).stdout)
    print(sh("git -C %s checkout -q -f . && git -C %s pull -q && git -C %s log --oneline | head -1" % (C, C, C)).stdout.strip())
    r = build()
    if r.returncode: print(r.stdout[-3000:]); return 1
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    base = {}
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        prop = json.load(open(d + "/meta.json"))["property"]
        res = [i, prop]
        r = sh(["bash", d + "/demo.sh"], cwd=C, timeout=300)
        res.append("demo-clean=%d" % r.returncode)
        if r.returncode: print(r.stdout[-1500:])
        r = sh(["git", "-C", C, "apply", d + "/patch.diff"])
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stdout); continue
        try:
            r = build()
            if r.returncode:
                print(i, "DOES NOT BUILD", r.stdout[-1500:]); continue
            os.makedirs("/tmp/seedlogs", exist_ok=True); r = sh(["python3", "/opt/vp/run_tests.py", C + "/_build", "/tmp/seedlogs"])
            ok = {l[5:] for l in r.stdout.splitlines() if l.startswith("PASS ")}
            bad = stable - ok
            res.append("tests=ok" if not bad else "TESTS FAIL: %s" % sorted(bad)[:5])
            r = sh(["bash", d + "/demo.sh"], cwd=C, timeout=300)
            res.append("demo-patched=%d" % r.returncode)
            if r.returncode == 0 or "--v" in sys.argv: print(r.stdout[-600:])
            if "--nocheck" not in sys.argv:
                r = sh(["python3", HERE + "/check.py", prop], cwd=HERE, env=dict(os.environ, TVM_REPO=C, TVM_VERIF_BUILD="/tmp/seedbuild"))
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                res.append("check=%d %s" % (r.returncode, v[0][:100] if v else ""))
                if r.returncode not in (0, 1): print(r.stdout[-1500:])
        finally:
            sh(["git", "-C", C, "checkout", "-q", "-f", "."])
        print(*res, flush=True)
    build()
main()
