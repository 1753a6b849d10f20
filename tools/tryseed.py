#!/usr/bin/env python3
"""tryseed.py ID...: each change must build, keep the stable tests, fail its
demo; reports whether the property's check catches it.  Works on /repo and
undoes the change."""
import json, os, subprocess, sys, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, t=900):
    p = subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr
ids = sys.argv[1:] or sorted(os.listdir(R + "/seeded"))
for i in ids:
    d = R + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    assert sh("git -C /repo status --porcelain")[1] == "", "dirty"
    c0, o0 = sh("cd /repo && bash %s/demo.sh" % d)
    assert sh("git -C /repo apply %s/patch.diff" % d)[0] == 0
    try:
        sh("bash /opt/vp/test.sh /tmp/ts.json")
        res = json.load(open("/tmp/ts.json"))
        passed = set(res.get("passed", []))
        miss = [x for x in stable if x not in passed]
        c1, o1 = sh("cd /repo && bash %s/demo.sh" % d)
        t = time.time()
        c2, o2 = sh("cd %s && VERIF_SEED=1 python3-vt check.py %s" % (R, prop))
        t = time.time() - t
    finally:
        sh("git -C /repo checkout -- .")
    print(i, prop, "demo clean", c0, "tests missing", len(miss), "demo patched", c1, o1[-100:].strip(), "| check", c2, "%.0fs" % t, [l for l in o2.split("\n") if "VIOLATION" in l][:3], flush=True)
    if c0: print(o0[-1500:])
sh("bash /opt/vp/build.sh")
