#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy of /repo, and runs checks against it.

    plant.py confirm ID...     builds, runs the stable tests and the demonstration, with and without the patch
    plant.py checks ID [PROP...]   applies the patch to /repo, runs the checks (default: the one of meta.json), undoes it

The scratch copy is /tmp/plant (cp -a /repo /tmp/plant).
"""
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/plant"


def sh(cmd, cwd, timeout=900):
    p = subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def scripts():
    os.makedirs("/tmp/pl", exist_ok=True)
    for f in ("env.sh", "build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", COPY).replace(". /opt/vp/env.sh", ". /tmp/pl/env.sh")
        open("/tmp/pl/" + f, "w").write(t)


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def demo(i):
    return sh("timeout 300 bash %s/seeded/%s/demo.sh" % (VERIF, i), COPY)


def confirm(i):
    sh("git checkout -q -- . && git clean -fdq", COPY)
    rc, o = sh("git -C %s apply --check %s/seeded/%s/patch.diff && bash /tmp/pl/build.sh" % (COPY, VERIF, i), COPY)
    if rc:
        return "does not apply or base does not build\n" + o[-800:]
    rc, o = demo(i)
    if rc:
        return "demo fails on the unchanged tree\n" + o[-1500:]
    try:
        rc, o = sh("git apply %s/seeded/%s/patch.diff && bash /tmp/pl/build.sh" % (VERIF, i), COPY)
        if rc:
            return "does not build\n" + o[-3000:]
        drc, do = demo(i)
        rc, o = sh("bash /tmp/pl/test.sh /tmp/pl/out.json", COPY)
        res = json.load(open("/tmp/pl/out.json"))
        passed = set(res.get("passed", []))
        lost = stable() - passed
        if lost:
            return "breaks tests: %s" % sorted(lost)[:5]
        if drc == 0:
            return "demo passes with the patch\n" + do[-800:]
        return "ok (demo exit %d: %s)" % (drc, do.strip().split("\n")[-1][:150])
    finally:
        sh("git checkout -q -- . && git clean -fdq", COPY)


def checks(i, props):
    rc, o = sh("git apply %s/seeded/%s/patch.diff" % (VERIF, i), "/repo")
    if rc:
        return "does not apply: " + o
    res = {}
    try:
        for p in props:
            rc, o = sh("VERIF_SEED=1 VERIF_TIER=quick python3 harness/check.py %s" % p, VERIF)
            res[p] = "caught" if rc == 1 and re.search(r"^VIOLATION property=%s " % p, o, re.M) else "MISSED" if rc == 0 else "ERROR " + o[-600:]
    finally:
        sh("git checkout -- .", "/repo")
    return res


def main():
    scripts()
    if sys.argv[1] == "confirm":
        for i in sys.argv[2:]:
            print(i, confirm(i), flush=True)
    else:
        i = sys.argv[2]
        props = sys.argv[3:] or [json.load(open("%s/seeded/%s/meta.json" % (VERIF, i)))["property"]]
        print(i, checks(i, props), flush=True)


main()
