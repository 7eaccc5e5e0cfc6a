#!/usr/bin/env python3
"""Confirms planted bugs in a scratch clone of /repo and runs checks against them.

  plant.py new FILE.py      FILE.py calls bug(id, prop, [(file, old, new)..], needs, breaks, demo)
  plant.py check ID..|all   runs the property's check against each (in the clone, VERIF_REPO)
"""
import json
import os
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
CLONE = os.environ.get("PLANT_CLONE", "/tmp/plantclone")


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)


def fresh():
    if not os.path.isdir(CLONE):
        sh(["git", "clone", "-q", "/repo", CLONE], check=True)
    sh(["git", "-C", CLONE, "checkout", "-q", "--", "."], check=True)
    sh(["git", "-C", CLONE, "pull", "-q"], check=True)


def tests():
    t = open("/opt/vp/test.sh").read().replace("/repo", CLONE)
    out = CLONE + ".json"
    sh(["bash", "-c", t, "test.sh", out])
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open(out))
    passed = set(res.get("passed", res))
    return [i for i in base["stable"] if i not in passed]


def demo(d, cwd):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    return sh(["bash", os.path.join(d, "demo.sh")], cwd=cwd, timeout=300, env=env)


def confirm(bid):
    d = os.path.join(SEEDED, bid)
    fresh()
    r = demo(d, CLONE)
    if r.returncode != 0:
        return "demo fails on the clean tree: " + (r.stdout + r.stderr)[-600:]
    r = sh(["git", "-C", CLONE, "apply", os.path.join(d, "patch.diff")])
    if r.returncode:
        return "patch does not apply: " + r.stderr
    r = demo(d, CLONE)
    if r.returncode == 0:
        return "demo does not fail with the patch"
    last = (r.stdout + r.stderr).strip().splitlines()[-1:]
    bad = tests()
    if bad:
        return "tests fail: %s" % bad[:3]
    print("   demo:", last)
    return None


def run_check(bid, prop=None, extra=()):
    d = os.path.join(SEEDED, bid)
    prop = prop or json.load(open(os.path.join(d, "meta.json")))["property"]
    fresh()
    sh(["git", "-C", CLONE, "apply", os.path.join(d, "patch.diff")], check=True)
    r = sh([os.path.join(ROOT, "run"), prop, "--no-evidence"] + list(extra), env=dict(os.environ, VERIF_REPO=CLONE))
    lines = r.stdout.strip().splitlines()
    m = [x for x in lines if x.startswith("subcheck")]
    print("%-28s %s %s %s" % (bid, prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode),
                              (m or lines[-1:] or [r.stderr[-300:]])[0][:200]), flush=True)
    return r.returncode


DONE = []


def bug(bid, prop, edits, needs, breaks, demo_py):
    d = os.path.join(SEEDED, bid)
    if ONLY and bid not in ONLY:
        return
    os.makedirs(d, exist_ok=True)
    fresh()
    for f, old, new in edits:
        p = os.path.join(CLONE, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(bid, "SKIPPED: %d occurrences in %s of %r" % (s.count(old), f, old))
            return
        open(p, "w").write(s.replace(old, new))
    diff = sh(["git", "-C", CLONE, "diff"], check=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "meta.json"), "w").write(json.dumps(
        {"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    open(os.path.join(d, "demo.py"), "w").write(demo_py.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n')
    err = confirm(bid)
    if err:
        print(bid, "REJECTED:", err)
        sh(["rm", "-r", d])
        return
    DONE.append(bid)
    run_check(bid)


ONLY = []
if __name__ == "__main__":
    if sys.argv[1] == "new":
        ONLY = sys.argv[3:]
        exec(compile(open(sys.argv[2]).read(), sys.argv[2], "exec"))
    else:
        ids = sys.argv[2:]
        if ids == ["all"]:
            ids = sorted(os.listdir(SEEDED))
        for b in ids:
            if sys.argv[1] == "confirm":
                print(b, confirm(b) or "ok")
            else:
                run_check(b)
