#!/usr/bin/env python3
"""Writes the generated part of DESIGN.md (below the marker): sections of the properties and planted bugs."""
import glob
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
sys.path.insert(0, root)
from design_props import D, AFTER  # noqa: E402
from props import PROPS  # noqa: E402

MARK = "## Properties\n"
path = os.path.join(root, "DESIGN.md")
head = open(path).read().split(MARK)[0]
out = [MARK, "\nCounts are cases of the quick / thorough check. “Limits” are the bounds and the exclusions.\n"]
for p in PROPS:
    pid = p["id"]
    suite = importlib.import_module("checks." + pid.lower()).suite
    out.append("\n### %s %s\n\n" % (pid, p["title"]))
    out.append("* Decided by: %s.\n* %s\n" % (p["tech"], D[pid]))
    out.append("* Non-trivial: %s.\n" % suite.rule)
    out.append("* Subchecks: %s.\n" % ", ".join("%s (%d / %d)" % (s.name, s.quick, s.thorough) for s in suite.subs.values()))
    out.append("* Why tests can't: %s\n* Limits: %s\n" % (p["why"], p["note"]))
out.append("\n" + AFTER[0])
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    out.append("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))
out.append("\n" + AFTER[1])
open(path, "w").write(head + "".join(out))
