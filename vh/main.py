"""Entry point of every registered check: main.py <property> [--tier T] [--replay FILE] [--only SUB]."""
import argparse
import atexit
import base64
import collections
import importlib
import json
import multiprocessing
import os
import pickle
import resource
import shutil
import sys
import tempfile
import time
import traceback

from vh import core


def worker_init():
    # a few parsers print, and the log goes to stderr
    sys.stdout = sys.stderr = open(os.devnull, "w")
    # keep a runaway case from taking the machine down
    lim = 3 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass


def task(args):
    prop, subname, seed, count, ex = args
    try:
        suite = load(prop)
        sub = suite.subs[subname]
        t = time.monotonic()
        exp, failure = core.run_shard(suite, sub, seed, count, ex)
        return subname, exp, failure, None, time.monotonic() - t
    except BaseException:
        return subname, None, None, traceback.format_exc(), 0.0


def load(prop):
    return importlib.import_module("checks.%s" % prop.lower()).suite


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    suite = load(a.prop)
    if a.replay:
        return replay(suite, a.replay)

    # all scratch files of the run, those of terminated workers included
    scratch = tempfile.mkdtemp(prefix="vhrun-")
    atexit.register(shutil.rmtree, scratch, True)
    os.environ["TMPDIR"] = tempfile.tempdir = scratch

    tasks = []
    for sub in suite.subs.values():
        if a.only and sub.name not in a.only.split(","):
            continue
        total = max(1, int((sub.thorough if a.tier == "thorough" else sub.quick) * a.scale))
        shards = sub.shards or min(a.jobs, max(1, total // 25))
        if a.tier == "thorough":
            shards = max(shards, a.jobs)
        for i in range(shards):
            n = total // shards + (1 if i < total % shards else 0)
            tasks.append((suite.prop, sub.name, (seed * 7919 + i * 104729) & 0x7fffffff,
                          n, i == 0))
    # interleave so that long subchecks start early
    tasks.sort(key=lambda x: not x[4])
    ctx = multiprocessing.get_context("fork")
    stats = collections.OrderedDict((s, dict(evaluations=0, labels=collections.Counter(), digests=set(),
                                             samples=[], known={}, excluded=0, cpu=0.0))
                                    for s in suite.subs)
    failure = None
    error = None
    with ctx.Pool(min(a.jobs, len(tasks)), worker_init) as pool:
        for subname, exp, fl, err, secs in pool.imap_unordered(task, tasks):
            if err:
                error = err
                break
            st = stats[subname]
            st["evaluations"] += exp["evaluations"]
            st["labels"].update(exp["labels"])
            st["digests"] |= exp["digests"]
            st["known"].update(exp["known"])
            st["excluded"] += exp["excluded"]
            st["cpu"] += secs
            if len(st["samples"]) < 2:
                st["samples"] += exp["samples"][:2 - len(st["samples"])]
            if fl:
                failure = (subname, fl)
                break
        pool.terminate()
    if error:
        sys.stderr.write(error)
        print("ERROR property=%s harness failure (inconclusive)" % suite.prop)
        return 2
    wall = time.monotonic() - t0
    known = core.known_keys(suite.prop)
    hit = {}
    for st in stats.values():
        hit.update(st["known"])
    for key, text in sorted(known.items()):
        if key in hit:
            print("KNOWN-FINDING: property=%s %s: %s" % (suite.prop, key, text))
    ev = {
        "property": suite.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in stats.values()),
            "distinct_nontrivial": sum(len(s["digests"]) for s in stats.values()),
            "rule": suite.rule,
            "samples": [{"sub": n, "case": c} for n, s in stats.items() for c in s["samples"]],
            "subchecks": {n: {"evaluations": s["evaluations"], "distinct_nontrivial": len(s["digests"]),
                              "labels": dict(s["labels"].most_common(40)),
                              "excluded_known": s["excluded"], "worker_s": round(s["cpu"], 2)}
                          for n, s in stats.items()},
        },
        "assumptions": suite.assumptions, "wall_s": round(wall, 2),
        "violations": 1 if failure else 0,
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(core.ROOT, "evidence", suite.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if failure:
        subname, fl = failure
        path = core.save_replay(suite, subname, fl)
        print("subcheck %s: %s" % (subname, core.short(fl["msg"], 1500)))
        print("case: %s" % core.short(fl["case"], 1500))
        print("VIOLATION property=%s replay=%s" % (suite.prop, path))
        return 1
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        suite.prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], wall))
    return 0


def replay(suite, path):
    import signal
    with open(path) as f:
        r = json.load(f)
    sub = suite.subs[r["sub"]]
    signal.signal(signal.SIGPROF, core._on_prof)
    if r.get("standalone", True):
        rec = core.Rec(suite.prop, core.known_keys(suite.prop))
        res = core.run_case(sub, pickle.loads(base64.b64decode(r["case_pickle"])), rec)
        msg, tb = (res[0], res[1]) if res else (None, None)
    else:       # depends on earlier cases: run the whole deterministic shard again
        _, fl = core.run_shard(suite, sub, r["seed"], r["count"], False)
        msg, tb = (fl["msg"], fl["tb"]) if fl else (None, None)
    if msg is None:
        print("OK property=%s replay does not fail" % suite.prop)
        return 0
    print(tb)
    print("subcheck %s: %s" % (sub.name, msg))
    print("VIOLATION property=%s replay=%s" % (suite.prop, path))
    return 1


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True, errors="backslashreplace")
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("ERROR harness failure (inconclusive)")
        rc = 2
    sys.stdout.flush()
    atexit._run_exitfuncs()
    os._exit(rc)
