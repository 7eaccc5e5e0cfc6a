"""Shared harness: turns subchecks (strategy + oracle) into one registered check.

A subcheck is a Hypothesis strategy producing a plain-data *case* and a function
``check(case, rec)`` that executes the case against /repo and raises when the
property does not hold.  Everything random lives in the strategy, so a case is
its own reproduction.
"""
import base64
import collections
import hashlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN_FILE = os.path.join(ROOT, "known_findings.txt")

HANG_CPU = 60.0         # CPU seconds allowed to one case (typical: milliseconds)
SHRINK_S = 40.0         # wall seconds allowed to shrinking
SUITE_WALL = float(os.environ.get("VERIF_WALL", "0") or 0)


class Violation(Exception):
    """The property does not hold for this case."""


class Hang(BaseException):
    """One case used more CPU time than any terminating case could."""


class StopShrink(BaseException):
    pass


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def short(x, n=400):
    if not isinstance(x, str):
        try:
            x = repr(x)
        except Exception as e:       # a repr of the code under test may fail
            x = "<repr failed: %r>" % (e,)
    return x if len(x) <= n else x[:n] + "...(%d chars)" % len(x)


def eq(got, want, what=""):
    if not (got == want):
        raise Violation("%s: got %s, want %s" % (what, short(got), short(want)))


def ensure(cond, what, *args):
    if not cond:
        raise Violation(what % args if args else what)


def raises(types, func, what):
    """func() has to raise one of types."""
    try:
        r = func()
    except types as e:
        return e
    except Exception as e:
        raise Violation("%s: raised %r instead of %s" % (what, e, types))
    raise Violation("%s: returned %s instead of raising" % (what, short(r)))


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, examples, shards, rule, shrink):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.examples = examples
        self.shards = shards
        self.rule = rule
        self.shrink = shrink


class Suite:
    """All subchecks of one property."""

    def __init__(self, prop, rule, assumptions=()):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.subs = collections.OrderedDict()

    def sub(self, name, strategy, quick, thorough=None, examples=(), shards=None, rule=None,
            shrink=True):
        def deco(func):
            assert name not in self.subs
            self.subs[name] = Sub(name, strategy, func, quick, thorough or quick * 20,
                                  list(examples), shards, rule, shrink)
            return func
        return deco


class Rec:
    """What one worker observed."""

    def __init__(self, prop, known):
        self.prop = prop
        self.known_keys = known
        self.evaluations = 0
        self.labels = collections.Counter()
        self.digests = set()
        self.samples = []
        self.known_hit = {}
        self.excluded = 0
        self._nt = False

    def begin(self):
        self._nt = False
        self._labels = []

    def nt(self, cond=True):
        """The current case is non-trivial."""
        if cond:
            self._nt = True

    def label(self, text, cond=True):
        if cond:
            self._labels.append(text)

    def known(self, key, msg):
        """A failure of the class `key`: suppressed only if the committed file lists it."""
        if key in self.known_keys:
            self.known_hit[key] = short(msg, 200)
            self.excluded += 1
            return
        raise Violation("[%s] %s" % (key, msg))

    def end(self, case):
        self.evaluations += 1
        for x in set(self._labels):
            self.labels[x] += 1
        if self._nt:
            d = hashlib.blake2b(pickle.dumps(case), digest_size=8).digest()
            if d not in self.digests:
                self.digests.add(d)
                n = len(self.digests)
                if n in (1, 20, 100) and len(self.samples) < 3:
                    self.samples.append(short(case, 600))

    def export(self):
        return dict(evaluations=self.evaluations, labels=self.labels, digests=self.digests,
                    samples=self.samples, known=self.known_hit, excluded=self.excluded)


def known_keys(prop):
    """key -> text of each 'known:' line of this property."""
    out = {}
    try:
        with open(KNOWN_FILE) as f:
            for line in f:
                if line.startswith("known: property=%s " % prop):
                    rest = line.split(None, 3)
                    key = rest[2][len("key="):]
                    out[key] = rest[3].strip()
    except FileNotFoundError:
        pass
    return out


def _on_prof(signum, frame):
    raise Hang("case used more than %g s of CPU time" % HANG_CPU)


def run_case(sub, case, rec):
    """Run one case; returns None or (message, traceback, is_hang)."""
    rec.begin()
    signal.setitimer(signal.ITIMER_PROF, HANG_CPU)
    try:
        sub.check(case, rec)
    except Hang as e:
        return "does not terminate: %s" % e, traceback.format_exc(), True
    except (MemoryError, KeyboardInterrupt):
        rec.label("memory-error")
        return None
    except Exception as e:
        msg = str(e) if isinstance(e, Violation) else "unexpected %s: %s" % (type(e).__name__, e)
        return msg, traceback.format_exc(), False
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    rec.end(case)
    return None


def run_shard(suite, sub, seed, count, with_examples):
    """Runs `count` generated cases. Returns (export, failure or None)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    signal.signal(signal.SIGPROF, _on_prof)
    rec = Rec(suite.prop, known_keys(suite.prop))
    best = {}

    def record(case, res):
        key = (len(pickle.dumps(case)), len(repr(case)))
        if "key" not in best or key < best["key"]:
            best.update(key=key, case=case, msg=res[0], tb=res[1], hang=res[2])

    if with_examples:
        for case in sub.examples:
            res = run_case(sub, case, rec)
            if res:
                record(case, res)
                return rec.export(), dict(best)

    deadline = []

    def body(case):
        res = run_case(sub, case, rec)
        if res:
            record(case, res)
            if res[2] or not sub.shrink:
                raise StopShrink()
            if not deadline:
                deadline.append(time.monotonic() + SHRINK_S)
            if time.monotonic() > deadline[0]:
                raise StopShrink()
            raise Violation("case failed")
        if deadline and time.monotonic() > deadline[0]:
            raise StopShrink()

    test = hypothesis.given(sub.strategy)(body)
    test = settings(max_examples=count, database=None, deadline=None,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    phases=(Phase.generate,) if os.environ.get("VERIF_NOSHRINK") else
                    (Phase.generate, Phase.shrink), print_blob=False)(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except (StopShrink, Violation, hypothesis.errors.Flaky):
        pass
    except BaseExceptionGroup:
        if not best:
            raise
    except hypothesis.errors.HypothesisException:
        if not best:
            raise
    if not best:
        return rec.export(), None
    # does the saved case fail on its own, outside the library?
    best["standalone"] = bool(best["hang"] or run_case(sub, best["case"], rec))
    best["seed"] = seed
    best["count"] = count
    return rec.export(), dict(best)


def save_replay(suite, subname, failure):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    blob = base64.b64encode(pickle.dumps(failure["case"])).decode()
    h = hashlib.blake2b((subname + blob).encode(), digest_size=6).hexdigest()
    path = os.path.join(d, "%s-%s-%s.json" % (suite.prop, subname, h))
    with open(path, "w") as f:
        json.dump({
            "property": suite.prop, "sub": subname, "message": failure["msg"],
            "case": short(failure["case"], 20000), "case_pickle": blob,
            "standalone": failure.get("standalone", True),
            "seed": failure.get("seed"), "count": failure.get("count"),
            "traceback": failure["tb"][-8000:],
            "rerun": "cd /verif && ./run %s --replay %s" % (suite.prop, path)}, f, indent=1)
    return path
