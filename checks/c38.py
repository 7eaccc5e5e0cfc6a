"""C38: calls limited in time or memory, and the log, do what was asked and leave the process as it was."""
import json
import os
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from vh import repo  # noqa: F401
from vh import core
from vh.core import Suite, ensure, eq

suite = Suite("C38", rule="a case is a sequence of limited calls, or of messages; non-trivial when one goes over its limit, or when two kinds of message are written")

# Each sequence runs in its own process: limits and signals are those of the process
CHILD = r"""
import json, os, resource, signal, sys, time
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
from hachoir.core.memory import limitedMemory, getMemoryLimit, getMemorySize, setMemoryLimit
from hachoir.core.timeout import limitedTime, Timeout
job = json.loads(sys.argv[2])
MB = 1024 * 1024
used = int(open('/proc/self/statm').readline().split()[0]) * resource.getpagesize()
soft, hard = [-1 if x is None else used + x * MB for x in job['limits']]
resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
def handler(number, frame):
    pass
handlers = [signal.SIG_DFL, signal.SIG_IGN, handler]
signal.signal(signal.SIGALRM, handlers[job['handler']])
class Mine(Exception):
    pass
def work(value, seconds=0, memory=0, fail=False):
    before = resource.getrlimit(resource.RLIMIT_AS)
    block = None
    if memory:
        block = bytearray(memory * MB)
    end = time.monotonic() + seconds
    while time.monotonic() < end:
        time.sleep(.01)
    if fail:
        raise Mine(value)
    return [value, before[0] - used, before[1]]
results = []
for op in job['ops']:
    start = time.monotonic()
    try:
        if op[0] == 'time':
            r = ['value', limitedTime(op[1], work, op[2], seconds=op[3], fail=op[4])]
        elif op[0] == 'memory':
            r = ['value', limitedMemory(op[1] * MB, work, op[2], memory=op[3], fail=op[4])]
        else:
            r = ['set', setMemoryLimit(None if op[1] is None else used + op[1] * MB), getMemoryLimit()]
            if r[2] is not None and r[2] >= 0:
                r[2] -= used
            resource.setrlimit(resource.RLIMIT_AS, (soft, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except Timeout as e:
        r = ['timeout', isinstance(e, RuntimeError)]
    except MemoryError:
        r = ['memory']
    except Mine as e:
        r = ['mine', e.args[0]]
    r.append(time.monotonic() - start)
    left = signal.alarm(0)
    same = signal.getsignal(signal.SIGALRM) == handlers[job['handler']]
    now = resource.getrlimit(resource.RLIMIT_AS)
    results.append([r, left, same, now[0] == soft, now[1] == hard])
print(json.dumps(results))
"""


def child(job):
    p = subprocess.run([sys.executable, "-c", CHILD, core.REPO, json.dumps(job)], capture_output=True, text=True, timeout=120)
    eq(p.returncode, 0, "status of the process: %s" % p.stderr[-800:])
    return json.loads(p.stdout)


VALUE = st.integers(-5, 5) | st.none() | st.text("ab\u20ac", max_size=3)
# (a limit in seconds is rounded up, and is one second at least)
TIME = st.one_of(
    st.tuples(st.just("time"), st.sampled_from([0, 0.2, 1, 0.99, 2, 1.5, 5, 100]), VALUE, st.sampled_from([0, 0, 0.05, 0.3]), st.booleans()),
    st.tuples(st.just("time"), st.sampled_from([1.2, 2]), VALUE, st.just(1.25), st.booleans()),
    st.tuples(st.just("time"), st.sampled_from([0, 0.2, 1, -1]), VALUE, st.just(3), st.booleans()))


@suite.sub("time", st.tuples(st.lists(TIME, min_size=1, max_size=3), st.integers(0, 2)), 120, thorough=1500)
def limited_time(case, rec):
    ops, handler = case
    results = child({"limits": [None, None], "handler": handler, "ops": ops})
    eq(len(results), len(ops), "calls")
    for (name, limit, value, seconds, fail), (r, left, same, soft, hard) in zip(ops, results):
        eq((left, same), (0, True), "alarm after the call")
        if seconds == 3:
            eq(r[0], "timeout", "result")
            eq(r[1], True, "class of the error")
            ensure(0.9 <= r[-1], "stopped after %s s", r[-1])
            rec.nt()
        elif fail:
            eq(r[:2], ["mine", value], "error")
        else:
            eq((r[0], r[1][0]), ("value", value), "result")
        rec.label(r[0])


# Amounts of memory in MB, far enough from the limits
MEMORY = st.tuples(st.just("memory"), st.sampled_from([64, 256]), VALUE, st.sampled_from([0, 1, 20, 600]), st.booleans())
SET = st.tuples(st.just("set"), st.sampled_from([None, 300, 500, 4000]))
LIMITS = st.sampled_from([(None, None), (None, None), (1000, None), (1000, 1000), (2000, 3000), (40, 3000)])


@suite.sub("memory", st.tuples(st.lists(st.one_of(MEMORY, MEMORY, SET), min_size=1, max_size=5), LIMITS, st.integers(0, 2)), 300, thorough=5000)
def limited_memory(case, rec):
    ops, limits, handler = case
    results = child({"limits": limits, "handler": handler, "ops": ops})
    eq(len(results), len(ops), "calls")
    for op, (r, left, same, soft, hard) in zip(ops, results):
        eq((left, same), (0, True), "alarm after the call")
        if op[0] == "memory":
            eq((soft, hard), (True, True), "limits after the call")
            name, limit, value, memory, fail = op
            if memory == 600:
                eq(r[0], "memory", "result")
                rec.nt()
            elif memory == 20 and limits[0] == 40:
                # (may be too much, with what the call itself needs)
                continue
            elif fail:
                eq(r[:2], ["mine", value], "error")
            else:
                eq((r[0], r[1][0]), ("value", value), "result")
                ensure(limit * 0.9 - 1 <= r[1][1] / 2.0**20 <= limit + 60, "limit during the call: %s", r[1][1])
        else:
            eq(hard, True, "hard limit after setMemoryLimit()")
            possible = limits[1] is None or op[1] is not None and op[1] <= limits[1]
            if op[1] is None:
                # (no limit: refused below a hard limit)
                eq(r[1], limits[1] is None, "setMemoryLimit(None)")
            else:
                eq(r[1], possible, "setMemoryLimit(%s)" % op[1])
            if r[1]:
                eq(r[2], -1 if op[1] is None else op[1] << 20, "getMemoryLimit()")
        rec.label(r[0])


# --- log
TEXT = st.text("abc \u20ac\u00e9%s{}", max_size=8)
MESSAGE = st.tuples(st.just("message"), st.integers(0, 2), TEXT, st.sampled_from(["log", "newMessage", "object", "none", "child"]))
CHANGE = st.one_of(st.tuples(st.just("quiet"), st.booleans()), st.tuples(st.just("verbose"), st.booleans()), st.tuples(st.just("print"), st.booleans()), st.tuples(st.just("callback"), st.booleans()),
                   st.tuples(st.just("file"), st.integers(0, 2), st.sampled_from([None, True, False])))

LOGGER = r"""
import json, os, sys
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
from hachoir.core import config, error
from hachoir.core.log import log, Log, Logger
class Silent(Logger):
    def _logger(self):
        return None
class Child(Logger):
    def _logger(self):
        return "/path[0]"
class Plain(Logger):
    pass
objects = {'object': Plain(), 'none': Silent(), 'child': Child()}
told = []
def callback(level, prefix, text, context):
    told.append([level, prefix, text, type(context).__name__])
names = ['info', 'warning', 'error']
for op in json.loads(sys.argv[2]):
    if op[0] == 'message':
        level, text, how = op[1:]
        if how == 'log':
            getattr(error if level else log, names[level])(text)
        elif how == 'newMessage':
            log.newMessage([Log.LOG_INFO, Log.LOG_WARN, Log.LOG_ERROR][level], text)
        else:
            getattr(objects[how], names[level])(text)
    elif op[0] == 'quiet':
        config.quiet = op[1]
    elif op[0] == 'verbose':
        config.verbose = op[1]
    elif op[0] == 'print':
        log.use_print = op[1]
    elif op[0] == 'callback':
        log.on_new_message = callback if op[1] else None
    else:
        path = os.path.join(sys.argv[3], 'log%u' % op[1])
        if op[2] is None:
            log.setFilename(path)
        else:
            log.setFilename(path, append=op[2])
log.shutdown()
sys.stdout.write(json.dumps(told))
"""


@suite.sub("log", st.tuples(st.lists(st.one_of(MESSAGE, MESSAGE, MESSAGE, CHANGE), min_size=1, max_size=30), st.booleans()), 300, thorough=6000)
def log_messages(case, rec):
    """Each message goes where it was asked, with its level and its context"""
    ops, existing = case
    # model
    quiet = verbose = callback = False
    use_print = True
    current = None
    files = {0: ["old"]} if existing else {}
    told, printed = [], []
    levels = set()
    for op in ops:
        if op[0] == "message":
            level, text, how = op[1:]
            if level == 0 and not verbose or quiet and level < 2:
                continue
            context = {"object": "<Plain>", "child": "/path[0]"}.get(how)
            prefix = ["[info]", "[warn]", "[err!]"][level]
            full = prefix + " " + ("[%s] " % context if context else "") + text
            levels.add(level)
            if use_print:
                printed.append(full)
            if current is not None:
                files[current].append(full)
            if callback:
                told.append([level, prefix, text, {"object": "Plain", "child": "Child", "none": "Silent"}.get(how, "NoneType")])
        elif op[0] == "quiet":
            quiet = op[1]
        elif op[0] == "verbose":
            verbose = op[1]
        elif op[0] == "print":
            use_print = op[1]
        elif op[0] == "callback":
            callback = op[1]
        else:
            # (the file left is not ended)
            current = op[1]
            if op[2] is False or current not in files:
                files[current] = []
            files[current].append("Starting Hachoir")
    if current is not None:
        files[current].append("Stop Hachoir")
    with tempfile.TemporaryDirectory(prefix="c38") as d:
        if existing:
            with open(os.path.join(d, "log0"), "w") as f:
                f.write("2000-01-01 00:00:00 - old\n")
        env = dict(os.environ, PYTHONIOENCODING="utf-8")
        p = subprocess.run([sys.executable, "-c", LOGGER, core.REPO, json.dumps(ops), d], capture_output=True, timeout=120, env=env)
        err = p.stderr.decode("utf-8")
        eq(p.returncode, 0, "status: %s" % err[-500:])
        eq(err, "".join(x + "\n" for x in printed), "messages printed")
        eq(json.loads(p.stdout.decode("utf-8")), told, "messages given to the callback")
        eq(sorted(os.listdir(d)), ["log%u" % x for x in sorted(files)], "files")
        for n, want in files.items():
            with open(os.path.join(d, "log%u" % n), encoding="utf-8", newline="") as f:
                text = f.read()
            got = []
            for line in text.split("\n")[:-1]:
                ensure(len(line) >= 22 and line[19:22] == " - " and line[4] == "-" and line[13] == ":", "line without date: %r", line)
                got.append(line[22:])
            eq(got, want, "file %u" % n)
    rec.nt(len(levels) > 1)
