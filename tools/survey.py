"""Groups all the failures of a check (no shrinking): survey.py C13 [sub,..] [scale] [seed]."""
import collections, importlib, multiprocessing, os, re, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import core, main


def work(a):
    prop, sub, seed, n = a
    import hypothesis, signal
    signal.signal(signal.SIGPROF, core._on_prof)
    suite = main.load(prop)
    s = suite.subs[sub]
    rec = core.Rec(prop, core.known_keys(prop))
    out = {}

    def body(case):
        r = core.run_case(s, case, rec)
        if r:
            fr = re.findall(r'File "([^"]*)", line (\d+), in (\S+)', r[1])
            fr = [x for x in fr if "/repo/" in x[0]] or fr
            key = (re.sub(r"got .*", "got", re.sub(r"\d+", "N", r[0]), flags=re.S)[:100], tuple("%s:%s:%s" % (x[0].replace("/repo/hachoir/", ""), x[1], x[2]) for x in fr[-2:]))
            c = out.setdefault(key, [0, case, r[0]])
            c[0] += 1
            if len(repr(case)) < len(repr(c[1])):
                c[1:] = [case, r[0]]
    t = hypothesis.settings(max_examples=n, database=None, deadline=None, phases=[hypothesis.Phase.generate],
                            suppress_health_check=list(hypothesis.HealthCheck))(hypothesis.given(s.strategy)(body))
    hypothesis.seed(seed)(t)()
    return sub, out


if __name__ == "__main__":
    prop = sys.argv[1]
    suite = main.load(prop)
    subs = sys.argv[2].split(",") if len(sys.argv) > 2 and sys.argv[2] else list(suite.subs)
    scale = float(sys.argv[3]) if len(sys.argv) > 3 else 1
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    tasks = [(prop, x, seed * 1000 + i, max(1, int(suite.subs[x].quick * scale / 8))) for x in subs for i in range(8)]
    tot = {}
    with multiprocessing.Pool(8, main.worker_init) as pool:
        for sub, out in pool.imap_unordered(work, tasks):
            for k, v in out.items():
                c = tot.setdefault((sub,) + k, [0, None, None])
                c[0] += v[0]
                if c[1] is None or len(repr(v[1])) < len(repr(c[1])):
                    c[1:] = v[1:]
    for k, v in sorted(tot.items(), key=lambda x: -x[1][0]):
        print(v[0], k[0], core.short(v[2], 250), "|", " < ".join(reversed(k[2])), "\n     ", core.short(v[1], int(os.environ.get("LONG", 300))))
