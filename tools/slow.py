"""Slowest cases of a subcheck: slow.py C13 arbitrary N."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import multiprocessing
from vh import core, main


def work(a):
    prop, sub, seed, n = a
    import hypothesis, signal
    signal.signal(signal.SIGPROF, core._on_prof)
    suite = main.load(prop)
    s = suite.subs[sub]
    rec = core.Rec(prop, core.known_keys(prop))
    out = []

    def body(case):
        t = time.monotonic()
        core.run_case(s, case, rec)
        out.append((time.monotonic() - t, core.short(case, 300)))
    hypothesis.seed(seed)(hypothesis.settings(max_examples=n, database=None, deadline=None, phases=[hypothesis.Phase.generate],
                          suppress_health_check=list(hypothesis.HealthCheck))(hypothesis.given(s.strategy)(body)))()
    return sorted(out, key=lambda x: -x[0])[:6], sum(x[0] for x in out)


with multiprocessing.Pool(8, main.worker_init) as pool:
    for r, tot in pool.imap_unordered(work, [(sys.argv[1], sys.argv[2], i, int(sys.argv[3]) // 8) for i in range(8)]):
        print("%.1f" % tot)
        for t, c in r[:3]:
            print("   %.2f %s" % (t, c))
