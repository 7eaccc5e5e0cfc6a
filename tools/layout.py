"""Writes vh/layout.json: the names of the fields seen for each number of the generated files.  The result is then read and compared with the
specifications of the formats: usage: ./tools/layout.py [count]"""
import json
import os
import re
import sys
from concurrent.futures import ProcessPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
LAYOUT = os.path.join(ROOT, "vh", "layout.json")


def keep(key, names):
    """Is this place of one field only?  (A number written alone may be anything.)"""
    fmt = key.split("#")[0].split(" ")[-1]
    return len(names) <= 3 and (")" in key or not re.fullmatch("[<>][a-zA-Z]", fmt))


class Rec:
    def label(self, *args):
        pass
    nt = label


def learn(kind, count):
    from hypothesis import HealthCheck, Phase, given, settings
    from vh import repo  # noqa: F401
    import checks.c39 as c
    c.LEARN = {}
    c.LAYOUT = {}
    check, table = (c.numbers, c.KINDS) if kind in c.KINDS else (c.numbers_disks, c.OTHERS)
    settings(max_examples=count, database=None, phases=[Phase.generate], deadline=None, suppress_health_check=list(HealthCheck))(
        given(table[kind][0])(lambda params: check((kind, params), Rec())))()
    return c.LEARN


if __name__ == "__main__":
    if not os.path.exists(LAYOUT):
        with open(LAYOUT, "w") as f:
            f.write("{}")
    from vh import repo  # noqa: F401
    import checks.c39 as c
    kinds = sorted(set(c.KINDS) | set(c.OTHERS))
    with ProcessPoolExecutor(8) as pool:
        for kind, found in zip(kinds, pool.map(learn, kinds, [int(sys.argv[1])] * len(kinds))):
            c.LAYOUT.pop(kind, None)
            c.LAYOUT.update(found)
    with open(LAYOUT, "w") as f:
        f.write("{\n")
        f.write(",\n".join("%s: {\n%s\n}" % (json.dumps(k), ",\n".join(" %s: %s" % (json.dumps(key), json.dumps(sorted(names))) for key, names in sorted(c.LAYOUT[k].items()) if keep(key, names)))
                           for k in sorted(c.LAYOUT)))
        f.write("\n}\n")
