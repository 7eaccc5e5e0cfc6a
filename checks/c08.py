"""C08: the ordered dictionary and the event dispatcher follow their models over any history."""
from hypothesis import strategies as st

from vh.core import Suite, ensure, eq, fail, raises
from vh import repo  # noqa: F401
from hachoir.core.dict import Dict, UniqKeyError
from hachoir.core.event_handler import EventHandler

suite = Suite("C08", rule="a case is a history of operations; non-trivial when it has an insertion or deletion before "
              "the end followed by key lookups, or a rejected operation followed by others")

KEY = st.integers(0, 6) | st.sampled_from("abc")
OPS = st.one_of(
    st.tuples(st.just("append"), KEY, st.integers(0, 99)),
    st.tuples(st.just("append"), KEY, st.integers(0, 99)),
    st.tuples(st.just("insert"), st.integers(-9, 9), KEY, st.integers(0, 99)),
    st.tuples(st.just("del"), st.integers(-9, 9)),
    st.tuples(st.just("replace"), KEY, KEY, st.integers(0, 99)),
    st.tuples(st.just("set"), KEY, st.integers(0, 99)),
    st.tuples(st.just("get"), KEY),
)


@suite.sub("history", st.tuples(st.lists(st.tuples(KEY, st.integers(0, 99)), max_size=5, unique_by=lambda x: x[0]),
                                st.lists(OPS, max_size=14)), quick=8000, thorough=200000)
def history(case, rec):
    init, ops = case
    d = Dict(tuple(init)) if init else Dict()
    m = list(init)                  # model: list of (key, value)

    def keys():
        return [k for k, _ in m]

    def agree():
        eq(len(d), len(m), "len")
        eq(list(d), [v for _, v in m], "values in order")
        eq(list(d.values), [v for _, v in m], ".values")
        eq(list(d.items()), m, "items()")
        eq(list(d.iterkeys()), keys(), "iterkeys()")
        eq(list(d.itervalues()), [v for _, v in m], "itervalues()")
        for i, (k, v) in enumerate(m):
            eq(d[k], v, "d[%r]" % (k,))
            eq(d.index(k), i, "index(%r)" % (k,))
            ensure(k in d, "%r in d", k)
        for k in (0, 1, 2, 3, 4, 5, 6, "a", "b", "c"):
            eq(k in d, k in keys(), "%r in d" % (k,))
            if k not in keys():
                ensure(d.index(k) is None, "index of the missing %r is %r", k, d.index(k))
        eq(repr(d), "{%s}" % ", ".join("%r: %r" % x for x in m), "repr")

    agree()
    mid = rejected = False
    for op in ops:
        k = op[0]
        n = len(m)
        if k == "append":
            if op[1] in keys():
                raises(UniqKeyError, lambda: d.append(op[1], op[2]), "append of an existing key")
                rejected = True
            else:
                d.append(op[1], op[2])
                m.append((op[1], op[2]))
                rec.nt(rejected)
        elif k == "insert":
            i = op[1]
            if op[2] in keys():
                raises(UniqKeyError, lambda: d.insert(i, op[2], op[3]), "insert of an existing key")
                rejected = True
            elif not -n <= i <= n:
                raises(IndexError, lambda: d.insert(i, op[2], op[3]), "insert(%d) in %d items" % (i, n))
                rejected = True
            else:
                d.insert(i, op[2], op[3])
                m.insert(i + n if i < 0 else i, (op[2], op[3]))
                mid = mid or (i % (n + 1)) < n
        elif k == "del":
            i = op[1]
            if not -n <= i < n:
                raises(IndexError, lambda: d.__delitem__(i), "del d[%d] of %d items" % (i, n))
                rejected = True
            else:
                del d[i]
                del m[i]
                mid = mid or (i % n) < n - 1
        elif k == "replace":
            if op[1] in keys() and (op[2] == op[1] or op[2] not in keys()):
                d.replace(op[1], op[2], op[3])
                m[keys().index(op[1])] = (op[2], op[3])
            elif op[1] not in keys():
                raises(KeyError, lambda: d.replace(op[1], op[2], op[3]), "replace of a missing key")
                rejected = True
        elif k == "set":
            if op[1] in keys():
                d[op[1]] = op[2]
                m[keys().index(op[1])] = (op[1], op[2])
            else:
                raises(KeyError, lambda: d.__setitem__(op[1], op[2]), "set of a missing key")
                rejected = True
        else:
            if op[1] not in keys():
                raises(KeyError, lambda: d[op[1]], "get of a missing key")
        rec.nt(mid)
        agree()


EV = st.one_of(st.tuples(st.just("connect"), st.integers(0, 2), st.integers(0, 3)),
               st.tuples(st.just("raise"), st.integers(0, 2), st.integers(0, 9)),
               st.tuples(st.just("raise2"), st.integers(0, 2), st.integers(0, 9), st.integers(0, 9)))


@suite.sub("events", st.lists(EV, max_size=12), quick=1500)
def events(ops, rec):
    h = EventHandler()
    log, want, conn = [], [], {}
    for op in ops:
        name = "event-%d" % op[1]
        if op[0] == "connect":
            conn.setdefault(name, []).append(op[2])
            h.connect(name, (lambda i: lambda *a: log.append((i, a)))(op[2]))
        else:
            args = op[2:]
            want += [(i, args) for i in conn.get(name, [])]
            h.raiseEvent(name, *args)
            rec.nt(len(conn.get(name, [])) > 1)
        eq(log, want, "handler calls")
