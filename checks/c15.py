"""C15: replacing fields keeps the field set consistent, or does nothing at all."""
import re

from hypothesis import strategies as st

from vh.core import Suite, ensure, eq, fail
from vh import synth
import hachoir.field as F
from hachoir.stream import StringInputStream

suite = Suite("C15", rule="a case is a file (synthetic format), a field set of it, how much of it is read, and a history of "
              "replacements (valid, of the wrong size, of used names), writes at an address and searches by address; "
              "non-trivial when at least one replacement by two fields or more is done")

NEWNAMES = st.sampled_from(["n", "m", "a", "b", "new[]", "new[]", "item[]", "x[]", "data", "align[0]", "padding[]"])
OPS = st.lists(st.one_of(
    st.tuples(st.just("replace"), st.integers(0, 99), st.lists(st.tuples(NEWNAMES, st.integers(1, 60)), min_size=1, max_size=4)),
    st.tuples(st.just("replace"), st.integers(0, 99), st.lists(st.tuples(st.just("new[]"), st.integers(1, 60)), min_size=1, max_size=4)),
    st.tuples(st.just("badsize"), st.integers(0, 99), st.lists(st.tuples(NEWNAMES, st.integers(1, 60)), min_size=1, max_size=3),
              st.sampled_from([-8, -1, 1, 8])),
    st.tuples(st.just("nofield"), st.integers(0, 99)),
    st.tuples(st.just("write"), st.integers(0, 99), st.integers(0, 99), st.lists(st.tuples(NEWNAMES, st.integers(1, 24)), min_size=1, max_size=3)),
    st.tuples(st.just("find"), st.integers(0, 9999), st.booleans()),
    st.tuples(st.just("look"), st.integers(0, 99)),
    st.tuples(st.just("more"), st.integers(1, 3)),
), min_size=1, max_size=8)


def shares(weights, total):
    """Positive sizes in about these proportions, of this sum."""
    weights = weights[:total]
    s = sum(weights)
    out = [max(1, total * w // s) for w in weights]
    while sum(out) > total:
        out[out.index(max(out))] -= 1
    out[-1] += total - sum(out)
    return out


class Model:
    def __init__(self, fs):
        self.fs = fs
        self.rows = []      # name, address, size, object or None

    def sync(self):
        """Fields read since."""
        vals = [self.fs.getField(i) for i in range(self.fs.current_length)]
        for f in vals[len(self.rows):]:
            self.rows.append([f.name, f.address, f.size, f])

    def names(self):
        return [r[0] for r in self.rows]

    def check(self, reader, what):
        fs = self.fs
        eq(fs.current_length, len(self.rows), "%s: number of fields" % what)
        for i, (name, addr, size, obj) in enumerate(self.rows):
            f = fs.getField(i)
            ensure(f is obj, "%s: field %d is %s", what, i, f.path)
            eq((f.name, f.address, f.size), (name, addr, size), "%s: field %d" % (what, i))
            ensure(fs.getField(name) is f, "%s: %s found by its name", what, name)
            eq(f.index, i, "%s: index of %s" % (what, name))
            eq(f.parent, fs, "%s: parent" % what)
            eq(f.absolute_address, fs.absolute_address + addr, "%s: absolute address" % what)
            if isinstance(f, F.RawBits) and not isinstance(f, (F.GenericInteger, F.Bit)):
                eq(f.value, reader.bits(f.absolute_address, size), "%s: value of %s" % (what, name))
            if type(f) in (F.RawBytes, F.PaddingBytes) and f.absolute_address % 8 == 0:
                eq(f.value, reader.bytes(f.absolute_address, size // 8), "%s: value of %s" % (what, name))


def make(fs, specs):
    return [F.RawBits(fs, n, size) for n, size in specs]


def expected(model, i, specs):
    """Final names of the new fields ('x[]': numbered), or None when one of them is used."""
    used = set(model.names()) - {model.rows[i][0]}
    out = []
    for n, _ in specs:
        if not n.endswith("[]"):
            if n in used:
                return None
            used.add(n)
        out.append(n)
    return out


def attempt(model, i, func, new, ok, reader, events, what, rec):
    """Runs func: does the replacement of the row i by `new`, or raises and does nothing."""
    fs = model.fs
    del events[:]
    before = [r[:3] for r in model.rows]
    try:
        func()
        done = True
    except (F.ParserError, AssertionError) as e:
        if ok:
            raise
        done = False
    if not done:
        eq([(f.name, f.address, f.size) for f in (fs.getField(k) for k in range(fs.current_length))],
           [tuple(r) for r in before], "fields after a failed %s" % what)
        model.check(reader, "failed " + what)
        eq(events, [], "events of a failed %s" % what)
        rec.label("refused")
        return
    ensure(ok, "%s accepted", what)
    old = model.rows[i]
    addr = old[1]
    rows = []
    for f, size in new:
        rows.append([f.name, addr, size, f])
        addr += size
    eq(addr, old[1] + old[2], "end")
    model.rows[i:i + 1] = rows
    names = model.names()
    ensure(len(set(names)) == len(names), "names used twice: %r", names)
    model.check(reader, what)
    want = [("field-replaced", old[3], rows[0][3])] + [("field-inserted", i + k, r[3]) for k, r in enumerate(rows) if k]
    eq(events, want, "events of %s" % what)
    rec.nt(len(rows) > 1)


@suite.sub("history", st.tuples(st.sampled_from("<>"), synth.formats(), synth.SEEDS, st.integers(0, 50), st.integers(0, 8) | st.none(), OPS),
           quick=6000, thorough=150000)
def history(case, rec):
    endian, fmt, seed, pick, first, ops = case
    try:
        data, children, end = synth.build_model(endian, fmt, seed, 0)
    except synth.End:
        return
    if not children or len(data) > 2000:
        return
    cls = synth.parser_class(endian, fmt)
    p = cls(StringInputStream(data))
    p2 = cls(StringInputStream(data))
    sets = [p] + [f for f in p if f.is_field_set]
    p = cls(StringInputStream(data))
    fs = sets[pick % len(sets)]
    fs, twin = (p, p2) if fs.path == "/" else (p[fs.path], p2[fs.path])
    whole = [(f.name, f.address, f.size) for f in twin]
    reader = synth.Reader(data, endian if fs.endian == synth.ENDIAN[endian] else ("<" if endian == ">" else ">"))
    if first is None:
        len(fs)
    else:
        fs.readFirstFields(first)
    local, glob = [], []
    for name in ("field-replaced", "field-inserted"):
        fs.connectEvent(name, lambda *a, name=name: local.append((name,) + a))
        p.connectEvent(name, lambda *a, name=name: glob.append((name,) + a), local=False)
    m = Model(fs)
    m.sync()
    for op in ops:
        k = op[0]
        del glob[:]
        n = len(m.rows)
        if k == "more":
            fs.readMoreFields(op[1])
            m.sync()
            continue
        if k == "nofield":
            new = make(fs, [("z", 8)])
            try:
                fs.replaceField("no such field", new)
            except F.ParserError:
                m.check(reader, "after replacing a missing field")
                continue
            fail("a missing field was replaced")
        if not n:
            continue
        if k in ("replace", "badsize"):
            i = op[1] % n
            total = m.rows[i][2] + (op[3] if k == "badsize" else 0)
            if total < 1:
                continue
            sizes = shares([w for _, w in op[2]], total)
            specs = [(nm, s) for (nm, _), s in zip(op[2], sizes)]
            new = make(fs, specs)
            names = expected(m, i, specs)
            attempt(m, i, lambda: fs.replaceField(m.rows[i][0], new), list(zip(new, sizes)),
                    k == "replace" and names is not None, reader, local, k, rec)
            rec.label(k)
        elif k == "write":
            i = op[1] % n
            addr, size = m.rows[i][1:3]
            start = addr + op[2] % size
            specs = op[3]
            new = make(fs, specs)
            total = sum(s for _, s in specs)
            after = addr + size - start - total
            full = ([("padding[]", start - addr)] if start > addr else []) + specs + ([("padding[]", after)] if after > 0 else [])
            ok = after >= 0 and expected(m, i, full) is not None
            # its padding fields are only known afterwards
            old = m.rows[i][3]
            if not ok:
                attempt(m, i, lambda: fs.writeFieldsIn(old, start, new), None, False, reader, local, k, rec)
            else:
                del local[:]
                fs.writeFieldsIn(old, start, new)
                got = [fs.getField(j) for j in range(i, i + len(full))]
                inner = got[1 if start > addr else 0:][:len(new)]
                ensure(all(a is b for a, b in zip(inner, new)), "fields written are other ones")
                for f in got:
                    if f not in new:
                        ensure(isinstance(f, (F.PaddingBits, F.PaddingBytes)) and f.name.startswith("padding["),
                               "%s (%s) around the written fields", f.name, type(f).__name__)
                attempt(m, i, lambda: None, [(f, s) for f, (_, s) in zip(got, full)], True, reader,
                        Keep(local), k, rec)
            rec.label(k)
        elif k == "find":
            feed = op[2]
            total = whole[-1][1] + whole[-1][2]
            addr = op[1] % (total + 8)
            got = fs.getFieldByAddress(addr, feed=feed)
            m.sync()
            want = [r[3] for r in m.rows if r[1] <= addr < r[1] + r[2]]
            ensure(got is (want[0] if want else None), "field at %d is %r instead of %r", addr, got and got.name, want and want[0].name)
            if feed and addr < total:
                ensure(got is not None, "no field at address %d", addr)
        elif k == "look":
            fs.getField(op[1] % n).display
        if fs is not p:
            eq(glob, list(local) if k in ("replace", "write", "badsize") else [], "events given to listeners of the root")
    # then the rest can be read
    done = len(m.rows)
    tail = m.rows[-1][1] + m.rows[-1][2] if m.rows else 0
    used = set(m.names())
    rest = [w for w in whole if w[1] >= tail]
    got = [(f.name, f.address, f.size) for f in fs]
    eq(got[:done], [tuple(r[:3]) for r in m.rows], "fields already there")
    eq([x[1:] for x in got[done:]], [x[1:] for x in rest], "fields read afterwards")
    for g, w in zip(got[done:], rest):
        if w[0] not in used and "[" not in w[0]:
            eq(g[0], w[0], "name of a field read afterwards")
        else:
            eq(re.sub(r"\[\d+\]", "", g[0]), re.sub(r"\[\d+\]", "", w[0]), "name of a field read afterwards")
    eq(len(fs), len(got), "number of fields")


class Keep(list):
    """Events which are not to be forgotten."""

    def __delitem__(self, i):
        pass
