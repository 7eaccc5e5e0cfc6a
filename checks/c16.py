"""C16: a seekable field set holds the fields where they were put, and raw fields exactly in the gaps."""
from hypothesis import strategies as st

from vh.core import Suite, ensure, eq, fail, raises
from vh import synth
import hachoir.field as F
from hachoir.field.seekable_field_set import getgaps
from hachoir.parser import Parser
from hachoir.stream import StringInputStream

suite = Suite("C16", rule="a case is a script of seeks and fields (forward, backward, overlapping, past the end, in nested seekable sets); "
              "non-trivial when the script goes backward or leaves a gap between two fields")

NAMES = st.sampled_from(["a", "b", "x[]", "item[]", "c"])
LEAF = st.one_of(st.tuples(st.just("bits"), st.integers(1, 24)), st.tuples(st.just("bits"), st.sampled_from([8, 16])),
                 st.tuples(st.just("bytes"), st.integers(1, 5)))
SEEK = st.one_of(
    st.tuples(st.just("bit"), st.integers(0, 400), st.booleans()), st.tuples(st.just("byte"), st.integers(0, 50), st.booleans()),
    st.tuples(st.just("byte"), st.integers(0, 50), st.booleans()), st.tuples(st.just("skip"), st.integers(1, 20)))


def scripts(depth):
    node = LEAF
    for _ in range(depth):
        node = st.one_of(LEAF, LEAF, LEAF, st.tuples(st.just("set"), st.none() | st.integers(1, 200),
                                                     st.lists(st.tuples(NAMES, node) | st.tuples(st.just(""), SEEK), min_size=1, max_size=5)))
    return st.lists(st.tuples(NAMES, node) | st.tuples(st.just(""), SEEK), min_size=1, max_size=9)


class Mixin:
    def createFields(self):
        for name, node in self.script:
            k = node[0]
            here = self.absolute_address + self._current_size
            if k == "bit":
                self.seekBit(node[1] if node[2] else node[1] + self.absolute_address, relative=node[2])
            elif k == "byte":
                if node[2] or self.absolute_address % 8:
                    self.seekByte(node[1])
                else:
                    self.seekByte(node[1] + self.absolute_address // 8, relative=False)
            elif k == "skip":
                self.seekBit(self._current_size + node[1])
            elif k == "bits":
                yield F.Bits(self, name, node[1])
            elif k == "bytes":
                if here % 8:
                    self.seekBit(self._current_size + -here % 8)
                yield F.RawBytes(self, name, node[1])
            elif k == "set":
                yield Sub(self, name, node[2], node[1])


class Sub(Mixin, F.SeekableFieldSet):
    def __init__(self, parent, name, script, size):
        self.script = script
        F.SeekableFieldSet.__init__(self, parent, name, size=size)


def parser_class(script):
    class P(Mixin, F.RootSeekableFieldSet, Parser):
        PARSER_TAGS = {"id": "c16", "description": "seek", "min_size": 8}
        endian = synth.ENDIAN[">"]

        def __init__(self, stream, **kw):
            self.script = script
            F.RootSeekableFieldSet.__init__(self, None, "root", stream, None, stream.askSize(self))
            Parser.__init__(self, stream, **kw)
    return P


class TooLarge(Exception):
    pass


def simulate(script, base, size, room):
    """rows (name, absolute address, size, rows of the set or None) before gaps, and size; room: bits left for it.

    Raises TooLarge when a field goes past the end (where autofix starts: see `fits`).
    """
    names = synth.Names()
    pos = 0
    rows = []
    for name, node in script:
        k = node[0]
        if k == "bit":
            pos = node[1]
        elif k == "byte":
            pos = node[1] * 8
        elif k == "skip":
            pos += node[1]
        else:
            if k == "bytes":
                pos += -(base + pos) % 8
            sub = None
            left = (size if size is not None else room) - pos
            if k == "set":
                if node[1] is None:
                    sub, n = simulate(node[2], base + pos, None, left)
                    if n <= 0:
                        raise TooLarge()
                else:
                    n = node[1]
                    if n > left:
                        raise TooLarge()
                    sub, _ = simulate(node[2], base + pos, n, n)
            else:
                n = node[1] if k == "bits" else 8 * node[1]
            if n > left:
                raise TooLarge()
            rows.append((names.get(name), base + pos, n, sub))
            pos += n
    end = size if size is not None else max([pos] + [a + n - base for _, a, n, _ in rows])
    if end > room:
        raise TooLarge()
    gaps = uncovered([(a, n) for _, a, n, _ in rows], base, end)
    return rows + [("unparsed[%d]" % i, a, n, "gap") for i, (a, n) in enumerate(gaps)], end


def uncovered(blocks, start, size):
    free = bytearray(b"\1") * size
    for a, n in blocks:
        lo, hi = max(0, a - start), min(size, a - start + n)
        if lo < hi:
            free[lo:hi] = bytes(hi - lo)
    out = []
    i = 0
    while True:
        i = free.find(1, i)
        if i < 0:
            return out
        j = free.find(0, i)
        j = size if j < 0 else j
        out.append((start + i, j - i))
        i = j


def compare(fs, rows, reader):
    got = list(fs)
    eq([(f.name, f.absolute_address, f.size) for f in got], [r[:3] for r in rows], "fields of %s" % fs.path)
    eq(len(fs), len(rows), "len")
    for i, (f, r) in enumerate(zip(got, rows)):
        ensure(fs[r[0]] is f and fs[i] is f, "%s by name or index", f.path)
        eq(f.index, i, "index of " + f.path)
        if isinstance(r[3], list):
            compare(f, r[3], reader)
        else:
            if r[3] == "gap":
                ensure(isinstance(f, (F.RawBytes, F.RawBits)), "%s is %s", f.path, type(f).__name__)
            v = reader.bits(r[1], r[2])
            eq(int.from_bytes(f.value, "big") if isinstance(f, F.RawBytes) else f.value, v, "value of %s" % f.path)


def lookups(fs, rows, addrs, rec):
    base = fs.absolute_address
    for a in addrs:
        a %= fs.size + 16
        got = fs.getFieldByAddress(a)
        holders = [r for r in rows if r[1] - base <= a < r[1] - base + r[2]]
        if holders:
            ensure(got is not None and any((got.name, got.absolute_address, got.size) == r[:3] for r in holders),
                   "field at address %d of %s: %r instead of %r", a, fs.path, got and got.name, [r[0] for r in holders])
            rec.label("found")
        else:
            ensure(got is None, "field at address %d of %s: %r", a, fs.path, got and got.name)


@suite.sub("layout", st.tuples(scripts(2), st.integers(1, 60), synth.SEEDS, st.lists(st.integers(0, 9999), max_size=4),
                               st.lists(st.integers(0, 600), max_size=6)), quick=8000, thorough=200000)
def layout(case, rec):
    script, size, seed, first, addrs = case
    if not any(n for n, _ in script):
        return
    data = synth.cyc(seed, size)
    reader = synth.Reader(data, ">")
    try:
        rows, end = simulate(script, 0, size * 8, size * 8)
    except TooLarge:
        rec.label("too large")
        rows = None
    p = parser_class(script)(StringInputStream(data))
    if rows is None:
        return damaged(p, size * 8, first, rec)
    eq(p.size, size * 8, "size of the root")
    if len(addrs) % 2:      # before anything is read
        lookups(p, rows, addrs, rec)
    for n in first:     # anything may be asked first
        r = rows[n % len(rows)]
        f = p[r[0]]
        eq((f.absolute_address, f.size), r[1:3], "field %s asked first" % r[0])
    compare(p, rows, reader)
    lookups(p, rows, addrs, rec)
    for r in rows:
        if isinstance(r[3], list):
            lookups(p[r[0]], r[3], addrs, rec)
            lookups(parser_class(script)(StringInputStream(data))[r[0]], r[3], addrs, rec)
    addrs = [r[1] for r in rows if r[3] != "gap"]
    rec.nt(addrs != sorted(addrs) or any(r[3] == "gap" for r in rows))
    rec.label("backward", addrs != sorted(addrs))
    rec.label("gap", any(r[3] == "gap" for r in rows))
    rec.label("nested", any(isinstance(r[3], list) for r in rows))


def damaged(p, size, first, rec):
    """A field past the end: everything stays inside, and covered."""
    for n in first:
        try:
            p[n % 7]
        except F.MissingField:
            pass
    todo = [p]
    while todo:
        fs = todo.pop()
        # the fields met while the last ones are replaced
        met = list(fs)
        final = list(fs)
        ids = {id(f) for f in final}
        eq([f.name for f in met if id(f) in ids], [f.name for f in final], "fields of %s met by the first iteration" % fs.path)
        rec.label("fields replaced while iterating", len(met) > len(final))
        names = [f.name for f in fs]
        ensure(len(set(names)) == len(names), "names used twice in %s: %r", fs.path, names)
        eq(len(fs), len(names), "len(%s)" % fs.path)
        lo, hi = fs.absolute_address, fs.absolute_address + fs.size
        for f in fs:
            ensure(lo <= f.absolute_address and f.absolute_address + f.size <= hi and f.size > 0,
                   "%s [%d, %d] is not inside %s [%d, %d]", f.path, f.absolute_address, f.size, fs.path, lo, fs.size)
            if f.is_field_set:
                todo.append(f)
            else:
                f.value
        holes = uncovered([(f.absolute_address, f.size) for f in fs], lo, fs.size)
        eq(holes, [], "bits of %s in no field" % fs.path)
        gaps = [f for f in fs if f.name.startswith("unparsed[")]
        for g in gaps:
            for f in fs:
                ensure(f is g or f.absolute_address + f.size <= g.absolute_address or g.absolute_address + g.size <= f.absolute_address,
                       "%s covers %s", g.path, f.path)
    eq(p.size, size, "size of the root")


@suite.sub("gaps", st.tuples(st.integers(0, 20), st.integers(0, 60), st.lists(st.tuples(st.integers(0, 90), st.integers(1, 20)), max_size=10)),
           quick=4000, thorough=60000)
def gaps(case, rec):
    start, size, blocks = case
    # blocks before the start or after the end do not matter
    inside = [(a, n) for a, n in blocks if a + n <= start + size]
    copy = list(inside)
    got = list(getgaps(start, size, inside))
    eq(got, uncovered(inside, start, size), "gaps")
    eq(inside, copy, "blocks changed")
    rec.nt(len(got) > 1)
