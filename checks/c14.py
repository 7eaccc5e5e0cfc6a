"""C14: a parse error or a cut file costs only what it touches; the rest of the tree is the one of the intact file."""
from hypothesis import strategies as st

from vh.core import Suite, ensure, eq, fail
from vh import streams as S, synth
import hachoir.field as F
from hachoir.parser import Parser
from hachoir.stream import StringInputStream

suite = Suite("C14", rule="a case is a synthetic format (fixed-size fields, sized and unsized sets, sets declared too short or too "
              "long, an error raised somewhere), content, a cut, a kind of stream and a reading order; non-trivial when "
              "a set is cut or an error is raised inside the tree")

LEAVES = {"bits": lambda n: n, "int": lambda t: int(t.strip("UInt")), "bytes": lambda n: 8 * n}


class Boom(Exception):
    pass


ERRORS = [F.ParserError, F.MatchError, Boom, ValueError, KeyError, AssertionError, ZeroDivisionError, UnicodeDecodeError]


def make_error(i):
    cls = ERRORS[i % len(ERRORS)]
    if cls is UnicodeDecodeError:
        return UnicodeDecodeError("ascii", b"x", 0, 1, "planted")
    return cls("planted")


# --- formats: list of (name, node)
NAMES = st.sampled_from(["a", "b", "c", "item[]", "x[]", "data"])
LEAF = st.one_of(st.tuples(st.just("bits"), st.integers(1, 20)), st.tuples(st.just("bits"), st.sampled_from([8, 16])),
                 st.tuples(st.just("int"), st.sampled_from(synth.INTS)), st.tuples(st.just("bytes"), st.integers(1, 6)),
                 st.tuples(st.just("bytes"), st.integers(1, 6)))


def formats(depth=3):
    node = LEAF
    for _ in range(depth):
        sub = st.lists(st.tuples(NAMES, node), min_size=1, max_size=4)
        node = st.one_of(LEAF, LEAF, LEAF, st.tuples(st.just("set"), sub), st.tuples(st.just("set"), sub),
                         st.tuples(st.just("sized"), st.sampled_from([0, 0, 1, 8, 20, -1, -8, -16, -20, -50]), sub),
                         st.tuples(st.just("raise"), st.integers(0, 7)))
    return st.lists(st.tuples(NAMES, node), min_size=1, max_size=6)


def natural(fmt, addr):
    """End of the fields of fmt when nothing goes wrong (errors ignored)."""
    for _, node in fmt:
        k = node[0]
        if k == "bytes" and addr % 8:
            addr += -addr % 8
        if k in LEAVES:
            addr += LEAVES[k](node[1])
        elif k == "set":
            addr = natural(node[1], addr)
        elif k == "sized":
            addr += declared(node, addr)
    return addr


def declared(node, addr):
    return max(1, natural(node[2], addr) - addr + node[1])


def leaves_only(fmt):
    """Sets without any field can't exist."""
    out = []
    for name, node in fmt:
        if node[0] in ("set", "sized"):
            sub = leaves_only(node[-1])
            if not any(n[0] != "raise" for _, n in sub):
                continue
            node = node[:-1] + (sub,)
        out.append((name, node))
    return out


def no_error(fmt):
    return [(n, f if f[0] not in ("set", "sized") else f[:-1] + (no_error(f[-1]),)) for n, f in fmt if f[0] != "raise"]


class Set(F.FieldSet):
    def __init__(self, parent, name, fmt, size=None):
        self._fmt = fmt
        F.FieldSet.__init__(self, parent, name, size=size)

    def createFields(self):
        yield from feed(self, self._fmt)


def feed(fs, fmt):
    for name, node in fmt:
        k = node[0]
        addr = fs.absolute_address + fs.current_size
        if k == "bytes" and addr % 8:
            yield F.Bits(fs, "align[]", -addr % 8)
        if k == "bits":
            yield F.Bits(fs, name, node[1])
        elif k == "int":
            yield getattr(F, node[1])(fs, name)
        elif k == "bytes":
            yield F.RawBytes(fs, name, node[1])
        elif k == "set":
            yield Set(fs, name, node[1])
        elif k == "sized":
            yield Set(fs, name, node[2], declared(node, addr))
        else:
            raise make_error(node[1])


def parser_class(endian, fmt):
    class P(Parser):
        PARSER_TAGS = {"id": "c14", "description": "planted", "min_size": 8}

        def createFields(self):
            yield from feed(self, fmt)
    P.endian = synth.ENDIAN[endian]
    return P


# --- model
class Failed(Exception):
    """An error leaves an unsized set, which is lost unless it reached the very end of what it may use."""

    def __init__(self, children=(), pos=None):
        self.children, self.pos = children, pos


def expect(fmt, start, end, lim, names=None):
    """Fields of a set: list of (name, addr, size, children or kind), and its end.

    end: declared end (None when unknown); lim: where the nearest sized ancestor ends.
    """
    names = synth.Names()
    out = []
    pos = start
    bound = lim if end is None else min(end, lim)
    sized = end is not None

    def stop(pos):
        """Nothing more; a sized set is completed by a raw field."""
        if sized and pos < bound:
            out.append(("raw[]", pos, bound - pos, "raw"))
            return out, bound
        return out, pos

    def leaf(name, n, kind):
        nonlocal pos
        if pos + n > bound:
            if pos == start:
                raise Failed()
            if pos < bound and not sized:
                out.append(("raw[]", pos, bound - pos, "raw"))
                pos = bound
            return False
        out.append((names.get(name), pos, n, kind))
        pos += n
        return True

    try:
        for name, node in fmt:
            k = node[0]
            if k == "raise":
                raise Failed()
            if k == "bytes" and pos % 8:
                if not leaf("align[]", -pos % 8, "bits"):
                    return stop(pos)
            if k in LEAVES:
                if not leaf(name, LEAVES[k](node[1]), k):
                    return stop(pos)
                continue
            if k == "sized":
                n = declared(node, pos)
                if pos + n > bound:
                    if pos == start and pos >= bound:
                        raise Failed()
                    if pos == start:
                        raise Failed()
                    if pos >= bound:
                        return stop(pos)
                    n = bound - pos
                children, _ = expect(node[2], pos, pos + n, bound)
                out.append((names.get(name), pos, n, children))
                pos += n
                continue
            # unsized set
            last = pos
            try:
                children, pos2 = expect(node[1], pos, None, bound)
            except Failed as err:
                if err.children and err.pos >= bound:
                    out.append((names.get(name), last, err.pos - last, err.children))
                    return stop(err.pos)
                raise
            if pos2 == last:
                return stop(pos)
            out.append((names.get(name), last, pos2 - last, children))
            pos = pos2
    except Failed:
        if not sized:
            raise Failed(out, pos)
        return stop(pos)
    return stop(pos)


def intact(fmt, start, path=""):
    """path -> (addr, size) of all the leaves when nothing goes wrong."""
    names = synth.Names()
    out = {}
    pos = start
    for name, node in fmt:
        k = node[0]
        if k == "raise":
            continue
        if k == "bytes" and pos % 8:
            out[path + "/" + names.get("align[]")] = (pos, -pos % 8)
            pos += -pos % 8
        p = path + "/" + names.get(name)
        if k in LEAVES:
            n = LEAVES[k](node[1])
            out[p] = (pos, n)
        elif k == "set":
            out.update(intact(node[1], pos, p))
            n = natural(node[1], pos) - pos
        else:
            out.update(intact(node[2], pos, p))
            n = declared(node, pos)
        pos += n
    return out


def check_leaf(f, addr, size, reader, kind):
    eq((f.absolute_address, f.size), (addr, size), "%s: address, size" % f.path)
    if addr % 8 == 0 and size % 8 == 0 and isinstance(f, F.RawBytes):
        eq(f.value, reader.bytes(addr, size // 8), "value of %s" % f.path)
    elif not (addr % 8 and size % 8 == 0 and isinstance(f, F.RawBytes)):
        v = reader.bits(addr, size)
        if isinstance(f, F.GenericInteger) and f.signed and v >> (size - 1):
            v -= 1 << size
        eq(f.value, v, "value of %s" % f.path)
    if kind != "raw":
        # a field of the file, not of the repair
        ensure(not f.name.startswith("raw["), "%s instead of a field", f.path)


def israw(f):
    return type(f) in (F.RawBytes, F.RawBits) and f.name.startswith("raw[")


def compare(fs, want, reader, rec):
    got = list(fs)
    desc = [(f.name, f.absolute_address, f.size) for f in got]
    exp = [w[:3] for w in want]
    if desc != exp:
        # names of raw fields are free
        ok = len(desc) == len(exp) and all(d[1:] == e[1:] and (d[0] == e[0] or (e[0] == "raw[]" and israw(f)))
                                           for d, e, f in zip(desc, exp, got))
        ensure(ok, "fields of %s: %r instead of %r", fs.path, desc, exp)
    for f, w in zip(got, want):
        if isinstance(w[3], list):
            ensure(f.is_field_set, "%s is not a field set", f.path)
            compare(f, w[3], reader, rec)
        else:
            ensure(not f.is_field_set, "%s is a field set", f.path)
            if w[3] == "raw":
                ensure(israw(f), "%s (%s) covers the rest of %s", f.path, type(f).__name__, fs.path)
            check_leaf(f, w[1], w[2], reader, w[3])
    eq(len(fs), len(want), "len(%s)" % fs.path)


def check_any(fs, whole, reader, end):
    """Tiling, inside its parent, fields of the intact tree or raw."""
    pos = fs.absolute_address
    names = set()
    for f in fs:
        ensure(f.name not in names, "%s: %s twice", fs.path, f.name)
        names.add(f.name)
        eq(f.absolute_address, pos, "address of %s" % f.path)
        ensure(f.size > 0, "size of %s: %d", f.path, f.size)
        pos += f.size
        ensure(pos <= end, "%s goes beyond the end", f.path)
        if f.is_field_set:
            check_any(f, whole, reader, pos)
        elif whole.get(f.path) == (f.absolute_address, f.size):
            check_leaf(f, f.absolute_address, f.size, reader, "leaf")
        else:
            ensure(israw(f), "%s [%d, %d bits] is not a field of the intact file", f.path, f.absolute_address, f.size)
            check_leaf(f, f.absolute_address, f.size, reader, "raw")
    eq(pos, fs.absolute_address + fs.size, "end of the fields of %s" % fs.path)


@suite.sub("known size", st.tuples(st.sampled_from("<>"), formats(), synth.SEEDS, st.none() | st.integers(0, 400), st.integers(0, 2),
                                   st.sampled_from(["str", "str", "file", "pipesize"])),
           quick=8000, thorough=200000)
def known(case, rec):
    endian, fmt, seed, cut, extra, kind = case
    fmt = leaves_only(fmt)
    end = natural(fmt, 0)
    if not end or end > 16000:
        return
    n = (end + 7) // 8 + extra
    if cut is not None:
        n = max(1, n - cut % n)
    data = synth.cyc(seed, n)
    reader = synth.Reader(data, endian)
    try:
        want, _ = expect(fmt, 0, n * 8, n * 8)
    except Failed:
        return
    if not want:
        return
    spec = {"str": ("str", data), "file": ("file", data, 0, None), "pipesize": ("pipe", data, True)}[kind]
    b = S.build(spec)
    try:
        p = parser_class(endian, fmt)(b.stream)
        compare(p, want, reader, rec)
        check_any(p, intact(fmt, 0), reader, n * 8)
        eq(p.size, n * 8, "size of the root")
    finally:
        b.close()
    flat = repr(want)
    rec.nt("'raw'" in flat)
    rec.label("cut" if cut is not None else "whole")
    rec.label("error", "raise" in repr(fmt))
    rec.label("raw inside", "raw[]" in repr([w[3] for w in want]))


@suite.sub("unknown size", st.tuples(st.sampled_from("<>"), formats(), synth.SEEDS, st.none() | st.integers(0, 400), st.integers(0, 2),
                                     st.sampled_from(["pipe", "espipe"]), st.lists(st.integers(0, 99), max_size=3)),
           quick=5000, thorough=100000)
def unknown(case, rec):
    endian, fmt, seed, cut, extra, kind, first = case
    fmt = leaves_only(no_error(fmt))    # an error can't be skipped when the size is unknown
    end = natural(fmt, 0)
    if not end or end > 16000:
        return
    n = (end + 7) // 8 + extra
    if cut is not None:
        n = max(1, n - cut % n)
    data = synth.cyc(seed, n)
    reader = synth.Reader(data, endian)
    whole = intact(fmt, 0)
    b = S.build(("pipe", data, False) if kind == "pipe" else ("espipe", data))
    try:
        p = parser_class(endian, fmt)(b.stream)
        paths = sorted(whole)
        for i in first:
            try:
                p[paths[i % len(paths)]].value
            except Exception:
                pass
        while True:     # the size is found by reading
            try:
                before = p.size
                for f in p:
                    walk(f)
            except Exception:
                if not len(p):
                    return      # not even one field
                raise
            if p.size == before:
                break
        if p.size is None:
            return
        rec.nt(cut is not None)
        eq(p.size, n * 8, "size of the root")
        check_any(p, whole, reader, n * 8)
    finally:
        b.close()


def walk(f):
    if f.is_field_set:
        for g in f:
            walk(g)
    else:
        f.value
