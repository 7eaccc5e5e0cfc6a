"""Synthetic file formats: a format is plain data; `parser_class` gives a real hachoir
parser for it, `layout` the tree it describes (computed without hachoir)."""
from hypothesis import strategies as st

from vh import repo  # noqa: F401
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
import hachoir.field as F

ENDIAN = {">": BIG_ENDIAN, "<": LITTLE_ENDIAN}
INTS = ["UInt8", "Int8", "UInt16", "Int16", "UInt24", "UInt32", "Int32", "UInt64"]
BYTEWISE = ("bytes", "cstr", "pas8", "pas16", "str", "float")


def cyc(seed, n):
    return (seed * (n // len(seed) + 1))[:n]


class End(Exception):
    """The content ends inside a field."""


class Node:
    def __init__(self, name, kind, addr, size, value=None, children=None):
        self.name, self.kind, self.addr, self.size = name, kind, addr, size
        self.value, self.children = value, children

    def dump(self, path=""):
        p = path + "/" + self.name
        out = [(p, self.addr, self.size, self.value if self.children is None else None)]
        for c in self.children or ():
            out += c.dump(p)
        return out


class Names:
    def __init__(self):
        self.count = {}
        self.used = set()

    def get(self, name):
        if name.endswith("[]"):
            name = self.array(name[:-2])
        elif name in self.used:
            name = self.array(name)
        assert name not in self.used
        self.used.add(name)
        return name

    def array(self, key):
        i = self.count[key] = self.count.get(key, -1) + 1
        return "%s[%d]" % (key, i)


class Reader:
    def __init__(self, data, endian):
        self.data, self.endian = data, endian

    def bits(self, addr, n):
        lo, hi = addr // 8, (addr + n + 7) // 8
        if hi > len(self.data):
            raise End()
        raw = self.data[lo:hi]
        s = addr - lo * 8
        if self.endian == ">":
            return (int.from_bytes(raw, "big") >> (len(raw) * 8 - s - n)) & ((1 << n) - 1)
        return (int.from_bytes(raw, "little") >> s) & ((1 << n) - 1)

    def bytes(self, addr, n):
        assert addr % 8 == 0
        if addr // 8 + n > len(self.data):
            raise End()
        return self.data[addr // 8:addr // 8 + n]


def layout(fmt, r, addr):
    """Children of a set described by `fmt` and the address after the last one."""
    names = Names()
    out = []
    start = addr
    for name, node in fmt:
        k = node[0]
        if k in BYTEWISE and addr % 8:
            gap = -addr % 8
            out.append(Node(names.get("align[]"), "bits", addr, gap, r.bits(addr, gap)))
            addr += gap
        if k == "bits":
            f = Node(name, k, addr, node[1], r.bits(addr, node[1]))
        elif k == "bit":
            f = Node(name, k, addr, 1, bool(r.bits(addr, 1)))
        elif k == "int":
            n = int(node[1].strip("UInt"))
            v = r.bits(addr, n)
            if node[1][0] == "I" and v >> (n - 1):
                v -= 1 << n
            f = Node(name, k, addr, n, v)
        elif k == "bytes":
            f = Node(name, k, addr, node[1] * 8, r.bytes(addr, node[1]))
        elif k == "str":
            f = Node(name, k, addr, node[1] * 8, r.bytes(addr, node[1]).decode("latin1"))
        elif k == "cstr":
            p = r.data.find(b"\0", addr // 8)
            if p < 0:
                raise End()
            f = Node(name, k, addr, (p + 1) * 8 - addr, r.data[addr // 8:p].decode("latin1"))
        elif k in ("pas8", "pas16"):
            w = 1 if k == "pas8" else 2
            n = int.from_bytes(r.bytes(addr, w), "big" if r.endian == ">" else "little")
            f = Node(name, k, addr, (w + n) * 8, r.bytes(addr + 8 * w, n).decode("latin1"))
        elif k == "vec":
            n = int(node[1].strip("UInt"))
            f = Node(name, k, addr, n * node[2], None, [])
            for i in range(node[2]):
                v = r.bits(addr + i * n, n)
                if node[1][0] == "I" and v >> (n - 1):
                    v -= 1 << n
                f.children.append(Node("item[%d]" % i, "int", addr + i * n, n, v))
        elif k == "seek":
            target = start + node[1]
            if target <= addr:
                continue
            n = target - addr
            raw = r.bits(addr, n)
            if n % 8 == 0:
                if addr % 8:
                    f = Node(name, k, addr, n, NotImplemented)
                else:
                    f = Node(name, k, addr, n, r.bytes(addr, n // 8))
            else:
                f = Node(name, k, addr, n, raw)
        elif k == "fill":
            f = Node(name, k, addr, node[1] * node[2], None, [])
            for i in range(node[2]):
                a = addr + i * node[1]
                f.children.append(Node("item[%d]" % i, "bits", a, node[1], r.bits(a, node[1])))
        elif k in ("set", "sized", "eset"):
            sub = Reader(r.data, "<" if r.endian == ">" else ">") if k == "eset" else r
            children, end = layout(node[-1], sub, addr)
            if not children:
                continue
            f = Node(name, k, addr, end - addr, None, children)
            if k == "sized" and node[1]:
                n = node[1]
                f.size += n
                raw = NotImplemented if end % 8 and n % 8 == 0 else \
                    r.bytes(end, n // 8) if n % 8 == 0 else r.bits(end, n)
                children.append(Node("raw[]", "raw", end, n, raw))
        else:
            raise AssertionError(k)
        f.name = names.get(f.name)
        out.append(f)
        addr = f.addr + f.size
    return out, addr


class Feed:
    """createFields() of a format."""

    def __init__(self, fmt):
        self.fmt = fmt

    def fields(self, fs):
        for name, node in self.fmt:
            k = node[0]
            here = fs.absolute_address + fs.current_size
            if k in BYTEWISE and here % 8:
                yield F.Bits(fs, "align[]", -here % 8)
            if k == "bits":
                yield F.Bits(fs, name, node[1])
            elif k == "bit":
                yield F.Bit(fs, name)
            elif k == "int":
                yield getattr(F, node[1])(fs, name)
            elif k == "bytes":
                yield F.RawBytes(fs, name, node[1])
            elif k == "str":
                yield F.String(fs, name, node[1], charset="ISO-8859-1")
            elif k == "cstr":
                yield F.CString(fs, name, charset="ISO-8859-1")
            elif k == "pas8":
                yield F.PascalString8(fs, name, charset="ISO-8859-1")
            elif k == "pas16":
                yield F.PascalString16(fs, name, charset="ISO-8859-1")
            elif k == "vec":
                yield F.GenericVector(fs, name, node[2], getattr(F, node[1]))
            elif k == "seek":
                if node[1] > fs.current_size:
                    if node[1] % 8 == 0 and node[2]:
                        f = fs.seekByte(node[1] // 8, name)
                    elif node[2]:
                        f = fs.seekBit(node[1], name)
                    else:
                        f = fs.seekBit(fs.absolute_address + node[1], name, relative=False, null=True)
                    yield f
                else:
                    assert node[1] != fs.current_size or fs.seekBit(node[1]) is None
            elif k == "set":
                if not empty(node[-1]):
                    yield Set(fs, name, node[-1])
            elif k == "eset":
                if not empty(node[-1]):
                    yield OTHER[fs.endian](fs, name, node[-1])
            elif k == "fill":
                yield Fill(fs, name, node[1], node[2])
            elif k == "sized":
                if not empty(node[-1]):
                    yield Sized(fs, name, node[-1], node[1])
            else:
                raise AssertionError(k)


def empty(fmt):
    """No field at all (a field set may not be empty)."""
    return all((n[0] in ("set", "sized", "eset") and empty(n[-1])) or (n[0] == "seek" and n[1] <= 0) for _, n in fmt)


class Set(F.FieldSet):
    def __init__(self, parent, name, fmt, **kw):
        self._fmt = fmt
        F.FieldSet.__init__(self, parent, name, **kw)

    def createFields(self):
        yield from Feed(self._fmt).fields(self)

    def createDescription(self):
        return "%d fields" % len(self._fmt)


class Sized(Set):
    """Declares its size: the one of its format (measured on a twin) plus `extra` bits."""

    def __init__(self, parent, name, fmt, extra):
        twin = Set(parent, name, fmt)
        Set.__init__(self, parent, name, fmt, size=twin.size + extra)


class LittleSet(Set):
    endian = LITTLE_ENDIAN


class BigSet(Set):
    endian = BIG_ENDIAN


OTHER = {BIG_ENDIAN: LittleSet, LITTLE_ENDIAN: BigSet}


class Fill(F.FieldSet):
    """Reads items until the end of the declared size."""

    def __init__(self, parent, name, nbits, count):
        self._nbits = nbits
        F.FieldSet.__init__(self, parent, name, size=nbits * count)

    def createFields(self):
        while not self.eof:
            yield F.Bits(self, "item[]", self._nbits)


def exact(fmt):
    """No set is larger than its fields: nothing to fix."""
    return all(not (n[0] == "sized" and n[1]) and exact(n[-1] if n[0] in ("set", "eset", "sized") else []) for _, n in fmt)


def parser_class(endian, fmt, autofix=True):
    class P(F.Parser):
        def createFields(self):
            yield from Feed(fmt).fields(self)
    P.endian = ENDIAN[endian]
    P.autofix = autofix
    return P


NAMES = st.sampled_from(["a", "b", "c", "item[]", "x[]", "data", "a[]", "size", "header"])
LEAF = st.one_of(
    st.tuples(st.just("bits"), st.integers(1, 20)), st.tuples(st.just("bit")),
    st.tuples(st.just("int"), st.sampled_from(INTS)), st.tuples(st.just("int"), st.sampled_from(INTS[:4])),
    st.tuples(st.just("bytes"), st.integers(1, 9)), st.tuples(st.just("str"), st.integers(1, 9)),
    st.tuples(st.just("cstr")), st.tuples(st.just("pas8")), st.tuples(st.just("pas16")),
    st.tuples(st.just("vec"), st.sampled_from(["UInt8", "Int16", "UInt24"]), st.integers(1, 4)),
    st.tuples(st.just("fill"), st.sampled_from([1, 3, 8, 16]), st.integers(1, 12)),
    st.tuples(st.just("seek"), st.integers(1, 90), st.booleans()),
)


def formats(depth=2, maxlen=6, minlen=1, leaf=LEAF):
    node = leaf
    for _ in range(depth):
        sub = st.lists(st.tuples(NAMES, node), min_size=1, max_size=4)
        node = st.one_of(leaf, leaf, leaf, st.tuples(st.sampled_from(["set", "eset"]), sub),
                         st.tuples(st.just("sized"), st.integers(0, 30) | st.just(0), sub))
    return st.lists(st.tuples(NAMES, node), min_size=minlen, max_size=maxlen)


# content: small numbers (lengths), always with a nul byte
SEEDS = st.lists(st.integers(0, 5) | st.sampled_from([0, 1, 65, 128, 255]), min_size=1, max_size=24).map(
    lambda x: bytes(x) + b"\0")


def build_model(endian, fmt, seed, extra):
    """(content, tree): content holds exactly the tree plus `extra` bytes."""
    big = Reader(cyc(seed, 70000), endian)
    children, end = layout(fmt, big, 0)
    total = (end + 7) // 8 + extra
    return big.data[:total], children, end


def tree(fs, path="", values=True):
    """Dump of a real field set."""
    out = []
    for f in fs:
        p = path + "/" + f.name
        out.append((p, f.absolute_address, f.size, None if f.is_field_set or not values else f.value))
        if f.is_field_set:
            out += tree(f, p, values)
    return out
