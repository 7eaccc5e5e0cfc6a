"""Compiled Python files of every version: values, and the bytes of the marshal format."""
import random
import struct

from hypothesis import strategies as st

# (magic number, version) of the releases
RELEASES = [(20121, (1, 5)), (50428, (1, 6)), (50823, (2, 0)), (60202, (2, 1)), (60717, (2, 2)), (62021, (2, 3)), (62061, (2, 4)), (62131, (2, 5)), (62161, (2, 6)),
            (62211, (2, 7)), (3131, (3, 0)), (3151, (3, 1)), (3180, (3, 2)), (3230, (3, 3)), (3310, (3, 4)), (3351, (3, 5)), (3379, (3, 6)), (3394, (3, 7)),
            (3413, (3, 8)), (3425, (3, 9)), (3439, (3, 10)), (3495, (3, 11)), (3531, (3, 12)), (3571, (3, 13)), (3627, (3, 14))]
NAME = st.text(st.sampled_from("abcxyz_01"), min_size=1, max_size=8)
TEXT = st.text(st.sampled_from("ab \n\u00e9\u20ac\U0001f600"), max_size=8) | NAME | st.text(st.sampled_from("xy"), min_size=250, max_size=260)
INT = st.integers(-5, 300) | st.integers(-(1 << 31), (1 << 31) - 1) | st.integers(-(1 << 100), 1 << 100)
FLOAT = st.floats(allow_nan=False)
COMPLEX = st.complex_numbers(allow_nan=False)
HASHABLE = st.recursive(st.one_of(st.none(), st.booleans(), st.just(...), INT, INT, FLOAT, COMPLEX, TEXT, TEXT, st.binary(max_size=12)),
                        lambda c: st.lists(c, max_size=4).map(tuple) | st.frozensets(c, max_size=3), max_leaves=8)
SLICE = st.tuples(st.just("slice"), INT | st.none(), INT | st.none(), INT | st.none())
VALUES = st.recursive(HASHABLE, lambda c: st.one_of(st.lists(c, max_size=4), st.lists(c, max_size=4).map(tuple), st.dictionaries(HASHABLE, c, max_size=3), st.sets(HASHABLE, max_size=3)),
                      max_leaves=8)
SMALL = st.integers(0, 40)


class Code(dict):
    """The attributes of a code object"""

    def __hash__(self):
        return id(self)


def codes(depth):
    consts = VALUES | SLICE
    if depth:
        consts = consts | codes(depth - 1)
    return st.fixed_dictionaries({
        "args": SMALL, "posonly": SMALL, "kwonly": SMALL, "locals": SMALL, "stack": st.integers(0, 60000), "flags": st.integers(0, 65535), "code": st.binary(min_size=1, max_size=30),
        "consts": st.lists(consts, max_size=5), "names": st.lists(NAME, max_size=4), "varnames": st.lists(NAME, max_size=3), "free": st.lists(NAME, max_size=2),
        "cell": st.lists(NAME, max_size=2), "file": NAME | TEXT, "name": NAME, "qual": NAME, "line": st.integers(0, 60000), "lines": st.lists(st.integers(0, 255), max_size=6),
        "exc": st.binary(max_size=5)}).map(Code)


CASES = st.fixed_dictionaries({
    "release": st.sampled_from(RELEASES), "code": codes(1), "share": st.booleans(), "seed": st.integers(0, 99), "time": st.integers(0, 2147483647), "size": st.integers(0, (1 << 32) - 1),
    "hash": st.none() | st.tuples(st.integers(0, (1 << 64) - 1), st.booleans())})


class Writer:
    def __init__(self, version, share, seed):
        self.v, self.share = version, share
        self.rnd = random.Random(seed)
        self.refs = {}          # what can be told again -> number
        self.interned = {}
        self.nrefs = 0
        self.told = 0           # number of references written

    def key(self, v):
        return (type(v), repr(v))

    def put(self, v, kind=None):
        """kind: 'name' (an interned string), 'bytes'"""
        if self.v >= (3, 4) and self.share and v is not None and not isinstance(v, (bool, Code)) and v is not ...:
            k = (self.key(v), kind)
            if k in self.refs and self.rnd.random() < .8:
                self.told += 1
                return b"r" + struct.pack("<I", self.refs[k])
            if self.rnd.random() < .6:
                self.refs[k] = self.nrefs
                self.nrefs += 1
                out = self.body(v, kind)
                return bytes([out[0] | 0x80]) + out[1:]
        return self.body(v, kind)

    def text(self, v, kind):
        raw = v.encode("utf-8")
        size = struct.pack("<I", len(raw))
        if self.v < (3, 0):
            if kind == "name":
                if self.v >= (2, 4):
                    if v in self.interned and self.share:
                        self.told += 1
                        return b"R" + struct.pack("<I", self.interned[v])
                    if self.rnd.random() < .7:
                        if v not in self.interned:
                            self.interned[v] = len(set(self.interned.values()))
                            return b"t" + size + raw
                return b"s" + size + raw
            return b"u" + size + raw
        if self.v >= (3, 4) and all(c < 128 for c in raw) and self.rnd.random() < .9:
            if len(raw) < 256 and self.rnd.random() < .9:
                return (b"Z" if kind == "name" else b"z") + bytes([len(raw)]) + raw
            return (b"A" if kind == "name" else b"a") + size + raw
        return b"u" + size + raw

    def body(self, v, kind):
        pick = self.rnd.random()
        if v is None:
            return b"N"
        if v is True or v is False:
            return (b"T" if v else b"F") if self.v >= (2, 3) else b"i" + struct.pack("<i", v)
        if v is ...:
            return b"."
        if isinstance(v, int):
            if -(1 << 31) <= v < 1 << 31 and pick < .8:
                return b"i" + struct.pack("<i", v)
            if self.v < (3, 4) and -(1 << 63) <= v < 1 << 63 and pick < .9:
                return b"I" + struct.pack("<q", v)
            digits = []
            n = abs(v)
            while n:
                digits.append(n & 0x7fff)
                n >>= 15
            return b"l" + struct.pack("<i", -len(digits) if v < 0 else len(digits)) + b"".join(struct.pack("<H", d) for d in digits)
        if isinstance(v, float):
            if self.v < (2, 5) or self.v < (3, 4) and pick < .1:
                t = repr(v).encode()
                return b"f" + bytes([len(t)]) + t
            return b"g" + struct.pack("<d", v)
        if isinstance(v, complex):
            if self.v < (2, 5):
                t = [repr(x).encode() for x in (v.real, v.imag)]
                return b"x" + b"".join(bytes([len(x)]) + x for x in t)
            return b"y" + struct.pack("<dd", v.real, v.imag)
        if isinstance(v, bytes):
            return b"s" + struct.pack("<I", len(v)) + v
        if isinstance(v, str):
            return self.text(v, kind)
        if isinstance(v, Code):
            return self.code(v)
        if isinstance(v, tuple) and v and v[0] == "slice":
            return b":" + b"".join(self.put(x) for x in v[1:])
        if isinstance(v, dict):
            return b"{" + b"".join(self.put(k) + self.put(x) for k, x in v.items()) + b"0"
        items = list(v)
        if isinstance(v, tuple) and self.v >= (3, 4) and len(items) < 256 and pick < .8:
            return b")" + bytes([len(items)]) + b"".join(self.put(x, kind) for x in items)
        c = {tuple: b"(", list: b"[", set: b"<", frozenset: b">"}[type(v)]
        return c + struct.pack("<I", len(items)) + b"".join(self.put(x, kind) for x in items)

    def code(self, c):
        v = self.v
        nums = [c["args"]]
        if v >= (3, 8):
            nums.append(c["posonly"])
        if v >= (3, 0):
            nums.append(c["kwonly"])
        if v < (3, 11):
            nums.append(c["locals"])
        nums += [c["stack"], c["flags"]]
        num = "<I" if v >= (2, 3) else "<H"
        out = b"c" + b"".join(struct.pack(num, n) for n in nums)
        out += self.put(c["code"]) + self.put(tuple(c["consts"])) + self.put(tuple(c["names"]), "name")
        if v >= (3, 11):
            out += self.put(tuple(c["varnames"] + c["free"] + c["cell"]), "name") + self.put(bytes([0x20] * len(c["varnames"]) + [0x80] * len(c["free"]) + [0x40] * len(c["cell"])))
        else:
            out += self.put(tuple(c["varnames"]), "name")
            if v >= (2, 1):
                out += self.put(tuple(c["free"]), "name") + self.put(tuple(c["cell"]), "name")
        out += self.put(c["file"], "name") + self.put(c["name"], "name")
        if v >= (3, 11):
            out += self.put(c["qual"], "name")
        out += struct.pack(num, c["line"])
        lines = bytes(c["lines"][:len(c["lines"]) // 2 * 2])
        # (the table of old versions has no value of its own)
        out += self.put(lines) if v >= (3, 10) else self.body(lines, None)
        if v >= (3, 11):
            out += self.put(c["exc"])
        return out


def supported(v, version):
    """The value as this version has it"""
    if isinstance(v, Code):
        return Code(v, consts=[supported(x, version) for x in v["consts"]])
    if isinstance(v, tuple) and v and v[0] == "slice":
        return v if version >= (3, 14) else v[1:]
    if isinstance(v, (tuple, list)):
        return type(v)(supported(x, version) for x in v)
    if isinstance(v, (set, frozenset)):
        return tuple(supported(x, version) for x in v) if version < (2, 5) else type(v)(supported(x, version) for x in v)
    if isinstance(v, dict):
        return {supported(k, version): supported(x, version) for k, x in v.items()}
    if v is True or v is False:
        return v if version >= (2, 3) else int(v)
    if isinstance(v, bytes) or v is ...:
        return v
    return v


def build(case):
    """(bytes, code as written, number of references)"""
    magic, version = case["release"]
    code = supported(case["code"], version)
    w = Writer(version, case["share"], case["seed"])
    out = struct.pack("<H", magic) + b"\r\n"
    if version >= (3, 7):
        if case["hash"]:
            h, check = case["hash"]
            out += struct.pack("<IQ", 1 | 2 * check, h)
        else:
            out += bytes(4)
    if version < (3, 7) or not case["hash"]:
        out += struct.pack("<I", case["time"])
        if version >= (3, 3):
            out += struct.pack("<I", case["size"])
    return out + w.body(code, None), code, w.told
