"""Sample files of the repository (tests/files), copied in memory."""
import os

from hypothesis import strategies as st

from vh import repo  # noqa: F401
from vh.core import REPO
from hachoir.core.endian import BIG_ENDIAN
from hachoir.parser import guessParser
from hachoir.stream import StringInputStream

DIR = os.path.join(REPO, "tests", "files")
NAMES = sorted(n for n in os.listdir(DIR) if os.path.isfile(os.path.join(DIR, n)))
SIZES = {n: os.path.getsize(os.path.join(DIR, n)) for n in NAMES}
_cache = {}


def data(name):
    if name not in _cache:
        with open(os.path.join(DIR, name), "rb") as f:
            _cache[name] = f.read()
    return _cache[name]


def names(max_size=None):
    return [n for n in NAMES if 0 < SIZES[n] and (max_size is None or SIZES[n] <= max_size)]


def cases(max_size=None):
    return st.tuples(st.sampled_from(names(max_size)), st.integers(0, 1000))


def stream(name, content=None):
    s = StringInputStream(data(name) if content is None else content, source="file:" + name,
                          tags=[("filename", name)])
    return s


def open_file(name, content=None):
    return guessParser(stream(name, content))


_leaves = {}


def leaves(name, cap=1500):
    """(byte address, byte size, endian) of the fields of a sample file, top levels first."""
    if name not in _leaves:
        out = []
        p = open_file(name)
        todo = [p] if p is not None else []
        seen = 0
        while todo and seen < cap:
            fs = todo.pop(0)
            for f in fs:
                seen += 1
                if f.is_field_set:
                    todo.append(f)
                if 0 < f.size:
                    a = f.absolute_address // 8
                    n = (f.absolute_address + f.size + 7) // 8 - a
                    if not f.is_field_set or n <= 8:
                        out.append((a, n, fs.endian))
                if seen >= cap:
                    break
        _leaves[name] = out or [(0, 4, BIG_ENDIAN)]
    return _leaves[name]


SPECIAL = st.sampled_from([0, 1, 2, 3, 4, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff,
                           0x80000000, 0xffffffff, 0xfffffffe, (1 << 63) - 1, (1 << 64) - 1])
MUTATION = st.one_of(
    # overwrite one field, as a number in the byte order of its parent
    st.tuples(st.just("set"), st.integers(0, 1 << 20), SPECIAL | st.integers(0, 1 << 32)),
    st.tuples(st.just("set"), st.integers(0, 40), SPECIAL | st.integers(0, 300)),
    st.tuples(st.just("add"), st.integers(0, 1 << 20), st.sampled_from([-8, -4, -2, -1, 1, 2, 4, 8, 100, 1000])),
    st.tuples(st.just("add"), st.integers(0, 40), st.sampled_from([-8, -4, -2, -1, 1, 2, 4, 8, 100, 1000])),
    st.tuples(st.just("copy"), st.integers(0, 1 << 20), st.integers(0, 1 << 20)),
    st.tuples(st.just("bit"), st.integers(0, 1 << 20), st.integers(0, 7)),
    st.tuples(st.just("del"), st.integers(0, 1 << 20), st.integers(1, 16)),
    st.tuples(st.just("ins"), st.integers(0, 1 << 20), st.binary(min_size=1, max_size=8)),
    st.tuples(st.just("noise"), st.integers(0, 1 << 20), st.binary(min_size=1, max_size=16)),
)
TRUNC = st.none() | st.none() | st.integers(0, 1 << 20)


def mutate(name, muts, trunc):
    d = bytearray(data(name))
    lv = leaves(name)
    for m in muts:
        k = m[0]
        a, n, endian = lv[m[1] % len(lv)]
        if k in ("set", "add"):
            if n > 8:
                a += m[1] // len(lv) % n
                n = min(n, 4)
            n = max(0, min(n, len(d) - a))
            order = "big" if endian == BIG_ENDIAN else "little"
            cur = int.from_bytes(d[a:a + n], order)
            v = m[2] if k == "set" else cur + m[2]
            if k == "set" and v > 0xffff:
                v >>= 0 if n >= 4 else 8 * (4 - n)
            d[a:a + n] = (v & ((1 << 8 * n) - 1)).to_bytes(n, order)
        elif k == "copy":
            b, n2, _ = lv[m[2] % len(lv)]
            d[a:a + n] = d[b:b + min(n, n2)].ljust(n, b"\0")
        elif k == "bit":
            p = m[1] % len(d)
            d[p] ^= 1 << m[2]
        elif k == "del":
            del d[a:a + m[2]]
        elif k == "ins":
            d[a:a] = m[2]
        else:
            d[a:a + len(m[2])] = m[2]
        if not d:
            d = bytearray(b"x")
    if trunc is not None:
        if trunc % 3 == 0:      # at a field boundary
            a = lv[trunc % len(lv)][0]
        else:
            a = trunc % len(d)
        d = d[:max(1, a)]
    return bytes(d)


_class = {}


def parser_of(name):
    if name not in _class:
        p = open_file(name)
        _class[name] = None if p is None else type(p)
    return _class[name]
