"""Binary property lists: values, and the bytes of a list with any layout."""
import datetime
import plistlib
import random
import struct

from hypothesis import strategies as st

EPOCH = datetime.datetime(2001, 1, 1)
WORD = st.text(st.sampled_from("ab <>&\"'\t\n\u00e9\u20ac\U0001f600]]"), max_size=8) | st.text(st.sampled_from("xyz"), min_size=13, max_size=40)
# (dates far in the future are taken for another epoch by the reader)
DATE = st.tuples(st.integers(-1000000000, 820000000), st.sampled_from([0, 0, 0, 0.5, 0.25])).map(lambda t: EPOCH + datetime.timedelta(seconds=t[0] + t[1]))
INTS = st.one_of(st.integers(0, 300), st.integers(-1000, 1 << 33), st.integers(-(1 << 63), (1 << 64) - 1))
SCALAR = st.one_of(
    st.booleans(), INTS, st.floats(allow_nan=False, width=32).map(lambda x: x + 0.0), st.floats(allow_nan=False).map(lambda x: x + 0.0), WORD, WORD, st.binary(max_size=20), st.binary(min_size=14, max_size=300), DATE,
    st.integers(0, 1 << 32).map(lambda n: plistlib.UID(n)))
VALUES = st.recursive(SCALAR, lambda c: st.lists(c, max_size=5) | st.dictionaries(WORD, c, max_size=5) | st.lists(c, min_size=14, max_size=18), max_leaves=30)
LAYOUT = st.fixed_dictionaries({"share": st.booleans(), "wide": st.integers(0, 3), "ref": st.integers(0, 2), "shuffle": st.none() | st.integers(0, 99),
                                "gaps": st.lists(st.integers(0, 3), min_size=1, max_size=4), "top": st.booleans(), "small_ints": st.booleans()})


def count(n):
    """Low nibble, then what follows the marker"""
    if n < 15:
        return n, b""
    k = 0 if n < 256 else 1 if n < 65536 else 2
    return 15, bytes([0x10 | k]) + n.to_bytes(1 << k, "big")


def scalar(v, wide):
    if v is True or v is False:
        return bytes([9 if v else 8])
    if isinstance(v, int):
        if v < 0:
            return b"\x13" + struct.pack(">q", v)
        if v >= 1 << 63:
            return b"\x14" + v.to_bytes(16, "big")
        k = 0
        while v >= 1 << (8 << k) or k < wide:
            k += 1
        return bytes([0x10 | k]) + v.to_bytes(1 << k, "big")
    if isinstance(v, float):
        if abs(v) < 3e38 and struct.unpack(">f", struct.pack(">f", v))[0] == v and wide < 2:
            return b"\x22" + struct.pack(">f", v)
        return b"\x23" + struct.pack(">d", v)
    if isinstance(v, datetime.datetime):
        return b"\x33" + struct.pack(">d", (v - EPOCH).total_seconds())
    if isinstance(v, plistlib.UID):
        n = max(1, (v.data.bit_length() + 7) // 8)
        return bytes([0x80 | n - 1]) + v.data.to_bytes(n, "big")
    if isinstance(v, bytes):
        n, more = count(len(v))
        return bytes([0x40 | n]) + more + v
    if all(ord(c) < 128 for c in v):
        n, more = count(len(v))
        return bytes([0x50 | n]) + more + v.encode()
    raw = v.encode("utf-16-be")
    n, more = count(len(raw) // 2)
    return bytes([0x60 | n]) + more + raw


def encode(value, lay):
    """(bytes of the file, number of objects)"""
    objs = []           # function giving the bytes once the references are known
    seen = {}

    def add(v):
        if lay["share"] and not isinstance(v, (list, dict)):
            key = (type(v), repr(v) if isinstance(v, (float, plistlib.UID)) else v)
            if key in seen:
                return seen[key]
            seen[key] = len(objs)
        i = len(objs)
        objs.append(None)
        if isinstance(v, list):
            refs = [add(x) for x in v]
            objs[i] = (0xa0, len(v), refs)
        elif isinstance(v, dict):
            refs = [add(k) for k in v]
            refs += [add(x) for x in v.values()]
            objs[i] = (0xd0, len(v), refs)
        else:
            objs[i] = scalar(v, lay["wide"])
        return i
    add(value)
    number = list(range(len(objs)))
    if lay["shuffle"] is not None:
        random.Random(lay["shuffle"]).shuffle(number)      # object i is number[i] in the table
    refsize = 1 if len(objs) < 256 else 2
    refsize = max(refsize, (1, 2, 4)[lay["ref"]])
    blobs = [b""] * len(objs)
    for i, o in enumerate(objs):
        if isinstance(o, tuple):
            kind, n, refs = o
            low, more = count(n)
            o = bytes([kind | low]) + more + b"".join(number[r].to_bytes(refsize, "big") for r in refs)
        blobs[number[i]] = o
    out = b"bplist00"
    offsets = []
    for k, b in enumerate(blobs):
        out += bytes([0xf] * lay["gaps"][k % len(lay["gaps"])])
        offsets.append(len(out))
        out += b
    table = len(out)
    size = 1
    while table >> 8 * size:
        size += 1
    size = max(size, (1, 2, 4, 8)[lay["wide"]])
    out += b"".join(o.to_bytes(size, "big") for o in offsets)
    return out + struct.pack(">6xBBQQQ", size, refsize, len(objs), number[0], table), len(objs)
