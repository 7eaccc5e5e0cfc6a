"""ASN.1 objects and their encoding."""
import datetime

from hypothesis import strategies as st

ASCII = st.text(st.sampled_from("abc XYZ019.'-"), min_size=1, max_size=10)
UNI = st.text(st.sampled_from("ab \u00e9\u20ac\u4e2d"), min_size=1, max_size=8)
ARC = st.integers(0, 50) | st.integers(0, 1 << 20) | st.integers(0, (1 << 49) - 1)
OID = st.one_of(st.tuples(st.integers(0, 1), st.integers(0, 39), st.lists(ARC, max_size=5)), st.tuples(st.just(2), st.integers(0, 60) | st.integers(0, 100000), st.lists(ARC, max_size=5)))
TEXTS = {"numeric": 18, "printable": 19, "ia5": 22, "visible": 26, "general": 27}
LEAF = st.one_of(
    st.tuples(st.just("boolean"), st.booleans()), st.tuples(st.just("integer"), st.integers(-200, 70000) | st.integers(-(1 << 520), 1 << 520)),
    st.tuples(st.just("enum"), st.integers(-2, 300)), st.tuples(st.just("bits"), st.binary(max_size=20), st.integers(0, 7)), st.tuples(st.just("octets"), st.binary(max_size=30)),
    st.tuples(st.just("octets"), st.integers(120, 300).map(lambda n: bytes(range(256)) * 2)), st.tuples(st.just("null")), st.tuples(st.just("oid"), OID), st.tuples(st.just("utf8"), UNI),
    st.tuples(st.just("bmp"), UNI), st.tuples(st.sampled_from(sorted(TEXTS)), ASCII), st.tuples(st.just("utc"), st.datetimes(datetime.datetime(1950, 1, 1), datetime.datetime(2049, 12, 31))),
    st.tuples(st.just("time"), st.datetimes(datetime.datetime(1900, 1, 1), datetime.datetime(2100, 1, 1))), st.tuples(st.just("raw"), st.integers(1, 3), st.integers(0, 30), st.binary(max_size=10)))
NODES = st.recursive(LEAF, lambda c: st.one_of(st.tuples(st.just("seq"), st.lists(c, max_size=4)), st.tuples(st.just("set"), st.lists(c, max_size=3)),
                                               st.tuples(st.just("tagged"), st.integers(1, 3), st.integers(0, 30), st.lists(c, max_size=3))), max_leaves=14)
CASES = st.tuples(NODES, st.lists(st.integers(0, 3), min_size=1, max_size=5))


def base128(n):
    out = [n & 127]
    while n > 127:
        n >>= 7
        out.append(n & 127 | 128)
    return bytes(reversed(out))


def arcs(oid):
    a, b, more = oid
    return [a * 40 + b] + list(more)


def content(n, lens):
    k = n[0]
    if k == "boolean":
        return bytes([255 * n[1]])
    if k in ("integer", "enum"):
        return n[1].to_bytes((n[1] + (n[1] < 0)).bit_length() // 8 + 1, "big", signed=True)
    if k == "bits":
        pad = n[2] if n[1] else 0
        return bytes([pad]) + n[1]
    if k == "octets":
        return n[1]
    if k == "null":
        return b""
    if k == "oid":
        return b"".join(map(base128, arcs(n[1])))
    if k == "utf8":
        return n[1].encode()
    if k == "bmp":
        return n[1].encode("utf-16-be")
    if k in TEXTS:
        return n[1].encode()
    if k in ("utc", "time"):
        return when(n).encode()
    if k == "raw":
        return n[3]
    return b"".join(encode(x, lens) for x in n[-1])


def when(n):
    return ("%02d" % (n[1].year % 100) if n[0] == "utc" else "%04d" % n[1].year) + n[1].strftime("%m%d%H%M%SZ")


TAGS = {"boolean": 1, "integer": 2, "bits": 3, "octets": 4, "null": 5, "oid": 6, "enum": 10, "utf8": 12, "seq": 16, "set": 17, "utc": 23, "time": 24, "bmp": 30, **TEXTS}


def tag(n):
    """class, constructed, tag"""
    if n[0] in ("raw", "tagged"):
        return n[1], n[0] == "tagged", n[2]
    return 0, n[0] in ("seq", "set"), TAGS[n[0]]


def encode(n, lens):
    """lens: bytes added to the lengths, in turn"""
    c, form, t = tag(n)
    extra = lens[0]
    lens.append(lens.pop(0))
    body = content(n, lens)
    size = len(body)
    if size < 128 and not extra:
        length = bytes([size])
    else:
        k = (size.bit_length() + 7) // 8 or 1
        k += max(0, extra - 1)
        length = bytes([128 | k]) + size.to_bytes(k, "big")
    return bytes([c << 6 | form << 5 | t]) + length + body
