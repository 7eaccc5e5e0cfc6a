"""C02: byte search finds exactly the first occurrence, whatever the stream."""
from hypothesis import strategies as st

from vh.core import Suite, ensure, eq, fail, raises
from vh import streams as S
from hachoir.stream import InputStreamError

suite = Suite("C02", rule="a case is a stream, earlier reads and a search; non-trivial when the needle occurs "
              "or overlaps the window limits (present before start, straddling the end, crossing a "
              "4096-byte block)")

NEEDLE = st.binary(min_size=1, max_size=6) | st.sampled_from([b"\0", b"ab", b"aba", b"aab", b"\xff\xd9"])


def check_search(b, needle, start, end, rec, include, odd=0):
    data = b.bytes()
    hi = len(data) if end is None else min(end, len(data))
    pos = data.find(needle, start, hi) if start <= hi else -1
    want = None if pos < 0 else pos * 8
    # an end inside a byte: this byte isn't in the range
    args = (needle, start * 8) + (() if end is None else (end * 8 + odd,))
    got = b.stream.searchBytes(*args)
    eq(got, want, "searchBytes(%r, %d, %r) of %d bytes" % (needle, start * 8, end and end * 8, len(data)))
    rec.nt(want is not None or data.find(needle, max(0, start - len(needle))) >= 0)
    rec.label("found", want is not None)
    rec.label("found across 4096", pos >= 0 and (pos - start) // 4096 != (pos - start + len(needle) - 1) // 4096)
    wantlen = None if pos < 0 else pos - start + (len(needle) if include else 0)
    got = b.stream.searchBytesLength(needle, include, *args[1:])
    eq(got, wantlen, "searchBytesLength(%r, %r)" % (needle, include))


ALPHA = st.lists(st.sampled_from([0, 97, 98, 255, 217]), min_size=1, max_size=60).map(bytes)


@suite.sub("small", st.tuples(S.aligned_specs(ALPHA), NEEDLE, st.integers(0, 70),
                              st.none() | st.integers(0, 90), st.booleans(), st.booleans(),
                              st.sampled_from([0, 0, 1, 4, 7])),
           quick=12000, thorough=200000)
def small(case, rec):
    spec, needle, start, end, include, warm, odd = case
    b = S.build(spec)
    try:
        n = b.nbits // 8
        start %= n
        if warm:
            b.stream.readBytes(0, 1)
        check_search(b, needle, start, end, rec, include, odd)
        check_search(b, needle, start, end, rec, include, odd)
    finally:
        b.close()


def block_data(draw_filler, places, needle, total):
    d = bytearray((draw_filler * (total // len(draw_filler) + 1))[:total])
    for p in places:
        d[p:p + len(needle)] = needle
    return bytes(d[:total])


@suite.sub("blocks", st.tuples(
    st.sampled_from(["str", "io", "file", "pipe", "espipe", "sub", "frag", "concat"]),
    st.sampled_from([b"\0", b"ab", b"NEEDL", b"aN"]),       # filler
    st.binary(min_size=1, max_size=8) | st.sampled_from([b"NEEDLE", b"a" * 9, b"NN", b"baba", b"ab" * 700, b"NE" * 2100]),
    st.lists(st.tuples(st.integers(0, 5), st.integers(-12, 12)), max_size=3),
    st.sampled_from([4096, 8192, 9000, 12288, 66000, 140000]), st.integers(-8, 8),
    st.integers(0, 40), st.none() | st.tuples(st.integers(0, 4), st.integers(-12, 12)), st.booleans()),
    quick=2400, thorough=30000)
def blocks(case, rec):
    kind, filler, needle, places, total, dtot, start, end, include = case
    block = max(3 * len(needle), 4096)
    total += dtot
    data = block_data(filler, [max(0, start + k * block + d) for k, d in places], needle, total)
    spec = {"str": ("str", data), "io": ("io", data), "file": ("file", data, 0, None),
            "pipe": ("pipe", data, False), "espipe": ("espipe", data),
            "sub": ("asub", ("str", b"NEEDLE" + data + needle * 2), 6, len(data) - 1),
            "frag": ("frag", ("str", data), [4090, 4100, 8191], [0, 1, 2, 3]),
            "concat": ("concat", ("str", data[:4093]), ("io", data[4093:] or b"x"))}[kind]
    b = S.build(spec)
    rec.label("kind:" + kind)
    try:
        e = None
        if end is not None:
            e = max(start, start + end[0] * block + end[1])
        check_search(b, needle, start, e, rec, include)
    finally:
        b.close()


@suite.sub("unaligned", st.tuples(ALPHA, NEEDLE, st.integers(0, 300)), quick=300)
def unaligned(case, rec):
    data, needle, start = case
    if start % 8 == 0:
        start += 1
    b = S.build(("str", data))
    rec.nt()
    raises(InputStreamError, lambda: b.stream.searchBytes(needle, start), "search from bit %d" % start)
