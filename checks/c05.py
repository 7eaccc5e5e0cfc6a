"""C05: conversions between integers, bytes and bit strings are exact and inverse."""
from bisect import bisect_left

from hypothesis import strategies as st

from vh.core import Suite, ensure, eq, fail, raises
from vh import repo  # noqa: F401
from hachoir.core import bits as B
from hachoir.core import tools as T
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN

suite = Suite("C05", rule="a case is a value/byte string with a byte order and width; non-trivial when the value "
              "needs more than one byte or is not byte-symmetric")

E = {"big": BIG_ENDIAN, "little": LITTLE_ENDIAN}
ENDS = st.sampled_from(["big", "little"])
INTS = st.integers(0, 300) | st.integers(0, 1 << 64) | st.integers(0, 1 << 200) | \
    st.integers(0, 130).map(lambda n: (1 << n)) | st.integers(1, 130).map(lambda n: (1 << n) - 1)


@suite.sub("str2long", st.tuples(st.binary(min_size=1, max_size=24), ENDS), quick=4000)
def str2long(case, rec):
    data, e = case
    v = B.str2long(data, E[e])
    eq(v, int.from_bytes(data, e), "str2long(%r, %s)" % (data, e))
    eq(bytes(B.long2raw(v, E[e], len(data))), data, "long2raw(str2long())")
    rec.nt(len(data) > 1 and data != data[::-1])


@suite.sub("middle", st.binary(min_size=1, max_size=12), quick=1500)
def middle(case, rec):
    data = case + case[:1] if len(case) % 2 else case
    sw = b"".join(data[i:i + 2][::-1] for i in range(0, len(data), 2))
    eq(bytes(B.strswapmid(data)), sw, "strswapmid(%r)" % data)
    eq(bytes(B.strswapmid(B.strswapmid(data))), data, "strswapmid twice")
    eq(bytes(B.arrswapmid(data)), sw, "arrswapmid(%r)" % data)
    eq(B.str2long(data, MIDDLE_ENDIAN), int.from_bytes(sw, "big"), "str2long(%r, middle)" % data)
    rec.nt(sw != data)


@suite.sub("long2raw", st.tuples(INTS, ENDS, st.none() | st.integers(1, 40)), quick=4000)
def long2raw(case, rec):
    v, e, size = case
    need = (v.bit_length() + 7) // 8
    if size is None and v == 0:
        return
    got = bytes(B.long2raw(v, E[e], size) if size else B.long2raw(v, E[e]))
    n = max(need, size or 1)
    eq(got, v.to_bytes(n, e), "long2raw(%d, %s, %r)" % (v, e, size))
    eq(B.str2long(got, E[e]), v, "str2long(long2raw())")
    rec.nt(need > 1)


@suite.sub("bins", st.tuples(INTS, st.integers(1, 140), ENDS, st.booleans()), quick=4000)
def bins(case, rec):
    v, size, e, classic = case
    v &= (1 << size) - 1
    s = format(v, "0%db" % size)            # most significant bit first
    lsb = s[::-1]
    # BIG: least significant first, as documented by the examples
    text = lsb if e == "big" else s
    groups = [text[i:i + 8] for i in range(0, size, 8)]
    if classic:
        groups = [g[::-1] for g in groups]
    eq(B.long2bin(size, v, E[e], classic), " ".join(groups), "long2bin(%d, %d, %s, %r)" % (size, v, e, classic))
    eq(B.bin2long(s, BIG_ENDIAN), v, "bin2long(%r, big)" % s)
    eq(B.bin2long(lsb, LITTLE_ENDIAN), v, "bin2long(%r, little)" % lsb)
    eq(B.bin2long(" ".join(s), BIG_ENDIAN), v, "bin2long with separators")
    for other in ("2%s", "%s9", "x%s\n", "\u0661%s"):
        eq(B.bin2long(other % s[:4] + s[4:], BIG_ENDIAN), v, "bin2long with other characters")
    # inverse (long2bin without classic mode keeps the order of the bits)
    eq(B.bin2long(B.long2bin(size, v, E[e]), LITTLE_ENDIAN if e == "big" else BIG_ENDIAN), v, "bin2long(long2bin())")
    rec.nt(size > 8 and s != lsb)


@suite.sub("counts", INTS, quick=3000)
def counts(v, rec):
    eq(B.countBits(v), max(1, v.bit_length()), "countBits(%d)" % v)
    rec.nt(v > 255)
    w = v & 0xffff
    eq(B.swap16(w), int.from_bytes(w.to_bytes(2, "big"), "little"), "swap16(%x)" % w)
    d = v & 0xffffffff
    eq(B.swap32(d), int.from_bytes(d.to_bytes(4, "big"), "little"), "swap32(%x)" % d)
    b = v & 0xff
    eq(B.byte2bin(b), format(b, "08b"), "byte2bin(%d)" % b)
    eq(B.byte2bin(b, False), format(b, "08b")[::-1], "byte2bin(%d, False)" % b)


@suite.sub("text", st.tuples(st.binary(max_size=12), st.sampled_from(["", " ", ":"]), st.sampled_from(["", "0x"]),
                             st.booleans()), quick=2000)
def text(case, rec):
    data, glue, prefix, classic = case
    hx = data.hex().upper()
    pairs = [hx[i:i + 2] for i in range(0, len(hx), 2)]
    eq(B.str2hex(data, glue=glue), glue.join(pairs), "str2hex(%r, glue=%r)" % (data, glue))
    if prefix:
        eq(B.str2hex(data, prefix=prefix), prefix + hx, "str2hex with a prefix")
    eq(B.str2hex(data, format=r"\x%02X"), "".join("\\x" + p for p in pairs), "str2hex with a format")
    s = data.decode("latin1")
    want = " ".join(format(c, "08b")[::1 if classic else -1] for c in data)
    eq(B.str2bin(s, classic), want, "str2bin(%r, %r)" % (s, classic))
    rec.nt(len(data) > 1)


@suite.sub("align", st.tuples(INTS, st.integers(1, 70) | st.integers(1, 1 << 20)), quick=3000)
def align(case, rec):
    v, a = case
    r = T.alignValue(v, a)
    ensure(r % a == 0 and v <= r < v + a, "alignValue(%d, %d) = %r", v, a, r)
    eq(T.paddingSize(v, a), r - v, "paddingSize(%d, %d)" % (v, a))
    rec.nt(v % a != 0)


@suite.sub("search", st.tuples(st.lists(st.integers(0, 60), max_size=20), st.integers(-2, 62)), quick=3000)
def search(case, rec):
    seq, x = case
    seq = sorted(seq)
    i = T.binarySearch(seq, lambda y: x - y)
    if x in seq:
        ensure(i is not None and seq[i] == x, "binarySearch(%r, %d) = %r", seq, x, i)
    else:
        ensure(i is None, "binarySearch(%r, %d) = %r", seq, x, i)
    rev = seq[::-1]
    i = T.binarySearch(rev, lambda y: y - x)
    ensure((i is None) == (x not in seq) and (i is None or rev[i] == x), "binarySearch backward = %r", i)
    eq(T.lowerBound(seq, lambda y: y < x), bisect_left(seq, x), "lowerBound(%r, %d)" % (seq, x))
    rec.nt(len(seq) > 2)


@suite.sub("createDict", st.tuples(st.dictionaries(st.integers(0, 30), st.tuples(st.integers(), st.text(max_size=3)),
                                                   max_size=6), st.integers(0, 1)), quick=300)
def createdict(case, rec):
    d, i = case
    eq(T.createDict(d, i), {k: v[i] for k, v in d.items()}, "createDict")
    rec.nt(len(d) > 1)
