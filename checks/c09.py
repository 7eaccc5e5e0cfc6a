"""C09: primitive fields decode the bits at their address; displays denote the value."""
import math
import struct
from datetime import datetime, timedelta
from fractions import Fraction

from hypothesis import strategies as st

from checks.c07 import escape, smart
from vh.core import Suite, ensure, eq, fail
from vh import repo  # noqa: F401
from vh.streams import Built
from hachoir.core import config
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN
from hachoir.core.text_handler import displayHandler, filesizeHandler, hexadecimal, textHandler
from hachoir.core.tools import humanDatetime, humanDuration, humanFilesize
import hachoir.field as F
from hachoir.stream import StringInputStream

suite = Suite("C09", rule="a case is a byte order, random content and a list of fields laid out one after the other; "
              "non-trivial when a field starts inside a byte, is signed and negative, or has a decoded (non-integer) value")

ENDIAN = {">": BIG_ENDIAN, "<": LITTLE_ENDIAN, "m": MIDDLE_ENDIAN}
INTS = [c + n for c in ("UInt", "Int") for n in ("8", "16", "24", "32", "64")]
ANYBIT = st.one_of(
    st.tuples(st.just("Bit")), st.tuples(st.just("Bits"), st.integers(1, 40) | st.integers(250, 262)),
    st.tuples(st.just("RawBits"), st.integers(1, 30) | st.integers(250, 262)),
    st.tuples(st.just("PaddingBits"), st.integers(1, 20) | st.integers(120, 136), st.sampled_from([None, 0, 1])),
    st.tuples(st.just("NullBits"), st.integers(1, 20) | st.integers(120, 136)),
    st.tuples(st.just("int"), st.sampled_from(INTS)),
    st.tuples(st.just("GenericInteger"), st.booleans(), st.integers(8, 80)),
    st.tuples(st.just("Character")),
    st.tuples(st.just("enum"), st.sampled_from(["UInt8", "Int8"]),
              st.dictionaries(st.integers(-3, 12), st.sampled_from(["one", "two", 3, None]), max_size=8), st.booleans()),
    st.tuples(st.just("hex"), st.integers(8, 70)), st.tuples(st.just("size"), st.sampled_from(INTS[:5])),
    st.tuples(st.just("shown"), st.sampled_from(INTS)),
)
TIMES = ["TimestampUnix32", "TimestampUnix64", "TimestampMac32", "TimestampUUID60", "TimestampWin64",
         "TimedeltaWin64", "TimedeltaMillisWin64"]
BYTES = st.one_of(
    st.tuples(st.sampled_from(["RawBytes", "Bytes", "SubFile"]), st.integers(1, 30)),
    st.tuples(st.just("PaddingBytes"), st.integers(1, 12), st.sampled_from([None, b"\0", b"ab", b"\xff", b"a\""])),
    st.tuples(st.just("NullBytes"), st.integers(1, 20)),
    st.tuples(st.just("float"), st.sampled_from(["Float32", "Float64", "Float80"])),
    st.tuples(st.just("time"), st.sampled_from(TIMES)),
    st.tuples(st.just("msdos"), st.sampled_from(["TimeDateMSDOS32", "DateTimeMSDOS32"])),
    st.tuples(st.just("vector"), st.sampled_from(INTS + ["Bit", "Float32"]), st.integers(1, 5), st.booleans()),
)


def field_bits(spec):
    k = spec[0]
    if k in ("Bits", "RawBits", "PaddingBits", "NullBits", "hex"):
        return spec[1]
    if k in ("RawBytes", "Bytes", "SubFile", "PaddingBytes", "NullBytes"):
        return spec[1] * 8
    if k == "GenericInteger":
        return spec[2]
    if k == "Bit":
        return 1
    if k == "Character":
        return 8
    if k in ("int", "enum", "size", "shown"):
        return int(spec[1].strip("UInt"))
    if k == "float":
        return int(spec[1][5:])
    if k == "time":
        return {"TimestampUUID60": 60, "TimestampUnix32": 32, "TimestampMac32": 32}.get(spec[1], 64)
    if k == "msdos":
        return 32
    if k == "vector":
        one = 1 if spec[1] == "Bit" else int(spec[1].strip("UIntFloa"))
        return one * spec[2]
    raise AssertionError(k)


def make(parent, name, spec):
    k = spec[0]
    if k in ("Bits", "RawBits", "NullBits", "RawBytes", "Bytes", "SubFile", "NullBytes"):
        return getattr(F, k)(parent, name, spec[1])
    if k in ("PaddingBits", "PaddingBytes"):
        return getattr(F, k)(parent, name, spec[1], pattern=spec[2])
    if k == "Bit":
        return F.Bit(parent, name)
    if k == "Character":
        return F.Character(parent, name)
    if k in ("int", "float", "time", "msdos"):
        return getattr(F, spec[1])(parent, name)
    if k == "GenericInteger":
        return F.GenericInteger(parent, name, spec[1], spec[2])
    if k == "enum":
        return F.Enum(getattr(F, spec[1])(parent, name), spec[2], (lambda v: v // 2) if spec[3] else None)
    if k == "hex":
        return textHandler(F.GenericInteger(parent, name, False, spec[1]), hexadecimal)
    if k == "size":
        return filesizeHandler(getattr(F, spec[1])(parent, name))
    if k == "shown":
        return displayHandler(getattr(F, spec[1])(parent, name), lambda v: "<%r>" % v)
    if k == "vector":
        cls = getattr(F, spec[1])
        if spec[3]:
            class V(F.UserVector):
                item_class = cls
                item_name = "elt"
            return V(parent, name, spec[2])
        return F.GenericVector(parent, name, spec[2], cls, "elt")
    raise AssertionError(k)


def build(endian, data, specs, margin=0):
    class P(F.Parser):
        def createFields(self):
            pos = 0
            for i, spec in enumerate(specs):
                if spec[0] in BYTEWISE and pos % 8:
                    gap = 8 - pos % 8
                    yield F.RawBits(self, "gap[]", gap)
                    pos += gap
                yield make(self, "f%d" % i, spec)
                pos += field_bits(spec)
    P.endian = ENDIAN[endian]
    return P(StringInputStream(data))


BYTEWISE = ("RawBytes", "Bytes", "SubFile", "PaddingBytes", "NullBytes", "float", "time", "msdos", "vector")


def raw_display(data, human):
    text = smart(escape(data[:config.max_byte_length].decode("latin1"), "ASCII"))
    if len(data) > config.max_byte_length:
        text += "(...)"
    if human:
        return smart('"%s"' % text.replace('"', '\\"'))
    return '"%s"' % text


def to_signed(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def close_float(got, want, what):
    """want is a Fraction (exact value)."""
    ensure(isinstance(got, float), "%s = %r", what, got)
    if want == 0:
        eq(got, 0.0, what)
        return
    ensure(not math.isinf(got) and not math.isnan(got), "%s = %r", what, got)
    err = abs(Fraction(got) - want)
    ensure(err <= abs(want) / (1 << 50) + Fraction(1, 1 << 1080), "%s = %r, want about %s", what, got, want)


def check_float(f, spec, raw, endian, rec, what):
    n = field_bits(spec)
    order = "big" if endian == ">" else "little"
    v = int.from_bytes(raw, order)
    if n == 80:
        neg, exp, one, man = v >> 79, (v >> 64) & 0x7fff, (v >> 63) & 1, v & ((1 << 63) - 1)
        manbits, bias = 63, 16383
        eq(f["one"].value, bool(one), what + "/one")
    else:
        manbits, expbits = (23, 8) if n == 32 else (52, 11)
        neg, exp, man = v >> (n - 1), (v >> manbits) & ((1 << expbits) - 1), v & ((1 << manbits) - 1)
        bias = (1 << (expbits - 1)) - 1
    eq(f["negative"].value, bool(neg), what + "/negative")
    eq(f["exponent"].value, exp - bias, what + "/exponent")
    eq(f["exponent"].raw_display, str(exp), what + "/exponent raw display")
    close_float(f["mantissa"].value, 1 + Fraction(man, 1 << manbits), what + "/mantissa")
    eq(f["mantissa"].raw_display, str(man), what + "/mantissa raw display")
    if n == 80:
        if -1000 < exp - bias < 1000:
            want = (1 + Fraction(man, 1 << manbits)) * (Fraction(2) ** (exp - bias)) * (-1 if neg else 1)
            close_float(f.value, want, what)
            rec.nt()
        elif exp - bias > 1030:
            ensure(f.value is None, "%s overflows but is %r", what, f.value)
        return
    want = struct.unpack((">" if endian == ">" else "<") + ("f" if n == 32 else "d"), raw)[0]
    ensure(struct.pack("d", want) == struct.pack("d", f.value) or (want != want and f.value != f.value),
           "%s = %r, want %r", what, f.value, want)
    rec.nt()


def check_time(f, cls, v, rec, what):
    us = None
    if cls.startswith("TimestampUnix"):
        want = datetime(1970, 1, 1) + timedelta(0, v) if v <= 2147483647 else None
        tol = 0
    elif cls == "TimestampMac32":
        want, tol = datetime(1904, 1, 1) + timedelta(0, v), 0
    elif cls == "TimedeltaMillisWin64":
        try:
            want, tol = timedelta(milliseconds=v), 0
        except OverflowError:
            want = None
    else:
        us = v // 10
        tol = 2 + us // (1 << 52)
        if cls == "TimedeltaWin64":
            want = timedelta(microseconds=us)
        else:
            base = datetime(1601, 1, 1) if cls == "TimestampWin64" else datetime(1582, 10, 15)
            try:
                want = base + timedelta(microseconds=us)
            except OverflowError:
                want = None
            if want is None or datetime.max - want < timedelta(milliseconds=1):
                if want is not None:
                    return
    got = f.value
    if want is None:
        ensure(got is None, "%s: %r out of range gives %r", what, v, got)
        return
    ensure(type(got) is type(want) and abs(got - want) <= timedelta(microseconds=tol), "%s = %r, want %r", what, got, want)
    eq(f.display, humanDatetime(got) if isinstance(got, datetime) else humanDuration(got), what + " display")
    eq(f.raw_display, str(v), what + " raw display")
    rec.nt()


def check_msdos(f, cls, raw, rec, what):
    lo, hi = struct.unpack("<HH", raw)
    time, date = (lo, hi) if cls == "TimeDateMSDOS32" else (hi, lo)
    sec, minute, hour = time & 31, time >> 5 & 63, time >> 11
    day, month, year = date & 31, date >> 5 & 15, date >> 9
    for n, v in (("second", sec), ("minute", minute), ("hour", hour), ("day", day), ("month", month), ("year", year)):
        eq(f[n].value, v, "%s/%s" % (what, n))
    try:
        want = datetime(1980 + year, month or 1, day or 1, hour, minute, sec * 2)
    except ValueError:
        want = None
    eq(f.value, want, what)
    if want:
        eq(f.display, humanDatetime(want), what + " display")
        rec.nt()


def check_field(f, spec, b, addr, endian, rec):
    k, n = spec[0], field_bits(spec)
    what = "%r at bit %d" % (spec, addr)
    eq(f.size, n, what + " size")
    eq((f.address, f.absolute_address), (addr, addr), what + " address")
    if endian == "m":
        if not (k in ("int", "GenericInteger") and b.middle_ok(addr, n)):
            return
        v = b.middle(addr, n)
    else:
        v = b.bits(addr, n, endian)
    raw = b.data[addr // 8:(addr + n) // 8] if addr % 8 == 0 else None
    rec.label(k)
    # hasValue() may be asked before or after the value
    if addr % 3 == 0:
        has = f.hasValue()
        eq(has, f.value is not None, what + " hasValue()")
    else:
        has = f.value is not None
        eq(f.hasValue(), has, what + " hasValue()")
    if addr % 8:
        rec.nt()
    if k in ("Bits", "RawBits", "PaddingBits", "NullBits"):
        eq(f.value, v, what)
        pattern = {"PaddingBits": spec[-1], "NullBits": 0}.get(k)
        # only the first 128 bits are compared with the pattern
        if k in ("PaddingBits", "NullBits") and pattern == 0 and b.bits(addr, min(n, 128), endian) == 0:
            want = "<null>" if k == "NullBits" else "<padding pattern=0>"
        else:
            want = str(v) if n < config.max_bit_length else "<%s size=%u>" % (k, n)
        eq(f.display, want, what + " display")
        eq(str(f), want, what + " str()")
        eq(f.raw_display, str(v) if n < config.max_bit_length else "<%s size=%u>" % (k, n), what + " raw display")
    elif k == "Bit":
        eq((f.value, f.display, f.raw_display), (v == 1, str(v == 1), str(v)), what)
        ensure(isinstance(f.value, bool), "%s: %r", what, f.value)
    elif k in ("int", "GenericInteger", "enum", "hex", "size", "shown"):
        signed = (k == "GenericInteger" and spec[1]) or (k in ("int", "enum", "size", "shown") and spec[1].startswith("Int"))
        if signed:
            v = to_signed(v, n)
            rec.nt(v < 0)
        eq(f.value, v, what)
        want = str(v)
        if k == "enum":
            key = v // 2 if spec[3] else v
            want = spec[2][key] if key in spec[2] else want
            eq(f.getEnum(), spec[2], what + " getEnum()")
        elif k == "hex":
            want = "0x" + format(v, "0%dx" % ((n + 3) // 4))
        elif k == "size":
            want = humanFilesize(v)
        elif k == "shown":
            want = "<%r>" % v
        eq(f.display, want, what + " display")
        eq(f.raw_display, str(v), what + " raw display")
    elif k == "Character":
        eq((f.value, f.raw_display), (chr(v), str(v)), what)
        eq(f.display, smart("'%s'" % escape(chr(v), "ASCII").replace("'", "\\'")), what + " display")
    elif k in ("RawBytes", "Bytes", "SubFile", "PaddingBytes", "NullBytes"):
        # the display may be asked before or after the value
        first = addr % 16 == 0
        if first:
            eq(f.value, raw, what)
        want = None
        pattern = {"PaddingBytes": spec[-1], "NullBytes": b"\0"}.get(k)
        if k in ("PaddingBytes", "NullBytes") and pattern is not None:
            if len(raw) % len(pattern) == 0 or raw[:len(pattern)] != pattern[:len(raw)]:
                if raw == pattern * (len(raw) // len(pattern)):
                    want = "<null>" if k == "NullBytes" else "<padding pattern='%s'>" % escape(
                        pattern.decode("latin1"), "ASCII") if pattern != b"\0" else "<padding pattern='\\0'>"
                    rec.label("padding pattern")
            else:
                return
        eq(f.display, want or raw_display(raw, True), what + " display")
        eq(f.raw_display, raw_display(raw, k == "PaddingBytes" or k == "NullBytes"), what + " raw display")
        eq(f.value, raw, what)
        rec.label("truncated display", len(raw) > config.max_byte_length)
    elif k == "float":
        check_float(f, spec, raw, endian, rec, what)
    elif k == "time":
        check_time(f, spec[1], v, rec, what)
    elif k == "msdos":
        if endian == "<":
            check_msdos(f, spec[1], raw, rec, what)
    elif k == "vector":
        one = n // spec[2]
        eq(len(f), spec[2], what + " len()")
        for i in range(spec[2]):
            item = f["elt[%d]" % i]
            eq(item.absolute_address, addr + i * one, what + " address of an item")
            sub = ("Bit",) if spec[1] == "Bit" else (("float" if "Float" in spec[1] else "int"), spec[1])
            w = b.bits(addr + i * one, one, endian)
            if sub[0] == "Bit":
                eq(item.value, w == 1, what + " item")
            elif sub[0] == "int":
                eq(item.value, to_signed(w, one) if spec[1][0] == "I" else w, what + " item %d" % i)
            else:
                p = addr // 8 + i * 4
                check_float(item, sub, b.data[p:p + 4], endian, rec, what + " item %d" % i)
        rec.nt()


def run(case, rec):
    endian, specs, seed, extra = case
    if endian == "m":
        specs = [s for s in specs if s[0] not in BYTEWISE] or [("int", "UInt16")]
    pos = 0
    addrs = []
    for spec in specs:
        if spec[0] in BYTEWISE and pos % 8:
            pos += 8 - pos % 8
        addrs.append(pos)
        pos += field_bits(spec)
    total = (pos + 15) // 16 * 2 + extra * 2
    data = (seed * (total // len(seed) + 1))[:total]
    b = Built(None, data, 0, total * 8, 0, False, [], "str")
    p = build(endian, data, specs)
    for i, (spec, addr) in enumerate(zip(specs, addrs)):
        check_field(p["f%d" % i], spec, b, addr, endian, rec)


CONTENT = st.one_of(st.binary(min_size=1, max_size=40), st.binary(min_size=1, max_size=40),
                    st.lists(st.sampled_from([0, 0, 0, 255, 1, 97, 98, 128, 34, 92]), min_size=1, max_size=24).map(bytes))


@suite.sub("fields", st.tuples(st.sampled_from("><><m"), st.lists(ANYBIT | BYTES, min_size=1, max_size=7), CONTENT,
                               st.integers(0, 2)), quick=12000, thorough=250000)
def fields(case, rec):
    run(case, rec)


@suite.sub("times", st.tuples(st.sampled_from("<>"), st.sampled_from(TIMES),
                              st.integers(0, 1 << 58) | st.integers(0, 1 << 40) | st.integers(0, (1 << 64) - 1) |
                              st.sampled_from([0, 1, 2147483647, 2147483648])), quick=2500)
def times(case, rec):
    endian, cls, v = case
    bits = 32 if cls.endswith("32") else 64
    v &= (1 << (60 if cls.endswith("60") else bits)) - 1
    raw = v.to_bytes(bits // 8, "little") if endian == "<" else \
        (v << 4 if cls.endswith("60") else v).to_bytes(bits // 8, "big")
    run((endian, [("time", cls)], raw, 0), rec)


@suite.sub("floats", st.tuples(st.sampled_from("<>"), st.floats(allow_nan=False, allow_infinity=False, width=64),
                               st.integers(0, 2047), st.booleans()), quick=2500)
def floats(case, rec):
    """80-bit floats written by an independent encoder."""
    endian, x, low, raw = case
    if x == 0 or abs(x) < 2.3e-308:
        return
    m, e = math.frexp(x)                    # 0.5 <= |m| < 1
    man = int(abs(m) * (1 << 53)) << 11 | low
    v = (x < 0) << 79 | (e - 1 + 16383) << 64 | man
    data = v.to_bytes(10, "big" if endian == ">" else "little")
    p = build(endian, data + b"\0\0", [("float", "Float80")])
    want = Fraction(man, 1 << 63) * Fraction(2) ** (e - 1) * (-1 if x < 0 else 1)
    if abs(want) < Fraction(1.79e308):
        close_float(p["f0"].value, want, "Float80 of %r" % x)
    rec.nt()


STATIC = st.lists(st.one_of(st.tuples(st.just("Bits"), st.integers(1, 20)), st.tuples(st.just("int"), st.sampled_from(INTS)),
                            st.tuples(st.just("Bit")), st.tuples(st.just("Bytes"), st.integers(1, 5)),
                            st.tuples(st.just("String"), st.integers(1, 5)), st.tuples(st.just("NullBytes"), st.integers(1, 4)),
                            st.tuples(st.just("PaddingBits"), st.integers(1, 9)),
                            st.tuples(st.just("float"), st.just("Float32"))), min_size=1, max_size=6)


@suite.sub("static", st.tuples(st.sampled_from("<>"), STATIC, STATIC, st.integers(1, 3)), quick=2500)
def static(case, rec):
    """A static field set has the size of its format, before any field is read."""
    endian, fa, fb, count = case
    fa, fb = list(fa), list(fb)

    def fmt(specs, prefix):
        out = []
        for i, s in enumerate(specs):
            cls = getattr(F, s[1] if s[0] in ("int", "float") else s[0])
            args = () if s[0] in ("int", "float", "Bit") else (s[1],)
            item = (cls, "%s%d" % (prefix, i)) + args
            if i % 3 == 2:
                item += ({"description": "d%d" % i},)
            out.append(item)
        return tuple(out)

    def bits(specs):
        return sum(s[1] * 8 if s[0] == "String" else field_bits(s) for s in specs)

    # byte fields have to be byte-aligned
    aligned = bits(fa) % 8 == 0 and bits(fb) % 8 == 0
    for specs in (fa, fb):
        pos = 0
        for i, s in enumerate(specs):
            n = bits([s])
            if s[0] in ("Bytes", "String", "NullBytes", "float") and (pos % 8 or not aligned):
                specs[i] = ("Bits", n)
            pos += n

    class A(F.StaticFieldSet):
        format = fmt(fa, "a")

    class B(F.StaticFieldSet):
        format = fmt(fb, "b") + ((A, "inner"),)

    na, nb = bits(fa), bits(fb) + bits(fa)

    class P(F.Parser):
        def createFields(self):
            yield A(self, "first")
            for i in range(count):
                yield B(self, "b[]")
    P.endian = ENDIAN[endian]
    total = na + nb * count
    p = P(StringInputStream(bytes(i & 0xff for i in range((total + 7) // 8 + 1))))
    first = p["first"]
    eq(first.size, na, "size of the static field set")
    eq(A.static_size, na, "A.static_size")
    eq(p["b[0]"].size, nb, "size of the nested static field set")
    eq(B.static_size, nb, "B.static_size")
    for i in range(count):
        f = p["b[%d]" % i]
        eq((f.address, f.size), (na + i * nb, nb), "b[%d]" % i)
        names = [x.name for x in f]
        eq(names, ["b%d" % j for j in range(len(fb))] + ["inner"], "fields of b[%d]" % i)
        eq(sum(x.size for x in f), nb, "total size of the fields")
        for j, x in enumerate(f):
            if j < len(fb) and j % 3 == 2:
                eq(x.description, "d%d" % j, "description")
    rec.nt(len(fa) > 1 and len(fb) > 1)


@suite.sub("sizes", st.tuples(st.booleans(), st.integers(-2, 12) | st.integers(16380, 16390)), quick=200)
def sizes(case, rec):
    signed, n = case

    class P(F.Parser):
        endian = BIG_ENDIAN

        def createFields(self):
            yield F.UInt8(self, "x")
    p = P(StringInputStream(b"\xff" * 3000))
    try:
        f = F.GenericInteger(p, "i", signed, n)
    except F.FieldError:
        ensure(not 8 <= n <= 16384, "integer of %d bits refused", n)
        rec.nt()
        return
    ensure(8 <= n <= 16384, "integer of %d bits accepted", n)
    eq(f.value, -1 if signed else (1 << n) - 1, "integer of %d bits" % n)
