"""C06: timestamps, durations and quantities are converted to the right moment / amount."""
import re
import stat
from datetime import datetime, timedelta
from fractions import Fraction

from hypothesis import strategies as st

from vh.core import Suite, ensure, eq, fail, raises
from vh import repo  # noqa: F401
from hachoir.core import tools as T

suite = Suite("C06", rule="a case is a raw counter value or an amount; non-trivial when several units are involved "
              "or the value is near a unit boundary / limit",
              assumptions=["64-bit tick counters are converted through a float: the tolerance is 2 microseconds plus the rounding of that float"])

LIMITS = lambda *xs: st.sampled_from(xs).flatmap(lambda x: st.integers(x - 2, x + 2))


def near(got, t0, usec, tol, what):
    want = t0 + timedelta(microseconds=int(usec))
    ensure(abs(got - want) <= timedelta(microseconds=tol), "%s = %s, want %s", what, got, want)


@suite.sub("unix", st.integers(0, 2147483647) | LIMITS(0, 2147483647, 1 << 32, -1) | st.integers(-100, 1 << 40), quick=3000)
def unix(v, rec):
    if 0 <= v <= 2147483647:
        eq(T.timestampUNIX(v), datetime(1970, 1, 1) + timedelta(0, v), "timestampUNIX(%d)" % v)
        rec.nt(v > 86400)
    else:
        raises(ValueError, lambda: T.timestampUNIX(v), "timestampUNIX(%d)" % v)
        rec.nt()


@suite.sub("unix_float", st.integers(0, 2147483646 * 64).map(lambda n: n / 64), quick=800)
def unix_float(v, rec):
    near(T.timestampUNIX(v), datetime(1970, 1, 1), v * 1000000, 1, "timestampUNIX(%r)" % v)
    rec.nt(v != int(v))


@suite.sub("mac", st.integers(0, 4294967295) | LIMITS(0, 4294967295), quick=2000)
def mac(v, rec):
    got = T.timestampMac32(v)
    if 0 <= v <= 4294967295:
        eq(got, datetime(1904, 1, 1) + timedelta(0, v), "timestampMac32(%d)" % v)
    else:
        ensure(isinstance(got, str), "timestampMac32(%d) = %r", v, got)
    rec.nt(v > 86400)


WIN_MAX = (datetime.max - datetime(1601, 1, 1)) // timedelta(microseconds=1) * 10
TICKS = st.integers(0, 1 << 57) | st.integers(0, (1 << 64) - 1) | st.integers(0, 10 ** 9) | LIMITS(10, 1 << 53, 10 ** 17, WIN_MAX)


@suite.sub("win", TICKS, quick=3000)
def win(v, rec):
    if v < 0:
        raises(ValueError, lambda: T.timestampWin64(v), "timestampWin64(%d)" % v)
        return
    if v > WIN_MAX + 200:
        raises(ValueError, lambda: T.timestampWin64(v), "timestampWin64(%d)" % v)
    elif v < WIN_MAX - 200:
        near(T.timestampWin64(v), datetime(1601, 1, 1), v // 10, 1, "timestampWin64(%d)" % v)
        rec.nt()
    d = T.durationWin64(v)
    ensure(abs(d - timedelta(microseconds=v // 10)) <= timedelta(microseconds=1), "durationWin64(%d) = %r", v, d)


UUID_MAX = (datetime.max - datetime(1582, 10, 15)) // timedelta(microseconds=1) * 10


@suite.sub("uuid", st.integers(0, (1 << 60) - 1) | st.integers(0, 1 << 57) | LIMITS(0, 10, UUID_MAX), quick=2000)
def uuid(v, rec):
    if v < 0 or v > UUID_MAX + 200:
        raises(ValueError, lambda: T.timestampUUID60(v), "timestampUUID60(%d)" % v)
    elif v < UUID_MAX - 200:
        near(T.timestampUUID60(v), datetime(1582, 10, 15), v // 10, 2 + v // 10 // (1 << 52), "timestampUUID60(%d)" % v)
        rec.nt()


@suite.sub("millis", st.integers(0, 1 << 46) | st.integers(-2, 5000), quick=1500)
def millis(v, rec):
    if v < 0:
        raises(ValueError, lambda: T.durationMillisWin64(v), "durationMillisWin64(%d)" % v)
        return
    eq(T.durationMillisWin64(v), timedelta(milliseconds=v), "durationMillisWin64(%d)" % v)
    rec.nt(v > 86400000)


@suite.sub("types", st.sampled_from(["1", b"1", None, [1]]), quick=20)
def types(v, rec):
    rec.nt()
    for f in (T.timestampUNIX, T.timestampMac32, T.timestampUUID60, T.durationWin64, T.durationMillisWin64):
        raises(TypeError, lambda: f(v), f.__name__)


@suite.sub("seconds", st.timedeltas(timedelta(-3000), timedelta(30000)), quick=800)
def seconds(d, rec):
    got = T.timedelta2seconds(d)
    ensure(abs(Fraction(got) - Fraction(d // timedelta(microseconds=1), 10 ** 6)) < Fraction(1, 10 ** 5),
           "timedelta2seconds(%r) = %r", d, got)
    rec.nt(d.microseconds)


UNITS = ["years", "days", "hours", "min", "sec", "ms"]
FACT = [365 * 86400000, 86400000, 3600000, 60000, 1000, 1]
DUR = st.integers(0, 5000) | st.integers(0, 10 ** 8) | st.integers(0, 10 ** 13) | \
    st.lists(st.integers(0, 2), min_size=6, max_size=6).map(lambda c: sum(a * b for a, b in zip(c, FACT)))


@suite.sub("duration", st.tuples(DUR, st.booleans()), quick=4000)
def duration(case, rec):
    ms, delta = case
    parts, rest = [], ms
    for name, f in zip(UNITS, FACT):
        q, rest = divmod(rest, f)
        if q:
            parts.append("%d %s" % (q, name))
    want = " ".join(parts[:3]) or "0 ms"
    got = T.humanDuration(timedelta(milliseconds=ms) if delta else ms)
    eq(got, want, "humanDuration(%d ms)" % ms)
    rec.nt(len(parts) > 1)


@suite.sub("nanosec", st.integers(0, 2000) | st.integers(0, 10 ** 7) | st.integers(0, 10 ** 14) | LIMITS(1000, 10 ** 6, 10 ** 9), quick=2000)
def nanosec(ns, rec):
    ns = max(ns, 0)
    got = T.humanDurationNanosec(ns)
    if ns < 10 ** 9:
        m = re.fullmatch(r"([0-9.]+) (nsec|usec|ms)", got)
        ensure(m, "humanDurationNanosec(%d) = %r", ns, got)
        f = {"nsec": 1, "usec": 1000, "ms": 10 ** 6}[m.group(2)]
        ensure(abs(Fraction(m.group(1)) * f - ns) <= Fraction(f, 100), "humanDurationNanosec(%d) = %r", ns, got)
        ensure(f <= max(1, ns) < f * 1000, "humanDurationNanosec(%d) = %r: unit", ns, got)
    else:
        # milliseconds and more: the fraction of a millisecond is dropped
        eq(got, T.humanDuration(ns // 10 ** 6), "humanDurationNanosec(%d)" % ns)
    rec.nt(ns > 1000)


def check_unit(got, size, base, first, units, plain, what):
    m = re.fullmatch(r"([0-9.e+]+) (\S+)", got)
    ensure(m, "%s = %r", what, got)
    num, unit = Fraction(m.group(1)), m.group(2)
    if size < first:
        eq(got, "%d %s" % (size, plain), what)
        return
    ensure(unit in units, "%s = %r: unit", what, got)
    k = units.index(unit) + 1
    f = base ** k
    last = k == len(units)
    tol = Fraction(f, 20) + Fraction(size, 1 << 50)
    if last and size >= base * f:
        tol = Fraction(f)
    ensure(abs(num * f - size) <= tol, "%s = %r: value", what, got)
    ensure(size >= f or k == 1, "%s = %r: unit too big", what, got)
    ensure(last or size < f * base, "%s = %r: unit too small", what, got)


SIZES = st.integers(0, 20000) | st.integers(0, 1 << 44) | st.integers(0, 1 << 62) | \
    LIMITS(1000, 9999, 10000, 1 << 20, 1 << 30, 1 << 40, 10 ** 6, 10 ** 9, 10 ** 12, 1 << 50, 10 ** 15)


@suite.sub("units", SIZES, quick=4000)
def units(n, rec):
    check_unit(T.humanFilesize(n), n, 1024, 10000, ["KB", "MB", "GB", "TB"], "bytes", "humanFilesize(%d)" % n)
    check_unit(T.humanBitSize(n), n, 1000, 1000, ["Kbit", "Mbit", "Gbit", "Tbit"], "bits", "humanBitSize(%d)" % n)
    check_unit(T.humanFrequency(n), n, 1000, 1000, ["kHz", "MHz", "GHz", "THz"], "Hz", "humanFrequency(%d)" % n)
    eq(T.humanBitRate(n), T.humanBitSize(n) + "/sec", "humanBitRate(%d)" % n)
    rec.nt(n >= 10000)


@suite.sub("mode", st.integers(0, 0o177777) | st.integers(0, 0o7777), quick=2000)
def mode(m, rec):
    got = T.humanUnixAttributes(m)
    want = stat.filemode(m)
    if not stat.S_IFMT(m):
        want = "-" + want[1:]
    eq(got, "%s (%o)" % (want, m), "humanUnixAttributes(%o)" % m)
    rec.nt(m & 0o7000)


@suite.sub("datetime", st.tuples(st.datetimes(), st.booleans()), quick=800)
def human_datetime(case, rec):
    d, strip = case
    got = T.humanDatetime(d, strip)
    want = d.replace(microsecond=0) if strip else d
    eq(datetime.fromisoformat(got), want, "humanDatetime(%r, %r)" % case)
    ensure(got[10] == " ", "humanDatetime: %r", got)
    rec.nt(d.microsecond)
