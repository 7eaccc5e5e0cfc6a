"""C27: dates written in the files are read, and only them."""
import calendar
import datetime
import locale
import re

from hypothesis import strategies as st

from vh import repo  # noqa: F401
from vh.core import Suite, ensure, eq
from checks.c26 import Quiet
from hachoir.metadata.metadata import RootMetadata
from hachoir.metadata.setter import parseDatetime

suite = Suite("C27", rule="a case is a text, written from a date in one of the supported formats or derived from one; non-trivial when it holds a date, or one "
              "of its numbers isn't in its range")

DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
FULL = list(calendar.month_name)[1:]
KEYS = ["creation_date", "last_modification", "date_time_original", "date_time_digitized"]


def make(cls, *args):
    try:
        return cls(*[int(a) for a in args])
    except ValueError:
        return None


def reference(text):
    """(value, timezone in hours or None) or None"""
    text = text.strip()
    tok = re.split("[-/.: ]+", text)

    def shape(*pats):
        return len(tok) == len(pats) and all(re.fullmatch(p, t) for p, t in zip(pats, tok))
    value = None
    if shape("[0-9]{4}"):
        value = make(datetime.date, tok[0], 1, 1)
    elif shape("[0-9]{4}", "[01][0-9]", "[0-9]{2}"):
        value = make(datetime.date, *tok)
    elif shape("[0-9]{4}", "[01][0-9]", "[0-9]{2}", "[0-9]{1,2}", "[0-9]{2}", "[0-9]{1,2}"):
        value = make(datetime.datetime, *tok)
    elif shape("[01]?[0-9]", "[0-9]{2}", "[0-9]{4}", "[0-9]{1,2}", "[0-9]{2}", "[0-9]{1,2}"):
        value = make(datetime.datetime, tok[2], tok[0], tok[1], *tok[3:])
    if value is not None:
        return value, None
    if shape("[A-Za-z]+", "[0-9]{4}") and tok[0].lower() in [m.lower() for m in FULL]:
        value = make(datetime.date, tok[1], [m.lower() for m in FULL].index(tok[0].lower()) + 1, 1)
        return (value, None) if value else None
    tz = None
    m = re.fullmatch("(.*)[-/.: ]([+-](?:[01][0-9]|2[0-3]))00", text, re.S)
    if m:
        tz = int(m[2])
        tok = re.split("[-/.: ]+", m[1].strip())
    low = [t.lower() for t in tok]
    two = "[0-9]{1,2}"
    if shape("[A-Za-z]+,", two, "[A-Za-z]+", "[0-9]{4}", two, two, two):
        day, d, mon, y, hh, mm, ss = [low[0][:-1]] + low[1:]
    elif shape("[A-Za-z]+", "[A-Za-z]+", two, two, two, two, "[0-9]{4}"):
        day, mon, d, hh, mm, ss, y = low
    else:
        return None
    if day not in [x.lower() for x in DAYS] or mon not in [x.lower() for x in MONTHS]:
        return None
    value = make(datetime.datetime, y, [x.lower() for x in MONTHS].index(mon) + 1, d, hh, mm, ss)
    return (value, tz) if value else None


SEP = st.sampled_from(["-", "/", ".", ":", " ", "  ", "- ", ": "])
SIMPLE = st.sampled_from(["-", "/", ".", ":", " "])
YEAR = st.one_of(st.integers(1840, 2040), st.integers(1, 9999), st.sampled_from([1850, 1849, 2030, 2031, 1, 9999, 0]))
VALID = st.tuples(st.integers(1845, 2035) | st.integers(1, 9999), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59))
WHEN = VALID | st.tuples(YEAR, st.integers(1, 12) | st.sampled_from([0, 1, 12, 13, 19]), st.integers(1, 28) | st.sampled_from([0, 29, 30, 31, 32, 99]), st.integers(0, 23) | st.sampled_from([24, 99]),
                 st.integers(0, 59) | st.sampled_from([60]), st.integers(0, 59) | st.sampled_from([60, 61, 62]))
TZ = st.one_of(st.none(), st.none(), st.integers(-23, 23).map(lambda n: "%+03d00" % n), st.sampled_from(["+2400", "-2400", "+9900", "-0000", "+0030", "0200", "+200", "-05:00", "GMT", "+02000"]))
FORMATS = ["year", "date", "datetime", "french", "iso", "riff", "month"]


@st.composite
def dates(draw):
    y, mo, d, h, mi, s = draw(WHEN)
    f = draw(st.sampled_from(FORMATS))
    a, b, c = draw(SIMPLE), draw(SEP), draw(SIMPLE)
    pad = draw(st.booleans())
    two = "%02d" if pad or draw(st.booleans()) else "%d"
    if f == "year":
        text = "%04d" % y
    elif f == "date":
        text = ("%04d{0}%02d{0}%02d" % (y, mo, d)).format(a)
    elif f == "datetime":
        text = ("%04d{0}%02d{0}%02d{1}" + two + "{2}%02d{2}" + two) .format(a, b, c) % (y, mo, d, h, mi, s)
    elif f == "french":
        text = (two + "{0}%02d{0}%04d{1}" + two + "{2}%02d{2}" + two).format(a, b, c) % (mo, d, y, h, mi, s)
    elif f == "month":
        text = "%s %04d" % (FULL[(mo - 1) % 12], y)
    else:
        day = draw(st.sampled_from(DAYS))
        mon = MONTHS[(mo - 1) % 12]
        if f == "iso":
            text = ("%s, " + two + " %s %04d " + two + ":" + two + ":" + two) % (day, d, mon, y, h, mi, s)
        else:
            text = ("%s %s " + two + " " + two + ":" + two + ":" + two + " %04d") % (day, mon, d, h, mi, s, y)
        tz = draw(TZ)
        if tz:
            text += " " + tz
    case = draw(st.sampled_from([None, None, None, None, str.lower, str.upper]))
    if case:
        text = case(text)
    for k in range(draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2]))):
        i = draw(st.integers(0, len(text)))
        text = text[:i] + draw(st.sampled_from(["", "0", "1", "9", " ", "-", ":", "x", "T", "+", ",", "."])) + text[i + draw(st.integers(0, 1)):]
    return draw(st.sampled_from(["", "", " ", "\n", "\t "])) + text + draw(st.sampled_from(["", "", " ", "\n"]))


LOCALES = []
for _l in ("C", "C.UTF-8", "POSIX"):
    try:
        locale.setlocale(locale.LC_ALL, _l)
        LOCALES.append(_l)
    except locale.Error:
        pass
locale.setlocale(locale.LC_ALL, LOCALES[0])


@suite.sub("parse", st.tuples(dates(), st.sampled_from(LOCALES), st.sampled_from(KEYS)), quick=9000, thorough=300000)
def parse(case, rec):
    text, loc, key = case
    want = reference(text)
    old = locale.setlocale(locale.LC_ALL)
    try:
        locale.setlocale(locale.LC_ALL, loc)
        if loc == "C.UTF-8":
            # a locale of its own for each category
            locale.setlocale(locale.LC_NUMERIC, "C")
        before = locale.setlocale(locale.LC_ALL)
        got = parseDatetime(text)
        eq(locale.setlocale(locale.LC_ALL), before, "locale after the parsing of %r" % text)
        if want is None:
            eq(got, None, "date in %r" % text)
        elif re.fullmatch(r"\s*[0-9]{4}\s*", text):
            eq(got, (want[0], str(want[0].year)), "date in %r" % text)
        else:
            value, tz = want
            eq(type(got), type(value), "type of %r" % text)
            if tz is not None:
                eq(got.utcoffset(), datetime.timedelta(hours=tz), "timezone of %r" % text)
                eq(got.tzname(), "UTC" if tz == 0 else "%+03d00" % tz, "name of the timezone of %r" % text)
                got = got.replace(tzinfo=None)
            eq(got, value, "date in %r" % text)
        rec.label("no date" if want is None else "timezone" if want[1] is not None else "date")
        rec.nt(want is not None)
        # in a metadata
        with Quiet(300, False):
            meta = RootMetadata()
            setattr(meta, key, text)
            values = meta.getValues(key)
        keep = False
        if want is not None:
            value, tz = want
            if isinstance(value, datetime.datetime):
                # in the range, at UTC
                t = calendar.timegm(value.timetuple()) - 3600 * (tz or 0)
                keep = calendar.timegm((1850, 1, 1, 0, 0, 0)) <= t < calendar.timegm((2031, 1, 1, 0, 0, 0))
            else:
                keep = 1850 <= value.year <= 2030
        eq(len(values), int(keep), "%s=%r is kept" % (key, text))
        if keep:
            eq(values[0].replace(tzinfo=None) if isinstance(value, datetime.datetime) else values[0], value, "value of %s=%r" % (key, text))
            rec.label("kept")
    finally:
        locale.setlocale(locale.LC_ALL, old)
