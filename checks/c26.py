"""C26: a metadata keeps the valid values, once, and exports them all by priority."""
import datetime
import math
import re

from hypothesis import strategies as st

from vh import repo  # noqa: F401
from vh.core import Suite, ensure, eq, raises
from hachoir.core import tools
from hachoir.core.dict import UniqKeyError
from hachoir.core.iso639 import ISO639_2
from hachoir.core.language import Language
from hachoir.core.log import log
from hachoir.metadata import config
from hachoir.metadata.metadata import Metadata, MultipleMetadata, RootMetadata

suite = Suite("C26", rule="a case is a list of values set on metadata, groups and exports; non-trivial when values were kept and others skipped, merged or replaced")

STR = {"title", "artist", "author", "music_composer", "album", "music_genre", "organization", "filename", "subtitle_author", "location", "city", "country",
       "charset", "camera_model", "camera_manufacturer", "copyright", "url", "os", "producer", "comment", "format_version", "mime_type", "endian"}
ANY = {"version", "image_orientation", "pixel_format", "file_attr", "file_type", "font_weight", "camera_aperture", "camera_focal", "camera_exposure",
       "camera_brightness", "compression", "iso_speed_ratings", "exif_version", "aperture_value", "exposure_bias_value", "focal_length",
       "flashpix_version", "focal_plane_x_resolution", "focal_length_in_35mm_film"}
NUM = (int, float)
# key -> (types, minimum, maximum)
RANGES = {
    "duration": (datetime.timedelta, datetime.timedelta(milliseconds=1), datetime.timedelta(days=365)),
    "nb_page": (None, 1, 20000), "width": (int, 1, 20000), "height": (int, 1, 20000), "nb_channel": (int, 1, 8), "sample_rate": (NUM, 1000, 192000),
    "bits_per_sample": (int, 1, 64), "nb_colors": (int, 1, 2 ** 24), "bits_per_pixel": (int, 1, 256), "file_size": (int, None, None), "compr_size": (int, None, None),
    "compr_rate": (NUM, 0.001, 1000.0), "width_dpi": (int, 1, 10000), "height_dpi": (int, 1, 10000), "latitude": (float, None, None), "longitude": (float, None, None),
    "altitude": (float, None, None), "frame_rate": (NUM, 1, 150), "bit_rate": (NUM, 1, 500 * 1024 * 1024), "aspect_ratio": (NUM, None, None), "thumbnail_size": (NUM, None, None),
    "compressed_bits_per_pixel": (NUM, None, None), "shutter_speed_value": (NUM, None, None), "focal_plane_y_resolution": (float, None, None)}
TRACK = {"track_number", "track_total"}
DATES = {"creation_date", "last_modification", "date_time_original", "date_time_digitized"}
ALL = sorted(STR | ANY | set(RANGES) | TRACK | DATES | {"language"})
FORMAT = {
    "duration": tools.humanDuration, "sample_rate": tools.humanFrequency, "bits_per_sample": tools.humanBitSize, "file_size": tools.humanFilesize,
    "compr_size": tools.humanFilesize, "thumbnail_size": tools.humanFilesize, "bit_rate": tools.humanBitRate,
    "width": lambda v: "%s pixels" % v, "height": lambda v: "%s pixels" % v, "width_dpi": lambda v: "%s DPI" % v, "height_dpi": lambda v: "%s DPI" % v,
    "nb_channel": lambda v: {1: "mono", 2: "stereo"}.get(v, "%d" % v), "compr_rate": lambda v: "%.1fx" % v, "frame_rate": lambda v: "%.1f fps" % v,
    "altitude": lambda v: "%.1f meters" % v}

WORDS = st.text("ab \t\n\r\0\u00e9\u20acZ", max_size=6) | st.sampled_from(["abc", "abcd", "ab", "abcde", "abd", "  abc ", "a\r\nb", "a\rb", "a\nb", "", " ", "\0\0"])
TEXTS = st.one_of(WORDS, WORDS, WORDS, st.tuples(st.integers(290, 310), st.sampled_from("ab")).map(lambda t: t[0] * t[1]), WORDS.map(lambda s: s.encode("latin1", "replace")))
NUMBERS = st.one_of(st.integers(-2, 20), st.integers(-10, 600 << 20), st.sampled_from([64, 65, 150, 151, 256, 257, 999, 1000, 10000, 10001, 20000, 20001, 192000, 192001, 2**24, 2**24 + 1,
                                                                                     500 << 20, (500 << 20) + 1, 0.001, 0.0009, 150.5, 149.9, 999.5, 1000.5, math.nan, math.inf, -math.inf, 0.5]),
                    st.floats(0, 300))
DELTAS = st.one_of(st.integers(0, 4000000).map(lambda n: datetime.timedelta(milliseconds=n)),
                   st.sampled_from([datetime.timedelta(0), datetime.timedelta(microseconds=999), datetime.timedelta(milliseconds=1), datetime.timedelta(days=365),
                                    datetime.timedelta(days=365, microseconds=1), -datetime.timedelta(1)]))
DATETIMES = st.one_of(st.datetimes(datetime.datetime(1840, 1, 1), datetime.datetime(2040, 1, 1)).map(lambda d: d.replace(microsecond=0)),
                      st.dates(datetime.date(1840, 1, 1), datetime.date(2040, 1, 1)),
                      st.sampled_from([datetime.datetime(1850, 1, 1), datetime.datetime(1849, 12, 31, 23, 59, 59), datetime.datetime(2030, 12, 31, 23, 59, 59), datetime.datetime(2031, 1, 1),
                                       datetime.date(1850, 1, 1), datetime.date(2030, 12, 31), datetime.date(2031, 1, 1), datetime.date(1849, 12, 31)]))
YEARS = st.integers(1845, 2035).map(str) | st.sampled_from(["2000", " 1999 ", "2004-01-02", "2004:13:02", "0000", "2004-01-02 18:10:45"])
TRACKS = st.one_of(st.integers(-1, 1001), st.sampled_from(["3", "3/12", "0/5", "1000/999", "x", "x/3", "4/y", "", "/", "7/8/9"]), st.integers(0, 1001).map(str))
LANGS = st.sampled_from(sorted(ISO639_2)[:5] + ["fre", "ger", "eng", "xx", "", "FRE", "zzz", 3])
MISC = st.one_of(TEXTS, NUMBERS, DELTAS, DATETIMES, st.none())


def good_value(key):
    if key in STR:
        return TEXTS
    if key == "nb_page":
        return NUMBERS | edges(key)
    if key in ANY:
        return TEXTS | NUMBERS
    if key == "duration":
        return DELTAS | edges(key)
    if key in TRACK:
        return TRACKS
    if key in DATES:
        return st.one_of(DATETIMES, DATETIMES, YEARS)
    if key == "language":
        return LANGS
    return NUMBERS | edges(key)


def edges(key):
    """Around the limits of a key."""
    types, low, high = RANGES[key]
    steps = [datetime.timedelta(microseconds=1)] if key == "duration" else [1, 0.01]
    out = [v + s for v in (low, high) if v is not None for s in [0 * steps[0]] + steps + [-s for s in steps]]
    return st.sampled_from(out) if out else st.just(1.5)


SET = st.sampled_from(ALL).flatmap(lambda k: st.tuples(st.just(k), st.one_of(good_value(k), good_value(k), good_value(k), good_value(k), MISC)))
FEW = st.sampled_from(["title", "comment", "duration", "width", "track_number", "track_total", "creation_date", "compression", "bit_rate"])
SETFEW = FEW.flatmap(lambda k: st.tuples(st.just(k), good_value(k)))
TUPLE = st.tuples(SETFEW | SET, st.sampled_from(["a text", "", None])).map(lambda t: (t[0][0], (t[0][1], t[1])))
OPS = st.lists(st.one_of(SET, SETFEW, SETFEW, TUPLE), max_size=14)


class Model:
    def __init__(self, maxlen, raw):
        self.data = {k: [] for k in ALL}        # key -> [(value, text)]
        self.maxlen, self.raw = maxlen, raw
        self.skipped = 0

    def set(self, key, value):
        text = None
        if isinstance(value, tuple):
            value, text = value
        if value is None:
            return
        before = len(self.data[key])
        self._set(key, value, text)
        if len(self.data[key]) == before:
            self.skipped += 1

    def _set(self, key, value, text):
        if key == "track_number" and isinstance(value, str):
            if "/" in value:
                value, total = value.split("/", 1)
                self.set("track_total", total)
            value = number(value)
        elif key == "track_number":
            value = value if isinstance(value, int) else None
        elif key == "track_total":
            if isinstance(value, (str, bytes)):
                value = number(value)
            else:
                value = int(value) if isinstance(value, int) or isinstance(value, float) and math.isfinite(value) else None
        elif key == "language":
            value = Language(value) if str(value) in ISO639_2 else None
        elif key in DATES and isinstance(value, str):
            # the other texts are in C27
            value = value.strip()
            if re.fullmatch("[0-9]{4}", value) and int(value):
                text = text or value
                value = datetime.date(int(value), 1, 1)
            else:
                value = {"2004-01-02": datetime.date(2004, 1, 2), "2004-01-02 18:10:45": datetime.datetime(2004, 1, 2, 18, 10, 45)}.get(value)
        elif key in DATES and not isinstance(value, datetime.date):
            value = None
        elif isinstance(value, bytes):
            value = value.decode("latin1")
        if value is None:
            return
        if isinstance(value, str):
            if not self.raw:
                value = value.strip(" \t\v\n\r\0")
            if not value:
                return
        types, low, high = RANGES.get(key, (str if key in STR else None, None, None))
        if types and not isinstance(value, types):
            return
        if isinstance(value, str):
            value = re.sub("[\r\n]+", "\n", value)
            if self.maxlen and len(value) > self.maxlen:
                value = value[:self.maxlen] + "(...)"
        values = self.data[key]
        if any(value == v for v, t in values):
            return
        if key in TRACK:
            low, high = 1, 999
        if low is not None and isinstance(value, datetime.timedelta if key == "duration" else NUM) and not low <= value <= high:
            return
        if key in DATES:
            year = value.year
            if not 1850 <= year <= 2030:
                return
        if text is None:
            if isinstance(value, str):
                text = value
            elif key in FORMAT:
                text = FORMAT[key](value)
            elif key in DATES:
                text = tools.humanDatetime(value)
            else:
                text = str(value)
        if isinstance(value, str):
            for i, (v, t) in enumerate(values):
                if isinstance(v, str):
                    if value.startswith(v):
                        values[i] = (value, text)
                        return
                    if v.startswith(value):
                        return
        values.append((value, text))

    def any(self):
        return any(self.data.values())


def number(text):
    try:
        return int(text)
    except ValueError:
        return None


class Quiet:
    def __init__(self, maxlen, raw):
        self.new = (maxlen, raw)

    def __enter__(self):
        self.old = config.MAX_STR_LENGTH, config.RAW_OUTPUT, log.on_new_message
        config.MAX_STR_LENGTH, config.RAW_OUTPUT = self.new
        self.text = []
        log.on_new_message = lambda level, prefix, text, context: self.text.append(text)
        return self.text

    def __exit__(self, *a):
        config.MAX_STR_LENGTH, config.RAW_OUTPUT, log.on_new_message = self.old


def fill(meta, model, ops):
    for key, value in ops:
        if isinstance(value, tuple) and len(value) == 2 and value[1] == "":
            value = (value[0], None)
        if key == "thumbnail_size" and isinstance(value, float) and not math.isfinite(value):
            continue
        setattr(meta, key, value)
        model.set(key, value)


def same(a, b):
    return (a == b or a != a and b != b) and type(a) is type(b)


def compare(meta, model):
    order = [d.key for d in meta]
    eq(sorted(order), ALL, "keys")
    for key in ALL:
        want = model.data[key]
        got = meta.getValues(key)
        ensure(len(got) == len(want) and all(same(a, b) for a, (b, t) in zip(got, want)), "%s: got %r, want %r", key, got, want)
        eq(meta.has(key), bool(want), "has(%s)" % key)
        for i in range(len(want) + 1):
            if i < len(want):
                ensure(same(meta.get(key, index=i), want[i][0]), "get(%s, %d)", key, i)
                eq(meta.getText(key, index=i), want[i][1], "getText(%s, %d)" % (key, i))
                ensure(same(meta.getItem(key, i).value, want[i][0]), "getItem")
            else:
                raises(ValueError, lambda: meta.get(key, index=i), "get(%s)" % key)
                eq(meta.get(key, "zz", i), "zz", "get() default")
                eq(meta.getText(key, "zz", i), "zz", "getText() default")
                eq(meta.getItem(key, i), None, "getItem")
    eq(bool(meta), model.any(), "bool")
    raises(ValueError, lambda: meta.getValues("nosuch"), "unknown key")
    raises(ValueError, lambda: meta.get("nosuch"), "unknown key")
    raises(KeyError, lambda: setattr(meta, "nosuch", 3), "unknown key")


def lines(meta, model, priority, human, prefix, title):
    priority = 999 if priority is None else min(max(priority, 100), 999)
    out = []
    for d in sorted(meta, key=lambda d: d.priority):
        if d.priority <= priority:
            for v, t in model.data[d.key]:
                out.append("%s%s: %s" % (prefix, d.description if human else d.key, t if human else tools.makeUnicode(v)))
    return ["%s:" % title] + out if out else []


def table(meta, model, priority, human):
    """What a dictionary may contain: {name: texts}"""
    priority = 999 if priority is None else min(max(priority, 100), 999)
    return {(d.description if human else d.key): [t if human else tools.makeUnicode(v) for v, t in model.data[d.key]]
            for d in meta if d.priority <= priority and model.data[d.key]}


def same_table(got, want, what):
    eq(sorted(got), sorted(want), what)
    for k in want:
        ensure(got[k] in want[k], "%s: %s is %r, values: %r", what, k, got[k], want[k])


PRIORITY = st.none() | st.sampled_from([0, 99, 100, 101, 200, 204, 300, 500, 604, 605, 902, 998, 999, 5000]) | st.integers(100, 999)
EXPORT = st.tuples(PRIORITY, st.booleans(), st.sampled_from(["- ", "", "> "]))
CONF = st.tuples(st.sampled_from([300, 300, 300, 0, 3, 300]), st.booleans())


@suite.sub("values", st.tuples(OPS, EXPORT, CONF), quick=4000, thorough=100000)
def values(case, rec):
    ops, (priority, human, prefix), (maxlen, raw) = case
    with Quiet(maxlen, raw):
        meta, model = RootMetadata(), Model(maxlen, raw)
        fill(meta, model, ops)
        compare(meta, model)
        eq(meta.exportPlaintext(priority, human, prefix), lines(meta, model, priority, human, prefix, "Metadata") or None, "exportPlaintext()")
        if model.any():
            eq(str(meta), "\n".join(lines(meta, model, None, True, "- ", "Metadata")), "str()")
        got = meta.exportDictionary(priority, human)
        eq(list(got), ["Metadata"], "exportDictionary()")
        same_table(got["Metadata"], table(meta, model, priority, human), "exportDictionary()")
        compare(meta, model)
    rec.nt(model.any() and model.skipped)


GROUP = st.tuples(st.sampled_from(["a", "b", "f[]", "f[]", "g[]", "f[1]"]), OPS, st.sampled_from([None, "Header", "Other", ""]))


@suite.sub("groups", st.tuples(OPS, st.lists(GROUP, max_size=5), EXPORT, CONF, st.floats(-1, 2)), quick=2500, thorough=60000)
def groups(case, rec):
    ops, more, (priority, human, prefix), (maxlen, raw), quality = case
    with Quiet(maxlen, raw):
        meta, model = MultipleMetadata(quality), Model(maxlen, raw)
        eq(meta.quality, min(max(0.0, quality), 1.0), "quality")
        eq(meta.header, "Common", "header")
        fill(meta, model, ops)
        counter = {}
        want = []
        skipped = 0
        for key, gops, header in more:
            g, m = Metadata(meta), Model(maxlen, raw)
            eq(g.quality, meta.quality, "quality of a group")
            fill(g, m, gops)
            if not m.any():
                eq(meta.addGroup(key, g, header), False, "empty group")
                skipped += 1
                continue
            name = key
            if key.endswith("[]"):
                counter[key] = counter.get(key, 0) + 1
                name = "%s[%d]" % (key[:-2], counter[key])
            if name in [w[0] for w in want]:
                raises(UniqKeyError, lambda: meta.addGroup(key, g, header), "second group %s" % name)
                skipped += 1
                continue
            eq(meta.addGroup(key, g, header), True, "addGroup()")
            want.append((name, g, m, header or "Metadata"))
        compare_root = model.any() or bool(want)
        eq(bool(meta), compare_root, "bool")
        got = list(meta.iterGroups())
        ensure(len(got) == len(want) and all(a is w[1] for a, w in zip(got, want)), "groups")
        for name, g, m, header in want:
            ensure(name in meta and meta[name] is g, "group %s", name)
            compare(g, m)
            eq(g.header, header, "header of %s" % name)
        ensure("nosuch" not in meta, "unknown group")
        text = lines(meta, model, priority, human, prefix, "Common")
        for name, g, m, header in want:
            text += lines(g, m, priority, human, prefix, header if human else name)
        eq(meta.exportPlaintext(priority, human, prefix), text or None, "exportPlaintext()")
        d = meta.exportDictionary(priority, human)
        tables = [("Common", table(meta, model, priority, human))] + [(header if human else name, table(g, m, priority, human)) for name, g, m, header in want]
        titles = [t for t, x in tables]
        eq(sorted(d), sorted(set(titles)), "titles of the dictionary")
        for t, x in tables:
            if titles.count(t) == 1:
                same_table(d[t], x, "exportDictionary() of %s" % t)
    rec.nt(len(want) > 1 and (skipped or model.any()))
