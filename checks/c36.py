"""C36: a valid file is read whole: no error is reported, nothing is left unread, and each stored content is one field."""
import importlib
import re

from hypothesis import strategies as st

from vh import repo  # noqa: F401
from vh import archives, asn1, audio, documents, facts, images, java, marsh, media, movie, ole2, plist, packages, programs, shortcuts, video
from vh import filesystems as fs
from vh.core import Suite, ensure, eq
from hachoir.core import config
from hachoir.core.log import log
from hachoir.stream import StringInputStream

suite = Suite("C36", rule="a case is a valid file of a known format; non-trivial when it has at least one stored content, or 20 fields")

MODULES = (media, images, audio, video, movie, archives, documents, programs, java, packages, shortcuts)
KINDS = {}
for kinds in (media.KINDS, images.IMAGES, audio.AUDIO, video.VIDEO, archives.ARCHIVES, documents.DOCUMENTS, programs.PROGRAMS):
    KINDS.update(kinds)

# Kinds of files whose contents (pixels, samples, packets, ...) are stored as they are, each one in one field
STORED = [k for k in ("aiff", "aiff-chunks", "asf", "au", "avi", "bmp", "bmp-top", "bmp2", "flv", "gif", "gif-plain", "ico", "ico-sizes", "iso", "mkv", "mp4", "pcf", "pe",
                      "psd", "ra", "swf", "tga", "tiff", "wav") if k in KINDS]

# What a valid file may be told: the format allows the same name twice, and a text of an unknown charset is read as ISO-8859-1
ALLOWED = re.compile(r"Skip duplicate header|Skip value header|Duplicate field name|Unable to convert string to Unicode")
# The generated picture or sound is made of random bytes, which are no valid coded data; or bytes are left after the end of the archive
CODED = {"flac": r"^/raw\[\]$", "jpeg": r"^/image_data\[\d+\]/raw\[\]$", "mar": r"^/raw\[\]$"}
CODED_LOG = {"flac": "add padding", "jpeg": "add padding|Only supporting|only supporting", "mar": "add padding"}
LEFT = re.compile(r"^(raw\[\]|unparsed\[\d+\])$")


class Told:
    """The messages of the parsers"""

    def __enter__(self):
        self.messages = []
        self.before = config.quiet, log.on_new_message
        config.quiet = False
        log.on_new_message = self.add
        return self

    def add(self, level, prefix, text, context):
        if level >= log.LOG_WARN:
            self.messages.append((getattr(context, "path", ""), text))

    def __exit__(self, *exc):
        config.quiet, log.on_new_message = self.before


def fields(p):
    for f in p:
        yield f
        if f.is_field_set:
            yield from fields(f)


def read(p, kind, rec, gaps=False):
    """Read everything; count the fields"""
    count = 0
    with Told() as told:
        for f in fields(p):
            count += 1
            ensure(isinstance(f.description, str), "description of %s: %r", f.path, f.description)
            f.display
            f.raw_display
            if LEFT.match(f.name):
                if kind in CODED and re.match(CODED[kind], f.path):
                    continue
                # (bytes between two parts: alignment)
                data = f.parent.stream.readBytes(f.absolute_address, (f.size + 7) // 8)
                ensure(gaps or f.name.startswith("unparsed") and not any(data), "%s left unread at %s: %r", f.path, f.absolute_address, data[:20])
    for path, text in told.messages:
        if ALLOWED.search(text) or kind in CODED and re.search(CODED_LOG[kind], text) or kind == "jpeg" and path.startswith("/image_data"):
            continue
        if "stop parser, found unparsed segment" in text:
            # (seen above)
            continue
        ensure(False, "%s: message: %s", path, text)
    return count


class Parts:
    """Records the contents put in a generated file"""

    def __enter__(self):
        self.parts = set()
        self.noise = media.noise

        def noise(*args):
            data = self.noise(*args)
            self.parts.add(data)
            return data
        for m in MODULES:
            if hasattr(m, "noise"):
                m.noise = noise
        return self

    def __exit__(self, *exc):
        for m in MODULES:
            if hasattr(m, "noise"):
                m.noise = self.noise


@suite.sub("contents", st.sampled_from(STORED).flatmap(lambda k: st.tuples(st.just(k), KINDS[k][0])), 5000, thorough=80000)
def contents(case, rec):
    """Each content stored in a file is exactly one field"""
    kind, params = case
    with Parts() as recorded:
        m = KINDS[kind][1](params)
    parts = [x for x in recorded.parts if len(x) >= 6 and m.data.count(x) == 1]
    with facts.BY_ID[m.parser](StringInputStream(m.data), validate=True) as p:
        where = {}
        # (a palette or an array of pixels is a set of fields)
        for f in fields(p):
            where[f.absolute_address, f.size] = f
        for x in parts:
            a = m.data.index(x) * 8
            f = where.get((a, len(x) * 8))
            if f is None:
                near = [g for (b, n), g in where.items() if n and b < a + len(x) * 8 and a < b + n]
                ensure(False, "the %s bytes stored at %s are not one field: %s", len(x), a // 8, [(g.path, g.absolute_address / 8, g.size / 8) for g in near][:3])
            eq(p.stream.readBytes(f.absolute_address, len(x)), x, f.path)
            if not f.is_field_set and f.hasValue() and isinstance(f.value, bytes):
                eq(f.value, x, f.path)
    rec.label(kind)
    rec.nt(bool(parts))


@suite.sub("whole", st.sampled_from(sorted(KINDS)).flatmap(lambda k: st.tuples(st.just(k), KINDS[k][0])), 6000, thorough=100000)
def whole(case, rec):
    """A generated picture, sound, video, archive or document is read without error"""
    kind, params = case
    if kind == "ttf" and any(n[-1] == 2 for n in params[2] or ()):
        # (names out of the table)
        return
    m = KINDS[kind][1](params)
    with facts.BY_ID[m.parser](StringInputStream(m.data), validate=True) as p:
        n = read(p, kind, rec)
        for path, value in m.values.items():
            ensure(path in p, "no field %s", path)
            eq(p[path].value, value, path)
        for path, text in m.told.items():
            ensure(p[path].description.startswith(text), "description of %s: %r, not %r", path, p[path].description, text)
        for path, text in m.shown.items():
            eq(p[path].display, text, "display of " + path)
    rec.label(kind)
    rec.nt(n >= 20)


NUMBERS = importlib.import_module("checks.c35").NUMBERS


def ext2(numbers):
    try:
        return fs.Ext2(numbers).data
    except AssertionError:
        return None


OTHERS = {
    "ole2": (ole2.CASES, lambda c: ole2.build(c).data),
    "bplist": (st.tuples(plist.VALUES, plist.LAYOUT), lambda c: plist.encode(*c)[0]),
    "python": (marsh.CASES, lambda c: marsh.build(c)[0]),
    "asn1": (asn1.CASES, lambda c: asn1.encode(c[0], list(c[1]))),
    "fat12": (NUMBERS, lambda c: fs.Fat(c, 12).data),
    "fat16": (NUMBERS, lambda c: fs.Fat(c, 16).data),
    "msdos_harddrive": (NUMBERS, lambda c: fs.Mbr(c).data),
    "linux_swap": (NUMBERS, lambda c: fs.swap(c)["data"]),
    "ext2": (NUMBERS, ext2),
    "ntfs": (NUMBERS, lambda c: fs.Ntfs(c).data),
}
# Built with gaps of random bytes between their parts
GAPS = ("ole2", "bplist", "ext2")


@suite.sub("serialized", st.sampled_from(["ole2", "bplist", "python", "asn1"]).flatmap(lambda k: st.tuples(st.just(k), OTHERS[k][0])), 1500, thorough=30000)
def serialized(case, rec):
    """A generated OLE2 document or serialized value is read without error"""
    other(case, rec)


@suite.sub("disks", st.sampled_from(["fat12", "fat16", "msdos_harddrive", "linux_swap", "ext2", "ntfs"]).flatmap(lambda k: st.tuples(st.just(k), OTHERS[k][0])), 300, thorough=6000)
def disks(case, rec):
    """A generated disk is read without error"""
    other(case, rec)


def other(case, rec):
    kind, params = case
    data = OTHERS[kind][1](params)
    if data is None or kind == "asn1" and len(data) < 2:
        return
    with facts.BY_ID[kind](StringInputStream(data), validate=True) as p:
        n = read(p, kind, rec, gaps=kind in GAPS)
    rec.label(kind)
    rec.nt(n >= 20)
