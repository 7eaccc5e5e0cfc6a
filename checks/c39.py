"""C39: each number stored in a file is the value of the field that the format names for it."""
import bisect
import datetime
import json
import os
import re
import struct
import sys

from hypothesis import strategies as st

from vh import repo  # noqa: F401
from vh import asn1, binary, facts, marsh, ole2, plist
from vh import filesystems as fs
from vh.core import Suite, ensure
from hachoir.stream import StringInputStream

from checks.c36 import KINDS, MODULES, OTHERS, fields

suite = Suite("C39", rule="a case is a valid file of a known format; non-trivial when at least three numbers are found again")


class Numbers:
    """Records the numbers written by struct.pack() while a file is generated"""

    def __init__(self, modules, least=4, distinct=3):
        # (a shorter content, or a content of fewer different bytes, could be found elsewhere)
        self.least, self.distinct = least, distinct
        self.modules = [(m, m.struct) for m in modules if hasattr(m, "struct")]
        self.written = []

    def __getattr__(self, name):
        return getattr(binary, name)

    def pack(self, fmt, *args):
        data = binary.pack(fmt, *args)
        fmt, _, note = fmt.partition("#")
        self.written.append((sys._getframe(1).f_code.co_qualname.replace(".<locals>", "") + (" (%s) " % note if note else " ") + ("" if note[:1] == "=" else fmt), fmt, args, data))
        return data

    def __enter__(self):
        for m, _ in self.modules:
            m.struct = self
        return self

    def __exit__(self, *exc):
        for m, before in self.modules:
            m.struct = before

    def numbers(self, data):
        """Yields (key, position, size, code, value) of the numbers, when the place of the structure in the file is certain"""
        for where, fmt, args, content in self.written:
            if len(content) < self.least or len(set(content)) < self.distinct or content not in data or len(content) < 8 and (
                    len(set(content)) < 4 or content.count(0) > 1):
                continue
            base = data.index(content)
            if data.find(content, base + 1) >= 0:
                continue
            pos = k = 0
            for n, code in re.findall(r"(\d*)([a-zA-Z])", fmt):
                if code == "s":
                    pos += int(n or 1)
                    k += 1
                    continue
                if code == "x":
                    pos += int(n or 1)
                    continue
                array = k if int(n or 1) > 4 else None
                for _ in range(int(n or 1)):
                    size = binary.calcsize("<" + code)
                    yield "%s#%s" % (re.sub(r"\d\d+|[5-9]", "N", where) if array is not None else where, k if array is None else "N"), base + pos, size, code, args[k]
                    pos += size
                    k += 1


def same(code, number, size, value, raw):
    """Is it the value of a field, for this number written in the file?"""
    if isinstance(value, bytes):
        return value == raw
    if isinstance(value, datetime.datetime):
        if number >= 1 << 33:
            return value == datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds=number // 10)
        return any(value == datetime.datetime(y, 1, 1) + datetime.timedelta(seconds=number) for y in (1904, 1970))
    if isinstance(value, datetime.timedelta):
        # (of 100 nanoseconds, or of a millisecond)
        return any(abs(value - datetime.timedelta(microseconds=us)) <= datetime.timedelta(microseconds=1) for us in (number / 10, number * 1000))
    if isinstance(value, str) and code == "I":
        return value == ".".join("%u" % b for b in number.to_bytes(4, "big"))
    if code in "fd":
        number = struct.unpack(code, struct.pack(code, number))[0]
    return value == number or isinstance(value, float) and code in "bBhHiI" and any(value * (1 << k) == number for k in FIXED[size])


# The numbers of fixed point, by size: 8.8, 16.16, 2.30 bits
FIXED = {1: (), 2: (8,), 4: (16, 30)}
# The names of the fields of each number, by kind of file: {structure#index: [names]} (written by tools/layout.py, then compared with the
# specifications of the formats)
with open(os.path.join(os.path.dirname(__file__), "..", "vh", "layout.json")) as file:
    LAYOUT = json.load(file)
LEARN = None

# The numbers of which the bits are several fields: the first of these fields, by kind of file (path without the digits)
BITS = {
    "ani": r"/anim_hdr/is_icon", "asf": r"/header/content/(file_prop/content/broadcast|bit_rates/content/bit_rate\[\]/stream_index|stream_prop\[\]/content/(stream_index|encrypted))",
    "avi": r"/headers/avi_hdr/(reserved\[\]|has_index)", "cab": r"/(flags/has_previous|folder\[\]/compr_method|file\[\]/(timestamp/(day|hour|second)|attributes/readonly))",
    "elf": r"/(prg_header\[\]/flags/(padding\[\]|pf_x)|section_header\[\]/flags/(is_writable|reserved\[\]|processor_specific))",
    "lnk": r"/(\w+(\[\])?/)*(second|day|read_only|has_shell_id|on_local_volume|color_text|color_popup_text|hot_key_shift)",
    "mod": r"/pattern\[\]/row\[\]/note\[\]/(note_hi_nibble|note_low_nibble)",
    "m2ts": r"/packet\[\]/(c|has_error|scrambling_control)",
    "java": r"/(\w+(\[\])?/)*reserved\[\]",
    "pcap": r"/packet\[\]/(tcp/(hdrlen|cgst)|\w+/(version|precedence|reserved\[\]))",
    "fat": r"/root\[\]/entry\[\]/((modify|create|access)/(day|sec)|read_only)", "gif": r"/(screen/size_global_map|image\[\]/size_local_map)", "gzip": r"/reserved\[\]",
    "mp3": r"/frames/frame\[\]/sync", "mp4": r"/atom\[\]/movie/atom\[\]/track/atom\[\]/media/atom\[\]/media_hdr/language/padding\[\]",
    "movie": r"/atom\[\](/\w+(\[\])?)*/(tfra/reserved|media_hdr/language/padding\[\]|AVCConfig/reserved\[\]|track_hdr/flags|tenc/default_crypt_byte_block|decConfigDescr/streamType"
             r"|ES/streamDependenceFlag|reference\[\]/reference_type|reference\[\]/starts_with_SAP)",
    "ntfs": r"/file\[\]/(flags/in_use|attr\[\]/flags/compressed|(standard_info|filename)/file_attr/read_only)", "ogg": r"/page\[\]/segments/(theora_hdr/quality|vorbis_hdr/blocksize_)",
    "pe": r"/(pe_header/reloc_stripped|section_hdr\[\]/reserved\[\]|section_\w+/(root|directory(\[\])+)/(name|index)\[\]/\w+|section_\w+/version_info/node\[\]/value/\w+)",
    "png": r"/header/reserved", "python": r"/use_hash", "rm": r"/file_prop/reserved", "swf": r"/\w+\[\]/length_ext", "tga": r"/alpha_depth", "ttf": r"/header/(y0|adobe|reserved\[\])",
}
# The numbers read in another way (structure not parsed, text, fixed point)
OTHERWISE = {
    "aiff": r"/(common/sample_rate/\w+|comment(\[\])?/comment\[\]/text)", "asf": r"/header/content/reserved\[\]", "avi": r"/headers/stream\[\]/stream_hdr/language", "bmp": r"/reserved", "emf": r"/func\[\]/data", "fat": r"/sector\[\]", "ntfs": r"/file\[\]/data/data",
    "ext2": r"/group\[\]/inode\[\]block\[\]/rawdata", "mp3": r"/idv/extended_header/data",
    "msdos_harddrive": r"(/partition\[\])?/mbr(\[\])?/header\[\]/(start|end)_(sector|cylinder)", "ole2": r"/(property\[\]/size|\w+\[\]/rawdata)", "pe": r"/(section_hdr\[\]/reserved|section_\w+/version_info/node\[\]/value/\w+_ver(_\ws)?/minor|section_\w+/version_info/node\[\]/node\[\]/node\[\]/value)", "ra": r"/unknown", "ttf": r"/header/(created|modified)_high", "xcf": r"/property\[\]/data/parasite\[\]/data",
}


def kind_of(kind, table):
    return next((table[k] for k in (kind, kind.split("-")[0], kind.rstrip("0123456789")) if k in table), None)


def joined(fields, msb_first):
    """The number of which the bits are these fields"""
    n = 0
    shift = 0
    for f in (reversed(fields) if msb_first else fields):
        n |= int(f.value) << shift
        shift += f.size
    return n


def leaf(f):
    return re.sub(r"\[\d+\]", "[]", f.name)


def read_number(p, where, leaves, pos, size, code, number, kind):
    """The names of the fields of a number"""
    fields = [f for f in where.get((pos * 8, size * 8), ()) if f.hasValue()]
    raw = p.stream.readBytes(pos * 8, size)
    names = [leaf(f) for f in fields if same(code, number, size, f.value, raw)]
    if names:
        return "/".join(names)
    i = bisect.bisect_left(leaves, (pos * 8, 0))
    while i and leaves[i - 1][0] + leaves[i - 1][2].size > pos * 8:
        i -= 1
    near = []
    while i < len(leaves) and leaves[i][0] < (pos + size) * 8:
        near.append(leaves[i][2])
        i += 1
    paths = [re.sub(r"\d+", "", f.path) for f in near]
    path = paths[0] if paths else ""
    start = near[0].absolute_address if near else None
    known = kind_of(kind, BITS)
    if known and re.fullmatch(known, path):
        while start < pos * 8:
            # (padding before)
            start += near.pop(0).size
        ensure(start == pos * 8 and sum(f.size for f in near) == size * 8, "number %r (%s bytes at %s): bits of %s", number, size, pos, paths)
        number %= 1 << (size * 8)
        ensure(number in (joined(near, False), joined(near, True)), "number %r: bits of %s: %s", number, paths, [f.value for f in near])
        return "+".join("%s:%u" % (leaf(f), f.size) for f in near)
    known = kind_of(kind, OTHERWISE)
    ensure(known and re.fullmatch(known, path), "number %r (%s bytes at %s) is not a field: %s", number, size, pos,
           [(path, f.value) for path, f in zip(paths, near)][:4])
    return ""


def check_numbers(p, recorded, data, kind, rec):
    where = {}
    leaves = []
    for f in fields(p):
        where.setdefault((f.absolute_address, f.size), []).append(f)
        if f.size and not f.is_field_set:
            leaves.append((f.absolute_address, len(leaves), f))
    leaves.sort()
    count = 0
    layout = LAYOUT.get(kind, {})
    for key, pos, size, code, number in recorded.numbers(data):
        name = read_number(p, where, leaves, pos, size, code, number, kind)
        if name:
            count += 1
            ensure(name in layout.get(key, (name,)), "the number %r (%s bytes at %s, %s) is the field %r, not %s", number, size, pos, key, name, layout.get(key))
            if LEARN is not None:
                names = LEARN.setdefault(kind, {}).setdefault(key, {})
                names[name] = names.get(name, 0) + 1
    rec.label(kind)
    rec.nt(count >= 3)


@suite.sub("numbers", st.sampled_from(sorted(KINDS)).flatmap(lambda k: st.tuples(st.just(k), KINDS[k][0])), 5000, thorough=80000)
def numbers(case, rec):
    """Each number written in a picture, sound, video, archive or document is one field of this value"""
    kind, params = case
    with Numbers(MODULES) as recorded:
        m = KINDS[kind][1](params)
    with facts.BY_ID[m.parser](StringInputStream(m.data), validate=True) as p:
        check_numbers(p, recorded, m.data, kind, rec)


@suite.sub("numbers-disks", st.sampled_from(sorted(OTHERS)).flatmap(lambda k: st.tuples(st.just(k), OTHERS[k][0])), 1500, thorough=20000)
def numbers_disks(case, rec):
    """Each number written in a disk, an OLE2 document or a serialized value is one field of this value"""
    kind, params = case
    with Numbers((fs, ole2, plist, marsh, asn1), 10, 5) as recorded:
        data = OTHERS[kind][1](params)
    if data is None or kind == "asn1" and len(data) < 2:
        return
    with facts.BY_ID[kind](StringInputStream(data), validate=True) as p:
        check_numbers(p, recorded, data, kind, rec)
