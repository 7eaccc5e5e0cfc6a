"""Generated archives, with what is known of each one (see media.py)."""
import bz2
import datetime
import io
import stat
import tarfile
import zipfile
import zlib

from hypothesis import strategies as st

from vh import binary as struct
from vh.media import LATIN, SEED, WORD, Media, noise, strings

ARCHIVES = {}
NAME = st.text("abcdef_XYZ09 .-", min_size=1, max_size=12).map(lambda s: s.strip(" ") or "x")
MS_DATES = st.datetimes(datetime.datetime(1980, 1, 1), datetime.datetime(2029, 12, 31, 23, 59, 58)).map(lambda d: d.replace(microsecond=0, second=d.second & ~1))
# texts which look like parts of an archive
TRICKY = st.sampled_from([b"PK\3\4", b"PK\7\x08", b"PK\1\2", b"PK\5\6" + bytes(18), b"ustar  \0", b"\n", b"`\n", b"MSCF", b"!<arch>\n", bytes(512), b"CK"])
CONTENT = st.one_of(st.just([]), st.lists(TRICKY | st.tuples(SEED, st.integers(1, 300)), min_size=1, max_size=4))


def content(parts):
    return b"".join(p if isinstance(p, bytes) else noise(*p) for p in parts)


def kind(name, strategy):
    def deco(func):
        ARCHIVES[name] = (strategy, func)
        return func
    return deco


def cases(names=None):
    return st.one_of([st.tuples(st.just(n), ARCHIVES[n][0]) for n in (names or ARCHIVES)])


def build(case):
    m = ARCHIVES[case[0]][1](case[1])
    m.kind = case[0]
    return m


def msdos(d):
    return ((d.year - 1980) << 9 | d.month << 5 | d.day), (d.hour << 11 | d.minute << 5 | d.second // 2)


def rate(size, compressed):
    if not size or not compressed or not 0.001 <= size / compressed <= 1000:
        return []
    return [size / compressed]


# --- tar

TAR_TYPE = {"0": "Normal disk file", "\0": "Normal disk file (old format)", "1": "Link to previously dumped file", "2": "Symbolic link", "3": "Character special file", "4": "Block special file",
            "5": "Directory", "6": "FIFO special file", "7": "Contiguous file"}
TAR_ENTRY = st.tuples(st.sampled_from("000000\x001234567"), st.lists(st.tuples(NAME, st.integers(1, 4)), min_size=1, max_size=12), st.integers(0, 0o7777), st.integers(0, 0o7777777), st.integers(0, 0o7777777),
                      st.just(0) | st.integers(1, 1893000000), CONTENT, NAME, NAME)


@kind("tar", st.tuples(st.lists(TAR_ENTRY, min_size=1, max_size=9), st.sampled_from(["ustar", "gnu", "pax", "v7"]), st.integers(0, 3), st.booleans()))
def tar(p):
    entries, fmt, blocks, latin = p
    out = b""
    groups = []
    files = []
    for i, (typ, path, mode, uid, gid, mtime, parts, uname, gname) in enumerate(entries):
        names = [n * k for n, k in path]
        names = [n for n in names if n not in (".", "..")] or ["x"]
        names[0] = "%d%s" % (i, names[0])
        if latin:
            names[-1] += "\u00e9"
        name = "/".join(names)
        if fmt != "ustar":
            name = name[:99]
        name = name[:200].rstrip(" /") or "x"
        if typ == "5":
            name += "/"
        t = tarfile.TarInfo(name)
        t.type = (tarfile.AREGTYPE if typ == "\0" else typ.encode())
        data = content(parts) if typ in "0\x007" else b""
        t.size, t.mode, t.uid, t.gid, t.mtime, t.uname, t.gname = len(data), mode, uid, gid, mtime, uname, gname
        if typ in "12":
            t.linkname = "target"
        if typ in "34":
            t.devmajor, t.devminor = 3, 4
        try:
            raw = t.tobuf({"ustar": tarfile.USTAR_FORMAT, "gnu": tarfile.GNU_FORMAT, "pax": tarfile.PAX_FORMAT, "v7": tarfile.USTAR_FORMAT}[fmt], "iso-8859-1")
        except ValueError:
            # (the path can't be cut at a slash)
            continue
        if len(raw) != 512:
            continue
        if fmt == "v7":
            # the format before POSIX has no magic, no name of user
            raw = raw[:257] + bytes(255)
            raw = raw[:148] + b"%06o\0 " % (sum(raw[:148]) + 256 + sum(raw[156:])) + raw[156:]
            uname = gname = ""
        out += raw + data + bytes(-len(data) % 512)
        groups.append({"filename": [name], "file_attr": [attributes(mode)], "file_size": [len(data)], "file_type": [TAR_TYPE[typ]],
                       "last_modification": [datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=mtime)] if mtime else [],
                       "author": [("%s (uid=%s), group %s (gid=%s)" % (uname, uid, gname, gid)).strip()]})
        if data:
            files.append((name, data))
    if not groups:
        raw = tarfile.TarInfo("x").tobuf(tarfile.USTAR_FORMAT)
        out = raw
        groups.append({"filename": ["x"], "file_size": [0]})
    out += bytes(512 * (2 + blocks))
    return Media("tar", "tar", out, ".tar", {}, groups, files=files, magic=fmt == "gnu")


def attributes(mode):
    return "%s (%o)" % (stat.filemode(mode).replace("?", "-"), mode)


# --- zip

ZIP_METHODS = {0: "no compression", 8: "Deflate", 12: "File is compressed using BZIP2 algorithm", 14: "LZMA (EFS)"}
ZIP_ENTRY = st.tuples(st.one_of(NAME, NAME, NAME, st.text("a\u00e9\u4e2d\u20ac", min_size=1, max_size=5)), st.sampled_from([0, 0, 8, 8, 12, 14]), MS_DATES, CONTENT, st.booleans(), st.sampled_from([b"", b"", b"UT\5\0\0abcd", b"\xfe\xca\0\0"]),
                      st.none() | LATIN, st.integers(0, 9), st.sampled_from([False, False, False, True]))


class Pipe(io.RawIOBase):
    """Output which can't seek."""

    def __init__(self):
        self.data = bytearray()

    def writable(self):
        return True

    def write(self, b):
        self.data += bytes(b)
        return len(b)


@kind("zip", st.tuples(st.lists(ZIP_ENTRY, min_size=1, max_size=9), st.none() | WORD, st.booleans(), st.none() | st.tuples(st.sampled_from(["odt", "ods", "otp", "foreign"]), st.booleans())))
def zip_(p):
    entries, comment, pipe, office = p
    buf = Pipe() if pipe else io.BytesIO()
    groups = []
    files = []
    mime = "application/zip"
    with zipfile.ZipFile(buf, "w") as z:
        todo = []
        if office:
            mime = {"odt": "application/vnd.oasis.opendocument.text", "ods": "application/vnd.oasis.opendocument.spreadsheet", "otp": "application/vnd.oasis.opendocument.presentation-template",
                    "foreign": "application/x-foreign"}[office[0]]
            todo.append(("mimetype", 8 if office[1] else 0, datetime.datetime(2000, 1, 1), mime.encode(), False, b"", None, 6, False))
        for i, (name, method, when, parts, folder, extra, text, level, big) in enumerate(entries):
            todo.append(("%d/%s" % (i, name), method, when, content(parts), folder, extra, text, level, big))
        for name, method, when, data, folder, extra, text, level, big in todo:
            if pipe and method == 0:
                # (followed by null bytes, it would be the descriptor of an empty file)
                data = data.replace(b"PK\7\x08", b"PK\7\x08crc_size")
            if folder:
                name += "/"
                data = b""
                method = 0
            i = zipfile.ZipInfo(name, when.timetuple()[:6])
            i.compress_type = method
            if not pipe:
                i.extra = extra
            if text:
                i.comment = text.encode("latin1")
            if big and not folder:
                # with sizes on 64 bits
                with z.open(i, "w", force_zip64=True) as f:
                    f.write(data)
            else:
                z.writestr(i, data, compresslevel=max(level, 1) if method == 12 else level)
            fact = {"filename": [name], "creation_date": [when], "compression": [ZIP_METHODS[method]], "file_size": [len(data)], "compr_size": [i.compress_size] if i.compress_size else [],
                    "compr_rate": rate(len(data), i.compress_size)}
            groups.append(fact)
            if i.compress_size and method in (0, 8):
                files.append((name, data))
        if comment:
            z.comment = comment.encode("latin1")
    out = bytes(buf.data) if pipe else buf.getvalue()
    known = office[0] if office and office[0] != "foreign" else "zip"
    return Media("zip", "zip", out, ".zip", {"comment": strings([comment]) if comment else [], "mime_type": [mime]}, groups, files=files, magic=True, ext="." + known, mime=mime)


# --- gzip, bzip2

GZIP_OS = {0: "FAT filesystem", 3: "Unix", 7: "Macintosh", 11: "NTFS filesystem (NT)", 255: None}


@kind("gzip", st.tuples(CONTENT, st.integers(0, 9), st.just(0) | st.integers(1, 1893000000), st.sampled_from([0, 2, 4]), st.sampled_from(sorted(GZIP_OS)), st.none() | st.binary(max_size=9), st.none() | LATIN, st.none() | LATIN,
                        st.booleans(), st.booleans()))
def gzip_(p):
    parts, level, mtime, xfl, system, extra, name, comment, crc, text = p
    data = content(parts)
    flags = text | crc << 1 | (extra is not None) << 2 | (name is not None) << 3 | (comment is not None) << 4
    out = b"\x1f\x8b\x08" + bytes([flags]) + struct.pack("<IBB", mtime, xfl, system)
    if extra is not None:
        out += struct.pack("<H", len(extra)) + extra
    if name is not None:
        out += name.encode("latin1") + b"\0"
    if comment is not None:
        out += comment.encode("latin1") + b"\0"
    if crc:
        out += struct.pack("<H", zlib.crc32(out) & 0xffff)
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    body = c.compress(data) + c.flush()
    out += body + struct.pack("<II", zlib.crc32(data), len(data))
    facts = {"compression": ["deflate"], "last_modification": [datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=mtime)] if mtime else [], "filename": [name] if name else [],
             "comment": strings([comment]) if comment else [], "compr_size": [len(body)], "file_size": [len(data)], "compr_rate": rate(len(data), len(body))}
    if GZIP_OS[system]:
        facts["os"] = [GZIP_OS[system]]
    return Media("gzip", "gzip", out, ".gz", facts, files=[(name, data)], magic=True)


@kind("bzip2", st.tuples(CONTENT, st.integers(1, 9)))
def bzip2(p):
    parts, level = p
    data = content(parts)
    out = bz2.compress(data, level)
    return Media("bzip2", "bzip2", out, ".bz2", {"compr_size": [len(out) - 4]}, files=[(None, data)], magic=True)


# --- Microsoft cabinet

CAB_FLAGS = ["readonly", "hidden", "system", "archive", "exec"]
CAB_BITS = {"readonly": 1, "hidden": 2, "system": 4, "archive": 0x20, "exec": 0x40}
CAB_FILE = st.tuples(NAME, MS_DATES, CONTENT, st.sets(st.sampled_from(CAB_FLAGS)), st.booleans())
CAB_FOLDER = st.tuples(st.sampled_from([0, 1, 1]), st.lists(CAB_FILE, min_size=1, max_size=4), st.integers(1, 700), st.integers(0, 9))


@kind("cab", st.tuples(st.lists(CAB_FOLDER, min_size=1, max_size=3), st.none() | st.tuples(st.integers(0, 5), st.integers(0, 5), st.integers(0, 5)), st.none() | NAME, st.none() | NAME, st.integers(0, 9), st.booleans()))
def cab(p):
    folders, reserved, before, after, pad, backwards = p
    groups = []
    entries = b""
    datas = []
    contents = []
    for i, (method, files, block, level) in enumerate(folders):
        whole = b""
        for name, when, parts, flags, utf in files:
            name = "%d%s" % (len(groups), name)
            if utf:
                name += "\u00e9\u4e2d"
            data = content(parts)
            bits = sum(CAB_BITS[f] for f in flags) | (0x80 if utf else 0)
            entries += struct.pack("<IIHHHH", len(data), len(whole), i, *msdos(when), bits) + name.encode() + b"\0"
            whole += data
            groups.append({"filename": [name], "file_size": [len(data)], "creation_date": [when], "file_attr": [", ".join(f for f in CAB_FLAGS if f in flags)] if flags else []})
        blocks = []
        last = b""
        for pos in range(0, len(whole), block):
            part = whole[pos:pos + block]
            raw = part
            if method == 1:
                # each block is compressed with the last 32 KB before it
                c = zlib.compressobj(level, zlib.DEFLATED, -15, zdict=last[-32768:]) if last else zlib.compressobj(level, zlib.DEFLATED, -15)
                raw = b"CK" + c.compress(part) + c.flush()
                last += part
            extra = reserved[2] if reserved else 0
            blocks.append(struct.pack("<IHH", 0, len(raw), len(part)) + b"\xaa" * extra + raw)
        datas.append(blocks)
        contents.append(whole)
    flags = (1 if before else 0) | (2 if after else 0) | (4 if reserved else 0)
    head = b""
    if reserved:
        head += struct.pack("<HBB", *reserved) + b"\xaa" * reserved[0]
    for name in (before, after):
        if name:
            head += name.encode() + b"\0disk\0"
    size = 36 + len(head) + len(folders) * (8 + (reserved[1] if reserved else 0))
    off_files = size
    size += len(entries) + pad
    # the data of the folders may be in any order
    order = list(range(len(folders)))
    if backwards:
        order.reverse()
    offsets = {}
    data = b""
    for i in order:
        offsets[i] = size + len(data)
        data += b"".join(datas[i])
    out = b"".join(struct.pack("<IHH", offsets[i], len(datas[i]), folders[i][0]) + b"\xaa" * (reserved[1] if reserved else 0) for i in range(len(folders)))
    out = head + out + entries + b"\x99" * pad + data
    out = b"MSCF" + struct.pack("<IIIIIBBHHHHH", 0, 36 + len(out), 0, off_files, 0, 3, 1, len(folders), len(groups), flags, 7, 1 if before else 0) + out
    facts = {"compression": [["Uncompressed", "Deflate"][folders[0][0]]], "format_version": ["Microsoft Cabinet version 1.3"], "comment": ["%u folders, %u files" % (len(folders), len(groups))]}
    return Media("cab", "cab", out, ".cab", facts, groups, folders=contents, magic=True)


# --- Microsoft archive (MAR), Unix archive

@kind("mar", st.tuples(st.lists(st.tuples(st.text("abc.XYZ_", min_size=1, max_size=50), CONTENT), min_size=1, max_size=9), st.integers(0, 5), st.booleans()))
def mar(p):
    entries, pad, backwards = p
    groups = []
    files = []
    pos = 12 + 68 * len(entries)
    index = {}
    body = b""
    rows = list(enumerate(entries))
    if backwards:
        rows.reverse()
    for i, (name, parts) in rows:
        name = "%d%s" % (i, name)
        data = content(parts)
        body += b"\x99" * pad
        index[i] = name.encode().ljust(56, b"\0") + struct.pack("<III", len(data), zlib.crc32(data), pos + len(body))
        body += data
        if data:
            files.append((name, data))
    for i, (name, parts) in enumerate(entries):
        groups.append({"filename": ["%d%s" % (i, name)], "compression": ["None"], "file_size": [len(content(parts))]})
    out = b"MARC" + struct.pack("<II", 3, len(entries)) + b"".join(index[i] for i in range(len(entries))) + body
    if len(out) < 80:
        out += b"\x99" * (80 - len(out))
    return Media("mar", "mar", out, ".mar", {"comment": ["Contains %s files" % len(entries)], "format_version": ["Microsoft Archive version 3"]}, groups, files=files, magic=True)


@kind("ar", st.tuples(st.lists(st.tuples(st.text("abc.XYZ_", min_size=1, max_size=12), CONTENT, st.integers(0, 2**31), st.integers(0, 0o777), st.booleans()), min_size=1, max_size=6)))
def ar(p):
    out = b"!<arch>\n"
    files = []
    for i, (name, parts, mtime, mode, slash) in enumerate(p[0]):
        data = content(parts)
        name = "%d%s" % (i, name) + ("/" if slash else "")
        out += b"%-16s%-12d%-6d%-6d%-8o%-10d`\n" % (name.encode(), mtime, 0, 0, mode, len(data)) + data + (b"\n" if len(data) % 2 else b"")
        files.append((name, data))
    return Media("ar", "unix_archive", out, ".a", {}, files=files, magic=True, nometa=True)
