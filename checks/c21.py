"""C21: strip removes what was asked and nothing else."""
import contextlib
import io
import os
import struct
import sys
import tarfile
import tempfile
import zlib
from unittest import mock

from hypothesis import strategies as st

from vh import corpus
from vh.core import Suite, ensure, eq
from hachoir import strip
from hachoir.editor import createEditor
from hachoir.parser.archive import TarFile
from hachoir.parser.audio import AuFile, MpegAudioFile
from hachoir.parser.container import RiffFile
from hachoir.parser.image import JpegFile, PngFile
from hachoir.stream import StringInputStream, StringOutputStream

suite = Suite("C21", rule="a case is a generated file and a set of things to strip; non-trivial when the file has something to remove and something to keep "
              "of the same kind, or the removal changes a size or a checksum")
U, M, I = strip.STRIP_USELESS, strip.STRIP_METADATA, strip.STRIP_INDEX
LEVEL = st.one_of(st.integers(1, 7), st.just(7), st.just(M))
STRIPPER = {PngFile: strip.PngStripper, JpegFile: strip.JpegStripper, MpegAudioFile: strip.MpegAudioStripper, AuFile: strip.AuStripper,
            RiffFile: strip.RiffStripper, TarFile: strip.TarStripper}


def run(cls, data, level):
    """(is dirty, bits removed, file saved or None)"""
    p = cls(StringInputStream(data))
    editor = createEditor(p)
    s = strip.strippers[cls](editor, level)
    dirty = s()
    out = StringOutputStream()
    editor.writeInto(out)
    return dirty, s.stripped_bytes, out._output.getvalue()


def check(cls, data, level, want, rec):
    ensure(strip.strippers.get(cls) is STRIPPER[cls], "stripper of %s", cls)
    dirty, bits, out = run(cls, data, level)
    eq(bool(dirty), want != data, "file touched")
    eq(bits, 8 * (len(data) - len(want)), "bits removed")
    if dirty:
        eq(out, want, "file saved")
        dirty, bits, again = run(cls, want, level)
        eq((bool(dirty), bits), (False, 0), "second strip")


# ---- PNG

def png_chunk(tag, content):
    return struct.pack(">I", len(content)) + tag + content + struct.pack(">I", zlib.crc32(tag + content))


KEY = st.sampled_from([b"Author", b"Comment", b"Software", b"k"])
PNG_CHUNK = st.one_of(
    st.tuples(st.just(b"tEXt"), st.tuples(KEY, st.binary(min_size=1, max_size=9)).map(lambda t: t[0] + b"\0" + t[1].replace(b"\0", b"."))),
    st.tuples(st.just(b"zTXt"), st.binary(min_size=1, max_size=9).map(lambda b: b"Title\0\0" + zlib.compress(b))),
    st.tuples(st.just(b"iTXt"), st.binary(min_size=1, max_size=9).map(lambda b: b"Title\0\0\0en\0Titre\0" + b)),
    st.tuples(st.just(b"tIME"), st.tuples(st.integers(1980, 2100), st.integers(1, 12), st.integers(1, 28)).map(lambda t: struct.pack(">HBBBBB", *t, 1, 2, 3))),
    st.tuples(st.just(b"gAMA"), st.just(b"\0\0\xb1\x8f")),
    st.tuples(st.just(b"pHYs"), st.just(b"\0\0\x0b\x13\0\0\x0b\x13\x01")),
    st.tuples(st.just(b"bKGD"), st.just(b"\0\1\0\2\0\3")),
    st.tuples(st.sampled_from([b"prIv", b"vpAg", b"tEXx"]), st.binary(max_size=6)),
    st.tuples(st.just(b"IDAT"), st.binary(min_size=1, max_size=30)),
)


def png(chunks):
    out = b"\x89PNG\r\n\x1a\n" + png_chunk(b"IHDR", struct.pack(">IIBBBBB", 4, 4, 8, 2, 0, 0, 0))
    for tag, content in chunks:
        out += png_chunk(tag, content)
    return out + png_chunk(b"IEND", b"")


def png_want(chunks, level):
    gone = (b"tEXt", b"zTXt", b"iTXt", b"tIME") if level & M else ()
    return png([c for c in chunks if c[0] not in gone])


@suite.sub("png", st.tuples(st.lists(PNG_CHUNK, max_size=8), LEVEL), quick=1500, thorough=20000)
def png_strip(case, rec):
    chunks, level = case
    want = png_want(chunks, level)
    data = png(chunks)
    rec.nt(want != data and want != png([]))
    check(PngFile, data, level, want, rec)


# ---- JPEG

def jpeg_parts(data):
    """Segments before the image of a JPEG file, the rest."""
    assert data[:2] == b"\xff\xd8"
    pos = 2
    parts = []
    while data[pos + 1] not in (0xda, 0xd9):
        n = struct.unpack(">H", data[pos + 2:pos + 4])[0] + 2
        parts.append(data[pos:pos + n])
        pos += n
    return parts, data[pos:]


JPEGS = [n for n in corpus.names(150000) if corpus.data(n)[:3] == b"\xff\xd8\xff"]
SEG = st.one_of(
    st.tuples(st.just(0xfe), st.binary(min_size=1, max_size=20)),
    st.tuples(st.just(0xe1), st.binary(max_size=8).map(lambda b: b"Exif\0\0II*\0\x08\0\0\0\0\0\0\0\0\0" + b)),
    st.tuples(st.just(0xed), st.just(b"Photoshop 3.0\0")),
    st.tuples(st.just(0xee), st.just(b"Adobe\0\x64\0\0\0\0\1")),
    st.tuples(st.just(0xe2), st.binary(min_size=1, max_size=9).map(lambda b: b"ICC_PROFILE\0\1\1" + b)),
    st.tuples(st.sampled_from([0xe3, 0xe5, 0xef]), st.binary(min_size=1, max_size=20)),
)
SEGS = st.lists(st.tuples(st.integers(1, 40), SEG), max_size=5)


def jpeg(case):
    name, segs = case
    parts, tail = jpeg_parts(corpus.data(name))
    for pos, (tag, content) in segs:
        # not in the first two: the parser looks at them
        i = 2 + pos % (len(parts) - 1) if len(parts) > 2 else len(parts)
        parts.insert(i, b"\xff" + bytes([tag]) + struct.pack(">H", len(content) + 2) + content)
    return parts, tail


def jpeg_want(parts, tail, level):
    def gone(p):
        return level & M and (p[1] in (0xfe, 0xed, 0xee) or p[1] == 0xe1 and p[4:10] == b"Exif\0\0")
    return b"\xff\xd8" + b"".join(p for p in parts if not gone(p)) + tail


@suite.sub("jpeg", st.tuples(st.sampled_from(JPEGS), SEGS, LEVEL), quick=300, thorough=5000)
def jpeg_strip(case, rec):
    parts, tail = jpeg(case[:2])
    data = b"\xff\xd8" + b"".join(parts) + tail
    want = jpeg_want(parts, tail, case[2])
    rec.nt(want != data and bool(case[1]))
    check(JpegFile, data, case[2], want, rec)


# ---- MPEG audio

def id3v2(size, ver):
    body = b"TIT2" + (struct.pack(">I", 4) if ver == 3 else b"\0\0\0\4") + b"\0\0" + b"\0abc" + bytes(size)
    n = len(body)
    return b"ID3" + bytes([ver, 0, 0]) + bytes([n >> 21 & 127, n >> 14 & 127, n >> 7 & 127, n & 127]) + body


def frames(pads):
    return b"".join(b"\xff\xfb" + (b"\x92" if p else b"\x90") + b"\x00" + bytes([i % 250]) * (413 + p) for i, p in enumerate(pads))


MP3 = st.tuples(st.one_of(st.none(), st.tuples(st.integers(0, 300), st.sampled_from([3, 4]))), st.lists(st.integers(0, 1), min_size=1, max_size=6), st.booleans())


def mp3(case):
    tag2, pads, tag1 = case
    a = id3v2(*tag2) if tag2 else b""
    c = b"TAG" + b"title".ljust(30, b"\0") + bytes(95) if tag1 else b""
    return a, frames(pads), c


@suite.sub("mp3", st.tuples(MP3, LEVEL), quick=600, thorough=10000)
def mp3_strip(case, rec):
    a, b, c = mp3(case[0])
    want = b if case[1] & M else a + b + c
    rec.nt(bool(a and c and case[1] & M))
    check(MpegAudioFile, a + b + c, case[1], want, rec)


# ---- AU

AU = st.tuples(st.one_of(st.just(b""), st.binary(min_size=1, max_size=40)), st.binary(min_size=1, max_size=60), st.integers(0, 5), st.sampled_from([1, 2, 3, 27]))


def au(case, info):
    _, content, extra, codec = case
    return struct.pack(">4sIIIII", b".snd", 24 + len(info), len(content), codec, 8000, 1) + info + content + bytes(range(extra))


@suite.sub("au", st.tuples(AU, LEVEL), quick=600, thorough=10000)
def au_strip(case, rec):
    a, level = case
    check(AuFile, au(a, a[0]), level, au(a, b"" if level & M else a[0]), rec)
    rec.nt(bool(a[0]) and bool(level & M) and a[2] > 0)


# ---- RIFF

LEAFTAG = st.one_of(st.sampled_from([b"JUNK", b"JUNK", b"fact", b"data", b"INAM", b"ISFT", b"strf", b"abcd", b"JUNX", b"NK  ", b"idx1"]), st.sampled_from([b"00dc", b"LISU"]))
LEAF = st.tuples(LEAFTAG, st.one_of(st.binary(min_size=1, max_size=9), st.binary(min_size=16, max_size=16)))
INFO = st.tuples(st.just(b"LIST"), st.just(b"INFO"), st.lists(st.tuples(st.sampled_from([b"INAM", b"ISFT", b"ICRD"]), st.binary(min_size=1, max_size=9)), min_size=1, max_size=3))
CHUNK = st.recursive(LEAF | INFO, lambda c: st.tuples(st.just(b"LIST"), st.sampled_from([b"strl", b"odml", b"adtl", b"abcd"]), st.lists(c, min_size=1, max_size=4)), max_leaves=6)
RIFF = st.tuples(st.sampled_from([b"WAVE", b"WAVE", b"AVI ", b"AVI ", b"ACON", b"CDDA"]), st.lists(CHUNK, max_size=5), st.lists(LEAF, max_size=3),
                 st.integers(0, 6), st.integers(0, 2**32 - 1))


def ser(c):
    content = c[1] + b"".join(ser(x) for x in c[2]) if c[0] == b"LIST" else c[1]
    return c[0] + struct.pack("<I", len(content)) + content + bytes(len(content) % 2)


def riff_chunks(case):
    kind, chunks, movie, extra, flags = case
    if kind == b"WAVE":
        return [(b"fmt ", struct.pack("<HHIIHH", 1, 1, 8000, 8000, 1, 8))] + chunks + [(b"data", b"12345")]
    if kind == b"AVI ":
        head = (b"LIST", b"hdrl", [(b"avih", struct.pack("<IIIIIII", 40000, 0, 0, flags, 3, 0, 1) + bytes(28))] + chunks[:2])
        return [head, (b"LIST", b"movi", movie)] + chunks[2:] if movie else [head] + chunks[2:]
    if kind == b"ACON":
        return [(b"anih", struct.pack("<9I", 36, 1, 1, 0, 0, 0, 0, 1, 1))] + chunks
    return [(b"fmt ", bytes(24))] + chunks


def riff_kept(chunks, kind, level):
    out = []
    for c in chunks:
        if c[0] == b"LIST":
            if c[1] == b"INFO" and level & M:
                continue
            if c[1] != b"movi":
                c = (c[0], c[1], riff_kept(c[2], kind, level))
        elif c[0] == b"JUNK" and level & U or c[0] == b"fact" and kind == b"WAVE" and level & U or c[0] == b"idx1" and kind == b"AVI " and level & I:
            continue
        out.append(c)
    return out


def riff(case, chunks):
    body = case[0] + b"".join(ser(c) for c in chunks)
    return b"RIFF" + struct.pack("<I", len(body)) + body + bytes(range(1, case[3] + 1))


def riff_want(case, level):
    chunks = riff_chunks(case)
    data = riff(case, chunks)
    want = riff(case, riff_kept(chunks, case[0], level))
    if want != data and case[0] == b"AVI " and level & I:
        # no more index
        i = want.index(b"avih")
        want = want[:i + 8 + 12] + bytes([want[i + 20] & ~16]) + want[i + 21:]
    return data, want


@suite.sub("riff", st.tuples(RIFF, LEVEL), quick=2500, thorough=60000)
def riff_strip(case, rec):
    r, level = case
    data, want = riff_want(r, level)
    rec.nt(want != data and any(c[0] == b"LIST" and c[1] != b"INFO" for c in riff_kept(r[1], r[0], level)))
    rec.label(r[0].decode())
    check(RiffFile, data, level, want, rec)


# ---- TAR

TARS = st.tuples(st.sampled_from([tarfile.USTAR_FORMAT, tarfile.GNU_FORMAT, tarfile.PAX_FORMAT]), st.lists(
    st.tuples(st.text("abc\u00e9/", min_size=1, max_size=10), st.sampled_from([0, 0, 0, 2, 5, 1]), st.binary(max_size=600), st.integers(0, 2**21 - 1),
              st.integers(0, 2**33 - 1), st.text("uv\u00e9", max_size=8), st.integers(0, 0o7777)), min_size=1, max_size=4))
TYPES = {0: tarfile.REGTYPE, 1: tarfile.LNKTYPE, 2: tarfile.SYMTYPE, 5: tarfile.DIRTYPE}


def tar(case):
    fmt, entries = case
    buf = io.BytesIO()
    t = tarfile.open(fileobj=buf, mode="w", format=fmt)
    for n, (name, kind, content, uid, mtime, user, mode) in enumerate(entries):
        i = tarfile.TarInfo("%d%s" % (n, name))
        i.type = TYPES[kind]
        i.uid, i.gid, i.mtime, i.uname, i.gname, i.mode = uid, uid // 2, mtime, user, user[::-1], mode
        if kind == 0:
            i.size = len(content)
        elif kind in (1, 2):
            i.linkname = "target"
        t.addfile(i, io.BytesIO(content) if kind == 0 else None)
    t.close()
    return buf.getvalue()


def tar_check(data, out, fmt):
    eq(len(out), len(data), "size of the archive")
    pos = 0
    blank = {108: b"0000000\0", 116: b"0000000\0", 136: b"00000000000\0", 265: bytes(32), 297: bytes(32)}
    while data[pos:pos + 512].strip(b"\0"):
        head = bytearray(data[pos:pos + 512])
        for k, v in blank.items():
            head[k:k + len(v)] = v
        head[148:156] = b" " * 8
        got = bytearray(out[pos:pos + 512])
        total = got[148:156].rstrip(b" \0")
        eq(int(total, 8), sum(head), "checksum at %d" % pos)
        got[148:156] = b" " * 8
        eq(bytes(got), bytes(head), "header at %d" % pos)
        n = int(data[pos + 124:pos + 136].rstrip(b" \0") or b"0", 8)
        n = (n + 511) // 512 * 512 + 512
        eq(out[pos + 512:pos + n], data[pos + 512:pos + n], "content at %d" % pos)
        pos += n
    eq(out[pos:], data[pos:], "end of the archive")
    if fmt != tarfile.PAX_FORMAT:
        a = tarfile.open(fileobj=io.BytesIO(data)).getmembers()
        for m, w in zip(tarfile.open(fileobj=io.BytesIO(out)).getmembers(), a):
            eq((m.name, m.size, m.type, m.mode, m.linkname), (w.name, w.size, w.type, w.mode, w.linkname), "entry")
            eq((m.uid, m.gid, m.mtime, m.uname, m.gname), (0, 0, 0, "", ""), "owner and time")


@suite.sub("tar", st.tuples(TARS, LEVEL), quick=250, thorough=5000)
def tar_strip(case, rec):
    data = tar(case[0])
    dirty, _, out = run(TarFile, data, case[1])
    ensure(dirty, "archive not touched")
    tar_check(data, out, case[0][0])
    rec.nt(len(case[0][1]) > 1)


# ---- the program

FILE = st.one_of(
    st.tuples(st.just("png"), st.lists(PNG_CHUNK, max_size=4)), st.tuples(st.just("riff"), RIFF), st.tuples(st.just("mp3"), MP3),
    st.tuples(st.just("au"), AU), st.tuples(st.just("tar"), TARS), st.tuples(st.just("other"), st.just(None)))


def build(kind, c, level):
    if kind == "png":
        return png(c), png_want(c, level)
    if kind == "riff":
        return riff_want(c, level)
    if kind == "mp3":
        a, b, d = mp3(c)
        return a + b + d, b if level & M else a + b + d
    if kind == "au":
        return au(c, c[0]), au(c, b"" if level & M else c[0])
    if kind == "tar":
        return tar(c), None
    return b"\x1f\x8b\x08\0\0\0\0\0\0\x03\x03\0\0\0\0\0\0\0\0\0", None


@suite.sub("program", st.tuples(st.lists(FILE, min_size=1, max_size=3), st.one_of(st.integers(0, 7), st.none()), st.booleans()), quick=250, thorough=4000)
def program(case, rec):
    files, level, spaces = case
    names = {U: "useless", M: "metadata", I: "index"}
    args = [] if level is None else ["--strip=" + (", " if spaces else ",").join(v for k, v in names.items() if level & k)]
    real = 7 if level is None else level
    with tempfile.TemporaryDirectory(prefix="c21") as d:
        paths, datas, wants = [], [], []
        for i, (kind, c) in enumerate(files):
            data, want = build(kind, c, real)
            paths.append(os.path.join(d, "%d.%s" % (i, {"riff": "wav", "other": "gz"}.get(kind, kind))))
            datas.append(data)
            wants.append(want)
            with open(paths[-1], "wb") as f:
                f.write(data)
        out = io.StringIO()
        code = None
        with mock.patch.object(sys, "argv", ["hachoir-strip"] + args + paths), contextlib.redirect_stdout(out):
            try:
                strip.main()
            except SystemExit as e:
                code = e.code
        text = out.getvalue()
        for (kind, c), path, data, want in zip(files, paths, datas, wants):
            with open(path, "rb") as f:
                eq(f.read(), data, "original file (%s)" % kind)
            new = None
            if os.path.exists(path + ".new"):
                with open(path + ".new", "rb") as f:
                    new = f.read()
            if not real or kind == "other":
                eq(new, None, "file written for %s" % kind)
            elif kind == "tar":
                tar_check(data, new, c[0])
            elif want == data:
                eq(new, None, "file written without change for %s" % kind)
            else:
                eq(new, want, "file written for %s" % kind)
                rec.nt()
        if not real:
            eq(code, 0, "exit status")
        else:
            eq(code, 1 if any(k == "other" for k, c in files) else 0, "exit status")
        written = sum(os.path.exists(p + ".new") for p in paths)
        eq(text.count("Save new file into "), written, "messages")
