"""C18: compressed content read through hachoir is exactly what was compressed."""
import bz2
import gzip
import hashlib
import io
import random
import struct
import zipfile
import zlib

from hypothesis import strategies as st

from vh import lz
from vh.core import Suite, ensure, eq, raises
from hachoir.parser import guessParser
from hachoir.parser.archive import CabFile, GzipParser, Bzip2Parser, ZipFile
from hachoir.parser.archive.lzx import lzx_decompress
from hachoir.parser.archive.zlib import ZlibData, zlib_inflate
from hachoir.parser.container.swf import SwfFile
from hachoir.parser.image.png import PngFile
from hachoir.parser.misc.git_pack import GitPackFile
from hachoir.stream import InputIOStream, InputStreamError, StringInputStream

suite = Suite("C18", rule="a case is content, how it is compressed (method, level, strategy, flushes, block types, Huffman codes) and laid out in a file, and "
              "the reads; non-trivial when the content is not stored as it is, or is over 4 KiB, or several contents are in the file")


class NoSeek(io.RawIOBase):
    def __init__(self):
        self.data = bytearray()

    def writable(self):
        return True

    def seekable(self):
        return False

    def write(self, d):
        self.data += bytes(d)
        return len(d)


ALPHABETS = [bytes(range(256)), b"ab", b"\0\1\2\3", b"the quick brown fox", b"\xe8\0\0\0\1\xff"]
SEED = st.integers(0, 2**32 - 1)
# (seed, alphabet, size, kind)
CONTENT = st.tuples(SEED, st.integers(0, len(ALPHABETS) - 1),
                    st.one_of(st.integers(0, 300), st.integers(0, 300), st.integers(300, 9000),
                              st.sampled_from([4095, 4096, 4097, 32767, 32768, 32769, 40000, 70000])), st.integers(0, 2))


def content(c):
    seed, a, size, kind = c
    rng = random.Random(seed)
    al = ALPHABETS[a]
    if kind == 0:
        return bytes(rng.choice(al) for _ in range(size))
    out = bytearray()
    if kind == 1:
        while len(out) < size:
            out += bytes([rng.choice(al)]) * rng.choice([1, 2, 3, 10, 300, 5000])
    else:
        while len(out) < size:
            if out and rng.random() < .7:
                a = rng.randrange(len(out))
                out += out[a:a + rng.randint(1, 400)]
            else:
                out += bytes(rng.choice(al) for _ in range(rng.randint(1, 60)))
    return bytes(out[:size])


READS = st.lists(st.tuples(st.integers(0, 10**6), st.sampled_from([1, 2, 7, 100, 4095, 4096, 4097, 30000])), max_size=5)
LEVEL = st.tuples(st.integers(0, 9), st.integers(0, 4), st.integers(1, 9), st.integers(9, 15),
                  st.lists(st.tuples(st.integers(1, 3000), st.sampled_from([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_PARTIAL_FLUSH, zlib.Z_NO_FLUSH])),
                           max_size=3))
BLOCKS = st.lists(st.tuples(st.integers(0, 2), st.one_of(st.integers(0, 30), st.integers(0, 30), st.integers(30, 300)),
                            st.integers(0, len(ALPHABETS) - 1)), min_size=1, max_size=4)
# how a zlib/deflate content is made: by zlib or by the generator of any valid stream
PACKED = st.one_of(st.tuples(st.just("zlib"), CONTENT, LEVEL), st.tuples(st.just("gen"), SEED, BLOCKS))


def deflated(spec):
    """(raw deflate data, content, window bits)"""
    if spec[0] == "gen":
        data, want = lz.deflate(random.Random(spec[1]), [(k, n, ALPHABETS[a]) for k, n, a in spec[2]])
        assert zlib.decompress(data, -15) == want
        return data, want, 15
    want = content(spec[1])
    level, strategy, mem, wbits, flushes = spec[2]
    c = zlib.compressobj(level, zlib.DEFLATED, -wbits, mem, strategy)
    out = b""
    pos = 0
    for n, mode in flushes:
        out += c.compress(want[pos:pos + n]) + c.flush(mode)
        pos += n
    out += c.compress(want[pos:]) + c.flush()
    return out, want, wbits


def zlibbed(spec):
    raw, want, wbits = deflated(spec)
    cmf = (wbits - 8) << 4 | 8
    flg = 0x80
    flg += -(cmf * 256 + flg) % 31
    return bytes([cmf, flg]) + raw + struct.pack(">I", zlib.adler32(want)), want


def check_content(field, want, reads, what, cls=None):
    s = field.getSubIStream()
    for a, n in reads:
        a %= len(want) + 3
        if a + n <= len(want):
            eq(s.readBytes(8 * a, n), want[a:a + n], "%s: %d bytes at %d of %d" % (what, n, a, len(want)))
        else:
            raises((InputStreamError,), lambda: s.readBytes(8 * a, n), "%s: %d bytes at %d of %d" % (what, n, a, len(want)))
    if not want:
        # an empty stream is an error of its own (NullStreamError)
        raises((InputStreamError,), lambda: s.readBytes(0, 1), "%s: byte of an empty content" % what)
        return
    eq(s.readBytes(0, len(want)), want, what)
    raises((InputStreamError,), lambda: s.readBytes(8 * len(want), 1), "%s: byte after the end" % what)
    eq(s.size, 8 * len(want), "%s: size" % what)
    f = s.file()
    eq(f.read(), want, "%s: as a file" % what)


def opened(cls, data, kind=0, tags=()):
    if kind == 0:
        s = StringInputStream(data, tags=list(tags))
    else:
        s = InputIOStream(io.BytesIO(data), tags=list(tags), source="file")
    p = cls(s)
    v = p.validate()
    ensure(v is True, "%s refused: %s", cls.__name__, v)
    return p


def interesting(rec, spec, want):
    rec.nt(spec[0] == "gen" or len(want) > 4096 or (len(want) > 20 and spec[2][0] > 0))
    rec.label("generated blocks" if spec[0] == "gen" else "zlib level 0" if spec[2][0] == 0 else "zlib")
    rec.label("over 32 KiB", len(want) > 32768)
    rec.label("empty", not want)


@suite.sub("deflate", st.one_of(st.tuples(st.just("gen"), SEED, BLOCKS),
                                st.tuples(st.just("zlib"), CONTENT.filter(lambda c: c[2] < 2000), LEVEL)), quick=1200, thorough=40000)
def deflate(spec, rec):
    # the zlib parser, which shows every code of the stream
    data, want = zlibbed(spec)
    if len(want) > 30000:
        return
    p = opened(ZlibData, data)
    eq(bytes(p["data"].uncompressed_data) if [f for f in p] else None, want, "inflated data")
    eq(bytes(zlib_inflate(StringInputStream(data))), want, "zlib_inflate()")
    eq(p["data_checksum"].absolute_address, 8 * (len(data) - 4), "address of the checksum")
    eq([f.name for f in p if "raw" in f.name], [], "unparsed fields")
    if spec[0] == "gen":
        eq([b["compression_type"].value for b in p["data"] if b.name.startswith("compressed_block")], [k for k, _, _ in spec[2]], "types of the blocks")
    interesting(rec, spec, want)


@suite.sub("gzip", st.tuples(PACKED, st.integers(0, 31), st.binary(min_size=1, max_size=20).map(lambda b: b.replace(b"\0", b"x")), READS,
                             st.integers(0, 1), st.sampled_from([None, "doc.gz", "a.b", ".gz"])), quick=1200, thorough=40000)
def gz(case, rec):
    spec, flags, name, reads, kind, tag = case
    raw, want, _ = deflated(spec)
    # hachoir guesses the type from flags that gzip never sets all together
    head = b"\x1f\x8b\x08" + bytes([flags]) + struct.pack("<I", 1234567) + b"\2\3"
    if flags & 4:
        head += struct.pack("<H", len(name)) + name
    if flags & 8:
        head += name + b"\0"
    if flags & 16:
        head += b"comment\0"
    if flags & 2:
        head += struct.pack("<H", zlib.crc32(head) & 0xffff)
    data = head + raw + struct.pack("<II", zlib.crc32(want), len(want))
    eq(gzip.decompress(data), want, "harness")
    p = opened(GzipParser, data, kind, [("filename", tag)] if tag else ())
    f = p["file"]
    eq((f.absolute_address, f.size), (8 * len(head), 8 * len(raw)), "place of the compressed data")
    check_content(f, want, reads, "content")
    eq(p["crc32"].value, zlib.crc32(want), "CRC")
    eq(p["size"].value, len(want), "size")
    names = [v for k, v in f.getSubIStream().tags if k == "filename"]
    if flags & 8:
        eq(names, [name.decode("latin-1")] if name else [], "name given to the content")
    elif tag and tag.endswith(".gz"):
        eq(names, [tag[:-3]] if tag[:-3] else [], "name given to the content")
    else:
        eq(names, [], "name given to the content")
    interesting(rec, spec, want)


@suite.sub("bzip2", st.tuples(CONTENT, st.integers(1, 9), READS, st.integers(0, 1), st.sampled_from([None, "doc.bz2", "x.bz", ".bz2"])),
           quick=500, thorough=15000)
def bzip2(case, rec):
    c, level, reads, kind, tag = case
    want = content(c)
    data = bz2.compress(want, level)
    p = opened(Bzip2Parser, data, kind, [("filename", tag)] if tag else ())
    f = p["file"]
    check_content(f, want, reads, "content")
    names = [v for k, v in f.getSubIStream().tags if k == "filename"]
    eq(names, [tag[:-4]] if tag and tag.endswith(".bz2") and tag[:-4] else [], "name given to the content")
    if len(data) < 1500:
        # every code of the stream is walked through up to the end marker
        ensure("/file/stream_end" in p, "end marker not found")
        crc = 0
        for b in f.array("block"):
            crc = ((crc << 1 | crc >> 31) ^ b["crc32"].value) & 0xffffffff
        eq(f["crc32"].value, crc, "CRC of the blocks and of the stream")
        eq([x.name for x in f if x.name.startswith(("raw", "unparsed"))], [], "unparsed fields")
        rec.label("walked")
    rec.nt(len(want) > 20)
    rec.label("over 32 KiB", len(want) > 32768)


ENTRY = st.tuples(PACKED, st.booleans(), st.sampled_from(["a", "d/b.txt", "\xe9", "\u4e2d.html", "c" * 40]), READS)


@suite.sub("zip", st.tuples(st.lists(ENTRY, min_size=1, max_size=4), st.sampled_from(["plain", "streamed", "python", "pystream"]), st.integers(0, 1),
                            st.randoms(use_true_random=False)), quick=1000, thorough=30000)
def zip_(case, rec):
    entries, how, kind, rnd = case
    wants = []
    if how.startswith("py"):
        out = io.BytesIO() if how == "python" else NoSeek()
        z = zipfile.ZipFile(out, "w")
        for spec, stored, name, reads in entries:
            want = deflated(spec)[1]
            info = zipfile.ZipInfo(name, (2001, 2, 3, 4, 5, 6))
            info.compress_type = 0 if stored else 8
            z.writestr(info, want)
            wants.append((want, stored, name, reads, None))
        z.close()
        data = bytes(out.getvalue() if how == "python" else out.data)
    else:
        data = b""
        cd = b""
        for n, (spec, stored, name, reads) in enumerate(entries):
            raw, want, _ = deflated(spec)
            if stored:
                raw = want
            if not raw and how == "plain":
                stored = True
            bname = name.encode()
            streamed = how == "streamed"
            fl = 0x800 | (8 if streamed else 0)
            common = struct.pack("<HHHHH", fl, 0 if stored else 8, 0x1234, 0x2345, 0)[:8]
            crc, cs, us = zlib.crc32(want), len(raw), len(want)
            cd += b"PK\1\2\x14\0\x14\0" + common + struct.pack("<IIIHHHHHII", crc, cs, us, len(bname), 0, 0, 0, 0, 0, len(data)) + bname
            if streamed:
                data += b"PK\3\4\x14\0" + common + struct.pack("<IIIHH", 0, 0, 0, len(bname), 0) + bname + raw
                data += b"PK\7\x08" + struct.pack("<III", crc, cs, us)
            else:
                data += b"PK\3\4\x14\0" + common + struct.pack("<IIIHH", crc, cs, us, len(bname), 0) + bname + raw
            wants.append((want, stored, name, reads, len(raw)))
        n = len(entries)
        data += cd + b"PK\5\6\0\0\0\0" + struct.pack("<HHIIH", n, n, len(cd), len(data), 0)
    p = opened(ZipFile, data, kind)
    files = list(p.array("file"))
    eq([f["filename"].value for f in files], [w[2] for w in wants], "names of the entries")
    order = list(range(len(files)))
    rnd.shuffle(order)
    for i in order:
        want, stored, name, reads, packed = wants[i]
        f = files[i]
        key = "data" if stored else "compressed_data"
        if key not in f:
            # no data at all
            eq(want, b"", "content of an entry without data")
            continue
        if packed is not None:
            eq(f[key].size, 8 * packed, "compressed size")
        if stored:
            eq(f[key].getSubIStream().readBytes(0, len(want)), want, "stored content of %s" % name)
            rec.label("stored")
        else:
            check_content(f[key], want, reads, "content of %s" % name)
    rec.label(how)
    rec.nt(len(entries) > 1 or len(wants[0][0]) > 4096)


@suite.sub("png", st.tuples(PACKED, st.lists(st.integers(1, 10**6), max_size=4), READS, st.integers(0, 1), st.booleans()),
           quick=800, thorough=20000)
def png(case, rec):
    spec, cuts, reads, kind, text = case
    packed, want = zlibbed(spec)

    def chunk(tag, body):
        return struct.pack(">I", len(body)) + tag + body + struct.pack(">I", zlib.crc32(tag + body))
    data = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", 3, 4, 8, 2, 0, 0, 0))
    if text:
        data += chunk(b"tEXt", b"Comment\0hello")
    marks = sorted({c % len(packed) for c in cuts} - {0}) + [len(packed)]
    pos = 0
    for m in marks:
        data += chunk(b"IDAT", packed[pos:m])
        pos = m
    data += chunk(b"IEND", b"")
    p = opened(PngFile, data, kind)
    check_content(p["data[0]/compressed_data"], want, reads, "image data")
    rec.label("%d IDAT" % min(3, len(marks)))
    interesting(rec, spec, want)


@suite.sub("swf", st.tuples(PACKED, READS, st.integers(0, 1), st.integers(6, 10)), quick=500, thorough=15000)
def swf(case, rec):
    spec, reads, kind, version = case
    packed, want = zlibbed(spec)
    if not want:
        return
    head = bytes([version]) + struct.pack("<I", len(want) + 8)
    p = opened(SwfFile, b"CWS" + head + packed, kind)
    check_content(p["compressed_data"], b"FWS" + head + want, reads, "uncompressed file")
    interesting(rec, spec, want)


@suite.sub("git", st.tuples(st.lists(st.tuples(st.sampled_from([1, 2, 3, 4, 6]), PACKED, READS, st.integers(1, 10**7)), min_size=1, max_size=4), st.integers(0, 1)),
           quick=600, thorough=15000)
def git(case, rec):
    objects, kind = case
    data = b"PACK" + struct.pack(">II", 2, len(objects))
    wants = []
    for typ, spec, reads, offset in objects:
        packed, want = zlibbed(spec)
        n = len(want)
        first = typ << 4 | (n & 15)
        n >>= 4
        head = []
        while n:
            head.append(n & 127)
            n >>= 7
        head = [first] + head
        head = bytes([b | 128 for b in head[:-1]] + head[-1:])
        if typ == 6:
            o = [offset & 127]
            o += [k & 127 for k in (offset >> 7, offset >> 14) if k]
            head += bytes([b | 128 for b in o[:-1]] + o[-1:])
        wants.append((want, reads, len(data) + len(head), len(packed), typ))
        data += head + packed
    data += hashlib.sha1(data).digest()
    p = opened(GitPackFile, data, kind)
    for i, (want, reads, addr, size, typ) in enumerate(wants):
        o = p["object[%d]" % i]
        eq((o["type_and_size/typ"].value, o["type_and_size"].decoded_size), (typ, len(want)), "header of object %d" % i)
        f = o["compressed_data"]
        eq((f.absolute_address, f.size), (8 * addr, 8 * size), "place of object %d" % i)
        check_content(f, want, reads, "object %d" % i)
    eq(p["checksum"].value, int.from_bytes(data[-20:], "big"), "checksum")
    rec.nt(len(objects) > 1 or len(wants[0][0]) > 20)


LZX_BLOCKS = st.lists(st.tuples(st.integers(1, 3), st.one_of(st.integers(0, 30), st.integers(0, 30), st.integers(30, 300)),
                                st.integers(0, len(ALPHABETS) - 1)), min_size=1, max_size=5)
FILESIZE = st.sampled_from([None, 1, 300, 70000, 2**31 - 1])


@suite.sub("lzx", st.tuples(SEED, LZX_BLOCKS, st.integers(15, 21), FILESIZE), quick=500, thorough=15000)
def lzx(case, rec):
    seed, blocks, level, filesize = case
    data, want, frames = lz.lzx(random.Random(seed), level, [(k, n, ALPHABETS[a]) for k, n, a in blocks], filesize)
    got = bytes(lzx_decompress(StringInputStream(data), level))
    eq(len(got), len(want), "size of the decompressed data")
    eq(got, want, "decompressed data (first difference at %s)" % next((i for i in range(len(want)) if got[i] != want[i]), None))
    rec.nt()
    rec.label("several frames", len(frames) > 1)
    rec.label("jump translation", filesize is not None and any(a == 4 for _, _, a in blocks))
    for k, _, _ in blocks:
        rec.label("block type %d" % k)


FOLDER = st.one_of(
    st.tuples(st.just(0), CONTENT, st.lists(st.integers(1, 9000), max_size=3)),
    st.tuples(st.just(1), SEED, st.lists(BLOCKS, min_size=1, max_size=3)),
    st.tuples(st.just(101), CONTENT, st.lists(st.integers(1, 9000), max_size=3)),
    st.tuples(st.just(3), SEED, LZX_BLOCKS, st.integers(15, 21), FILESIZE))


def folder(spec):
    """(method word, [(data, uncompressed size)], content)"""
    if spec[0] in (0, 101):
        want = content(spec[1][:2] + (min(spec[1][2], 36000 if spec[0] == 0 else 1500),) + spec[1][3:])
        marks = [0]
        for n in spec[2]:
            marks.append(min(len(want), marks[-1] + n))
        while marks[-1] < len(want):
            marks.append(min(len(want), marks[-1] + 32768))
        parts = [want[a:b] for a, b in zip(marks, marks[1:]) if b > a]
        if spec[0] == 0:
            return 0, [(p, len(p)) for p in parts], want
        res = []
        pos = 0
        for p in parts:
            c = zlib.compressobj(9, zlib.DEFLATED, -15, 1, 0, want[max(0, pos - 32768):pos]) if pos else zlib.compressobj(9, zlib.DEFLATED, -15, 1)
            res.append((b"CK" + c.compress(p) + c.flush(), len(p)))
            pos += len(p)
        return 1, res, want
    rng = random.Random(spec[1])
    if spec[0] == 1:
        out = bytearray()
        res = []
        for blocks in spec[2]:
            n = len(out)
            data, part = lz.deflate(rng, [(k, min(n, 80), ALPHABETS[a]) for k, n, a in blocks], out)
            if part:
                res.append((b"CK" + data, len(part)))
            else:
                # a block without data would be "continued in the next cabinet"
                del out[n:]
        return 1, res, bytes(out)
    data, want, frames = lz.lzx(rng, spec[3], [(k, min(n, 150), ALPHABETS[a]) for k, n, a in spec[2]], spec[4])
    res = []
    pos = 0
    for i, end in enumerate(frames):
        res.append((data[pos:end], min(32768, len(want) - 32768 * i)))
        pos = end
    return 3 | spec[3] << 8, res, want


@suite.sub("cab", st.tuples(st.lists(st.tuples(FOLDER, st.lists(st.integers(0, 10**6), max_size=3)), min_size=1, max_size=3), st.integers(0, 7),
                            st.randoms(use_true_random=False), READS, st.integers(0, 1)), quick=500, thorough=15000)
def cab(case, rec):
    folders, flags, rnd, reads, kind = case
    flags &= 4 | 3
    packed = [(folder(spec), cuts) for spec, cuts in folders]
    packed = [x for x in packed if x[0][1]]
    if not packed:
        return
    res_h, res_f, res_d = (5, 3, 2) if flags & 4 else (0, 0, 0)
    head = b""
    if flags & 4:
        head += struct.pack("<HBB", res_h, res_f, res_d) + b"h" * res_h
    if flags & 1:
        head += b"prev.cab\0disk 1\0"
    if flags & 2:
        head += b"next.cab\0disk 3\0"
    files = b""
    wants = []
    nfiles = 0
    for i, ((method, blocks, want), cuts) in enumerate(packed):
        marks = sorted({0, len(want)} | {c % (len(want) + 1) for c in cuts})
        parts = [(a, b) for a, b in zip(marks, marks[1:])]
        mine = []
        for a, b in parts:
            mine.append((a, want[a:b]))
        wants.append(mine)
    todo = [(i, a, p) for i, mine in enumerate(wants) for a, p in mine]
    rnd.shuffle(todo)
    for i, a, p in todo:
        files += struct.pack("<IIHHHH", len(p), a, i, 0x2345, 0x1234, 0x20) + b"file%d-%d\0" % (i, a)
        nfiles += 1
    off = 36 + len(head) + (8 + res_f) * len(packed)
    off_files = off
    off += len(files)
    data = b""
    places = list(range(len(packed)))
    rnd.shuffle(places)
    offsets = {}
    for i in places:
        offsets[i] = off + len(data)
        for body, size in packed[i][0][1]:
            data += struct.pack("<IHH", 0, len(body), size) + b"d" * res_d + body
        data += b"\0" * rnd.choice([0, 0, 3])
    table = b"".join(struct.pack("<IHH", offsets[i], len(packed[i][0][1]), packed[i][0][0]) + b"f" * res_f for i in range(len(packed)))
    body = head + table + files + data
    out = b"MSCF" + struct.pack("<IIIIIBBHHHHH", 0, 36 + len(body), 0, off_files, 0, 3, 1, len(packed), nfiles, flags, 77, 1) + body
    if any(len(b) > 65535 for (_, blocks, _), _ in packed for b, _ in blocks):
        return
    p = opened(CabFile, out, kind)
    for i in rnd.sample(range(len(packed)), len(packed)):
        (method, blocks, want), _ = packed[i]
        f = p["folder_data[%d]" % i]
        check_content(f, want, reads, "folder %d" % i)
        inner = guessParser(f.getSubIStream())
        ensure(inner is not None, "no parser for the folder %d", i)
        eq([(x.absolute_address, x.value) for x in inner.array("file")] if wants[i] else [], [(8 * a, part) for a, part in wants[i]], "files of the folder %d" % i)
        rec.label("method %d" % (method & 15))
    rec.nt(len(packed) > 1 or packed[0][0][0] != 0)
