"""Generated well-formed files of many formats, with what is known of each one.

A case is (kind, parameters), plain data.  build(case) gives a Media: the bytes, the identifier of the parser, and what a reader of the file
must find in it (`facts`: metadata key -> list of values).
"""
import bz2
import gzip
import io
import random
import tarfile
import zipfile
import zlib

from hypothesis import strategies as st

from vh import binary as struct


class Media:
    def __init__(self, kind, parser, data, suffix, facts=(), groups=(), **kw):
        self.kind = kind
        self.parser = parser
        self.data = data
        self.suffix = suffix
        self.facts = dict(facts)
        self.groups = list(groups)      # facts of the sub-documents
        self.values = {}                # of some fields, by path
        self.told = {}                  # start of the description of some fields, by path
        self.shown = {}                 # display of some fields, by path
        self.complete = True            # the content size is known
        self.__dict__.update(kw)


KINDS = {}


def kind(name, strategy):
    def deco(func):
        KINDS[name] = (strategy, func)
        return func
    return deco


def cases(names=None):
    return st.one_of([st.tuples(st.just(n), KINDS[n][0]) for n in (names or KINDS)])


def build(case):
    m = KINDS[case[0]][1](case[1])
    m.kind = case[0]
    return m


SEED = st.integers(0, 2**32 - 1)
DIM = st.one_of(st.integers(1, 16), st.integers(1, 16), st.sampled_from([31, 32, 33, 127, 128, 255, 256, 257, 640]))
WORD = st.text("abcdefgh XYZ.-_09", min_size=1, max_size=14).map(lambda s: (s.strip(" ") or "x"))
LATIN = st.text("abc XYZ.-_09\u00e9\u00fc\u00a9", min_size=1, max_size=14).map(lambda s: (s.strip(" ") or "x"))


def noise(seed, n):
    """Bytes without any signature of a known format."""
    rng = random.Random(seed)
    return bytes(rng.choice(b"\x81\x92qwxv\xa3\xb4") for _ in range(n))


# --- images

def per_metre(value):
    n = round(value * 0.0254)
    return [n] if n else []


def png_chunk(tag, content):
    return struct.pack(">I", len(content)) + tag + content + struct.pack(">I", zlib.crc32(tag + content))


PNG_TYPES = [(0, 1), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16)]
PNG_COMPONENTS = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}
DATE = st.tuples(st.integers(1980, 2029), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59))


@kind("png", st.tuples(DIM, DIM, st.sampled_from(PNG_TYPES), st.integers(1, 16), st.booleans(), st.none() | DATE, st.none() | st.tuples(st.integers(1, 9000), st.integers(1, 9000)),
                       st.lists(st.tuples(st.sampled_from(["Comment", "comment", "Software", "Author", "Title"]), LATIN), max_size=3), st.integers(1, 3), SEED))
def png(p):
    w, h, (color, depth), ncol, trns, date, dpi, texts, ndata, seed = p
    bpp = PNG_COMPONENTS[color] * depth
    facts = {"width": [w], "height": [h], "bits_per_pixel": [bpp], "compression": ["deflate"], "mime_type": ["image/png"], "endian": ["Big endian"]}
    out = b"\x89PNG\r\n\x1a\n" + png_chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, color, 0, 0, 0))
    if color == 3:
        ncol = min(ncol, 1 << depth)
        out += png_chunk(b"PLTE", noise(seed, 3 * ncol))
        facts["pixel_format"] = ["Color index"]
        n = ncol
        if trns:
            out += png_chunk(b"tRNS", b"\0")
            facts["pixel_format"] = ["Color index with transparency"]
            n -= 1
        facts["nb_colors"] = [n] if n else []
    elif color in (2, 6):
        facts["pixel_format"] = ["RGB" if color == 2 else "RGBA"]
    else:
        facts["pixel_format"] = ["Grayscale" if color == 0 else "Grayscale with alpha"]
    if color in (2, 6) and trns:
        # palette suggested, transparent color
        out += png_chunk(b"PLTE", noise(seed, 3 * ncol))
        if color == 2 and seed % 2:
            out += png_chunk(b"tRNS", bytes(6))
    elif color == 0 and trns:
        out += png_chunk(b"tRNS", bytes(2))
    facts["width_dpi"] = facts["height_dpi"] = []
    if dpi:
        # in pixels per metre, or in an unknown unit
        unit = seed % 4 != 0
        out += png_chunk(b"pHYs", struct.pack(">IIB", dpi[0], dpi[1], unit))
        if unit:
            facts["width_dpi"], facts["height_dpi"] = per_metre(dpi[0]), per_metre(dpi[1])
    if date:
        import datetime
        out += png_chunk(b"tIME", struct.pack(">HBBBBB", *date))
        facts["creation_date"] = [datetime.datetime(*date)]
    comments, producers = [], []
    for k, v in texts:
        out += png_chunk(b"tEXt", k.encode() + b"\0" + v.encode("latin1"))
        if k == "Software":
            producers.append(v)
        else:
            comments.append(v if k.lower() == "comment" else "%s=%s" % (k, v))
    facts["comment"], facts["producer"] = strings(comments), strings(producers)
    row = (w * bpp + 7) // 8
    body = zlib.compress(b"".join(b"\0" + noise(seed + y, row) for y in range(h)), 6)
    step = max(1, len(body) // ndata)
    size = 0
    for i in range(0, len(body), step):
        c = png_chunk(b"IDAT", body[i:i + step])
        size += len(c)
        out += c
    facts["compr_rate"] = [w * h * bpp / (8.0 * size)]
    return Media("png", "png", out + png_chunk(b"IEND", b""), ".png", facts)


def strings(values):
    """What a metadata keeps of a list of strings: no duplicate, and the longest of two of which one starts with the other."""
    out = []
    for v in values:
        v = v.strip(" \t\v\n\r\0")
        if not v or v in out:
            continue
        for i, o in enumerate(out):
            if v.startswith(o):
                out[i] = v
                break
            if o.startswith(v):
                break
        else:
            out.append(v)
    return out


def lzw(seed, n, bits):
    """GIF image data: n pixels of `bits` bits, without compression (a clear code now and then)."""
    rng = random.Random(seed)
    clear = 1 << bits
    codes = []
    for i in range(n):
        if i % (clear - 2 if bits > 2 else 2) == 0:
            codes.append(clear)
        codes.append(rng.randrange(clear))
    codes.append(clear + 1)
    acc = cnt = 0
    out = bytearray()
    for c in codes:
        acc |= c << cnt
        cnt += bits + 1
        while cnt >= 8:
            out.append(acc & 255)
            acc >>= 8
            cnt -= 8
    if cnt:
        out.append(acc)
    return bytes(out)


def gif_blocks(data, step=255):
    return b"".join(bytes([len(data[i:i + step])]) + data[i:i + step] for i in range(0, len(data), step)) + b"\0"


@kind("gif", st.tuples(DIM, DIM, st.integers(1, 8), st.booleans(), st.booleans(), st.lists(WORD, max_size=3),
                       st.lists(st.tuples(st.integers(1, 12), st.integers(1, 12), st.integers(0, 3), st.binary(max_size=6)), min_size=1, max_size=3), SEED))
def gif(p):
    w, h, bits, v89, transp, comments, images, seed = p
    out = (b"GIF89a" if v89 else b"GIF87a") + struct.pack("<HHBBB", w, h, 0x80 | 0x70 | (bits - 1), 0, 0) + noise(seed, 3 << bits)
    for c in comments:
        out += b"!\xfe" + gif_blocks(c.encode())
    if transp:
        out += b"!\xf9\x04" + bytes([1]) + struct.pack("<H", 10) + b"\0\0"
    for i, (iw, ih, local, raw) in enumerate(images):
        out += b"," + struct.pack("<HHHHB", 0, 0, iw, ih, 0x80 | (local - 1) if local else 0)
        if local:
            out += noise(seed + i, 3 << local)
        b = max(local or bits, 2)
        out += bytes([b]) + gif_blocks(lzw(seed + i, iw * ih, b) + raw.replace(b"\0", b";"), 255 - 17 * i)
    facts = {"width": [w], "height": [h], "bits_per_pixel": [bits], "nb_colors": [1 << bits], "compression": ["LZW"], "comment": strings(comments),
             "format_version": ["GIF version " + ("89a" if v89 else "87a")], "pixel_format": ["Color index with transparency" if transp else "Color index"],
             "mime_type": ["image/gif"]}
    return Media("gif", "gif", out + b";", ".gif", facts)


@kind("bmp", st.tuples(DIM, DIM, st.sampled_from([1, 4, 8, 16, 24, 32]), st.sampled_from([40, 108]), st.integers(0, 2), st.integers(1, 9000), st.integers(1, 9000), SEED))
def bmp(p):
    w, h, bpp, hs, used, xd, yd, seed = p
    ncol = ((1 << bpp) if not used else min(used, 1 << bpp)) if bpp <= 8 else 0
    row = (w * bpp + 31) // 32 * 4
    start = 14 + hs + 4 * ncol
    size = start + row * h
    out = b"BM" + struct.pack("<IHHI", size, 0, 0, start)
    hdr = struct.pack("<IIIHHIIIIII", hs, w, h, 1, bpp, 0, row * h, xd, yd, used if bpp <= 8 else 0, 0)
    out += hdr + bytes(hs - 40) + noise(seed, 4 * ncol) + noise(seed + 1, row * h)
    facts = {"width": [w], "height": [h], "bits_per_pixel": [bpp], "width_dpi": per_metre(xd), "height_dpi": per_metre(yd), "compression": ["Uncompressed"],
             "nb_colors": [used] if used and bpp <= 8 else [], "format_version": ["Microsoft Bitmap version %u" % (4 if hs == 108 else 3)],
             "compr_rate": [w * h * bpp / (8.0 * row * h)], "mime_type": ["image/x-ms-bmp"]}
    return Media("bmp", "bmp", out, ".bmp", facts)


@kind("ico", st.tuples(st.booleans(), st.lists(st.tuples(st.sampled_from([16, 32, 48, 64]), st.sampled_from([8, 24, 32])), min_size=1, max_size=3), SEED))
def ico(p):
    cur, images, seed = p
    out = struct.pack("<HHH", 0, 2 if cur else 1, len(images))
    body = b""
    groups = []
    for i, (n, bpp) in enumerate(images):
        pal = 1024 if bpp == 8 else 0
        pix = n * n * bpp // 8 + n * n // 8
        content = struct.pack("<IIIHHIIIIII", 40, n, 2 * n, 1, bpp, 0, pix, 0, 0, 0, 0) + noise(seed, pal) + noise(seed + 1, pix)
        out += struct.pack("<BBBBHHII", n, n, 0, 0, 1, bpp, len(content), 6 + 16 * len(images) + len(body))
        body += content
        groups.append({"width": [n], "height": [n], "bits_per_pixel": [bpp], "nb_colors": []})
    return Media("ico", "ico", out + body, ".ico", {"mime_type": ["image/x-ico"]}, groups)


# --- audio

def ser(tag, content):
    return tag + struct.pack("<I", len(content)) + content + bytes(len(content) % 2)


INFO = {b"INAM": "title", b"IART": "artist", b"ICMT": "comment", b"ICOP": "copyright", b"IENG": "author", b"ISFT": "producer"}
INFOS = st.lists(st.tuples(st.sampled_from(sorted(INFO)), WORD), max_size=4)


def info_list(items, facts):
    if not items:
        return b""
    got = {}
    for tag, text in items:
        got.setdefault(INFO[tag], []).append(text)
    for k, v in got.items():
        facts[k] = strings(v)
    return ser(b"LIST", b"INFO" + b"".join(ser(tag, text.encode() + b"\0") for tag, text in items) + b"")


@kind("wav", st.tuples(st.integers(1, 8), st.sampled_from([8, 16, 24, 32]), st.sampled_from([8000, 11025, 44100, 48000, 192000]), st.integers(1, 400),
                       st.sampled_from([1, 1, 1, 2, 0x55]), st.integers(0, 50000), INFOS, SEED))
def wav(p):
    import datetime
    ch, bits, rate, n, codec, fact, infos, seed = p
    data = noise(seed, n * ch * bits // 8)
    facts = {"nb_channel": [ch], "bits_per_sample": [bits], "sample_rate": [rate], "mime_type": ["audio/x-wav"], "endian": ["Little endian"]}
    body = b"WAVE" + ser(b"fmt ", struct.pack("<HHIIHH", codec, ch, rate, rate * ch * bits // 8, ch * bits // 8, bits))
    if fact:
        body += ser(b"fact", struct.pack("<I", fact))
    body += ser(b"data", data)
    secs = fact / rate if fact else None
    if codec == 1:
        facts["bit_rate"] = [ch * bits * rate]
        if secs is None:
            secs = len(data) * 8 / (ch * bits * rate)
    else:
        facts["bit_rate"] = []
    if secs is not None:
        facts["duration"] = [datetime.timedelta(seconds=secs)]
        if facts["duration"][0] < datetime.timedelta(milliseconds=1):
            facts["duration"] = []
            if fact:
                # the reader may use the size of the data
                del facts["duration"]
    else:
        facts["duration"] = []
    body += info_list(infos, facts)
    return Media("wav", "riff", b"RIFF" + struct.pack("<I", len(body)) + body, ".wav", facts)


AU_BITS = {1: 8, 2: 8, 3: 16, 4: 24, 5: 32, 6: 32, 7: 64, 27: 8}


@kind("au", st.tuples(st.sampled_from(sorted(AU_BITS)), st.integers(1, 2), st.sampled_from([8000, 22050, 44100, 96000]), st.integers(1, 600), st.none() | LATIN, SEED))
def au(p):
    import datetime
    codec, ch, rate, n, info, seed = p
    bits = AU_BITS[codec]
    data = noise(seed, n * ch * bits // 8)
    text = info.encode("latin1") + bytes(4 - len(info) % 4) if info else b""
    facts = {"nb_channel": [ch], "bits_per_sample": [bits], "sample_rate": [rate], "bit_rate": [ch * bits * rate], "comment": strings([info or ""]),
             "mime_type": ["audio/basic"], "endian": ["Big endian"]}
    d = datetime.timedelta(seconds=len(data) * 8 / (ch * bits * rate))
    facts["duration"] = [d] if d >= datetime.timedelta(milliseconds=1) else []
    return Media("au", "sun_next_snd", b".snd" + struct.pack(">IIIII", 24 + len(text), len(data), codec, rate, ch) + text + data, ".au", facts)


def float80(n):
    """An integer as an extended number."""
    if not n:
        return bytes(10)
    e = n.bit_length() - 1
    return struct.pack(">HQ", 16383 + e, n << (63 - e))


@kind("aiff", st.tuples(st.booleans(), st.integers(1, 8), st.sampled_from([8, 16, 24, 32]), st.sampled_from([8000, 22050, 44100, 48000]), st.integers(0, 300),
                        st.lists(st.tuples(st.sampled_from([b"NAME", b"AUTH", b"ANNO"]), WORD), max_size=2), SEED))
def aiff(p):
    import datetime
    aifc, ch, bits, rate, n, texts, seed = p
    body = b"AIFC" if aifc else b"AIFF"

    def chunk(tag, content):
        return tag + struct.pack(">I", len(content)) + content + bytes(len(content) % 2)
    body += chunk(b"COMM", struct.pack(">HIH", ch, n, bits) + float80(rate) + (b"NONE\0\0" if aifc else b""))
    for tag, text in texts:
        body += chunk(tag, text.encode())
    body += chunk(b"SSND", bytes(8) + noise(seed, n * ch * bits // 8))
    d = datetime.timedelta(seconds=n / rate)
    facts = {"nb_channel": [ch], "bits_per_sample": [bits], "sample_rate": [rate], "bit_rate": [ch * bits * rate],
             "duration": [d] if d >= datetime.timedelta(milliseconds=1) else [], "mime_type": ["audio/x-aiff"], "endian": ["Big endian"]}
    return Media("aiff", "aiff", b"FORM" + struct.pack(">I", len(body)) + body, ".aif", facts)


@kind("midi", st.tuples(st.lists(st.lists(st.tuples(st.integers(0, 127), st.sampled_from([0x80, 0x90, 0xb0, 0xc0, 0xe0]), st.integers(0, 15), st.integers(0, 127), st.integers(0, 127)),
                                          max_size=6), min_size=1, max_size=3), st.integers(1, 960)))
def midi(p):
    tracks, delta = p
    out = b"MThd" + struct.pack(">IHHH", 6, 1 if len(tracks) > 1 else 0, len(tracks), delta)
    for t in tracks:
        body = b"".join(bytes([d, c | ch, a]) + (bytes([b]) if c != 0xc0 else b"") for d, c, ch, a, b in t) + b"\0\xff\x2f\0"
        out += b"MTrk" + struct.pack(">I", len(body)) + body
    return Media("midi", "midi", out, ".mid")


# --- archives

ENTRY = st.tuples(st.text("abcdef_", min_size=1, max_size=8), SEED, st.integers(0, 300), DATE)
ENTRIES = st.lists(ENTRY, min_size=1, max_size=4)


def unique(entries):
    return [("%d%s" % (i, e[0]),) + e[1:] for i, e in enumerate(entries)]


@kind("zip", st.tuples(ENTRIES, st.sampled_from([0, 8]), st.none() | LATIN))
def zip_(p):
    entries, method, comment = p
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        for name, seed, n, date in unique(entries):
            i = zipfile.ZipInfo(name, date)
            i.compress_type = method
            z.writestr(i, noise(seed, n))
        if comment:
            z.comment = comment.encode("latin1")
    return Media("zip", "zip", buf.getvalue(), ".zip")


@kind("tar", st.tuples(ENTRIES, st.integers(0, 3)))
def tar(p):
    import calendar
    entries, pad = p
    buf = io.BytesIO()
    t = tarfile.open(fileobj=buf, mode="w", format=tarfile.GNU_FORMAT)
    for name, seed, n, date in unique(entries):
        i = tarfile.TarInfo(name)
        i.size = n
        i.mtime = calendar.timegm(date)
        t.addfile(i, io.BytesIO(noise(seed, n)))
    end = t.offset
    t.close()
    # two null blocks at least
    return Media("tar", "tar", buf.getvalue()[:end + 1024 + 512 * pad], ".tar", end=end + 512)


@kind("gzip", st.tuples(ENTRY, st.integers(1, 9)))
def gzip_(p):
    (name, seed, n, date), level = p
    buf = io.BytesIO()
    with gzip.GzipFile(name, "wb", level, buf, 12345) as g:
        g.write(noise(seed, n))
    m = Media("gzip", "gzip", buf.getvalue(), ".gz")
    m.complete = False
    return m


@kind("bzip2", st.tuples(SEED, st.integers(1, 300), st.integers(1, 9)))
def bzip2(p):
    seed, n, level = p
    m = Media("bzip2", "bzip2", bz2.compress(noise(seed, n), level), ".bz2")
    m.complete = False
    return m


@kind("swf", st.tuples(st.integers(1, 9), st.integers(0, 8191), st.integers(0, 8191), st.integers(1, 60), st.integers(0, 9), SEED, st.integers(0, 50)))
def swf(p):
    version, xmax, ymax, rate, count, seed, n = p
    acc = "".join([format(15, "05b")] + [format(v, "015b") for v in (0, xmax, 0, ymax)])
    acc += "0" * (-len(acc) % 8)
    rect = int(acc, 2).to_bytes(len(acc) // 8, "big")
    # a tag with a long content, then the end
    body = rect + bytes([0, rate]) + struct.pack("<H", count) + struct.pack("<HI", (255 << 6) | 63, n) + noise(seed, n) + b"\0\0"
    facts = {"width": [xmax] if 0 < xmax else [], "height": [ymax] if 0 < ymax else [], "format_version": ["flash version %u" % version],
             "comment": ["Frame count: %u" % count]}
    return Media("swf", "swf", b"FWS" + bytes([version]) + struct.pack("<I", 8 + len(body)) + body, ".swf", facts)
