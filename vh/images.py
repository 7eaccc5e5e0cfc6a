"""Generated pictures, with what is known of each one (see media.py).

IMAGES is a registry of kinds of its own: several of these formats have no signature, so they aren't recognized from the content only.
"""
import datetime
import random

from hypothesis import strategies as st

from vh import binary as struct
from vh import media
from vh.media import DATE, DIM, SEED, WORD, LATIN, Media, noise, strings

IMAGES = {n: media.KINDS[n] for n in ("png", "gif", "bmp", "ico")}


def kind(name, strategy):
    def deco(func):
        IMAGES[name] = (strategy, func)
        return func
    return deco


def cases(names=None):
    return st.one_of([st.tuples(st.just(n), IMAGES[n][0]) for n in (names or IMAGES)])


def build(case):
    m = IMAGES[case[0]][1](case[1])
    m.kind = case[0]
    return m


BIG = st.one_of(DIM, st.sampled_from([1000, 4096, 10000, 19999, 20000]))
DPI = st.integers(1, 9000)


def dpi(value, inch=1):
    n = round(value * inch)
    return [n] if 1 <= n <= 10000 else []


def rate(bits, size):
    """Compression rate, if it is in the range of this metadata"""
    r = bits / size
    return {"compr_rate": [r]} if 1.0 <= r <= 1000.0 else {}


@kind("bmp2", st.tuples(DIM, DIM, st.sampled_from([1, 4, 8, 24]), SEED))
def bmp2(p):
    w, h, bpp, seed = p
    ncol = 1 << bpp if bpp <= 8 else 0
    row = (w * bpp + 31) // 32 * 4
    start = 26 + 3 * ncol
    out = b"BM" + struct.pack("<IHHI", start + row * h, 0, 0, start) + struct.pack("<IHHHH", 12, w, h, 1, bpp) + noise(seed, 3 * ncol) + noise(seed, row * h)
    facts = {"width": [w], "height": [h], "bits_per_pixel": [bpp], "format_version": ["Microsoft Bitmap version 2"], "mime_type": ["image/x-ms-bmp"]}
    return Media("bmp2", "bmp", out + bytes(max(0, 30 - len(out))), ".bmp", facts, rows=("pixels/line[%u]", range(h - 1, -1, -1), row, start) if bpp in (4, 8, 24) else None)


@kind("bmp-top", st.tuples(DIM, DIM, st.sampled_from([4, 8, 24, 32]), st.sampled_from([40, 108]), SEED))
def bmp_top(p):
    w, h, bpp, hs, seed = p
    ncol = 1 << bpp if bpp <= 8 else 0
    row = (w * bpp + 31) // 32 * 4
    start = 14 + hs + 4 * ncol
    out = b"BM" + struct.pack("<IHHI", start + row * h, 0, 0, start) + struct.pack("<IIiHHIIIIII", hs, w, -h, 1, bpp, 0, row * h, 3780, 3780, 0, 0)
    facts = {"width": [w], "height": [h], "bits_per_pixel": [bpp], "width_dpi": [96], "height_dpi": [96]}
    return Media("bmp-top", "bmp", out + bytes(hs - 40) + noise(seed, 4 * ncol) + noise(seed, row * h), ".bmp", facts, rows=("pixels/line[%u]", range(h), row, start))


@kind("ico-sizes", st.tuples(st.lists(st.tuples(st.sampled_from([1, 8, 16, 24, 72, 128, 255, 256]), st.sampled_from([8, 24, 32])), min_size=1, max_size=3), SEED))
def ico_sizes(p):
    images, seed = p
    out = struct.pack("<HHH", 0, 1, len(images))
    body = b""
    groups = []
    for n, bpp in images:
        content = struct.pack("<IIIHHIIIIII", 40, n, 2 * n, 1, bpp, 0, 64, 0, 0, 0, 0) + noise(seed, 1024 if bpp == 8 else 0) + noise(seed, 64)
        out += struct.pack("<BBBBHHII", n & 255, n & 255, 0, 0, 1, bpp, len(content), 6 + 16 * len(images) + len(body))
        body += content
        groups.append({"width": [n], "height": [n], "bits_per_pixel": [bpp]})
    return Media("ico-sizes", "ico", out + body, ".ico", {"mime_type": ["image/x-ico"]}, groups)


@kind("gif-plain", st.tuples(DIM, DIM, st.integers(0, 7), st.lists(st.none() | st.booleans(), min_size=1, max_size=3), st.integers(1, 8)))
def gif_plain(p):
    w, h, bits, transp, ibits = p
    # no global map: the size of this map has no meaning
    out = b"GIF89a" + struct.pack("<HHBBB", w, h, bits, 0, 0)
    for t in transp:
        if t is not None:
            out += b"!\xf9\x04" + bytes([t]) + struct.pack("<H", 10) + b"\0\0"
        b = max(ibits, 2)
        out += b"," + struct.pack("<HHHHB", 0, 0, 2, 2, 0x80 | (ibits - 1)) + noise(0, 3 << ibits) + bytes([b]) + media.gif_blocks(media.lzw(0, 4, b))
    facts = {"width": [w], "height": [h], "bits_per_pixel": [], "nb_colors": [],
             "pixel_format": ["Color index with transparency" if any(transp) else "Color index"]}
    return Media("gif-plain", "gif", out + b";", ".gif", facts)


@kind("pcx", st.tuples(BIG, BIG, st.integers(0, 40), st.integers(0, 40), st.sampled_from([(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (4, 1), (8, 1), (8, 3), (8, 4)]),
                       st.sampled_from([0, 2, 3, 4, 5]), DPI, DPI, st.integers(1, 200), SEED))
def pcx(p):
    w, h, x, y, (bits, planes), version, xd, yd, n, seed = p
    w, h = min(w, 65536 - x), min(h, 65536 - y)
    out = struct.pack("<BBBBHHHHHH", 10, version, 1, bits, x, y, x + w - 1, y + h - 1, xd, yd) + noise(seed, 48) + b"\0" + bytes([planes])
    out += struct.pack("<HH", (w * bits + 7) // 8 & 0xfffe, 1) + bytes(58) + noise(seed + 1, n)
    bpp = bits * planes
    palette = bits == 8 and planes == 1
    if palette:
        out += b"\x0c" + noise(seed + 2, 768)
    facts = {"width": [w], "height": [h], "bits_per_pixel": [bpp], "nb_colors": [1 << bpp] if bpp <= 8 else [], "width_dpi": dpi(xd), "height_dpi": dpi(yd),
             "compression": ["Run-length encoding (RLE)"], "mime_type": ["image/x-pcx"]}
    facts.update(rate(w * h * bpp, 8 * (n + palette)))
    # (the byte before the palette belongs to the image data)
    return Media("pcx", "pcx", out, ".pcx", facts)


TGA_CODEC = {1: "Palette uncompressed", 2: "True-color uncompressed", 3: "Grayscale uncompressed", 9: "Palette RLE", 10: "True-color RLE", 11: "Grayscale RLE"}


@kind("tga", st.tuples(DIM, DIM, st.sampled_from(sorted(TGA_CODEC)), st.sampled_from([15, 16, 24, 32]), st.sampled_from([15, 16, 24, 32]), st.integers(1, 256), st.booleans(),
                       st.binary(max_size=9), SEED))
def tga(p):
    w, h, codec, bits, entry, ncol, flip, ident, seed = p
    palette = codec in (1, 9)
    bpp = bits if codec in (2, 10) else 8
    out = struct.pack("<BBBHHBHHHHBB", len(ident), palette, codec, 0, ncol if palette else 0, entry if palette else 0, 0, 0, w, h, bpp, 0x20 if flip else 0) + ident
    if palette:
        out += noise(seed, ncol * ((entry + 7) // 8))
    start = len(out)
    row = w * ((bpp + 7) // 8)
    facts = {"width": [w], "height": [h], "bits_per_pixel": [bpp], "nb_colors": [ncol] if palette else [], "compression": [TGA_CODEC[codec]], "mime_type": ["image/targa"]}
    if codec < 9:
        out += noise(seed + 1, row * h)
        facts.update(rate(w * h * bpp, 8 * row * h))
        return Media("tga", "targa", out, ".tga", facts, rows=("pixels/line[%u]", range(h) if flip else range(h - 1, -1, -1), row, start))
    return Media("tga", "targa", out + noise(seed + 1, 1 + seed % 100), ".tga", facts)


# --- TIFF and EXIF

SIZES = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 7: 1, 9: 4, 10: 8}
FORMATS = {1: "B", 3: "H", 4: "I", 5: "II", 9: "i", 10: "ii"}


def ifd(e, entries, start, link=0):
    """A directory at the address `start`: (bytes, address of the end); entries: (tag, type, values)"""
    head = struct.pack(e + "H", len(entries))
    pos = start + 2 + 12 * len(entries) + 4
    tail = b""
    for tag, kind_, values in sorted(entries):
        if kind_ in (2, 7):
            raw, n = values, len(values)
        else:
            raw = b"".join(struct.pack(e + FORMATS[kind_], *(v if isinstance(v, tuple) else (v,))) for v in values)
            n = len(values)
        if len(raw) <= 4:
            field = raw.ljust(4, b"\0")
        else:
            field = struct.pack(e + "I", pos + len(tail))
            tail += raw + bytes(len(raw) % 2)
        head += struct.pack(e + "HHI", tag, kind_, n) + field
    return head + struct.pack(e + "I", link) + tail


def text(s):
    return s.encode("latin1") + b"\0"


RATIO = st.tuples(st.integers(0, 90000), st.sampled_from([1, 2, 3, 10, 100, 1000]))
ENDIAN = st.sampled_from("<>")


def when(d):
    return datetime.datetime(*d)


def exif_date(d):
    return text("%04d:%02d:%02d %02d:%02d:%02d" % d)


@kind("tiff", st.tuples(ENDIAN, BIG, BIG, st.sampled_from([3, 4]), st.sampled_from([(1, 1), (8, 1), (8, 3), (8, 4), (16, 3), (16, 1)]),
                        st.none() | RATIO, st.none() | RATIO, st.none() | st.integers(1, 3), st.none() | DATE, st.none() | LATIN, st.none() | LATIN, st.none() | LATIN,
                        st.integers(0, 3), st.booleans(), SEED))
def tiff(p):
    e, w, h, kind_, (bits, samples), xres, yres, unit, date, soft, desc, title, strips, second, seed = p
    facts = {"width": [w], "height": [h], "bits_per_pixel": [bits * samples], "mime_type": ["image/tiff"], "endian": ["Little endian" if e == "<" else "Big endian"]}
    data = [noise(seed + i, 5 + i) for i in range(strips)]
    body = b"".join(data)
    ent = [(0x100, kind_, [w]), (0x101, kind_, [h]), (0x102, 3, [bits] * samples), (0x103, 3, [1]), (0x115, 3, [samples])]
    if strips:
        pos, offs = 8, []
        for d in data:
            offs.append(pos)
            pos += len(d)
        ent += [(0x111, 4, offs), (0x117, 3, [len(d) for d in data])]
    for tag, res, key in ((0x11a, xres, "width_dpi"), (0x11b, yres, "height_dpi")):
        facts[key] = []
        if res:
            ent.append((tag, 5, [res]))
            if unit != 1:
                facts[key] = dpi(res[0] / res[1], 2.54 if unit == 3 else 1)
    if unit:
        ent.append((0x128, 3, [unit]))
    facts["creation_date"] = [when(date)] if date else []
    if date:
        ent.append((0x132, 2, exif_date(date)))
    for tag, value, key in ((0x131, soft, "producer"), (0x10e, desc, "comment"), (0x10d, title, "title")):
        facts[key] = strings([value]) if value else []
        if value:
            ent.append((tag, 2, text(value)))
    body += bytes(len(body) % 2)
    start = 8 + len(body)
    d1 = ifd(e, ent, start)
    if second:
        d1 = ifd(e, ent, start, start + len(d1))
        d1 += ifd(e, [(0x100, 3, [1]), (0x101, 3, [1])], start + len(d1))
    return Media("tiff", "tiff", (b"II" if e == "<" else b"MM") + struct.pack(e + "HI", 42, start) + body + d1, ".tif", facts)


# --- JPEG

STD_LUMA = [16, 11, 10, 16, 24, 40, 51, 61, 12, 12, 14, 19, 26, 58, 60, 55, 14, 13, 16, 24, 40, 57, 69, 56, 14, 17, 22, 29, 51, 87, 80, 62,
            18, 22, 37, 56, 68, 109, 103, 77, 24, 35, 55, 64, 81, 104, 113, 92, 49, 64, 78, 87, 103, 121, 120, 101, 72, 92, 95, 98, 112, 100, 103, 99]
STD_CHROMA = [17, 18, 24, 47, 99, 99, 99, 99, 18, 21, 26, 66, 99, 99, 99, 99, 24, 26, 56, 99, 99, 99, 99, 99, 47, 66, 99, 99, 99, 99, 99, 99] + [99] * 32
ZIGZAG = sorted(range(64), key=lambda i: (i // 8 + i % 8, (i // 8 if (i // 8 + i % 8) % 2 else i % 8)))
SOF = {0xc0: "Baseline", 0xc1: "Extended sequential", 0xc2: "Progressive", 0xc3: "Lossless", 0xc5: "Differential sequential", 0xc6: "Differential progressive",
       0xc7: "Differential lossless", 0xc9: "Extended sequential, arithmetic coding", 0xca: "Progressive, arithmetic coding", 0xcb: "Lossless, arithmetic coding",
       0xcd: "Differential sequential, arithmetic coding", 0xce: "Differential progressive, arithmetic coding", 0xcf: "Differential lossless, arithmetic coding"}


def scaled(table, q):
    """Quantization table of libjpeg for a quality"""
    s = 5000 // q if q < 50 else 200 - 2 * q
    return [min(max((v * s + 50) // 100, 1), 255) for v in table]


def segment(tag, content):
    return bytes([0xff, tag]) + struct.pack(">H", 2 + len(content)) + content


def resource(tag, name, content):
    n = bytes([len(name)]) + name
    return b"8BIM" + struct.pack(">H", tag) + n + bytes(len(n) % 2) + struct.pack(">I", len(content)) + content + bytes(len(content) % 2)


def iptc(record, tag, content):
    return struct.pack(">BBBH", 0x1c, record, tag, len(content)) + content


ORIENTATION = {1: 'Horizontal (normal)', 2: 'Mirrored horizontal', 3: 'Rotated 180', 4: 'Mirrored vertical', 5: 'Mirrored horizontal then rotated 90 counter-clock-wise',
               6: 'Rotated 90 clock-wise', 7: 'Mirrored horizontal then rotated 90 clock-wise', 8: 'Rotated 90 counter clock-wise'}
DEGREES = st.tuples(st.integers(0, 179), st.integers(0, 59), st.tuples(st.integers(0, 5999), st.just(100)), st.booleans())
GPS = st.tuples(DEGREES, DEGREES, st.none() | st.tuples(st.integers(0, 900000), st.sampled_from([1, 10, 100]), st.none() | st.booleans()), st.none() | st.tuples(DATE, st.booleans()),
                st.tuples(*[st.sampled_from([3, 3, 3, 3, 3, 3, 1, 2])] * 2))
EXIF = st.fixed_dictionaries({}, optional={
    "make": WORD, "model": WORD, "software": WORD, "description": WORD, "orientation": st.integers(1, 8), "date": DATE,
    "original": DATE, "digitized": DATE, "exposure": st.tuples(st.integers(1, 30), st.integers(1, 4000)), "fnumber": st.tuples(st.integers(10, 320), st.just(10)),
    "iso": st.integers(1, 60000), "focal": RATIO, "bias": st.tuples(st.integers(-30, 30), st.just(10)), "focal35": st.integers(1, 2000), "size": st.tuples(BIG, BIG),
    "comment": st.tuples(st.sampled_from(["ascii", "unicode", "undefined"]), WORD), "gps": GPS})


def exif(e, x, facts):
    """Content of an EXIF segment"""
    def add(key, value):
        facts.setdefault(key, []).append(value)
    ent, sub, gps = [], [], []
    for name, tag, key in (("make", 0x10f, "camera_manufacturer"), ("model", 0x110, "camera_model"), ("software", 0x131, "producer"), ("description", 0x10e, "title")):
        if name in x:
            ent.append((tag, 2, text(x[name])))
            add(key, x[name])
    if "orientation" in x:
        ent.append((0x112, 3, [x["orientation"]]))
        add("image_orientation", ORIENTATION[x["orientation"]])
    for name, tag, key, where in (("date", 0x132, "creation_date", ent), ("original", 0x9003, "date_time_original", sub), ("digitized", 0x9004, "date_time_digitized", sub)):
        if name in x:
            where.append((tag, 2, exif_date(x[name])))
            add(key, when(x[name]))
    for name, tag, key, kind_ in (("exposure", 0x829a, "camera_exposure", 5), ("fnumber", 0x829d, "camera_focal", 5), ("focal", 0x920a, "focal_length", 5),
                                  ("bias", 0x9204, "exposure_bias_value", 10)):
        if name in x:
            sub.append((tag, kind_, [tuple(x[name])]))
            add(key, x[name][0] / x[name][1])
    for name, tag, key in (("iso", 0x8827, "iso_speed_ratings"), ("focal35", 0xa405, "focal_length_in_35mm_film")):
        if name in x:
            sub.append((tag, 3, [x[name]]))
            add(key, x[name])
    if "size" in x:
        sub += [(0xa002, 4, [x["size"][0]]), (0xa003, 4, [x["size"][1]])]
        if "width" not in facts:
            add("width", x["size"][0])
            add("height", x["size"][1])
    if "comment" in x:
        charset, value = x["comment"]
        raw = {"ascii": b"ASCII\0\0\0" + value.encode(), "unicode": b"UNICODE\0" + value.encode("utf-16-le" if e == "<" else "utf-16-be"), "undefined": bytes(8) + value.encode()}[charset]
        sub.append((0x9286, 7, raw))
        add("comment", value)
    if "gps" in x:
        lat, lon, alt, time, parts = x["gps"]
        for tag, (d, m, s, neg), names, key, part in ((1, lat, b"NS", "latitude", parts[0]), (3, lon, b"EW", "longitude", parts[1])):
            if key == "latitude":
                d %= 90
            # the hemisphere or the angle alone means nothing
            gps += [(tag, 2, bytes([names[neg], 0]))][:part & 1] + [(tag + 1, 5, [(d, 1), (m, 1), tuple(s)])][:part >> 1]
            v = d + (m + s[0] / s[1] / 60) / 60
            if part == 3:
                add(key, -v if neg else v)
        if alt:
            n, d, below = alt
            if below is not None:
                gps.append((5, 1, [int(below)]))
            gps.append((6, 5, [(n, d)]))
            add("altitude", -n / d if below else n / d)
        if time:
            d, full = time
            gps.append((0x1d, 2, text("%04d:%02d:%02d" % d[:3])))
            if full:
                gps.append((7, 5, [(v, 1) for v in d[3:]]))
                add("creation_date", when(d))
            else:
                add("creation_date", datetime.date(*d[:3]))
    if not ent:
        ent.append((0x128, 3, [2]))

    def layout(addr_sub, addr_gps):
        full = list(ent)
        if sub:
            full.append((0x8769, 4, [addr_sub]))
        if gps:
            full.append((0x8825, 4, [addr_gps]))
        return ifd(e, full, 8)
    n = 8 + len(layout(0, 0))
    part = ifd(e, sub, n) if sub else b""
    out = layout(n, n + len(part)) + part + (ifd(e, gps, n + len(part)) if gps else b"")
    return b"Exif\0\0" + (b"II" if e == "<" else b"MM") + struct.pack(e + "HI", 42, 8) + out


def boolean_flags(rng, n):
    return bytes(rng.randrange(2) for _ in range(n))


def typed_resource(kind, seed):
    """A Photoshop resource whose content has its own format: tag, name of its field, bytes, values of its fields"""
    rng = random.Random("%s %s" % (kind, seed))
    v = {}

    def number(path, fmt):
        n = rng.choice([0, 1, rng.randrange(1 << 8 * struct.calcsize(fmt)), (1 << 8 * struct.calcsize(fmt)) - 1])
        v[path] = n
        return struct.pack(">" + fmt, n)
    if kind == "resolution":
        parts = [number(x, "H") for x in ("horiz_res/int_part", "horiz_res/float_part", "horiz_res_unit", "width_unit", "vert_res/int_part", "vert_res/float_part", "vert_res_unit", "height_unit")]
        return 0x3ed, "res_info", b"".join(parts), v
    if kind == "flags":
        names = ["labels", "crop_marks", "color_bars", "reg_marks", "negative", "flip", "interpolate", "caption", "print_flags"]
        data = boolean_flags(rng, 9)
        v.update(zip(names, data))
        return 0x3f3, "print_flag", data, v
    if kind == "guides":
        data = b"".join(number(x, "I") for x in ("version", "horiz_cycle", "vert_cycle"))
        n = rng.choice([0, 1, 2, 5])
        v["guide_count"] = n
        data += struct.pack(">I", n)
        for i in range(n):
            data += number("guide[%u]/location" % i, "I") + bytes([i % 2])
            v["guide[%u]/direction" % i] = i % 2
        return 0x408, "grid_guide", data, v
    if kind in ("thumbnail", "thumbnail2"):
        image = noise(rng.randrange(1000), rng.randrange(1, 40))
        data = b"".join(number(x, "I") for x in ("format", "width", "height", "widthbytes", "uncompressed_size")) + struct.pack(">I", len(image)) + number("bits_per_pixel", "H") + number("num_planes", "H")
        v["compressed_size"] = len(image)
        return (0x409, "thumb_res", data + image, v) if kind == "thumbnail" else (0x40c, "thumb_res2", data + image, v)
    if kind == "version":
        w, r = [rng.choice(["", "Adobe Photoshop", "\u00e9\u20ac x", "a"]) for _ in range(2)]
        data = number("version", "I") + number("has_realm", "B")
        for name, x in (("writer_name", w), ("reader_name", r)):
            data += struct.pack(">I", len(x)) + x.encode("utf-16-be")
            v[name] = x or None
        return 0x421, "version", data + number("file_version", "I") + bytes(rng.choice([0, 0, 3])), v
    if kind == "scale":
        data = number("style", "H")
        for x in ("x_location", "y_location", "scale"):
            v[x] = rng.choice([0.0, 1.0, -2.5, 100.25])
            data += struct.pack(">f", v[x])
        return 0x426, "printscale", data, v
    if kind == "flags2":
        return 0x2710, "print_flag2", b"".join(number(x, f) for x, f in (("version", "H"), ("center_crop_marks", "B"), ("reserved", "B"), ("bleed_width", "I"), ("bleed_width_scale", "H"))), v
    tag, name, fmt = {"watermark": (0x410, "watermark", "B"), "copyright": (0x40a, "copyright_flag", "B"), "angle": (0x40d, "glob_angle", "I"), "layer": (0x414, "base_layer_id", "I"),
                      "indexed": (0x416, "indexed_colors", "H"), "transparency": (0x417, "transparency_index", "H"), "altitude": (0x419, "glob_altitude", "I")}[kind]
    return tag, name, number("", fmt), v


TYPED = st.lists(st.sampled_from(["resolution", "flags", "guides", "thumbnail", "thumbnail2", "version", "scale", "flags2", "watermark", "copyright", "angle", "layer", "indexed", "transparency", "altitude"]),
                 unique=True, max_size=5)


def typed_resources(kinds, seed, path, values):
    out = b""
    for kind in kinds:
        tag, name, data, v = typed_resource(kind, seed)
        out += resource(tag, b"", data)
        for k, x in v.items():
            values[path + name + "/content" + ("/" + k if k else "")] = x
    return out


IPTC = {80: "author", 90: "city", 101: "country", 116: "copyright", 120: "title", 231: "comment"}
PHOTO = st.tuples(st.lists(st.tuples(st.sampled_from(sorted(IPTC)), WORD), max_size=4), st.none() | DATE, st.booleans(), st.sampled_from([b"", b"a", b"ab", b"name"]), st.integers(0, 2), TYPED, SEED)


def photoshop(p, facts, values):
    items, date, envelope, name, others, kinds, seed = p
    out = b"Photoshop 3.0\0"
    for i in range(others):
        out += resource(0x3e8 + 20 * i, name, noise(i, 3 + i))
    data = b""
    if envelope:
        # charset and date sent of the envelope
        data += iptc(1, 90, b"\x1b%G") + iptc(1, 80, b"19990102")
    data += iptc(2, 0, b"\0\2")
    got = {}
    for tag, value in items:
        data += iptc(2, tag, value.encode())
        got.setdefault(IPTC[tag], []).append(value)
    if date:
        data += iptc(2, 55, b"%04d%02d%02d" % date[:3]) + iptc(2, 60, b"%02d%02d%02d+0000" % date[3:])
        got["creation_date"] = [when(date)]
    for k, v in got.items():
        facts.setdefault(k, []).extend(v)
    facts.setdefault("producer", [])
    out += typed_resources(kinds, seed, "photoshop/content/", values)
    reader = values.get("photoshop/content/version/content/reader_name")
    if reader:
        facts["producer"].append(reader)
    if not facts["producer"]:
        facts["producer"] = ["Adobe Photoshop"]
    return out + resource(0x404, name, data) + resource(0x425, b"", bytes(16))


@kind("jpeg", st.tuples(BIG, BIG, st.sampled_from(sorted(SOF)), st.sampled_from([1, 3, 3, 4]), st.none() | st.tuples(st.integers(0, 2), DPI, DPI, st.integers(0, 2)),
                        st.none() | st.integers(1, 100), st.lists(WORD, max_size=2), st.none() | st.tuples(ENDIAN, EXIF), st.none() | PHOTO, st.integers(0, 2)))
def jpeg(p):
    w, h, sof, comps, jfif, quality, comments, ex, photo, icc = p
    facts = {"width": [w], "height": [h], "bits_per_pixel": [8 * comps], "compression": ["JPEG (%s)" % SOF[sof]], "mime_type": ["image/jpeg"],
             "pixel_format": {1: ["Grayscale"], 3: ["YCbCr"], 4: []}[comps], "nb_colors": [256] if comps == 1 else [], "width_dpi": [], "height_dpi": [],
             "format_version": [], "endian": ["Big endian"]}
    lists = {}
    values = {}
    out = b"\xff\xd8"
    if jfif:
        unit, xd, yd, minor = jfif
        out += segment(0xe0, b"JFIF\0\1" + bytes([minor, unit]) + struct.pack(">HHBB", xd, yd, 0, 0))
        facts["format_version"] = ["JFIF 1.%02u" % minor]
        if unit:
            inch = 2.54 if unit == 2 else 1
            facts["width_dpi"], facts["height_dpi"] = dpi(xd, inch), dpi(yd, inch)
    if ex:
        e, x = ex
        x = dict(x)
        got = {"width": [0]}        # the size of the frame is preferred
        seg = exif(e, x, got)
        del got["width"]
        lists = got
        out += segment(0xe1, seg)
    elif not jfif:
        out += segment(0xee, b"Adobe" + bytes(6) + b"\1")
    for i in range(icc):
        out += segment(0xe2, b"ICC_PROFILE\0" + bytes([1 + i, icc]) + noise(i, 20))
    if photo:
        out += segment(0xed, photoshop(photo, lists, values))
    if icc:
        out += segment(0xe1, b"http://ns.adobe.com/xap/1.0/\0<x/>")
    for c in comments:
        out += segment(0xfe, c.encode())
        lists.setdefault("comment", []).append(c)
    if quality:
        tables = [scaled(STD_LUMA, quality)] + ([scaled(STD_CHROMA, quality)] if comps > 1 else [])
        for i, t in enumerate(tables):
            out += segment(0xdb, bytes([i]) + bytes(t[z] for z in ZIGZAG))
    out += segment(sof, struct.pack(">BHHB", 8, h, w, comps) + b"".join(bytes([1 + i, 0x11, min(i, 1)]) for i in range(comps)))
    out += segment(0xda, bytes([comps]) + b"".join(bytes([1 + i, 0]) for i in range(comps)) + b"\0\x3f\0") + noise(w + h, 30) + b"\xff\xd9"
    for k in ("comment", "title", "author", "copyright", "city", "country", "producer", "camera_manufacturer", "camera_model"):
        facts[k] = strings(lists.pop(k, []))
    facts["comment?"] = facts.pop("comment")
    facts.update(lists)
    return Media("jpeg", "jpeg", out, ".jpg", facts, quality=quality, values=values)


# --- others

def prop(tag, content):
    return struct.pack(">II", tag, len(content)) + content


@kind("xcf", st.tuples(st.integers(0, 14), BIG, BIG, st.integers(0, 2), st.none() | st.integers(0, 3), st.none() | st.tuples(st.integers(1, 9000), st.integers(1, 9000)),
                       st.none() | LATIN, st.booleans(), SEED))
def xcf(p):
    version, w, h, type_, comp, res, comment, layer, seed = p
    out = (b"gimp xcf file\0" if not version else b"gimp xcf v%03d\0" % version) + struct.pack(">III", w, h, type_)
    if version >= 4:
        out += struct.pack(">I", 0 if version == 4 else 150)
    facts = {"width": [w], "height": [h], "bits_per_pixel": [24 if type_ == 0 else 8], "format_version": [("RGB", "Gray", "Indexed")[type_]], "mime_type": ["image/x-xcf"],
             "compression": [("None", "RLE", "Zlib", "Fractal")[comp]] if comp is not None else [], "comment": strings([comment]) if comment else [],
             "width_dpi": [res[0]] if res else [], "height_dpi": [res[1]] if res else [], "endian": ["Big endian"]}
    if comp is not None:
        out += prop(17, bytes([comp]))
    if res:
        out += prop(19, struct.pack(">ff", *res))
    out += prop(20, struct.pack(">I", 7))
    if comment:
        out += prop(21, b"".join(struct.pack(">I", len(n) + 1) + n + b"\0" + struct.pack(">II", 1, len(v) + 1) + v + b"\0"
                                 for n, v in ((b"gimp-grid", b"(x)"), (b"gimp-comment", comment.encode("utf-8")), (b"other", b"y"))))
    out += prop(0, b"")
    ptr = ">Q" if version >= 11 else ">I"
    size = struct.calcsize(ptr)
    if layer:
        pos = len(out) + 3 * size
        head = struct.pack(">III", w, h, 0) + struct.pack(">I", 2) + b"L\0" + prop(8, struct.pack(">I", 1)) + prop(0, b"")
        hier = pos + len(head) + 2 * size
        out += struct.pack(ptr, pos) + bytes(2 * size) + head + struct.pack(ptr, hier) + bytes(size) + struct.pack(">III", w, h, 3) + bytes(size)
    else:
        out += bytes(2 * size)
    return Media("xcf", "xcf", out, ".xcf", facts)


PSD_MODE = {0: "Bitmap", 1: "Grayscale", 2: "Indexed", 3: "RGB color", 4: "CMYK color", 7: "Multichannel", 8: "Duotone", 9: "Lab Color"}


@kind("psd", st.tuples(BIG, BIG, st.sampled_from(sorted(PSD_MODE)), st.sampled_from([1, 8, 16]), st.integers(1, 5), st.integers(0, 1), st.integers(0, 40),
                       st.lists(st.tuples(st.sampled_from([0x3e9, 0x40f, 0x425, 0x424]), st.sampled_from([b"", b"x", b"xy"]), st.integers(1, 30) | st.just(70000)), max_size=3),
                       st.integers(0, 20), SEED, TYPED))
def psd(p):
    w, h, mode, depth, channels, comp, modesize, resources, layers, seed, kinds = p
    values = {"height": h, "width": w, "nb_channels": channels, "mode_data_size": modesize, "reserved_data_size": layers}
    res = b"".join(resource(tag, name, noise(seed + 7 + i, n)) for i, (tag, name, n) in enumerate(resources)) + typed_resources(kinds, seed, "config/", values)
    out = b"8BPS\0\1" + bytes(6) + struct.pack(">HIIHHI", channels, h, w, depth, mode, modesize) + noise(seed, modesize)
    out += struct.pack(">I", len(res)) + res + struct.pack(">I", layers) + noise(seed + 1, layers) + struct.pack(">H", comp) + noise(seed, 50)
    facts = {"width": [w], "height": [h], "bits_per_pixel": [depth * channels], "pixel_format": [PSD_MODE[mode]], "compression": [("Raw data", "RLE")[comp]],
             "mime_type": ["image/psd"], "endian": ["Big endian"]}
    return Media("psd", "psd", out, ".psd", facts, resources=len(resources) + len(kinds), values=values)


@kind("wmf", st.tuples(st.integers(-2000, 2000), st.integers(-2000, 2000), DIM, DIM, st.lists(st.sampled_from([0x1e, 0x102, 0x103, 0x106]), max_size=4), st.booleans()))
def wmf(p):
    x, y, w, h, funcs, disk = p
    body = b"".join(struct.pack("<IHH", 4, f, 1) for f in funcs) + struct.pack("<IH", 3, 0)
    out = b"\xd7\xcd\xc6\x9a\0\0" + struct.pack("<hhhhHIH", x, y, x + w, y + h, 96, 0, 0)
    out += struct.pack("<HHBBIHIH", int(disk), 9, 0, 3, 9 + len(body) // 2, 0, 4, 0)
    return Media("wmf", "wmf", out + body, ".wmf", {"width": [w], "height": [h], "bits_per_pixel": [24], "mime_type": ["image/wmf"], "endian": ["Little endian"]})


@kind("emf", st.tuples(BIG, BIG, st.integers(0, 256), st.none() | st.tuples(WORD, st.none() | WORD), st.lists(st.sampled_from([17, 18, 33, 59, 60]), max_size=4)))
def emf(p):
    w, h, ncol, desc, funcs = p
    text_ = b""
    facts = {"width": [w], "height": [h], "bits_per_pixel": [8 if ncol else 24], "nb_colors": [ncol] if ncol else [], "mime_type": ["image/x-emf"], "endian": ["Little endian"],
             "producer": [], "title": []}
    if desc:
        s = desc[0] + ("\0" + desc[1] if desc[1] else "") + "\0\0"
        facts["producer"] = strings([desc[0]])
        facts["title"] = strings([desc[1]]) if desc[1] else []
        text_ = s.encode("utf-16-le")
    n = len(text_) // 2
    size = (88 + len(text_) + 3) // 4 * 4
    body = b"".join(struct.pack("<III", f, 12, 1) for f in funcs) + struct.pack("<IIIII", 14, 20, 0, 16, 20)
    out = struct.pack("<II", 1, size) + struct.pack("<8i", 0, 0, w, h, 0, 0, w, h) + b" EMF" + struct.pack("<HHIIHHIII", 0, 1, size + len(body), 2 + len(funcs), 1, 0, n, 88 if n else 0, ncol)
    out += struct.pack("<iiii", w, h, 320, 240) + text_
    return Media("emf", "wmf", out.ljust(size, b"\0") + body, ".emf", facts)
