"""Generated sounds, with what is known of each one (see media.py)."""
import datetime

from hypothesis import strategies as st

from vh import binary as struct
from vh import media
from vh.media import LATIN, SEED, WORD, Media, noise, ser, strings

AUDIO = {n: media.KINDS[n] for n in ("wav", "au", "aiff")}
TEXT = st.text("abc XYZ.-_09\u00e9\u00fc\u00a9\u03a9\u20ac\u4e2d", min_size=1, max_size=20).map(lambda s: (s.strip(" ") or "x"))
URL = st.text("abcdef./-_09", min_size=1, max_size=20).map(lambda s: "http://" + s)


def kind(name, strategy):
    def deco(func):
        AUDIO[name] = (strategy, func)
        return func
    return deco


def cases(names=None):
    return st.one_of([st.tuples(st.just(n), AUDIO[n][0]) for n in (names or AUDIO)])


def build(case):
    m = AUDIO[case[0]][1](case[1])
    m.kind = case[0]
    return m


def lasting(seconds):
    """Values of a duration"""
    d = datetime.timedelta(seconds=seconds)
    return [d] if datetime.timedelta(milliseconds=1) <= d <= datetime.timedelta(days=365) else []


def within(value, low, high):
    return [value] if low <= value <= high else []


def dates(texts):
    out = []
    for t in texts:
        p = t.split("-")
        if len(p) == 1 and 1900 <= int(t) <= 2030:
            d = datetime.date(int(t), 1, 1)
        elif len(p) == 3:
            d = datetime.date(*map(int, p))
        else:
            continue
        if d not in out:
            out.append(d)
    return out


# --- MPEG audio (ISO 11172-3, 13818-3)

L1 = list(range(32, 449, 32))
L2 = [32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384]
L3 = [32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320]
LOW1 = [32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256]
LOW = [8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160]
KBPS = {("1", 1): L1, ("1", 2): L2, ("1", 3): L3, ("2", 1): LOW1, ("2", 2): LOW, ("2", 3): LOW, ("2.5", 1): LOW1, ("2.5", 2): LOW, ("2.5", 3): LOW}
HZ = {"1": [44100, 48000, 32000], "2": [22050, 24000, 16000], "2.5": [11025, 12000, 8000]}
VERSION = {"1": 3, "2": 2, "2.5": 0}
ROMAN = {1: "I", 2: "II", 3: "III"}


def frame_size(version, layer, kbps, hz, padding):
    if layer == 1:
        return (12 * kbps * 1000 // hz + padding) * 4
    samples = 1152 if layer == 2 or version == "1" else 576
    return samples // 8 * kbps * 1000 // hz + padding


def mpeg_frame(version, layer, index, rate, padding, mode, flags, seed):
    hz = HZ[version][rate]
    kbps = KBPS[version, layer][index - 1]
    crc, private, ext, copyright, original = (flags >> i & 1 for i in range(5))
    head = 0x7ff << 21 | VERSION[version] << 19 | (4 - layer) << 17 | crc << 16 | index << 12 | rate << 10 | padding << 9 | private << 8 | mode << 6 | copyright << 3 | original << 2
    size = frame_size(version, layer, kbps, hz, padding)
    # noise of a block of bytes: frames are numerous
    body = (noise(seed, 61) * (size // 61 + 1))[:size - 4]
    return struct.pack(">I", head) + body


def syncsafe(n):
    return bytes(n >> s & 127 for s in (21, 14, 7, 0))


CHARSETS = {0: ("latin1", b""), 1: ("utf-16-le", b"\xff\xfe"), 4: ("utf-16-be", b"\xfe\xff"), 2: ("utf-16-be", b""), 3: ("utf-8", b"")}


def encode(charset, text, end=False):
    if charset == 0:
        text = text.encode("latin1", "replace").decode("latin1")
    enc, bom = CHARSETS[charset]
    out = bom + text.encode(enc)
    if end:
        out += b"\0" * (2 if enc.startswith("utf-16") else 1)
    return bytes([1 if charset == 4 else charset]), out, text


# name -> (tag of ID3 v2.2, tag of ID3 v2.3 and v2.4, key)
ID3 = {"artist": ("TP1", "TPE1", "author"), "title": ("TT2", "TIT2", "title"), "album": ("TAL", "TALB", "album"), "genre": ("TCO", "TCON", "music_genre"),
       "encoder": ("TEN", "TENC", "producer"), "copyright": (None, "TCOP", "copyright")}
ID3_FRAMES = st.lists(st.one_of(
    st.tuples(st.sampled_from(sorted(ID3)), st.integers(0, 4), TEXT, st.booleans()),
    st.tuples(st.just("comment"), st.integers(0, 4), TEXT, st.none() | TEXT),
    st.tuples(st.just("year"), st.integers(0, 4), st.integers(1950, 2029).map(str), st.none() | st.tuples(st.integers(1, 28), st.integers(1, 12))),
    st.tuples(st.just("track"), st.integers(0, 4), st.integers(1, 99), st.none() | st.integers(1, 99)),
    st.tuples(st.just("url"), st.integers(0, 4), URL, st.none() | TEXT),
    st.tuples(st.just("picture"), st.integers(0, 4), TEXT, SEED),
    st.tuples(st.just("object"), st.integers(0, 4), TEXT, SEED),
    st.tuples(st.just("private"), st.just(0), st.just("x"), SEED),
    st.tuples(st.just("packed"), st.just(0), TEXT, SEED),
), max_size=6)
LAYOUT = st.integers(0, 9)
ID3V2 = st.tuples(st.sampled_from([2, 3, 4]), ID3_FRAMES, st.sampled_from([0, 0, 1, 2, 5, 9, 10, 11, 40, 300]), st.booleans(), st.lists(LAYOUT, min_size=6, max_size=6))


def id3v2(p, add):
    """An ID3v2 tag.  add(key, value) is told of what it contains."""
    import zlib
    version, frames, padding, extended, layouts = p
    out = b""
    seen = set()

    def charset_of(cs):
        return cs if version == 4 or cs < 2 or cs == 4 else 1

    def frame(tag, content, layout=0, compress=False):
        nonlocal out
        if version == 2:
            out += tag.encode() + struct.pack(">I", len(content))[1:] + content
            return
        flags = 0
        size = len(content)
        if version == 3:
            if compress:
                content = struct.pack(">I", size) + zlib.compress(content)
                flags |= 0x80
            if layout in (1, 2):
                # grouping identity
                content = content[:4] + b"\x81" + content[4:] if compress else b"\x81" + content
                flags |= 0x20
            if layout in (2, 3):
                flags |= 0xe000
            out += tag.encode() + struct.pack(">I", len(content)) + struct.pack(">H", flags) + content
        else:
            if compress:
                content = syncsafe(size) + zlib.compress(content)
                flags |= 0x09
            elif layout in (4, 5):
                content = syncsafe(size) + content
                flags |= 0x01
            if layout in (1, 2, 5):
                content = b"\x81" + content
                flags |= 0x40
            if layout in (2, 3):
                flags |= 0x7000
            out += tag.encode() + syncsafe(len(content)) + struct.pack(">H", flags) + content

    for (name, cs, text, more), layout in zip(frames, layouts):
        if name in seen:
            # these tags are unique
            continue
        cs = charset_of(cs)
        if name in ID3:
            tag = ID3[name][version != 2]
            if tag is None:
                continue
            c, t, text = encode(cs, text, more)
            frame(tag, c + t, layout)
            add(ID3[name][2], text)
        elif name == "comment":
            c, title, title_text = encode(cs, more or "", True)
            _, t, text = encode(cs, text)
            frame("COM" if version == 2 else "COMM", c + b"eng" + title + t, layout)
            add("comment", "%s: %s" % (title_text, text) if title_text else text)
        elif name == "year":
            c, t, text = encode(cs, text)
            if more and version == 3:
                day = encode(cs, "%02d%02d" % more)
                if layout % 2:
                    frame("TDAT", day[0] + day[1])
                    frame("TYER", c + t, layout)
                else:
                    frame("TYER", c + t, layout)
                    frame("TDAT", day[0] + day[1])
                add("creation_date", "%s-%02d-%02d" % (text, more[1], more[0]))
            elif version == 2:
                frame("TYE", c + t)
                add("creation_date", text)
            elif version == 3:
                frame("TYER", c + t, layout)
                add("creation_date", text)
        elif name == "track":
            c, t, _ = encode(cs, "%d/%d" % (text, more) if more else "%d" % text)
            frame("TRK" if version == 2 else "TRCK", c + t, layout)
            add("track_number", text)
            if more:
                add("track_total", more)
        elif name == "url":
            if version == 2:
                continue
            c, title, title_text = encode(cs, more or "", True)
            frame("WXXX", c + title + text.encode("ascii"), layout)
            add("url", "%s: %s" % (title_text, text) if title_text else text)
        elif name == "picture":
            c, t, _ = encode(cs, text, True)
            if version == 2:
                frame("PIC", c + b"PNG" + b"\3" + t + noise(more, more % 40))
            else:
                frame("APIC", c + b"image/png\0" + b"\3" + t + noise(more, more % 40), layout)
        elif name == "object":
            c, t, _ = encode(cs, text, True)
            frame("GEO" if version == 2 else "GEOB", c + b"text/plain\0" + t + t + noise(more, more % 40), layout)
        elif name == "private":
            if version != 2:
                frame("PRIV", b"owner\0" + noise(more, 1 + more % 40), layout)
        elif name == "packed":
            # a compressed frame isn't read
            if version != 2:
                frame("TCOM", b"\0" + text.encode("latin1", "replace"), layout, True)
        seen.add(name)
    flags = 0
    if extended and version != 2:
        flags |= 0x40
        if version == 3:
            out = struct.pack(">IHI", 6, 0, padding) + out
        else:
            out = syncsafe(6) + b"\1\0" + out
    out += bytes(padding)
    if not out:
        # a tag has a frame at least
        out += bytes(10)
    return b"ID3" + bytes([version, 0, flags]) + syncsafe(len(out)) + out


ID3V1 = st.tuples(LATIN, LATIN, LATIN, st.none() | st.integers(1950, 2029), st.text("abc XYZ.-_09\u00e9", max_size=30).map(lambda s: s.strip(" ")), st.none() | st.integers(1, 255),
                  st.sampled_from([0, 5, 17, 31, 32, 33, 255]), st.sampled_from([b"\0", b" "]))


def id3v1(p, add):
    title, artist, album, year, comment, track, genre, fill = p

    def field(text, size):
        return text.encode("latin1")[:size].ljust(size, fill)
    if track is not None:
        comment = comment[:28].strip(" ")
        end = field(comment, 28) + b"\0" + bytes([track])
        add("track_number", track)
    else:
        end = field(comment, 30)
    add("comment", comment)
    add("author", artist)
    add("title", title)
    add("album", album)
    if year:
        add("creation_date", str(year))
    return b"TAG" + field(title, 30) + field(artist, 30) + field(album, 30) + field(str(year) if year else "", 4) + end + bytes([genre])


FRAMES = st.tuples(st.sampled_from(["1", "2", "2.5"]), st.integers(1, 3), st.lists(st.integers(1, 14), min_size=1, max_size=3), st.integers(0, 2), st.integers(0, 3), st.integers(0, 31),
                   st.sampled_from([1, 2, 3, 5, 6, 9, 12, 13, 20, 40]), SEED)


@kind("mp3", st.tuples(st.none() | ID3V2, st.none() | FRAMES, st.none() | ID3V1).filter(lambda p: any(p)))
def mp3(p):
    v2, frames, v1 = p
    facts = {}
    got = {}

    def add(key, value):
        got.setdefault(key, []).append(value)
    tail = id3v1(v1, add) if v1 else b""
    out = id3v2(v2, add) if v2 else b""
    if not v2 and v1 and not frames:
        # only a tag
        frames = ("1", 3, [9], 0, 0, 0, 5, 1)
    bounds = None
    if frames:
        version, layer, indexes, rate, mode, flags, count, seed = frames
        body = b""
        rates = set()
        for i in range(count):
            index = indexes[(seed >> (i % 16)) % len(indexes)]
            rates.add(KBPS[version, layer][index - 1] * 1000)
            body += mpeg_frame(version, layer, index, rate, (seed >> i) & 1, mode, flags, seed + i)
        out += body
        facts["nb_channel"] = [1 if mode == 3 else 2]
        facts["sample_rate"] = [HZ[version][rate]]
        facts["format_version"] = ["MPEG version %s layer %s" % (version, ROMAN[layer])]
        facts["bits_per_sample"] = [16]
        if len(rates) == 1:
            r = rates.pop()
            secs = len(body) * 8 / r
            facts["bit_rate"] = [r]
            facts["duration"] = lasting(secs)
            facts["compr_rate"] = [datetime.timedelta(seconds=secs).total_seconds() * HZ[version][rate] * 16 * (1 if mode == 3 else 2) / (len(body) * 8)]
        else:
            bounds = (min(rates), max(rates), len(body) * 8, count)
    got.setdefault("author", [])
    for key in ("author", "title", "album", "comment", "music_genre", "producer", "copyright", "url"):
        facts[key] = strings(got.get(key, []))
    facts["creation_date"] = dates(got.get("creation_date", []))
    facts["track_number"] = got.get("track_number", [])
    facts["track_total"] = got.get("track_total", [])
    # (nothing else: no metadata at all)
    facts["mime_type"] = ["audio/mpeg"] if any(facts.values()) or bounds else []
    return Media("mp3", "mpeg_audio", out + tail, ".mp3", facts, bounds=bounds)


# --- AIFF

CODEC = {b"NONE": "None", b"sowt": "Little-endian, no compression"}


@kind("aiff-chunks", st.tuples(st.sampled_from([None, b"NONE", b"sowt"]), st.integers(1, 8), st.sampled_from([1, 8, 12, 16, 24, 32]), st.sampled_from([1000, 8000, 11025, 44100, 96000, 192000]),
                               st.integers(0, 10**6), st.lists(st.sampled_from(["COMT", "COMT2", "odd", "even", "NAME", "empty", "FVER", "ID3"]), max_size=4), st.booleans(), SEED))
def aiff_chunks(p):
    codec, ch, bits, rate, n, others, first, seed = p

    def chunk(tag, content):
        return tag + struct.pack(">I", len(content)) + content + bytes(len(content) % 2)
    comm = chunk(b"COMM", struct.pack(">HIH", ch, n, bits) + media.float80(rate) + (codec + b"\0\0" if codec else b""))
    more = b""
    for i, o in enumerate(others):
        if o == "COMT":
            more += chunk(b"COMT", struct.pack(">HIHH", 1, 2909606400 + seed % 1000, 0, 4) + b"text")
        elif o == "COMT2":
            more += chunk(b"COMT", struct.pack(">HIHH", 2, 2909606400, 1, 5) + b"first\0" + struct.pack(">IHH", 2909606400, 0, 0))
        elif o == "odd":
            more += chunk(b"xYz ", noise(seed, 7))
        elif o == "even":
            more += chunk(b"APPL", noise(seed, 8))
        elif o == "NAME":
            more += chunk(b"NAME", b"a name"[:1 + seed % 6])
        elif o == "empty":
            more += chunk(b"ANNO", b"")
        elif o == "FVER":
            more += chunk(b"FVER", struct.pack(">I", 0xa2805140))
        else:
            more += chunk(b"ID3 ", id3v2((3, [("title", 0, "t", True)], 0, False, [0] * 6), lambda *a: None))
    sound = chunk(b"SSND", struct.pack(">II", seed % 5, seed % 10007) + noise(seed, 5 + seed % 50))
    body = (b"AIFC" if codec else b"AIFF") + (comm + more + sound if first else more + comm + sound)
    facts = {"nb_channel": [ch], "bits_per_sample": [bits], "sample_rate": [rate], "bit_rate": [ch * bits * rate], "duration": lasting(n / rate),
             "compression": [CODEC[codec]] if codec else [], "mime_type": ["audio/x-aiff"]}
    return Media("aiff", "aiff", b"FORM" + struct.pack(">I", len(body)) + body, ".aif", facts, tags=["COMM"] + others)


# --- Vorbis comments, FLAC, Ogg

VORBIS = {"ARTIST": "artist", "ALBUM": "album", "TITLE": "title", "ENCODER": "producer", "LOCATION": "location", "ORGANIZATION": "organization", "GENRE": "music_genre",
          "COMPOSER": "music_composer", "DESCRIPTION": "comment", "COMMENT": "comment", "WWW": "url", "LICENSE": "copyright", "TRACKNUMBER": "track_number", "TRACKTOTAL": "track_total",
          "DATE": "creation_date", "ISRC": None, "PERFORMER": None}
COMMENTS = st.lists(st.one_of(
    st.tuples(st.sampled_from(sorted(k for k, v in VORBIS.items() if v not in ("track_number", "track_total", "creation_date"))), TEXT),
    st.tuples(st.just("DATE"), st.one_of(st.integers(1950, 2029).map(str), st.dates(datetime.date(1950, 1, 1), datetime.date(2029, 12, 31)).map(str))),
    st.tuples(st.just("TRACKNUMBER"), st.one_of(st.integers(1, 99).map(str), st.tuples(st.integers(1, 99), st.integers(1, 99)).map(lambda t: "%d/%d" % t))),
    st.tuples(st.just("TRACKTOTAL"), st.integers(1, 99).map(str)),
    st.tuples(st.just("TITLE"), st.just("a=b")),
), max_size=8)


def vorbis_comment(vendor, items, upper, facts):
    got = {"producer": [vendor]}
    out = struct.pack("<I", len(vendor.encode())) + vendor.encode() + struct.pack("<I", len(items))
    for i, (key, text) in enumerate(items):
        name = VORBIS[key]
        if name == "track_number" and "/" in text:
            number, total = text.split("/")
            got.setdefault("track_number", []).append(number)
            got.setdefault("track_total", []).append(total)
        elif name:
            got.setdefault(name, []).append(text)
        raw = ("%s=%s" % (key if upper >> i & 1 else key.lower(), text)).encode()
        out += struct.pack("<I", len(raw)) + raw
    for name in set(VORBIS.values()):
        if name is None:
            continue
        values = got.get(name, [])
        if name == "creation_date":
            facts[name] = dates(values)
        elif name in ("track_number", "track_total"):
            facts[name] = [int(v) for v in values]
        else:
            facts[name] = strings(values)
    return out


@kind("flac", st.tuples(st.integers(1, 8), st.integers(4, 32), st.one_of(st.integers(1000, 192000), st.sampled_from([8000, 44100, 48000, 96000, 192000])), st.one_of(st.integers(0, 10**7), st.just(2**36 - 1)),
                        st.lists(st.sampled_from(["padding", "application", "seek", "cue", "picture", "comment", "empty", "unknown"]), max_size=5, unique=True), TEXT, COMMENTS, st.integers(0, 255), SEED))
def flac(p):
    ch, bits, rate, n, blocks, vendor, items, upper, seed = p
    facts = {"nb_channel": [ch], "bits_per_sample": [bits], "sample_rate": [rate], "duration": lasting(n / rate), "mime_type": ["audio/x-flac"]}
    for name in set(VORBIS.values()):
        if name:
            facts[name] = []
    info = struct.pack(">HHTT", 4096, 4096 + seed % 1013, seed % 8009, seed % 2**24) + (rate << 44 | (ch - 1) << 41 | (bits - 1) << 36 | n).to_bytes(8, "big") + noise(seed, 16)
    parts = [(0, info)]
    for b in blocks:
        if b == "padding":
            parts.append((1, bytes(seed % 50 + 1)))
        elif b == "application":
            parts.append((2, b"test" + noise(seed, 5)))
        elif b == "seek":
            parts.append((3, struct.pack(">QQH", 0, 0, 4096) * (1 + seed % 3)))
        elif b == "cue":
            parts.append((5, noise(seed, 60)))
        elif b == "picture":
            parts.append((6, noise(seed, 33)))
        elif b == "empty":
            parts.append((1, b""))
        elif b == "unknown":
            parts.append((100, noise(seed, 12)))
        else:
            parts.append((4, vorbis_comment(vendor, items, upper, facts)))
    out = b"fLaC"
    for i, (tag, content) in enumerate(parts):
        out += bytes([tag | (128 if i == len(parts) - 1 else 0)]) + struct.pack(">I", len(content))[1:] + content
    return Media("flac", "flac", out + b"\xff\xf8\xc9\x18\0" + noise(seed, seed % 30), ".flac", facts, blocks=len(parts))


def ogg_page(serial, number, packets, granule, first=False, last=False, continued=False, unfinished=False):
    """A page of whole packets (the last one goes on in the next page if `unfinished`: its size is then a multiple of 255)"""
    lacing = b""
    for i, data in enumerate(packets):
        lacing += b"\xff" * (len(data) // 255)
        if not (unfinished and i == len(packets) - 1):
            lacing += bytes([len(data) % 255])
    assert len(lacing) <= 255
    return b"OggS\0" + bytes([continued | first << 1 | last << 2]) + struct.pack("<QIII", granule & 2**64 - 1, serial, number, 0) + bytes([len(lacing)]) + lacing + b"".join(packets)


OGG_STREAM = st.one_of(
    st.tuples(st.just("vorbis"), st.integers(1, 8), st.sampled_from([8000, 22050, 44100, 48000, 192000]), st.sampled_from([0, 64000, 128000, 499821, 0xffffffff])),
    st.tuples(st.just("theora"), st.integers(1, 2000), st.integers(1, 2000), st.tuples(st.integers(1, 60000), st.integers(1, 1001), st.integers(0, 20), st.integers(1, 20), st.integers(0, 63))),
    st.tuples(st.just("video"), st.integers(1, 2000), st.integers(1, 2000), st.integers(66667, 9999999)),
    st.tuples(st.just("other"), st.just(0), st.just(0), st.just(0)),
)


@kind("ogg", st.tuples(st.lists(OGG_STREAM, min_size=1, max_size=2, unique_by=lambda s: s[0]), st.integers(1, 10**7), st.integers(0, 4), TEXT, COMMENTS, st.integers(0, 255), st.booleans(), SEED))
def ogg(p):
    streams, position, pages, vendor, items, upper, comment, seed = p
    facts = {}
    groups = []
    heads = []
    rate = None
    for name in set(VORBIS.values()):
        if name:
            facts[name] = []
    for i, (codec, a, b, c) in enumerate(streams):
        if codec == "vorbis":
            heads.append(b"\1vorbis" + struct.pack("<IBIIIIBB", 0, a, b, (c + seed % 1009) % 2**32, c, seed % 997, 0xb8, 1))
            groups.append({"compression": ["Vorbis"], "nb_channel": [a], "sample_rate": [b], "bit_rate": within(c, 1, 500 * 2**20), "format_version": ["Vorbis version 0"]})
            rate = rate or (i, b)
        elif codec == "theora":
            num, den, an, ad, quality = c
            # (the picture lies somewhere in the coded frame; the other numbers mean nothing for the metadata)
            heads.append(b"\x80theora" + struct.pack(">BBBHHTTBBIITTBTH#theora", 3, 2, 1, (a + 15) // 16, (b + 15) // 16, a, b, seed % 16, seed // 16 % 16,
                                                     num, den, an, ad, seed % 3, seed % 2**24, quality << 10 | (seed % 32) << 5))
            groups.append({"compression": ["Theora"], "width": [a], "height": [b], "frame_rate": within(num / den, 1, 150), "format_version": ["Theora version 3.2 (revision 1)"],
                           "pixel_format": ["4:2:0"], "comment": ["Quality: %d" % quality]})
        elif codec == "video":
            heads.append(b"\1video\0\0\0DIVX" + struct.pack("<IQQIIHHIII", 52, c, 1 + seed % 77, seed % 5003, 4096 + seed % 211, 24, 0, a, b, 0))
            fps = within(10000000.0 / c, 1, 150)
            groups.append({"width": [a], "height": [b], "frame_rate": fps, "bits_per_pixel": [24]})
            if fps:
                rate = rate or (i, fps[0])
        else:
            heads.append(b"fishead\0" + noise(seed, 50))
    out = b"".join(ogg_page(100 + i, 0, [h], 0, first=True) for i, h in enumerate(heads))
    numbers = [1] * len(heads)
    for i, (codec, a, b, c) in enumerate(streams):
        if comment and codec in ("vorbis", "theora"):
            prefix = b"\3vorbis" if codec == "vorbis" else b"\x81theora"
            out += ogg_page(100 + i, 1, [prefix + vorbis_comment(vendor, items, upper, facts) + (b"\1" if codec == "vorbis" else b""), noise(seed, 300)], 0)
            numbers[i] = 2
            comment = False
    ends = list(range(len(heads)))
    if seed & 1:
        ends.reverse()
    goes_on = [False] * len(heads)
    for n in range(pages):
        i = n % len(heads)
        more = bool(seed >> n & 2)
        packets = [noise(seed + n, 255 if more and j == 1 else (seed >> j) % 300) for j in range(2)]
        out += ogg_page(100 + i, numbers[i], packets, position * (n + 1) // (pages + 1), continued=goes_on[i], unfinished=more)
        goes_on[i] = more
        numbers[i] += 1
    for i in ends:
        out += ogg_page(100 + i, numbers[i], [noise(seed, 20)], position if rate and rate[0] == i else position // 2 + 7, last=True, continued=goes_on[i])
    facts["duration"] = lasting(position / rate[1]) if rate else []
    names = {s[0] for s in streams[:1]}
    facts["mime_type"] = ["video/theora" if "theora" in names else "audio/vorbis" if "vorbis" in names else "application/ogg"] if groups or any(facts.values()) else []
    m = Media("ogg", "ogg", out, ".ogg", facts, groups)
    m.description = "Ogg/Theora video" if "theora" in names else "Ogg/Vorbis audio" if "vorbis" in names else "Ogg multimedia container"
    return m


# --- Real

def pascal8(text):
    return bytes([len(text)]) + text.encode("latin1")


REAL_RATE = {"28_8": 15200, "14_4": 8000, "lpcJ": 8000}


@kind("ra", st.tuples(st.sampled_from([3, 4]), st.lists(st.just("") | LATIN, min_size=4, max_size=4), st.sampled_from(["28_8", "14_4", "lpcJ", "dnet", "sipr"]), st.integers(1, 3000),
                      st.sampled_from([8000, 11025, 22050, 44100]), st.integers(1, 2), SEED))
def ra(p):
    version, texts, fourcc, n, rate, ch, seed = p
    info = b"".join(pascal8(t) for t in texts)
    data = noise(seed, n)
    if version == 3:
        rate, ch = 8000, 1
        body = bytes(10) + struct.pack(">I", n) + info + b"\0" + pascal8(fourcc)
        out = b".ra\xfd\0\3" + struct.pack(">H", len(body)) + body
    else:
        tail = struct.pack(">HIIIIHHHHHHHH", 2, 38 + seed % 211, 0, 0, 0, 12 + seed % 7, 38 + seed % 503, seed % 5003, 0, rate, 0, 16, ch) + pascal8("Int0") + pascal8(fourcc) + bytes(3) + info
        # sizes: the whole file minus 40 bytes, the header minus 16 bytes
        header = 22 + len(tail)
        out = b".ra\xfd\0\4\0\0.ra4" + struct.pack(">IHI", header + n - 40, 4, header - 16) + tail
        assert len(out) == header
    bits = REAL_RATE.get(fourcc)
    facts = {"title": strings(texts[:1]), "author": strings(texts[1:2]), "copyright": strings(texts[2:3]), "comment": strings(texts[3:]), "nb_channel": [ch], "sample_rate": [rate],
             "compression": [fourcc], "format_version": ["Real audio version %d" % version], "bit_rate": [bits] if bits else [], "duration": lasting(n * 8 / bits) if bits else []}
    return Media("ra", "real_audio", out + data, ".ra", facts)


def pascal16(text):
    return struct.pack(">H", len(text)) + text.encode("latin1")


@kind("rm", st.tuples(st.integers(1, 10**6), st.integers(1, 10**7), st.none() | st.lists(st.just("") | LATIN, min_size=4, max_size=4),
                      st.lists(st.tuples(st.booleans(), st.integers(1, 10**6), st.integers(1, 10**7), LATIN), max_size=3), st.lists(st.tuples(st.sampled_from(["Generated By", "Creation Date", "Description", "Foo"]), LATIN), max_size=3),
                      SEED))
def rm(p):
    bits, ms, texts, streams, props, seed = p

    def chunk(tag, content, version=0):
        return tag + struct.pack(">IH", len(content) + 10, version) + content
    out = chunk(b".RMF", struct.pack(">II", 0, 3 + len(streams)), 1)
    out += chunk(b"PROP", struct.pack(">IIIIIIIIIHH", bits, bits, 100, 50, 3, ms, 0, 0, 0, len(streams), 7))
    facts = {"bit_rate": [bits], "duration": lasting(ms / 1000), "title": [], "author": [], "copyright": [], "comment": [], "producer": []}
    comment = []
    if texts:
        out += chunk(b"CONT", b"".join(pascal16(t) for t in texts))
        for key, t in zip(("title", "author", "copyright", "comment"), texts):
            facts[key] = strings([t])
        comment.append(texts[3])
    groups = []
    for i, (video, b, d, text) in enumerate(streams):
        mime = "video/x-pn-realvideo" if video else "audio/x-pn-realaudio"
        spec = noise(seed, seed % 20)
        out += chunk(b"MDPR", struct.pack(">HIIIIIII", i, b, b, 100, 50, 5 * i, 0, d) + pascal8(text) + pascal8(mime) + struct.pack(">I", len(spec)) + spec)
        groups.append({"bit_rate": [b], "duration": lasting(d / 1000), "mime_type": [mime], "title": [text], "comment": ["Start: %d" % (5 * i)]})
    if props:
        info = b""
        label = ["", "file info"][seed % 2]
        for key, text in props:
            value = text if key != "Creation Date" else "2006-01-02 03:04:05"
            body = struct.pack(">H", 0) + pascal8(key) + struct.pack(">I", 2) + pascal16(value)
            info += struct.pack(">I", len(body) + 4) + body
            if key == "Generated By":
                facts["producer"] = strings(facts["producer"] + [text])
            elif key == "Creation Date":
                facts["creation_date"] = [datetime.datetime(2006, 1, 2, 3, 4, 5)]
            elif key == "Description":
                comment.append(text)
        body = struct.pack(">HHHHH", 0, 1, 3, 0, 0) + struct.pack(">H", len(props)) + info
        body = struct.pack(">I", len(body) + 4) + body
        out += chunk(b"MDPR", struct.pack(">HIIIIIII", len(streams), 0, 0, 0, 0, 0, 0, 0) + pascal8(label) + pascal8("logical-fileinfo") + struct.pack(">I", len(body)) + body)
        groups.append({"bit_rate": [], "duration": [], "mime_type": [], "title": strings([label]), "comment": ["Start: 0"]})
    facts["comment"] = strings(comment)
    out += chunk(b"DATA", struct.pack(">II", 3, 0) + noise(seed, seed % 64))
    facts["mime_type"] = ["video/x-pn-realvideo" if any(s[0] for s in streams) else "audio/x-pn-realaudio"]
    return Media("rm", "real_media", out, ".rm", facts, groups)
