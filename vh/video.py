"""Generated videos, with what is known of each one (see media.py)."""
import datetime
import uuid

from hypothesis import strategies as st

from vh import binary as struct
from vh.audio import TEXT, lasting, within
from vh.media import INFOS, SEED, WORD, Media, info_list, noise, ser, strings

VIDEO = {}
SIDE = st.one_of(st.integers(1, 20), st.sampled_from([320, 640, 1080, 1920, 4096, 20000]))
DATES = st.datetimes(datetime.datetime(1950, 1, 1), datetime.datetime(2029, 12, 31)).map(lambda d: d.replace(microsecond=0))


def kind(name, strategy):
    def deco(func):
        VIDEO[name] = (strategy, func)
        return func
    return deco


def cases(names=None):
    return st.one_of([st.tuples(st.just(n), VIDEO[n][0]) for n in (names or VIDEO)])


def build(case):
    m = VIDEO[case[0]][1](case[1])
    m.kind = case[0]
    return m


def human_size(n):
    if n < 10000:
        return "%d bytes" % n
    n /= 1024
    return "%.1f KB" % n


# --- RIFF: AVI, animated cursor

FOURCC = {b"XVID": "Xvid MPEG-4", b"DIVX": "OpenDivX", b"MJPG": "Motion JPEG", b"QQQQ": "QQQQ"}
AVI_AUDIO = {1: "Microsoft Pulse Code Modulation (PCM)", 0x55: "MPEG Layer 3", 0x2000: "AC3"}
AVI_VIDEO = st.tuples(st.sampled_from(sorted(FOURCC)), st.integers(1, 60000), st.sampled_from([1, 100, 1001]), st.integers(0, 10**5), SIDE, SIDE, st.sampled_from([16, 24, 32]), st.booleans())
AVI_SOUND = st.tuples(st.sampled_from(sorted(AVI_AUDIO)), st.integers(1, 8), st.sampled_from([8000, 44100, 48000]), st.integers(100, 200000), st.sampled_from([0, 8, 16]),
                      st.sampled_from([1, 1152]), st.integers(1, 48000), st.integers(0, 10**6), st.integers(0, 2))


@kind("avi", st.tuples(st.none() | AVI_VIDEO, st.lists(AVI_SOUND, max_size=2), st.tuples(st.integers(0, 10**6), st.integers(0, 5000), SIDE, SIDE), st.none() | DATES, INFOS,
                       st.integers(0, 4), st.integers(0, 5), st.booleans(), SEED))
def avi(p):
    video, sounds, (micro, frames, w, h), when, infos, entries, junk, early, seed = p
    facts = {"title": [], "artist": [], "comment": [], "copyright": [], "author": [], "producer": [], "creation_date": []}
    groups = []
    out = b""
    last = None
    body = ser(b"avih", struct.pack("<IIIIIIIIIIIIII", micro, seed % 700001, 0, 0x10, frames, seed % 1009, 1 + len(sounds), seed % 70001, w, h, 0, 0, 0, 0))
    streams = []
    if video:
        cc, rate, scale, length, vw, vh, depth, fmt = video
        head = struct.pack("<4s4sIHHIIIIIIIIHHHH", b"vids", cc, seed % 65537, seed % 7, 0, seed % 31, scale, rate, seed % 5003, length, seed % 90001, seed % 10001, seed % 4093, seed % 17, seed % 19, vw + seed % 17, vh + seed % 19)
        strf = struct.pack("<IiiHHIIIIII", 40, vw, vh, 1, depth, 0, 0, 0, 0, 0, 0) if fmt else b"\0" * 8
        streams.append((ser(b"strh", head), ser(b"strf", strf)))
        last = lasting(length * scale / rate)
        groups.append({"width": [vw], "height": [vh], "bits_per_pixel": [depth] if fmt else [], "frame_rate": within(rate / scale, 1, 150), "duration": last})
        if length * scale / rate > 365 * 86400:
            groups[-1]["duration"] = last = []
    for codec, ch, hz, byterate, bits, scale, rate, length, odd in sounds:
        head = struct.pack("<4s4sIHHIIIIIIIIHHHH", b"auds", b"", seed % 65539, seed % 11, 0, seed % 37, scale, rate, seed % 5009, length, seed % 90007, 2**32 - 1, 1 + seed % 8, 0, 0, 0, 0)
        strf = struct.pack("<HHIIHH", codec, ch, hz, byterate, 4, bits) + (b"\0\0" if odd else b"") + (bytes(9) if odd == 2 else b"")
        streams.append((ser(b"strh", head), ser(b"strf", strf)))
        groups.append({"nb_channel": [ch], "sample_rate": [hz], "bit_rate": within(byterate * 8, 1, 500 * 2**20), "bits_per_sample": [bits] if bits else [],
                       "duration": lasting(length * scale / rate), "compression": [AVI_AUDIO[codec]], "compr_rate": within(ch * hz * (bits or 16) / (byterate * 8), 0.001, 1000.0)})
    for i, (head, fmt) in enumerate(streams):
        extra = ser(b"strn", b"a name\0") if seed >> i & 1 else b""
        body += ser(b"LIST", b"strl" + head + fmt + extra + (ser(b"JUNK", bytes(junk)) if junk else b""))
    if when:
        body += ser(b"IDIT", when.strftime("%a %b %d %H:%M:%S %Y").encode() + b"\n\0")
        facts["creation_date"] = [when]
    if seed & 64:
        # unknown chunks
        body += ser(b"xyzw", noise(seed, 5)) + ser(b"LIST", b"abcd" + ser(b"XYZW", noise(seed, 2)))
    if early:
        # an empty chunk at the end of a list
        body += ser(b"JUNK", b"")
    out += ser(b"LIST", b"hdrl" + body)
    facts.update({"width": [w], "height": [h], "frame_rate": within(1000000.0 / micro, 1, 150) if micro else []})
    if not last:
        last = lasting(micro * frames / 1e6) if micro and frames else []
    facts["duration"] = last
    info = info_list(infos, facts)
    facts.setdefault("comment", [])
    if early:
        out += info
    movi = b"movi" + ser(b"00dc", noise(seed, seed % 99)) + ser(b"01wb", noise(seed, seed % 31))
    out += ser(b"LIST", movi)
    if last:
        facts["bit_rate"] = within(len(movi) * 8 / last[0].total_seconds(), 1, 500 * 2**20)
    else:
        facts["bit_rate"] = []
    if entries:
        index = ser(b"idx1", struct.pack("<4sIII", b"00dc", 16, 4, 8) * entries)
        out += index
        facts["comment"] = strings(["Has audio/video index (%s)" % human_size(len(index))] + facts["comment"])
    if not early:
        out += info
    facts["mime_type"] = ["video/x-msvideo"]
    facts["endian"] = ["Little endian"]
    return Media("avi", "riff", b"RIFF" + struct.pack("<I", len(out) + 4) + b"AVI " + out, ".avi", facts, groups)


@kind("ani", st.tuples(st.integers(1, 200), st.none() | st.lists(st.integers(1, 60), min_size=1, max_size=160), st.booleans(), INFOS, st.booleans(), SEED))
def ani(p):
    jiffies, rates, seq, infos, first, seed = p
    facts = {k: [] for k in ("title", "artist", "comment", "copyright", "author", "producer")}
    n = len(rates) if rates else 2
    out = ser(b"anih", struct.pack("<IIIIIIIIII"[:-1], 36, n, n, 0, 0, 0, 0, jiffies, 3 if seq else 1))
    info = info_list(infos, facts)
    if first:
        out += info
    if rates:
        out += ser(b"rate", struct.pack("<%dI" % n, *rates))
    if seq:
        out += ser(b"seq ", struct.pack("<%dI" % n, *range(n)))
    icon = struct.pack("<HHHBBBBHHII", 0, 2, 1, 1, 1, 2, 0, 0, 0, 56, 22) + struct.pack("<IIIHHIIIIII", 40, 1, 2, 1, 1, 0, 4, 0, 0, 0, 0) + bytes(8) + bytes(8)
    out += ser(b"LIST", b"fram" + ser(b"icon", icon) * 2)
    if not first:
        out += info
    if rates:
        # (the first ones only, if they are many)
        fast = [r for r in rates[:100]]
        facts["frame_rate"] = within(len(fast) * 60 / sum(fast), 1, 150)
    if not rates or not facts["frame_rate"]:
        facts["frame_rate"] = within(60 / jiffies, 1, 150)
    return Media("ani", "riff", b"RIFF" + struct.pack("<I", len(out) + 4) + b"ACON" + out, ".ani", facts)


# --- ASF

def guid(text):
    return uuid.UUID(text).bytes_le


def asf_object(g, content):
    return guid(g) + struct.pack("<Q", 24 + len(content)) + content


def wide(text, end=True):
    return text.encode("utf-16-le") + (b"\0\0" if end else b"")


ASF_AUDIO = {1: "Microsoft Pulse Code Modulation (PCM)", 0x161: "Windows Media Audio V7 / V8 / V9", 0x55: "MPEG Layer 3"}
ASF_STREAM = st.one_of(
    st.tuples(st.just("audio"), st.sampled_from(sorted(ASF_AUDIO)), st.integers(1, 8), st.sampled_from([8000, 44100, 48000]), st.sampled_from([8, 16, 24]), st.integers(0, 20)),
    st.tuples(st.just("video"), SIDE, SIDE, st.sampled_from([b"WMV1", b"WMV3", b"MP43"]), st.sampled_from([12, 16, 24, 32]), st.integers(0, 20)),
    st.tuples(st.just("other"), st.integers(1, 40), st.just(0), st.just(0), st.just(0), st.just(0)),
)
ASF_DESC = st.lists(st.one_of(
    st.tuples(st.sampled_from(["WM/AlbumTitle", "WM/Encoder", "WM/AlbumArtist", "Foo", "WM/Foo", "WM/a/Year", "WM/SharedUserRating/Encoder"]), st.just(0), TEXT),
    st.tuples(st.just("WM/Year"), st.just(0), st.integers(1950, 2029).map(str)),
    st.tuples(st.just("WM/TrackNumber"), st.sampled_from([0, 3]), st.integers(1, 99)),
    st.tuples(st.just("IsVBR"), st.just(2), st.integers(0, 1)),
    st.tuples(st.just("Number"), st.sampled_from([3, 4, 5]), st.integers(1, 65535)),
    st.tuples(st.just("WM/Binary"), st.just(1), st.integers(1, 255)),
    st.tuples(st.just("WMFSDKVersion"), st.just(0), st.just("9.0")),
), max_size=6, unique_by=lambda d: d[0].split("/", 1)[-1])


def filetime(d):
    delta = d - datetime.datetime(1601, 1, 1)
    return (delta.days * 86400 + delta.seconds) * 10**7


@kind("asf", st.tuples(st.lists(ASF_STREAM, max_size=4), st.none() | st.tuples(DATES, st.integers(0, 10**7), st.integers(0, 5000), st.booleans(), st.integers(1, 10**8)),
                       st.none() | st.tuples(*[st.just("") | TEXT] * 5), st.none() | ASF_DESC, st.none() | st.permutations(range(4)), st.none() | st.tuples(TEXT, TEXT), st.booleans(), st.integers(1, 100), SEED))
def asf(p, total=None):
    # total: size of the file, computed by a first call
    streams, prop, texts, descs, rates, tool, codecs, base, seed = p
    facts = {k: [] for k in ("title", "author", "copyright", "album", "producer", "comment", "creation_date", "duration", "bit_rate", "track_number", "track_total")}
    groups = []
    parts = []
    comments = []
    names = []
    vbr = None
    entries = list(descs or [])
    if tool:
        entries += [("ToolName", 0, tool[0]), ("WM/ToolVersion", 0, tool[1])]
    if descs is not None or tool:
        body = struct.pack("<H", len(entries))
        values = {}
        for name, typ, value in entries:
            if typ == 0:
                raw = wide(str(value))
            elif typ in (2, 3):
                raw = struct.pack("<I", value)
            elif typ == 4:
                raw = struct.pack("<Q", value)
            elif typ == 5:
                raw = struct.pack("<H", value)
            else:
                raw = bytes([value])
            n = wide(name)
            body += struct.pack("<H", len(n)) + n + struct.pack("<HH", typ, len(raw)) + raw
            values[name.split("/", 1)[-1]] = value
        if tool:
            facts["producer"].append("%s (version %s)" % (tool[0], tool[1]))
            values.pop("ToolName")
            values.pop("ToolVersion")
        for name, value in values.items():
            if name == "AlbumTitle":
                facts["album"] = [value]
            elif name == "Encoder":
                facts["producer"].append(value)
            elif name == "AlbumArtist":
                facts["author"] = [value]
            elif name == "Year":
                facts["creation_date"] = [datetime.date(int(value), 1, 1)]
            elif name == "TrackNumber":
                facts["track_number"] = [int(value)]
            elif name == "IsVBR":
                vbr = value
            elif name not in ("WMFSDKVersion", "Binary"):
                comments.append("%s=%s" % (name, value))
        facts["producer"] = strings(facts["producer"])
        parts.append(asf_object("D2D0A440-E307-11D2-97F0-00A0C95EA850", body))
    text = None
    if prop:
        when, ticks, preroll, seekable, bits = prop
        parts.append(asf_object("8CABDCA1-A947-11CF-8EE4-00C00C205365", guid("12345678-1234-1234-1234-123456789abc") + struct.pack("<QQQQQQIIII", total or 0, filetime(when), 1, ticks * 10**4 + preroll * 10**4,
                                ticks * 10**4, preroll, 2 if seekable else 0, 100, 100, bits)))
        facts["creation_date"] = facts["creation_date"] + [when]
        facts["duration"] = lasting(ticks / 1000)
        facts["bit_rate"] = [bits]
        text = (bits, vbr)
        if seekable:
            comments.append("Is seekable")
    numbers = [(i + base) % 127 + 1 for i in range(len(streams))]
    order = [i for i in (rates or []) if i < len(streams)]
    for i, (typ, a, b, c, d, e) in enumerate(streams):
        if typ == "audio":
            g = "F8699E40-5B4D-11CF-A8FD-00805F5C442B"
            data = struct.pack("<HHIIHHH", a, b, c, 16000, 1, d, e) + noise(seed, e)
            fact = {"compression": [ASF_AUDIO[a]], "nb_channel": [b], "sample_rate": [c], "bits_per_sample": [d]}
        elif typ == "video":
            g = "BC19EFC0-5B4D-11CF-A8FD-00805F5C442B"
            data = struct.pack("<IIBH", a, b, 2, 40 + e) + struct.pack("<IIIHH4sIIIII", 40 + e, a, b, 1, d, c, 0, 0, 0, 0, 0) + noise(seed, e)
            fact = {"width": [a], "height": [b], "bits_per_pixel": [d]}
        else:
            g = "59DACFC0-59E6-11D0-A3AC-00A0C90348F6"
            data = noise(seed, a)
            fact = None
        content = guid(g) + guid("20FB5700-5B55-11CF-A8FD-00805F5C442B") + struct.pack("<QIIHI", 0, len(data), seed % 9, numbers[i], 0) + data + noise(seed, seed % 9)
        parts.append(asf_object("B7DC0791-A9B7-11CF-8EE6-00C00C205365", content))
        if fact is not None:
            fact["bit_rate"] = [64000 + 1000 * i] if i in order else []
            groups.append(fact)
    if rates:
        parts.append(asf_object("7BF875CE-468D-11D1-8D82-006097C9A2B2", struct.pack("<H", len(order)) + b"".join(struct.pack("<HI", numbers[i], 64000 + 1000 * i) for i in order)))
    if codecs:
        one = struct.pack("<HH", 2, 5) + wide("WMA9") + struct.pack("<HHH", 0, 2, 0x161)
        parts.append(asf_object("86D15240-311D-11D0-A3A4-00A0C90348F6", guid("86D15241-311D-11D0-A3A4-00A0C90348F6") + struct.pack("<I", 2) + one + struct.pack("<HHHH", 1, 0, 0, 0)))
    if texts:
        raws = [wide(t) if t else b"" for t in texts]
        parts.append(asf_object("75B22633-668E-11CF-A6D9-00AA0062CE6C", struct.pack("<5H", *[len(r) for r in raws]) + b"".join(raws)))
        facts["title"] = strings([texts[0]])
        facts["author"] = strings(facts["author"] + [texts[1]])
        facts["copyright"] = strings([texts[2]])
    if seed & 1:
        parts.append(asf_object("5FBF03B5-A92E-11CF-8EE3-00C00C205365", guid("ABD3D211-A9BA-11cf-8EE6-00C00C205365") + struct.pack("<HI", 6, 5) + noise(seed, 5)))
    if not parts:
        parts.append(asf_object("5FBF03B5-A92E-11CF-8EE3-00C00C205365", guid("ABD3D211-A9BA-11cf-8EE6-00C00C205365") + struct.pack("<HI", 6, 0)))
    if seed & 2:
        # the order of the objects is free, except the one of the streams
        parts = parts[1:] + parts[:1] if not streams else parts
    facts["comment"] = strings(comments)
    out = asf_object("75B22630-668E-11CF-A6D9-00AA0062CE6C", struct.pack("<IBB", len(parts), 1, 2) + b"".join(parts))
    out += asf_object("75B22636-668E-11CF-A6D9-00AA0062CE6C", guid("12345678-1234-1234-1234-123456789abc") + struct.pack("<QH", 1, 0x101) + noise(seed, 30))
    if prop and total is None:
        return asf(p, len(out))
    kinds = {s[0] for s in streams}
    facts["mime_type"] = ["video/x-ms-wmv" if "video" in kinds else "audio/x-ms-wma" if "audio" in kinds else "video/x-ms-asf"] if groups or any(facts.values()) else []
    return Media("asf", "asf", out, ".asf", facts, groups, bit_rate=text)


# --- Flash video

def amf_text(s):
    raw = s.encode()
    return struct.pack(">H", len(raw)) + raw


def amf(value):
    if isinstance(value, bool):
        return b"\x01" + bytes([value])
    if isinstance(value, (int, float)):
        return b"\x00" + struct.pack(">d", value)
    if isinstance(value, str):
        return b"\x02" + amf_text(value)
    if isinstance(value, datetime.datetime):
        return b"\x0b" + struct.pack(">dH", (value - datetime.datetime(1970, 1, 1)).total_seconds() * 1000, 0)
    if isinstance(value, list):
        return b"\x0a" + struct.pack(">I", len(value)) + b"".join(amf(v) for v in value)
    return b"\x03" + b"".join(amf_text(k) + amf(v) for k, v in value.items()) + b"\0\0\x09"


FLV_META = st.lists(st.one_of(
    st.tuples(st.just("duration"), st.floats(0.5, 10**6).map(lambda x: round(x, 3))),
    st.tuples(st.sampled_from(["creator", "metadatacreator"]), TEXT),
    st.tuples(st.just("audiosamplerate"), st.sampled_from([8000, 22050, 44100])),
    st.tuples(st.just("framerate"), st.sampled_from([1, 12.5, 23.976, 25, 30, 120])),
    st.tuples(st.just("metadatadate"), st.datetimes(datetime.datetime(1971, 1, 1), datetime.datetime(2029, 12, 31)).map(lambda d: d.replace(microsecond=0))),
    st.tuples(st.sampled_from(["width", "height"]), SIDE),
    st.tuples(st.just("hasVideo"), st.booleans()),
    st.tuples(st.just("keyframes"), st.just({"times": [0, 1.5], "filepositions": [1, 2, 3]})),
    st.tuples(st.just("points"), st.just([1, "a", False])),
), max_size=8, unique_by=lambda d: d[0])
FLV_AUDIO = {0: "Uncompressed", 1: "ADPCM", 2: "MP3", 6: "Nellymoser"}
FLV_VIDEO = {2: "Sorensen H.263", 3: "Screen video", 4: "On2 VP6"}


@kind("flv", st.tuples(st.none() | st.sampled_from(sorted(FLV_VIDEO)), st.none() | st.tuples(st.sampled_from(sorted(FLV_AUDIO)), st.integers(0, 3), st.integers(0, 1), st.integers(0, 1)),
                       st.none() | FLV_META, st.sampled_from(["exact", "zero", "one"]), st.integers(1, 4), st.booleans(), SEED))
def flv(p):
    video, audio, meta, count, n, cue, seed = p
    facts = {k: [] for k in ("duration", "producer", "sample_rate", "frame_rate", "creation_date", "width", "height", "bit_rate")}
    groups = []
    out = b"FLV\1" + bytes([(1 if video is not None else 0) | (4 if audio is not None else 0)]) + struct.pack(">II", 9, 0)

    def tag(typ, content, when=0):
        nonlocal out
        raw = bytes([typ]) + struct.pack(">I", len(content))[1:] + struct.pack(">I", when & 0xffffff)[1:] + bytes(4) + content
        out += raw + struct.pack(">I", len(raw))
    if meta is not None:
        size = {"exact": len(meta), "zero": 0, "one": 1}[count]
        tag(18, amf("onMetaData") + b"\x08" + struct.pack(">I", size) + b"".join(amf_text(k) + amf(v) for k, v in meta) + b"\0\0\x09")
        for k, v in meta:
            if k == "duration":
                facts["duration"] = lasting(v)
            elif k in ("creator", "metadatacreator"):
                facts["producer"].append(v)
            elif k == "audiosamplerate":
                facts["sample_rate"] = [float(v)]
            elif k == "framerate":
                facts["frame_rate"] = [float(v)]
            elif k == "metadatadate":
                facts["creation_date"] = [v]
            elif k in ("width", "height"):
                facts[k] = [v]
        facts["producer"] = strings(facts["producer"])
    for i in range(n):
        if i == 1 and cue:
            tag(18, amf("onCuePoint") + amf({"name": "x", "time": 1.5, "width": 77, "duration": 5}))
        if video is not None:
            tag(9, bytes([(1 if i == 0 else 2) << 4 | video]) + noise(seed, seed % 20), 40 * i)
        if audio is not None:
            codec, rate, bits, stereo = audio
            body = b"\xff\xfb\x90\0" + noise(seed, 413) if codec == 2 else noise(seed, seed % 20)
            tag(8, bytes([codec << 4 | rate << 2 | bits << 1 | stereo]) + body, 40 * i)
    if video is not None:
        groups.append({"compression": [FLV_VIDEO[video]]})
    if audio is not None:
        codec, rate, bits, stereo = audio
        groups.append({"sample_rate": [[5512, 11025, 22050, 44100][rate]], "bits_per_sample": [16 if bits else 8], "nb_channel": [1 + stereo]})
        if codec != 2:
            groups[-1]["compression"] = [FLV_AUDIO[codec]]
    if facts["duration"]:
        facts["bit_rate"] = within(len(out) * 8 / facts["duration"][0].total_seconds(), 1, 500 * 2**20)
    facts["mime_type"] = ["video/x-flv"]
    facts["format_version"] = ["Macromedia Flash video version 1"]
    return Media("flv", "flv", out, ".flv", facts, groups)


# --- Matroska

def vint(n, extra=0):
    size = 1
    while n >= (1 << 7 * size) - 1:
        size += 1
    size = min(8, size + extra)
    return (n | 1 << 7 * size).to_bytes(size, "big")


def el(ident, content, extra=0):
    raw = bytes.fromhex(ident)
    return raw + vint(len(content), extra) + content


def number(n, size=None):
    return n.to_bytes(size or max(1, (n.bit_length() + 7) // 8), "big")


LANGUAGES = ["eng", "fre", "ger", "jpn", "und"]
MKV_TRACK = st.tuples(st.sampled_from(["video", "audio", "subtitle", "other"]), st.none() | TEXT, st.none() | st.sampled_from(LANGUAGES), SIDE, SIDE, st.sampled_from([8000, 44100, 48000.0]),
                      st.integers(1, 8), st.none() | st.sampled_from([8, 16, 24]), st.booleans(), st.sampled_from(["V_MPEG4/ISO/AVC", "A_AAC", "S_TEXT/UTF8"]))
MKV_TAG = {"TITLE": "title", "URL": "url", "COPYRIGHT": "copyright", "DATE_RECORDED": "creation_date", "SUBTITLE": "subtitle_author", "ENCODER": None}
MKV_TAGS = st.lists(st.one_of(st.tuples(st.sampled_from(sorted(k for k in MKV_TAG if k != "DATE_RECORDED")), TEXT),
                              st.tuples(st.just("DATE_RECORDED"), st.dates(datetime.date(1950, 1, 1), datetime.date(2029, 12, 31)).map(str))), max_size=4)


@kind("mkv", st.tuples(st.sampled_from(["matroska", "webm"]), st.none() | st.integers(1, 10**8), st.none() | st.tuples(st.integers(1, 10**6), st.booleans()), st.none() | DATES, st.none() | TEXT, st.none() | TEXT,
                       st.none() | TEXT, st.lists(MKV_TRACK, max_size=3), MKV_TAGS, st.sampled_from(["before", "after"]), st.integers(0, 3), st.integers(0, 3), SEED))
def mkv(p):
    doc, scale, duration, when, title, muxer, writer, tracks, tags, where, clusters, extra, seed = p
    facts = {k: [] for k in ("duration", "creation_date", "title", "producer", "url", "copyright", "subtitle_author")}
    groups = []
    void = el("ec", bytes(seed % 7), seed % 2)
    info = b""
    if scale is not None:
        info += el("2ad7b1", number(scale), extra)
    if duration:
        info += el("4489", struct.pack(">d" if duration[1] else ">f", float(duration[0])))
        facts["duration"] = lasting(duration[0] * (1000000 if scale is None else scale) * 1e-9)
    if when:
        delta = when - datetime.datetime(2001, 1, 1)
        info += el("4461", struct.pack(">q", (delta.days * 86400 + delta.seconds) * 10**9))
        facts["creation_date"].append(when)
    if writer:
        info += el("5741", writer.encode())
        facts["producer"].append(writer)
    if muxer:
        info += el("4d80", muxer.encode() + b"\0" * (seed % 2))
        facts["producer"].append(muxer)
    if title:
        info += el("7ba9", title.encode(), extra)
        facts["title"].append(title)
    tr = b""
    for i, (typ, name, lang, w, h, hz, ch, bits, full, codec) in enumerate(tracks):
        body = el("d7", number(i + 1)) + el("83", number({"video": 1, "audio": 2, "subtitle": 17, "other": 18}[typ]))
        body += el("86", codec.encode())
        fact = {"compression": [codec], "title": strings([name or ""]), "language": [lang or "eng"]}
        if name:
            body += el("536e", name.encode())
        if lang:
            body += el("22b59c", lang.encode())
        if typ == "video" and full:
            body += el("e0", el("b0", number(w, 3)) + void + el("ba", number(h)))
            fact.update(width=[w], height=[h])
        elif typ == "audio" and full:
            body += el("e1", el("b5", struct.pack(">f" if isinstance(hz, float) else ">d", hz)) + el("9f", number(ch)) + (el("6264", number(bits)) if bits else b""))
            fact.update(sample_rate=[float(hz)], nb_channel=[ch], bits_per_sample=[bits] if bits else [])
        tr += el("ae", body, extra)
        if typ != "other":
            groups.append(fact)
    tg = b""
    got = {}
    for name, text in tags:
        tg += el("7373", el("67c8", el("45a3", name.encode()) + el("4487", text.encode())))
        if MKV_TAG[name]:
            got.setdefault(MKV_TAG[name], []).append(text)
    parts = [el("114d9b74", b"") if seed & 8 else b"", el("1549a966", info, extra), void if seed & 4 else b"", el("1654ae6b", tr)]
    if tg and where == "before":
        parts.append(el("1254c367", tg))
    for i in range(clusters):
        parts.append(el("1f43b675", el("e7", number(i)) + el("a3", b"\x81\0\0\x80" + noise(seed, seed % 50))))
    if tg and where == "after":
        parts.append(el("1254c367", tg))
    late = {}
    for k, v in got.items():
        if k == "creation_date":
            values = [datetime.date.fromisoformat(t) for t in v]
            late[k] = facts[k] + [d for d in dict.fromkeys(values)]
        else:
            late[k] = strings(facts[k] + v)
    for k in ("title", "producer"):
        facts[k] = strings(facts[k])
    # what is after the clusters is only read if it is asked for
    every = dict(facts, **late)
    if where == "before" or not clusters:
        facts = every
    body = b"".join(parts)
    head = el("4286", number(1)) + el("4282", doc.encode()) + el("4287", number(2))
    out = el("1a45dfa3", head) + (bytes.fromhex("18538067") + b"\x01" + b"\xff" * 7 if seed & 16 else bytes.fromhex("18538067") + vint(len(body), extra)) + body
    m = Media("mkv", "matroska", out, ".mkv" if doc == "matroska" else ".webm", facts, groups)
    m.best = every
    return m


# --- QuickTime, MPEG-4

def atom(tag, content, wide64=False):
    if wide64:
        return struct.pack(">I4sQ", 1, tag, 16 + len(content)) + content
    return struct.pack(">I4s", 8 + len(content), tag) + content


BRANDS = {b"qt  ": "video/quicktime", b"mp42": "video/mp4", b"isom": "video/mp4", b"avc1": "video/mp4", b"XXXX": "video/quicktime"}
MP4_DATES = st.datetimes(datetime.datetime(1950, 1, 1), datetime.datetime(2029, 12, 31)).map(lambda d: d.replace(microsecond=0))
MATRIX = struct.pack(">9I", 0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000)


@kind("mp4", st.tuples(st.none() | st.tuples(st.sampled_from(sorted(BRANDS)), st.lists(st.sampled_from(sorted(BRANDS)), max_size=2)), st.integers(0, 1), MP4_DATES, MP4_DATES, st.integers(1, 100000), st.integers(0, 2**31),
                       st.sampled_from([0x10000, 0x8000, 0x20000]), st.sampled_from([0x100, 0x80, 0]), st.none() | st.tuples(SIDE, SIDE), st.booleans(), st.integers(0, 2), st.integers(0, 3), SEED))
def mp4(p):
    brands, version, created, modified, scale, units, speed, volume, size, sound, free, odd, seed = p
    facts = {}

    def mac(d):
        delta = d - datetime.datetime(1904, 1, 1)
        return delta.days * 86400 + delta.seconds
    fmt = ">QQIQ" if version else ">IIII"
    mvhd = bytes([version, 0, 0, 0]) + struct.pack(fmt, mac(created), mac(modified), scale, units) + struct.pack(">IH", speed, volume) + bytes(10) + MATRIX + bytes(24) + struct.pack(">I", 3)
    facts["creation_date"] = [created]
    facts["last_modification"] = [modified]
    secs = units / scale
    facts["duration"] = lasting(secs) if secs <= 365 * 86400 else []
    facts["comment"] = ["Play speed: %.1f%%" % (speed * 100 / 65536), "User volume: %.1f%%" % (volume * 100 / 256)]

    def track(ident, w, h, kind):
        tkfmt = ">QQIIQ" if version else ">IIIII"
        tkhd = bytes([version, 0, 0, 7]) + struct.pack(tkfmt, mac(created), mac(modified), ident, 0, units) + bytes(8) + struct.pack(">hhH", 0, 0, 0x100) + bytes(2) + MATRIX + struct.pack(">II", w << 16, h << 16)
        mdhd = bytes(4) + struct.pack(">IIIIHH", 0, 0, scale, units % 2**32, 0x55c4, 0)
        hdlr = bytes(4) + bytes(4) + kind + bytes(12) + b"\0"
        return atom(b"trak", atom(b"tkhd", tkhd) + atom(b"mdia", atom(b"mdhd", mdhd) + atom(b"hdlr", hdlr)))
    moov = [atom(b"mvhd", mvhd)]
    if sound:
        moov.append(track(1, 0, 0, b"soun"))
    if size:
        moov.append(track(2, size[0], size[1], b"vide"))
        facts["width"], facts["height"] = [size[0]], [size[1]]
    else:
        facts["width"] = facts["height"] = []
    if seed & 1:
        moov.append(atom(b"udta", atom(b"zzzz", noise(seed, 5)) + (bytes(4) if 0 else b"")))
    if odd == 1:
        moov = moov[1:] + moov[:1]
    out = b""
    if brands:
        out += atom(b"ftyp", brands[0] + bytes(4) + b"".join(brands[1]))
        kinds = [BRANDS[b] for b in [brands[0]] + brands[1]]
        facts["mime_type"] = ["video/mp4" if "video/mp4" in kinds else "video/quicktime"]
    elif free:
        out += atom(b"free", noise(seed, free))
    body = atom(b"moov", b"".join(moov), odd == 2)
    data = atom(b"mdat", noise(seed, seed % 60), odd == 3)
    if seed & 2:
        out += body + data
    elif brands or free:
        out += data + body
    else:
        out += body + data
    m = Media("mp4", "mov", out, ".mp4", facts)
    return m


from vh import movie  # noqa: E402,F401  (more kinds)
