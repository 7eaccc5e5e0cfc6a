"""Generated fonts, programs, Flash files, torrents and disc images, with what is known of each one (see media.py)."""
import datetime
import random

from hypothesis import strategies as st

from vh import binary as struct
from vh.media import SEED, WORD, Media, noise

DOCUMENTS = {}
UNICODE = st.text("abc XYZ.-_09\u00e9\u20ac\u65e5\U0001f600", min_size=1, max_size=30).map(lambda s: s.strip(" ") or "x")
DATES = st.datetimes(datetime.datetime(1971, 1, 1), datetime.datetime(2029, 12, 31)).map(lambda d: d.replace(microsecond=0))
ALL = ("title", "artist", "author", "album", "copyright", "producer", "comment", "url", "version", "creation_date", "last_modification",
       "filename", "file_size", "width", "height", "frame_rate", "format_version", "charset", "font_weight", "os", "nb_page")


def kind(name, strategy):
    def deco(func):
        DOCUMENTS[name] = (strategy, func)
        return func
    return deco


def cases(names=None):
    return st.one_of([st.tuples(st.just(n), DOCUMENTS[n][0]) for n in (names or DOCUMENTS)])


def build(case):
    m = DOCUMENTS[case[0]][1](case[1])
    m.kind = case[0]
    m.facts = {k: m.facts.get(k, []) for k in ALL}
    return m


def merged(values):
    """Texts kept by a metadata: of two texts of which one starts with the other, the longer one at the place of the first"""
    out = []
    for v in values:
        for i, old in enumerate(out):
            if old.startswith(v):
                break
            if v.startswith(old):
                out[i] = v
                break
        else:
            out.append(v)
    return out


# --- torrent

def ben(x):
    if isinstance(x, int):
        return b"i%de" % x
    if isinstance(x, str):
        x = x.encode("utf-8")
    if isinstance(x, bytes):
        return b"%d:%s" % (len(x), x)
    if isinstance(x, list):
        return b"l" + b"".join(map(ben, x)) + b"e"
    return b"d" + b"".join(ben(k) + ben(v) for k, v in x.items()) + b"e"


TREE = st.recursive(st.integers(-10**6, 10**12) | st.sampled_from([10**21 - 1, 1 - 10**20]) | UNICODE | st.binary(max_size=40) | st.just(b""),
                    lambda t: st.lists(t, max_size=3) | st.dictionaries(WORD.map(lambda s: "x" + s), t, max_size=3), max_leaves=6)


@kind("torrent", st.tuples(WORD, st.none() | UNICODE, st.none() | DATES, st.none() | UNICODE, st.integers(0, 2**40), st.integers(10, 24), st.integers(0, 60),
                           st.booleans(), st.dictionaries(WORD.map(lambda s: "x" + s), TREE, max_size=3), st.booleans(), st.integers(0, 3), SEED))
def torrent(p):
    url, comment, when, name, length, piece, pieces, multi, extra, shuffle, longer, seed = p
    rng = random.Random(seed)
    url = "http://" + url.replace(" ", "") + "/announce"
    if comment and longer == 1:
        comment = (comment + "/") * 60
    facts = {"url": [url]}
    info = {}
    if multi:
        info["files"] = [{"length": rng.randrange(10**6), "path": ["a", "name"]} for _ in range(rng.randrange(1, 4))]
    else:
        info["length"] = length
        facts["file_size"] = [length]
    if name:
        info["name"] = name
        facts["filename"] = [name]
    info["piece length"] = 1 << piece
    info["pieces"] = bytes(rng.randrange(256) for _ in range(20 * pieces))
    if rng.random() < .3:
        info["private"] = 1
    root = {"announce-list": [[url, "udp://" + "x" * 9]]} if rng.random() < .5 else {}
    if comment:
        root["comment"] = comment
    if when:
        root["creation date"] = int((when - datetime.datetime(1970, 1, 1)).total_seconds())
        facts["creation_date"] = [when]
    root.update(extra)
    root["info"] = info
    keys = list(root)
    sub = list(info)
    if shuffle:
        rng.shuffle(keys)
        rng.shuffle(sub)
    root["info"] = {k: info[k] for k in sub}
    out = {"announce": url}
    out.update((k, root[k]) for k in keys)
    size = 1 << piece
    text = "Piece length: " + ("%u bytes" % size if size < 10000 else "%u.0 KB" % (size >> 10) if size < 1 << 20 else "%u.0 MB" % (size >> 20))
    facts["comment"] = []
    for k in keys:
        if k == "comment":
            facts["comment"].append(comment if len(comment) <= 300 else comment[:300] + "(...)")
        elif k == "info":
            facts["comment"].append(text)
    return Media("torrent", "torrent", ben(out), ".torrent", facts)


# --- TrueType and OpenType fonts

NAMES = {0: "copyright", 3: "title", 5: "version", 8: "author", 11: "url", 14: "copyright"}
PLATFORMS = {(3, 1): "utf-16-be", (0, 3): "utf-16-be", (1, 0): "mac_roman", (3, 10): "utf-16-be", (0, 4): "utf-16-be", (3, 0): "utf-16-be", (0, 0): "utf-16-be", (2, 1): "utf-16-be"}
MAC = st.text("abc XYZ.-_09\u00e9\u00fc\u00a9", min_size=1, max_size=30).map(lambda s: s.strip(" ") or "x")
NAME = st.tuples(st.sampled_from(sorted(PLATFORMS)), st.sampled_from([0, 1, 2, 3, 4, 5, 5, 6, 8, 9, 11, 13, 14, 300]), st.just("") | UNICODE | UNICODE, st.just("") | MAC | MAC, st.integers(0, 3))
DIRECTIONS = {0: "Mixed directional", 1: "Left to right", 2: "Left to right + neutrals", -1: "Right to left", -2: "Right to left + neutrals"}


@kind("ttf", st.tuples(st.booleans(), st.none() | st.tuples(DATES, DATES, st.integers(0, 100), st.sampled_from(sorted(DIRECTIONS)), st.integers(16, 16384)),
                       st.none() | st.lists(NAME, max_size=8), st.integers(3, 12), st.booleans(), SEED))
def ttf(p):
    cff, head, names, count, share, seed = p
    rng = random.Random(seed)
    facts = {k: [] for k in ALL}
    tables = {}
    if head:
        created, modified, lowest, direction, em = head

        def mac(d):
            return int((d - datetime.datetime(1904, 1, 1)).total_seconds())
        tables[b"head"] = (struct.pack(">HHHHI4sHH", 1, 0, rng.randrange(9), 0, rng.randrange(2**32), b"\x5f\x0f\x3c\xf5", rng.randrange(2**16), em)
                           + struct.pack(">QQ", mac(created), mac(modified)) + struct.pack(">hhhhH", -5, -9, 700, 800, rng.randrange(128) & 0xff7f)
                           + struct.pack(">HhHH", lowest, direction, rng.randrange(2), 0))
        facts["creation_date"] = [created]
        facts["last_modification"] = [modified]
        facts["comment"] = ["Smallest readable size in pixels: %u pixels" % lowest, "Font direction: " + DIRECTIONS[direction]]
    if names is not None:
        records = b""
        blob = b""
        known = {}
        values = []
        for (platform, encoding), nid, text, mac_text, gap in names:
            charset = PLATFORMS[platform, encoding]
            value = mac_text if charset == "mac_roman" else text
            if nid == 5 and gap == 1:
                value = "Version " + value
            raw = value.encode(charset)
            if share and (raw, charset) in known:
                offset = known[raw, charset]
            else:
                blob += bytes(gap if rng.random() < .3 else 0)
                offset = known[raw, charset] = len(blob)
                blob += raw
            where = offset
            if gap == 2 and rng.random() < .2:
                # a name out of the table
                where += rng.choice([7000, 40000])
                nid = -nid
            records += struct.pack(">HHHHHH", platform, encoding, rng.choice([0, 0x409, 0x40c]), abs(nid), len(raw), where)
            if nid in NAMES and where == offset and value:
                if nid == 5 and value.startswith("Version "):
                    value = value[8:]
                if value:
                    values.append((NAMES[nid], value))
        tables[b"name"] = struct.pack(">HHH", 0, len(names), 6 + len(records)) + records + blob
        for key, value in values:
            facts[key].append(value)
        for key in set(NAMES.values()):
            facts[key] = merged(facts[key])
    while len(tables) < count:
        tables[b"z%03u" % len(tables)] = noise(rng.randrange(9999), rng.randrange(1, 30))
    order = list(tables)
    rng.shuffle(order)
    pos = 12 + 16 * len(order)
    body = b""
    where = {}
    for tag in order:
        while (pos + len(body)) % 4:
            body += b"\0"
        where[tag] = pos + len(body)
        body += tables[tag]
    body += bytes(-len(body) % 4)
    out = (b"OTTO" if cff else b"\0\1\0\0") + struct.pack(">HHHH", len(order), 16, 1, 0)
    for tag in sorted(order):
        out += struct.pack(">4sIII", tag, rng.randrange(2**32), where[tag], len(tables[tag]))
    return Media("ttf", "ttf", out + body, ".ttf", facts)


# --- X11 bitmap fonts

PCF_KEYS = {"CHARSET_REGISTRY": "charset", "COPYRIGHT": "copyright", "WEIGHT_NAME": "font_weight", "FOUNDRY": "author", "FONT": "title", "_XMBDFED_INFO": "producer"}
PCF_PROP = st.tuples(st.sampled_from(sorted(PCF_KEYS) + ["PIXEL_SIZE", "FAMILY_NAME", "SLANT"]), WORD, st.integers(0, 1000), st.booleans())


@kind("pcf", st.tuples(st.lists(PCF_PROP, max_size=8, unique_by=lambda x: x[0]), st.booleans(), st.integers(0, 2), st.integers(0, 3), SEED))
def pcf(p):
    props, big, before, after, seed = p
    rng = random.Random(seed)
    e = ">" if big else "<"
    facts = {}
    blob = b""
    table = []
    for name, text, number, is_text in props:
        is_text = is_text or name in PCF_KEYS
        n = len(blob)
        blob += name.encode() + b"\0"
        v = number
        if is_text:
            v = len(blob)
            blob += text.encode() + b"\0"
            if name in PCF_KEYS:
                facts[PCF_KEYS[name]] = [text]
        table.append(struct.pack(e + "IBI", n, is_text, v))
    content = struct.pack("<I", 0xC if big else 0) + struct.pack(e + "I", len(props)) + b"".join(table)
    content += bytes(-9 * len(props) % 4) + struct.pack(e + "I", len(blob)) + blob
    content += bytes(-len(content) % 4)
    parts = [(4, noise(seed, rng.randrange(1, 9) * 4)) for _ in range(before)] + [(1, content)] + [(rng.choice([2, 8, 32]), noise(seed, 4 * rng.randrange(1, 9))) for _ in range(after)]
    pos = 8 + 16 * len(parts)
    toc = []
    body = b""
    for t, c in parts:
        toc.append(struct.pack("<IIII", t, 0xE if big and t == 1 else 0, len(c), pos + len(body)))
        body += c
    rng.shuffle(toc)
    return Media("pcf", "pcf", b"\1fcp" + struct.pack("<I", len(parts)) + b"".join(toc) + body, ".pcf", facts)


# --- Flash

@kind("swf", st.tuples(st.integers(1, 10), st.integers(0, 10000), st.integers(0, 10000), st.integers(0, 3), st.integers(0, 255), st.integers(1, 120),
                       st.integers(0, 65535), st.lists(st.integers(0, 100), max_size=4), SEED))
def swf(p):
    version, w, h, more, part, fps, frames, tags, seed = p
    w, h = w + 1, h + 1
    x, y = w * 20, h * 20
    nbits = min(31, max(x, y).bit_length() + 1 + more)
    bits = "{:05b}".format(nbits) + "".join("{:0{}b}".format(v, nbits) for v in (0, x, 0, y))
    bits += "0" * (-len(bits) % 8)
    rect = int(bits, 2).to_bytes(len(bits) // 8, "big")
    body = rect + struct.pack("<BBH", part, fps, frames)
    for n in tags:
        code = 60           # a tag without structure
        body += (struct.pack("<H", code << 6 | n) if n < 63 else struct.pack("<HI", code << 6 | 63, n)) + noise(seed, n)
    body += b"\0\0"
    facts = {"width": [w], "height": [h], "frame_rate": [fps + part / 256], "format_version": ["flash version %u" % version], "comment": ["Frame count: %u" % frames]}
    return Media("swf", "swf", b"FWS" + bytes([version]) + struct.pack("<I", 8 + len(body)) + body, ".swf", facts)


# --- ISO 9660

DCHARS = st.text("ABCXYZ_019", min_size=0, max_size=30)
ACHARS = st.text("ABC XYZ_019!%&'()*+,-./:;<=>?", min_size=0, max_size=37).map(lambda s: s.strip(" "))
STAMP = st.none() | st.tuples(DATES, st.integers(0, 99), st.integers(-48, 52)) | st.just("blank")


def stamp(v):
    if v is None:
        return b"0" * 16 + b"\0"
    if v == "blank":
        return b" " * 16 + b"\0"
    d, cs, zone = v
    return d.strftime("%Y%m%d%H%M%S").encode() + b"%02u" % cs + struct.pack("b", zone)


def both(n, fmt="I"):
    return struct.pack("<" + fmt, n) + struct.pack(">" + fmt, n)


@kind("iso", st.tuples(DCHARS, DCHARS, ACHARS, ACHARS, ACHARS, DCHARS, STAMP, STAMP, st.lists(st.integers(0, 2), max_size=3), st.integers(0, 3), SEED))
def iso(p):
    volume, volset, publisher, preparer, application, copy, created, modified, others, after, seed = p

    def pad(s, n):
        return s.encode().ljust(n)
    pvd = (b"\1CD001\1\0" + pad("LINUX", 32) + pad(volume, 32) + bytes(8) + both(400 + seed % 12345678) + bytes(32) + both(1 + seed % 999, "H") + both(1 + seed % 321, "H") + both(2048, "H") + both(10 + seed % 54321)
           + struct.pack("<II", 20 + seed % 456789, seed % 34567) + struct.pack(">II", 22 + seed % 567890, seed % 4567891) + bytes([34]) + bytes(33) + pad(volset, 128) + pad(publisher, 128) + pad(preparer, 128)
           + pad(application, 128) + pad(copy, 37) + pad("ABS", 37) + pad("BIB", 37) + stamp(created) + stamp(modified) + stamp(None) + stamp(None) + b"\1\0" + bytes(512 + 653))
    assert len(pvd) == 2048
    out = bytes(0x8000) + pvd
    for o in others:
        if o == 0:
            out += (b"\0CD001\1" + b"EL TORITO SPECIFICATION".ljust(64, b"\0") + struct.pack("<I", 30)).ljust(2048, b"\0")
        elif o == 1:
            out += (b"\2CD001\1\0" + "Joliet".encode("utf-16-be").ljust(64, b"\0")).ljust(2048, b"\0")
        else:
            out += (b"\3CD001\1\0").ljust(2048, b"\0")
    out += b"\xffCD001\1".ljust(2048, b"\0") + noise(seed, 2048 * after)
    facts = {"title": merged([t for t in (volume, volset) if t]), "author": merged([t for t in (publisher, preparer) if t]),
             "producer": [application] if application else [], "copyright": [copy] if copy else []}
    for key, v in (("creation_date", created), ("last_modification", modified)):
        facts[key] = [v[0]] if v and v != "blank" else []
    return Media("iso", "iso9660", out, ".iso", facts)


# --- Windows executables

CPUS = {0x14c: "Intel 80386", 0x1c0: "ARM", 0x200: "Intel IA64", 0x8664: None, 0x184: "DEC Alpha AXP", 0x1f0: "IBM Power PC, little endian"}
SUBSYSTEMS = {1: "Native", 2: "Windows GUI", 3: "Windows CUI", 7: "POSIX CUI", 10: "EFI application", 16: "Windows boot application"}
VERSION_KEYS = {"ProductName": "title", "LegalCopyright": "copyright", "LegalTrademarks": "copyright", "CompanyName": "author", "FileDescription": "title", "ProductVersion": "version"}
STRING = st.tuples(st.sampled_from(sorted(VERSION_KEYS) + ["InternalName", "OriginalFilename", "FileVersion", "Comments", "Special"]), st.sampled_from(["", " ", "\0"]) | UNICODE | UNICODE)


def node(name, value, children=(), text=True, fmt32=True):
    raw = (value + "\0").encode("utf-16-le") if text and value is not None else value or b""
    size = len(raw) // 2 if text else len(raw)
    out = struct.pack("<HH", size, int(text)) + (name + "\0").encode("utf-16-le")
    out += bytes(-(len(out) + 2) % 4) + raw
    for c in children:
        out += bytes(-(len(out) + 2) % 4) + c
    return struct.pack("<H", len(out) + 2) + out


@kind("pe", st.tuples(st.booleans(), st.sampled_from(sorted(CPUS)), st.sampled_from(sorted(SUBSYSTEMS)), st.booleans(), DATES, st.integers(0, 3), st.integers(80, 300),
                      st.none() | st.tuples(st.lists(STRING, max_size=7, unique_by=lambda x: x[0]), st.booleans(), st.sampled_from([0x3f, 0x17, 0]), st.lists(st.sampled_from([3, 6, 24]), max_size=3, unique=True), st.booleans()), SEED))
def pe(p):
    plus, cpu, subsystem, dll, when, more, offset, res, seed = p
    rng = random.Random(seed)
    offset += -offset % 8
    facts = {"creation_date": [when], "comment": [], "title": [], "copyright": [], "author": [], "version": [],
             "format_version": ["Portable Executable: " + ("Dynamic-link library (DLL)" if dll else "Windows application")]}
    if CPUS[cpu] is None:
        # (not in the list of names)
        facts["comment"] = ["CPU: %u" % cpu]
    else:
        facts["comment"] = ["CPU: " + CPUS[cpu]]
    facts["comment"].append("Subsystem: " + SUBSYSTEMS[subsystem])
    sections = [("." + n, noise(rng.randrange(9999), 512 * rng.randrange(1, 3))) for n in rng.sample(["text", "data", "rdata", "reloc"], more)]
    rva = 0x1000
    if res is not None:
        values, var_first, mask, others, named = res
        texts = dict(values)
        strings = [node(k, v or None) if v else node(k, None) for k, v in values]
        table = node("040904B0", None, strings)
        children = [node("StringFileInfo", None, [table]),
                    node("VarFileInfo", None, [node("Translation", struct.pack("<HH", 0x409, 0x4b0), text=False)])]
        if var_first:
            children.reverse()
        fixed = struct.pack("<IIIIIIIIIIIII", 0xFEEF04BD, 0x10000, 0x10002, 3, 0x10002, 3, mask, 0, 0x40004, 1, 0, 0, 0)
        info = node("VS_VERSION_INFO", fixed, children, text=False)
        types = sorted(others + [16])
        # root -> type -> identifier -> language
        blobs = [info if t == 16 else noise(t + seed, 20 + t) if t != 3 else struct.pack("<IIIHHIIIIII", 40, 8, 16, 1, 4, 0, 64, 0, 0, 0, 0) + noise(seed, 64) for t in types]
        if 6 in types:
            blobs[types.index(6)] = struct.pack("<H", 2) + "ab".encode("utf-16-le") + bytes(30)
        n = len(types)
        # a type with a name
        extra = 8 if named else 0
        label = b""
        if named:
            label = struct.pack("<H", 4) + "DATA".encode("utf-16-le")
        root = 16 + 8 * n + extra
        d1 = [root + i * 24 for i in range(n)]
        d2 = [root + n * 24 + i * 24 for i in range(n)]
        # the directory, the entry and the name of the named type
        d3 = root + n * 48
        ent = d3 + (48 if named else 0)
        pos = ent + 16 * n + (16 if named else 0) + len(label)
        place = []
        for b in blobs:
            pos += -pos % 4
            place.append(pos)
            pos += len(b)
        base = rva + 0x1000 * len(sections)
        out = struct.pack("<IIHHHH", 0, 0, 4, 0, int(named), n)
        if named:
            name_at = ent + 16 * n + 16
            out += struct.pack("<II", 0x80000000 | name_at, 0x80000000 | d3)
        for i, t in enumerate(types):
            out += struct.pack("<II", t, 0x80000000 | d1[i])
        for i in range(n):
            out += struct.pack("<IIHHHH", 0, 0, 4, 0, 0, 1) + struct.pack("<II", rng.randrange(1, 99), 0x80000000 | d2[i])
        for i in range(n):
            out += struct.pack("<IIHHHH", 0, 0, 4, 0, 0, 1) + struct.pack("<II", 0x409, ent + 16 * i)
        if named:
            out += struct.pack("<IIHHHH", 0, 0, 4, 0, 0, 1) + struct.pack("<II", 7, 0x80000000 | d3 + 24)
            out += struct.pack("<IIHHHH", 0, 0, 4, 0, 0, 1) + struct.pack("<II", 0x409, ent + 16 * n)
        for i, b in enumerate(blobs):
            out += struct.pack("<IIII", base + place[i], len(b), 0, 0)
        if named:
            out += struct.pack("<IIII", base + pos + -pos % 4, 11, 0, 0) + label
        for i, b in enumerate(blobs):
            out += bytes(place[i] - len(out)) + b
        if named:
            out += bytes(-len(out) % 4) + b"named data!"
        size = len(out)
        sections.append((rng.choice([".rsrc", ".rsrc", "UPX2", ".r"]), out + bytes(-len(out) % 512)))
        for k, v in values:
            v = v.strip(" \0")
            if not v or k in ("InternalName", "OriginalFilename", "FileVersion"):
                continue
            if k in VERSION_KEYS:
                facts[VERSION_KEYS[k]].append(v)
            else:
                facts["comment"].append("%s=%s" % (k, v))
        if texts.get("ProductName", "").strip(" \0") and texts.get("FileDescription", "").strip(" \0"):
            facts["title"] = [texts["FileDescription"], texts["ProductName"]]
        for k in ("title", "copyright", "comment"):
            facts[k] = merged(facts[k])
    dirs = [(0, 0)] * 16
    if res is not None:
        dirs[2] = (rva + 0x1000 * (len(sections) - 1), size)
    word = "Q" if plus else "I"
    opt = struct.pack("<HBBIIIII", 0x20b if plus else 0x10b, 6, 0, 512, 512, 0, 0x1000, 0x1000) + (b"" if plus else struct.pack("<I", 0x2000))
    opt += struct.pack("<" + word, 0x400000) + struct.pack("<IIHHHHHHIIIIHH", 4096, 512, 4, 0, 0, 0, 4, 0, 0, 0x8000, 1024, 0, subsystem, 0)
    opt += struct.pack("<" + word * 4, 1 << 20, 4096, 1 << 20, 4096) + struct.pack("<II", 0, 16) + b"".join(struct.pack("<II", *d) for d in dirs)
    flags = 0x102 | (0x2000 if dll else 0)
    stamp = int((when - datetime.datetime(1970, 1, 1)).total_seconds())
    head = b"PE\0\0" + struct.pack("<HHIIIHH", cpu, len(sections), stamp, 0, 0, len(opt), flags) + opt
    start = offset + len(head) + 40 * len(sections)
    start += -start % 512
    hdrs = b""
    body = b""
    for i, (name, c) in enumerate(sections):
        hdrs += struct.pack("<8sIIIIIIHHI", name.encode(), len(c), rva + 0x1000 * i, len(c), start + len(body), 0, 0, 0, 0, 0x40000040)
        body += c
    dos = (b"MZ" + struct.pack("<HHHHHHIHIHH", 0x90, 3, 0, 4, 0, 0xffff, 0xb8, 0, 0, 0x40, 0)).ljust(60, b"\0") + struct.pack("<I", offset)
    out = dos.ljust(offset, b"\0") + head + hdrs
    return Media("pe", "exe", out.ljust(start, b"\0") + body, ".dll" if dll else ".exe", facts)

