"""Generated QuickTime and MPEG-4 files with the tables of the samples, fragments, protections and tags (see video.py)."""
import random

from hypothesis import strategies as st

from vh import binary as struct
from vh.media import SEED, Media, noise
from vh.video import atom, kind

CODECS = ["avc1", "mp4a", "ec-3", "encv", "enca", "raw ", "hint"]


class Maker:
    def __init__(self, mpeg4, seed):
        self.mpeg4, self.rng, self.seed = mpeg4, random.Random(seed), seed
        self.count = 0

    def u(self, bits):
        return self.rng.getrandbits(bits)

    def s(self, bits):
        return self.rng.getrandbits(bits) - (1 << bits - 1)

    def raw(self, n):
        self.count += 1
        return noise(self.seed + self.count, n)

    def text(self, most=12):
        return "".join(self.rng.choice("abc def XYZ-_\u00e9\u4e2d") for _ in range(self.rng.randint(1, most)))

    def several(self, most=4):
        return range(self.rng.choice([0, 1, 1, 2, 3, most]))

    def one(self, *values):
        return self.rng.choice(values)

    def table(self, tag, fmt, value, version=0, flags=0, head=b""):
        rows = [struct.pack("%s#%s" % (fmt, tag.decode()), *value()) for _ in self.several()]
        return atom(tag, struct.pack(">BT", version, flags) + head + struct.pack(">I", len(rows)) + b"".join(rows))

    def matrix(self):
        return struct.pack(">iiIiiIiiI", self.s(32), self.s(32), self.u(31), self.s(32), self.s(32), self.u(31), self.s(32), self.s(32), self.u(31))

    # --- headers

    def mvhd(self):
        v = self.one(0, 1)
        when = struct.pack(">BT" + ("QQIQ" if v else "IIII"), v, 0, 3_000_000_000 + self.u(20), 3_100_000_000 + self.u(20), 600 + self.u(10), self.u(20))
        return atom(b"mvhd", when + struct.pack(">IH10x", self.u(17), self.u(9)) + self.matrix() + struct.pack(">7I", *[self.u(32) for _ in range(7)]))

    def tkhd(self, w, h):
        v = self.one(0, 1)
        head = struct.pack(">BT" + ("QQI4xQ" if v else "III4xI"), v, self.u(4), 3_000_000_000 + self.u(20), 3_100_000_000 + self.u(20), self.u(32), self.u(20))
        return atom(b"tkhd", head + struct.pack(">8xhhH2x", self.s(16), self.s(16), self.u(9)) + self.matrix() + struct.pack(">II", w << 16, h << 16))

    def mdhd(self):
        v = self.one(0, 1)
        lang = 0
        for c in self.one("eng", "fra", "und", "jpn"):
            lang = lang << 5 | ord(c) - 0x60
        head = struct.pack(">BT" + ("QQIQ" if v else "IIII"), v, 0, 3_000_000_000 + self.u(20), 3_100_000_000 + self.u(20), self.u(32), self.u(20))
        return atom(b"mdhd", head + struct.pack(">Hh", lang, self.s(16)))

    def hdlr(self, sub):
        name = self.text(8).encode() + b"\0" if self.mpeg4 else struct.pack(">B", 7) + b"handler"
        return atom(b"hdlr", struct.pack(">BT4s4s4sII", 0, 0, b"mhlr", sub, b"appl", self.u(32), self.u(32)) + name)

    def minf(self, codec, sub):
        if sub == b"vide":
            head = atom(b"vmhd", struct.pack(">BTHHHH", 0, 1, self.one(0, 0x20, 0x24, 0x40, 0x100, 0x101, 0x7fff), self.u(16), self.u(16), self.u(16)))
        elif sub == b"soun":
            head = atom(b"smhd", struct.pack(">BThH", 0, 0, self.s(16), 0))
        else:
            head = atom(b"hmhd", struct.pack(">BTHHIII", 0, 0, self.u(16), self.u(16), self.u(32), self.u(32), 0))
        refs = []
        for _ in self.several(2):
            if self.one(0, 1):
                refs.append(atom(b"url ", b"\0\0\0\1" if self.one(0, 1) else bytes(4) + b"file:///" + self.text().encode() + b"\0"))
            else:
                refs.append(atom(b"urn ", b"\0\0\0\1" if self.one(0, 1) else bytes(4) + b"urn:a\0" + self.text().encode() + b"\0"))
        dinf = atom(b"dinf", atom(b"dref", struct.pack(">II", 0, len(refs)) + b"".join(refs)))
        parts = [head, dinf, self.stbl(codec, sub)]
        self.rng.shuffle(parts)
        return atom(b"minf", b"".join(parts))

    # --- description of the samples

    def entry(self, codec, sub):
        tag = codec.encode()
        more = []
        if sub == b"vide":
            name = self.raw(self.rng.randint(1, 31))
            body = struct.pack(">HH4sIIHHIIIHB31sHh", self.u(16), self.u(16), b"appl", self.u(32), self.u(32), self.u(16), self.u(16), self.u(32), self.u(32), self.u(32), self.u(16), len(name), name,
                               self.one(1, 8, 24, 32), -1)
            if tag in (b"avc1", b"encv"):
                more = [self.avcc()] + ([atom(b"btrt", struct.pack(">III", self.u(32), self.u(32), self.u(32)))] if self.one(0, 1) else [])
        elif sub == b"soun":
            body = struct.pack(">8xHHH2xI", self.one(1, 2, 6), self.one(8, 16, 24), self.u(16), self.one(8000, 22050, 44100, 48000) << 16 | self.u(16))
            if tag in (b"mp4a", b"enca"):
                more = [self.esds()]
        else:
            body = self.raw(self.rng.randint(0, 8))
        if tag in (b"encv", b"enca"):
            more.append(self.sinf())
        elif tag == b"ec-3":
            more.append(self.dec3())
        body += b"".join(more) if tag != b"raw " else self.raw(self.rng.randint(0, 9))
        return struct.pack(">I4s6xH", 16 + len(body), tag, self.u(16)) + body

    def avcc(self):
        profile = self.one(66, 77, 100, 110, 122)
        out = struct.pack(">BBBBB", 1, profile, self.u(8), self.u(8), 0xfc | self.u(2))
        sets = [self.raw(self.rng.randint(1, 9)) for _ in self.several(3)]
        out += struct.pack(">B", 0xe0 | len(sets)) + b"".join(struct.pack(">H", len(s)) + s for s in sets)
        sets = [self.raw(self.rng.randint(1, 9)) for _ in self.several(3)]
        out += struct.pack(">B", len(sets)) + b"".join(struct.pack(">H", len(s)) + s for s in sets)
        if profile >= 100 and self.one(0, 1):
            out += struct.pack(">BBBB", 0xfc | self.u(2), 0xf8 | self.u(3), 0xf8 | self.u(3), 1) + struct.pack(">H", 3) + self.raw(3)
        return atom(b"avcC", out)

    def descriptor(self, tag, content):
        n = len(content)
        size = [n & 127]
        for _ in range(self.one(0, 0, 1, 3) if n < 128 else 1):
            n >>= 7
            size.insert(0, 0x80 | n & 127)
        return struct.pack(">B", tag) + bytes(size) + content

    def esds(self):
        config = self.descriptor(4, struct.pack(">BBTII", self.one(0x40, 0x20, 0x6b), self.u(6) << 2 | self.u(1) << 1 | 1, self.u(24), self.u(32), self.u(32))
                                 + (self.descriptor(5, self.raw(self.rng.randint(1, 150))) if self.one(0, 1) else b""))
        flags = self.u(3)
        es = struct.pack(">HB", self.u(16), flags << 5 | self.u(5))
        if flags & 4:
            es += struct.pack(">H", self.u(16))
        if flags & 2:
            es += struct.pack(">B", 5) + b"a url"
        if flags & 1:
            es += struct.pack(">H", self.u(16))
        return atom(b"esds", bytes(4) + self.descriptor(3, es + config + self.descriptor(6, b"\2")))

    def dec3(self):
        bits, n = 0, 0

        def put(value, size):
            nonlocal bits, n
            bits, n = bits << size | value, n + size
        put(self.u(13), 13)
        count = self.rng.randint(1, 3)
        put(count - 1, 3)
        for _ in range(count):
            for size in (2, 5, 5, 3, 1):
                put(self.u(size), size)
            put(0, 3)
            deps = self.one(0, 0, 1, 3)
            put(deps, 4)
            put(self.u(9), 9) if deps else put(0, 1)
        return atom(b"dec3", bits.to_bytes(n // 8, "big"))

    def sinf(self):
        uri = self.one(0, 1)
        out = atom(b"frma", b"avc1")
        if self.one(0, 1, 1):
            out += atom(b"schm", struct.pack(">BT4sI", 0, uri, b"cenc", self.u(32)) + (b"http://a/b\0" if uri else b""))
            v, protected, size = self.one(0, 1), self.one(0, 1), self.one(0, 8)
            tenc = struct.pack(">BTBBBB", v, 0, 0, self.u(8) if v else 0, protected, size) + self.raw(16)
            if protected and not size:
                tenc += b"\x08" + self.raw(8)
            out += atom(b"schi", atom(b"tenc", tenc))
        return atom(b"sinf", out)

    def stbl(self, codec, sub):
        u = self.u
        entries = [self.entry(codec, sub) for _ in range(self.one(1, 1, 2, 3))]
        parts = [atom(b"stsd", struct.pack(">II", 0, len(entries)) + b"".join(entries)),
                 self.table(b"stts", ">II", lambda: (u(32), u(32))), self.table(b"stsc", ">III", lambda: (u(32), u(32), u(32)))]
        v = self.one(0, 0, 1)
        if self.one(0, 1):
            parts.append(self.table(b"ctts", ">Ii" if v else ">II", lambda: (u(32), self.s(32) if v else u(32)), version=v))
        if self.one(0, 1):
            parts.append(self.table(b"stss", ">I", lambda: (u(32),)))
        parts.append(self.table(b"stco", ">I", lambda: (u(32),)) if self.one(0, 1) else self.table(b"co64", ">Q", lambda: (u(64),)))
        how = self.one("uniform", "each", "compact")
        if how == "uniform":
            parts.append(atom(b"stsz", struct.pack(">BTII", 0, 0, 1 + u(31), u(32))))
        elif how == "each":
            parts.append(self.table(b"stsz", ">I", lambda: (u(32),), head=bytes(4)))
        else:
            size = self.one(4, 8, 16)
            n = self.rng.randint(0, 5)
            total = (n * size + 7) // 8
            parts.append(atom(b"stz2", struct.pack(">BTTBI", 0, 0, 0, size, n) + ((u(n * size) if n else 0) << (total * 8 - n * size)).to_bytes(total, "big")))
        self.rng.shuffle(parts)
        return atom(b"stbl", b"".join(parts))

    def trak(self, codec):
        sub = {"avc1": b"vide", "encv": b"vide", "raw ": b"vide", "hint": b"hint"}.get(codec, b"soun")
        w, h = (self.one(1, 17000) + self.u(11), self.one(1, 17000) + self.u(11)) if sub == b"vide" else (0, 0)
        media = [self.mdhd(), self.hdlr(sub), self.minf(codec, sub)]
        if self.one(0, 1):
            self.rng.shuffle(media)
        parts = [self.tkhd(w, h), atom(b"mdia", b"".join(media))]
        v = self.one(0, 1)
        if self.one(0, 1):
            parts.append(atom(b"edts", self.table(b"elst", ">QqI" if v else ">IiI", lambda: (self.u(32), self.s(32), self.u(20)), version=v)))
        if self.one(0, 1):
            parts.append(atom(b"tref", atom(self.one(b"hint", b"cdsc"), struct.pack(">II", self.u(32), self.u(32)))))
        if self.one(0, 0, 1):
            parts.append(atom(b"load", struct.pack(">IIII", self.u(32), self.u(32), self.u(32), self.u(32))))
        return atom(b"trak", b"".join(parts)), (w, h)

    # --- fragments

    def pssh(self):
        v = self.one(0, 1)
        keys = [self.raw(16) for _ in self.several(3)] if v else []
        data = self.raw(self.rng.randint(1, 20))
        return atom(b"pssh", struct.pack(">BT", v, 0) + self.raw(16) + (struct.pack(">I", len(keys)) + b"".join(keys) if v else b"") + struct.pack(">I", len(data)) + data)

    def senc(self):
        sub = self.one(0, 2)
        n = self.rng.randint(0, 3)
        out = struct.pack(">BTI", 0, sub, n)
        for _ in range(n):
            out += self.raw(8)
            if sub:
                k = self.rng.randint(0, 2)
                out += struct.pack(">H", k) + b"".join(struct.pack(">HI", self.u(16), self.u(32)) for _ in range(k))
        return atom(b"senc", out)

    def moof(self):
        flags = self.u(6) & 0x3b
        tfhd = struct.pack(">BTI", 0, flags | self.one(0, 0x10000), self.u(32))
        for bit, fmt in ((1, ">Q"), (2, ">I"), (8, ">I"), (16, ">I"), (32, ">I")):
            if flags & bit:
                tfhd += struct.pack("%s#%u" % (fmt, bit), self.u(64 if fmt == ">Q" else 32))
        parts = [atom(b"tfhd", tfhd)]
        for _ in range(self.rng.randint(1, 2)):
            v, flags, n = self.one(0, 1), self.u(12) & 0xf05, self.rng.randint(0, 4)
            trun = struct.pack(">BTI", v, flags, n)
            if flags & 1:
                trun += struct.pack(">i#data offset", self.s(32))
            if flags & 4:
                trun += struct.pack(">I#first flags", self.u(32))
            for _ in range(n):
                codes, values = "", []
                for bit in (0x100, 0x200, 0x400, 0x800):
                    if flags & bit:
                        signed = bit == 0x800 and v == 1
                        codes += "i" if signed else "I"
                        values.append(self.s(32) if signed else self.u(32))
                trun += struct.pack(">%s#%x" % (codes, flags & 0xf00), *values)
            parts.append(atom(b"trun", trun))
        if self.one(0, 1):
            parts.append(self.senc())
        return atom(b"moof", atom(b"mfhd", struct.pack(">BTI", 0, 0, self.u(32))) + atom(b"traf", b"".join(parts)) + (self.pssh() if self.one(0, 0, 1) else b""))

    def sidx(self):
        v = self.one(0, 1)
        n = self.rng.randint(0, 3)
        return atom(b"sidx", struct.pack(">BTII" + ("QQ" if v else "II") + "HH", v, 0, self.u(32), self.u(32), self.u(32), self.u(32), 0, n)
                    + b"".join(struct.pack(">III", self.u(32), self.u(32), self.u(32)) for _ in range(n)))

    def mfra(self):
        v = self.one(0, 1)
        sizes = [self.rng.randint(0, 3) for _ in range(3)]
        n = self.rng.randint(0, 3)
        fmt = ">" + ("QQ" if v else "II") + "".join("BHTI"[k] for k in sizes) + "#=entry"
        out = struct.pack(">BTIII", v, 0, self.u(32), sizes[0] << 4 | sizes[1] << 2 | sizes[2], n)
        for _ in range(n):
            out += struct.pack(fmt, self.u(32), self.u(32), *[self.u(8 * k + 8) for k in sizes])
        content = atom(b"tfra", out)
        return atom(b"mfra", content + atom(b"mfro", struct.pack(">BTI", 0, 0, 8 + len(content) + 16)))

    # --- tags

    def udta(self):
        parts = []
        if self.one(0, 1):
            rows = [struct.pack(">Q", self.u(64)) + struct.pack(">B", len(t)) + t for t in (self.text().encode() for _ in self.several())]
            parts.append(atom(b"chpl", struct.pack(">BTIB", 1, 0, 0, len(rows)) + b"".join(rows)))
        if self.one(0, 1):
            items = []
            for tag in self.rng.sample([b"trkn", b"disk", b"tmpo", b"\xa9nam", b"\xa9ART", b"\xa9alb", b"\xa9too", b"covr"], 2):
                items.append(atom(tag, atom(b"data", struct.pack(">II", 1, 0) + self.raw(8))))
            parts.append(atom(b"meta", bytes(4) + self.hdlr(b"mdir") + atom(b"ilst", b"".join(items))))
        if self.one(0, 1):
            keys = [atom(b"mdta", b"com.apple." + self.raw(5)) for _ in range(self.rng.randint(1, 3))]
            items = [struct.pack(">II", 24 + 8, i + 1) + atom(b"data", struct.pack(">II", 1, 0) + self.raw(8)) for i in range(len(keys))]
            parts.append(atom(b"meta", self.hdlr(b"mdta") + atom(b"keys", struct.pack(">BTI", 0, 0, len(keys)) + b"".join(keys)) + atom(b"ilst", b"".join(items))))
        return atom(b"udta", b"".join(parts))


@kind("movie", st.tuples(st.booleans(), st.lists(st.sampled_from(CODECS), max_size=2), st.integers(0, 15), SEED))
def movie(p):
    mpeg4, codecs, extra, seed = p
    make = Maker(mpeg4, seed)
    out = atom(b"ftyp", (b"isom" if mpeg4 else b"qt  ") + struct.pack(">I", make.u(31)) + (b"isomavc1" if mpeg4 else b""))
    moov = [make.mvhd()]
    facts = {"width": [], "height": [], "mime_type": ["video/mp4" if mpeg4 else "video/quicktime"]}
    for codec in codecs:
        data, (w, h) = make.trak(codec)
        if w:
            facts["width"] = facts["width"] + [w] * (w not in facts["width"])
            facts["height"] = facts["height"] + [h] * (h not in facts["height"])
        moov.append(data)
    if extra & 1:
        moov.append(make.udta())
    out += atom(b"moov", b"".join(moov))
    if extra & 2:
        out += make.sidx() + make.moof() + atom(b"mdat", make.raw(20)) + make.moof()
    if extra & 4:
        out += make.mfra()
    if extra & 8:
        out += atom(b"uuid", make.raw(16) + make.raw(7))
    return Media("movie", "mov", out, ".mp4", facts)
