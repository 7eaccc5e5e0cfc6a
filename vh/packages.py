"""Generated packages of RPM and modules of Amiga trackers (see media.py)."""
import gzip
import math

from hypothesis import strategies as st

from vh import binary as struct
from vh.media import SEED, Media
from vh.programs import Rng, kind

TAGS = {1000: "Name", 1001: "Version", 1002: "Release", 1003: "Epoch", 1004: "Summary", 1005: "Description", 1006: "Build time", 1009: "Size", 1014: "Licence", 1016: "Group",
        1021: "OS", 1022: "Arch", 1028: "File sizes", 1030: "File modes", 1034: "File mtimes", 1036: "File link to's", 1044: "Source rpm", 1047: "Provide name", 1048: "Require flags",
        1050: "Require version", 1064: "RPM version"}
TYPES = {1: "CHAR", 2: "INT8", 3: "INT16", 4: "INT32", 5: "INT64", 6: "CSTRING", 7: "BIN", 8: "CSTRING_ARRAY", 9: "CSTRING?"}


def table(m, r, path, count, region):
    """A header of RPM: an index, and a store with the values"""
    index, store, tell = [], b"", {}
    for i in range(count):
        tag, code = r.choice(sorted(TAGS)), r.choice(sorted(TYPES))
        n = 1 if code == 6 else r.randint(1, 4)
        where = "%s/content_item[%u]/value" % (path, i + region)
        if code in (2, 3, 4, 5):
            size = 1 << code - 2
            # (the numbers are aligned)
            store += bytes(-len(store) % size)
        at = len(store)
        if code == 1:
            values = [r.choice("abcXYZ019") for _ in range(n)]
            store += "".join(values).encode()
        elif code < 6:
            values = [r.u(size * 8) for _ in range(n)]
            # (all of them are numbers of the same name)
            store += struct.pack(">%u%s#=table %s" % (n, " BHIQ"[code - 1], path), *values)
        elif code == 7:
            values = [r.randbytes(n)]
            store += values[0]
        else:
            values = [r.word() for _ in range(n)]
            store += b"".join(v.encode() + b"\0" for v in values)
        for j, v in enumerate(values):
            m.values[where + ("[%u]" % j if len(values) > 1 else "")] = v
        index.append(struct.pack(">IIII", tag, code, at, n))
        tell["%s/item[%u]" % (path, i + region)] = "Item: %s (%s)" % (TAGS[tag], TYPES[code])
    if region:
        # (a first entry, with its value at the end)
        index.insert(0, struct.pack(">IIII", 63, 7, len(store), 16))
        # (told as bytes)
        store += b"\0\0\0\x3f\0\0\0\7" + (-16 * len(index)).to_bytes(4, "big", signed=True) + b"\0\0\0\x10"
        tell[path + "/item[0]"] = "Item: Immutable (BIN)"
    m.told.update(tell)
    return b"\x8e\xad\xe8\1" + bytes(4) + struct.pack(">II", len(index), len(store)) + b"".join(index) + store


@kind("rpm", st.tuples(st.integers(0, 4), st.integers(0, 8), st.booleans(), st.booleans(), SEED))
def rpm(p):
    signatures, count, region, source, seed = p
    r = Rng(seed)
    m = Media("rpm", "rpm", b"", ".rpm")
    name = r.word() + "-1.0-1"
    out = b"\xed\xab\xee\xdb" + struct.pack(">BBHH66sHH", 3, 0, int(source), r.u(5), name.encode(), r.u(5), 5) + bytes(16)
    m.values["/name"] = name
    m.shown["/type"] = "Source" if source else "Binary"
    out += table(m, r, "/checksum", signatures, region)
    out += bytes(-len(out) % 8)
    out += table(m, r, "/header", count, region)
    m.data = out + gzip.compress(r.raw(r.randint(0, 50)), mtime=0)
    return m


MODULES = {b"M.K.": 4, b"M!K!": 4, b"M&K&": 4, b"FLT4": 4, b"6CHN": 6, b"8CHN": 8, b"CD81": 8, b"OCTA": 8}


@kind("mod", st.tuples(st.sampled_from(sorted(MODULES)), st.integers(1, 2), st.integers(0, 4), SEED))
def mod(p):
    tag, patterns, sounds, seed = p
    r = Rng(seed)
    m = Media("mod", "mod", b"", ".mod")
    title = r.word(20)
    m.values["/header/name"], m.values["/header/type"] = title, tag.decode()
    out = title.encode().ljust(20, b"\0")
    body = b""
    chosen = r.sample(range(31), sounds)
    for i in range(31):
        where = "/header/samples/info[%u]" % i
        name, count, tune, volume = r.word(22), r.one(1, 7, 30) if i in chosen else 0, r.u(4), r.one(0, 1, 32, 64)
        out += name.encode().ljust(22, b"\0") + struct.pack(">HBBHH", count, tune, volume, r.u(16), r.u(16))
        m.values[where + "/name"] = name
        m.shown[where + "/fine_tune"] = str(tune if tune < 8 else tune - 16)
        if volume:
            m.shown[where + "/volume"] = "%.1f dB" % (20 * math.log10(volume / 64))
        body += r.randbytes(2 * count)
    order = [r.randrange(patterns) for _ in range(128)] if r.one(0, 1) else [0] * 128
    order[r.randrange(128)] = patterns - 1
    # (some patterns are never played: their numbers are after the end of the song)
    out += bytes([r.randint(1, 128), 127]) + bytes(order) + tag
    for i in range(patterns):
        notes = [(r.u(4), r.u(12), r.u(4), r.u(4), r.u(8)) for _ in range(64 * MODULES[tag])]
        j = r.randrange(len(notes))
        where = "/pattern[%u]/row[%u]/note[%u]/" % (i, j // MODULES[tag], j % MODULES[tag])
        m.values.update(zip([where + n for n in ("note_hi_nibble", "period", "note_low_nibble", "effect", "parameter")], notes[j]))
        out += b"".join(struct.pack(">HBB#=note", a << 12 | b, c << 4 | d, e) for a, b, c, d, e in notes)
    m.data = out + body
    return m


@kind("m2ts", st.tuples(st.integers(1, 7), SEED))
def m2ts(p):
    """A transport stream, with a time before each packet"""
    count, seed = p
    r = Rng(seed)
    m = Media("m2ts", "mpeg_ts", b"", ".m2ts")
    out = b""
    for i in range(count):
        where = "/packet[%u]" % i
        start, priority, pid, scrambled, counter = r.u(1), r.u(1), r.one(0, 1, 0x1fff, r.randint(16, 0x1ffe)), r.u(2), r.u(4)
        adapted, loaded = r.one((0, 1), (1, 0), (1, 1), (1, 1))
        copy, time = r.u(2), r.u(30)
        m.values.update({where + "/c": copy, where + "/ats": time, where + "/payload_unit_start": bool(start), where + "/priority": bool(priority), where + "/pid": pid,
                         where + "/scrambling_control": scrambled, where + "/counter": counter, where + "/has_payload": bool(loaded)})
        out += struct.pack(">IBHB", copy << 30 | time, 0x47, start << 14 | priority << 13 | pid, scrambled << 6 | adapted << 5 | loaded << 4 | counter)
        field = b""
        if adapted:
            flags = r.u(8) & ~3
            for name, bit in zip(["discontinuity_indicator", "random_access_indicator", "es_prio_indicator", "has_pcr", "has_opcr", "has_splice_point"], (128, 64, 32, 16, 8, 4)):
                m.values[where + "/adaptation_field/" + name] = bool(flags & bit)
            field = bytes([flags])
            for name, bit in ("pcr", 16), ("opcr", 8):
                if flags & bit:
                    base, ext = r.u(33), r.randrange(300)
                    m.values[where + "/adaptation_field/%s_base" % name] = base
                    m.values[where + "/adaptation_field/%s_ext" % name] = ext
                    field += (base << 15 | 0x3f << 9 | ext).to_bytes(6, "big")
            if flags & 4:
                n = r.u(8)
                m.values[where + "/adaptation_field/splice_countdown"] = n
                field += bytes([n])
            field = field.ljust(r.randint(len(field), 182) if loaded else 183, b"\xff")
            if loaded and r.one(0, 0, 1):
                # (a byte of stuffing: the length alone)
                field = b""
                m.values = {k: v for k, v in m.values.items() if not k.startswith(where + "/adaptation_field")}
            field = bytes([len(field)]) + field
        out += field
        if loaded:
            payload = r.randbytes(184 - len(field))
            m.values[where + "/payload"] = payload
            out += payload
    m.data = out
    return m
