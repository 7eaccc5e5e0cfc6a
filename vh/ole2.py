"""OLE2 compound documents written from generated streams and properties (MS-CFB, MS-OLEPS), see media.py."""
import datetime
import random

from hypothesis import strategies as st

from vh import binary as struct
from vh.documents import ALL, merged
from vh.media import SEED, WORD, Media, noise

FREE, END, FATSECT, DIFSECT, NONE = 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFFFC, 0xFFFFFFFF
SUMMARY = "\5SummaryInformation"
DOC_SUMMARY = "\5DocumentSummaryInformation"
CODEPAGES = {1250: "cp1250", 1251: "cp1251", 1252: "cp1252", 10000: "mac_roman", 65001: "utf-8"}
LETTERS = {1250: "\u017c\u00e9", 1251: "\u0416\u044f", 1252: "\u00e9\u20ac", 10000: "\u00e9\u00fc", 65001: "\u00e9\u65e5"}
TITLES = {2: "title", 3: "title", 4: "author", 6: "comment", 8: "author", 18: "producer"}
SUMMARY_NAMES = {5: "Keywords", 7: "Template", 9: "RevisionNumber", 10: "TotalEditingTime", 11: "LastPrinted", 15: "NumWords", 16: "NumCharacters", 19: "Security"}
DOC_NAMES = {2: "Category", 3: "PresentationFormat", 4: "NumBytes", 5: "NumLines", 6: "NumParagraphs", 7: "NumSlides", 11: "Scale", 15: "Company", 16: "LinksDirty"}
DATES = st.datetimes(datetime.datetime(1900, 1, 1), datetime.datetime(2029, 12, 31)).map(lambda d: d.replace(microsecond=0))


def pad4(b):
    return b + bytes(-len(b) % 4)


class Writer:
    """Sectors are allocated at random; the FAT is written last"""

    def __init__(self, shift, rng, scatter):
        self.size = 1 << shift
        self.rng = rng
        self.scatter = scatter
        self.sectors = {}
        self.next = {}
        self.free = []
        self.top = 0

    def take(self, n):
        out = []
        for _ in range(n):
            if self.scatter and (not self.free or self.rng.random() < .3):
                k = self.rng.randrange(1, 4)
                self.free += range(self.top, self.top + k)
                self.top += k
            if self.scatter:
                out.append(self.free.pop(self.rng.randrange(len(self.free))))
            else:
                out.append(self.top)
                self.top += 1
        return out

    def put(self, data, fill=b"\0"):
        """Writes a chain, gives its first sector"""
        if not data:
            return END
        n = -(-len(data) // self.size)
        data = data.ljust(n * self.size, fill)
        at = self.take(n)
        for i, s in enumerate(at):
            self.sectors[s] = data[i * self.size:(i + 1) * self.size]
            self.next[s] = at[i + 1] if i + 1 < n else END
        return at[0]

    def content(self, fill):
        return b"".join(self.sectors.get(i, fill * self.size) for i in range(self.top))

    def table(self, count):
        return [self.next.get(i, FREE) for i in range(count)]


def tree(names, number):
    """left, right, child of a balanced binary tree of directory entries"""
    order = sorted(names, key=lambda n: (len(n), n.upper()))
    links = {}

    def build(a, b):
        if a >= b:
            return NONE
        m = (a + b) // 2
        links[order[m]] = (build(a, m), build(m + 1, b))
        return number[order[m]]
    return build(0, len(order)), links


def ole2(streams, shift, scatter, seed, version, storages=()):
    """streams: [(name, content)]; storages: names of empty storages. Returns the file."""
    rng = random.Random(seed)
    w = Writer(shift, rng, scatter)
    mini = Writer(6, rng, scatter)
    entries = []
    for name, data in streams:
        start = (mini if len(data) < 4096 else w).put(data, b"\xEE")
        entries.append((name, 2, start, len(data)))
    entries += [(name, 1, 0, 0) for name in storages]
    rng.shuffle(entries)
    content = mini.content(b"\xEE")
    root = w.put(content, b"\xEE")
    per = w.size // 4
    minifat = mini.table(mini.top)
    minifat += [FREE] * (-len(minifat) % per)
    sfat = w.put(struct.pack("<%dI" % len(minifat), *minifat))
    sfat_count = len(minifat) // per
    number = {e[0]: i + 1 for i, e in enumerate(entries)}
    top, links = tree([e[0] for e in entries], number)

    def entry(name, kind, left, right, child, start, size):
        raw = (name + "\0").encode("utf-16-le") if name else b""
        return (raw.ljust(64, b"\0") + struct.pack("<HBBIII", len(raw), kind, 1, left, right, child) + bytes(16) + bytes(4) + bytes(16) + struct.pack("<IQ", start, size))
    directory = entry("Root Entry", 5, NONE, NONE, top, root, len(content))
    for name, kind, start, size in entries:
        left, right = links[name]
        directory += entry(name, kind, left, right, NONE, start, size)
    per_dir = max(1, w.size // 128)
    while (len(directory) // 128) % per_dir:
        directory += entry("", 0, NONE, NONE, NONE, 0, 0)
    dir_start = w.put(directory)
    dir_count = len(directory) // w.size
    # FAT and DIFAT
    nfat = ndif = 0
    while True:
        total = w.top + nfat + ndif
        a = -(-total // per)
        b = max(0, -(-(a - 109) // (per - 1)))
        if (a, b) == (nfat, ndif):
            break
        nfat, ndif = a, b
    fats = list(range(w.top, w.top + nfat))
    difs = list(range(w.top + nfat, w.top + nfat + ndif))
    if scatter:
        both = fats + difs
        rng.shuffle(both)
        fats, difs = both[:nfat], both[nfat:]
    w.top += nfat + ndif
    for s in fats:
        w.next[s] = FATSECT
    for s in difs:
        w.next[s] = DIFSECT
    table = w.table(nfat * per)
    for i, s in enumerate(fats):
        w.sectors[s] = struct.pack("<%dI" % per, *table[i * per:(i + 1) * per])
    rest = fats[109:]
    for i, s in enumerate(difs):
        part = rest[i * (per - 1):(i + 1) * (per - 1)]
        part += [FREE] * (per - 1 - len(part))
        w.sectors[s] = struct.pack("<%dI" % per, *part, difs[i + 1] if i + 1 < ndif else END)
    head = b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1" + bytes(16) + struct.pack("<HHHHH6x", 0x3e, version, 0xfffe, shift, 6)
    head += struct.pack("<IIIIIIIII", dir_count if version == 4 else 0, nfat, dir_start, 0, 4096, sfat, sfat_count, difs[0] if difs else END, ndif)
    first = (fats + [FREE] * 109)[:109]
    head += struct.pack("<109I", *first)
    return head.ljust(max(512, w.size), b"\0") + w.content(b"\xDD")


# --- property sets

def text_property(value, codepage, wide):
    if wide:
        return struct.pack("<II", 31, len(value) + 1) + pad4((value + "\0").encode("utf-16-le"))
    raw = value.encode(CODEPAGES[codepage]) + b"\0"
    return struct.pack("<II", 30, len(raw)) + pad4(raw)


def filetime(d):
    return struct.pack("<IQ", 64, int((d - datetime.datetime(1601, 1, 1)) / datetime.timedelta(microseconds=1)) * 10)


def section(props, gap, order=None):
    """props: [(id, bytes)]"""
    n = len(props)
    body = b""
    index = {}
    for i in order or range(n):
        body += bytes(4 * gap)
        index[i] = 8 + 8 * n + len(body)
        body += props[i][1]
    out = b"".join(struct.pack("<II", props[i][0], index[i]) for i in range(n)) + body
    return struct.pack("<II", 8 + len(out), n) + out


FMTID = {SUMMARY: bytes.fromhex("E0859FF2F94F6810AB9108002B27B3D9"), DOC_SUMMARY: bytes.fromhex("02D5CDD59C2E1B10939708002B2CF9AE"),
         "user": bytes.fromhex("05D5CDD59C2E1B10939708002B2CF9AE")}


def property_set(sections, system=2):
    out = struct.pack("<HHBBH", 0xfffe, 0, 6, 1, system) + bytes(16) + struct.pack("<I", len(sections))
    pos = 28 + 20 * len(sections)
    for fmt, s in sections:
        out += FMTID[fmt] + struct.pack("<I", pos)
        pos += len(s)
    return out + b"".join(s for _, s in sections)


TEXT = st.tuples(st.sampled_from([2, 3, 4, 5, 6, 7, 8, 9, 18]), WORD, st.booleans(), st.booleans())
OTHER = st.one_of(st.tuples(st.sampled_from([12, 13, 11]), DATES | st.none()), st.tuples(st.just(10), st.integers(0, 10**5)),
                  st.tuples(st.sampled_from([14, 15, 16, 19]), st.integers(0, 5000)), st.tuples(st.just(17), st.integers(0, 60)))
DOC_TEXT = st.tuples(st.sampled_from([2, 3, 14, 15]), WORD, st.booleans(), st.booleans())
DOC_OTHER = st.one_of(st.tuples(st.sampled_from([4, 5, 6, 7]), st.integers(0, 10**6)), st.tuples(st.sampled_from([11, 16]), st.booleans()),
                      st.tuples(st.sampled_from([12, 13]), st.integers(0, 3)))


def props(texts, others, codepage, is_doc, rng, facts):
    """Properties of one set, and their facts, in the order of the file"""
    todo = [("text", t) for t in texts] + [("other", o) for o in others]
    todo = list({v[0]: (k, v) for k, v in todo}.values())
    rng.shuffle(todo)
    out = [(1, struct.pack("<IHxx", 2, codepage))]
    names = DOC_NAMES if is_doc else SUMMARY_NAMES
    keys = {14: "author"} if is_doc else TITLES
    for k, v in todo:
        pid = v[0]
        if k == "text":
            value = v[1]
            if v[3]:
                value += LETTERS[codepage]
            out.append((pid, text_property(value, codepage, v[2])))
        elif pid in (11, 12, 13) and not is_doc:
            value = v[1]
            if value is None:
                out.append((pid, struct.pack("<IQ", 64, 0)))
                continue
            out.append((pid, filetime(value)))
            if pid != 11:
                facts["creation_date" if pid == 12 else "last_modification"].append(value)
                continue
            value = str(value)
        elif pid == 10 and not is_doc:
            out.append((pid, struct.pack("<IQ", 64, v[1] * 10**7)))
            if not v[1]:
                continue
            value = str(datetime.timedelta(seconds=v[1]))
        elif pid == 17 and not is_doc:
            out.append((pid, struct.pack("<IIi", 71, 4 + v[1] * 4, -1) + struct.pack("<I", 3) + noise(5, v[1] * 4)))
            continue
        elif pid in (11, 16) and is_doc:
            out.append((pid, struct.pack("<Ihxx", 11, -1 if v[1] else 0)))
            value = str(v[1])
        elif pid == 13 and is_doc:
            # (strings of these two vectors aren't aligned, MS-OSHARED 2.3.3.1)
            parts = [struct.pack("<I", 6 + i) + b"part" + b"z" * (1 + i) + b"\0" for i in range(v[1])]
            out.append((pid, pad4(struct.pack("<II", 0x101e, v[1]) + b"".join(parts))))
            continue
        elif pid == 12 and is_doc:
            parts = [struct.pack("<II", 30, 6 + i) + b"head" + b"z" * (1 + i) + b"\0" + struct.pack("<II", 3, i) for i in range(v[1])]
            out.append((pid, pad4(struct.pack("<II", 0x100c, 2 * v[1]) + b"".join(parts))))
            continue
        else:
            out.append((pid, struct.pack("<II", 3, v[1])))
            if pid == 14:
                if v[1]:
                    facts["nb_page"].append(v[1])
                continue
            value = str(v[1])
        if pid in keys:
            facts[keys[pid]].append(value)
        else:
            facts["comment"].append("%s: %s" % (names[pid], value))
    return out


STREAM = st.tuples(st.text("abcdefgh", min_size=1, max_size=8), st.one_of(st.integers(1, 300), st.sampled_from([64, 128, 4095, 4096, 4097, 512]), st.integers(4000, 9000)))
SHIFT = st.sampled_from([9, 9, 9, 12, 7])


def build(case):
    (texts, others, doc_texts, doc_others, codepage, which, big), extras, (shift, scatter, gap, seed) = case
    rng = random.Random(seed)
    facts = {k: [] for k in ALL}
    streams = [("s" + n, noise(seed + i, size)) for i, (n, size) in enumerate({n.upper(): (n, size) for n, size in extras}.values())]
    found = {}
    if which & 1:
        f = {k: [] for k in ALL}
        p = props(texts, others, codepage, False, rng, f)
        order = list(range(len(p)))
        if gap == 3:
            rng.shuffle(order)
        s = property_set([(SUMMARY, section(p, gap % 3, order))])
        if big & 1:
            s += bytes(5000)
        streams.append((SUMMARY, s))
        found[SUMMARY] = f
    if which & 2:
        f = {k: [] for k in ALL}
        p = props(doc_texts, doc_others, codepage, True, rng, f)
        sections = [(DOC_SUMMARY, section(p, gap % 3))]
        if which & 4:
            sections.append(("user", section([(1, struct.pack("<IHxx", 2, codepage)), (2, text_property("user", codepage, False))], 0)))
        s = property_set(sections)
        if big & 2:
            s += bytes(5000)
        streams.append((DOC_SUMMARY, s))
        found[DOC_SUMMARY] = f
    sizes = {n: len(d) for n, d in streams}
    # those of the mini stream come first
    for mini in (True, False):
        for name in (DOC_SUMMARY, SUMMARY):
            if name in found and (sizes[name] < 4096) == mini:
                for k, v in found[name].items():
                    facts[k] += v
    for k in ("title", "author", "comment", "producer"):
        facts[k] = merged(facts[k])
    storages = ["dir%u" % i for i in range(rng.randrange(3))]
    data = ole2(streams, shift, scatter, seed, 4 if shift == 12 else 3, storages)
    return Media("ole2", "ole2", data, ".doc", facts, streams=streams)


CASES = st.tuples(st.tuples(st.lists(TEXT, max_size=6), st.lists(OTHER, max_size=5), st.lists(DOC_TEXT, max_size=4), st.lists(DOC_OTHER, max_size=4), st.sampled_from(sorted(CODEPAGES)),
                            st.integers(0, 7), st.integers(0, 3)), st.lists(STREAM, max_size=4), st.tuples(SHIFT, st.booleans(), st.integers(0, 3), SEED))
# enough sectors to need a second level of the table of the FAT
BIG = st.tuples(st.integers(440_000, 700_000), st.booleans(), st.integers(0, 40), SEED)


def build_big(case):
    size, scatter, small, seed = case
    streams = [("big", noise(seed, 64) * (size // 64)), ("little", noise(seed, small + 1)), ("other", noise(seed + 1, 5000))]
    return Media("ole2", "ole2", ole2(streams, 7, scatter, seed, 3), ".doc", {}, streams=streams)
