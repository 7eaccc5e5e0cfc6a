"""C13: any bytes, with any parser: the whole tree can be read, stays inside its file, and is the same every time."""
from hypothesis import strategies as st

from vh.core import Suite, ensure, eq, fail
from vh import corpus, repo  # noqa: F401
import hachoir.field as F
from hachoir.parser import HachoirParserList, guessParser
from hachoir.parser.guess import QueryParser
from hachoir.stream import StringInputStream

suite = Suite("C13", rule="a case is a sample file damaged at chosen fields/cut, or arbitrary bytes, and a parser (guessed or "
              "forced); non-trivial when a parser accepts the content and it differs from a valid file")

LIMIT = 1500
# read slowly (bit by bit)
SLOW = {n for n in corpus.names() if corpus.SIZES[n] > 160000 or n.endswith(".zlib")}


def walk(p, limit=LIMIT):
    """Reads everything (up to `limit` fields); returns the dump."""
    out = []
    todo = [p]
    while todo and len(out) < limit:
        fs = todo.pop()
        seekable = isinstance(fs, F.RootSeekableFieldSet)
        names = set()
        full = True
        for f in fs:
            size = f.size
            ensure(isinstance(size, int) and size >= 0, "size of %s: %r", f.path, size)
            addr = f.address
            ensure(addr >= 0, "address of %s: %r", f.path, addr)
            names.add(f.name)
            row = (f.path, f.absolute_address, size, f.description, f.display, f.raw_display)
            out.append(row)
            if f.is_field_set:
                todo.append(f)
            else:
                f.value
            if len(out) >= limit:
                full = False
                break
        if full:
            last = list(fs)
            eq(len(fs), len(last), "%s: number of fields" % fs.path)
            # (a field read before its parent stopped may have been removed)
            ensure(names >= {f.name for f in last}, "%s: fields missed by the iteration: %s", fs.path,
                   sorted({f.name for f in last} - names)[:5])
            total = fs.size
            pos = 0
            for f in last:
                if not seekable:
                    eq(f.address, pos, "address of %s, read again" % f.path)
                pos = f.address + f.size
                ensure(pos <= total, "%s ends at %d, after its parent (%d)", f.path, pos, total)
            if not seekable and last:
                eq(pos, total, "%s: size of the fields" % fs.path)
    return out


def check(data, tags, name, rec, limit=LIMIT):
    dumps = []
    for turn in range(2):
        s = StringInputStream(data, source="file:x", tags=list(tags))
        p = guessParser(s)
        if p is None:
            dumps.append(None)
            continue
        eq(p.size, len(data) * 8, "size of the root of %s" % type(p).__name__)
        for text in (p.description, p.mime_type):
            ensure(text and isinstance(text, str), "%s: description or MIME type %r", type(p).__name__, text)
        dumps.append((type(p).__name__, p.description, p.mime_type, p.filename_suffix,
                      walk(p, limit)))
        rec.label("parsed")
    a, b = dumps
    if a is None or b is None:
        eq(a is None, b is None, "the same content is accepted once of two times")
        return False
    eq(a[:4], b[:4], "parser of the same content")
    for x, y in zip(a[4], b[4]):
        eq(x, y, "field read again from the same content")
    eq(len(a[4]), len(b[4]), "number of fields of the same content")
    return True


@suite.sub("damaged", st.tuples(st.sampled_from([n for n in corpus.names() if n not in SLOW]), st.lists(corpus.MUTATION, min_size=1, max_size=4),
                                corpus.TRUNC, st.booleans()), quick=2400, thorough=60000)
def damaged(case, rec):
    name, muts, trunc, forced = case
    data = corpus.mutate(name, muts, trunc)
    tags = [("filename", name)]
    if forced:
        cls = corpus.parser_of(name)
        if cls is None:
            return
        tags = [("class", cls)]
    if check(data, tags, name, rec):
        rec.nt(data != corpus.data(name))
        rec.label("forced" if forced else "guessed")


@suite.sub("large", st.tuples(st.sampled_from(sorted(SLOW)),
                              st.lists(corpus.MUTATION, min_size=1, max_size=4), corpus.TRUNC), quick=80, thorough=3000)
def large(case, rec):
    name, muts, trunc = case
    if check(corpus.mutate(name, muts, trunc), [("filename", name)], name, rec, 700):
        rec.nt()


# ext2 and macho_fat compute 2**n, n being read in the file (up to 4 billions) when the file isn't validated
PARSERS = sorted((c for c in HachoirParserList.getInstance().parser_list
                  if c.__name__ not in ("EXT2_FS", "MachoFatFile")),
                 key=lambda c: c.getParserTags()["id"])


def magics(cls):
    out = []
    for m in cls.getParserTags().get("magic", ()):
        if isinstance(m, tuple) and len(m) == 2 and isinstance(m[0], (bytes, str)) and isinstance(m[1], int):
            out.append((m[0].encode("latin-1") if isinstance(m[0], str) else m[0], m[1]))
    return out


MAGICS = [magics(c) for c in PARSERS]
BLOB = st.one_of(st.binary(max_size=60), st.lists(st.sampled_from([0, 0, 0, 1, 2, 255, 4, 16]), max_size=200).map(bytes),
                 st.tuples(st.binary(min_size=1, max_size=8), st.integers(1, 300)).map(lambda t: t[0] * t[1]))


@suite.sub("arbitrary", st.tuples(st.integers(0, len(PARSERS) - 1), st.integers(0, 9), BLOB, BLOB, st.booleans()),
           quick=4000, thorough=100000)
def arbitrary(case, rec):
    i, m, head, tail, forced = case
    data = bytearray(head + tail)
    magic = MAGICS[i]
    if magic and m:
        text, addr = magic[m % len(magic)]
        addr //= 8
        if addr > 70000:
            return
        data = data.ljust(addr, b"\0")
        data[addr:addr + len(text)] = text
        data += tail
    if not data:
        return
    cls = PARSERS[i]
    tags = [("class", cls)] if forced else [("id", cls.getParserTags()["id"])] if m % 2 else []
    if check(bytes(data), tags, cls.__name__, rec, 600):
        rec.nt()
        rec.label(cls.getParserTags()["id"])
