"""C17: content embedded in a file (sub-files, fragments, groups, links, logical streams) is given back as one exact stream."""
import gc

from hypothesis import strategies as st

from vh.core import Suite, ensure, eq, fail, raises
from vh import streams as S, synth
import hachoir.field as F
from hachoir.field.fragment import CustomFragment, FragmentGroup
from hachoir.field.link import Fragment, Link
from hachoir.field.sub_file import SubFile
from hachoir.parser import Parser, guessParser
from hachoir.parser.container.ogg import OggFile, OggStream
from hachoir.stream import FragmentedStream, InputStreamError, StringInputStream

suite = Suite("C17", rule="a case is a file holding embedded contents (fields of synthetic formats, chains of fragments in any order, groups, "
              "Ogg logical streams) and reads of the stream of each; non-trivial when a content has two pieces or more, or is nested")

READS = st.lists(st.tuples(st.integers(0, 999), st.integers(1, 70)), max_size=6)


def check_stream(s, bits, nbits, reads, what):
    """s gives the bits of the callable bits(addr, n)."""
    for a, n in reads:
        a %= nbits + 8
        if a + n <= nbits:
            eq(s.readBits(a, n, synth.ENDIAN["<"]), bits(a, n), "%s: %d bits at %d" % (what, n, a))
        else:
            raises((InputStreamError,), lambda: s.readBits(a, n, synth.ENDIAN["<"]), "%s: %d bits at %d of %d" % (what, n, a, nbits))
    eq(s.size, nbits, "%s: size" % what) if s.size is not None else None
    raises((InputStreamError,), lambda: s.readBits(nbits, 1, synth.ENDIAN["<"]), "%s: bit after the end" % what)
    eq(s.readBits(0, nbits, synth.ENDIAN["<"]), bits(0, nbits), "%s: content" % what)
    eq(s.size, nbits, "%s: size" % what)


def check_bytes(s, want, reads, what):
    r = synth.Reader(want, "<")
    check_stream(s, r.bits, len(want) * 8, reads, what)


@suite.sub("fields", st.tuples(st.sampled_from("<>"), synth.formats(), synth.SEEDS,
                               st.sampled_from(["str", "file", "pipe", "concat", "frag"]),
                               st.lists(st.tuples(st.integers(0, 999), READS, synth.formats(depth=1, maxlen=4)), min_size=1, max_size=4)),
           quick=3000, thorough=80000)
def fields(case, rec):
    endian, fmt, seed, kind, picks = case
    try:
        data, children, end = synth.build_model(endian, fmt, seed, 0)
    except synth.End:
        return
    if not children or len(data) > 2000 or (end % 8 and kind in ("pipe", "frag")):
        return
    nodes = [x[:3] for c in children for x in c.dump()]
    third = len(data) // 3 or 1
    b = S.build({"str": ("str", data), "file": ("file", data, 0, None), "pipe": ("pipe", data, False),
                 "concat": ("concat", ("str", data[:third]), ("str", data[third:])) if len(data) > third else ("str", data),
                 "frag": ("frag", ("str", data), [third, third], [0, 1, 2])}[kind])
    try:
        p = synth.parser_class(endian, fmt)(b.stream)
        whole = synth.Reader(data, "<")
        for pick, reads, fmt2 in picks:
            path, addr, size = nodes[pick % len(nodes)]
            f = p[path]
            s = f.getSubIStream()
            ensure(f.getSubIStream() is s, "another stream for %s", path)
            check_stream(s, lambda a, n: whole.bits(addr + a, n), size, reads, "stream of %s" % path)
            rec.nt(path.count("/") > 1)
            if addr % 8 or size % 8:
                continue
            part = data[addr // 8:(addr + size) // 8]
            cls = synth.parser_class(endian, fmt2)
            try:
                direct = synth.tree(cls(StringInputStream(part)))
            except Exception as e:
                direct = type(e)
            try:
                inner = cls(s)
                got = synth.tree(inner)
            except Exception as e:
                got = type(e)
            eq(got, direct, "parsing the stream of %s" % path)
            if isinstance(direct, list) and direct:
                rec.label("parsed inside")
                path2, addr2, size2, _ = direct[pick % len(direct)]
                if addr2 % 8 == 0 and size2 % 8 == 0:
                    check_bytes(inner[path2].getSubIStream(), part[addr2 // 8:(addr2 + size2) // 8], reads, "stream in a stream")
                    rec.nt()
            s2 = f.getSubIStream()
            ensure(s2 is s, "another stream for %s", path)
    finally:
        b.close()


# --- fragments
class Body(Fragment):
    """A header, then the data of the chain."""

    def __init__(self, parent, name, header, size, chain):
        Fragment.__init__(self, parent, name, size=(header + size) * 8)
        self.header, self.length, self.chain = header, size, chain
        self._getData = lambda: self["body"]

    def createFields(self):
        if self.header:
            yield F.RawBytes(self, "header", self.header)
        link(self, self.chain)
        yield F.Bytes(self, "body", self.length)


def link(frag, chain):
    """chain: names in order."""
    k = chain.index(frag.name)
    nxt = (lambda: frag.parent[chain[k + 1]]) if k + 1 < len(chain) else None
    frag.setLinks(frag.parent[chain[0]] if k else None, nxt)


@suite.sub("fragments", st.tuples(synth.SEEDS, st.lists(st.tuples(st.integers(1, 12), st.integers(0, 4)), min_size=1, max_size=7),
                                  st.lists(st.integers(0, 999), min_size=7, max_size=7), st.integers(1, 3), st.sampled_from(["plain", "body"]),
                                  READS, st.integers(0, 99), st.sampled_from(["str", "pipe", "sub"])), quick=3000, thorough=80000)
def fragments(case, rec):
    seed, pieces, keys, nchains, kind, reads, pick, stream = case
    n = len(pieces)
    data = synth.cyc(seed + bytes(range(7)), sum(a + (b if kind == "body" else 0) for a, b in pieces) + 3)
    names = ["frag[%d]" % i for i in range(n)]
    # the first of a chain has to come first (when it needs no reading ahead)
    chains = []
    for c in range(nchains):
        idx = [i for i in range(n) if i % nchains == c]
        chains.append([names[i] for i in idx[:1] + sorted(idx[1:], key=lambda i: keys[i])])
    addr = {}
    pos = 0
    for i, (size, header) in enumerate(pieces):
        h = header if kind == "body" else 0
        addr[names[i]] = (pos, h, size)
        pos += h + size

    class P(Parser):
        PARSER_TAGS = {"id": "c17", "description": "fragments", "min_size": 8}
        endian = synth.ENDIAN["<"]

        def createFields(self):
            for i, (size, header) in enumerate(pieces):
                chain = [c for c in chains if names[i] in c][0]
                if kind == "body":
                    yield Body(self, "frag[%d]" % i, header, size, chain)
                else:
                    f = Fragment(self, "frag[%d]" % i, size=size * 8)
                    k = chain.index(names[i])
                    f.setLinks(self[chain[0]] if k else None, (lambda chain, k: lambda: self[chain[k + 1]])(chain, k) if k + 1 < len(chain) else None)
                    yield f
            yield F.RawBytes(self, "end", 3)
    spec = {"str": ("str", data), "pipe": ("pipe", data, False), "sub": ("asub", ("str", b"ab" + data + b"c"), 2, len(data))}[stream]
    b = S.build(spec)
    try:
        p = P(b.stream)
        order = list(chains)
        order = order[pick % len(order):] + order[:pick % len(order)]
        for chain in order:
            if not chain:
                continue
            want = b"".join(data[addr[x][0] + addr[x][1]:sum(addr[x])] for x in chain)
            first = p[chain[0]]
            s = first.getSubIStream()
            ensure(first.getSubIStream() is s, "another stream")
            check_bytes(s, want, reads, "chain %r" % chain)
            eq(list(s.packets), [addr[x][2] * 8 for x in chain], "sizes of the pieces of %r" % chain)
            rec.nt(len(chain) > 1)
            rec.label("pieces", len(chain) > 1)
            rec.label("not in the order of the file", chain != sorted(chain))
            for k, name in enumerate(chain):
                f = p[name]
                ensure(f.first is first, "first of %s", name)
                nxt = f.next
                ensure(nxt is (p[chain[k + 1]] if k + 1 < len(chain) else None), "next of %s", name)
                eq("first" in f, k > 0, "link to the first piece in %s" % name)
                eq("next" in f, k + 1 < len(chain), "link to the next piece in %s" % name)
                if k:
                    ensure(f["first"].value is first, "link 'first' of %s", name)
                    eq(f["first"].display, first.path, "display of a link")
                    eq(f["first/" + ("body" if kind == "body" else "data")].path, first.path + ("/body" if kind == "body" else "/data"), "through a link")
                    x, h, size = addr[name]
                    check_bytes(f.getSubIStream(), data[x:x + h + size], reads, "stream of the piece %s" % name)
                if k + 1 < len(chain):
                    ensure(f["next"].value is p[chain[k + 1]], "link 'next' of %s", name)
                x, h, size = addr[name]
                eq((f.absolute_address, f.size), (x * 8, (h + size) * 8), "place of %s" % name)
                d = f.getData()
                eq((d.absolute_address, d.size), ((x + h) * 8, size * 8) if kind == "body" else (x * 8, size * 8), "data of %s" % name)
    finally:
        b.close()


class Piece:
    """What a FragmentedStream asks of a fragment."""
    path = "/piece"

    def __init__(self, stream, bounds, tail):
        self.parent = self
        self.stream = stream
        self.absolute_address, self.size = bounds[0] * 8, bounds[1] * 8
        self.tail = tail

    def getData(self):
        return self

    @property
    def next(self):
        return Piece(self.stream, self.tail[0], self.tail[1:]) if self.tail else None


@suite.sub("truncated", st.tuples(st.binary(min_size=1, max_size=40), st.lists(st.tuples(st.integers(0, 50), st.integers(1, 30)), min_size=1, max_size=5),
                                  READS, st.sampled_from(["str", "pipe", "sub"])), quick=2000, thorough=40000)
def truncated(case, rec):
    """Pieces which go past the end of the file: the content stops there."""
    data, pieces, reads, stream = case
    want = b""
    for k, (a, n) in enumerate(pieces):
        want += data[a:a + n]
        if a + n > len(data):
            rec.nt(k > 0 and a < len(data))
            rec.label("cut in piece %d" % min(k, 3))
            break
    if pieces[0][0] >= len(data) or stream == "pipe" and len(pieces) == 1:
        return
    spec = {"str": ("str", data), "pipe": ("pipe", data, False), "sub": ("asub", ("str", b"ab" + data + b"c"), 2, len(data) - 1)}[stream]
    b = S.build(spec)
    try:
        s = FragmentedStream(Piece(b.stream, pieces[0], pieces[1:]))
        what = "pieces %r of %d bytes" % (pieces, len(data))
        r = synth.Reader(want, "<")
        nbits = len(want) * 8
        for a, n in reads:
            a %= nbits + 8
            try:
                shift, got, missing = s.read(a, n)
            except InputStreamError:
                ensure(a + n > nbits, "%s: read(%d, %d) refused", what, a, n)
                continue
            eq(bool(missing), a + n > nbits, "%s: read(%d, %d) is short" % (what, a, n))
            m = min(a + n, nbits) - a
            if m > 0:
                full = (a + m + 7) // 8
                eq((shift, got), (a % 8, want[a // 8:full]), "%s: read(%d, %d)" % (what, a, n))
        check_bytes(s, want, [], what) if want else None
    finally:
        b.close()


@suite.sub("groups", st.tuples(synth.SEEDS, st.lists(st.tuples(st.integers(1, 12), st.integers(0, 2), st.integers(0, 2)), min_size=1, max_size=8),
                               READS, st.booleans()), quick=2000, thorough=40000)
def groups(case, rec):
    """CustomFragment: pieces of several groups, with other fields between them."""
    seed, pieces, reads, parsed = case
    data = synth.cyc(seed + bytes(range(5)), sum(a + g for a, _, g in pieces))

    class Inner(Parser):
        PARSER_TAGS = {"id": "c17i", "description": "inner", "min_size": 8}
        endian = synth.ENDIAN["<"]

        def validate(self):
            return True

        def createFields(self):
            yield F.RawBytes(self, "all", self.size // 8)

    class P(Parser):
        PARSER_TAGS = {"id": "c17g", "description": "groups", "min_size": 8}
        endian = synth.ENDIAN["<"]

        def createFields(self):
            g = {}
            for size, group, gap in pieces:
                if gap:
                    yield F.RawBytes(self, "gap[]", gap)
                f = CustomFragment(self, "piece[]", size * 8, Inner if parsed else None, group=g.get(group))
                g.setdefault(group, f.group)
                yield f
    p = P(StringInputStream(data))
    list(p)
    pos = 0
    want = {}
    place = []
    for size, group, gap in pieces:
        pos += gap
        want[group] = want.get(group, b"") + data[pos:pos + size]
        place.append((pos, size))
        pos += size
    for i, (size, group, gap) in enumerate(pieces):
        f = p["piece[%d]" % i]
        eq((f.absolute_address, f.size), (place[i][0] * 8, size * 8), "place of %s" % f.path)
        eq(f.value, data[place[i][0]:sum(place[i])], "value of %s" % f.path)
        s = f.getSubIStream()
        check_bytes(s, want[group], reads, "group %d" % group)
        if parsed:
            q = guessParser(s)
            ensure(type(q) is Inner, "parser of the group: %r", q)
            eq(q["all"].value, want[group], "content through the parser")
    rec.nt(len(want) < len(pieces))


@suite.sub("links", st.tuples(st.sampled_from("<>"), synth.formats(), synth.SEEDS,
                              st.lists(st.tuples(st.integers(0, 999), st.integers(0, 999)), min_size=1, max_size=4)), quick=2000, thorough=40000)
def links(case, rec):
    """A link is the field it gives the path of, and has no place of its own."""
    endian, fmt, seed, picks = case
    try:
        data, children, end = synth.build_model(endian, fmt, seed, 1)
    except synth.End:
        return
    if not children or len(data) > 2000:
        return
    nodes = [x for c in children for x in c.dump()]
    targets = ["/set" + nodes[a % len(nodes)][0] if b % 5 else "/set/missing" for a, b in picks]

    class P(Parser):
        PARSER_TAGS = {"id": "c17l", "description": "links", "min_size": 8}

        def createFields(self):
            for t in targets:
                f = Link(self, "link[]")
                f.createDisplay = lambda t=t: t
                yield f
            yield synth.Set(self, "set", fmt)
            for t in targets:
                f = Link(self, "late[]")
                f.createDisplay = lambda t=t: t
                yield f
    P.endian = synth.ENDIAN[endian]
    p = P(StringInputStream(data))
    plain = synth.parser_class(endian, fmt)(StringInputStream(data))
    total = end
    for i, t in enumerate(targets):
        for kind in ("link", "late"):
            f = p["%s[%d]" % (kind, i)]
            eq(f.size, 0, "size of a link")
            if t == "/set/missing":
                ensure(f.value is None, "value of a broken link: %r", f.value)
                raises(F.MissingField, lambda: f["x"], "field through a broken link")
                rec.label("broken")
                continue
            target = p[t]
            ensure(f.value is target, "%s is %r instead of %s", f.path, f.value, t)
            ref = plain[t[len("/set"):]]
            eq(target.size, ref.size, "size of the target")
            if target.is_field_set:
                for g in ref:
                    ensure(p["%s[%d]/%s" % (kind, i, g.name)] is target[g.name], "through a link")
                    eq(p["%s[%d]/%s" % (kind, i, g.name)].size, g.size, "size through a link")
                raises(F.MissingField, lambda: p["%s[%d]/no such" % (kind, i)], "missing field through a link")
                rec.nt()
    eq([(a, b, c) for a, b, c, _ in synth.tree(p["set"])], [(a, b, c) for a, b, c, _ in nodes], "fields around links")
    eq(p["set"].absolute_address, 0, "address after links")
    eq(p["set"].size, total, "size of the set")


@suite.sub("subfile", st.tuples(st.binary(min_size=1, max_size=40), st.text("abc.é ", max_size=8), st.sampled_from(["class", "id", "none", "mime"]), READS),
           quick=600, thorough=8000)
def subfile(case, rec):
    """A SubFile says what it is."""
    content, filename, how, reads = case
    from hachoir.parser.image import PcxFile

    class Inner(Parser):
        PARSER_TAGS = {"id": "c17s", "description": "inner", "min_size": 8}
        endian = synth.ENDIAN[">"]

        def createFields(self):
            yield F.RawBytes(self, "all", self.size // 8)

    class P(Parser):
        PARSER_TAGS = {"id": "c17p", "description": "outer", "min_size": 8}
        endian = synth.ENDIAN[">"]

        def createFields(self):
            yield F.UInt8(self, "n")
            kw = {"class": dict(parser_class=Inner), "id": dict(parser=PcxFile), "mime": dict(mime_type="image/x-test"), "none": {}}[how]
            yield SubFile(self, "file", len(content), filename=filename or None, **kw)
            yield F.UInt8(self, "m")
    p = P(StringInputStream(b"\1" + content + b"\2"))
    f = p["file"]
    eq(f.value, content, "value")
    eq(p["m"].value, 2, "field after")
    s = f.getSubIStream()
    tags = list(s.tags)
    want = []
    if how == "class":
        want.append(("class", Inner))
    if how == "id":
        want.append(("id", "pcx"))
    if how == "mime":
        want.append(("mime", "image/x-test"))
    if filename:
        want.append(("filename", filename))
        ensure(filename in f.description, "description %r of a file named %r", f.description, filename)
    eq(tags, want, "tags of the stream")
    check_bytes(s, content, reads, "sub-file")
    if how == "class":
        q = guessParser(s)
        ensure(type(q) is Inner, "parser: %r", q)
        eq(q["all"].value, content, "content")
        ensure(guessParser(f.getSubIStream()) is q, "another parser for the same stream")
    if how == "id":
        ensure(type(guessParser(s)) is PcxFile, "parser of the id")
    rec.nt(how != "none")


# --- Ogg: packets of several logical streams laced in pages
def lacing(n):
    return [255] * (n // 255) + [n % 255]


def ogg_file(streams, maxseg, order, nil):
    """streams: list of (serial, list of packets). Returns the file and, per serial, [(flags, lacing, body)]."""
    queues = []
    for serial, packets in streams:
        segs = []       # (length, is first of a packet)
        body = b"".join(packets)
        for pk in packets:
            for k, n in enumerate(lacing(len(pk))):
                segs.append((n, k == 0))
        pages = []
        pos = 0
        for i in range(0, len(segs), maxseg):
            part = segs[i:i + maxseg]
            size = sum(n for n, _ in part)
            pages.append([0 if part[0][1] else 1, [n for n, _ in part], body[pos:pos + size]])
            pos += size
        if nil and len(pages) > 1:
            pages.insert(1 + nil % (len(pages) - 1), [0, [], b""])
        pages[0][0] |= 2
        pages[-1][0] |= 4
        queues.append((serial, pages))
    out = []
    work = [list(p) for _, p in queues]
    k = 0
    # every stream begins before the others go on
    for (serial, _), w in zip(queues, work):
        out.append((serial, w.pop(0)))
    while any(work):
        i = order[k % len(order)] % len(work)
        while not work[i]:
            i = (i + 1) % len(work)
        out.append((queues[i][0], work[i].pop(0)))
        k += 1
    data = b""
    for num, (serial, (flags, lac, body)) in enumerate(out):
        data += b"OggS\0" + bytes([flags]) + (num * 10).to_bytes(8, "little") + serial.to_bytes(4, "little") \
            + num.to_bytes(4, "little") + b"\0\0\0\0" + bytes([len(lac)]) + bytes(lac) + body
    return data, out


def runs(lac):
    """Lengths of the packets (or ends/starts of packets) of a page."""
    out = []
    cur = 0
    for i, n in enumerate(lac):
        cur += n
        if n != 255 or i == len(lac) - 1:
            out.append(cur)
            cur = 0
    return out


@suite.sub("ogg", st.tuples(st.lists(st.lists(st.integers(0, 40) | st.sampled_from([254, 255, 256, 509, 510, 511, 765, 1300]), min_size=1, max_size=8),
                                     min_size=1, max_size=3), st.integers(1, 9), st.lists(st.integers(0, 9), min_size=1, max_size=6),
                            st.integers(0, 3), st.integers(0, 9)), quick=1200, thorough=30000)
def ogg(case, rec):
    sizes, maxseg, order, nil, pick = case
    streams = []
    for i, ls in enumerate(sizes):
        # every packet has its own content
        streams.append((0x1000 + i, [bytes((j * 16 + i + k) % 251 for k in range(n)) for j, n in enumerate(ls)]))
    data, pages = ogg_file(streams, maxseg, order, nil)
    p = OggFile(StringInputStream(data))
    got = list(p)
    eq(len(got), len(pages), "pages")
    pos = 0
    for f, (serial, (flags, lac, body)) in zip(got, pages):
        size = 27 + len(lac) + len(body)
        eq((f.absolute_address, f.size), (pos * 8, size * 8), "place of %s" % f.path)
        eq(f["serial"].value, serial, "serial")
        eq((f["continued_packet"].value, f["first_page"].value, f["last_page"].value), (bool(flags & 1), bool(flags & 2), bool(flags & 4)), "flags")
        if lac and body:
            chunks = [c for c in f["segments"] if not isinstance(c, Link)]
            eq([c.size // 8 for c in chunks], [n for n in runs(lac) if n], "segments of %s" % f.path)
        pos += size
    firsts = {}
    for f, (serial, page) in zip(got, pages):
        if page[2] and serial not in firsts:
            firsts[serial] = f
    todo = list(streams)
    todo = todo[pick % len(todo):] + todo[:pick % len(todo)]
    for serial, packets in todo:
        if serial not in firsts:
            continue
        mine = [pg for s, pg in pages if s == serial]
        if mine[0][1] and not mine[0][2]:
            continue        # the stream begins on a page without data
        s = firsts[serial]["segments"].getSubIStream()
        check_bytes(s, b"".join(packets), [], "logical stream")
        q = OggStream(firsts[serial]["segments"].getSubIStream())
        eq([x.value for x in q], [x for x in packets if x], "packets of the stream %x" % serial)
        rec.nt(len(mine) > 1 and len(packets) > 1)
        rec.label("split packet", any(pg[0] & 1 for pg in mine))
        rec.label("multiplexed", len(streams) > 1)
        rec.label("page without segment", any(not pg[1] for pg in mine))
