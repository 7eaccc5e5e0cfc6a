"""C24: hachoir-subfile finds each embedded file, with its exact bytes."""
import contextlib
import io
import os
import random
import re
import shutil
import sys
import tempfile
from unittest import mock

from hypothesis import strategies as st

from vh import archives, audio, corpus, documents, facts, images, media, repo, video  # noqa: F401
from vh.core import Suite, ensure, eq, fail
from hachoir.core import memory
from hachoir.parser.parser_list import HachoirParserList
from hachoir.stream import StringInputStream
from hachoir.subfile import main as cli, search as search_module
from hachoir.subfile.search import SearchSubfile

suite = Suite("C24", rule="a case is a stream made of unknown bytes, signatures without their file and well-formed files, searched by slices of a generated size; "
              "non-trivial when a file which doesn't start the stream is found, and either its signature crosses two slices or another file is found")

FILES = corpus.names(40000)
PARSERS = list(HachoirParserList.getInstance())
MAGICS = []     # (parser, regex, text or None, offset in bits)
for _p in PARSERS:
    for _m, _o in _p.getParserTags().get("magic", ()):
        MAGICS.append((_p, re.compile(re.escape(_m), re.S), _m, _o))
    for _m, _o in _p.getParserTags().get("magic_regex", ()):
        MAGICS.append((_p, re.compile(_m, re.S), None, _o))
SKIPPED = {p for p in PARSERS if p.getParserTags().get("subfile") == "skip"}


def candidates(data, start, end, parsers):
    """Each signature of the stream: (position, end of the signature, start of the file, parser), by position."""
    out = []
    for n, (p, r, text, off) in enumerate(MAGICS):
        if p not in parsers:
            continue
        pos = start
        while True:
            if text is None:
                m = r.search(data, pos, end)
                at, stop = m.span() if m else (-1, 0)
            else:
                at = data.find(text, pos, end)
                stop = at + len(text)
            if at < 0:
                break
            out.append((at, stop, at - off // 8, p))
            pos = at + 1
    out.sort(key=lambda c: c[0])
    return out


def valid(data, at, parser):
    try:
        p = parser(StringInputStream(data[at:]), validate=True)
    except Exception:
        return None
    return p


def reference(data, start, end, parsers):
    """(files found: [(start, parser, content size in bits or None, suffix)], signatures which overlap)"""
    cands = [c for c in candidates(data, start, end, parsers)]
    overlap = any(a[1] > b[0] and (a[0], a[1]) != (b[0], b[1]) for a, b in zip(cands, cands[1:]))
    if not overlap:
        top = 0
        seen = None
        for c in cands:
            if c[0] < top and (c[0], c[1]) != seen:
                overlap = True
            top = max(top, c[1])
            seen = (c[0], c[1])
    out = []
    nxt = None
    for pos, stop, at, cls in cands:
        if at < 0 or (not overlap and nxt is not None and at < nxt):
            continue
        p = valid(data, at, cls)
        if p is None:
            continue
        size = p.content_size
        out.append((at, cls, size, p.filename_suffix, pos, stop))
        if size is not None and cls in SKIPPED:
            nxt = at + size / 8
    return out, overlap


class Search(SearchSubfile):
    def __init__(self, *args):
        SearchSubfile.__init__(self, *args)
        self.got = []

    def processParser(self, offset, parser):
        self.got.append((offset // 8, type(parser), parser.content_size))
        ensure(offset % 8 == 0, "file at the bit %s", offset)
        SearchSubfile.processParser(self, offset, parser)


MEDIA = media.cases()
SEGMENT = st.one_of(
    st.tuples(st.just("noise"), media.SEED, st.integers(0, 400)),
    st.tuples(st.just("media"), MEDIA), st.tuples(st.just("media"), MEDIA), st.tuples(st.just("media"), MEDIA),
    st.tuples(st.just("magic"), st.integers(0, len(MAGICS) - 1), media.SEED, st.integers(0, 80)),
    st.tuples(st.just("zero"), st.integers(1, 700)),
    st.tuples(st.just("file"), st.sampled_from(FILES)))


memory.setMemoryLimit = lambda limit: False     # the limit depends on what this process already uses


def compose(segments):
    data = b""
    tops = []       # (start, size or None, parser id, media)
    for s in segments:
        if s[0] == "noise":
            data += media.noise(s[1], s[2])
        elif s[0] == "zero":
            data += bytes(s[1])
        elif s[0] == "magic":
            p, r, text, off = MAGICS[s[1]]
            if text is not None:
                data += media.noise(s[2], off // 8) + text
            data += media.noise(s[2] + 1, s[3])
        elif s[0] == "file":
            data += corpus.data(s[1])
        else:
            m = media.build(s[1])
            tops.append((len(data), m))
            data += m.data
    return data, tops


LINE = re.compile(r"^\[\+\] File at (\d+)(?: size=(\d+) \([^)]*\))?: (.*?)(?: => (.*)| \(don't copy whole file\))?$", re.S)


def run(case, rec, data, tops, slice_size, start, size, filt, write, command):
    end = len(data) if size is None else min(len(data), start + size)
    parsers = set(PARSERS)
    if filt:
        cats, ids = filt
        parsers = {p for p in PARSERS if p.getParserTags().get("category") in cats or p.getParserTags()["id"] in ids}
    want, overlap = reference(data, start, end, parsers)
    tmp = tempfile.mkdtemp(prefix="c24")
    try:
        outdir = os.path.join(tmp, "out")
        stdout, stderr = io.StringIO(), io.StringIO()
        if command:
            name = os.path.join(tmp, "in")
            with open(name, "wb") as f:
                f.write(data)
            argv = ["hachoir-subfile", "--quiet"]
            if start:
                argv.append("--offset=%d" % start)
            if size is not None:
                argv.append("--size=%d" % size)
            if filt and filt[0]:
                argv.append("--category=" + ",".join(filt[0]))
            if filt and filt[1]:
                argv.append("--parser=" + ",".join(filt[1]))
            argv.append(name)
            if write:
                argv.append(outdir)
            with contextlib.redirect_stdout(stdout), contextlib.redirect_stderr(stderr), mock.patch.object(search_module, "stderr", stderr, create=True), mock.patch.object(sys, "argv", argv):
                try:
                    cli.main()
                except SystemExit as e:
                    eq(e.code or 0, 0, "exit code")
                else:
                    fail("no exit code")
            got = []
            for line in stdout.getvalue().splitlines():
                m = LINE.match(line)
                ensure(m, "output %r", line)
                got.append((int(m[1]), m[2] and int(m[2]), m[4] and os.path.relpath(m[4], tmp)))
        else:
            s = Search(StringInputStream(data), start, size)
            s.verbose = False
            s.slice_size = slice_size * 8
            if write:
                s.setOutput(outdir)
            with contextlib.redirect_stdout(stdout), contextlib.redirect_stderr(stderr), mock.patch.object(search_module, "stderr", stderr, create=True):
                if filt:
                    s.loadParsers(categories=list(filt[0]) or None, parser_ids=list(filt[1]) or None)
                eq(s.main(), True, "result of the search")
            got = s.got
        written = {}
        if os.path.isdir(outdir):
            for n in os.listdir(outdir):
                with open(os.path.join(outdir, n), "rb") as f:
                    written[n] = f.read()
    finally:
        shutil.rmtree(tmp)

    # what is found
    full = [(a, c, z) for a, c, z, x, b, e in want]
    if command:
        found = [g[:2] for g in got]
        full = [(a, z // 8 if z is not None else None) for a, c, z in full]
    else:
        found = got
    if overlap:
        rec.label("overlap")
        for f in found:
            ensure(f in full, "found %s, valid: %s", f, full)
    else:
        eq(found, full, "files found")
    # the files we put there
    nxt = start
    hits = 0
    for at, m in tops:
        cls = [p for p in PARSERS if p.getParserTags()["id"] == m.parser][0]
        magics = [w for w in want if w[0] == at and w[1] is cls]
        if cls not in parsers or at < nxt:
            continue
        mine = [x for x in MAGICS if x[0] is cls and any(x[1].match(data, at + x[3] // 8, end) for _ in [0]) and start <= at + x[3] // 8]
        if not mine:
            continue
        # another file may hide it
        if overlap or any(z is not None and c in SKIPPED and a < at < a + z // 8 for a, c, z, x, b, e in want):
            continue
        ensure(magics, "%s not found at %d", m.kind, at)
        a, c, z, x, b, e = magics[0]
        if m.complete and m.kind != "tar":
            eq(z, 8 * len(m.data), "content size of the %s at %d" % (m.kind, at))
        elif m.kind == "tar":
            eq(z, 8 * m.end, "content size of the %s at %d" % (m.kind, at))
        eq(x, m.suffix, "suffix of the %s at %d" % (m.kind, at))
        hits += 1
        rec.label(m.kind)
        if not command and (b - start) // (slice_size) != (e - 1 - start) // slice_size:
            rec.label("crosses a slice")
            rec.nt(at > 0)
    rec.nt(hits > 1)
    rec.label("found", hits)

    # what is written
    if write and not overlap:
        n = 0
        names = {}
        for a, c, z, x, b, e in want:
            if not z or (a == 0 and z == 8 * end) or z // 8 >= 100 * 1024 * 1024:
                continue
            n += 1
            names["file-%04u%s" % (n, x or "")] = (a, z)
        eq(sorted(written), sorted(names), "files written")
        if command:
            eq([g[2] for g in got if g[2]], [os.path.join("out", x) for x in names], "names displayed")
        for name, (a, z) in names.items():
            if a + z // 8 <= len(data):
                ensure(written[name] == data[a:a + z // 8], "%s isn't the %d bytes at %d", name, z // 8, a)
        rec.label("written", n)
    elif not write:
        eq(written, {}, "files written")


WINDOW = st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 1000), st.integers(0, 1000)))
FILTER = st.one_of(st.none(), st.none(), st.none(), st.none(), st.tuples(st.lists(st.sampled_from(["archive", "image", "audio", "misc"]), max_size=2, unique=True),
                                                   st.lists(st.sampled_from(["png", "gif", "zip", "tar", "midi", "riff", "aiff", "bmp"]), max_size=3, unique=True)))


@suite.sub("search", st.tuples(st.lists(SEGMENT, min_size=2, max_size=6), st.integers(44, 90) | st.integers(44, 700) | st.sampled_from([44, 64, 512, 4096]),
                               FILTER, st.booleans(), WINDOW), quick=1000, thorough=30000)
def search(case, rec):
    segments, slice_size, filt, write, window = case
    data, tops = compose(segments)
    if not data:
        return
    if filt and not (filt[0] or filt[1]):
        filt = None
    start, size = 0, None
    if window:
        start = window[0] * len(data) // 1001
        size = max(1, window[1] * (len(data) - start) // 1000) if window[1] < 900 else None
    run(case, rec, data, tops, slice_size, start, size, filt, write, False)


@suite.sub("command", st.tuples(st.lists(SEGMENT, min_size=2, max_size=6), FILTER, st.booleans(), WINDOW),
           quick=250, thorough=8000)
def command(case, rec):
    segments, filt, write, window = case
    data, tops = compose(segments)
    if not data:
        return
    if filt and not (filt[0] or filt[1]):
        filt = None
    start, size = 0, None
    if window:
        start = window[0] * len(data) // 1001
        size = max(1, window[1] * (len(data) - start) // 1000) if window[1] < 900 else None
    run(case, rec, data, tops, 1 << 30, start, size, filt, write, True)


# --- size of each kind of file, whatever follows it
KINDS = {}
for _d in (media.KINDS, images.IMAGES, audio.AUDIO, video.VIDEO, archives.ARCHIVES, documents.DOCUMENTS):
    KINDS.update(_d)
# kinds which say their size (other ones don't, so they aren't saved); some only when it's written in the file
SIZED = ["aiff", "aiff-chunks", "ani", "au", "avi", "bmp", "bmp-top", "bmp2", "cab", "gif", "gif-plain", "ico", "ico-sizes", "jpeg", "midi", "ogg", "png", "swf", "tar", "wav", "wmf", "zip"]
SOMETIMES = ["asf", "mkv", "mp3", "pe"]
TAILS = st.one_of(st.just(b""), st.sampled_from([b"\0", b"\xff"]).flatmap(lambda c: st.integers(1, 600).map(lambda n: c * n)), st.tuples(media.SEED, st.integers(1, 300)).map(lambda t: media.noise(*t)))


def tar_end(data):
    pos = 0
    while any(data[pos:pos + 512]):
        pos += 512 + (int(data[pos + 124:pos + 136].strip(b"\0 ") or b"0", 8) + 511) // 512 * 512
    return pos + 512


@suite.sub("sizes", st.tuples(st.sampled_from(SIZED + SIZED + SOMETIMES).flatmap(lambda k: st.tuples(st.just(k), KINDS[k][0])), TAILS), 2500, thorough=60000)
def sizes(case, rec):
    (name, params), tail = case
    m = KINDS[name][1](params)
    try:
        p = facts.BY_ID[m.parser](StringInputStream(m.data + tail), validate=True)
    except Exception:
        if name not in ("wmf", "mp3", "ogg"):
            raise
        # what follows may be read as one more frame, page or record
        rec.label("not valid with its tail")
        return
    want = tar_end(m.data) if name == "tar" else len(m.data)
    got = p.content_size
    if name in SOMETIMES and got is None:
        rec.label("no size")
        return
    eq(got, want * 8, "size of a %s file followed by %d bytes" % (name, len(tail)))
    rec.label(name)
    rec.nt(bool(tail))
