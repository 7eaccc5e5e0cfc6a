"""What a reader finds in a generated file, compared with what is known of it."""
import os
import tempfile

from vh.core import ensure, eq
from hachoir.core.log import log
from hachoir.metadata import extractMetadata
from hachoir.parser import HachoirParserList, createParser, guessParser
from hachoir.stream import StringInputStream

BY_ID = {p.getParserTags()["id"]: p for p in HachoirParserList.getInstance()}
SHM = "/dev/shm" if os.path.isdir("/dev/shm") else None
log.use_print = False


def opened(m, how):
    """The parser of a file: 0: chosen by the caller, 1: found from the name and the content of a file, 2: found from the content"""
    if how == 1:
        with tempfile.TemporaryDirectory(dir=SHM) as d:
            path = os.path.join(d, "vh" + m.suffix)
            with open(path, "wb") as f:
                f.write(m.data)
            p = createParser(path)
            ensure(p is not None, "no parser found for %s", m.suffix)
            # (the file stays open: its content can still be read)
    elif how == 2:
        p = guessParser(StringInputStream(m.data))
        if p is None or p.PARSER_TAGS["id"] != m.parser:
            # several formats have no real signature: see C25
            return opened(m, 0)
    else:
        p = BY_ID[m.parser](StringInputStream(m.data), validate=True)
    eq(p.PARSER_TAGS["id"], m.parser, "parser")
    return p


def close(a, b):
    if isinstance(a, float) or isinstance(b, float):
        try:
            return abs(a - b) <= 1e-6 * max(abs(a), abs(b))
        except TypeError:
            return False
    return a == b and type(a) is type(b)


def unique(values):
    out = []
    for v in values:
        if v not in out:
            out.append(v)
    return out


def compare(md, facts, where="", number=close):
    for key, want in facts.items():
        got = md.getValues(key)
        want = unique(want)
        ensure(len(got) == len(want) and all(number(a, b) for a, b in zip(got, want)), "%s%s: got %r, want %r", where, key, got, want)


def extract(m, how, quality=None):
    p = opened(m, how)
    try:
        md = extractMetadata(p) if quality is None else extractMetadata(p, quality)
        ensure(md is not None, "no metadata")
        return md
    finally:
        p.close()
