"""C32: the metadata of a font, program, Flash file, torrent or disc image are the ones stored in the file."""
from hypothesis import strategies as st

from vh import repo  # noqa: F401
from vh import documents, facts
from vh.core import Suite, ensure, eq

suite = Suite("C32", rule="a case is a file; non-trivial when it has texts or dates")

MAGIC = ["torrent", "pcf", "swf", "iso"]


def check(case, rec):
    doc, how, quality, again = case
    m = documents.build(doc)
    if how == 2 and doc[0] not in MAGIC:
        how = 0
    p = facts.opened(m, how)
    try:
        md = facts.extractMetadata(p, quality) if quality is not None else facts.extractMetadata(p)
        ensure(md is not None, "no metadata")
        facts.compare(md, m.facts)
        if again:
            md2 = facts.extractMetadata(p, quality) if quality is not None else facts.extractMetadata(p)
            eq(md2.exportPlaintext(), md.exportPlaintext(), "second extraction")
    finally:
        p.close()
    rec.label(doc[0])
    rec.label(("parser class", "file", "content")[how])
    rec.nt(any(m.facts[k] for k in ("title", "author", "producer", "creation_date", "filename", "frame_rate")))


CASE = [st.integers(0, 2), st.sampled_from([None, None, 0.5, 1.0]), st.booleans()]


@suite.sub("document", st.tuples(documents.cases(), *CASE), 6000)
def document(case, rec):
    """Facts of one document"""
    check(case, rec)
