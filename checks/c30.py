"""C30: the metadata of a video are the ones stored in the file."""
from hypothesis import strategies as st

from vh import repo  # noqa: F401
from vh import facts, video
from vh.core import Suite, ensure, eq
from hachoir.core.language import Language
from hachoir.core.tools import humanBitRate

suite = Suite("C30", rule="a case is a video; non-trivial when it has two streams or tags")

MAGIC = ["avi", "ani", "asf", "mkv", "flv"]


def same(a, b):
    if isinstance(a, Language):
        return a.code == b
    return facts.close(a, b)


def check(case, rec):
    vid, how, quality, again = case
    m = video.build(vid)
    if how == 2 and vid[0] not in MAGIC or how == 1 and vid[0] in ("mp4",):
        # (the parser of MPEG-4 has no signature and no suffix)
        how = 0
    p = facts.opened(m, how)
    try:
        md = facts.extractMetadata(p, quality) if quality is not None else facts.extractMetadata(p)
        ensure(md is not None, "no metadata")
        wanted = m.facts
        if quality == 1.0 and hasattr(m, "best"):
            wanted = m.best
        facts.compare(md, wanted, number=same)
        subs = list(md.iterGroups()) if m.groups else []
        eq(len(subs), len(m.groups), "number of streams")
        for i, (sub, want) in enumerate(zip(subs, m.groups)):
            facts.compare(sub, want, "stream %d: " % i, number=same)
        rate = getattr(m, "bit_rate", None)
        if rate:
            text = humanBitRate(rate[0])
            eq(md.getText("bit_rate"), "VBR (%s max)" % text if rate[1] else "%s (max)" % text, "text of the bit rate")
        if again:
            md2 = facts.extractMetadata(p, quality) if quality is not None else facts.extractMetadata(p)
            eq(md2.exportPlaintext(), md.exportPlaintext(), "second extraction")
    finally:
        p.close()
    rec.label(vid[0])
    rec.label(("parser class", "file", "content")[how])
    rec.nt(len(m.groups) > 1 or any(m.facts.get(k) for k in ("title", "author", "producer", "comment", "creation_date")))


CASE = [st.integers(0, 2), st.sampled_from([None, None, 0.5, 1.0]), st.booleans()]


@suite.sub("video", st.tuples(video.cases(), *CASE), 6000)
def film(case, rec):
    """Facts of one video"""
    check(case, rec)
