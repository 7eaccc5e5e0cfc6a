"""C28: the metadata of a picture are the ones stored in the file."""
from hypothesis import strategies as st

from vh import repo  # noqa: F401
from vh import facts, images
from vh.core import Suite, ensure, eq

suite = Suite("C28", rule="a case is a picture; non-trivial when it has metadata other than its size and its depth, or a layout other than the usual one of its format")

# formats that are recognized from the content only
MAGIC = ["png", "gif", "bmp", "ico", "gif-plain", "bmp2", "bmp-top", "tiff", "jpeg", "xcf", "psd", "wmf", "emf"]


@suite.sub("picture", st.tuples(images.cases(), st.integers(0, 2), st.booleans()), 3000)
def picture(case, rec):
    """Facts of one picture"""
    pic, how, again = case
    m = images.build(pic)
    if how == 2 and pic[0] not in MAGIC:
        how = 1
    p = facts.opened(m, how)
    try:
        md = facts.extractMetadata(p)
        ensure(md is not None, "no metadata")
        wanted = dict(m.facts)
        comment = wanted.pop("comment?", None)
        facts.compare(md, wanted)
        if comment is not None:
            got = md.getValues("comment")
            quality = [c for c in got if c.startswith("JPEG quality: ")]
            eq([c for c in got if c not in quality], comment, "comment")
            eq(quality, ["JPEG quality: %d%%" % m.quality] if m.quality else [], "JPEG quality")
        if m.groups:
            subs = list(md.iterGroups())
            eq(len(subs), len(m.groups), "number of pictures")
            for i, (sub, want) in enumerate(zip(subs, m.groups)):
                facts.compare(sub, want, "picture %d: " % i)
        if again:
            # a second extraction from the same parser
            md2 = facts.extractMetadata(p)
            eq(md2.exportPlaintext(), md.exportPlaintext(), "second extraction")
        rows = getattr(m, "rows", None)
        if rows:
            pattern, order, size, start = rows
            for i, y in enumerate(order):
                if i not in (0, 1, len(order) // 2, len(order) - 1):
                    continue
                line = p[pattern % y]
                eq((line.absolute_address, line.size), (8 * (start + i * size), 8 * size), "line %d" % y)
        if hasattr(m, "resources"):
            eq(len([f for f in p["config"] if f.name != "size"]), m.resources, "resources")
    finally:
        p.close()
    rec.label(pic[0])
    rec.label(("parser class", "file", "content")[how])
    rec.nt(sum(1 for v in m.facts.values() if v) > 5 or m.groups or rows)


@suite.sub("jpeg", st.tuples(images.cases(["jpeg"]), st.integers(0, 2), st.booleans()), 1500)
def jpeg(case, rec):
    """Facts of one JPEG picture, with EXIF, IPTC, comments..."""
    picture(case, rec)
