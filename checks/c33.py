"""C33: the streams and the properties of an OLE2 document are read as they are stored."""
from hypothesis import strategies as st

from vh import repo  # noqa: F401
from vh import facts, ole2
from vh.core import Suite, ensure, eq
from hachoir.parser import guessParser

suite = Suite("C33", rule="a case is a document; non-trivial when it has two streams or a property")


def content(fragment):
    p = guessParser(fragment.getSubIStream())
    ensure(p is not None, "no parser for the fragment %s", fragment.path)
    return p


def check_streams(p, m):
    """Each stream is found by its name, in the file or in the mini stream, and is the exact content"""
    names = {}
    for prop in p.array("property"):
        if prop["type"].value == 2:
            names[prop["name"].value] = prop
    eq(sorted(names), sorted(n for n, _ in m.streams), "names of the streams")
    p._feedAll()
    mini = content(p["root[0]"]) if "root[0]" in p else None
    if mini is not None:
        mini._feedAll()
    for name, data in m.streams:
        prop = names[name]
        eq(prop["size"].value, len(data), "size of %r" % name)
        if name.startswith("\5"):
            field = {"\5S": "summary[0]", "\5D": "doc_summary[0]"}[name[:2]]
        else:
            field = prop.name + "content[0]"
        where = mini if len(data) < 4096 else p
        other = p if len(data) < 4096 else mini
        ensure(where is not None and field in where, "stream %r not found (%s)", name, field)
        ensure(other is None or field not in other, "stream %r found in both places", name)
        frag = where[field]
        stream = frag.getSubIStream()
        raw = stream.readBytes(0, stream.size // 8)
        eq(raw[:len(data)], data, "content of %r" % name)
        unit = 64 if len(data) < 4096 else p.sector_size // 8
        eq(len(raw), -(-len(data) // unit) * unit, "size of the sectors of %r" % name)
        if not name.startswith("\5"):
            sub = content(frag)
            eq(sub["rawdata"].value, data, "parsed content of %r" % name)
            ensure(("slack_space" in sub) == (len(raw) > len(data)), "slack space of %r", name)
        # another fragment of the same stream gives the same one
        i = 1
        while field[:-2] + "%u]" % i in where:
            s2 = where[field[:-2] + "%u]" % i].getSubIStream()
            eq(s2.readBytes(0, s2.size // 8), raw, "stream of fragment %u of %r" % (i, name))
            i += 1


@suite.sub("document", st.tuples(ole2.CASES, st.integers(0, 2), st.booleans()), 2000)
def document(case, rec):
    """Streams and metadata of a document"""
    doc, how, first = case
    m = ole2.build(doc)
    p = facts.opened(m, how)
    try:
        if first:
            check_streams(p, m)
        md = facts.extractMetadata(p)
        if md is None:
            ensure(not any(m.facts.values()), "no metadata, want %r", m.facts)
        else:
            facts.compare(md, m.facts)
        if not first:
            check_streams(p, m)
        eq(p.content_size, len(m.data) * 8, "content size")
    finally:
        p.close()
    rec.label("sectors of %u" % (1 << doc[2][0]))
    for name, data in m.streams:
        rec.label("mini stream" if len(data) < 4096 else "stream")
    rec.nt(len(m.streams) > 1 or any(m.facts.values()))


@suite.sub("big", ole2.BIG, 24)
def big(case, rec):
    """Streams of a document whose FAT needs a second level"""
    m = ole2.build_big(case)
    p = facts.opened(m, 0)
    try:
        check_streams(p, m)
        eq(p.content_size, len(m.data) * 8, "content size")
    finally:
        p.close()
    rec.label("scattered" if case[1] else "sequential")
    rec.nt()
