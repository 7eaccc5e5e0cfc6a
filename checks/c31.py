"""C31: the list of an archive is the one stored, each entry has its exact content."""
from hypothesis import strategies as st

from vh import repo  # noqa: F401
from vh import archives, facts
from vh.core import Suite, ensure, eq

suite = Suite("C31", rule="a case is an archive; non-trivial when it has two entries")


def opened(case):
    arc, how = case[:2]
    m = archives.build(arc)
    if how == 2 and not m.magic:
        how = 0
    return m, how, facts.opened(m, how)


def limit(quality):
    """Number of entries which are described"""
    if quality is None:
        quality = 0.5
    if quality <= 0:
        return 0
    if quality >= 1:
        return 10**9
    return 1 + int(10 * quality)


CASE = [st.integers(0, 2)]


@suite.sub("listing", st.tuples(archives.cases([n for n in archives.ARCHIVES if n != "ar"]), *CASE, st.sampled_from([None, None, 0.0, 0.2, 0.5, 0.99, 1.0, 1.0, 1.0]), st.booleans()), 2500)
def listing(case, rec):
    """Metadata of one archive"""
    quality, again = case[2:]
    m, how, p = opened(case)
    try:
        args = () if quality is None else (quality,)
        md = facts.extractMetadata(p, *args)
        groups = m.groups[:limit(quality)]
        if md is None:
            ensure(not groups and not any(m.facts.values()), "no metadata")
            return
        wanted = dict(m.facts)
        if not md:
            # (nothing to tell: not even the MIME type)
            wanted.pop("mime_type", None)
        facts.compare(md, wanted)
        subs = list(md.iterGroups()) if m.groups else []
        eq(len(subs), len(groups), "number of entries")
        for i, (sub, want) in enumerate(zip(subs, groups)):
            facts.compare(sub, want, "entry %d: " % i)
            eq(sub.header, 'File "%s"' % want["filename"][0], "title of entry %d" % i)
        if hasattr(m, "ext"):
            eq(p.filename_suffix, m.ext, "suffix")
        if hasattr(m, "mime"):
            eq(p.mime_type, m.mime, "MIME type")
        if again:
            eq(facts.extractMetadata(p, *args).exportPlaintext(), md.exportPlaintext(), "second extraction")
    finally:
        p.close()
    rec.label(case[0][0])
    rec.label(("parser class", "file", "content")[how])
    rec.nt(len(m.groups) > 1 or not m.groups)


def tagged(stream):
    return [v for k, v in (t for t in stream.tags if isinstance(t, tuple)) if k == "filename"]


def contents(m, p):
    """(file name, field) of each entry with a content"""
    if m.kind in ("tar", "ar"):
        for f in p.array("file"):
            if "content" in f:
                yield f["content"]
    elif m.kind == "zip":
        for f in p.array("file"):
            if f["compression"].value in (0, 8):
                for name in ("data", "compressed_data"):
                    if name in f:
                        yield f[name]
    elif m.kind == "mar":
        yield from p.array("data")
    else:
        yield p["file"]


@suite.sub("content", st.tuples(archives.cases(), *CASE), 1500)
def content(case, rec):
    """Content of each entry of one archive"""
    m, how, p = opened(case)
    try:
        if m.kind == "cab":
            for i, want in enumerate(m.folders):
                if not want:
                    continue
                f = p["folder_data[%d]" % i]
                s = f.getSubIStream()
                eq(s.readBytes(0, len(want)), want, "content of folder %d" % i)
                eq(s.size, len(want) * 8, "size of folder %d" % i)
        else:
            fields = list(contents(m, p))
            want = m.files
            if m.kind == "ar":
                names = [f["header"].value.split()[0] for f in p.array("file")]
                eq(names, [n for n, d in m.files], "names")
                want = [(n, d) for n, d in want if d]
                eq([f.value for f in fields], [d for n, d in want], "contents")
            else:
                eq(len(fields), len(want), "number of contents")
                for f, (name, data) in zip(fields, want):
                    s = f.getSubIStream()
                    got = s.readBytes(0, len(data)) if data else b""
                    eq(got, data, "content of %s" % name)
                    if name is not None:
                        eq(tagged(s), [name], "name of a content")
    finally:
        p.close()
    rec.label(m.kind)
    rec.nt(len(m.groups) > 1 or not m.groups)
