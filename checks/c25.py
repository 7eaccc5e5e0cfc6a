"""C25: the parser of a file is selected from tags and content, always the same one."""
import io
import os
import random
import shutil
import tempfile

from hypothesis import strategies as st

from vh import corpus, media, repo  # noqa: F401
from vh.core import Suite, ensure, eq, fail, raises
from hachoir.core.log import log
from hachoir.field import Parser as FieldParser
from hachoir.parser import HachoirParser, HachoirParserList, Parser, ParserList, QueryParser, createParser, guessParser
from hachoir.stream import InputStreamError, StringInputStream, FileInputStream

suite = Suite("C25", rule="a case is the content of a file, its names and a list of tags; non-trivial when the parser found isn't the first one of the list of all parsers "
              "to be tried, or when several tags matter")

ALL = list(HachoirParserList.getInstance())
TAGS = {p: p.getParserTags() for p in ALL}
IDS = sorted(t["id"] for t in TAGS.values())
BY_ID = {t["id"]: p for p, t in TAGS.items()}


def values(parser, name):
    v = TAGS[parser].get(name, ())
    return tuple(v) if isinstance(v, (list, tuple)) else (v,)


EXTS = sorted({e for p in ALL for e in values(p, "file_ext")})
MIMES = sorted({e for p in ALL for e in values(p, "mime")})
CATS = sorted({e for p in ALL for e in values(p, "category")})
STEM = st.sampled_from(["a", "a.tar", "archive.png", ".hidden", "x.ZIP", "dir.gif/a", "/tmp/b.mp3/c", "a b", ""])
FILENAME = st.one_of(st.tuples(STEM, st.sampled_from(EXTS + ["", "unknown", "PNG", "Gif"])).map(lambda t: t[0] + "." + t[1]),
                     st.tuples(STEM, st.sampled_from(EXTS)).map(lambda t: t[0] + "." + t[1].upper()), STEM)
TAG = st.one_of(
    st.tuples(st.just("id"), st.sampled_from(IDS)), st.tuples(st.just("id"), st.sampled_from(["nosuch", "", "PNG"])),
    st.tuples(st.just("category"), st.sampled_from(CATS + ["nothing"])),
    st.tuples(st.just("mime"), st.sampled_from(MIMES + ["no/such"])), st.tuples(st.just("file_ext"), st.sampled_from(EXTS + ["nosuch"])),
    st.tuples(st.just("filename"), FILENAME), st.tuples(st.just("filename"), FILENAME), st.tuples(st.just("class"), st.sampled_from(IDS)),
    st.tuples(st.just("args"), st.dictionaries(st.sampled_from(["vh_a", "vh_b"]), st.integers(), max_size=2)),
    st.just(None), st.tuples(st.just("call"), st.sampled_from(["a", "e", "z", "png", "nosuch"])),
    st.tuples(st.just("category"), st.none()), st.tuples(st.just("unknown tag"), st.just("x")))


def real_tag(t):
    if t and t[0] == "call":
        return lambda parser: t[1] in TAGS[parser]["id"]
    if t and t[0] == "class":
        return ("class", BY_ID[t[1]])
    return t


def reference(tags):
    """(list of parsers in the order they are tried, validate, args)"""
    left = list(ALL)
    out = []
    validate, args = True, None
    for t in tags:
        if not left:
            break
        if t is None:
            left = []
            continue
        name, value = t
        if name == "call":
            got = [p for p in left if value in TAGS[p]["id"]]
        elif name == "class":
            out.append(BY_ID[value])
            validate = False
            continue
        elif name == "args":
            args = value
            continue
        else:
            if name == "filename":
                name = "file_ext"
                base = value.rsplit("/", 1)[-1]
                value = base.rsplit(".", 1)[1].lower() if "." in base else ""
            if value is None:
                order = []
                for p in ALL:
                    for v in values(p, name):
                        if v not in order:
                            order.append(v)
            else:
                order = [value]
            got = [p for v in order for p in left if v in values(p, name)]
            if name == "id" and value in BY_ID:
                validate = False
        out += got
        left = [p for p in left if p not in got]
    return out + left, validate, args


def accepts(parser, data, tags, validate, source="x"):
    try:
        parser(StringInputStream(data, source=source, tags=tags), validate=validate)
    except Exception:
        return False
    return True


class Messages:
    """What is logged, without any output."""

    def __enter__(self):
        self.old = log.on_new_message
        self.text = []
        log.on_new_message = lambda level, prefix, text, context: self.text.append(text)
        return self.text

    def __exit__(self, *a):
        log.on_new_message = self.old


SMALL = corpus.names(60000)
CONTENT = st.one_of(
    st.tuples(st.just("media"), media.cases()), st.tuples(st.just("media"), media.cases()),
    st.tuples(st.just("file"), st.sampled_from(SMALL), st.sampled_from([1, 1, 1, 0.5, 0.01])),
    st.tuples(st.just("bytes"), st.binary(min_size=1, max_size=40)),
    st.tuples(st.just("noise"), media.SEED, st.integers(1, 600)),
    st.tuples(st.just("media+"), media.cases(), media.SEED, st.integers(1, 200)))


def content(c):
    if c[0] == "media" or c[0] == "media+":
        d = media.build(c[1]).data
        return d + media.noise(c[2], c[3]) if c[0] == "media+" else d
    if c[0] == "file":
        d = corpus.data(c[1])
        return d[:max(1, int(len(d) * c[2]))]
    return media.noise(c[1], c[2]) if c[0] == "noise" else c[1]


@suite.sub("order", st.lists(TAG, max_size=5), quick=4000, thorough=100000)
def order(tags, rec):
    """The list of the parsers to be tried."""
    want, validate, args = reference(tags)
    for tries in range(2):
        q = QueryParser([real_tag(t) for t in tags])
        eq([p.__name__ for p in q], [p.__name__ for p in want], "parsers")
        eq(list(q), want, "parsers")
        eq(bool(q.validate), validate, "validation")
        eq(q.parser_args or {}, args or {}, "arguments")
    rec.nt(want[:3] != ALL[:3] and len(tags) > 1)
    eq(list(HachoirParserList.getInstance()), ALL, "the list of all parsers")


@suite.sub("select", st.tuples(CONTENT, st.lists(TAG, max_size=3)), quick=4000, thorough=80000)
def select(case, rec):
    """The first parser of the list which accepts the content."""
    c, tags = case
    data = content(c)
    real = [real_tag(t) for t in tags]
    names, validate, args = reference(tags)
    if not validate:
        # a parser without validation accepts anything: the classes asked only
        n = sum(1 for t in tags if t and t[0] in ("id", "class"))
        names, real = names[:n] if None in tags else names, real
    stream = StringInputStream(data, source="x", tags=real)
    with Messages():
        p = guessParser(stream)
        want = None
        for n, cls in enumerate(names):
            if accepts(cls, data, real, validate):
                want = cls
                break
    eq(type(p) if p is not None else None, want, "parser")
    if p is None:
        rec.label("not recognized")
        ensure(stream.readBytes(0, 1) == data[:1], "the stream can't be read after the failure")
        return
    ensure(p.stream is stream, "stream of the parser")
    for k, v in (args or {}).items():
        eq(getattr(p, k, None), v, "argument %s" % k)
    rec.nt(n > 0 and want is not ALL[0])
    rec.label(TAGS[want]["id"])
    # a parser of the same stream is kept as long as it lives
    with Messages():
        ensure(guessParser(stream) is p, "a new parser for the same stream")
        other = [x for x in ALL if x is not want][len(data) % (len(ALL) - 1)]
        q = QueryParser([("class", other), None]).parse(stream)
        ensure(q is None or type(q) is other, "parser %s instead of %s", q, other)


@suite.sub("create", st.tuples(CONTENT, FILENAME, st.sampled_from(["path", "file", "bytesio", "unnamed"]), st.lists(TAG.filter(lambda t: t and t[0] in ("mime", "category", "file_ext")), max_size=2)),
           quick=1500, thorough=30000)
def create(case, rec):
    """createParser() on a file of any name."""
    c, name, how, tags = case
    data = content(c)
    name = name.rsplit("/", 1)[-1]
    if name in ("", ".", ".."):
        name = "a"
    tmp = tempfile.mkdtemp(prefix="c25")
    try:
        path = os.path.join(tmp, name)
        with open(path, "wb") as f:
            f.write(data)
        if how == "path":
            inp, tagname = path, path
        elif how == "file":
            inp, tagname = open(path, "rb"), path
        elif how == "unnamed":
            inp, tagname = tempfile.TemporaryFile(dir=tmp), ""
            inp.write(data)
        else:
            inp, tagname = io.BytesIO(data), ""
        given = list(tags)
        with Messages():
            before = set(os.listdir("/proc/self/fd"))
            p = createParser(inp, tags=given) if tags else createParser(inp)
            eq(given, tags, "the list of tags of the caller")
            full = list(tags) + [("filename", tagname)]
            names, validate, args = reference(full)
            good = [x for x in names if accepts(x, data, full, True, "file:" + tagname)]
        eq(type(p) if p is not None else None, good[0] if good else None, "parser")
        if p is None:
            if how != "path":
                ensure(inp.closed, "the file isn't closed")
            else:
                eq(set(os.listdir("/proc/self/fd")) - before, set(), "files left open")
            return
        rec.nt(good[0] is not names[0])
        rec.label(TAGS[good[0]]["id"])
        with p:
            if c[0] == "media" and len(good) == 1:
                eq(TAGS[type(p)]["id"], media.build(c[1]).parser, "format")
        if how != "path":
            ensure(inp.closed, "the file isn't closed by the parser")
            inp.close()
        del p
        eq(set(os.listdir("/proc/self/fd")) - before, set(), "files left open by the parser")
        with Messages():
            raises(InputStreamError, lambda: createParser(os.path.join(tmp, "nosuch." + (name.rsplit(".", 1)[-1]))), "missing file")
            open(path, "wb").close()
            raises(InputStreamError, lambda: createParser(path), "empty file")
    finally:
        shutil.rmtree(tmp)


# --- registration

TAGVALUE = {
    "id": st.sampled_from(["abc", "x1_", "png2", "ab", "ABC", "", "a b", "_ab", "9zz", "abd"]) | st.sampled_from([None, 3, ("abc",)]),
    "category": st.sampled_from(["archive", "audio", "container", "file_system", "game", "image", "misc", "program", "video", "Image", "", "network", "other"]),
    "description": st.sampled_from(["text", "x", "", None, b"x", 3]),
    "file_ext": st.sampled_from([(), ("a",), ("a", "b"), ["a", "c"], "abc", ("",), None]),
    "mime": st.sampled_from([(), ("image/x",), ("image/x", "a/b"), "image/x", [], (b"x",), ("a/b", 3)]),
    "min_size": st.sampled_from([1, 8, 4096, 0, -1]),
    "magic": st.sampled_from([(), ((b"AB", 0),), ((b"AB", 8), (b"C", 0))]),
}
GOOD = {"id": st.sampled_from(["abc", "x1_", "png2", "abd", "9zz"]), "category": st.sampled_from(["archive", "image", "misc"]), "description": st.sampled_from(["text", "x"]),
        "file_ext": st.sampled_from([(), ("a",), ("a", "b"), ["a", "c"]]), "mime": st.sampled_from([(), ("image/x",), ("image/x", "a/b")]), "min_size": st.sampled_from([1, 8, 4096])}


@st.composite
def parser_tags(draw):
    t = {k: draw(v) for k, v in GOOD.items() if draw(st.integers(0, 9))}
    for k in draw(st.lists(st.sampled_from(sorted(TAGVALUE)), max_size=1)):
        t[k] = draw(TAGVALUE[k])
    return t


def acceptable(t, seen):
    import re
    if "id" not in t or "description" not in t:
        return False
    if not isinstance(t.get("file_ext", ()), (tuple, list)) or not isinstance(t.get("mime", ()), tuple) or not all(isinstance(m, str) for m in t.get("mime", ())):
        return False
    if not isinstance(t["description"], str) or not t["description"]:
        return False
    if not isinstance(t["id"], str) or not re.fullmatch("[a-z0-9][a-z0-9_]{2,}", t["id"]) or t["id"] in seen:
        return False
    if "category" in t and t["category"] not in ("archive", "audio", "container", "file_system", "game", "image", "misc", "program", "video"):
        return False
    return t.get("min_size", 1) > 0


@suite.sub("register", st.lists(parser_tags(), min_size=1, max_size=6), quick=3000, thorough=60000)
def register(case, rec):
    """Only the parsers with valid tags are registered, each one once."""
    db = ParserList()
    want = []
    seen = set()
    for n, t in enumerate(case):
        cls = type("P%d" % n, (Parser,), {"PARSER_TAGS": t})
        with Messages() as msg:
            db.add(cls)
        if acceptable(t, seen):
            want.append((cls, t))
            seen.add(t["id"])
            eq(msg, [], "messages")
        else:
            ensure(msg, "no message for %r", t)
    eq(list(db), [c for c, t in want], "registered")
    for name in ("id", "category", "file_ext", "mime"):
        index = {}
        for c, t in want:
            v = t.get(name, ())
            for x in v if isinstance(v, (tuple, list)) else (v,):
                index.setdefault(x, []).append(c)
        eq(db.bytag.get(name, {}), index, "index of %s" % name)
    rec.nt(1 < len(want) < len(case))
    for fmt in ("one_line", "rest", "trac", "file-ext", "mime", "one-line"):
        out = io.StringIO()
        db.print_(out=out, format=fmt, verbose=True)
        text = out.getvalue()
        for c, t in want:
            if "category" in t and fmt not in ("file-ext", "mime"):
                ensure(t["id"] in text, "%s not in the list %s:\n%s", t["id"], fmt, text)
        if fmt == "file-ext":
            exts = sorted({e for c, t in want for e in t.get("file_ext", ()) if e})
            eq(text, "File extensions: %s.\n\nTotal: %s file extensions.\n" % (", ".join(exts), len(exts)), "list of the extensions")
        elif fmt == "mime":
            mimes = sorted({e for c, t in want for e in t.get("mime", ()) if e})
            eq(text, "MIME types: %s.\n\nTotal: %s MIME types.\n" % (", ".join(mimes), len(mimes)), "list of the types")
        elif fmt != "trac":
            ensure(text.endswith("Total: %s parsers\n" % len(want)), "total of %s:\n%s", fmt, text)
