"""C37: the command line tools print what the library reads, one line for each thing, and survive damaged files."""
import contextlib
import io
import os
import random
import sys
import tempfile
from unittest import mock

from hypothesis import strategies as st

from vh import repo  # noqa: F401
from vh import archives, audio, documents, facts, images, media, video
from vh.core import Suite, ensure, eq
from hachoir import grep, listtool
from hachoir.core import config
from hachoir.core.i18n import getTerminalCharset
from hachoir.core.log import log
from hachoir.core.tools import makePrintable
from hachoir.field.string_field import GenericString
from hachoir.metadata import config as mconfig, extractMetadata, main as metadata_main
from hachoir.parser import createParser
from hachoir.stream import InputStreamError, StringInputStream

suite = Suite("C37", rule="a case is a run of a tool on files; non-trivial when it prints at least 3 lines")

KINDS = {}
for kinds in (media.KINDS, images.IMAGES, audio.AUDIO, video.VIDEO, archives.ARCHIVES, documents.DOCUMENTS):
    KINDS.update(kinds)
SMALL = sorted(KINDS)
ONE = st.sampled_from(SMALL).flatmap(lambda k: st.tuples(st.just(k), KINDS[k][0]))
# (file, damage: None or a seed)
FILE = st.tuples(ONE, st.sampled_from([None, None, None, 1, 2, 3, 4, 5, 6, 7, 8]) | st.integers(0, 2**20))
# not a file: absent, empty, unknown content
BAD = st.sampled_from(["absent", "empty", "text", "directory"])
FILES = st.lists(st.one_of(FILE, FILE, FILE, FILE, FILE, BAD), min_size=1, max_size=3)


def damaged(data, seed):
    if seed is None:
        return data
    rng = random.Random(seed)
    data = bytearray(data)
    if rng.random() < .4:
        del data[rng.randrange(len(data)) + 1:]
    for _ in range(rng.choice([0, 1, 1, 2, 5, 20])):
        i = rng.randrange(min(len(data), rng.choice([64, 512, 10**6])))
        data[i] = rng.choice([0, 255, 1, 128, data[i] ^ 1 << rng.randrange(8), rng.randrange(256)])
    return bytes(data)


def write(files, d):
    paths = []
    for i, f in enumerate(files):
        path = os.path.join(d, "file%u" % i)
        if f == "directory":
            os.mkdir(path)
        elif f == "empty":
            open(path, "wb").close()
        elif f == "text":
            with open(path, "wb") as out:
                out.write(b"qwerty %u no known format here\n" % i * 9)
        elif f != "absent":
            (kind, params), damage = f
            m = KINDS[kind][1](params)
            path += m.suffix
            with open(path, "wb") as out:
                out.write(damaged(m.data, damage))
        paths.append(path)
    return paths


def run(main, args, out=None):
    """Output, messages and status of a tool"""
    out = io.StringIO() if out is None else out
    err = io.StringIO()
    status = None
    state = config.quiet, config.verbose, config.debug, mconfig.MAX_STR_LENGTH, mconfig.RAW_OUTPUT, log.use_print
    log.use_print = True
    try:
        with mock.patch.object(sys, "argv", ["tool"] + args), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                main()
            except SystemExit as e:
                status = e.code
    finally:
        config.quiet, config.verbose, config.debug, mconfig.MAX_STR_LENGTH, mconfig.RAW_OUTPUT, log.use_print = state
    return out.getvalue(), err.getvalue(), status


def opened(path):
    try:
        return createParser(path)
    except InputStreamError:
        return None


def tree(p, depth=0):
    for f in p:
        yield depth, f
        if f.is_field_set:
            yield from tree(f, depth + 1)


def lines(text):
    ensure(not text or text.endswith("\n"), "end of the output: %r", text[-20:])
    return text.split("\n")[:-1]


# --- hachoir-grep
def strings(p):
    """The texts of a file: (address, path, text)"""
    return [(f.absolute_address, f.path, f.value) for depth, f in tree(p) if isinstance(f, GenericString)]


@suite.sub("grep", st.tuples(FILES, st.integers(0, 2**20), st.lists(st.sampled_from(["--percent", "--no-addr", "--no-value", "--case", "--path", "--all"]), unique=True)), 1600, thorough=30000)
def grep_tool(case, rec):
    """The texts found are those of the fields, at their addresses"""
    files, number, options = case
    charset = getTerminalCharset()
    with tempfile.TemporaryDirectory(prefix="c37", dir=facts.SHM) as d:
        paths = write(files, d)
        texts = []
        for path in paths:
            p = opened(path)
            if p is None:
                texts.append(None)
                continue
            with p:
                texts.append(strings(p))
        # a pattern: part of a text, in another case
        rng = random.Random(number)
        known = [t for x in texts if x for a, b, t in x if t and not t.startswith("-")]
        pattern = "e"
        if known:
            t = rng.choice(known)
            i = rng.randrange(len(t))
            pattern = t[i:i + rng.choice([1, 1, 2, 3, 5, 100])]
            pattern = rng.choice([pattern, pattern, pattern.lower(), pattern.upper(), pattern.swapcase(), pattern + "\u20ac"])
        if pattern.startswith("-"):
            pattern = "e"
        everything = "--all" in options
        args = list(options) + ([] if everything else [pattern]) + paths
        out, err, status = run(grep.main, args)
        want = []
        failed = False
        percents = 0
        for path, x in zip(paths, texts):
            if x is None:
                failed = True
                break
            for address, where, text in x:
                if not text:
                    continue
                if not everything:
                    if "--case" in options:
                        if pattern not in text:
                            continue
                    elif pattern.lower() not in text.lower():
                        continue
                line = []
                if len(paths) > 1:
                    line.append(makePrintable(path, charset))
                if "--no-addr" not in options:
                    line.append(str(address // 8) + (".%u" % (address % 8) if address % 8 else ""))
                if "--path" in options:
                    line.append(where)
                if "--no-value" not in options:
                    line.append(makePrintable(text, charset))
                if line:
                    want.append(":".join(line))
                    percents += 1
        eq(out.split("\n")[:-1], "\n".join(want).split("\n") if want else [], "lines")
        eq(status, 1 if failed else None, "status")
        eq(err.count("%] "), percents if "--percent" in options and not any("%] " in x for x in want) else err.count("%] "), "percents")
    rec.label("pattern" if not everything else "all")
    rec.nt(len(want) >= 3)


class Closed(io.StringIO):
    """A pipe whose reader is gone after some lines"""

    def __init__(self, room):
        io.StringIO.__init__(self)
        self.room = room

    def write(self, text):
        if self.tell() + len(text) > self.room:
            raise BrokenPipeError(32, "Broken pipe")
        return io.StringIO.write(self, text)


@suite.sub("pipe", st.tuples(FILE, st.integers(0, 200)), 200, thorough=3000)
def pipe(case, rec):
    """grep ends quietly when nobody reads its output any more"""
    f, room = case
    with tempfile.TemporaryDirectory(prefix="c37", dir=facts.SHM) as d:
        paths = write([f], d)
        whole, err, status = run(grep.main, ["--all"] + paths)
        out, err, status2 = run(grep.main, ["--all"] + paths, Closed(room))
        ensure(whole.startswith(out), "output: %r", out)
        eq(status2, status, "status")
        rec.nt(len(whole) > room)


# --- hachoir-metadata
LEVEL = st.sampled_from([None, None, 1, 2, 3, 4, 5, 6, 7, 8, 9])
OPTIONS = st.tuples(LEVEL, st.booleans(), st.sampled_from([None, None, "0", "0.5", "1.0"]), st.sampled_from([None, None, None, 0, 1, 5, 20, 300]), st.sampled_from(["", "", "", "", "--type", "--mime"]))


@suite.sub("metadata", st.tuples(FILES, OPTIONS), 1600, thorough=30000)
def metadata_tool(case, rec):
    """The metadata printed are those of the library, and the status tells if one file failed"""
    files, (level, raw, quality, maxlen, what) = case
    charset = getTerminalCharset()
    args = []
    if level is not None:
        args.append("--level=%u" % level)
    if raw:
        args.append("--raw")
    if quality is not None:
        args.append("--quality=" + quality)
    if maxlen is not None:
        args.append("--maxlen=%u" % maxlen)
    if what:
        args.append(what)
    with tempfile.TemporaryDirectory(prefix="c37", dir=facts.SHM) as d:
        paths = write(files, d)
        want = []
        ok = True
        for path in paths:
            p = opened(path)
            if p is None:
                ok = False
                continue
            name = path + ": " if len(paths) > 1 else ""
            with p:
                if what:
                    want.append(name + (p.description if what == "--type" else p.mime_type))
                    continue
                old = mconfig.MAX_STR_LENGTH, mconfig.RAW_OUTPUT
                if maxlen is not None:
                    mconfig.MAX_STR_LENGTH = maxlen
                mconfig.RAW_OUTPUT = raw
                try:
                    md = extractMetadata(p, float(quality or "0.5"))
                finally:
                    mconfig.MAX_STR_LENGTH, mconfig.RAW_OUTPUT = old
            if not md:
                ok = False
                continue
            groups = [md]
            if hasattr(md, "iterGroups"):
                groups += md.iterGroups()
            for g in groups:
                if maxlen:
                    for data in g:
                        for item in data.values:
                            if isinstance(item.value, str):
                                ensure(len(item.value) <= maxlen + 5, "%s longer than %s: %r", data.key, maxlen, item.value)
            text = md.exportPlaintext(priority=(level or 9) * 100 + 99, human=not raw)
            for line in text or ["(no metadata, priority may be too small)"]:
                want.append(makePrintable(name + line, charset))
        out, err, status = run(metadata_main.main, args + paths)
        eq(out, "".join(x + "\n" for x in want), "output")
        eq(status, 0 if ok else 1, "status")
        for path, f in zip(paths, files):
            if isinstance(f, str):
                ensure(path in err, "no message for %s: %r", f, err)
    rec.label(what or "metadata")
    rec.nt(len(want) >= 3)


# --- hachoir.listtool
@suite.sub("list", st.tuples(FILES, st.booleans(), st.booleans(), st.booleans(), st.sampled_from([None, 0, 1, 5])), 800, thorough=12000)
def list_tool(case, rec):
    """Each field is listed once, in the order of the file, below its parent"""
    files, description, hide_value, hide_size, width = case
    args = ["--quiet"]
    if description:
        args.append("--description")
    if hide_value:
        args.append("--hide-value")
    if hide_size:
        args.append("--hide-size")
    if width is not None:
        args.append("--indent-width=%u" % width)
    with tempfile.TemporaryDirectory(prefix="c37", dir=facts.SHM) as d:
        paths = write(files, d)
        want = ""
        status = None
        count = 0
        for i, path in enumerate(paths):
            if i:
                want += "\n"
            if len(paths) > 1:
                want += "File: %s\n" % path
            p = opened(path)
            if p is None:
                status = 1
                break
            with p:
                for depth, f in tree(p):
                    count += 1
                    want += " " * (2 if width is None else width) * depth + f.name + " <" + f.__class__.__name__
                    if not hide_size:
                        want += ", %uB" % (f.size // 8) if f.size % 8 == 0 else ", %ub" % f.size
                    want += ">"
                    if description:
                        want += " (%s)" % f.description
                    if f.value is not None and not hide_value:
                        want += ": %s" % f.display
                    want += "\n"
        out, err, code = run(listtool.main, args + paths)
        eq(code, status, "status")
        if status:
            ensure(out.startswith(want), "output: %r", out[-300:])
            rest = out[len(want):]
            ensure(rest.startswith("Unable to ") and paths[i] in rest and rest.count("\n") == 1, "message: %r", rest)
        else:
            eq(out, want, "output")
    rec.nt(count >= 3)


# --- metadata of damaged files
@suite.sub("damaged", st.tuples(ONE, st.integers(0, 2**30), st.sampled_from([0, 0.5, 1])), 8000, thorough=150000)
def damaged_file(case, rec):
    """The metadata of a damaged file are extracted and exported without failure, and are consistent"""
    (kind, params), seed, quality = case
    m = KINDS[kind][1](params)
    data = damaged(m.data, seed)
    try:
        p = facts.BY_ID[m.parser](StringInputStream(data))
    except InputStreamError:
        # too short for this parser
        return
    with p:
        md = extractMetadata(p, quality)
        if md is None:
            return
        count = 0
        groups = [md]
        if hasattr(md, "iterGroups"):
            groups += md.iterGroups()
        for g in groups:
            texts = []
            for data in sorted(g, key=lambda x: x.priority):
                for i, item in enumerate(data.values):
                    ensure(item.value is not None and isinstance(item.text, str), "%s: %r", data.key, item.text)
                    ensure(not isinstance(item.value, str) or item.value, "%s: empty value", data.key)
                    eq((g.getText(data.key, index=i), g.get(data.key, index=i), g.has(data.key)), (item.text, item.value, True), data.key)
                    texts.append("- %s: %s" % (data.description, item.text))
                    count += 1
            eq(len(set(d.key for d in g)), len(list(g)), "keys")
            if len(groups) == 1:
                eq((g.exportPlaintext() or [None])[1:], texts, "lines")
        for human in (True, False):
            lines = md.exportPlaintext(human=human)
            ensure(lines is None or all(isinstance(x, str) for x in lines), "lines: %r", lines)
            eq(lines is not None and len(lines) > 0, count > 0, "has lines")
            d = md.exportDictionary(human=human)
            ensure(isinstance(d, dict) and all(isinstance(x, dict) for x in d.values()), "dictionary: %r", d)
        eq(str(md), "\n".join(md.exportPlaintext() or []), "text")
        rec.nt(count >= 3)
    rec.label(kind)
