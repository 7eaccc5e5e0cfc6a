"""C07: text made printable/decoded keeps its content and is always displayable."""
import codecs
import re

from hypothesis import strategies as st

from vh.core import Suite, ensure, eq, fail, raises
from vh import repo  # noqa: F401
from hachoir.core import tools as T
from hachoir.core.i18n import guessBytesCharset
from hachoir.stream import StringInputStream, guessStreamCharset

suite = Suite("C07", rule="a case is a text or byte string (control characters, quotes, backslashes, non-ASCII) with a "
              "charset; non-trivial when at least one character needs escaping or decoding")

NAMED = {10: "\\n", 13: "\\r", 9: "\\t", 7: "\\a", 8: "\\b"}


def escape(text, charset):
    """Reference: list of (output text, is_escape) in order."""
    out = []
    for c in text:
        o = ord(c)
        if o < 32 or o == 127:
            out.append(NAMED.get(o) or "\\x%02x" % o)
            continue
        try:
            c.encode(charset)
            out.append(c)
        except UnicodeEncodeError:
            out.append("\\x%02x" % o if o < 256 else "\\u%04x" % o if o < 65536 else "\\U%08x" % o)
    return "".join(out)


def smart(text):
    """\\x0N is written \\N unless an octal digit follows."""
    out, i = [], 0
    while i < len(text):
        if text.startswith("\\x0", i) and text[i + 3:i + 4] in tuple("01234567") \
                and text[i + 4:i + 5] not in tuple("01234567"):
            out.append("\\" + text[i + 3])
            i += 4
        else:
            out.append(text[i])
            i += 1
    return "".join(out)


TEXT = st.text(st.sampled_from("abz019 \\\"'x\x00\x01\x07\x08\t\n\r\x1f\x7f\x80\xe9\u20ac\u0416\U0001f600"), max_size=14)
CHARSETS = st.sampled_from(["ASCII", "ISO-8859-1", "latin1", "UTF-8", "ISO-8859-15", "CP1252"])


@suite.sub("printable", st.tuples(TEXT | st.binary(max_size=14), CHARSETS, st.sampled_from([None, '"', "'"]), st.booleans()),
           quick=6000)
def printable(case, rec):
    data, charset, quote, sm = case
    if isinstance(data, bytes):
        text, cs = data.decode("latin1"), "ASCII"
    else:
        text, cs = data, charset
    got = T.makePrintable(data, charset, quote=quote, smart=sm)
    if not text:
        want = "(empty)" if quote else ""
    else:
        want = escape(text.replace(quote, "\0\0Q") if False else text, cs)
        if quote:
            # only the quote character itself is escaped
            want = quote + want.replace(quote, "\\" + quote) + quote
        if sm:
            want = smart(want)
    eq(got, want, "makePrintable(%r, %r, quote=%r, smart=%r)" % (data, charset, quote, sm))
    ensure(not re.search("[\x00-\x1f\x7f]", got), "control character in %r", got)
    got.encode(cs)
    rec.nt(want != text)


@suite.sub("unicode", TEXT | st.binary(max_size=14) | st.integers() | st.lists(st.integers(0, 9), max_size=3), quick=3000)
def make_unicode(v, rec):
    got = T.makeUnicode(v)
    text = v.decode("latin1") if isinstance(v, bytes) else v if isinstance(v, str) else str(v)
    want = smart("".join((NAMED.get(ord(c)) or "\\x%02x" % ord(c)) if ord(c) < 32 or ord(c) == 127 else c for c in text))
    eq(got, want, "makeUnicode(%r)" % (v,))
    ensure(isinstance(got, str) and not re.search("[\x00-\x1f\x7f]", got), "makeUnicode(%r) = %r", v, got)
    rec.nt(want != text)


@suite.sub("newline", st.text(st.sampled_from("ab \r\n"), max_size=16), quick=2000)
def newline(text, rec):
    want, prev = [], ""
    i = 0
    while i < len(text):
        if text[i] in "\r\n":
            while i < len(text) and text[i] in "\r\n":
                i += 1
            want.append("\n")
        else:
            want.append(text[i])
            i += 1
    want = "".join(want)
    eq(T.normalizeNewline(text), want, "normalizeNewline(%r)" % text)
    eq(T.normalizeNewline(want), want, "normalizeNewline twice")
    rec.nt(want != text)


CANDIDATES = [("ISO-8859-1", "©®éêè\xE0ç"), ("ISO-8859-15", "©®éêè\xE0ç€"), ("MacRoman", "©®"),
              ("ISO-8859-7", "εδηιθκμοΡσςυΈί")]


def want_charset(data, default):
    for bom, name in ((codecs.BOM_UTF8, "UTF-8"), (codecs.BOM_UTF16_LE, "UTF-16-LE"), (codecs.BOM_UTF16_BE, "UTF-16-BE")):
        if data[:len(bom)] == bom:
            return name
    if all(b < 128 for b in data):
        return "ASCII"
    try:
        data.decode("utf-8")
        return "UTF-8"
    except UnicodeDecodeError:
        pass
    high = {b for b in data if b >= 128}
    for name, chars in CANDIDATES:
        if high <= set(chars.encode(name)):
            return name
    return default


ASCII = st.text(st.characters(min_codepoint=0, max_codepoint=127), max_size=8)
DATA = st.one_of(
    st.binary(max_size=12), ASCII.map(lambda s: s.encode()), st.text(max_size=8).map(lambda s: s.encode("utf-8", "ignore")),
    st.tuples(st.sampled_from([codecs.BOM_UTF8, codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE]), st.binary(max_size=6)).map(b"".join),
    st.sampled_from(CANDIDATES).flatmap(lambda c: st.text(st.sampled_from(c[1] + "ab "), max_size=10).map(lambda s: s.encode(c[0]))),
)


@suite.sub("charset", st.tuples(DATA, st.sampled_from([None, "ASCII", "KOI8-R"]), st.binary(max_size=4), st.integers(0, 9),
                              st.just(0) | st.integers(1010, 1030)), quick=6000)
def charset(case, rec):
    data, default, prefix, cut, far = case
    want = want_charset(data, default)
    got = guessBytesCharset(data, default)
    eq(got, want, "guessBytesCharset(%r, %r)" % (data, default))
    rec.label(str(want))
    rec.nt(want not in ("ASCII", default))
    # only the first kilobyte of a long text is looked at
    pad = b"x" * far
    stream = StringInputStream(prefix + pad + data + b"\xff")
    seen = (pad + data)[:1024]
    size = len(pad + data) * 8 + far % 8
    if far:
        eq(guessStreamCharset(stream, 8 * len(prefix), size, default), want_charset(seen, default),
           "guessStreamCharset of %d characters, then %r" % (far, data))
        rec.label("cut at 1024 bytes", far + len(data) > 1024)
        return
    n = max(0, len(data) - cut)
    if n:
        eq(guessStreamCharset(stream, 8 * len(prefix), 8 * n, default), want_charset(data[:n], default),
           "guessStreamCharset of %r" % data[:n])
