"""C10: string fields delimit and decode exactly the text their format describes."""
from hypothesis import strategies as st

from checks.c07 import escape, smart, want_charset
from vh.core import Suite, ensure, eq, fail
from vh import repo  # noqa: F401
from hachoir.core import config
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
import hachoir.field as F
from hachoir.stream import StringInputStream

suite = Suite("C10", rule="a case is a string format, a charset, the byte order of the parent and content; non-trivial "
              "when the content has a multi-byte character, a terminator-like sequence, a strip or truncation, or is refused")

ENDIAN = {">": BIG_ENDIAN, "<": LITTLE_ENDIAN}
WIDE = {"UTF-16-LE": (2, "<", "utf-16-le"), "UTF-16-BE": (2, ">", "utf-16-be"), "UTF-32LE": (4, "<", "utf-32-le"),
        "UTF-32BE": (4, ">", "utf-32-be")}
BOMS = {"UTF-16": {b"\xff\xfe": "UTF-16-LE", b"\xfe\xff": "UTF-16-BE"},
        "UTF-32": {b"\xff\xfe\0\0": "UTF-32LE", b"\0\0\xfe\xff": "UTF-32BE"}}
ONE = ["ASCII", "ISO-8859-1", "ISO-8859-15", "WINDOWS-1252", "WINDOWS-1251", "MacRoman", "CP037"]
CHARSETS = [None, "UTF-8"] + ONE + list(WIDE) + list(BOMS)
PREFIX = {"PascalString8": 1, "PascalString16": 2, "PascalString32": 4}
TERM = {"CString": 0, "UnixLine": 10}

TEXT = st.text(st.sampled_from("ab \t\n\x00\x01\"'\\x7\x7f\xe9\u20ac\u0100\u0a00\u0061\u000a\u6100\u0000\u010a\U0001f600\u0416"), max_size=10) | \
    st.text(st.sampled_from("ab c\xe9"), max_size=60)


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["CString", "UnixLine", "PascalString8", "PascalString16", "PascalString32", "String"]))
    charset = draw(st.sampled_from(CHARSETS))
    endian = draw(st.sampled_from("<>"))
    if draw(st.integers(0, 4)) == 0:
        content = draw(st.binary(max_size=14))
    else:
        text = draw(TEXT)
        bom = b""
        enc = charset or draw(st.sampled_from(["ascii", "latin1", "utf-8", "iso-8859-15"]))
        if charset in BOMS:
            bom, name = draw(st.sampled_from(sorted(BOMS[charset].items())))
            enc = name
        enc = WIDE[enc][2] if enc in WIDE else enc
        if kind in TERM and draw(st.booleans()):
            text = text.replace(chr(TERM[kind]), "")
        content = bom + text.encode(enc, "replace")
    tail = draw(st.binary(max_size=9) | st.sampled_from([b"\0" * 8, b"\0\0\0\n\0\0\0\n\n\0\0\0", b"\n\0", b"\0\n"]))
    strip = draw(st.sampled_from([None, None, True, "ab", " \0", "\0"]))
    truncate = draw(st.sampled_from([None, None, "\0", "b", "ab"]))
    lead = draw(st.integers(0, 3))
    order = draw(st.sampled_from(["vdr", "dvr", "rdv", "ldv"]))
    return kind, charset, endian, content, tail, strip, truncate, lead, order, draw(st.booleans())


def want_layout(kind, charset, endian, data, nbytes):
    """(size in bytes, content offset, content size, charset) or None when the string is invalid."""
    real = charset
    off = PREFIX.get(kind, 0)
    if kind in PREFIX:
        if len(data) < off:
            return None
        size = int.from_bytes(data[:off], "big" if endian == ">" else "little")
        total = off + size
    if charset in BOMS:
        w = 2 if charset == "UTF-16" else 4
        bom = data[off:off + w]
        if bom not in BOMS[charset]:
            return None
        real = BOMS[charset][bom]
    if kind in TERM:
        width, order = WIDE[real][:2] if real in WIDE else (1, ">")
        term = TERM[kind].to_bytes(width, "big" if order == ">" else "little")
        pos = 0
        while data[pos:pos + width] != term:
            pos += width
            if pos > len(data):
                return None
        size, total = pos, pos + width
    elif kind == "String":
        size = total = nbytes
    if charset in BOMS:
        off += w
        size -= w
    return total, off, size, real


def decode(content, charset):
    if not content:
        return "", charset
    if not charset:
        charset = want_charset(content, "ISO-8859-1")
    enc = WIDE[charset][2] if charset in WIDE else charset
    try:
        return content.decode(enc), charset
    except UnicodeDecodeError:
        pass
    if charset == "UTF-16-LE" and len(content) % 2:
        # a missing last byte is a nul
        try:
            content[:-1].decode(enc)
            return (content + b"\0").decode(enc), charset
        except UnicodeDecodeError:
            pass
    return content.decode("ISO-8859-1"), charset


def cut(text):
    n = config.max_string_length
    return text[:n] + "(...)" if len(text) > n else text


@suite.sub("strings", cases(), quick=16000, thorough=400000)
def strings(case, rec):
    kind, charset, endian, content, tail, strip, truncate, lead, order, inner = case
    if kind in PREFIX:
        n = len(content) % (1 << 8 * PREFIX[kind])
        content = content[:n]
        body = n.to_bytes(PREFIX[kind], "big" if endian == ">" else "little") + content
    elif kind == "String":
        content = content or b"x"
        body = content
    else:
        body = content
    data = body + tail
    prefix = b"\n\0ab"[:lead]
    if not data:
        return
    if charset in BOMS and kind not in TERM and len(content) < (2 if charset == "UTF-16" else 4):
        return          # too short for a BOM
    lay = want_layout(kind, charset, endian, data, len(content))

    class S(F.FieldSet):
        def createFields(self):
            if lead:
                yield F.RawBytes(self, "lead", lead)

    S.endian = ENDIAN[endian]

    class P(F.Parser):
        def createFields(self):
            yield S(self, "s", size=self.size)
    P.endian = ENDIAN["<" if endian == ">" else ">"]
    if inner:       # in a field set whose byte order isn't the one of the root
        p = P(StringInputStream(prefix + data))["s"]
    else:
        P.endian = S.endian
        P.createFields = S.createFields
        p = P(StringInputStream(prefix + data))
    len(p)
    kw = dict(charset=charset, strip=strip, truncate=truncate)
    args = (len(content),) if kind == "String" else ()
    what = "%s of %r (charset %s, parent %s)" % (kind, data[:40], charset, endian)
    rec.label("%s" % charset)
    rec.label(kind)
    try:
        f = F.createOrphanField(p, lead * 8, getattr(F, kind), "s", *args, **kw)
    except (F.FieldError, Exception) as e:
        if isinstance(e, F.FieldError) or type(e).__name__ == "ReadStreamError":
            ensure(lay is None, "%s refused: %s", what, e)
            rec.nt()
            return
        raise
    ensure(lay is not None, "%s accepted: %r", what, f)
    total, off, size, real = lay
    eq(f.size, total * 8, what + " size")
    eq((f.content_offset, f.content_size), (off, size), what + " content offset/size")
    if total > len(data):
        return          # larger than the stream: refused by the parent
    raw = data[:total]
    text, real = decode(data[off:off + size], real)
    whole = text
    if truncate and truncate in text:
        text = text[:text.index(truncate)]
        rec.nt()
    if strip:
        text = text.strip(None if strip is True else strip)
        rec.nt(text != whole)
    rec.nt(any(ord(c) > 127 for c in text) or b"\0" in data[off:off + size])
    for what1 in order:
        if what1 == "v":
            eq(f.value, text, what + " value")
        elif what1 == "d":
            if size == 0 and not real:
                want = "(empty)"
            else:
                t = cut(smart(escape(text, "ISO-8859-1")))
                want = '"%s"' % t.replace('"', '\\"') if t else "(empty)"
            eq(f.display, want, what + " display")
        elif what1 == "r":
            t = cut(smart(escape(raw.decode("latin1"), "ASCII")))
            eq(f.raw_display, smart('"%s"' % t.replace('"', '\\"')), what + " raw display")
        elif charset is not None and not strip and not truncate:
            eq(f.length, len(whole), what + " length")
    if size:
        if charset is None:
            eq(f.charset, real, what + " charset")
        elif charset in BOMS:
            eq(f.charset, real, what + " charset")
        else:
            eq(f.charset, charset, what + " charset")


@suite.sub("invalid", st.tuples(st.sampled_from(["utf8", "KOI8-R", "UTF-7", "latin1"]), st.sampled_from(["CString", "String"]),
                                st.sampled_from([0, 1, 65535, 65536, 70000, -1])), quick=100)
def invalid(case, rec):
    charset, kind, n = case

    class P(F.Parser):
        endian = BIG_ENDIAN

        def createFields(self):
            yield F.UInt8(self, "x")
    p = P(StringInputStream(b"abc\0" * 20000))
    args = (4,) if kind == "String" else ()
    rec.nt()
    try:
        getattr(F, kind)(p, "s", *args, charset=charset)
        fail("charset %r accepted", charset)
    except F.FieldError:
        pass
    try:
        f = F.String(p, "t", n)
        ensure(1 <= n <= 65535, "string of %d bytes accepted", n)
        eq(len(f.value), n, "length of a fixed string of %d bytes" % n)
    except F.FieldError:
        ensure(not 1 <= n <= 65535, "string of %d bytes refused", n)
