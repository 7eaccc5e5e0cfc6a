"""C19: an editor saves the file with exactly the edits made."""
import datetime
import struct

from hypothesis import strategies as st

from vh import corpus, edit, synth
from vh.core import Suite, ensure, eq, fail, raises
import hachoir.field as F
from hachoir.editor import EditorError, createEditor
from hachoir.field import MissingField, Parser
from hachoir.stream import StringInputStream, StringOutputStream

suite = Suite("C19", rule="a case is a file, its format and a sequence of edits (values set, fields deleted, at any depth); non-trivial when an edit is "
              "accepted below the root or changes the size of a field")


def save(editor):
    out = StringOutputStream()
    editor.writeInto(out)
    return out._output.getvalue()


def real_classes(fs, path=""):
    res = {}
    for f in fs:
        p = path + "/" + f.name
        res[p] = f.__class__.__name__
        if f.is_field_set:
            res.update(real_classes(f, p))
    return res


def ok_endians(nodes, mixed=False):
    for n in nodes:
        if n.kind == "eset" and (n.addr % 8 or n.size % 8):
            return False
        if n.children is not None and not ok_endians(n.children):
            return False
    return True


def compare(editor, model, what):
    """Names, sizes, addresses and values of the editor."""
    def go(e, m, addr, path):
        eq([f.name for f in e], [c.name for c in m.children], "%s: names in %s" % (what, path or "/"))
        eq(len(e), len(m.children), "%s: length of %s" % (what, path or "/"))
        pos = 0
        for f, c in zip(e, m.children):
            p = path + "/" + c.name
            eq(f.size, c.size(), "%s: size of %s" % (what, p))
            eq(f.address, pos, "%s: address of %s" % (what, p))
            eq(f.hasValue(), c.children is None, "%s: hasValue() of %s" % (what, p))
            eq(f.is_altered, c.is_altered(), "%s: is %s altered" % (what, p))
            if c.children is not None:
                eq(f.absolute_address, addr + pos, "%s: absolute address of %s" % (what, p))
                go(f, c, addr + pos, p)
            elif c.value is not NotImplemented and not (c.kind == "string" and c.altered):
                eq(f.value, c.value, "%s: value of %s" % (what, p))
            pos += c.size()
        if m.is_altered():
            eq(e.size, pos, "%s: size of %s" % (what, path or "/"))
    go(editor, model, 0, "")


def check_saved(editor, model, data, what):
    try:
        want = edit.saved(model, data)
    except edit.Mixed:
        return None
    except edit.Misaligned:
        try:
            save(editor)
        except NotImplementedError:
            return None
        except Exception as e:
            fail("%s: saving raised %r", what, e)
        return None
    eq(save(editor), want, "%s: file saved" % what)
    return want


def start(endian, fmt, seed):
    """(parser, data, model) or None"""
    try:
        data, nodes, end = synth.build_model(endian, fmt, seed, 0)
    except synth.End:
        return None
    if not nodes or len(data) > 1500 or not ok_endians(nodes) or not synth.exact(fmt):
        return None
    p = synth.parser_class(endian, fmt)(StringInputStream(data))
    classes = real_classes(p)
    # the bits left of the last byte
    children = edit.convert(nodes, endian, classes)
    if end % 8:
        last = [f for f in p][-1]
        children.append(edit.ENode(last.name, "bits", endian, last.size, last.value, last.absolute_address))
    model = edit.ENode("root", "set", endian, len(data) * 8, None, 0, children)
    return p, data, model


def apply_value(editor, path, node, a, raw, rec, what):
    """Set a value; a: an integer choice, raw: bytes."""
    f = editor[path]
    n = node.size0
    if node.kind in ("uint", "int", "bits"):
        lo, hi = (0, (1 << n) - 1) if node.kind != "int" else (-(1 << n - 1), (1 << n - 1) - 1)
        v = [lo, hi, lo - 1, hi + 1, lo + int.from_bytes(raw, "big") % (hi - lo + 1), (lo + hi) // 2][a % 6]
        if lo <= v <= hi:
            f.value = v
            node.value, node.altered = v, True
            rec.nt("/" in path)
        else:
            def do():
                f.value = v
            raises(ValueError, do, "%s: value %d of %s" % (what, v, path))
            rec.label("refused value")
    elif node.kind == "bytes":
        if not raw:
            def do():
                f.value = raw
            raises(ValueError, do, "%s: empty value of %s" % (what, path))
            return
        f.value = raw
        node.value, node.altered = raw, True
        rec.nt(8 * len(raw) != n)
    elif node.kind == "string":
        v = raw * 30 if a % 7 == 0 else raw
        if node.codec == "Pascal8" and len(v) > 255:
            def do():
                f.value = v
            raises(ValueError, do, "%s: %d characters in %s" % (what, len(v), path))
            return
        f.value = v if a % 2 else v.decode("latin-1")
        node.value, node.altered = v, True
        rec.nt(node.size() != n)
    else:
        return
    rec.label("set " + node.kind)


def delete(editor, path, node, parent, rec, what):
    held = editor[path]
    del editor[path]
    parent.children.remove(node)
    parent.altered = True
    if node.original:
        parent.deleted.append(node.name)
    ensure(path not in editor, "%s: %s is still there", what, path)
    raises(MissingField, lambda: editor[path], "%s: field deleted" % what)

    def again():
        del editor[path]
    raises(MissingField, again, "%s: deleted twice" % what)
    del held
    rec.label("deleted a set" if node.children is not None else "deleted a field")


OPS = st.lists(st.one_of(
    st.tuples(st.sampled_from(["set", "set", "set", "set", "del"]), st.integers(0, 10**6), st.integers(0, 41), st.binary(max_size=10)),
    st.tuples(st.just("read"), st.integers(0, 10**6))), min_size=1, max_size=8)
LEAF = st.one_of(
    st.tuples(st.just("bits"), st.sampled_from([1, 3, 8, 12, 16])), st.tuples(st.just("bit")),
    st.tuples(st.just("int"), st.sampled_from(synth.INTS)), st.tuples(st.just("int"), st.sampled_from(synth.INTS[:4])),
    st.tuples(st.just("bytes"), st.integers(1, 9)), st.tuples(st.just("str"), st.integers(1, 9)),
    st.tuples(st.just("cstr")), st.tuples(st.just("pas8")), st.tuples(st.just("pas16")),
    st.tuples(st.just("vec"), st.sampled_from(["UInt8", "Int16", "UInt24"]), st.integers(1, 4)),
    st.tuples(st.just("fill"), st.sampled_from([1, 3, 8, 16]), st.integers(1, 12)),
    st.tuples(st.just("bytes"), st.sampled_from([40, 300])),
    st.tuples(st.just("seek"), st.integers(1, 90), st.booleans()))


@suite.sub("edits", st.tuples(st.sampled_from("<>"), st.one_of(synth.formats(leaf=LEAF), synth.formats(depth=3, leaf=LEAF, minlen=2)), synth.SEEDS, OPS),
           quick=7000, thorough=200000)
def edits(case, rec):
    endian, fmt, seed, ops = case
    s = start(endian, fmt, seed)
    if s is None:
        return
    p, data, model = s
    before = synth.tree(p)
    editor = createEditor(p)
    eq(save(editor), data, "file saved without edit")
    compare(editor, model, "unaltered")
    for n, op in enumerate(ops):
        what = "edit %d" % n
        nodes = list(edit.walk(model))
        if not nodes:
            break
        path, node, parent = nodes[op[1] % len(nodes)]
        if op[0] == "read":
            compare(editor, model, what)
            check_saved(editor, model, data, what)
            if op[1] % 4 == 0:
                editor.reset()
                compare(editor, model, what + ", after a reset")
            continue
        if op[0] == "set" and node.children is None:
            apply_value(editor, path, node, op[2], op[3], rec, what)
        elif op[0] == "del":
            delete(editor, path, node, parent, rec, what)
            rec.nt("/" in path)
    compare(editor, model, "at the end")
    out = check_saved(editor, model, data, "at the end")
    eq(synth.tree(p), before, "the file edited")
    if out == data and not any(op[0] == "del" for op in ops):
        rec.label("same content")


# ---- other types of fields

class Typed(Parser):
    endian = None

    def createFields(self):
        for i, (k, arg) in enumerate(self.layout):
            name = "f%d" % i
            if k == "char":
                yield F.Character(self, name)
            elif k == "mac":
                yield F.TimestampMac32(self, name)
            elif k == "float":
                yield (F.Float32 if arg % 2 else F.Float64)(self, name)
            elif k == "enum":
                yield F.Enum(F.UInt16(self, name), {1: "one"})
            elif k == "int":
                yield F.GenericInteger(self, name, bool(arg % 2), 8 * (1 + arg % 20))
            elif k == "cstr16":
                yield F.CString(self, name, charset="UTF-16-BE" if arg % 2 else "UTF-16-LE")
            elif k == "line":
                yield F.UnixLine(self, name, charset="ASCII")
            elif k == "pas32":
                yield F.PascalString32(self, name, charset="UTF-8")
            elif k == "str8":
                yield F.String(self, name, arg % 9 + 1, charset="UTF-8")


KINDS = ["char", "mac", "float", "enum", "int", "cstr16", "line", "pas32", "str8"]
EPOCH = datetime.datetime(1904, 1, 1)


def build_typed(endian, layout, rnd):
    order = "big" if endian == ">" else "little"
    parts = []
    for k, arg in layout:
        if k == "char":
            parts.append(bytes([rnd.randrange(256)]))
        elif k == "mac":
            parts.append(rnd.getrandbits(32).to_bytes(4, "big"))
        elif k == "float":
            parts.append(struct.pack(endian + ("f" if arg % 2 else "d"), rnd.randint(-1000, 1000) / 8))
        elif k == "enum":
            parts.append(rnd.getrandbits(16).to_bytes(2, order))
        elif k == "int":
            parts.append(rnd.getrandbits(8 * (1 + arg % 20)).to_bytes(1 + arg % 20, order))
        elif k == "cstr16":
            parts.append("h\xe9llo\0".encode("UTF-16-BE" if arg % 2 else "UTF-16-LE"))
        elif k == "line":
            parts.append(b"some text\n")
        elif k == "pas32":
            b = "\u4e2dx".encode()
            parts.append(len(b).to_bytes(4, order) + b)
        elif k == "str8":
            parts.append(b"x" * (arg % 9 + 1))
    return parts


@suite.sub("types", st.tuples(st.sampled_from("<>"), st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 99)), min_size=1, max_size=6),
                              st.randoms(use_true_random=False), st.lists(st.tuples(st.integers(0, 99), st.integers(0, 2**64), st.text(max_size=6)), max_size=5)),
           quick=4000, thorough=80000)
def types(case, rec):
    endian, layout, rnd, ops = case
    parts = build_typed(endian, layout, rnd)
    data = b"".join(parts)
    order = "big" if endian == ">" else "little"
    cls = type("TypedFile", (Typed,), {"endian": synth.ENDIAN[endian], "layout": layout})
    p = cls(StringInputStream(data))
    editor = createEditor(p)
    eq(save(editor), data, "file saved without edit")
    values = {}
    for pick, v, text in ops:
        i = pick % len(layout)
        k, arg = layout[i]
        f = editor["f%d" % i]

        def put(x):
            f.value = x
        if k == "char":
            c = chr(v % 300)
            if v % 300 > 255:
                raises((ValueError, TypeError), lambda: put(c), "character %r" % c)
                continue
            put(c)
            parts[i] = bytes([v % 300])
            values[i] = c
        elif k == "mac":
            d = EPOCH + datetime.timedelta(seconds=v % (2**32 + 2**30) - 2**29)
            n = int((d - EPOCH).total_seconds())
            if not 0 <= n < 2**32:
                raises(ValueError, lambda: put(d), "date %s" % d)
                continue
            put(d)
            parts[i] = n.to_bytes(4, order)
            values[i] = d
        elif k == "float":
            x = (v % 2**20 - 2**19) / 64
            if v % 5 == 0:
                # a part of the float
                editor["f%d/negative" % i].value = bool(v % 2)
                if i in values:
                    continue
                b = bytearray(parts[i])
                at = 0 if endian == ">" else -1
                b[at] = b[at] & 127 | (128 if v % 2 else 0)
                parts[i] = bytes(b)
                rec.label("part of a float")
                rec.nt()
                continue
            put(x)
            parts[i] = struct.pack(endian + ("f" if arg % 2 else "d"), x)
            values[i] = x
        elif k in ("enum", "int"):
            n = 2 if k == "enum" else 1 + arg % 20
            signed = k == "int" and arg % 2
            lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if signed else (0, (1 << 8 * n) - 1)
            x = [lo, hi, lo - 1, hi + 1][v % 4] if v % 3 == 0 else lo + v * 0x9e3779b97f4a7c15f39cc0605cedc834 % (hi - lo + 1)
            if not lo <= x <= hi:
                raises(ValueError, lambda: put(x), "integer %d" % x)
                continue
            put(x)
            parts[i] = x.to_bytes(n, order, signed=bool(signed))
            values[i] = x
        else:
            charset = {"cstr16": "UTF-16-BE" if arg % 2 else "UTF-16-LE", "line": "ASCII", "pas32": "UTF-8", "str8": "UTF-8"}[k]
            if k == "line":
                text = text.encode("ascii", "replace").decode()
            try:
                b = text.encode(charset)
            except UnicodeEncodeError:
                continue
            put(text if v % 2 else b)
            parts[i] = {"cstr16": lambda: b + b"\0\0", "line": lambda: b + b"\n", "pas32": lambda: len(b).to_bytes(4, order) + b,
                        "str8": lambda: b}[k]()
            rec.nt(len(b) > 0)
        rec.label("set " + k)
    eq(save(editor), b"".join(parts), "file saved")
    for i, v in values.items():
        eq(editor["f%d" % i].value, v, "value of field %d" % i)
    pos = 0
    for f, part in zip(editor, parts):
        eq((f.address, f.size), (pos, 8 * len(part)), "place of %s" % f.name)
        pos += 8 * len(part)
    rec.nt(len(values) > 1)


# ---- real formats

def tiled(fs):
    pos = 0
    for f in fs:
        if f.address != pos:
            return False
        pos += f.size
    return pos == fs.size


@suite.sub("formats", st.tuples(st.sampled_from(corpus.names(200000)), st.lists(st.tuples(st.integers(0, 10**9), st.integers(0, 10**9), st.integers(0, 3)), min_size=1, max_size=4)),
           quick=500, thorough=10000)
def formats(case, rec):
    name, ops = case
    data = corpus.data(name)
    p = corpus.open_file(name)
    if p is None:
        return
    size = p.size
    if size is None or size % 8 or size > 8 * len(data):
        return
    editor = createEditor(p)
    eq(save(editor), data[:size // 8], "%s saved without edit" % name)
    out = bytearray(data[:size // 8])
    shift = []
    for pick, v, how in ops:
        # a random path down the tree
        fs, path = p, ""
        while True:
            if not tiled(fs) or len(fs) == 0:
                fs = None
                break
            f = fs[pick % len(fs)]
            pick //= 7
            path = path + "/" + f.name if path else f.name
            if not f.is_field_set or f.__class__.__name__.startswith("Float"):
                break
            fs = f
        if fs is None or f._parent.endian not in (synth.ENDIAN["<"], synth.ENDIAN[">"]) or f.size == 0:
            rec.label("not applicable")
            continue
        if "//" in path or any((path + "/").startswith(s[2] + "/") or (s[2] + "/").startswith(path + "/") for s in shift):
            continue
        if F.isInteger(f) and f.size % 8 == 0 and f.absolute_address % 8 == 0:
            n = f.size // 8
            x = v % (1 << f.size)
            if f.signed and x >> (f.size - 1):
                x -= 1 << f.size
            editor[path].value = x
            new = x.to_bytes(n, "big" if f._parent.endian == synth.ENDIAN[">"] else "little", signed=bool(f.signed))
            shift.append((f.absolute_address // 8, n, path, new))
            rec.label("integer")
        elif f.__class__ in (F.RawBytes, F.Bytes, F.PaddingBytes):
            new = v.to_bytes(4, "little")[:1 + how]
            editor[path].value = new
            shift.append((f.absolute_address // 8, f.size // 8, path, new))
            rec.label("bytes")
        elif f.size % 8 == 0 and f.absolute_address % 8 == 0 and how == 0:
            del editor[path]
            shift.append((f.absolute_address // 8, f.size // 8, path, b""))
            rec.label("deleted")
        else:
            rec.label("other field")
    for addr, n, path, new in sorted(shift, reverse=True):
        out[addr:addr + n] = new
    if shift:
        eq(save(editor), bytes(out), "%s saved after edits of %s" % (name, [s[2] for s in shift]))
    rec.nt(any("/" in s[2] for s in shift))
