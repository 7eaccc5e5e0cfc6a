"""C34: serialized data is decoded to the values it was made from."""
import datetime
import plistlib
import struct

from hypothesis import strategies as st

from vh import repo  # noqa: F401
from vh import asn1, documents, facts, javaser, marsh, plist
from vh.core import Suite, ensure, eq
from hachoir.stream import StringInputStream

suite = Suite("C34", rule="a case is a value written in a format; non-trivial when it holds nested, shared or non-ASCII values")


def same(a, b):
    """Equal, and of the same types"""
    if isinstance(b, float):
        return isinstance(a, float) and struct.pack("d", a) == struct.pack("d", b)
    if type(a) is not type(b):
        return False
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(b, dict):
        return len(a) == len(b) and all(same(x, y) and same(a[x], b[y]) for x, y in zip(a, b))
    return a == b


def opened(name, data):
    p = facts.BY_ID[name](StringInputStream(data), validate=True)
    return p


# --- binary property lists
def plist_value(o):
    kind = o["marker_type"].display
    if kind == "Simple":
        return {"True": True, "False": False}[o["value"].display]
    if kind == "Date":
        text = o.display
        return datetime.datetime.strptime(text, "%Y-%m-%d %H:%M:%S")
    if kind == "UID":
        return plistlib.UID(o.value)
    if kind == "Array":
        return [plist_value(r.getRef()) for r in o.value]
    if kind == "Dict":
        return {plist_value(k.getRef()): plist_value(v.getRef()) for k, v in o.value}
    return o.value


def shown(v):
    """A date is displayed without fraction"""
    if isinstance(v, datetime.datetime):
        return v.replace(microsecond=0)
    if isinstance(v, list):
        return [shown(x) for x in v]
    return {k: shown(x) for k, x in v.items()} if isinstance(v, dict) else v


def has(v, what):
    if isinstance(v, list):
        return any(has(x, what) for x in v)
    if isinstance(v, dict):
        return any(has(x, what) for x in v.values()) or any(what(k) for k in v)
    return what(v)


@suite.sub("plist", st.tuples(plist.VALUES, plist.LAYOUT, st.booleans()), 2500, thorough=50000)
def binary_plist(case, rec):
    value, layout, library = case
    if library:
        data = plistlib.dumps(value, fmt=plistlib.FMT_BINARY, sort_keys=False)
    else:
        data, n = plist.encode(value, layout)
        ensure(same(plistlib.loads(data), value), "wrong writer")
    p = opened("bplist", data)
    top = p["/object[%u]" % p["trailer/topObject"].value]
    got = plist_value(top)
    ensure(same(got, shown(value)), "value: got %r, want %r", got, shown(value))
    rec.label("shared objects", len(p.array("object")) != data.count(b"") and layout["share"])
    rec.nt(isinstance(value, (list, dict)) and len(value) > 1 or isinstance(value, str))
    if not has(value, lambda x: isinstance(x, plistlib.UID)) and not has(value, lambda x: isinstance(x, float) and x in (float("inf"), -float("inf"))):
        xml = p.createXML()
        ensure(isinstance(xml, str), "createXML() gives %r", type(xml))
        got = plistlib.loads(xml.encode())
        want = plistlib.loads(plistlib.dumps(value, fmt=plistlib.FMT_XML, sort_keys=False))
        ensure(same(got, want), "createXML(): got %r, want %r", got, want)
        rec.label("xml")


# --- compiled Python files
def pyc_value(o):
    """The value of an object, from its fields"""
    kind = o["bytecode"].value
    if kind in ("r", "R"):
        return o.value
    if kind in "([<>)":
        items = [pyc_value(x) for x in o.array("item")]
        return {"(": tuple, ")": tuple, "[": list, "<": set, ">": frozenset}[kind](items)
    if kind == "{":
        return {pyc_value(k): pyc_value(v) for k, v in zip(o.array("key"), o.array("value"))}
    if kind == "c":
        return o
    return o.value


def pyc_same(got, want, version, where):
    if isinstance(want, marsh.Code):
        return pyc_code(got, want, version, where)
    if isinstance(want, tuple) and want and want[0] == "slice":
        want = slice(*want[1:])
    if isinstance(want, (float, complex)):
        ensure(type(got) is type(want) and repr(got) == repr(want), "%s: got %r, want %r", where, got, want)
        return
    if isinstance(want, (list, tuple)):
        ensure(type(got) is type(want) and len(got) == len(want), "%s: got %r, want %r", where, got, want)
        for i, (a, b) in enumerate(zip(got, want)):
            pyc_same(a, b, version, "%s[%u]" % (where, i))
        return
    if isinstance(want, dict):
        ensure(type(got) is dict and len(got) == len(want), "%s: got %r, want %r", where, got, want)
        for (k, v), (k2, v2) in zip(got.items(), want.items()):
            pyc_same(k, k2, version, where + " key")
            pyc_same(v, v2, version, where + " value")
        return
    if isinstance(want, (set, frozenset)):
        ensure(type(got) is type(want) and got == want, "%s: got %r, want %r", where, got, want)
        return
    ensure(type(got) is type(want) and got == want, "%s: got %r, want %r", where, got, want)


def pyc_names(o, names, version, where):
    got = pyc_value(o)
    if version < (3, 0):
        names = [n.encode() for n in names]
    eq(list(got), list(names), where)


def pyc_code(o, c, version, where):
    nums = [("arg_count", c["args"]), ("stack_size", c["stack"]), ("flags", c["flags"]), ("firstlineno", c["line"])]
    if version >= (3, 8):
        nums.append(("posonlyargcount", c["posonly"]))
    if version >= (3, 0):
        nums.append(("kwonlyargcount", c["kwonly"]))
    if version < (3, 11):
        nums.append(("nb_locals", c["locals"]))
    for name, v in nums:
        eq(o[name].value, v, "%s: %s" % (where, name))
    eq(pyc_value(o["compiled_code"]), c["code"], where + ": code")
    pyc_same(pyc_value(o["consts"]), tuple(c["consts"]), version, where + ": consts")
    pyc_names(o["names"], c["names"], version, where + ": names")
    if version >= (3, 11):
        pyc_names(o["co_localsplusnames"], c["varnames"] + c["free"] + c["cell"], version, where + ": local names")
    else:
        pyc_names(o["varnames"], c["varnames"], version, where + ": varnames")
        if version >= (2, 1):
            pyc_names(o["freevars"], c["free"], version, where + ": freevars")
            pyc_names(o["cellvars"], c["cell"], version, where + ": cellvars")
    for name, v in (("filename", c["file"]), ("name", c["name"])) + ((("qualname", c["qual"]),) if version >= (3, 11) else ()):
        eq(pyc_value(o[name]), v if version >= (3, 0) else v.encode(), "%s: %s" % (where, name))
    lines = bytes(c["lines"][:len(c["lines"]) // 2 * 2])
    if version >= (3, 10):
        eq(pyc_value(o["linetable"]), lines, where + ": linetable")
    else:
        t = o["lnotab"]
        if lines:
            eq([f.value for f in t if "delta" in f.name], list(lines), where + ": lnotab")
            at, line = 0, c["line"]
            for i in range(0, len(lines), 2):
                at, line = at + lines[i], line + lines[i + 1]
                eq((t["bytecode_offset_delta[%u]" % (i // 2)].description, t["line_number_delta[%u]" % (i // 2)].description),
                   ("Bytecode Offset %i" % at, "Line Number %i" % line), where + ": lnotab")
    if version >= (3, 11):
        eq(pyc_value(o["exceptiontable"]), c["exc"], where + ": exception table")


@suite.sub("pyc", marsh.CASES, 3000, thorough=50000)
def compiled_python(case, rec):
    data, code, told = marsh.build(case)
    magic, version = case["release"]
    p = opened("python", data)
    if version >= (3, 7) and case["hash"]:
        eq((p["use_hash"].value, p["checked"].value, p["hash"].value), (True, case["hash"][1], case["hash"][0]), "hash")
    else:
        eq(p["timestamp"].value, datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=case["time"]), "timestamp")
        if version >= (3, 3):
            eq(p["filesize"].value, case["size"], "size of the source")
    pyc_code(p["content"], code, version, "code")
    eq(p["content"].address + p["content"].size, len(data) * 8, "end of the content")
    rec.label("%u.%u" % version)
    rec.label("references", told > 0)
    rec.nt(told > 0 or any(isinstance(x, (marsh.Code, tuple, list, dict)) for x in code["consts"]))


# --- ASN.1
CLASSES = ["universal", "application", "context", "private"]


def asn1_node(o, n, where):
    c, form, tag = asn1.tag(n)
    eq((o["class"].display, o["form"].display, o["type"].value), (CLASSES[c], "constructed" if form else "primitive", tag), where + ": tag")
    body = asn1.content(n, [0])
    k = n[0]
    if k in ("seq", "set", "tagged"):
        items = [f for f in o][4:]
        eq(len(items), len(n[-1]), where + ": number of items")
        for i, (f, x) in enumerate(zip(items, n[-1])):
            asn1_node(f, x, "%s/%u" % (where, i))
        return
    eq(o["size"].value, len(body), where + ": size")
    if not body:
        eq(len(o), 4, where + ": fields of an empty object")
    elif k == "boolean":
        eq((bool(o["value"].value), o["value"].display), (n[1], str(n[1])), where)
    elif k in ("integer", "enum", "utf8", "bmp", "octets") or k in asn1.TEXTS:
        eq(o["value"].value, n[1], where)
        if k in ("printable", "ia5"):
            ensure(o.description.endswith(": " + o["value"].display), "%s: description %r", where, o.description)
    elif k == "bits":
        eq((o["padding_size"].value, o["value"].value if "value" in o else b""), (n[2] if n[1] else 0, n[1]), where)
    elif k == "oid":
        a, b, more = n[1]
        eq(o.description, "Object identifier: " + ".".join(map(str, [a, b] + list(more))), where)
        eq([f.value for f in o.array("item")], list(more), where)
    elif k in ("utc", "time"):
        eq(o["value"].value, asn1.when(n), where)
        if k == "utc":
            eq(o.description, "UTC time: " + n[1].replace(microsecond=0).isoformat(" "), where)
    elif k == "raw":
        eq(o["value"].value, body.decode("latin1"), where)


@suite.sub("asn1", asn1.CASES, 4000, thorough=80000)
def asn1_object(case, rec):
    node, lens = case
    data = asn1.encode(node, list(lens))
    if len(data) < 2:
        return
    p = opened("asn1", data)
    eq(len(p), 1, "number of root objects")
    asn1_node(p[0], node, "root")
    rec.label(node[0])
    rec.nt(node[0] in ("seq", "set", "tagged") and len(node[-1]) > 1 or node[0] == "oid")


# --- Java serialization
TYPECODES = {"null": "NULL", "ref": "REFERENCE", "class": "CLASSDESC", "obj": "OBJECT", "str": "STRING", "arr": "ARRAY", "cls": "CLASS", "reset": "RESET", "exc": "EXCEPTION",
             "lstr": "LONGSTRING", "proxy": "PROXYCLASSDESC", "enum": "ENUM"}


def text_shown(text, field):
    if not text:
        return "(empty)"
    if text.isascii() and len(text) < 40:
        return '"%s"' % text
    return field["value"].display


class Java:
    """Compares a stream with its nodes"""

    def __init__(self):
        self.done = {}          # id of a node -> its field

    def content(self, f, n, where):
        kind = n[0]
        if kind == "block":
            ensure(f["typecode"].display in ("BLOCKDATA", "BLOCKDATALONG"), "%s: type %s", where, f["typecode"].display)
            eq(f["data"].value if "data" in f else b"", n[1], where)
            return
        eq(f["typecode"].display, TYPECODES[kind], where + ": type")
        self.done[id(n)] = f
        if kind == "ref":
            eq((f.value, f["handle"].value), (n[1], n[1]), where)
            if id(n[2]) in self.done:
                ensure(f.referent is self.done[id(n[2])], "%s: refers to %s", where, f.referent.path)
            elif n[2][0] == "str":
                eq(f.referent.value, n[2][1], where + ": text referred to")
        elif kind in ("str", "lstr"):
            eq(f.value, n[1], where)
        elif kind == "null":
            ensure(f.value is None and f.display == "null", "%s: null is %r", where, f.value)
        elif kind == "class":
            _, name, uid, flags, fields, notes, parent = n
            eq((f.value, f["className"].value, f["serialVersionUID"].value), (name, name, uid), where)
            eq([f["classDescFlags_" + x].value for x in ("enum", "block_data", "externalizable", "serializable", "write_method")],
               [bool(flags & b) for b in (16, 8, 4, 2, 1)], where + ": flags")
            descs = f.array("fieldDesc")
            eq([d.fieldName for d in descs], [x[1] for x in fields], where + ": fields")
            for d, (t, fname, cls) in zip(descs, fields):
                if cls:
                    self.content(d["className"], cls, where + "/" + fname)
                    text = (cls[2] if cls[0] == "ref" else cls)[1]
                else:
                    text = t
                eq(d["typecode"].value, t, where + "/" + fname)
                if text is not None:
                    eq(d.value, (text, fname), where + ": type of " + fname)
                    eq(d.display, "%s %s" % (JAVA_TYPES[text] if len(text) < 3 else text[1:-1].replace("/", "."), fname), where + ": display of the type of " + fname)
            self.contents(f["classAnnotation"], "contents", notes, where + ": annotation")
            self.content(f["superClassDesc"], parent, where + ": parent class")
        elif kind == "proxy":
            eq([x.value for x in f.array("proxyInterfaceName")], n[1], where)
            self.contents(f["classAnnotation"], "contents", n[2], where + ": annotation")
            self.content(f["superClassDesc"], n[3], where + ": parent class")
        elif kind == "obj":
            self.content(f["classDesc"], n[2], where + ": class")
            eq(f.classDesc.className, n[1], where + ": class name")
            fields = [x for x in n[3] if x[0] == "field"]
            got = f["value"].array("field") if n[3] else ()
            eq(len(got), len(fields), where + ": number of fields")
            for g, (_, t, fname, v) in zip(got, fields):
                eq(g.fieldName, fname, where)
                self.value(g, t, v, "%s.%s" % (where, fname))
            more = [g for g in f["value"] if g.name.startswith(("extra[", "external["))] if n[3] else []
            blocks = [x[1] for x in n[3] if x[0] == "contents"]
            eq(len(more), len(blocks), where + ": other contents")
            for g, items in zip(more, blocks):
                self.contents(g, "extra", items, where + ": contents")
            eq(len(f.value), len(fields), where + ": value")
            for g, v in zip(got, f.value):
                eq(v, g.value, where + ": value")
            eq(f.display, "%s(%s)" % (n[1], ", ".join("%s=%s" % (x[2], self.shown(g, x[1], x[3])) for g, x in zip(got, fields))), where + ": display")
        elif kind == "arr":
            self.content(f["classDesc"], n[2], where + ": class")
            got = f.array("value")
            eq((f["size"].value, len(got)), (len(n[3]), len(n[3])), where + ": size")
            for i, (g, v) in enumerate(zip(got, n[3])):
                self.value(g, n[1], v, "%s[%u]" % (where, i))
            eq(f.value, [g.value for g in got], where + ": value")
            eq(f.display, "[%s]" % ", ".join(self.shown(g, n[1], x) for g, x in zip(got, n[3])), where + ": display")
        elif kind == "enum":
            self.content(f["classDesc"], n[1], where + ": class")
            self.content(f["enumConstantName"], n[2], where + ": constant")
            if n[2][0] == "str":
                eq(f.display, "%s.%s" % (f.classDesc.className, n[2][1]), where)
        elif kind == "cls":
            self.content(f["classDesc"], n[1], where + ": class")
        elif kind == "exc":
            self.content(f["object"], n[1], where + ": object")

    def shown(self, g, t, v):
        """Display of a field"""
        if t in javaser.PRIMS or v[0] != "ref":
            return text_shown(v[1], g) if t not in javaser.PRIMS and v[0] in ("str", "lstr") else str(g.display)
        v = v[2]
        if v[0] in ("str", "lstr"):
            return "-> " + text_shown(v[1], g.referent)
        if v[0] in ("obj", "arr", "enum", "cls"):
            desc = v[1] if v[0] in ("enum", "cls") else v[2]
            desc = desc[2] if desc[0] == "ref" else desc
            return "#<REF:%s>" % (desc[1] if desc[0] == "class" else v[1])
        return str(g.display)

    def value(self, g, t, v, where):
        if t in javaser.PRIMS:
            eq((g.value, type(g.value)), (v, type(v)), where)
        else:
            self.content(g, v, where)

    def contents(self, f, name, items, where):
        got = f.array(name)
        eq(len(got), len(items) + 1, where + ": number of contents")
        for g, x in zip(got, items):
            self.content(g, x, where)
        eq(got[len(items)]["typecode"].display, "ENDBLOCKDATA", where + ": end")


JAVA_TYPES = dict(B="byte", C="char", D="double", F="float", I="int", J="long", S="short", Z="boolean")
JAVA_TYPES["[I"] = "int[]"


@suite.sub("java", javaser.CASES, 2500, thorough=50000)
def java_serialized(case, rec):
    numbers, count = case
    b = javaser.Build(numbers)
    nodes = []
    for i in range(count):
        nodes.append(b.top())
        if len(b.out) > 4000:
            break
    if len(b.out) < 16:
        b.put(0x77, 12, bytes(12))
        nodes.append(("block", bytes(12)))
    p = opened("java_serialized", bytes(b.out))
    got = p.array("object")
    eq(len(got), len(nodes), "number of objects")
    j = Java()
    for i, (g, n) in enumerate(zip(got, nodes)):
        j.content(g, n, "object[%u]" % i)
    eq(p["object[%u]" % (len(nodes) - 1)].address + got[len(nodes) - 1].size, len(b.out) * 8, "end")
    for x in b.labels:
        rec.label(x)
    rec.nt("reference" in b.labels or any(n[0] == "obj" and n[3] for n in nodes))


# --- bencoded dictionaries (torrents)
def ben_value(e):
    """Value of a bencoded element"""
    kind = type(e).__name__
    if kind == "Integer":
        return e.value
    if kind == "List":
        return [ben_value(x) for x in e.array("item")]
    if kind == "Dictionary":
        return {ben_value(i["key"]): ben_value(i["value"]) for i in e if i.is_field_set}
    if "value" not in e:
        return ""
    return e["value"].value


def ben_wanted(x):
    if isinstance(x, bytes):
        try:
            return x.decode("utf-8")
        except UnicodeDecodeError:
            return x.decode("latin1") if len(x) < 512 else x
    if isinstance(x, list):
        return [ben_wanted(v) for v in x]
    return {k: ben_wanted(v) for k, v in x.items()} if isinstance(x, dict) else x


BEN_CHARS = st.characters(blacklist_categories=["Cs"], blacklist_characters="/\0")
BEN_TEXT = st.text(BEN_CHARS, max_size=12) | st.text("abc .-_[]:0123456789 e", max_size=14)
BEN_KEY = st.one_of(BEN_TEXT.filter(lambda s: not s.endswith("]") and s.strip(".")), st.sampled_from(["name.utf-8", "a b c", "piece layers", "created by", "x.y.z", "0", "url-list", "length", "piece length"]))
BEN_LEAF = st.one_of(st.integers(-10**19, 10**20), st.sampled_from([0, 10**21 - 1, 1 - 10**20]), BEN_TEXT, st.binary(max_size=30),
                     st.tuples(st.sampled_from([9, 10, 99, 100, 511, 512, 513, 999, 1000, 9999]), st.sampled_from([b"a", b"\xff", b"e:", "\u00e9".encode()])).map(lambda t: (t[1] * t[0])[:t[0]]),
                     st.just(b""))
BEN = st.recursive(BEN_LEAF, lambda t: st.lists(t, max_size=4) | st.dictionaries(BEN_KEY, t, max_size=4), max_leaves=12)


def ben_names(x, f, where):
    """Each item of a dictionary has the name of its key"""
    if isinstance(x, dict):
        items = [i for i in f if i.is_field_set]
        eq(len(items), len(x), where + ": number of items")
        for i, (k, v) in zip(items, x.items()):
            if k:
                eq(i.name, k.replace(" ", "_"), where + ": name of an item")
                ensure(f[k.replace(" ", "_")] is i, "%s: item %r by its name", where, k)
            ben_names(v, i["value"], "%s/%s" % (where, k))
    elif isinstance(x, list):
        for n, v in enumerate(x):
            ben_names(v, f["item[%u]" % n], "%s[%u]" % (where, n))


def ben_unique(x):
    """The names of the fields are different"""
    if isinstance(x, dict):
        names = [k.replace(" ", "_") for k in x] + ["start", "end"]
        return len(set(names)) == len(names) and sum(not k for k in x) < 2 and all(map(ben_unique, x.values()))
    return all(map(ben_unique, x)) if isinstance(x, list) else True


@suite.sub("bencode", st.tuples(st.dictionaries(BEN_KEY, BEN, max_size=6), st.integers(0, 2**31 - 1) | st.none()), 2500, thorough=60000)
def bencode(case, rec):
    tree, when = case
    tree = {k: v for k, v in tree.items() if k != "announce"}
    if not ben_unique(dict(tree, announce=0, creation_date=0)):
        return
    root = {"announce": "http://x/announce?padding=0123456789012345"}
    root.update(tree)
    if when:
        root["creation date"] = when
    p = opened("torrent", documents.ben(root))
    got = ben_value(p["root"])
    if when:
        eq(p["root/creation_date"].value, datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=when), "date")
    ensure(same(got, ben_wanted(root)), "values: got %r, want %r", got, ben_wanted(root))
    ben_names(root, p["root"], "root")
    for i in p["root"]:
        if i.is_field_set and not isinstance(root.get(i["key"].value), (list, dict, bytes)) and i.name != "creation_date" and i["key"].hasValue():
            eq(i.value, ben_wanted(root[i["key"].value]) or i["value"].value, "value of %s" % i.name)
    eq(p["root"].size, len(documents.ben(root)) * 8, "size")
    rec.label("nested" if any(isinstance(v, (list, dict)) for v in tree.values()) else "flat")
    rec.nt(any(isinstance(v, (list, dict)) and v for v in tree.values()))
