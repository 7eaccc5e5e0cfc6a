"""Reference model of the editor: a tree of nodes which knows the bits of each field."""
from vh import synth


class Misaligned(Exception):
    """A field made of whole bytes doesn't start on a byte any more."""


class Mixed(Exception):
    """Two endians inside a byte: no meaning."""


class ENode:
    def __init__(self, name, kind, endian, size=0, value=None, addr=None, children=None, codec=None):
        self.name, self.kind, self.endian = name, kind, endian
        self.size0, self.value, self.addr = size, value, addr
        self.children = children
        self.codec = codec          # string format
        self.raw = None             # bits of an altered field, when they are not its value
        self.slots = list(children) if children is not None else None   # deleted fields included
        self.obj = None             # inserted field
        self.altered = False
        self.deleted = []           # names of removed fields
        self.original = addr is not None

    def is_altered(self):
        return self.altered or any(c.is_altered() for c in self.children or ())

    def size(self):
        if self.children is not None:
            if not self.is_altered():
                return self.size0
            return sum(c.size() for c in self.children)
        if not self.altered:
            return self.size0
        if self.kind in ("bytes", "string"):
            return 8 * len(self.encoded())
        return self.size0

    def encoded(self):
        if self.kind == "string":
            prefix, suffix = {"C": (0, b"\0"), "fixed": (0, b""), "Pascal8": (1, b""), "Pascal16": (2, b""), "Pascal32": (4, b""),
                              "UnixLine": (0, b"\n")}[self.codec]
            head = len(self.value).to_bytes(prefix, "big" if self.endian == ">" else "little") if prefix else b""
            return head + self.value + suffix
        return self.value

    def child(self, name):
        for c in self.children:
            if c.name == name:
                return c


def convert(nodes, endian, classes, path=""):
    """ENodes of a synth layout; classes: path -> name of the class of the real field."""
    out = []
    for n in nodes:
        p = path + "/" + n.name
        if n.children is not None:
            e = endian
            if n.kind == "eset":
                e = "<" if endian == ">" else ">"
            out.append(ENode(n.name, "set", e, n.size, None, n.addr, convert(n.children, e, classes, p)))
            continue
        cls = classes[p]
        codec = None
        if cls in ("Bits", "Bit", "RawBits", "PaddingBits"):
            kind = "bits"
        elif cls in ("RawBytes", "Bytes", "PaddingBytes"):
            kind = "bytes"
        elif n.kind == "int":
            kind = "uint" if cls[0] == "U" else "int"
        elif n.kind in ("str", "cstr", "pas8", "pas16"):
            kind = "string"
            codec = {"str": "fixed", "cstr": "C", "pas8": "Pascal8", "pas16": "Pascal16"}[n.kind]
        else:
            kind = "other"
        out.append(ENode(n.name, kind, endian, n.size, n.value, n.addr, None, codec))
    return out


class Sink:
    def __init__(self):
        self.out = bytearray()
        self.pos = 0

    def grow(self, n):
        while len(self.out) * 8 < self.pos + n:
            self.out.append(0)

    def bits(self, value, n, endian):
        self.grow(n)
        if endian == ">":
            bits = format(value, "0%db" % n)
        else:
            bits = format(value, "0%db" % n)[::-1]
        for b in bits:
            if b == "1":
                k = self.pos % 8
                self.out[self.pos // 8] |= 1 << (7 - k if endian == ">" else k)
            self.pos += 1

    def bytes(self, data):
        if self.pos % 8:
            raise Misaligned()
        self.out += data
        self.pos += 8 * len(data)


def emit(node, data, sink, parent):
    """Write a node; data: the original file."""
    if not node.is_altered():
        if node.addr % 8 or node.size0 % 8:
            e = node.endian
            sink.bits(synth.Reader(data, e).bits(node.addr, node.size0), node.size0, e)
        else:
            sink.bytes(data[node.addr // 8:(node.addr + node.size0) // 8])
    elif node.children is not None:
        if parent is not None and parent.endian != node.endian and sink.pos % 8:
            raise Mixed()
        for c in node.children:
            emit(c, data, sink, node)
        if parent is not None and parent.endian != node.endian and sink.pos % 8:
            raise Mixed()
    elif node.kind in ("bytes", "string"):
        sink.bytes(node.encoded())
    else:
        n = node.size0
        v = node.value if node.raw is None else node.raw
        sink.bits(int(v) & ((1 << n) - 1), n, node.endian)


def saved(root, data):
    s = Sink()
    emit(root, data, s, None)
    # an unfinished last byte is not written
    return bytes(s.out[:s.pos // 8])


def walk(node, path=""):
    """(path, node, parent) of every node below."""
    for c in node.children:
        p = path + "/" + c.name if path else c.name
        yield p, c, node
        if c.children is not None:
            yield from walk(c, p)
