"""Java serialization streams: the bytes, and what they hold."""
import struct

from hypothesis import strategies as st

PRIMS = {"B": (">b", -128, 127), "C": (">H", 0, 65535), "D": None, "F": None, "I": (">i", -(1 << 31), (1 << 31) - 1), "J": (">q", -(1 << 63), (1 << 63) - 1),
         "S": (">h", -32768, 32767), "Z": ("?", 0, 1)}
TEXTS = ["", "a", "value", "h\u00e9llo", "\u20acuro", "x y", "some longer text " * 3]
NAMES = ["Point", "demo.Node", "java.util.List2", "A$B", "\u00c9l"]
CASES = st.tuples(st.lists(st.integers(0, 1 << 16), min_size=6, max_size=60), st.integers(1, 4))


class Choice:
    def __init__(self, numbers):
        self.n, self.i = numbers, 0

    def __call__(self, k):
        v = self.n[self.i % len(self.n)] + self.i // len(self.n) * 7
        self.i += 1
        return v % k

    def pick(self, seq):
        return seq[self(len(seq))]


def utf(s):
    raw = s.encode()
    return struct.pack(">H", len(raw)) + raw


class Build:
    """Each content is written at the end of self.out; a node tells what it is:
    (kind, ...), see the functions"""

    def __init__(self, numbers):
        self.c = Choice(numbers)
        self.out = bytearray(struct.pack(">HH", 0xaced, 5))
        self.handles = []
        self.classes = {}       # name -> node
        self.written = {}       # name -> handle
        self.depth = 0
        self.labels = set()

    def new(self, node):
        self.handles.append(node)

    def put(self, *parts):
        for p in parts:
            self.out += p if isinstance(p, bytes) else bytes([p])

    # contents
    def reference(self, want=None):
        ok = [i for i, n in enumerate(self.handles) if n[0] in ("str", "obj", "arr", "enum", "lstr", "cls") and (want is None or n[0] in want)]
        if not ok:
            return self.string()
        h = self.c.pick(ok)
        self.put(0x71, struct.pack(">I", 0x7e0000 + h))
        self.labels.add("reference")
        return ("ref", 0x7e0000 + h, self.handles[h])

    def null(self):
        self.put(0x70)
        return ("null",)

    def string(self, text=None):
        text = self.c.pick(TEXTS) if text is None else text
        node = ("str", text)
        self.put(0x74, utf(text))
        self.new(node)
        return node

    def long_string(self):
        text = self.c.pick(TEXTS) * (1 + self.c(3))
        node = ("lstr", text)
        raw = text.encode()
        self.put(0x7c, struct.pack(">Q", len(raw)), raw)
        self.new(node)
        self.labels.add("long string")
        return node

    def block(self):
        data = bytes(range(self.c(9)))
        if self.c(2):
            self.put(0x77, len(data), data)
        else:
            self.put(0x7a, struct.pack(">I", len(data)), data)
        return ("block", data)

    def annotation(self):
        items = []
        for i in range(self.c(3) if self.depth < 3 else 0):
            items.append(self.c.pick([self.block, self.string, self.null])())
        self.put(0x78)
        return items

    def class_desc(self, name, flags, fields, parent):
        """parent: None or a function writing the description"""
        if name in self.written:
            h = self.written[name]
            self.put(0x71, struct.pack(">I", 0x7e0000 + h))
            return ("ref", 0x7e0000 + h, self.handles[h])
        uid = self.c(1 << 16) - 30000
        node = ["class", name, uid, flags, [], [], None]
        self.put(0x72, utf(name), struct.pack(">q", uid))
        self.written[name] = len(self.handles)
        self.new(node)
        self.put(flags, struct.pack(">h", len(fields)))
        for t, fname, cls in fields:
            self.put(t.encode(), utf(fname))
            node[4].append((t, fname, self.type_name(cls) if cls else None))
        node[5] = self.annotation()
        node[6] = parent() if parent else self.null()
        return node

    def type_name(self, text):
        for i, n in enumerate(self.handles):
            if n == ("str", text):
                self.put(0x71, struct.pack(">I", 0x7e0000 + i))
                return ("ref", 0x7e0000 + i, n)
        return self.string(text)

    def make_class(self, depth=0):
        """Definition of a class: (name, flags, fields, definition of the parent)"""
        k = len(self.classes)
        if k and self.c(3) == 0:
            return self.c.pick(list(self.classes.values()))
        name = self.c.pick(NAMES) + str(k)
        fields = []
        for i in range(self.c(5)):
            t = self.c.pick("BCDFIJSZL[L[")
            fields.append((t, "f%u" % i, {"L": "Ljava/lang/Object;", "[": "[I"}.get(t)))
        flags = self.c.pick([2, 2, 2, 3, 12])
        if flags == 12:
            fields = []
        d = (name, flags, fields, None)
        self.classes[name] = d
        if depth < 2 and self.c(3) == 0:
            d = (name, flags, fields, self.make_class(depth + 1))
            if any(x[0] == name for x in self.chain(d[3])):
                d = d[:3] + (None,)
            self.classes[name] = d
        return d

    def chain(self, d):
        out = []
        while d:
            out.append(d)
            d = d[3]
        return out

    def write_class(self, d):
        return self.class_desc(d[0], d[1], d[2], (lambda: self.write_class(d[3])) if d[3] else None)

    def prim(self, t):
        if t in "DF":
            v = (self.c(2000) - 1000) / 8
            self.put(struct.pack(">" + t.lower(), v))
            return v
        fmt, lo, hi = PRIMS[t]
        v = self.c.pick([lo, hi, 0, 1, hi // 3])
        v = bool(v) if t == "Z" else v
        self.put(struct.pack(fmt, v))
        return v

    def object(self):
        self.depth += 1
        d = self.make_class()
        self.put(0x73)
        desc = self.write_class(d)
        node = ["obj", d[0], desc, []]
        self.new(node)
        for name, flags, fields, _ in reversed(self.chain(d)):
            if flags == 12:
                node[3].append(("contents", self.annotation()))
                continue
            for t, fname, _ in fields:
                node[3].append(("field", t, fname, self.prim(t) if t in PRIMS else self.content(t)))
            if flags & 1:
                node[3].append(("contents", self.annotation()))
        self.depth -= 1
        if not node[3]:
            self.labels.add("object without data")
        return node

    def content(self, t=None):
        """Value of a field"""
        if self.depth > 3:
            return self.c.pick([self.null, self.reference if t != "[" else self.null])()
        if t == "[":
            return self.c.pick([self.null, self.array])()
        return self.c.pick([self.null, self.string, self.object, self.reference, self.array, self.enum, self.long_string, self.klass])()

    def array(self):
        self.depth += 1
        t = self.c.pick("BCDFIJSZLL")
        self.put(0x75)
        desc = self.class_desc("[" + (t if t != "L" else "Ljava.lang.Object;"), 2, [], None)
        node = ["arr", t, desc, []]
        self.new(node)
        n = self.c(4)
        self.put(struct.pack(">i", n))
        for i in range(n):
            node[3].append(self.prim(t) if t != "L" else self.content())
        self.depth -= 1
        return node

    def enum(self):
        self.put(0x7e)
        desc = self.class_desc(self.c.pick(["Color", "Kind"]), 0x12, [], lambda: self.class_desc("java.lang.Enum", 0x12, [], None))
        node = ["enum", desc, None]
        self.new(node)
        node[2] = self.type_name(self.c.pick(["RED", "BLUE"]))
        return node

    def klass(self):
        self.put(0x76)
        node = ["cls", None]
        node[1] = self.write_class(self.make_class())
        self.new(node)
        return node

    def proxy(self):
        self.depth += 1
        self.put(0x73, 0x7d)
        names = ["demo.I%u" % i for i in range(1 + self.c(3))]
        desc = ["proxy", names, [], None]
        self.new(desc)
        self.put(struct.pack(">i", len(names)), *[utf(n) for n in names])
        desc[2] = self.annotation()
        desc[3] = self.class_desc("java.lang.reflect.Proxy", 2, [("L", "h", "Ljava/lang/reflect/InvocationHandler;")], None)
        node = ["obj", "<Proxy implements %s>" % ", ".join(names), desc, []]
        self.new(node)
        node[3].append(("field", "L", "h", self.content("L")))
        self.depth -= 1
        self.labels.add("proxy")
        return node

    def clear(self):
        self.handles = []
        self.written = {}

    def reset(self):
        self.put(0x79)
        self.clear()
        return ("reset",)

    def exception(self):
        self.put(0x7b)
        self.clear()
        node = ("exc", self.object())
        self.clear()
        return node

    def top(self):
        return self.c.pick([self.object, self.object, self.object, self.string, self.array, self.enum, self.klass, self.block, self.reset, self.reference, self.null, self.proxy,
                            self.exception, self.long_string])()
