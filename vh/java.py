"""Generated classes of Java (see media.py)."""
from hypothesis import strategies as st

from vh import binary as struct
from vh.media import SEED, Media
from vh.programs import Rng, kind

VERSIONS = {(45, 3): "JDK 1.1", (46, 0): "JDK 1.2", (47, 0): "JDK 1.3", (48, 0): "JDK 1.4", (49, 0): "JDK 1.5", (50, 0): "JDK 1.6", (51, 0): "JDK 1.7", (52, 0): "JDK 1.8",
            (53, 0): "JDK 9", (54, 0): "JDK 10", (55, 0): "JDK 11", (56, 0): "JDK 12", (57, 0): "JDK 13", (58, 0): "JDK 14"}
TYPES = {"B": "byte", "C": "char", "D": "double", "F": "float", "I": "int", "J": "long", "S": "short", "Z": "boolean"}
KINDS_OF_HANDLE = {1: ("getField", 9), 2: ("getStatic", 9), 3: ("putField", 9), 4: ("putStatic", 9), 5: ("invokeVirtual", 10), 6: ("invokeStatic", 10), 7: ("invokeSpecial", 11),
                   8: ("newInvokeSpecial", 10), 9: ("invokeInterface", 11)}
NAMES = {7: "Class", 8: "String", 9: "Fieldref", 10: "Methodref", 11: "InterfaceMethodref", 12: "NameAndType", 15: "MethodHandle", 16: "MethodType", 17: "Dynamic",
         18: "InvokeDynamic", 19: "Module", 20: "Package", 1: "Utf8", 3: "Integer", 4: "Float", 5: "Long", 6: "Double"}
FIELD_FLAGS = [("public", 1), ("private", 2), ("protected", 4), ("static", 8), ("final", 0x10), ("volatile", 0x40), ("transient", 0x80), ("synthetic", 0x1000), ("enum", 0x4000)]
METHOD_FLAGS = [("public", 1), ("private", 2), ("protected", 4), ("static", 8), ("final", 0x10), ("synchronized", 0x20), ("bridge", 0x40), ("varargs", 0x80), ("native", 0x100),
                ("abstract", 0x400), ("strict", 0x800), ("synthetic", 0x1000)]
CLASS_FLAGS = [("public", 1), ("final", 0x10), ("super", 0x20), ("interface", 0x200), ("abstract", 0x400), ("synthetic", 0x1000), ("annotation", 0x2000), ("enum", 0x4000)]
INNER_FLAGS = [("public", 1), ("private", 2), ("protected", 4), ("static", 8), ("final", 0x10), ("super", 0x20), ("interface", 0x200), ("abstract", 0x400), ("synthetic", 0x1000),
               ("annotation", 0x2000), ("enum", 0x4000)]
PLAIN = {0: "nop", 1: "aconst_null", 2: "iconst_m1", 8: "iconst_5", 0x0a: "lconst_1", 0x0b: "fconst_0", 0x0f: "dconst_1", 0x1a: "iload_0", 0x2d: "aload_3", 0x2e: "iaload", 0x35: "saload",
         0x3b: "istore_0", 0x4e: "astore_3", 0x4f: "iastore", 0x57: "pop", 0x59: "dup", 0x5f: "swap", 0x60: "iadd", 0x73: "drem", 0x74: "ineg", 0x78: "ishl", 0x7e: "iand",
         0x83: "lxor", 0x85: "i2l", 0x93: "i2s", 0x94: "lcmp", 0x98: "dcmpg", 0xac: "ireturn", 0xb1: "return", 0xbe: "arraylength", 0xbf: "athrow", 0xc2: "monitorenter", 0xc3: "monitorexit"}
LOCAL = {0x15: "iload", 0x16: "lload", 0x17: "fload", 0x18: "dload", 0x19: "aload", 0x36: "istore", 0x37: "lstore", 0x38: "fstore", 0x39: "dstore", 0x3a: "astore", 0xa9: "ret"}
JUMPS = {0x99: "ifeq", 0x9a: "ifne", 0x9b: "iflt", 0x9c: "ifge", 0x9d: "ifgt", 0x9e: "ifle", 0x9f: "if_icmpeq", 0xa0: "if_icmpne", 0xa1: "if_icmplt", 0xa2: "if_icmpge", 0xa3: "if_icmpgt",
         0xa4: "if_icmple", 0xa5: "if_acmpeq", 0xa6: "if_acmpne", 0xa7: "goto", 0xa8: "jsr", 0xc6: "ifnull", 0xc7: "ifnonnull"}
OF_POOL = {0x13: ("ldc_w", (3, 4, 7, 8, 16)), 0x14: ("ldc2_w", (5, 6)), 0xb2: ("getstatic", (9,)), 0xb3: ("putstatic", (9,)), 0xb4: ("getfield", (9,)), 0xb5: ("putfield", (9,)),
           0xb6: ("invokevirtual", (10,)), 0xb7: ("invokespecial", (10,)), 0xb8: ("invokestatic", (10, 11)), 0xbb: ("new", (7,)), 0xbd: ("anewarray", (7,)),
           0xc0: ("checkcast", (7,)), 0xc1: ("instanceof", (7,))}
ARRAYS = {4: "boolean", 5: "char", 6: "float", 7: "double", 8: "byte", 9: "short", 10: "int", 11: "long"}


class Pool:
    """The constants of a class: the entries are numbered when they are first used, some of them refer to later ones"""

    def __init__(self, r):
        self.r = r
        self.entries = {}
        self.index = {}
        self.next = 1

    def add(self, tag, *values):
        key = (tag,) + values
        if key not in self.index:
            n = self.index[key] = self.next
            self.next += 2 if tag in (5, 6) else 1
            parts = [self.add(*v) if isinstance(v, tuple) else v for v in values]
            if tag == 1:
                text = values[0].encode("utf-8")
                data = struct.pack(">BH", 1, len(text)) + text
            else:
                data = struct.pack(">B" + {3: "i", 4: "f", 5: "q", 6: "d", 7: "H", 8: "H", 15: "BH", 16: "H", 19: "H", 20: "H"}.get(tag, "HH"), tag, *parts)
            self.entries[n] = (data, key)
        return self.index[key]

    def utf(self, text):
        return self.add(1, text)

    def cls(self):
        return (7, (1, "/".join(self.r.word() for _ in range(self.r.one(1, 2, 3)))))

    def nat(self, method):
        return (12, (1, self.r.word()), (1, method_type(self.r)[0] if method else field_type(self.r)[0]))

    def constant(self, tag):
        """The key of a constant of this type"""
        r = self.r
        if tag == 1:
            return (1, r.one("", "a\"b\\c", "h\xe9h\xe9", "\u20ac", r.word()))
        if tag == 3:
            return (3, r.s(32))
        if tag == 4:
            return (4, r.s(24) / 256)
        if tag == 5:
            return (5, r.s(64))
        if tag == 6:
            return (6, r.s(50) / 1024)
        if tag == 7:
            return self.cls()
        if tag in (8, 19, 20):
            return (tag, (1, r.word()))
        if tag in (9, 10, 11):
            return (tag, self.cls(), self.nat(tag != 9))
        if tag == 12:
            return self.nat(r.one(0, 1))
        if tag == 15:
            n = r.randint(1, 9)
            return (15, n, self.constant(KINDS_OF_HANDLE[n][1]))
        if tag == 16:
            return (16, (1, method_type(r)[0]))
        return (tag, r.u(16), self.nat(tag == 18))

    def data(self):
        return b"".join(self.entries[n][0] for n in sorted(self.entries))


def field_type(r):
    """A descriptor, and its text"""
    n = r.one(0, 0, 0, 1, 2)
    if r.one(0, 0, 1):
        name = "/".join(r.word() for _ in range(r.one(1, 2)))
        code, text = "L%s;" % name, name.replace("/", ".")
    else:
        code = r.choice(sorted(TYPES))
        text = TYPES[code]
    return "[" * n + code, text + "[]" * n


def method_type(r, name=None):
    params = [field_type(r) for _ in range(r.randint(0, 3))]
    back = r.one(("V", "void"), field_type(r))
    return "(%s)%s" % ("".join(p[0] for p in params), back[0]), "%s %s(%s)" % (back[1], name or "", ", ".join(p[1] for p in params))


def typed(descriptor, name):
    """The declaration with this descriptor: written again, from the rules of the class format (JVMS 4.3)"""
    def one(s):
        n = len(s) - len(s.lstrip("["))
        s = s[n:]
        if s[0] == "L":
            t, _, s = s[1:].partition(";")
            return t.replace("/", ".") + "[]" * n, s
        return dict(TYPES, V="void")[s[0]] + "[]" * n, s[1:]
    if descriptor[0] != "(":
        return one(descriptor)[0] + " " + name
    s = descriptor[1:]
    params = []
    while s[0] != ")":
        t, s = one(s)
        params.append(t)
    return "%s %s(%s)" % (one(s[1:])[0], name, ", ".join(params))


def quoted(text):
    return '"%s"' % text.replace("\\", "\\\\").replace('"', '\\"')


def text_of(key):
    """How a constant is told (None: not checked)"""
    tag = key[0]
    if tag == 1:
        return quoted(key[1])
    if tag in (3, 5):
        return str(key[1])
    if tag in (4, 6):
        return None
    if tag == 7:
        return key[1][1].replace("/", ".")
    if tag in (8, 16, 19, 20):
        return quoted(key[1][1])
    if tag in (9, 10, 11):
        return typed(key[2][2][1], key[1][1][1].replace("/", ".") + "." + key[2][1][1])
    if tag == 12:
        return typed(key[2][1], key[1][1])
    if tag == 15:
        return "%s(%s)" % (KINDS_OF_HANDLE[key[1]][0], text_of(key[2]))
    return "%d, %s" % (key[1], text_of(key[2]))


class Maker:
    def __init__(self, seed, modern):
        self.r = Rng(seed)
        self.pool = Pool(self.r)
        self.modern = modern
        self.values, self.told, self.shown = {}, {}, {}

    def attribute(self, name, data):
        return struct.pack(">HI", self.pool.utf(name), len(data)) + data

    def point(self, path, key):
        """The index of the constant; the field with this path shows it"""
        n = self.pool.add(*key)
        self.values[path] = n
        text = text_of(key)
        if text is not None:
            self.shown[path] = text
        return n

    def flags(self, path, known):
        n = self.r.u(16)
        bits = [(name, bit) for name, bit in known if n & bit]
        for name, bit in known:
            self.values[path + "/" + name] = bool(n & bit)
        return sum(bit for _, bit in bits), [name for name, _ in bits]

    def attributes(self, path, made):
        """The table of attributes; each one is made when its place is known"""
        parts = [func("%s/attributes/attributes[%u]" % (path, i)) for i, func in enumerate(made)]
        if parts:
            self.values[path + "/attributes_count"] = len(parts)
        return struct.pack(">H", len(parts)) + b"".join(parts)

    def marks(self, path):
        """An attribute that everything may have"""
        name = self.r.one("Synthetic", "Deprecated", "Unknown")
        data = self.r.raw(self.r.one(0, 3, 8)) if name == "Unknown" else b""
        return self.attribute(name, data)

    def table(self, name, fmt, make):
        def func(path):
            rows = [make(path, i) for i in range(self.r.randint(0, 3))]
            return self.attribute(name, struct.pack(">H", len(rows)) + b"".join(struct.pack(">" + fmt + "#=" + name, *row) for row in rows))
        return func

    def line(self, path, i):
        a, b = self.r.u(16), self.r.u(16)
        row = path + "/line_number_table/line_number_table[%u]" % i
        self.shown[row] = "%d @ line %d" % (a, b)
        return a, b

    def local(self, path, i):
        row = path + "/local_variable_table/local_variable_table[%u]/" % i
        code, text = field_type(self.r)
        self.shown[row + "descriptor_index"] = text
        return self.r.u(16), self.r.u(16), self.point(row + "name_index", (1, self.r.word())), self.pool.utf(code), self.r.u(16)

    def inner(self, path, i):
        row = path + "/classes/classes[%u]" % i
        key = self.pool.cls()
        values = [self.point(row + "/inner_class_info_index", key)]
        for name, other in ("outer_class_info_index", self.pool.cls()), ("inner_name_index", (1, self.r.word())):
            if self.r.one(0, 1):
                values.append(self.point(row + "/" + name, other))
            else:
                values.append(0)
                self.shown[row + "/" + name] = "ZERO"
        n, names = self.flags(row, INNER_FLAGS)
        self.told[row] = " ".join(names + ["class"] * ("interface" not in names) + [text_of(key)])
        return (*values, n)

    def source(self, path):
        return self.attribute("SourceFile", struct.pack(">H", self.point(path + "/sourcefile_index", (1, self.r.word() + ".java"))))

    def exceptions(self, path):
        rows = [struct.pack(">H", self.point(path + "/exception_index_table/exception_index_table[%u]" % i, self.pool.cls())) for i in range(self.r.randint(1, 3))]
        return self.attribute("Exceptions", struct.pack(">H", len(rows)) + b"".join(rows))

    def constant_value(self, path):
        return self.attribute("ConstantValue", struct.pack(">H", self.point(path + "/constantvalue_index", self.pool.constant(self.r.one(3, 4, 5, 6, 8)))))

    def handler(self, path, i):
        row = path + "/exception_table/exception_table[%u]" % i
        if self.r.one(0, 1):
            catch = self.point(row + "/catch_type", self.pool.cls())
        else:
            # (the handler of all exceptions: of a "finally")
            catch = 0
            self.shown[row + "/catch_type"] = "ZERO"
        return struct.pack(">HHHH", self.r.u(16), self.r.u(16), self.r.u(16), catch)

    def instruction(self, path, at):
        """The bytes, the value"""
        r = self.r
        what = r.randint(0, 15)
        if what <= 2:
            op = r.choice(sorted(PLAIN))
            return bytes([op]), PLAIN[op]
        if what == 3:
            v = r.s(8)
            return struct.pack(">Bb", 0x10, v), "bipush(%d)" % v
        if what == 4:
            v = r.s(16)
            return struct.pack(">Bh", 0x11, v), "sipush(%d)" % v
        if what == 5:
            op, v = r.choice(sorted(LOCAL)), r.u(8)
            return bytes([op, v]), "%s(%d)" % (LOCAL[op], v)
        if what == 6:
            i, v = r.u(8), r.s(8)
            return struct.pack(">BBb", 0x84, i, v), "iinc(%d,%d)" % (i, v)
        if what == 7:
            op, v = r.choice(sorted(JUMPS)), r.s(16)
            return struct.pack(">Bh", op, v), "%s(%d)" % (JUMPS[op], v)
        if what == 8:
            op, v = r.one(0xc8, 0xc9), r.s(32)
            return struct.pack(">Bi", op, v), "%s(%d)" % ({0xc8: "goto_w", 0xc9: "jsr_w"}[op], v)
        if what == 9:
            op = r.choice(sorted(OF_POOL))
            name, tags = OF_POOL[op]
            n = self.point(path + "/index", self.pool.constant(r.choice(tags)))
            return struct.pack(">BH", op, n), "%s(%d)" % (name, n)
        if what == 10:
            n = self.pool.add(*self.pool.constant(r.one(3, 4, 7, 8)))
            if n > 255:
                return b"\0", "nop"
            return bytes([0x12, n]), "ldc(%d)" % n
        if what == 11:
            op, v = r.choice(sorted(LOCAL)), r.u(16)
            if r.one(0, 1):
                return struct.pack(">BBH", 0xc4, op, v), "wide(%d)" % v
            c = r.s(16)
            return struct.pack(">BBHh", 0xc4, 0x84, v, c), "wide(%d,%d)" % (v, c)
        if what == 12:
            n = r.one(0, 1, 2, 5)
            low, default = r.s(20), r.s(32)
            pad = bytes(-(at + 1) % 4)
            for i in range(n + 1):
                self.values[path + "/offset[%u]" % i] = v = r.s(32)
                pad_or = struct.pack(">i", v)
                tail = pad_or if not i else tail + pad_or
            return b"\xaa" + pad + struct.pack(">iii", default, low, low + n) + tail, "tableswitch(%d,%d,%d,...)" % (default, low, low + n)
        if what == 13:
            n = r.one(0, 1, 3)
            default = r.s(32)
            tail = b""
            for i in range(n):
                a, b = r.s(32), r.s(32)
                self.values[path + "/match[%u]" % i] = a
                self.values[path + "/offset[%u]" % i] = b
                tail += struct.pack(">ii", a, b)
            return b"\xab" + bytes(-(at + 1) % 4) + struct.pack(">ii", default, n) + tail, "lookupswitch(%d,%d,...)" % (default, n)
        if what == 14:
            v = r.choice(sorted(ARRAYS))
            return bytes([0xbc, v]), "newarray(%s)" % ARRAYS[v]
        kind = r.one(0, 1, 2)
        if kind == 0:
            n, c = self.point(path + "/index", self.pool.constant(11)), r.randint(1, 255)
            return struct.pack(">BHBB", 0xb9, n, c, 0), "invokeinterface(%d,%d,0)" % (n, c)
        if kind == 1 and self.modern:
            n = self.point(path + "/index", self.pool.constant(18))
            return struct.pack(">BHBB", 0xba, n, 0, 0), "invokedynamic(%d,0,0)" % n
        n, c = self.point(path + "/index", self.pool.cls()), r.randint(1, 255)
        return struct.pack(">BHB", 0xc5, n, c), "multianewarray(%d,%d)" % (n, c)

    def code(self, path):
        code = b""
        for i in range(self.r.randint(1, 8)):
            where = path + "/code/bytecode[%u]" % i
            data, self.values[where] = self.instruction(where, len(code))
            code += data
        table = [self.handler(path, i) for i in range(self.r.one(0, 0, 1, 2))]
        made = [func for func in (self.table("LineNumberTable", "HH", self.line), self.table("LocalVariableTable", "HHHHH", self.local)) if self.r.one(0, 1)]
        return self.attribute("Code", struct.pack(">HHI", self.r.u(16), self.r.u(16), len(code)) + code + struct.pack(">H", len(table)) + b"".join(table) + self.attributes(path, made))

    def member(self, path, method):
        r = self.r
        flags, names = self.flags(path, METHOD_FLAGS if method else FIELD_FLAGS)
        name = r.one("<init>", r.word()) if method else r.word()
        if method:
            descriptor, text = method_type(r, name)
            self.shown[path + "/descriptor_index"] = method_text = text.replace(" %s(" % name, " (")
            del method_text
            made = [func for func in (self.code, self.exceptions, self.marks) if r.one(0, 1)]
        else:
            descriptor, text = field_type(r)
            self.shown[path + "/descriptor_index"] = text
            text = "%s %s" % (text, name)
            made = [func for func in (self.constant_value, self.marks) if r.one(0, 1)]
        self.told[path] = " ".join(names + [text])
        return struct.pack(">HHH", flags, self.point(path + "/name_index", (1, name)), self.pool.utf(descriptor)) + self.attributes(path, made)


@kind("java", st.tuples(st.sampled_from(sorted(VERSIONS)), st.integers(0, 2), st.integers(0, 3), st.integers(0, 3), st.booleans(), SEED))
def java(p):
    version, interfaces, nfields, nmethods, alone, seed = p
    make = Maker(seed, version >= (51, 0))
    r, pool = make.r, make.pool
    for _ in range(r.randint(0, 6)):
        pool.add(*pool.constant(r.choice([1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12] + [15, 16, 17, 18, 19, 20] * make.modern)))
    flags, _ = make.flags("", CLASS_FLAGS)
    head = struct.pack(">H", flags) + struct.pack(">H", make.point("/this_class", pool.cls()))
    if alone:
        # (java.lang.Object, or a module)
        head += b"\0\0"
        make.shown["/super_class"] = "ZERO"
    else:
        head += struct.pack(">H", make.point("/super_class", pool.cls()))
    head += struct.pack(">H", interfaces) + b"".join(struct.pack(">H", make.point("/interfaces/interfaces[%u]" % i, pool.cls())) for i in range(interfaces))
    head += struct.pack(">H", nfields) + b"".join(make.member("/fields/fields[%u]" % i, False) for i in range(nfields))
    head += struct.pack(">H", nmethods) + b"".join(make.member("/methods/methods[%u]" % i, True) for i in range(nmethods))
    made = [func for func in (make.source, make.table("InnerClasses", "HHHH", make.inner), make.marks) if r.one(0, 1)]
    head += make.attributes("", made)
    m = Media("java", "java_class", struct.pack(">IHHH", 0xcafebabe, version[1], version[0], pool.next) + pool.data() + head, ".class")
    for n, (_, key) in pool.entries.items():
        text = text_of(key)
        if text is not None and text.isascii():
            make.told["/constant_pool/constant_pool[%u]" % n] = "%s(%s)" % (NAMES[key[0]], text)
        if key[0] in (1, 3, 5, 4, 6):
            make.values["/constant_pool/constant_pool[%u]/bytes" % n] = key[1]
    m.values, m.told, m.shown = make.values, make.told, make.shown
    m.told["/"] = "Compiled Java class, %s" % VERSIONS[version]
    return m
