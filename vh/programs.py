"""Generated programs, captures of packets and system files (see media.py)."""
import datetime
import random

from hypothesis import strategies as st

from vh import binary as struct
from vh.media import SEED, Media, noise

PROGRAMS = {}


def kind(name, strategy):
    def deco(func):
        PROGRAMS[name] = (strategy, func)
        return func
    return deco


class Rng(random.Random):
    def u(self, bits):
        return self.getrandbits(bits)

    def s(self, bits):
        return self.getrandbits(bits) - (1 << bits - 1)

    def one(self, *values):
        return self.choice(values)

    def raw(self, n):
        return noise(self.getrandbits(30), n)

    def word(self, most=10):
        return "".join(self.choice("abcdefXYZ_0123") for _ in range(self.randint(1, most)))


# --- ELF

def elf_flags(e, bits):
    n = sum(1 << b for b in bits)
    return struct.pack(e + "I", n)


@kind("elf", st.tuples(st.booleans(), st.booleans(), st.integers(0, 3), st.integers(0, 4), st.booleans(), SEED))
def elf(p):
    big, wide, segments, sections, named, seed = p
    r = Rng(seed)
    e = ">" if big else "<"
    w = "Q" if wide else "I"
    bits = 64 if wide else 32
    head = 64 if wide else 52
    out = b""
    for _ in range(segments):
        flags = r.u(3)
        values = [r.one(0, 1, 2, 3, 4, 6, 7, 0x6474e550, 0x6474e551)]
        longs = [r.u(bits) for _ in range(5)]
        if wide:
            out += struct.pack(e + "IIQQQQQQ", *values, flags, *longs, r.u(64))
        else:
            out += struct.pack(e + "IIIIIIII", *values, *longs, flags, r.u(32))
    names = [""] + ["." + r.word() for _ in range(sections)] + [".shstrtab"]
    table = b"\0".join(n.encode() for n in names) + b"\0"
    contents = [r.raw(r.randint(1, 40)) for _ in range(sections)]
    heads, place = [], head + len(out)
    # (null section)
    listed = [(0, 0, 0, 0, b"")] if sections or named else []
    at = {n: table.index(n.encode() + b"\0") for n in names}
    for i, c in enumerate(contents):
        kind = r.one(1, 2, 4, 6, 7, 9, 11, 8)
        listed.append((at[names[i + 1]] if named else 0, kind, r.one(0, 1, 2, 3, 4, 6, 0x30, 0x400), len(c), c))
    if named:
        listed.append((at[".shstrtab"], 3, 0, len(table), table))
    body = b""
    before = bool(seed & 1)
    size = 64 if wide else 40
    start = place + (len(listed) * size if before else 0)
    for name, kind, flags, n, c in listed:
        offset = start + len(body)
        if not kind:
            heads.append(bytes(size))
            continue
        fmt = e + ("IIQQQQIIQQ" if wide else "IIIIIIIIII")
        heads.append(struct.pack(fmt, name, kind, flags, r.u(bits), offset, n, r.u(32), r.u(32), r.u(bits), r.u(bits)))
        if kind != 8:
            body += c
    heads = b"".join(heads)
    shoff = place if before else place + len(body)
    ident = b"\x7fELF" + struct.pack("BBBBB7x", 2 if wide else 1, 2 if big else 1, 1, r.one(0, 3, 9), r.u(8))
    header = ident + struct.pack(e + "HHI" + w * 3 + "IHHHHHH", r.randint(0, 4), r.one(2, 3, 8, 20, 40, 62), 1, r.u(bits), head if segments else 0, shoff if listed else 0, r.u(32),
                                 head, (56 if wide else 32) if segments else 0, segments, size if listed else 0, len(listed), len(listed) - 1 if named else 0)
    out = header + out + (heads + body if before else body + heads)
    return Media("elf", "elf", out, ".so")


# --- Captures of packets

def ip_checksum(r):
    return r.u(16)


class Packets:
    def __init__(self, seed):
        self.r = Rng(seed)

    def options(self):
        r = self.r
        out = b""
        for _ in range(r.randint(0, 4)):
            code = r.one(1, 2, 3, 4, 8, 254)
            out += {1: b"\1", 2: struct.pack(">BBH", 2, 4, r.u(16)), 3: struct.pack(">BBB", 3, 3, r.u(4)), 4: b"\4\2", 8: struct.pack(">BBII", 8, 10, r.u(32), r.u(32)),
                    254: b"\xfe\6" + r.raw(4)}[code]
        end = -len(out) % 4
        return out + (b"\1" * end if r.one(0, 1) else bytes(end))

    def tcp(self):
        r = self.r
        opts = self.options()
        return struct.pack(">HHIIBBHHH", r.u(16), r.one(80, 22, 443, r.u(16)), r.u(32), r.u(32), (20 + len(opts)) // 4 << 4, r.u(8), r.u(16), r.u(16), r.u(16)) + opts + r.raw(r.randint(0, 20))

    def udp(self):
        r = self.r
        data = r.raw(r.randint(0, 20))
        return struct.pack(">HHHH", r.u(16), r.one(53, 137, r.u(16)), 8 + len(data), r.u(16)) + data

    def icmp(self):
        r = self.r
        if r.one(0, 1, 1):
            return struct.pack(">BBHHH", r.one(0, 8), 0, r.u(16), r.u(16), r.u(16)) + r.raw(r.randint(0, 20))
        return struct.pack(">BBHHH", 3, r.randint(0, 15), r.u(16), 0, r.u(16)) + self.ipv4(17, struct.pack(">HHHH", r.u(16), r.u(16), 8, r.u(16)))

    def icmpv6(self):
        r = self.r
        return struct.pack(">BBHHH", r.one(128, 129), 0, r.u(16), r.u(16), r.u(16)) + r.raw(r.randint(0, 20))

    def ipv4(self, proto, content):
        r = self.r
        opts = r.raw(4 * r.one(0, 0, 1, 3))
        return struct.pack(">BBHHHBBHII", 0x40 | (5 + len(opts) // 4), r.u(6) << 2, 20 + len(opts) + len(content), r.u(16), r.one(0, 0x4000), r.u(8), proto, r.u(16), r.u(32), r.u(32)) + opts + content

    def ipv6(self, proto, content):
        r = self.r
        return struct.pack(">IHBB", 6 << 28 | r.u(28), len(content), proto, r.u(8)) + r.randbytes(16) + r.randbytes(16) + content

    def arp(self):
        r = self.r
        return struct.pack(">HHBBH6sI6sI", 1, 0x800, 6, 4, r.one(1, 2), r.randbytes(6), r.u(32), r.randbytes(6), r.u(32))

    def layer3(self):
        r = self.r
        name = r.one("tcp", "tcp", "udp", "icmp", "icmpv6", "arp", "other", "none")
        if name == "arp":
            return 0x806, self.arp()
        if name == "none":
            return 0x88cc, r.raw(20)
        if name == "other":
            proto, content = 60, r.raw(8)
        else:
            proto, content = {"tcp": 6, "udp": 17, "icmp": 1, "icmpv6": 58}[name], getattr(self, name)()
        if name == "icmpv6" or r.one(0, 0, 1):
            return 0x86dd, self.ipv6(proto, content)
        return 0x800, self.ipv4(proto, content)


@kind("pcap", st.tuples(st.sampled_from([1, 113]), st.integers(0, 4), SEED))
def pcap(p):
    link, count, seed = p
    make = Packets(seed)
    r = make.r
    out = b"\xd4\xc3\xb2\xa1" + struct.pack("<HHiiII", 2, 4, r.s(16), r.s(16), r.one(65535, 262144, 96), link)
    when = r.u(30)
    told, first = {}, None
    for i in range(count):
        proto, content = make.layer3()
        if link == 1:
            data = r.randbytes(6) + r.randbytes(6) + struct.pack(">H", proto) + content + bytes(r.one(0, 0, 6))
        else:
            data = struct.pack(">HHH8sH", 0, 1, 6, r.randbytes(8), proto) + content
        when += r.u(4)
        us = r.u(19)
        now = datetime.timedelta(seconds=when, microseconds=us)
        first = first or now
        told["packet[%u]" % i] = "%s: " % (now - first)
        out += struct.pack("<IIII", when, us, len(data), len(data) + r.one(0, 0, 300)) + data
    m = Media("pcap", "tcpdump", out, ".pcap")
    m.told = told
    return m
