"""Writers of disks: FAT file systems, partition tables, Linux swap, ext2. Numbers of the case decide every choice."""

from vh import binary as struct
from vh.javaser import Choice

DATES = [(1980, 1, 1, 0, 0, 0), (1999, 12, 31, 23, 59, 58), (2107, 12, 31, 12, 30, 2), (2024, 2, 29, 6, 1, 44), None]


def fat_date(d):
    return 0 if d is None else (d[0] - 1980) << 9 | d[1] << 5 | d[2]


def fat_time(d):
    return 0 if d is None else d[3] << 11 | d[4] << 5 | d[5] // 2


class Entry:
    """What a directory entry holds"""

    def __init__(self, kind, **kw):
        self.kind = kind        # file, dir, dot, deleted, long, label, free
        self.name, self.ext, self.attr = "", "", 0
        self.create = self.access = self.modify = None
        self.tenms = 0
        self.content = None
        self.entries = None
        self.clusters = []
        self.long, self.seq = None, 0
        self.__dict__.update(kw)


class Fat:
    def __init__(self, numbers, version):
        self.c = c = Choice(numbers)
        self.version = version
        self.sector = c.pick([512, 512, 512, 1024])
        self.per_cluster = c.pick([1, 1, 2, 4])
        self.cluster = self.sector * self.per_cluster
        self.fats = c.pick([1, 2, 2])
        self.reserved = c.pick([1, 2, 4]) if version < 32 else c.pick([8, 10, 32])
        self.max_root = 0 if version == 32 else c.pick([1, 2, 4]) * (self.sector // 32)
        self.total = 40 + c(60)     # clusters
        self.free = list(range(2, self.total + 2))
        self.next = {}
        self.blocks = {}
        self.count = 0
        self.long_used = False
        self.root_cluster = 0
        if version == 32:
            self.root_cluster = c.pick([2, 2, 3, 17])
            self.free.remove(self.root_cluster)
        self.bad = [self.free.pop(c(len(self.free))) for i in range(c(3))]
        for b in self.bad:
            self.next[b] = (1 << min(28, version)) - 9
        self.budget = len(self.free) - 8
        self.odd = False
        self.root = self.directory(0)
        self.data = self.write()

    # allocation
    def chain(self, n, first=None):
        """n free clusters"""
        c, out = self.c, [] if first is None else [first]
        mode = c(4)
        while len(out) < n:
            if mode == 0 and out and out[-1] + 1 in self.free:
                x = out[-1] + 1
            elif mode == 1:
                x = self.free[0]
            elif mode == 2:
                x = self.free[-1]
            else:
                x = self.free[c(len(self.free))]
            self.free.remove(x)
            out.append(x)
        for a, b in zip(out, out[1:]):
            self.next[a] = b
        if out:
            self.next[out[-1]] = (1 << min(28, self.version)) - 1 - c.pick([0, 0, 7])
        return out

    def store(self, raw, first=None):
        n = -(-len(raw) // self.cluster)
        clusters = self.chain(max(n, 1), first)
        for i, x in enumerate(clusters):
            self.blocks[x] = raw[i * self.cluster:(i + 1) * self.cluster].ljust(self.cluster, b"\xa5" if self.c(2) else b"\0")
        return clusters

    # content
    def stamp(self, e):
        c = self.c
        e.create, e.access, e.modify = c.pick(DATES), c.pick(DATES), c.pick(DATES)
        e.tenms = c.pick([0, 50, 199]) if e.create else 0
        return e

    def names(self):
        self.count += 1
        k = self.count
        return self.c.pick([("F%u" % k, "TXT"), ("LONGNA%02u" % k, "C"), ("A B%u" % k, ""), ("~%u" % k, "ZIP"), ("\xe5X%u" % k, "BIN")])

    def file(self):
        c = self.c
        name, ext = self.names()
        size = c.pick([0, 1, self.cluster - 1, self.cluster, self.cluster + 1, self.cluster * 3, c(self.cluster * 5 + 1)])
        size = min(size, max(0, self.budget) * self.cluster)
        self.budget -= -(-size // self.cluster)
        k = self.count
        content = bytes((i * (k * 2 + 1) + (i >> 8) + k) & 255 for i in range(size))
        return self.stamp(Entry("file", name=name, ext=ext, attr=c.pick([0x20, 0, 1, 2, 4, 0x27]), content=content))

    def directory(self, depth):
        """Entries of a directory"""
        c = self.c
        out = []
        if depth:
            out += [self.stamp(Entry("dot", name=x, attr=0x10)) for x in (".", "..")]
        elif c(2):
            out.append(self.stamp(Entry("label", name="MY", ext="DSK", attr=8)))
        for i in range(c(5) if depth else 1 + c(6)):
            k = c(8)
            if k == 0:
                out.append(self.stamp(Entry("deleted", name="GONE", ext="TXT")))
            elif k == 1 and depth < 3 and self.budget > 10:
                self.budget -= 4
                name, ext = self.names()
                e = self.stamp(Entry("dir", name=name, ext=ext, attr=0x10))
                e.entries = self.directory(depth + 1)
                out.append(e)
            else:
                e = self.file()
                if c(4) == 0:
                    text = c.pick(["Long file name", "h\u00e9llo.txt", "abcdefghijklm", "\u20ac" * 15])
                    parts = [text[i:i + 13] for i in range(0, len(text), 13)]
                    for seq in range(len(parts), 0, -1):
                        out.append(Entry("long", long=parts[seq - 1], seq=seq | (0x40 if seq == len(parts) else 0)))
                out.append(e)
        if depth or self.version == 32:
            # long directories
            out += [self.stamp(Entry("deleted", name="OLD%u" % i)) for i in range(c.pick([0, 0, self.cluster // 32 - 3, self.cluster // 16]) if self.budget > 0 else 0)]
        out = out[:self.max_root] if not depth and self.max_root else out
        if c(2) and not (not depth and self.max_root and len(out) >= self.max_root - 1):
            out.append(self.file())
        return out

    def entry_bytes(self, e):
        if e.kind == "long":
            text = e.long.encode("utf-16-le")
            if len(e.long) < 13:
                text = (text + b"\0\0").ljust(26, b"\xff")
            return struct.pack("<B10sBBB12sH4s", e.seq, text[:10], 15, 0, 0x77, text[10:22], 0, text[22:])
        name = e.name.encode("latin-1")
        if name[:1] == b"\xe5":
            name = b"\x05" + name[1:]
        if e.kind == "deleted":
            name = b"\xe5" + name[1:]
        cl = e.clusters[0] if e.clusters else 0
        return struct.pack("<8s3sBBBHHHHHHHI", name.ljust(8), e.ext.encode().ljust(3), e.attr, 0, e.tenms, fat_time(e.create), fat_date(e.create), fat_date(e.access), cl >> 16,
                           fat_time(e.modify), fat_date(e.modify), cl & 0xffff, len(e.content) if e.content is not None else 0)

    def dump_dir(self, entries):
        for e in entries:
            if e.kind == "file" and e.content:
                e.clusters = self.store(e.content)
            elif e.kind == "dir":
                # the clusters are known after
                n = -(-len(e.entries) * 32 // self.cluster)
                e.clusters = self.chain(max(n, 1))
                raw = self.dump_dir(e.entries)
                for i, x in enumerate(e.clusters):
                    self.blocks[x] = raw[i * self.cluster:(i + 1) * self.cluster].ljust(self.cluster, b"\0")
        return b"".join(map(self.entry_bytes, entries))

    def write(self):
        v, c = self.version, self.c
        raw = self.dump_dir(self.root)
        self.root_clusters = []
        if v == 32:
            first = self.root_cluster
            n = max(1, -(-len(raw) // self.cluster))
            self.root_clusters = self.chain(n, first)
            for i, x in enumerate(self.root_clusters):
                self.blocks[x] = raw[i * self.cluster:(i + 1) * self.cluster].ljust(self.cluster, b"\0")
        entries = [(1 << min(28, v)) - 8, (1 << min(28, v)) - 1] + [self.next.get(i, 0) for i in range(2, self.total + 2)]
        self.entries = entries
        bits = 0
        for i, x in enumerate(entries):
            bits |= x << (i * v)
        fat = bits.to_bytes(-(-len(entries) * v // 8), "little")
        fat_size = -(-len(fat) // self.sector) + c(2)
        if v == 12 and fat_size * self.sector % 3:
            self.odd = True
        fat = fat.ljust(fat_size * self.sector, b"\0")
        self.fat_size = fat_size
        root_size = self.max_root * 32
        sectors = self.reserved + self.fats * fat_size + root_size // self.sector + self.total * self.per_cluster + (c(self.per_cluster) if c(2) else 0)
        self.sectors = sectors
        big = c(4) == 0 or v == 32
        boot = b"\xeb\x3c\x90" + b"MSDOS5.0" + struct.pack("<HBHBHHBHHHII", self.sector, self.per_cluster, self.reserved, self.fats, self.max_root, 0 if big else sectors, 0xf8,
                                                           fat_size if v < 32 else 0, 63, 255, 0, sectors if big else 0)
        if v == 32:
            boot += struct.pack("<IHHIHH12x", fat_size, 0, 0, self.root_cluster, 1, self.copy())
        self.label = c.pick(["NO NAME", "DISK", "A B C D E"])
        self.serial = c(1 << 16) * 40503 & 0xffffffff
        boot += struct.pack("<BBBI11s8s", 0x80, 0, 0x29, self.serial, self.label.encode().ljust(11), b"FAT%-5u" % v)
        boot = boot.ljust(510, b"\xf4") + b"\x55\xaa"
        area = bytearray(boot.ljust(self.sector, b"\0").ljust(self.reserved * self.sector, b"\0"))
        if v == 32:
            info = (b"RRaA" + bytes(480) + b"rrAa" + struct.pack("<II", len(self.free), 3) + bytes(12) + b"\0\0\x55\xaa")
            area[self.sector:self.sector + 512] = info
            if self.copy():
                area[self.copy() * self.sector:self.copy() * self.sector + 512] = boot
        out = bytes(area) + fat * self.fats + (raw.ljust(root_size, b"\0") if v < 32 else b"")
        self.data_start = len(out)
        for i in range(2, self.total + 2):
            out += self.blocks.get(i, bytes(self.cluster))
        return out.ljust(sectors * self.sector, b"\0")

    def copy(self):
        return 6 if self.reserved > 8 else 0


class Mbr:
    """A disk with partitions: self.parts = [(slot, boot, type, start, size, logical partitions)]"""
    TYPES = [1, 6, 7, 0x82, 0x83, 0xa5, 0xee, 0x0b, 0x8e]

    def __init__(self, numbers):
        self.c = c = Choice(numbers)
        at = 1 + c(4)
        self.parts = []
        slots = sorted({c(4) for i in range(1 + c(4))})
        order = list(slots)
        if c(3) == 0:
            order.reverse()
        data = {}
        extended = c(3)
        for k, slot in enumerate(order):
            at += c.pick([0, 0, 1, 5])
            boot = 0x80 if c(4) == 0 else 0
            if extended == 1 and k == len(order) - 1:
                size, logical, blocks = self.extended(at)
                data.update(blocks)
                self.parts.append((slot, boot, 5, at, size, logical))
            else:
                size = 1 + c(6)
                data[at] = bytes((at + i * 3) & 255 for i in range(size * 512))
                self.parts.append((slot, boot, c.pick(self.TYPES), at, size, None))
            at += size
        self.size = at + c.pick([0, 0, 3])
        out = bytearray(self.size * 512)
        self.heads = {}
        for s in range(4):
            self.heads[s] = (c(256), c(64), c(1024), c(256), c(64), c(1024))
        out[:512] = self.record({p[0]: p for p in self.parts}, self.heads)
        for a, raw in data.items():
            out[a * 512:a * 512 + len(raw)] = raw
        self.data = bytes(out)

    def record(self, parts, heads):
        raw = b"\xfa" * 446
        for s in range(4):
            if s not in parts:
                raw += bytes(16)
                continue
            _, boot, kind, start, size, _ = parts[s]
            h = heads[s]
            raw += struct.pack("<BBBBBBBBII", boot, h[0], h[1] | h[2] >> 8 << 6, h[2] & 255, kind, h[3], h[4] | h[5] >> 8 << 6, h[5] & 255, start, size)
        return raw + b"\x55\xaa"

    def extended(self, base):
        """Logical partitions: (type, first sector from the start of the extended partition, size)"""
        c = self.c
        n = 1 + c(5)
        at, logical, blocks = 0, [], {}
        places = []
        for i in range(n):
            gap, size = c.pick([1, 1, 2, 4]), 1 + c(4)
            places.append((at, gap, size, c.pick(self.TYPES)))
            at += gap + size + c.pick([0, 0, 2])
        for i, (start, gap, size, kind) in enumerate(places):
            parts = {0: (0, 0, kind, gap, size, None)}
            if i + 1 < n:
                nxt = places[i + 1]
                parts[1] = (1, 0, 5, nxt[0], nxt[1] + nxt[2], None)
            blocks[base + start] = self.record(parts, {0: (1, 1, 0, 2, 3, 4), 1: (0, 1, 1, 0, 1, 1)})
            blocks[base + start + gap] = bytes((start * 5 + j) & 255 for j in range(size * 512))
            logical.append((kind, start + gap, size, start))
        return at, logical, blocks


def swap(numbers):
    c = Choice(numbers)
    pages = 1 + c(8)
    bad = sorted({1 + c(pages) for i in range(c(4))})
    magic = c.pick([b"SWAP-SPACE", b"SWAPSPACE2", b"S1SUSPEND\0"])
    uuid, label = bytes(c(256) for i in range(16)), b"swap" + bytes(12)
    head = bytes(c.pick([0, 7]) for i in range(1024)) + struct.pack("<III", 1, pages, len(bad)) + uuid + label + bytes(468) + b"".join(struct.pack("<I", b) for b in bad)
    data = head.ljust(4086, b"\0") + magic + b"".join(bytes([i & 255]) * 4096 for i in range(1, pages + 1)) + bytes(c.pick([0, 0, 100]))
    return dict(pages=pages, bad=bad, magic=magic, uuid=uuid, data=data)


class Inode:
    def __init__(self, kind, mode, **kw):
        self.kind, self.mode = kind, kind << 12 | mode
        self.size = self.uid = self.gid = self.flags = self.sectors = self.acl = 0
        self.links = 1
        self.times = (0, 0, 0, 0)
        self.block = bytes(60)
        self.blocks = []        # of the content
        self.content = None
        self.names = None       # of a directory: [(inode, type, name, length of the record)]
        self.target = self.device = None
        self.__dict__.update(kw)


class Ext2:
    TYPES = {1: 5, 2: 3, 4: 2, 6: 4, 8: 1, 10: 7, 12: 6}

    def __init__(self, numbers):
        self.c = c = Choice(numbers)
        self.log = c.pick([0, 0, 1, 2])
        self.bs = 1024 << self.log
        self.inode_size = c.pick([128, 128, 256])
        self.groups = 1 + c(3)
        self.bpg = c.pick([64, 96, 128]) if self.groups == 1 else c.pick([64, 80])
        self.ipg = c.pick([16, 24, 32])
        self.first = 1 if self.log == 0 else 0
        last = self.bpg - c.pick([0, 0, 8, 3])
        self.blocks_count = self.first + self.bpg * (self.groups - 1) + last
        table = -(-self.ipg * self.inode_size // self.bs)
        self.used, self.blocks, self.desc, self.free = set(), {}, [], {}
        for g in range(self.groups):
            start = self.first + g * self.bpg
            end = min(start + self.bpg, self.blocks_count)
            meta = 2        # superblock and descriptors
            at = start + meta + c.pick([0, 0, 2])
            self.desc.append((at, at + 1, at + 2))
            self.used.update(range(start, at + 2 + table))
            self.free[g] = list(range(at + 2 + table, end))
        self.inodes = {}        # number -> Inode
        self.numbers = {g: [n for n in range(g * self.ipg + 1, (g + 1) * self.ipg + 1) if n > 11] for g in range(self.groups)}
        self.build()
        self.data = self.write()

    def take(self, g, n):
        c, free, out = self.c, self.free[g], []
        order = c(3)
        for i in range(n):
            out.append(free.pop(0 if order == 0 else -1 if order == 1 else c(len(free))))
        self.used.update(out)
        return out

    def store(self, node, raw, g):
        n = -(-len(raw) // self.bs)
        ids = self.take(g, n)
        for i, b in enumerate(ids):
            self.blocks[b] = raw[i * self.bs:(i + 1) * self.bs].ljust(self.bs, b"\0")
        node.blocks = ids
        direct = ids[:12]
        pointer = 0
        if len(ids) > 12:
            pointer = self.take(g, 1)[0]
            self.blocks[pointer] = b"".join(struct.pack("<I", b) for b in ids[12:]).ljust(self.bs, b"\0")
        node.block = struct.pack("<15I", *(direct + [0] * (12 - len(direct)) + [pointer, 0, 0]))
        node.sectors = (n + bool(pointer)) * self.bs // 512
        node.indirect = pointer

    def common(self, node):
        c = self.c
        node.uid, node.gid = c.pick([0, 1000, 65534]), c.pick([0, 100])
        node.times = tuple(c.pick([0, 1, 1165265797, 0x7fffffff, 2000000000 + c(1000)]) for i in range(4))
        return node

    def mode(self):
        return self.c.pick([0o644, 0o755, 0o4755, 0o2711, 0o1777, 0o6444, 0o1666, 0o000, 0o777])

    def node(self, g):
        """A file which isn't a directory"""
        c = self.c
        kind = c.pick([8, 8, 8, 8, 10, 10, 2, 6, 1, 12])
        n = self.common(Inode(kind, self.mode()))
        if kind == 8:
            room = len(self.free[g]) - 6
            size = min(c.pick([0, 1, self.bs - 1, self.bs, self.bs * 3 + 5, self.bs * 12, self.bs * 14 + 1, c(6000)]), max(0, room) * self.bs)
            n.content = bytes((i * 7 + (i >> 9) + room) & 255 for i in range(size))
            n.size = size
            self.store(n, n.content, g)
        elif kind == 10:
            n.target = ("t/" * c(20) + "x" * (1 + c(19)) + "y" * 60)[:c.pick([1, c(59) + 1, 59, 60, 61, 90])]
            n.size = len(n.target)
            if n.size < 60:
                n.block = n.target.encode().ljust(60, b"\0")
                if c(4) == 0 and self.free[g]:
                    # extended attributes are in a block
                    n.acl = self.take(g, 1)[0]
                    n.sectors = self.bs // 512
            elif len(self.free[g]) > 4:
                self.store(n, n.target.encode(), g)
            else:
                return None
        elif kind in (2, 6):
            n.device = (c(256), c(256))
            n.block = bytes([n.device[1], n.device[0]]).ljust(60, b"\0")
        return n

    def build(self):
        c = self.c
        root = self.common(Inode(4, 0o755))
        self.inodes[2] = root
        lost = self.common(Inode(4, 0o700))
        self.inodes[11] = lost
        dirs = [(2, root, 2, [("lost+found", 11)]), (11, lost, 2, [])]
        count = 0
        for g in range(self.groups):
            for i in range(c(8)):
                if not self.numbers[g] or len(self.free[g]) < 6:
                    break
                parent = c.pick(dirs)
                number = self.numbers[g].pop(c(len(self.numbers[g])) if c(2) else 0)
                if c(4) == 0:
                    d = self.common(Inode(4, self.mode()))
                    self.inodes[number] = d
                    dirs.append((number, d, parent[0], []))
                else:
                    d = self.node(g)
                    if d is None:
                        continue
                    self.inodes[number] = d
                count += 1
                for j in range(1 if d.kind == 4 or c(5) else 2):
                    parent[3].append((c.pick(["f%u", "name of file %u", "~%u", "x%u.txt"]) % count + "b" * j, number))
        for number, d, parent, names in dirs:
            g = (number - 1) // self.ipg
            items = [(".", number), ("..", parent)] + names
            # each name in one block, holes at the end of a block
            out, line, self_names = b"", b"", []
            recs = []
            for name, k in items:
                raw = name.encode()
                need = 8 + -(-len(raw) // 4) * 4
                if c(6) == 0:
                    need += 12
                recs.append([k, self.TYPES[self.inodes[k].kind], name, need])
            blocks, cur, room = [], [], self.bs
            for r in recs:
                if r[3] > room:
                    cur[-1][3] += room
                    blocks.append(cur)
                    cur, room = [], self.bs
                cur.append(r)
                room -= r[3]
            cur[-1][3] += room
            blocks.append(cur)
            for r in recs:
                raw = r[2].encode()
                out += (struct.pack("<IHBB", r[0], r[3], len(raw), r[1]) + raw).ljust(r[3], b"\0")
            d.names = recs
            d.size = len(out)
            d.links = 2
            if len(self.free[g]) <= len(out) // self.bs + 1:
                raise AssertionError("the disk is full")
            self.store(d, out, g)

    def inode_bytes(self, n):
        raw = struct.pack("<HHIIIIIHHIII", n.mode, n.uid, n.size, n.times[0], n.times[1], n.times[2], n.times[3], n.gid, n.links, n.sectors, n.flags, 0)
        return (raw + n.block + struct.pack("<IIII", 7, n.acl, 0, 0) + bytes(12)).ljust(self.inode_size, b"\0")

    def write(self):
        c = self.c
        out = bytearray(self.blocks_count * self.bs)
        self.counts = []
        descs = b""
        for g, (bb, ib, it) in enumerate(self.desc):
            start = self.first + g * self.bpg
            n = min(self.bpg, self.blocks_count - start)
            bits = sum(1 << i for i in range(n) if start + i in self.used) | ((1 << self.bs * 8) - 1) >> n << n
            out[bb * self.bs:(bb + 1) * self.bs] = bits.to_bytes(self.bs, "little")
            reserved = range(1, 11) if g == 0 else ()
            taken = [i for i in range(self.ipg) if g * self.ipg + 1 + i in self.inodes or g * self.ipg + 1 + i in reserved]
            bits = sum(1 << i for i in taken) | ((1 << self.bs * 8) - 1) >> self.ipg << self.ipg
            out[ib * self.bs:(ib + 1) * self.bs] = bits.to_bytes(self.bs, "little")
            self.counts.append((n, sum(1 for i in range(n) if start + i not in self.used), self.ipg - len(taken), sum(1 for k, x in self.inodes.items() if (k - 1) // self.ipg == g and x.kind == 4)))
            descs += struct.pack("<IIIHHHH12x", bb, ib, it, *self.counts[-1][1:], 0)
            for i in range(self.ipg):
                node = self.inodes.get(g * self.ipg + 1 + i)
                if node:
                    at = it * self.bs + i * self.inode_size
                    out[at:at + self.inode_size] = self.inode_bytes(node)
        for b, raw in self.blocks.items():
            out[b * self.bs:(b + 1) * self.bs] = raw
        self.volume = c.pick(["", "root", "my disk"])
        self.free_blocks = sum(x[1] for x in self.counts)
        self.free_inodes = sum(x[2] for x in self.counts)
        self.uuid = bytes(c(256) for i in range(16))
        self.state, self.errors = c.pick([1, 2]), c.pick([1, 2, 3])
        sb = struct.pack("<IIIIIIIIIIIIIHHHHHHIIIIHHIHHIII16s16s64s", self.ipg * self.groups, self.blocks_count, 0, self.free_blocks, self.free_inodes, self.first, self.log, self.log, self.bpg, self.bpg,
                         self.ipg, 1165265797, 1165265798, 3, 20, 0xef53, self.state, self.errors, 0, 1165265790, 86400 * c(200), 0, 1, 0, 0, 11, self.inode_size, 0,
                         0, 2, 1, self.uuid, self.volume.encode(), b"/mnt")
        out[1024:2048] = sb.ljust(1024, b"\0")
        at = (self.first + 1) * self.bs
        out[at:at + len(descs)] = descs
        self.last = sb
        return bytes(out)


# --- NTFS
def filetime(t):
    return (t + 11644473600) * 10000000


class Record:
    """Record of the MFT: attributes are dictionaries"""

    def __init__(self, number, attrs, directory, links):
        self.number, self.attrs, self.directory, self.links = number, attrs, directory, links


class Ntfs:
    def __init__(self, numbers):
        self.c = c = Choice(numbers)
        self.sector = 512
        self.per_cluster = c.pick([1, 2, 8])
        self.cluster = self.sector * self.per_cluster
        n = 1 + c(12)
        if self.cluster > 1024:
            n = -(-n // (self.cluster // 1024)) * (self.cluster // 1024)
        self.mft = 2 + c(6)
        self.records = [self.record(i, n) for i in range(n)]
        size = n * 1024
        clusters = -(-size // self.cluster)
        out = bytearray((self.mft + clusters + 1 + c(4)) * self.cluster)
        if c(2):
            out[(self.mft + clusters) * self.cluster:] = b"\x7f\1\2\3" * (len(out) // 4 - (self.mft + clusters) * self.cluster // 4)
        self.serial = c(1 << 16) << 40 | 0x1234
        self.sectors = len(out) // 512
        boot = b"\xeb\x52\x90NTFS    " + struct.pack("<HBHBHHBHHHII", 512, self.per_cluster, 0, 0, 0, 0, 0xf8, 0, 63, 255, 0, 0)
        boot += struct.pack("<BBBBQQQB3xB3xQI", 0x80, 0, 0x80, 0, self.sectors, self.mft, self.mft + clusters, 0xf6, 1, self.serial, 0)
        out[:512] = boot.ljust(510, b"\xcc") + b"\x55\xaa"
        at = self.mft * self.cluster
        for i, r in enumerate(self.records):
            out[at + i * 1024:at + i * 1024 + 1024] = self.dump(r)
        self.data = bytes(out)

    def times(self):
        c = self.c
        return tuple(filetime(c.pick([0, 946684799, 1165265797, 2000000000 + c(1000)])) for i in range(4))

    def record(self, i, n):
        c = self.c
        attrs = [dict(type=0x10, times=self.times(), flags=c.pick([0, 1, 2, 6, 0x20, 0x27, 0x800]), short=c(3) == 0)]
        directory = bool(i) and c(4) == 0
        names = c(3) if i else 1
        for k in range(names):
            text = "$MFT" if not i else c.pick(["file%u.txt", "h\u00e9llo %u", "\u20ac%u", "LONGNA~%u.TXT", "%u"]) % i
            attrs.append(dict(type=0x30, name_text=text, space=c.pick([0, 1, 3]) if k == 0 else 2, times=self.times(), real=c(1 << 16) * c(300), parent=5 | 5 << 48))
        if i and c(6) == 0:
            attrs.append(dict(type=0x60, raw="My volume".encode("utf-16-le")))
        if not i:
            clusters = -(-n * 1024 // self.cluster)
            attrs.append(dict(type=0x80, runs=[(clusters, self.mft)], real=n * 1024))
        elif directory:
            attrs.append(dict(type=0x90, raw=bytes(range(32 + c(20))), name="$I30"))
            if c(2):
                attrs.append(dict(type=0xb0, raw=bytes([c(256) for k in range(8)]), name="$I30"))
        else:
            k = c(4)
            if k < 2:
                attrs.append(dict(type=0x80, raw=bytes((j * 3 + i) & 255 for j in range(c.pick([0, 1, 7, 8, 9, 100 + c(30)])))))
            elif k == 2:
                runs, at = [], 0
                for j in range(1 + c(4)):
                    length = c.pick([1, 127, 128, 255, 256, 70000])
                    if c(5) == 0:
                        runs.append((length, None))
                    else:
                        at = max(0, at + c.pick([5, -3, 127, 128, -128, -129, 40000, -32768, 9000000]))
                        runs.append((length, at))
                attrs.append(dict(type=0x80, runs=runs, real=max(0, sum(r[0] for r in runs) * self.cluster - c(511)), name=c.pick([None, None, "stream"])))
        return Record(i, attrs, directory, names)

    def attribute(self, a, ident):
        name = (a.get("name") or "").encode("utf-16-le")
        if "runs" in a:
            body, prev = b"", 0
            for length, at in a["runs"]:
                ln = (length.bit_length() + 8) // 8
                raw = length.to_bytes(ln, "little")
                if at is None:
                    body += bytes([ln]) + raw
                    continue
                d = at - prev
                prev = at
                on = 1
                while not -(1 << 8 * on - 1) <= d < 1 << 8 * on - 1:
                    on += 1
                body += bytes([on << 4 | ln]) + raw + d.to_bytes(on, "little", signed=True)
            body += b"\0"
            total = sum(r[0] for r in a["runs"])
            offset = 64 + -(-len(name) // 8) * 8
            head = struct.pack("<QQHHIQQQ", 0, total - 1, offset, 0, 0, total * self.cluster, a["real"], a["real"])
            raw = struct.pack("<BBHHH", 1, len(name) // 2, 64, 0, ident) + head
            raw = (raw + name).ljust(offset - 8, b"\0") + body
        else:
            t = a["type"]
            if t == 0x10:
                body = struct.pack("<4QIIII", *a["times"], a["flags"], 0, 0, 0) + (b"" if a["short"] else struct.pack("<IIQQ", 1, 2, 0, 3))
            elif t == 0x30:
                text = a["name_text"].encode("utf-16-le")
                body = struct.pack("<Q4QQQIIBB", a["parent"], *a["times"], -(-a["real"] // 512) * 512, a["real"], 0x20, 0, len(text) // 2, a["space"]) + text
            else:
                body = a["raw"]
            offset = 24 + -(-len(name) // 8) * 8
            raw = struct.pack("<BBHHH", 0, len(name) // 2, 24, 0, ident) + struct.pack("<IHBB", len(body), offset, 0, 0)
            raw = (raw + name).ljust(offset - 8, b"\0") + body
        raw = raw.ljust(-(-len(raw) // 8) * 8, b"\0")
        return struct.pack("<II", a["type"], len(raw) + 8) + raw

    def dump(self, r):
        attrs = b"".join(self.attribute(a, i) for i, a in enumerate(r.attrs))
        while len(attrs) > 450:
            r.attrs.pop()
            attrs = b"".join(self.attribute(a, i) for i, a in enumerate(r.attrs))
        used = 56 + len(attrs) + 8
        head = b"FILE" + struct.pack("<HHQHHHHIIQHHI", 48, 3, 77, 1, r.links, 56, 1 | r.directory << 1, used, 1024, 0, len(r.attrs), 0, r.number)
        raw = bytearray((head + struct.pack("<HHH", 5, 0, 0) + b"\0\0" + attrs + b"\xff\xff\xff\xff\0\0\0\0").ljust(1024, b"\0"))
        raw[510:512] = raw[1022:1024] = b"\5\0"
        return bytes(raw)
