"""C35: disks and file systems give the partitions, directories and files they hold."""
import datetime
import stat

from hypothesis import strategies as st

from vh import repo  # noqa: F401
from vh import facts, filesystems as fs
from vh.core import Suite, ensure, eq
from hachoir.parser import guessParser
from hachoir.stream import StringInputStream

suite = Suite("C35", rule="a case is a disk written from generated partitions or files; non-trivial when a file has several fragments or a directory is nested")
NUMBERS = st.lists(st.integers(0, 1 << 16), min_size=8, max_size=70)


def opened(name, data):
    r = facts.BY_ID[name](StringInputStream(data), validate=True)
    return r


# --- FAT
def shown_date(d, tenms=None):
    if d is None:
        return "None"
    if tenms is None:
        return str(datetime.date(*d[:3]))
    return str(datetime.datetime(*d) + datetime.timedelta(milliseconds=10 * tenms))


def fat_content(link, where, size, disk):
    """Content of a file, by its fragments and by its stream"""
    first = link.value
    ensure(first is not None, "%s: the file isn't found", where)
    parts, addresses = [], []
    node = first
    while node is not None:
        parts.append(node["data"].value)
        addresses += range(node.absolute_address // 8, (node.absolute_address + node.size) // 8, disk.cluster)
        node = node.next
        ensure(len(parts) < 200, "%s: loop", where)
    stream = first.getSubIStream()
    ensure(stream.sizeGe(8 * size) and not stream.sizeGe(8 * size + 1), "%s: size of the stream", where)
    return b"".join(parts), addresses, stream.readBytes(0, size), stream


def fat_entries(disk, where):
    out, node = [], disk
    while node is not None:
        out += list(node.array("entry"))
        node = node.next
        ensure(len(out) < 9999, "%s: loop", where)
    return out


def check_dir(got, entries, disk, where, rec):
    eq([len(got) >= len(entries)], [True], where + ": number of entries")
    for g, e in zip(got, entries):
        at = "%s/%s" % (where, e.name or e.long)
        if e.kind == "long":
            want = e.long.encode("latin-1", "backslashreplace").decode("latin-1")
            eq(g.description, "Long filename part: '%s' [%u]" % (want, e.seq), at)
            continue
        if e.kind == "deleted":
            eq(g.description, "Deleted file", at)
            continue
        name = e.name
        eq((g["name"].value, g["ext"].value), (name if name[0] != "\xe5" else "\x05" + name[1:], e.ext), at + ": name")
        full = name.replace("\xe5", "\\xe5") + ("." + e.ext if e.ext else "") + ("/" if e.attr & 16 else "")
        eq(g.description, "File: '%s'" % full, at)
        eq([g[x].value for x in ("read_only", "hidden", "system", "volume_label", "directory", "archive")], [bool(e.attr >> i & 1) for i in range(6)], at + ": attributes")
        eq(g["create"].description, shown_date(e.create, e.tenms), at + ": creation")
        eq(g["modify"].description, shown_date(e.modify, 0), at + ": modification")
        eq(g["access"].description, shown_date(e.access), at + ": access")
        eq(g.getCluster(), e.clusters[0] if e.clusters else 0, at + ": cluster")
        eq(g["size"].value, len(e.content or b""), at + ": size")
        if e.kind == "file" and e.content:
            data, addresses, whole, stream = fat_content(g["data"], at, len(e.content), disk)
            eq(addresses, [disk.data_start + (x - 2) * disk.cluster for x in e.clusters], at + ": address of the clusters")
            ensure(data == e.content, "%s: content of the fragments: %u bytes, want %u", at, len(data), len(e.content))
            ensure(whole == e.content, "%s: content of the stream: %u bytes, want %u", at, len(whole), len(e.content))
            rec.label("fragmented file", any(b != a + 1 for a, b in zip(e.clusters, e.clusters[1:])))
            rec.label("contiguous file", len(e.clusters) > 1 and all(b == a + 1 for a, b in zip(e.clusters, e.clusters[1:])))
        elif e.kind == "dir":
            first = g["data"].value
            ensure(first is not None, "%s: the directory isn't found", at)
            rec.label("directory")
            rec.label("directory of several clusters", len(e.clusters) > 1)
            check_dir(fat_entries(first, at), e.entries, disk, at, rec)
        else:
            ensure("data" not in g, "%s has data", at)
    for g in got[len(entries):]:
        eq(g.description, "Free entry", where + ": after the last entry")


@suite.sub("fat", st.tuples(NUMBERS, st.sampled_from([12, 16, 32]), st.booleans()), 600, thorough=12000)
def fat_files(case, rec):
    numbers, version, before = case
    disk = fs.Fat(numbers, version)
    p = opened("fat%u" % version, disk.data)
    if before:
        len(list(p))
    boot = p["boot"]
    eq((boot["label"].value, boot["serial"].value, boot["sector_size"].value, boot["cluster_size"].value), (disk.label, disk.serial, disk.sector, disk.per_cluster), "boot")
    if version == 32:
        eq((p["fsinfo/lead_sig"].value, p["fsinfo"].address), ("RRaA", disk.sector * 8), "information sector")
        if disk.copy():
            eq((p["bkboot/serial"].value, p["bkboot"].address), (disk.serial, disk.sector * 8 * disk.copy()), "boot copy")
    for i in range(disk.fats):
        t = p["fat[%u]" % i]
        eq(t.size, disk.fat_size * disk.sector * 8, "size of a table")
        for n, x in enumerate(disk.entries[:40]):
            f = t["entry[%u]" % n]
            top = 1 << min(28, version)
            eq(f.value, x, "entry %u" % n)
            want = "reserved cluster" if x == 1 else "free cluster" if x == 0 else "end of a chain" if x >= top - 8 else "bad cluster" if x == top - 9 else str(x)
            eq(f.display, want, "entry %u" % n)
    if version == 32:
        first = p["root[0]"] if "root[0]" in p else p["root"].value
        eq(first.address // 8, disk.data_start + (disk.root_cluster - 2) * disk.cluster, "address of the root")
        got = fat_entries(first, "root")
    else:
        first = p["root[0]"]
        eq((first.size, first.address + first.size), (disk.max_root * 32 * 8, disk.data_start * 8), "root directory")
        got = list(first.array("entry"))
    check_dir(got, disk.root, disk, "root", rec)
    end = 0
    for f in p:
        eq(f.address, end, "address of " + f.name)
        end += f.size
    eq(end, len(disk.data) * 8, "end")
    rec.nt(any(x.kind == "dir" for x in disk.root) or any(len(x.clusters) > 1 for x in disk.root))


# --- partitions
@suite.sub("mbr", NUMBERS, 900, thorough=20000)
def partitions(numbers, rec):
    disk = fs.Mbr(numbers)
    p = opened("msdos_harddrive", disk.data)
    eq(p["mbr/signature"].value, 0xaa55, "signature")
    parts = {x[0]: x for x in disk.parts}
    for s in range(4):
        h = p["mbr/header[%u]" % s]
        ensure(h.isUsed() == (s in parts), "header %u is %s", s, h.isUsed())
        if s not in parts:
            continue
        _, boot, kind, start, size, logical = parts[s]
        names = "bootable start_head start_sector start_cylinder system end_head end_sector end_cylinder LBA size".split()
        c = disk.heads[s]
        eq([h[x].value for x in names], [boot, c[0], c[1], c[2], kind, c[3], c[4], c[5], start, size], "header %u" % s)
        f = p["partition[%u]" % s]
        eq((f.address, f.size), (start * 4096, size * 4096), "partition %u" % s)
        raw = disk.data[start * 512:(start + size) * 512]
        if logical is None:
            eq(f.value, raw, "content of the partition %u" % s)
            continue
        found = []
        leaves(f, found)
        want = [((start + at) * 4096, n * 4096) for kind, at, n, ebr in logical]
        eq(found, want, "logical partitions of %u" % s)
        rec.label("%u logical partitions" % len(want))
        rec.nt(len(want) > 1)
    eq([f.name for f in p if f.name.startswith("partition")], ["partition[%u]" % x[0] for x in sorted(disk.parts, key=lambda x: x[3])], "partitions")
    eq(sum(f.size for f in p), len(disk.data) * 8, "size")
    rec.nt(len(parts) > 1)


def leaves(f, out):
    """Partitions without others"""
    for x in f:
        if x.name.startswith("partition"):
            if x.is_field_set:
                leaves(x, out)
            else:
                out.append((x.absolute_address, x.size))


# --- Linux swap
@suite.sub("swap", NUMBERS, 300, thorough=4000)
def linux_swap(numbers, rec):
    s = fs.swap(numbers)
    p = opened("linux_swap", s["data"])
    eq((p["version"].value, p["last_page"].value, p["nb_badpage"].value, p["magic"].value), (1, s["pages"], len(s["bad"]), s["magic"].decode()), "header")
    hexa = s["uuid"].hex()
    eq((p["sws_uuid"].value, p["sws_uuid"].display), (s["uuid"], "-".join([hexa[:8], hexa[8:12], hexa[12:16], hexa[16:20], hexa[20:]])), "identifier")
    if s["bad"]:
        eq([x.value for x in p["badpages"]], s["bad"], "bad pages")
    kind = {b"SWAP-SPACE": "Linux swap file version 1", b"SWAPSPACE2": "Linux swap file version 2", b"S1SUSPEND\0": "Suspend swap file version 1"}[s["magic"]]
    eq(p.description.split(",")[0], kind, "description")
    eq(p.description.split(", ")[2], "%u pages" % (s["pages"] - len(s["bad"]) - 1), "description")
    pages = list(p["pages"])
    eq([x.value for x in pages], [s["data"][4096 * i:4096 * i + 4096] for i in range(1, s["pages"] + 1)], "pages")
    eq(sum(f.size for f in p), len(s["data"]) * 8, "size")
    rec.nt(bool(s["bad"]))


# --- ext2
def when(t):
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)


@suite.sub("ext2", NUMBERS, 250, thorough=5000)
def ext2_files(numbers, rec):
    try:
        disk = fs.Ext2(numbers)
    except AssertionError:
        return
    p = opened("ext2", disk.data)
    sb = p["superblock"]
    eq([sb[x].value for x in ("inodes_count", "blocks_count", "free_blocks_count", "free_inodes_count", "blocks_per_group", "inodes_per_group", "inode_size", "volume_name", "last_mounted")],
       [disk.ipg * disk.groups, disk.blocks_count, disk.free_blocks, disk.free_inodes, disk.bpg, disk.ipg, disk.inode_size, disk.volume, "/mnt"], "superblock")
    eq((sb["uuid"].value, sb["feature_incompat/filetype"].value, sb["feature_ro_compat/sparse_super"].value, sb["feature_compat/has_journal"].value), (disk.uuid, True, True, False), "superblock")
    eq((sb.address, sb.size, sum(f.size for f in sb)), (8192, 8192, 8192), "superblock")
    eq(sb.group_count, disk.groups, "number of groups")
    used = disk.blocks_count - disk.free_blocks
    sizes = p.description.split("file system: ")[1]
    from hachoir.core.tools import humanFilesize
    eq(sizes, "total=%s, used=%s, block=%s" % tuple(humanFilesize(x * disk.bs) for x in (disk.blocks_count, used, 1)), "description")
    descs = p["group_desc"].array("group")
    eq(len(descs), disk.groups, "number of descriptors")
    for g in range(disk.groups):
        at = "group %u" % g
        n, free_blocks, free_inodes, dirs = disk.counts[g]
        eq([descs[g][x].value for x in ("block_bitmap", "inode_bitmap", "inode_table", "free_blocks_count", "free_inodes_count", "used_dirs_count")],
           list(disk.desc[g]) + [free_blocks, free_inodes, dirs], at)
        group = p["group[%u]" % g]
        bitmap = group["block_bitmap"]
        start = disk.first + g * disk.bpg
        eq([bitmap["item[%u]" % i].value for i in range(n)], [start + i in disk.used for i in range(n)], at + ": blocks in use")
        eq(bitmap["item[0]"].description, "Block %u" % start, at)
        ensure("item[%u]" % n not in bitmap, "%s: more than %u blocks", at, n)
        base = g * disk.ipg + 1
        bits = [x.value for x in group["inode_bitmap"].array("item")]
        eq(bits, [base + i in disk.inodes or base + i <= 10 for i in range(disk.ipg)], at + ": inodes in use")
        eq(bitmap.absolute_address, disk.desc[g][0] * disk.bs * 8, at + ": bitmap")
        eq(group["inode_table"].absolute_address, disk.desc[g][2] * disk.bs * 8, at + ": inodes")
        for i in range(disk.ipg):
            if base + i in disk.inodes:
                check_inode(group, i, base + i, disk.inodes[base + i], disk, rec)
    rec.label("%u groups" % disk.groups)
    rec.nt(len(disk.inodes) > 4)


def check_inode(group, i, number, n, disk, rec):
    at = "inode %u" % number
    f = group["inode_table/inode[%u]" % i]
    eq((f.uniq_id, f.size), (number, disk.inode_size * 8), at)
    eq([f[x].value for x in ("uid", "gid", "size", "links_count", "blocks", "file_acl")], [n.uid, n.gid, n.size, n.links, n.sectors, n.acl], at)
    eq([f[x].value for x in ("atime", "ctime", "mtime", "dtime")], [when(t) for t in n.times], at + ": times")
    eq(f["mode"].display, stat.filemode(n.mode), at + ": mode")
    if number > 11:
        kind = {1: "Fifo", 2: "Character device", 4: "Directory", 6: "Block device", 8: "Regular", 10: "Symbolic link", 12: "Socket"}[n.kind]
        if n.device:
            kind += " (%d,%d)" % n.device
        if n.target and len(n.target) < 60:
            kind += " (-> %s)" % n.target
        ensure(f.description.startswith("Inode %u: %s, size=" % (number, kind)) and f.description.endswith("mode=" + stat.filemode(n.mode)), "%s: description %r", at, f.description)
        rec.label(kind.split(" (")[0])
    if n.device:
        eq((f["dev_major"].value, f["dev_minor"].value), n.device, at + ": device")
    elif n.target and len(n.target) < 60:
        eq(f["link_target"].value, n.target, at + ": target")
    parts = group.array("inode[%u]block" % i)
    eq(len(parts), len(n.blocks), at + ": number of blocks")
    eq([x.absolute_address for x in parts], [b * disk.bs * 8 for b in n.blocks], at + ": blocks")
    raw = b"".join(disk.blocks[b] for b in n.blocks)
    eq(b"".join(x.value for x in parts), raw, at + ": content")
    if n.blocks:
        stream = parts[0].getSubIStream()
        ensure(stream.readBytes(0, len(raw)) == raw and not stream.sizeGe(8 * len(raw) + 1), "%s: stream of the content", at)
    rec.label("indirect block", len(n.blocks) > 12)
    if n.names:
        d = guessParser(stream)
        ensure(d is not None, "%s: no parser of the directory", at)
        got = list(d)
        rec.label("directory of several blocks", len(n.blocks) > 1)
        eq([(x["inode"].value, x["file_type"].value, x["name"].value, x["rec_len"].value, x.size) for x in got], [(a, b, c, e, e * 8) for a, b, c, e in n.names], at + ": names")


# --- NTFS
DOS_NAMES = ["directory", "read_only", "compressed", "hidden", "system", "normal", "device", "temporary", "archive"]
DOS_BITS = dict(read_only=1, hidden=2, system=4, directory=16, archive=32, device=64, normal=128, temporary=256, compressed=0x800)


def dos_text(flags):
    return ", ".join(x for x in DOS_NAMES if flags & DOS_BITS[x]) or "(none)"


def nt_time(t):
    return datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds=t // 10)


@suite.sub("ntfs", NUMBERS, 400, thorough=8000)
def ntfs_files(numbers, rec):
    disk = fs.Ntfs(numbers)
    p = opened("ntfs", disk.data)
    mbr = p["mbr"]
    eq([mbr[x].value for x in ("nb_sectors", "mft_cluster", "serial_number", "name")], [disk.sectors, disk.mft, disk.serial, "NTFS    "], "boot")
    files = p.array("file")
    eq(len(files), len(disk.records), "number of files")
    ensure("Unused" not in [f.name for f in p], "fields")
    for f, r in zip(files, disk.records):
        at = "record %u" % r.number
        eq((f.address, f.size), ((disk.mft * disk.cluster + r.number * 1024) * 8, 8192), at)
        eq([f[x].value for x in ("mft_record_number", "flags/in_use", "flags/is_directory", "link_count", "usa_number")], [r.number, True, r.directory, r.links, 5], at)
        eq([x.value for x in f.array("usa_value")], [0, 0], at + ": update sequence")
        got = [x for x in f if x.is_field_set and "attribute_id" in x]
        eq([x["attribute_id"].value for x in got], list(range(len(r.attrs))), at + ": attributes")
        eq(f["attr_end_marker"].address // 8, 56 + sum(x.size for x in got) // 8, at + ": end")
        for g, a in zip(got, r.attrs):
            check_attribute(g, a, disk, "%s, attribute 0x%x" % (at, a["type"]), rec)
        names = [a for a in r.attrs if a["type"] == 0x30]
        flags = r.attrs[0]["flags"]
        best = next((a for a in names if a["space"] in (1, 3)), names[-1] if names else None)
        text = f.description
        ensure(text.startswith("File") and text.endswith(", " + dos_text(flags)), "%s: description %r", at, text)
        if best and best["name_text"].isascii():
            ensure(text.startswith('File "%s" (' % best["name_text"]), "%s: description %r, name %r", at, text, best["name_text"])
        rec.nt(len(r.attrs) > 2 and r.number)
    eq(sum(f.size for f in p), len(disk.data) * 8, "size")


def check_attribute(g, a, disk, at, rec):
    eq((g["type"].value, g["non_resident"].value), (a["type"], int("runs" in a)), at)
    if a.get("name"):
        eq(g["name"].value, a["name"], at + ": name")
    else:
        ensure("name" not in g, "%s has a name", at)
    if "runs" in a:
        want, last = [], 0
        for n, x in a["runs"]:
            last = last if x is None else x
            want.append((n, last))
        eq(g["runlist"].value, want, at + ": runs")
        eq((g["size_actual"].value, g["runlist_stop"].value), (a["real"], sum(x[0] for x in want) - 1), at + ": size")
        rec.label("runs")
        return
    if a["type"] == 0x10:
        eq([g[x].value for x in ("ctime", "atime", "mtime", "rtime")], [nt_time(t) for t in a["times"]], at + ": times")
        eq(g["file_attr"].value, dos_text(a["flags"]), at + ": DOS attributes")
        if a["short"]:
            ensure("usn" not in g, "%s has no update number", at)
        else:
            eq((g["owner_id"].value, g["security_id"].value, g["usn"].value), (1, 2, 3), at)
    elif a["type"] == 0x30:
        eq([g[x].value for x in ("ctime", "atime", "mtime", "rtime")], [nt_time(t) for t in a["times"]], at + ": times")
        eq((g["filename"].value, g["filename_namespace"].value, g["real_size"].value, g["ref"].value), (a["name_text"], a["space"], a["real"], a["parent"]), at)
    elif a["type"] == 0xb0:
        eq([x.value for x in g.array("bit")], [bool(b >> i & 1) for b in a["raw"] for i in range(8)], at + ": bits")
    elif a["raw"]:
        eq(g["data"].value, a["raw"], at + ": data")
        rec.label("resident data", a["type"] == 0x80)
    else:
        ensure("data" not in g, "%s has data", at)
