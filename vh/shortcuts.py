"""Generated shortcuts of Windows (see media.py), after [MS-SHLLINK]."""
import datetime
import uuid

from hypothesis import strategies as st

from vh import binary as struct
from vh.media import SEED, Media
from vh.programs import Rng, kind

FOLDERS = {0: "DESKTOP", 2: "PROGRAMS", 5: "PERSONAL", 7: "STARTUP", 17: "DRIVES", 20: "FONTS", 26: "APPDATA", 36: "WINDOWS", 37: "SYSTEM", 40: "PROFILE", 61: "COMPUTERSNEARME"}
HOT = {0: "None", 0x30: "0", 0x39: "9", 0x41: "A", 0x5a: "Z", 0x70: "F1", 0x87: "F24", 0x90: "Num Lock", 0x60: "Numpad 0", 0x69: "Numpad 9", 0x21: "Page Up", 0x28: "Down"}
SHOW = {1: "Show Normal", 3: "Show Maximized", 7: "Show Minimized, not activated"}
DRIVES = {1: "No root directory", 2: "Removable (Floppy, Zip, etc.)", 3: "Fixed (Hard disk)", 4: "Remote (Network drive)", 5: "CD-ROM", 6: "Ram drive"}


class Maker:
    def __init__(self, seed, wide):
        self.r = Rng(seed)
        self.wide = wide
        self.values, self.told, self.shown = {}, {}, {}

    def guid(self, path):
        data = self.r.randbytes(16)
        data = data[:7] + bytes([data[7] & 0xf | 0x40, data[8] & 0x3f | 0x80]) + data[9:]
        self.values[path] = str(uuid.UUID(bytes_le=data)).upper()
        return data

    def date(self, path):
        """A date of MS-DOS"""
        r = self.r
        d = datetime.datetime(r.randint(1980, 2107), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 29) * 2)
        self.values[path] = d
        return struct.pack("<HH", d.year - 1980 << 9 | d.month << 5 | d.day, d.hour << 11 | d.minute << 5 | d.second // 2)

    def filetime(self, path):
        d = datetime.datetime(1601, 1, 1) + datetime.timedelta(seconds=self.r.randint(10**9, 16 * 10**9), microseconds=self.r.u(19))
        self.values[path] = d
        delta = d - datetime.datetime(1601, 1, 1)
        return struct.pack("<Q", (delta.days * 86400 + delta.seconds) * 10**7 + delta.microseconds * 10)

    def text(self, path, most=12):
        text = self.r.word(most)
        self.values[path] = text
        return text.encode() + b"\0"

    def wide_text(self, path):
        text = self.r.word() + self.r.one("", "\xe9", "\u4e2d")
        self.values[path] = text
        return text.encode("utf-16-le") + b"\0\0"

    def counted(self, path):
        text = self.r.word() + (self.r.one("", "\xe9", "\u4e2d") if self.wide else "")
        self.values[path + "/data"] = text
        return struct.pack("<H", len(text)) + text.encode("utf-16-le" if self.wide else "ascii")

    def item(self, path):
        r = self.r
        what = r.one(0x1f, 0x70, 0x2e, 0x2e, 0x2f, 0x23, 0x31, 0x32, 0x32, 0x41, 0x42, 0x46, 0x47, 0xc3, 0x99)
        if what in (0x1f, 0x70):
            out = b"\x50" + self.guid(path + "/guid")
        elif what == 0x2e:
            out = b"\x50" + self.guid(path + "/guid")
            if r.one(0, 1):
                data = r.raw(r.one(0, 7))
                out = b"\0" + struct.pack("<H", len(data)) + data + self.guid(path + "/handler_guid") + out[1:]
                out = out[:-16] + self.guid(path + "/guid")
        elif what in (0x2f, 0x23):
            out = b"C:\\" + bytes(19)
            self.values[path + "/drive"] = "C:\\"
        elif what in (0x31, 0x32):
            n = r.u(6) & ~8
            self.values.update({path + "/attribs/" + name: bool(n >> i & 1) for i, name in enumerate(["read_only", "hidden", "system", None, "directory", "archive"]) if name})
            out = b"\0" + struct.pack("<I", r.u(32)) + self.date(path + "/date_time") + struct.pack("<H", n) + self.text(path + "/name")
            if self.wide:
                out += bytes((3 + len(out)) % 2)
                start = len(out)
                create, access, name = self.date(path + "/creation_date_time"), self.date(path + "/access_date_time"), self.wide_text(path + "/unicode_name")
                local = self.text(path + "/localized_name") if r.one(0, 1) else b""
                out += struct.pack("<H", 22 + len(name) + len(local)) + b"\3\0\4\0\xef\xbe" + create + access + b"\0\0" + struct.pack("<H", len(name) if local else 0) + name + local
                out += struct.pack("<H", start + 3)
            else:
                out += self.text(path + "/name_short", 8)
        elif what in (0x41, 0x42, 0x46):
            out = r.raw(2) + self.text(path + "/name") + self.text(path + "/protocol") + r.raw(2)
        elif what == 0x47:
            out = r.raw(2) + self.text(path + "/name")
        elif what == 0xc3:
            out = r.raw(2) + self.text(path + "/name") + self.text(path + "/protocol") + self.text(path + "/description") + r.raw(2)
        else:
            out = r.raw(r.one(1, 9))
        self.values[path + "/type"] = what
        return struct.pack("<HB", 3 + len(out), what) + out

    def items(self):
        parts = [self.item("/item_idlist/itemid[%u]" % i) for i in range(self.r.randint(0, 4))]
        self.told["/item_idlist/itemid[%u]" % len(parts)] = "End of Item ID List"
        return struct.pack("<H", sum(map(len, parts)) + 2) + b"".join(parts) + b"\0\0"

    def volume(self, path):
        r = self.r
        kind, serial = r.choice(sorted(DRIVES)), r.u(32)
        self.shown[path + "/volume_type"] = DRIVES[kind]
        self.shown[path + "/volume_serial"] = "%04X-%04X" % (serial >> 16, serial & 0xffff)
        label = self.text(path + "/drive")
        return struct.pack("<IIII", 16 + len(label), kind, serial, 16) + label

    def network(self, path):
        r = self.r
        share = self.text(path + "/share_name")
        return struct.pack("<IIIII", 20 + len(share), 2, 20, 0, r.one(0x1a0000, 0x3d0000)) + share

    def location(self):
        r = self.r
        path = "/file_location_info"
        local, net, wide = r.one(0, 1), r.one(0, 1), r.one(0, 1)
        head = 0x24 if wide else 0x1c
        parts = []
        if local:
            parts += [("volume", self.volume(path + "/local_volume_table")), ("base", self.text(path + "/local_base_pathname"))]
        if net:
            parts.append(("net", self.network(path + "/network_volume_table")))
        parts.append(("suffix", self.text(path + "/final_pathname")))
        if wide and local:
            parts.append(("base_w", self.wide_text(path + "/local_base_pathname_unicode")))
        if wide:
            parts.append(("suffix_w", self.wide_text(path + "/final_pathname_unicode")))
        at, pos = {}, head
        for name, data in parts:
            at[name] = pos
            pos += len(data)
        self.values[path + "/on_local_volume"] = bool(local)
        self.values[path + "/on_network_volume"] = bool(net)
        places = [at.get(n, 0) for n in ("volume", "base", "net", "suffix")] + ([at.get("base_w", 0), at["suffix_w"]] if wide else [])
        return struct.pack("<III%uI" % len(places), pos, head, local | net << 1, *places) + b"".join(data for _, data in parts)

    def paths(self, path, name):
        data = self.text(path + "/" + name)
        self_w = self.wide_text(path + "/" + name + "_unicode")
        return data.ljust(260, b"\0") + self_w.ljust(520, b"\0")

    def console(self, path):
        r = self.r
        colors = [r.randbytes(3) for _ in range(16)]
        n = [r.u(4) for _ in range(4)]
        for i, name in enumerate(["color_text", "color_bg", "color_popup_text", "color_popup_bg"]):
            self.values[path + "/" + name] = n[i]
            self.told[path + "/" + name] = ["Screen text", "Screen background", "Pop-up text", "Pop-up background"][i] + " color index: RGB Color: #" + colors[n[i]].hex().upper()
        flags = [r.u(1) for _ in range(4)]
        for name, b in zip(["full_screen", "quick_edit", "insert_mode", "auto_position"], flags):
            self.shown[path + "/" + name] = ["False", "True"][b]
        face = r.word()
        self.values[path + "/font_name_unicode"] = face
        out = struct.pack("<BxBxHHHHHH", n[0] | n[1] << 4, n[2] | n[3] << 4, *[r.u(15) for _ in range(6)])
        out += struct.pack("<IIHHII", r.u(32), r.u(32), r.u(16), r.u(16), r.u(32), r.u(32))
        out += face.encode("utf-16-le").ljust(64, b"\0") + struct.pack("<IIIIIIII", r.u(32), *flags, r.u(32), r.u(32), r.u(1))
        return out + b"".join(c + b"\0" for c in colors)

    def extra(self, i):
        r = self.r
        path = "/extra_info[%u]" % i
        n, data = r.one((1, lambda: self.paths(path, "target")), (6, lambda: self.paths(path, "darwinID")), (7, lambda: self.paths(path, "icon_path")), (2, lambda: self.console(path)),
                        (3, lambda: struct.pack("<II", 0x58, 0) + self.host(path) + r.randbytes(64)), (4, lambda: struct.pack("<I", r.one(437, 850, 1252, 65001))),
                        (5, lambda: self.folder(path)), (9, lambda: r.raw(4)), (11, lambda: r.randbytes(20)))
        data = data()
        text = {1: "Link Target Information", 2: "Console Window Properties", 3: "Hostname and Other Stuff", 4: "Console Codepage Information", 5: "Special Folder Info",
                6: "DarwinID (Windows Installer ID) Information", 7: "Custom Icon Details"}.get(n, "0xa%07x" % n)
        self.told[path] = "Extra Info Entry: " + text
        return struct.pack("<II", 8 + len(data), 0xa0000000 + n) + data

    def host(self, path):
        name = self.r.word(15)
        self.values[path + "/hostname"] = name
        return name.encode().ljust(16, b"\0")

    def folder(self, path):
        n = self.r.choice(sorted(FOLDERS))
        self.shown[path + "/special_folder_id"] = FOLDERS[n]
        return struct.pack("<II", n, self.r.u(32))


@kind("lnk", st.tuples(st.booleans(), st.integers(0, 127), st.integers(0, 3), SEED))
def lnk(p):
    wide, parts, extras, seed = p
    make = Maker(seed, wide)
    r = make.r
    flags = parts | wide << 7 | r.u(10) << 8
    for i, name in enumerate(["has_shell_id", "target_is_file", "has_description", "has_rel_path", "has_working_dir", "has_cmd_line_args", "has_custom_icon", "has_unicode_names"]):
        make.values["/" + name] = bool(flags >> i & 1)
    attributes = r.u(6) & ~8
    key, show, held = r.choice(sorted(HOT)), r.choice(sorted(SHOW)), r.u(3)
    make.shown["/hot_key"], make.shown["/show_window"] = HOT[key], SHOW[show]
    make.values.update({"/hot_key_" + name: bool(held >> i & 1) for i, name in enumerate(["shift", "ctrl", "alt"])})
    head = struct.pack("<I", 0x4c) + uuid.UUID("00021401-0000-0000-C000-000000000046").bytes_le + struct.pack("<II", flags, attributes)
    head += make.filetime("/creation_time") + make.filetime("/last_access_time") + make.filetime("/modification_time")
    head += struct.pack("<IiIBTQ", r.u(32), r.one(0, r.s(16), r.u(31)), show, key, held, 0)
    if parts & 1:
        head += make.items()
    if parts & 2:
        head += make.location()
    for i, name in enumerate(["description", "relative_path", "working_dir", "cmd_line_args", "custom_icon"]):
        if parts & 4 << i:
            head += make.counted("/" + name)
    for i in range(extras):
        head += make.extra(i)
    make.told["/extra_info[%u]" % extras] = "End of Extra Info"
    m = Media("lnk", "lnk", head + bytes(4), ".lnk")
    m.values, m.told, m.shown = make.values, make.told, make.shown
    return m
