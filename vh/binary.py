"""The struct module, with "T": an unsigned number of 24 bits; a note may follow the format after "#" (see checks/c39.py)"""
import re
import struct
from struct import calcsize as _calcsize
from struct import error, iter_unpack, unpack, unpack_from  # noqa: F401


def calcsize(fmt):
    return _calcsize(fmt.replace("T", "3s"))


def pack(fmt, *args):
    fmt = fmt.split("#")[0]
    if "T" not in fmt:
        return struct.pack(fmt, *args)
    args = list(args)
    k = 0
    for n, code in re.findall(r"(\d*)([a-zA-Z])", fmt):
        if code == "x":
            continue
        if code == "s":
            k += 1
            continue
        for _ in range(int(n or 1)):
            if code == "T":
                args[k] = args[k].to_bytes(3, "big" if fmt[0] in ">!" else "little")
            k += 1
    return struct.pack(re.sub("(\\d*)T", lambda m: "3s" * int(m[1] or 1), fmt), *args)
