"""Stream specifications: plain-data descriptions of composed input streams, how to
build the real stream, and the bytes/bit-range each one stands for."""
import errno
import io
import os
import tempfile

from hypothesis import strategies as st

from vh import repo  # noqa: F401
from hachoir.core.endian import BIG_ENDIAN
from hachoir.field import Fragment, Parser
from hachoir.stream import (ConcatStream, FileInputStream, InputIOStream, InputSubStream,
                            StringInputStream)
import hachoir.stream.input as hinput

PIPE_BS = getattr(hinput.InputPipe, "buffer_size", 16)
PIPE_NB = getattr(hinput.InputPipe, "buffer_nb_min", 256)


def expand(d):
    """Data descriptions: bytes, or ('rep', unit, total_length)."""
    if isinstance(d, bytes):
        return d
    _, unit, n = d
    return (unit * (n // len(unit) + 1))[:n]


def small_data(min_size=1, max_size=40):
    return st.binary(min_size=min_size, max_size=max_size)


def rep_data(max_len):
    return st.tuples(st.just("rep"), st.binary(min_size=1, max_size=24), st.integers(1, max_len))


class NoSeek:
    """A readable object without seek()."""

    def __init__(self, data):
        self._f = io.BytesIO(data)

    def read(self, n):
        return self._f.read(n)

    def close(self):
        self._f.close()


class EspipeSeek(NoSeek):
    """A pipe: seek() exists but fails with ESPIPE."""

    def seek(self, *args):
        raise IOError(errno.ESPIPE, "Illegal seek")

    def tell(self):
        raise IOError(errno.ESPIPE, "Illegal seek")


def build_frag(parent, sizes, order):
    """A FragmentedStream over `parent`, read in the given order."""
    class P(Parser):
        endian = BIG_ENDIAN

        def createFields(self):
            pos = {idx: k for k, idx in enumerate(order)}
            for i, n in enumerate(sizes):
                f = Fragment(self, "frag%d" % i, size=n * 8)
                k = pos.get(i)
                nxt = None
                first = None
                if k is not None:
                    if k + 1 < len(order):
                        nxt = (lambda idx: lambda: self["frag%d" % idx])(order[k + 1])
                    if k > 0 and order[0] < i:
                        first = self["frag%d" % order[0]]
                f.setLinks(first, nxt)
                yield f
    p = P(parent)
    s = p["frag%d" % order[0]].getSubIStream()
    s._keep = p         # the parser has to outlive the stream
    return s


class Built:
    """A real stream and its model: `data`/`off`/`nbits` (bit range of data)."""

    def __init__(self, stream, data, off, nbits, pipes, unknown, cleanup, kind, leaf=None):
        self.stream = stream
        self.data = data
        self.off = off
        self.nbits = nbits
        self.pipes = pipes          # list of block limits of the pipes below
        self.unknown = unknown      # size not known when created
        self.cleanup = cleanup
        self.kind = kind

    def bits(self, addr, n, endian):
        a = self.off + addr
        lo, hi = a // 8, (a + n + 7) // 8
        raw = self.data[lo:hi]
        shift = a - lo * 8
        if endian == ">":
            return (int.from_bytes(raw, "big") >> (len(raw) * 8 - shift - n)) & ((1 << n) - 1)
        return (int.from_bytes(raw, "little") >> shift) & ((1 << n) - 1)

    def middle(self, addr, n):
        """Byte-aligned streams only: words of 16 bits, each little-endian, most significant first."""
        w0 = addr // 16
        w1 = (addr + n + 15) // 16
        base = self.off // 8
        v = 0
        for w in range(w0, w1):
            b = self.data[base + 2 * w: base + 2 * w + 2]
            v = v << 16 | b[0] | b[1] << 8
        tot = (w1 - w0) * 16
        return (v >> (tot - (addr - w0 * 16) - n)) & ((1 << n) - 1)

    def middle_ok(self, addr, n):
        return self.off % 8 == 0 and (addr + n + 15) // 16 * 16 <= self.nbits

    def bytes(self):
        """The content, for byte-aligned streams."""
        assert self.off % 8 == 0 and self.nbits % 8 == 0
        return self.data[self.off // 8:(self.off + self.nbits) // 8]

    def close(self):
        for c in self.cleanup:
            c()


class set_pipe_params:
    """Small pipe buffers, so that a few bytes already span many blocks."""

    def __init__(self, bs, nb):
        self.bs, self.nb = bs, nb

    def __enter__(self):
        hinput.InputPipe.buffer_size = self.bs
        hinput.InputPipe.buffer_nb_min = self.nb

    def __exit__(self, *a):
        hinput.InputPipe.buffer_size = PIPE_BS
        hinput.InputPipe.buffer_nb_min = PIPE_NB


TMP = None


def tmpdir():
    global TMP
    if TMP is None or TMP[0] != os.getpid():
        import atexit
        import shutil
        d = tempfile.mkdtemp(prefix="vh-")
        TMP = (os.getpid(), d)
        atexit.register(shutil.rmtree, d, True)
        from multiprocessing import util
        util.Finalize(None, shutil.rmtree, args=(d, True), exitpriority=10)
    return TMP[1]


def build(spec):
    k = spec[0]
    if k == "str":
        d = expand(spec[1])
        return Built(StringInputStream(d), d, 0, len(d) * 8, 0, False, [], k)
    if k == "io":
        d = expand(spec[1])
        return Built(InputIOStream(io.BytesIO(d), source="<io>"), d, 0, len(d) * 8, 0, False, [], k)
    if k == "fileobj":
        d = expand(spec[1])
        return Built(FileInputStream(io.BytesIO(d), "x.bin"), d, 0, len(d) * 8, 0, False, [], k)
    if k == "file":
        # real file, optionally a window of it
        d = expand(spec[1])
        path = os.path.join(tmpdir(), "in.bin")
        with open(path, "wb") as f:
            f.write(d)
        off, size = spec[2], spec[3]
        off = off % len(d)
        size = None if size is None else 1 + size % (len(d) - off)
        args = {}
        if off:
            args["offset"] = off
        if size is not None:
            args["size"] = size
        s = FileInputStream(path, **args)
        n = (len(d) - off) if size is None else size
        inner = s.stream if isinstance(s, InputSubStream) else s
        return Built(s, d, off * 8, n * 8, 0, False, [inner.close], k)
    if k in ("pipe", "espipe"):
        d = expand(spec[1])
        f = (NoSeek if k == "pipe" else EspipeSeek)(d)
        if k == "pipe" and spec[2]:
            s = InputIOStream(f, size=len(d) * 8, source="<pipe>")
            unknown = False
        else:
            s = InputIOStream(f, source="<pipe>")
            unknown = True
        return Built(s, d, 0, len(d) * 8, 1, unknown, [], k)
    if k == "sub":
        b = build(spec[1])
        off = spec[2] % b.nbits
        if spec[3] is None and not b.unknown:
            size = None
            n = b.nbits - off
        else:
            n = size = 1 + (spec[3] or 0) % (b.nbits - off)
        s = InputSubStream(b.stream, off, size)
        return Built(s, b.data, b.off + off, n, b.pipes, False, b.cleanup, k)
    if k == "concat":
        a, b = build(spec[1]), build(spec[2])
        s = ConcatStream([a.stream, b.stream], source="<concat>")
        d = a.bytes() + b.bytes()
        return Built(s, d, 0, len(d) * 8, a.pipes + b.pipes, b.unknown, a.cleanup + b.cleanup, k)
    if k == "frag":
        b = build(spec[1])
        d = b.bytes()
        sizes, order = frag_plan(len(d), spec[2], spec[3])
        s = build_frag(b.stream, sizes, order)
        parts, p = [], 0
        for n in sizes:
            parts.append(d[p:p + n])
            p += n
        d2 = b"".join(parts[i] for i in order)
        return Built(s, d2, 0, len(d2) * 8, b.pipes, len(order) > 1, b.cleanup, k)
    raise AssertionError(k)


def frag_plan(total, cuts, perm):
    """Cut `total` bytes; keep and order some of the pieces."""
    points = sorted({c % total for c in cuts} - {0})
    points = [0] + points + [total]
    sizes = [b - a for a, b in zip(points, points[1:])]
    order = []
    for p in perm:
        i = p % len(sizes)
        if i not in order:
            order.append(i)
    return sizes, order or [0]


def align_sub(spec):
    """('asub', spec, off_bytes, size_bytes): resolved to a byte-aligned 'sub'."""
    return spec


def aligned_specs(data, pipes=True):
    """Byte-aligned streams whose content is a whole number of bytes."""
    leaf = [st.tuples(st.just("str"), data), st.tuples(st.just("io"), data),
            st.tuples(st.just("fileobj"), data),
            st.tuples(st.just("file"), data, st.integers(0, 60) | st.just(0),
                      st.none() | st.integers(0, 80))]
    known = st.one_of(leaf)
    if pipes:
        leaf = leaf + [st.tuples(st.just("pipe"), data, st.booleans()),
                       st.tuples(st.just("espipe"), data)]
    base = st.one_of(leaf)

    def ext(child):
        opts = [
            st.tuples(st.just("asub"), child, st.integers(0, 60), st.none() | st.integers(0, 80)),
            st.tuples(st.just("concat"), st.tuples(st.just("str"), data), child),
            st.tuples(st.just("frag"), child.filter(lambda s: True),
                      st.lists(st.integers(0, 200), max_size=6),
                      st.lists(st.integers(0, 7), min_size=1, max_size=7)),
        ]
        return st.one_of(opts)
    return st.one_of(base, base, ext(base), ext(ext(base)) | ext(known))


_build0 = build


def build(spec):                                    # noqa: F811
    if spec[0] == "asub":
        b = build(spec[1])
        total = b.nbits // 8
        off = spec[2] % total
        if spec[3] is None and not b.unknown:
            size, n = None, total - off
        else:
            n = 1 + (spec[3] or 0) % (total - off)
            size = n * 8
        s = InputSubStream(b.stream, off * 8, size)
        return Built(s, b.data, b.off + off * 8, n * 8, b.pipes, False, b.cleanup, "sub")
    return _build0(spec)


def any_specs(data):
    """Adds an optional bit-granular window on top."""
    al = aligned_specs(data)
    return st.one_of(al, al, st.tuples(st.just("sub"), al, st.integers(0, 500),
                                       st.none() | st.integers(0, 500)))


def has_pipe(spec):
    if spec[0] in ("pipe", "espipe"):
        return True
    return any(isinstance(x, tuple) and x and isinstance(x[0], str) and has_pipe(x) for x in spec[1:]
               if isinstance(x, tuple) and x and x[0] in
               ("str", "io", "fileobj", "file", "pipe", "espipe", "asub", "sub", "concat", "frag"))


def kinds(spec):
    out = [spec[0]]
    for x in spec[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] != "rep":
            out += kinds(x)
    return out
