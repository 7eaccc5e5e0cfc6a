"""C04: output streams hold exactly the concatenation of the bits written/copied."""
import os

from hypothesis import strategies as st

from vh.core import Suite, ensure, eq, fail, raises
from vh import streams as S
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
from hachoir.stream import FileOutputStream, StringInputStream, StringOutputStream

suite = Suite("C04", rule="a case is a byte order, an input stream and a sequence of writes/copies; non-trivial when "
              "at least one write starts in the middle of a byte or copies across a byte boundary")

WRITE = st.one_of(
    st.integers(1, 20).flatmap(lambda n: st.tuples(st.just("bits"), st.just(n), st.integers(0, (1 << n) - 1))),
    st.integers(1, 130).flatmap(lambda n: st.tuples(st.just("bits"), st.just(n), st.integers(0, (1 << n) - 1))),
    st.tuples(st.just("bit"), st.booleans()),
    st.tuples(st.just("bytes"), st.binary(max_size=12)),
    st.tuples(st.just("copybits"), st.integers(0, 300), st.integers(1, 256)),
    st.tuples(st.just("copybits8"), st.integers(0, 40), st.integers(1, 40)),
    st.tuples(st.just("copybytes"), st.integers(0, 40), st.integers(0, 40)),
    st.sampled_from([1, 2, 3, 4, 8]).flatmap(lambda n: st.tuples(
        st.just("int"), st.just(n), st.booleans(), st.integers(0, (1 << 8 * n) - 1))),
    st.tuples(st.just("align")),
)


class Model:
    def __init__(self, big):
        self.big = big
        self.bits = []          # one item per bit, in stream order

    def add(self, value, count):
        seq = [(value >> i) & 1 for i in range(count)]
        self.bits += seq[::-1] if self.big else seq

    def add_bytes(self, data):
        for b in data:
            self.add(b, 8)

    def whole(self):
        out = bytearray()
        for i in range(0, len(self.bits) // 8 * 8, 8):
            w = self.bits[i:i + 8]
            if not self.big:
                w = w[::-1]
            out.append(int("".join(map(str, w)), 2))
        return bytes(out)


def do(out, big, ops, src, rec):
    m = Model(big)
    E = BIG_ENDIAN if big else LITTLE_ENDIAN
    inp = StringInputStream(src)
    sb = S.Built(inp, src, 0, len(src) * 8, 0, False, [], "str")
    e = ">" if big else "<"
    for op in ops:
        k = op[0]
        aligned = len(m.bits) % 8 == 0
        if k == "align":
            n = -len(m.bits) % 8
            if n:
                out.writeBits(n, 0, E)
                m.add(0, n)
            continue
        if k == "bits":
            out.writeBits(op[1], op[2], E)
            m.add(op[2], op[1])
        elif k == "bit":
            out.writeBit(op[1], E)
            m.add(int(op[1]), 1)
        elif k == "bytes":
            if not aligned:
                raises(NotImplementedError, lambda: out.writeBytes(op[1]), "writeBytes inside a byte")
                rec.label("refused")
                continue
            out.writeBytes(op[1])
            m.add_bytes(op[1])
        elif k == "int":
            n, signed, v = op[1], op[2], op[3]
            if signed and v >= 1 << (8 * n - 1):
                v -= 1 << 8 * n
                rec.label("negative integer")
            out.writeInteger(v, signed, n, E)
            if aligned:
                m.add_bytes((v % (1 << 8 * n)).to_bytes(n, "big" if big else "little"))
            else:
                m.add(v % (1 << 8 * n), 8 * n)
        else:
            if k == "copybytes":
                addr = op[1] % len(src) * 8
                n = min(op[2], len(src) - addr // 8) * 8
                if not aligned:
                    continue
                out.copyBytesFrom(inp, addr, n // 8)
            else:
                addr = (op[1] * 8 if k == "copybits8" else op[1]) % (len(src) * 8)
                n = min(op[2] * 8 if k == "copybits8" else op[2], len(src) * 8 - addr)
                out.copyBitsFrom(inp, addr, n, E)
                rec.nt(addr % 8 != 0 or not aligned)
            m.add(sb.bits(addr, n, e), n) if k != "copybytes" and (addr % 8 or not aligned or n % 8) \
                else m.add_bytes(src[addr // 8:(addr + n) // 8])
        rec.nt(not aligned)
    return m


CASE = st.tuples(st.booleans(), st.binary(min_size=1, max_size=50), st.lists(WRITE, min_size=1, max_size=12))


@suite.sub("file", CASE, quick=8000, thorough=150000)
def file(case, rec):
    big, src, ops = case
    path = os.path.join(S.tmpdir(), "out.bin")
    with FileOutputStream(path) as out:
        m = do(out, big, ops, src, rec)
        eq(out.filename, path, "filename")
    with open(path, "rb") as f:
        eq(f.read(), m.whole(), "content of the file")


@suite.sub("memory", st.tuples(CASE, st.lists(st.tuples(st.integers(0, 100), st.integers(1, 100)), max_size=4),
                               CASE.map(lambda c: c[2])), quick=8000, thorough=150000)
def memory(case, rec):
    (big, src, ops), reads, more = case
    with StringOutputStream() as out:
        def check(m):
            want = m.whole()
            for a, n in reads:
                if not want:
                    break
                a %= len(want)
                n = min(n, len(want) - a)
                eq(out.readBytes(a * 8, n), want[a:a + n], "readBytes(%d, %d)" % (a * 8, n))
                rec.label("read back")
            if want:
                eq(out.readBytes(0, len(want)), want, "whole content")
        m = do(out, big, ops, src, rec)
        check(m)
        # reading does not move the write position
        m.add(0, 0)
        if len(m.bits) % 8 == 0:
            m2 = do(out, big, more, src, rec)
            m.bits += m2.bits
            check(m)


@suite.sub("bulk", st.tuples(st.integers(0, 20), st.sampled_from([4095, 4096, 4097, 8192, 10000, 30000]),
                             st.binary(min_size=1, max_size=9), st.booleans(), st.binary(max_size=5)),
           quick=300, thorough=4000)
def bulk(case, rec):
    off, n, unit, viabits, head = case
    src = S.expand(("rep", unit, n + off + 7))
    path = os.path.join(S.tmpdir(), "out.bin")
    rec.nt(off > 0 or n != 4096)
    with FileOutputStream(path) as out:
        out.writeBytes(head)
        if viabits:
            out.copyBitsFrom(StringInputStream(src), off * 8, n * 8, BIG_ENDIAN)
        else:
            out.copyBytesFrom(StringInputStream(src), off * 8, n)
    with open(path, "rb") as f:
        eq(f.read(), head + src[off:off + n], "copied bytes")
