"""C01: reads from any input stream are bit-exact, history-independent, never short."""
from hypothesis import strategies as st

from vh.core import Suite, ensure, eq, fail
from vh import streams as S
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN
from hachoir.stream import InputStreamError, StreamError
from hachoir.stream import InputIOStream, InputSubStream, StringInputStream

suite = Suite("C01", rule="a case is a composed stream and a history of reads; non-trivial when the history "
              "has a successful read after a failed or backward one, or crosses a seam (fragment, "
              "concatenation, pipe block, unaligned window)")

ENDIAN = {">": BIG_ENDIAN, "<": LITTLE_ENDIAN, "m": MIDDLE_ENDIAN}

ADDR = st.integers(0, 700) | st.integers(0, 60)
OPS = st.one_of(
    st.tuples(st.just("bits"), ADDR, st.integers(1, 40) | st.integers(1, 200), st.sampled_from("><m")),
    st.tuples(st.just("int"), ADDR, st.sampled_from([1, 3, 8, 16, 24, 32, 64]), st.sampled_from("><m"),
              st.booleans()),
    st.tuples(st.just("bytes"), ADDR, st.integers(1, 30)),
    st.tuples(st.just("bytes8"), st.integers(0, 80), st.integers(1, 30)),
    st.tuples(st.just("raw"), ADDR, st.integers(1, 100)),
    st.tuples(st.just("ge"), st.integers(-30, 30)),
    st.tuples(st.just("ge_abs"), st.integers(1, 900)),
    st.tuples(st.just("size")),
    st.tuples(st.just("tail"), st.integers(1, 70), st.integers(0, 20)),
)


def pipe_may_refuse(bs, nb, far, byte):
    """A pipe keeps at least `nb` blocks; older ones may be gone."""
    return (byte >> bs) < (far >> bs) + 2 - nb


def run_history(spec, ops, bs, nb, rec):
    with S.set_pipe_params(bs, nb):
        b = S.build(spec)
        try:
            s = b.stream
            for kind in set(S.kinds(spec)):
                rec.label("kind:" + kind)
            rec.label("unaligned window", b.off % 8 != 0)
            failed = backward = False
            last = -1
            far = 0         # bytes asked so far
            seen_size = s.size
            if not b.unknown:
                eq(s.size, b.nbits, "size of a stream of known size")
            for op in ops:
                k = op[0]
                if k == "size":
                    ensure(s.size in (None, b.nbits), "size %r instead of %d", s.size, b.nbits)
                    if seen_size is not None:
                        eq(s.size, seen_size, "size changed")
                    seen_size = s.size
                    continue
                if k in ("ge", "ge_abs"):
                    n = max(1, b.nbits + op[1]) if k == "ge" else op[1]
                    far = max(far, (b.off + n + 7) // 8)
                    try:
                        eq(bool(s.sizeGe(n)), n <= b.nbits, "sizeGe(%d) of a %d bit stream" % (n, b.nbits))
                    except InputStreamError:
                        if not b.pipes:
                            raise
                    continue
                if k == "tail":         # around the end
                    addr = max(0, b.nbits - op[1])
                    n = max(1, op[1] + op[2] - 5)
                    op = ("bits", addr, n, "><"[n & 1])
                    k = "bits"
                addr = op[1] * 8 if k == "bytes8" else op[1]
                addr %= b.nbits + 24
                n = op[2] * 8 if k in ("bytes", "bytes8") else op[2]
                inside = addr + n <= b.nbits
                if k in ("bits", "int") and op[3] == "m" and not (b.middle_ok(addr, n)):
                    if b.off % 8 or inside:
                        continue        # 16-bit words are not all there
                    inside = False
                try:
                    if k == "bits":
                        got = s.readBits(addr, n, ENDIAN[op[3]])
                    elif k == "int":
                        got = s.readInteger(addr, op[4], n, ENDIAN[op[3]])
                    elif k == "raw":
                        got = s.read(addr, n)
                    else:
                        got = s.readBytes(addr, op[2])
                except InputStreamError as e:
                    failed = True
                    if not inside:
                        continue
                    if k in ("bytes", "bytes8") and (b.off + addr) % 8:
                        continue        # byte reads are byte-aligned
                    if b.pipes and "seek backward" in str(e):
                        rec.label("pipe discarded")
                        if set(S.kinds(spec)) <= {"pipe", "espipe", "sub", "asub"}:
                            # every block still inside the window has to be there
                            ensure(pipe_may_refuse(bs, nb, far, (b.off + addr) // 8),
                                   "pipe refuses a block of its window: addr %d", addr)
                        continue
                    fail("%r: in-range read refused: %s", op, e)
                finally:
                    far = max(far, (b.off + addr + n + 7) // 8)
                    if addr < last:
                        backward = True
                    last = max(last, addr)
                if not inside:
                    if k == "raw":
                        shift, data, missing = got
                        ensure(missing, "%r beyond the end (%d bits) returned data", op, b.nbits)
                        continue
                    fail("%r beyond the end (%d bits) returned %r", op, b.nbits, got)
                if k == "raw":
                    a = b.off + addr
                    shift, data, missing = got
                    ensure(not missing, "%r: in-range read reports missing data", op)
                    eq((shift, bytes(data)), (a % 8, b.data[a // 8:(a + n + 7) // 8]), "read(%d, %d)" % (addr, n))
                elif k in ("bytes", "bytes8"):
                    ensure((b.off + addr) % 8 == 0, "unaligned byte read at bit %d accepted", addr)
                    eq(bytes(got), b.data[(b.off + addr) // 8:][:op[2]], "readBytes(%d, %d)" % (addr, op[2]))
                else:
                    want = b.middle(addr, n) if op[3] == "m" else b.bits(addr, n, op[3])
                    if k == "int" and op[4] and want >= 1 << (n - 1):
                        want -= 1 << n
                    eq(got, want, "%s(%d, %d, %s)" % (k, addr, n, op[3]))
                if failed or backward or len(S.kinds(spec)) > 1:
                    rec.nt()
            if not b.unknown:
                eq(s.size, b.nbits, "size after the history")
        finally:
            b.close()


@suite.sub("history",
           st.tuples(S.any_specs(S.small_data() | S.rep_data(90)), st.lists(OPS, min_size=1, max_size=12),
                     st.integers(1, 4), st.integers(1, 4)),
           quick=24000, thorough=400000)
def history(case, rec):
    spec, ops, bs, nb = case
    run_history(spec, ops, bs, nb, rec)
