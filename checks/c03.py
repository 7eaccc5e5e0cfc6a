"""C03: the file-like view of a stream behaves like a binary file with the stream's bytes."""
import io

from hypothesis import strategies as st

from vh.core import Suite, ensure, eq, fail, raises
from vh import streams as S
from hachoir.stream import InputStreamError, FileInputStream

suite = Suite("C03", rule="a case is a byte stream and an interleaving of operations on two file views and on the "
              "stream itself; non-trivial when a view is read after a seek or after the other view/stream moved")

OPS = st.one_of(
    st.tuples(st.just("read"), st.integers(0, 1), st.none() | st.integers(0, 40)),
    st.tuples(st.just("read"), st.integers(0, 1), st.integers(0, 20)),
    st.tuples(st.just("tell"), st.integers(0, 1)),
    st.tuples(st.just("seek"), st.integers(0, 1), st.integers(0, 120)),
    st.tuples(st.just("rseek"), st.integers(0, 1), st.integers(-60, 60)),
    st.tuples(st.just("eseek"), st.integers(0, 1), st.integers(0, 60)),
    st.tuples(st.just("stream"), st.integers(0, 60), st.integers(1, 20)),
)


def run(b, ops, rec, scale=1):
    data = b.bytes()
    n = len(data)
    views = [b.stream.file(), b.stream.file()]
    model = [0, 0]
    moved = [False, False]
    seeked = [False, False]
    for op in ops:
        k = op[0]
        if k == "stream":
            a = op[1] * scale % n
            m = min(op[2] * scale, n - a)
            eq(b.stream.readBytes(a * 8, m), data[a:a + m], "stream.readBytes(%d, %d)" % (a * 8, m))
            moved = [True, True]
            continue
        v = op[1]
        f = views[v]
        if k == "read":
            size = op[2] if op[2] is None else op[2] * scale
            want = data[model[v]:] if size is None else data[model[v]:model[v] + size]
            got = f.read() if size is None else f.read(size)
            eq(bytes(got), want, "view %d read(%r) at %d of %d" % (v, size, model[v], n))
            model[v] += len(want)
            rec.nt(want != b"" and (seeked[v] or moved[v]))
            moved[1 - v] = True
            moved[v] = seeked[v] = False
        elif k == "tell":
            eq(f.tell(), model[v], "view %d tell()" % v)
        else:
            if k == "seek":
                pos = op[2] * scale
                f.seek(pos)
            elif k == "rseek":
                pos = max(0, model[v] + op[2] * scale)
                f.seek(pos - model[v], 1)
            else:
                back = min(op[2] * scale, n)
                pos = n - back
                f.seek(-back, 2)
            model[v] = pos
            seeked[v] = True


@suite.sub("views", st.tuples(S.aligned_specs(S.small_data() | S.rep_data(90)), st.lists(OPS, min_size=1, max_size=12)),
           quick=12000, thorough=200000)
def views(case, rec):
    spec, ops = case
    b = S.build(spec)
    try:
        for k in set(S.kinds(spec)):
            rec.label("kind:" + k)
        run(b, ops, rec)
    finally:
        b.close()


@suite.sub("large", st.tuples(st.sampled_from(["str", "io", "file", "pipe", "espipe", "sub", "frag", "concat"]),
                              st.binary(min_size=3, max_size=20), st.integers(60000, 200000),
                              st.sampled_from([1, 700, 1000, 3000, 9000]),
                              st.lists(OPS, min_size=1, max_size=10)),
           quick=2000, thorough=30000)
def large(case, rec):
    kind, unit, total, scale, ops = case
    data = S.expand(("rep", unit, total // 3)) + bytes(range(256)) * (total // 700)
    spec = {"str": ("str", data), "io": ("io", data), "file": ("file", data, 0, None),
            "pipe": ("pipe", data, False), "espipe": ("espipe", data),
            "sub": ("asub", ("file", b"123456" + data, 0, None), 6, None),
            "frag": ("frag", ("str", data), [4090, 4100, 8191], [0, 1, 2, 3]),
            "concat": ("concat", ("str", data[:4093]), ("io", data[4093:]))}[kind]
    b = S.build(spec)
    rec.label("kind:" + kind)
    try:
        run(b, ops, rec, scale)
    finally:
        b.close()


@suite.sub("bits", st.tuples(S.small_data(), st.integers(1, 7), st.integers(0, 30)), quick=300)
def bits(case, rec):
    """A window that is not a whole number of bytes has no byte view."""
    data, cut, off = case
    b = S.build(("sub", ("str", data), 0, len(data) * 8 - cut - 1))
    rec.nt()
    raises(InputStreamError, lambda: b.stream.file(), "file() of %d bits" % b.nbits)
