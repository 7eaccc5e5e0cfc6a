"""C12: what a parser shows does not depend on the order, manner or stream in which it is read."""
from hypothesis import strategies as st

from vh.core import Suite, ensure, eq, fail, raises
from vh import corpus, streams as S, synth
import hachoir.field as F
from hachoir.stream import StringInputStream

suite = Suite("C12", rule="a case is a file (synthetic or sample), and a random program of accesses; non-trivial when an "
              "access comes out of order (a later field before an earlier one, partial iteration, missing path)")

ATTRS = ["value", "display", "raw_display", "description", "size", "index", "address", "absolute_address", "name", "path"]
OPS = st.lists(st.one_of(
    st.tuples(st.just("get"), st.integers(0, 9999), st.sampled_from(ATTRS)),
    st.tuples(st.just("get"), st.integers(0, 9999), st.sampled_from(ATTRS)),
    st.tuples(st.just("rel"), st.integers(0, 9999), st.integers(0, 9999)),
    st.tuples(st.just("in"), st.integers(0, 9999)),
    st.tuples(st.just("const"), st.integers(0, 9999)),
    st.tuples(st.just("more"), st.integers(0, 9999), st.integers(0, 5)),
    st.tuples(st.just("first"), st.integers(0, 9999), st.integers(0, 9)),
    st.tuples(st.just("len"), st.integers(0, 9999)),
    st.tuples(st.just("iter"), st.integers(0, 9999), st.integers(0, 6)),
    st.tuples(st.just("resume"), st.integers(0, 9), st.integers(1, 6)),
    st.tuples(st.just("array"), st.integers(0, 9999), st.lists(st.integers(0, 6), max_size=5)),
    st.tuples(st.just("reset"), st.integers(0, 9999)),
    st.tuples(st.just("missing"), st.integers(0, 9999)),
    st.tuples(st.just("nth"), st.integers(0, 9999)),
), max_size=14)


def info(f):
    v = None if f.is_field_set else f.value
    return dict(type=f.getFieldType(), value=v, display=f.display, raw_display=f.raw_display,
                description=f.description, size=f.size, index=f.index, address=f.address,
                absolute_address=f.absolute_address, name=f.name, path=f.path)


def reference(p, cap):
    """path -> info, in order; every field of the sets that fit below the cap."""
    out = {}
    todo = [p]
    while todo and len(out) < cap:
        fs = todo.pop(0)
        for i, f in enumerate(fs):
            if isinstance(f, F.Link):
                continue
            out[f.path] = info(f)
            if f.is_field_set:
                todo.append(f)
            if len(out) >= cap:
                break
    return out


def same_value(a, b):
    return a == b or (a != a and b != b)


def play(p, ref, ops, rec, resets=True):
    paths = list(ref)
    kids = {}
    for x in paths:
        kids.setdefault(x.rsplit("/", 1)[0] or "/", []).append(x)
    sets = list(kids)
    iters = []
    high = -1

    def pick(n):
        return paths[n % len(paths)]

    for op in ops:
        k = op[0]
        if k in ("get", "rel", "in", "const"):
            path = pick(op[1])
            if op[1] % len(paths) < high:
                rec.nt()
            if k == "get":
                f = p[path]
                got = getattr(f, op[2])
                if not (f.is_field_set and op[2] == "value"):
                    ensure(same_value(got, ref[path][op[2]]), "%s of %s: %r instead of %r", op[2], path, got, ref[path][op[2]])
                high = max(high, op[1] % len(paths))
            elif k == "rel":
                # from another field, through its ancestors
                other = p[pick(op[2])]
                up = other.path.count("/")
                rel = ("." * (up + 1)) + path if up else path
                ensure(other[rel].path == path, "%s from %s", rel, other.path)
            elif k == "in":
                ensure(path in p, "%r in parser", path)
            else:
                parent = p[path.rsplit("/", 1)[0] or "/"]
                before = parent.current_length
                try:
                    f = parent.getField(path.rsplit("/", 1)[1])
                    eq(f.path, path, "getField()")
                except F.MissingField:
                    pass
                eq(parent.current_length, before, "getField() of %s read more fields" % path)
        elif k in ("more", "first"):
            fs = p[sets[op[1] % len(sets)]]
            before = fs.current_length
            n = fs.readMoreFields(op[2]) if k == "more" else fs.readFirstFields(op[2])
            eq(fs.current_length - before, n, "fields read by %s" % k)
            if not fs.done:
                eq(n, op[2] if k == "more" else max(0, op[2] - before), "number of fields read")
            rec.nt()
        elif k == "len":
            path = sets[op[1] % len(sets)]
            n = len(p[path])
            ensure(n >= len(kids[path]), "len(%s) = %d", path, n)
        elif k == "iter":
            path = sets[op[1] % len(sets)]
            iters.append([iter(p[path]), path, 0])
            advance(iters[-1], op[2], kids)
            rec.nt()
        elif k == "resume":
            if iters:
                advance(iters[op[1] % len(iters)], op[2], kids)
        elif k == "array":
            path = pick(op[1])
            base, name = path.rsplit("/", 1)
            if "[" in name and not name.endswith("[]"):
                fs = p[base or "/"]
                a = fs.array(name.split("[")[0])
                if name == "%s[0]" % name.split("[")[0]:
                    eq(a[0].path, path, "array")
                item = name.split("[")[0] + "[%d]"
                for i in op[2]:
                    ensure((i in a) == (item % i in fs), "%d in array of %s", i, path)
                    if i in a:
                        ensure(a[i] is fs[item % i], "item %d of the array of %s", i, path)
                if resets:
                    n = 0
                    while item % n in fs:
                        n += 1
                    eq(len(a), n, "len() of the array of %s" % path)
        elif k == "reset":
            if resets:
                p[sets[op[1] % len(sets)]].reset()
                rec.nt()
        elif k == "missing":
            fs = p[sets[op[1] % len(sets)]]
            raises(F.MissingField, lambda: fs["no such field"], "missing field")
            rec.nt()
        elif k == "nth":
            path = pick(op[1])
            fs = p[path.rsplit("/", 1)[0] or "/"]
            eq(fs[ref[path]["index"]].path, path, "field by position")


def advance(it, n, kids):
    for _ in range(n):
        try:
            f = next(it[0])
        except StopIteration:
            return
        want = kids[it[1]]
        if it[2] < len(want) and not isinstance(f, F.Link):
            eq(f.path, want[it[2]], "iteration over %s" % it[1])
            it[2] += 1


def compare(got, ref, what):
    if list(got) != list(ref):
        extra = [x for x in got if x not in ref][:3]
        lost = [x for x in ref if x not in got][:3]
        fail("%s: other fields: unexpected %r, missing %r", what, extra, lost)
    for path, want in ref.items():
        for k, v in want.items():
            ensure(same_value(got[path][k], v), "%s: %s of %s: %r instead of %r", what, k, path, got[path][k], v)


@suite.sub("synthetic", st.tuples(st.sampled_from("<>"), synth.formats(), synth.SEEDS, st.integers(0, 3), OPS),
           quick=6000, thorough=150000)
def synthetic(case, rec):
    endian, fmt, seed, extra, ops = case
    try:
        data, children, end = synth.build_model(endian, fmt, seed, extra)
    except synth.End:
        return
    if not children or len(data) > 3000:
        return
    cls = synth.parser_class(endian, fmt)
    ref = reference(cls(StringInputStream(data)), 500)
    p = cls(StringInputStream(data))
    play(p, ref, ops, rec)
    compare(reference(p, 500), ref, "after the accesses")


@suite.sub("streams", st.tuples(st.sampled_from("<>"), synth.formats(), synth.SEEDS, st.booleans(), st.integers(1, 3),
                                st.sampled_from(["io", "fileobj", "file", "sub", "frag", "concat", "pipe", "espipe"]), OPS),
           quick=2500, thorough=60000)
def streams(case, rec):
    endian, fmt, seed, pad, cut, kind, ops = case
    try:
        data, children, end = synth.build_model(endian, fmt, seed, 0)
    except synth.End:
        return
    if not children or len(data) > 3000:
        return
    if end % 8 and kind in ("pipe", "espipe", "frag"):
        return      # the last bits belong to no field while the size is unknown
    cls = synth.parser_class(endian, fmt)
    ref = reference(cls(StringInputStream(data)), 500)
    spec = {"io": ("io", data), "fileobj": ("fileobj", data), "file": ("file", data, 0, None),
            "sub": ("asub", ("str", b"xyz" + data + b"\0\1\2"), 3, len(data) - 1),
            "frag": ("frag", ("str", data), [cut, 2 * cut + 1, len(data) // 2 or 1], [0, 1, 2, 3]),
            "concat": ("concat", ("str", data[:cut]), ("io", data[cut:])) if len(data) > cut else ("str", data),
            "pipe": ("pipe", data, False), "espipe": ("espipe", data)}[kind]
    rec.label("stream:" + kind)
    b = S.build(spec)
    try:
        p = cls(b.stream)
        play(p, ref, ops, rec)
        compare(reference(p, 500), ref, "over a %s stream" % kind)
        rec.nt(len(ref) > 1)
    finally:
        b.close()


_ref = {}


@suite.sub("files", st.tuples(corpus.cases(max_size=150000), OPS), quick=400, thorough=8000)
def files(case, rec):
    (name, pick), ops = case
    if name not in _ref:
        p = corpus.open_file(name)
        _ref[name] = p and reference(p, 400)
    ref = _ref[name]
    if not ref:
        return
    p = corpus.open_file(name)
    play(p, ref, ops, rec, False)
    compare(reference(p, 400), ref, "%s after the accesses" % name)
    rec.label("file")
