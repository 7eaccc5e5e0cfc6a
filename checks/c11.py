"""C11: the field tree tiles its file; every field is reachable by its unique path, index and array slot."""
from hypothesis import strategies as st

from vh.core import Suite, ensure, eq, fail, raises
from vh import corpus, synth
import hachoir.field as F
from hachoir.stream import StringInputStream

suite = Suite("C11", rule="a case is a synthetic format with content, or a sample file; non-trivial when the tree is nested "
              "or has arrays/duplicate names/unaligned fields")


def same(got, want, what):
    if len(got) != len(want):
        for g, w in zip(got, want):
            if g[:3] != w[:3]:
                break
        else:
            g, w = got[len(want):len(want) + 1], want[len(got):len(got) + 1]
        fail("%s: %d fields instead of %d, first difference: %r instead of %r", what, len(got), len(want), g, w)
    for g, w in zip(got, want):
        if g[:3] != w[:3] or (w[3] is not NotImplemented and g[3] != w[3]):
            fail("%s: %r instead of %r", what, g, w)


def check_set(fs, rec, depth=0, seekable=False, files=False):
    """Invariants of one complete field set (children included)."""
    seen = set()
    pos = 0
    n = 0
    arrays = {}
    for i, f in enumerate(fs):
        n += 1
        ensure(f.name not in seen, "%s: name %r used twice", fs.path, f.name)
        seen.add(f.name)
        ensure(f.parent is fs, "%s: parent of %r", fs.path, f.name)
        if not seekable:
            eq(f.address, pos, "%s: address of %s" % (fs.path, f.name))
        ensure(f.size >= 0, "%s: size of %s: %r", fs.path, f.name, f.size)
        eq(f.absolute_address, fs.absolute_address + f.address, "absolute address of %s" % f.path)
        eq(f.path, (fs.path if fs.path != "/" else "") + "/" + f.name, "path")
        ensure(fs[f.name] is f and fs.getField(i) is f and fs.getField(f.name) is f, "%s: lookup of %s", fs.path, f.name)
        eq(f.index, i, "%s: index of %s" % (fs.path, f.name))
        ensure(f.name in fs, "%s: %r in", fs.path, f.name)
        ensure(fs.root[f.path] is f, "lookup of %s from the root", f.path)
        if not isinstance(f, F.Link):       # a link leads to its target
            ensure(f["../" + f.name] is f and f["."] is f and f[".."] is fs and f["/"] is fs.root,
                   "relative lookups from %s", f.path)
        else:
            rec.label("link")
            raises(F.MissingField, lambda: f["no such name"], "field of a link")
        if f.name.endswith("]") and not f.name.endswith("[]"):
            base, idx = f.name[:-1].rsplit("[", 1)
            if idx.isdigit() and "/" not in base:
                arrays.setdefault(base, []).append(f)
        pos += f.size
        if depth and f.is_field_set:
            check_set(f, rec, depth - 1, isinstance(f, F.RootSeekableFieldSet))
    eq(len(fs), n, "%s: len()" % fs.path)
    if not seekable and n:
        eq(fs.size, pos, "%s: size" % fs.path)
    for base, fields in arrays.items():
        if files and [f.name for f in fields] != ["%s[%d]" % (base, k) for k in range(len(fields))]:
            continue            # numbered by the parser itself
        a = fs.array(base)
        k = (len(fields) * 7 + n) % len(fields)
        ensure(a[len(fields) - 1] is fields[-1] and a[k] is fields[k], "%s: items of array(%r)", fs.path, base)
        ensure(len(fields) not in a and len(a) == len(fields), "%s: len(array(%r)): %d", fs.path, base, len(a))
        items = list(a)
        ensure(len(items) == len(a) == len(fields) and all(x is y for x, y in zip(items, fields)),
               "%s: array(%r): %r", fs.path, base, [x.name for x in items])
        ensure(bool(a) and 0 in a and len(fields) not in a, "%s: array(%r) membership", fs.path, base)
        raises(F.MissingField, lambda: a[len(fields)], "index after the end of an array")
        eq([f.name for f in fields], ["%s[%d]" % (base, k) for k in range(len(fields))], "names of array(%r)" % base)
        rec.label("array")
    ensure(not fs.array("no such name") and len(fs.array("no such name")) == 0, "array of nothing")
    for bad in ("no such name", "../no", "/no", "no/x"):
        raises(F.MissingField, lambda: fs[bad], "%s[%r]" % (fs.path, bad))
        ensure(bad not in fs, "%r in %s", bad, fs.path)
    raises(F.MissingField, lambda: fs.getField(n), "getField after the end")


@suite.sub("synthetic", st.tuples(st.sampled_from("<>"), synth.formats(), synth.SEEDS, st.integers(0, 4)),
           quick=6000, thorough=150000)
def synthetic(case, rec):
    endian, fmt, seed, extra = case
    try:
        data, children, end = synth.build_model(endian, fmt, seed, extra)
    except synth.End:
        return
    if not children or len(data) > 4000:
        return
    rest = len(data) * 8 - end
    clean = not rest and synth.exact(fmt)
    rec.label("nothing to fix", clean)
    p = synth.parser_class(endian, fmt, not clean)(StringInputStream(data))
    want = [x for c in children for x in c.dump()]
    if rest:
        raw = NotImplemented
        if end % 8 == 0:
            raw = data[end // 8:]
        elif rest % 8:
            raw = synth.Reader(data, endian).bits(end, rest)
        want.append(("/raw[]", end, rest, raw))
    same(synth.tree(p), want, "tree")
    eq(p.size, len(data) * 8, "size of the root")
    check_set(p, rec, 9)
    names = [x[0] for x in want]
    rec.nt(any(n.count("/") > 1 for n in names) or any("[" in n for n in names))
    for path, addr, size, value in want:
        f = p[path]
        eq((f.absolute_address, f.size), (addr, size), "p[%r]" % path)


@suite.sub("files", corpus.cases(max_size=400000), quick=96, thorough=800)
def files(case, rec):
    name, pick = case
    p = corpus.open_file(name)
    if p is None:
        return
    with p:
        check_set(p, rec, 0, isinstance(p, F.RootSeekableFieldSet), True)
        eq(p.size, p.stream.size, "size of the root")
        # the whole tree, as far as the budget goes
        budget = [3000]
        todo = [f for f in p if f.is_field_set]
        k = 0
        while todo and budget[0] > 0:
            f = todo.pop((pick + k) % len(todo))
            k += 1
            if len(f) > budget[0]:
                continue
            budget[0] -= len(f)
            check_set(f, rec, 0, isinstance(f, F.RootSeekableFieldSet), True)
            if isinstance(f, F.RootSeekableFieldSet):
                for c in f:
                    ensure(0 <= c.address and c.address + c.size <= f.size, "%s outside of %s", c.path, f.path)
            todo += [x for x in f if x.is_field_set]
        rec.nt(k > 0)
        rec.label("field sets", k > 0)
