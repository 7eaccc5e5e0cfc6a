"""C20: fields inserted by an editor are where they were asked for."""
import datetime
import re

from hypothesis import strategies as st

from checks import c19
from vh import edit, synth
from vh.core import Suite, ensure, eq, raises
import hachoir.editor as E
import hachoir.editor.typed_field as T
from hachoir.core.dict import UniqKeyError
from hachoir.field import MissingField

suite = Suite("C20", rule="a case is a file, its format and a sequence of insertions, deletions and values; non-trivial when two insertions are accepted "
              "in the same field set, or one next to a deleted or inserted field")

EPOCH = datetime.datetime(1904, 1, 1)
FIELD = st.recursive(st.one_of(
    st.tuples(st.just("bits"), st.sampled_from([1, 3, 8, 16, 40]), st.integers(0, 2**40)),
    st.tuples(st.sampled_from(["uint", "int"]), st.sampled_from([8, 16, 24, 32, 64, 128]), st.integers(0, 2**130)),
    st.tuples(st.just("bytes"), st.binary(min_size=1, max_size=6)),
    st.tuples(st.just("string"), st.sampled_from(["C", "fixed", "Pascal8", "Pascal16", "Pascal32", "UnixLine"]), st.binary(max_size=5)),
    st.tuples(st.just("char"), st.integers(0, 255)),
    st.tuples(st.just("mac"), st.integers(0, 2**32 - 1)),
), lambda f: st.tuples(st.just("set"), st.lists(f, max_size=3)), max_leaves=4)
NAME = st.one_of(st.sampled_from(["new", "other", "new[]", "new[]", "item[]", "a[]", "x[]", "z"]), st.integers(0, 20))
OPS = st.lists(st.one_of(
    st.tuples(st.sampled_from(["before", "before", "after", "after", "end"]), st.integers(0, 10**6), st.integers(0, 10**6),
              st.lists(st.tuples(NAME, FIELD), min_size=1, max_size=3)),
    st.tuples(st.just("del"), st.integers(0, 10**6)),
    st.tuples(st.just("del"), st.integers(0, 10**6)),
    st.tuples(st.just("set"), st.integers(0, 10**6), st.integers(0, 41), st.binary(max_size=6)),
    st.tuples(st.just("read"), st.integers(0, 1))), min_size=1, max_size=10)


def create(parent, name, spec, endian):
    """A new field and its node."""
    kind = spec[0]
    if kind == "set":
        obj = E.NewFieldSet(parent, name)
        node = edit.ENode(name, "set", endian, 0, None, None, [])
        for i, s in enumerate(spec[1]):
            sub, n = create(obj, "part[]", s, endian)
            obj.insert(sub)
            n.name = "part[%d]" % i
            node.slots.append(n)
        node.children = list(node.slots)
    elif kind == "bits":
        v = spec[2] % (1 << spec[1])
        obj = E.EditableBits(parent, name, spec[1], v)
        node = edit.ENode(name, "bits", endian, spec[1], v)
    elif kind in ("uint", "int"):
        v = spec[2] % (1 << spec[1])
        if kind == "int":
            v -= 1 << spec[1] - 1
        obj = E.EditableInteger(parent, name, kind == "int", spec[1], v)
        node = edit.ENode(name, kind, endian, spec[1], v)
    elif kind == "bytes":
        obj = E.EditableBytes(parent, name, spec[1])
        node = edit.ENode(name, "bytes", endian, 0, spec[1])
    elif kind == "string":
        obj = E.EditableString(parent, name, spec[1], spec[2], charset="ISO-8859-1")
        node = edit.ENode(name, "string", endian, 0, spec[2], codec=spec[1])
    elif kind == "char":
        obj = T.EditableCharacter(parent, name, chr(spec[1]))
        node = edit.ENode(name, "fixed", endian, 8, chr(spec[1]))
        node.raw = spec[1]
    else:
        d = EPOCH + datetime.timedelta(seconds=spec[1])
        obj = T.EditableTimestampMac32(parent, name, d)
        node = edit.ENode(name, "fixed", endian, 32, d)
        node.raw = spec[1]
    node.altered = True
    node.obj = obj
    return obj, node


def sets(model, editor):
    """(node, object of the editor, path) of every field set."""
    out = [(model, editor, "")]
    for node, obj, path in out:
        for c in node.children:
            if c.children is not None:
                o = c.obj if c.obj is not None else obj[c.name]
                out.append((c, o, path + "/" + c.name))
    return out


def refresh(node):
    node.children = [c for c in node.slots if c not in node.deleted]


def insert(op, node, obj, path, rec, what):
    how, pick, at, new = op[0], op[1], op[2], op[3]
    alive = [c.name for c in node.children]
    originals = [c.name for c in node.slots if c.obj is None]
    # the anchor
    missing = at % 11 == 10
    anchor = None
    if missing:
        key = "not there"
    elif node.slots and how != "end":
        anchor = node.slots[at % len(node.slots)]
        key = anchor.name
        # an inserted field hides a deleted one which had its name
        for c in node.slots:
            if c.name == key and c.obj is not None:
                anchor = c
    else:
        how = "end"
    objs, nodes, names = [], [], []
    for name, spec in new:
        if isinstance(name, int):
            name = originals[name % len(originals)] if originals else "orig"
        o, n = create(obj, name, spec, node.endian)
        objs.append(o)
        nodes.append(n)
        names.append(name)
    plain = [n for n in names if not n.endswith("[]")]
    taken = len(set(plain)) != len(plain) or any(n in alive for n in plain)

    def do():
        if how == "end":
            obj.insert(*objs)
        elif how == "before":
            obj.insertBefore(key, *objs)
        else:
            obj.insertAfter(key, *objs)
    if taken:
        raises(UniqKeyError, do, "%s: insertion of %s in %s" % (what, names, alive))
        rec.label("name taken")
        return 0
    if missing and how != "end":
        raises(MissingField, do, "%s: insertion next to %s" % (what, key))
        rec.label("no such field")
        return 0
    do()
    final = []
    for n, o, name in zip(nodes, objs, names):
        if name.endswith("[]"):
            ensure(re.match(re.escape(name[:-1]) + r"\d+\]$", o.name), "%s: field %s named %s", what, name, o.name)
        else:
            eq(o.name, name, "%s: name" % what)
        n.name = o.name
        final.append(o.name)
    ensure(len(set(final)) == len(final) and not set(final) & set(alive), "%s: names %s given in %s", what, final, alive)
    if how == "end":
        node.slots.extend(nodes)
    else:
        i = [k for k, c in enumerate(node.slots) if c is anchor][0] + (how == "after")
        node.slots[i:i] = nodes
        rec.nt(anchor.obj is not None or anchor in node.deleted)
    rec.label("inserted %s %s" % (how, "a new field" if anchor is not None and anchor.obj is not None
                                 else "a deleted field" if anchor in node.deleted else "a field" if anchor else ""))
    node.altered = True
    refresh(node)
    return 1


@suite.sub("histories", st.tuples(st.sampled_from("<>"), st.one_of(synth.formats(leaf=c19.LEAF), synth.formats(depth=2, leaf=c19.LEAF, minlen=2)),
                                  synth.SEEDS, OPS), quick=7000, thorough=200000)
def histories(case, rec):
    endian, fmt, seed, ops = case
    s = c19.start(endian, fmt, seed)
    if s is None:
        return
    p, data, model = s
    before = synth.tree(p)
    editor = E.createEditor(p)
    count = {}
    for n, op in enumerate(ops):
        what = "edit %d" % n
        all_sets = sets(model, editor)
        if op[0] in ("before", "after", "end"):
            node, obj, path = all_sets[op[1] % len(all_sets)]
            count[path] = count.get(path, 0) + insert(op, node, obj, path, rec, what)
            rec.nt(count[path] >= 2)
        elif op[0] == "read":
            c19.compare(editor, model, what)
            c19.check_saved(editor, model, data, what)
        else:
            items = [(c, node, obj) for node, obj, path in all_sets for c in node.children]
            if not items:
                continue
            c, node, obj = items[op[1] % len(items)]
            if op[0] == "del":
                reused = any(x is not c and x.name == c.name for x in node.slots)

                def do():
                    del obj[c.name]
                if c.obj is not None:
                    if not (c.name in [x.name for x in node.slots if x.obj is None and x not in node.deleted]):
                        raises(MissingField, do, "%s: inserted field deleted" % what)
                    continue
                if reused:
                    continue
                do()
                raises(MissingField, lambda: obj[c.name], "%s: field deleted" % what)
                node.deleted.append(c)
                node.altered = True
                refresh(node)
                rec.label("deleted")
            elif c.children is None and c.kind in ("uint", "int", "bits", "bytes", "string"):
                target = {c.name: c.obj if c.obj is not None else obj[c.name]}
                c19.apply_value(target, c.name, c, op[2], op[3], rec, what)
    c19.compare(editor, model, "at the end")
    c19.check_saved(editor, model, data, "at the end")
    eq(synth.tree(p), before, "the file edited")
