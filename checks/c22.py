"""C22: a simplified regular expression matches the same texts."""
import itertools
import random
import re
import warnings

from hypothesis import strategies as st

from vh.core import Suite, ensure, eq
from hachoir.regex import RegexAnd, RegexEmpty, RegexOr, RegexRange, RegexRangeItem, RegexRepeat, createRange, createString, parse
from hachoir.regex.regex import RegexDot, RegexEnd, RegexStart, RegexWord

warnings.simplefilter("ignore", FutureWarning)
suite = Suite("C22", rule="a case is a regular expression and texts; non-trivial when the expression is simplified (an alternative or a repetition of "
              "several parts) and matches some of the texts but not all")

CHARS = "abc01-]^\\[.x\n|*"
CHAR = st.one_of(st.sampled_from("abc"), st.sampled_from(CHARS))
SAFE = st.sampled_from("abcx01")


def items(pairs):
    return [(min(a, b), max(a, b)) for a, b in pairs]


RANGES = st.lists(st.one_of(SAFE.map(lambda c: (c, c)), CHAR.map(lambda c: (c, c)), st.tuples(SAFE, SAFE), st.tuples(CHAR, CHAR)), min_size=1, max_size=4).map(items)
LEAF = st.one_of(
    st.tuples(st.just("str"), st.text(SAFE, min_size=1, max_size=3)),
    st.tuples(st.just("str"), st.text(CHAR, min_size=1, max_size=2)),
    st.tuples(st.just("str"), st.sampled_from(["ab", "abc", "abx", "ac", "b", "a"])),
    st.tuples(st.just("range"), RANGES), st.just(("exclude",)), st.just(("dot",)), st.just(("empty",)))
ANCHOR = st.sampled_from([("start",), ("end",), ("word",)])
BOUNDS = st.sampled_from([(0, None), (0, None), (1, None), (1, None), (0, 1), (0, 1), (2, None), (2, 2), (1, 2), (2, 3), (0, 3), (3, 5), (3, None)])


def extend(e):
    return st.one_of(
        st.tuples(st.just("and"), st.lists(e | ANCHOR, min_size=2, max_size=4)),
        st.tuples(st.just("or"), st.lists(e, min_size=2, max_size=4)),
        st.tuples(st.just("or"), st.lists(e, min_size=2, max_size=4)),
        st.tuples(st.just("rep"), e, BOUNDS))


# sequences which look like each other: they share parts, or begin by characters which can be put in one range
PIECE = st.one_of(SAFE.map(lambda c: ("str", c)), st.tuples(SAFE, SAFE).map(lambda t: ("range", items([t]))), st.just(("dot",)), st.just(("exclude",)),
                  st.tuples(st.just("rep"), SAFE.map(lambda c: ("str", c)), BOUNDS))
COUSINS = st.tuples(st.lists(PIECE, max_size=2), st.lists(st.lists(PIECE, min_size=1, max_size=3), min_size=2, max_size=3), st.lists(PIECE, max_size=1)).map(
    lambda t: ("or", [("and", t[0] + x + t[2]) if len(t[0] + x + t[2]) > 1 else x[0] for x in t[1]]))
AST = st.one_of(*[st.recursive(LEAF, extend, max_leaves=9)] * 3, st.recursive(COUSINS, extend, max_leaves=2)).map(lambda e: tame(e))


# ---- the reference: an equivalent Python expression, without any simplification

def py_char(c):
    return "\\x%02x" % ord(c)


def py(e, ex):
    k = e[0]
    if k == "str":
        return "".join(py_char(c) for c in e[1])
    if k == "range":
        return "[%s]" % "".join("%s-%s" % (py_char(a), py_char(b)) for a, b in e[1])
    if k == "exclude":
        return "[^%s]" % "".join("%s-%s" % (py_char(a), py_char(b)) for a, b in ex)
    if k == "and":
        return "".join("(?:%s)" % py(x, ex) for x in e[1])
    if k == "or":
        return "(?:%s)" % "|".join(py(x, ex) for x in e[1])
    if k == "rep":
        lo, hi = e[2]
        return "(?:%s){%d,%s}" % (py(e[1], ex), lo, "" if hi is None else hi)
    return {"dot": ".", "empty": "", "start": "^", "end": "$", "word": r"\b"}[k]


def lengths(e):
    k = e[0]
    if k == "str":
        return len(e[1]), len(e[1])
    if k in ("range", "exclude", "dot"):
        return 1, 1
    if k == "and":
        ls = [lengths(x) for x in e[1]]
        return sum(a for a, b in ls), None if any(b is None for a, b in ls) else sum(b for a, b in ls)
    if k == "or":
        ls = [lengths(x) for x in e[1]]
        return min(a for a, b in ls), None if any(b is None for a, b in ls) else max(b for a, b in ls)
    if k == "rep":
        a, b = lengths(e[1])
        lo, hi = e[2]
        return a * lo, 0 if b == 0 else None if b is None or hi is None else b * hi
    return 0, 0


# ---- the two ways to build it

def text_char(c):
    return "\\" + c if c in ".^$[](){}|+?*\\" else c


def text_range(pairs, exclude, style):
    out = []
    for a, b in pairs:
        a, b = ("\\" + c if c in "\\]^-" else c for c in (a, b))
        out.append(a if a == b else "%s-%s" % (a, b))
    plain = sorted(set(out))
    if style and "\\]" in plain and not any("-" in x and len(x) > 2 for x in plain):
        # [] at the beginning, - at the end: no antislash needed
        plain.remove("\\]")
        tail = ""
        if "\\-" in plain:
            plain.remove("\\-")
            tail = "-"
        return "[%s]%s%s]" % ("^" if exclude else "", "".join(plain), tail)
    return "[%s%s]" % ("^" if exclude else "", "".join(out))


def text(e, ex, style):
    k = e[0]
    if k == "str":
        return "".join(text_char(c) for c in e[1])
    if k == "range":
        return text_range(e[1], False, style)
    if k == "exclude":
        return text_range(ex, True, style)
    if k == "and":
        return "".join(text(x, ex, style) for x in e[1])
    if k == "or":
        return "(%s%s)" % ("?:" if style else "", "|".join(text(x, ex, style) for x in e[1]))
    if k == "rep":
        lo, hi = e[2]
        t = text(e[1], ex, style)
        if not (e[1][0] in ("range", "exclude", "dot", "or") or e[1][0] == "str" and len(e[1][1]) == 1):
            t = "(%s)" % t
        if style and (lo, hi) in ((0, None), (1, None), (0, 1)):
            return t + {(0, None): "*", (1, None): "+", (0, 1): "?"}[lo, hi]
        return t + ("{%d}" % lo if lo == hi else "{%d,%s}" % (lo, "" if hi is None else hi))
    return {"dot": ".", "empty": "", "start": "^", "end": "$", "word": r"\b"}[k]


def ranges(pairs):
    return (RegexRangeItem(ord(a), ord(b)) for a, b in pairs)


def api(e, ex, rnd, checks):
    k = e[0]
    if k == "str":
        return createString(e[1])
    if k == "range":
        if all(a == b for a, b in e[1]):
            return createRange(*[a for a, b in e[1]])
        return RegexRange(ranges(e[1]))
    if k == "exclude":
        return RegexRange(ranges(ex), True)
    if k == "rep":
        return RegexRepeat(api(e[1], ex, rnd, checks), *e[2])
    if k in ("and", "or"):
        parts = [api(x, ex, rnd, checks) for x in e[1]]
        before = [str(p) for p in parts]
        how = rnd.randrange(3)
        if how == 0 and len(parts) > 2:
            r = RegexAnd.join(parts) if k == "and" else RegexOr.join(parts)
        elif how == 1:
            # right to left
            r = parts[-1]
            for p in reversed(parts[:-1]):
                r = p & r if k == "and" else p | r
        else:
            r = parts[0]
            for n, p in enumerate(parts[1:]):
                shown = str(r)
                last = r
                r = (r + p if n % 2 else r & p) if k == "and" else r | p
                eq(str(last), shown, "operand changed by an operation")
        checks.append((parts, before))
        return r
    return {"dot": RegexDot, "empty": RegexEmpty, "start": RegexStart, "end": RegexEnd, "word": RegexWord}[k]()


def api_fresh(p):
    """The same expression, without the texts kept by str()."""
    p.__dict__.pop("_str_value", None)
    for x in getattr(p, "content", ()):
        api_fresh(x)
    if isinstance(p, RegexRepeat):
        api_fresh(p.regex)
    return p


# ---- texts

def sample(e, ex, rnd):
    k = e[0]
    if k == "str":
        return e[1]
    if k == "range":
        a, b = rnd.choice(e[1])
        return chr(rnd.choice([ord(a), ord(b), rnd.randint(ord(a), ord(b))]))
    if k in ("exclude", "dot"):
        return rnd.choice(CHARS + "yz")
    if k == "and":
        return "".join(sample(x, ex, rnd) for x in e[1])
    if k == "or":
        return sample(rnd.choice(e[1]), ex, rnd)
    if k == "rep":
        lo, hi = e[2]
        n = rnd.choice([lo, lo + 1, lo + 2 if hi is None else hi])
        if hi is not None:
            n = min(n, hi)
        return "".join(sample(e[1], ex, rnd) for _ in range(n))
    return ""


SHORT = ["".join(t) for n in range(4) for t in itertools.product("abc", repeat=n)]


def texts(e, ex, rnd):
    out = set(rnd.sample(SHORT, 12))
    chars = [c for c in CHARS if c in py(e, ex)] or ["a"]
    for _ in range(8):
        s = sample(e, ex, rnd)[:9]
        out.add(s)
        if s:
            i = rnd.randrange(len(s))
            out.add(s[:i] + s[i + 1:])
            out.add(s[:i] + rnd.choice(CHARS) + s[i + 1:])
            out.add(s[:i] + s[i] + s[i:])
            out.add(s + rnd.choice("ab\n"))
    # the beginning of a text and the end of another one
    made = sorted(out, key=lambda w: (-len(w), w))[:20]
    for _ in range(8):
        a, b = rnd.choice(made), rnd.choice(made)
        i = rnd.randint(0, min(len(a), len(b)))
        out.add((a[:i] + b[i:])[:9])
    out.update(chars)
    out.update(CHARS)
    return sorted(out)


# ---- the two simplifications which are wrong, pinned by the documentation and the tests

def kids(e):
    return e[1] if e[0] in ("and", "or") else [e[1]] if e[0] == "rep" else []


def has(e, pred):
    return pred(e) or any(has(x, pred) for x in kids(e))


def repeats_alternative(e):
    """(a{2,}|b)* is simplified in (a{2}|b)*"""
    def inner(x, m=1):
        if x[0] == "rep":
            lo, hi = x[2]
            if hi is None and max(lo, 1) * m >= 2:
                return True
            return inner(x[1], m * max(lo, 1))
        return any(inner(y, m) for y in kids(x))
    return has(e, lambda r: r[0] == "rep" and r[2][1] is None and has(r[1], lambda o: o[0] == "or") and inner(r[1]))


def unlimited(e):
    """Nested repetitions: too slow in the reference."""
    if e[0] == "rep":
        return 1 + unlimited(e[1])
    return max([unlimited(x) for x in kids(e)], default=0)


def small(e, words):
    """Backtracking explodes with nested repetitions: short texts only."""
    return [w for w in words if len(w) <= (9, 9, 5)[min(unlimited(e), 2)]]


SMALLER = {(3, 5): (2, 3), (3, None): (2, None), (0, 3): (0, 2)}


def tame(e, nested=False):
    """Small bounds for the nested repetitions."""
    if e[0] == "rep":
        nested = nested or unlimited(e) > 1
        return (e[0], tame(e[1], nested), SMALLER.get(e[2], e[2]) if nested else e[2])
    if e[0] in ("and", "or"):
        return (e[0], [tame(x, nested) for x in e[1]])
    return e


def compare(e, ex, r, words, what):
    words = small(e, words)
    ref = re.compile(py(e, ex))
    want = [bool(ref.fullmatch(w)) for w in words]
    for how, kw in (("python", dict(python=True)), ("plain", {})):
        try:
            c = r.compile(**kw)
        except re.error as err:
            raise AssertionError("%s: %s (%s) is not a valid expression: %s" % (what, r, how, err))
        for w, x in zip(words, want):
            eq(bool(c.fullmatch(w)), x, "%s: %s (%s) matches %r" % (what, r, how, w))
    eq((r.minLength(), r.maxLength()), lengths(e), "%s: lengths of %s" % (what, r))
    return want


EX = st.lists(st.one_of(SAFE.map(lambda c: (c, c)), CHAR.map(lambda c: (c, c)), st.tuples(SAFE, SAFE)), min_size=1, max_size=3).map(items)


def interesting(e):
    return has(e, lambda x: x[0] == "or" or x[0] == "rep" and has(x[1], lambda y: y is not x and y[0] in ("rep", "or")))


@suite.sub("parse", st.tuples(AST, EX, st.booleans(), st.integers(0, 2**32)), quick=9000, thorough=300000)
def parsed(case, rec):
    e, ex, style, seed = case
    if repeats_alternative(e) or unlimited(e) > 2:
        rec.label("left out")
        return
    rnd = random.Random(seed)
    t = text(e, ex, style)
    if t == "" or has(e, lambda x: x[0] == "rep" and lengths(x[1]) == (0, 0)):
        return
    r = parse(t)
    words = texts(e, ex, rnd)
    want = compare(e, ex, r, words, "parse(%r)" % t)
    rec.nt(interesting(e) and any(want) and not all(want))
    again = parse(str(r)) if str(r) else RegexEmpty()
    compare(e, ex, again, words, "parse(%r) parsed again" % str(r))


@suite.sub("operators", st.tuples(AST, EX, st.integers(0, 2**32)), quick=9000, thorough=300000)
def operators(case, rec):
    e, ex, seed = case
    if repeats_alternative(e) or unlimited(e) > 2 or has(e, lambda x: x[0] == "rep" and lengths(x[1]) == (0, 0)):
        rec.label("left out")
        return
    rnd = random.Random(seed)
    checks = []
    r = api(e, ex, rnd, checks)
    words = texts(e, ex, rnd)
    want = compare(e, ex, r, words, "built")
    for parts, before in checks:
        eq([str(p) for p in parts], before, "operands after the operation")
        eq([str(api_fresh(p)) for p in parts], before, "operands after the operation")
    rec.nt(interesting(e) and any(want) and not all(want))


@suite.sub("match", st.tuples(AST, AST, EX, st.integers(0, 2**32)), quick=5000, thorough=100000)
def match(case, rec):
    """a.match(b): any text of b is a text of a."""
    a, b, ex, seed = case
    rnd = random.Random(seed)
    if any(repeats_alternative(e) or unlimited(e) > 2 or has(e, lambda x: x[0] == "rep" and lengths(x[1]) == (0, 0)) for e in (a, b)):
        return
    ra, rb = api(a, ex, rnd, []), api(b, ex, rnd, [])
    ensure(ra.match(ra) and rb.match(rb), "doesn't match itself: %s %s", ra, rb)
    if ra.match(rb):
        pa, pb = re.compile(py(a, ex)), re.compile(py(b, ex))
        for w in small(a, small(b, texts(a, ex, rnd) + texts(b, ex, rnd))):
            if pb.fullmatch(w):
                ensure(pa.fullmatch(w), "%s.match(%s) but it doesn't match %r", ra, rb, w)
                rec.nt()
    if ra == rb:
        pa, pb = re.compile(py(a, ex)), re.compile(py(b, ex))
        for w in small(a, small(b, texts(a, ex, rnd) + texts(b, ex, rnd))):
            eq(bool(pa.fullmatch(w)), bool(pb.fullmatch(w)), "%s == %s, match of %r" % (ra, rb, w))
        rec.label("equal")


SINGLE = st.one_of(
    st.tuples(st.just("str"), st.sampled_from("abc\n].x")), st.tuples(st.just("str"), st.sampled_from(["ab", "abc", "abx", "axc"])),
    st.tuples(st.just("range"), RANGES), st.just(("exclude",)), st.just(("dot",)),
    st.tuples(st.just("and"), st.lists(st.sampled_from([("str", "a"), ("str", "b"), ("str", "ab"), ("dot",), ("range", [("a", "b")]), ("end",), ("start",)]), min_size=2, max_size=3)))


@suite.sub("pairs", st.tuples(SINGLE, SINGLE, EX, st.integers(0, 2**32)), quick=9000, thorough=100000)
def pairs(case, rec):
    """Two small alternatives, or parts: where most of the simplifications are."""
    a, b, ex, seed = case
    rnd = random.Random(seed)
    for k in ("or", "and"):
        for x, y in ((a, b), (b, a)):
            e = (k, [x, y])
            want = compare(e, ex, api(e, ex, rnd, []), texts(e, ex, rnd), "%s of %s and %s" % (k, text(x, ex, 0), text(y, ex, 0)))
            rec.nt(any(want) and not all(want))
    e = ("rep", ("or", [a, b, ("empty",)]), [(0, None), (1, None), (2, 3)][seed % 3])
    compare(e, ex, api(e, ex, rnd, []), texts(e, ex, rnd), "repeated")


KNOWN = [
    ("repeat-min", ("rep", ("or", [("rep", ("str", "a"), (2, None)), ("str", "b")]), (0, None)), [], ["aaa", "aaab"]),
    ("repeat-min", ("rep", ("or", [("rep", ("str", "a"), (5, None)), ("str", "b")]), (1, None)), [], ["aaaaaa"]),
    ("repeat-min", ("rep", ("or", [("rep", ("str", "a"), (2, None)), ("str", "b")]), (3, None)), [], ["bbaaa"]),
    ("excluded-ranges", ("or", [("exclude",), ("exclude2",)]), [], ["c", "b"]),
]


@suite.sub("known", st.sampled_from(range(len(KNOWN))), quick=20, thorough=20)
def known(case, rec):
    key, e, ex, words = KNOWN[case]
    if key == "excluded-ranges":
        r = createRange("a", "b", exclude=True) | createRange("a", "c", exclude=True)
        for w in "bcd":
            if bool(r.compile(python=True).fullmatch(w)) != (w not in "ab"):
                rec.known(key, "[^ab]|[^a-c] is simplified in %s, which doesn't match %r" % (r, w))
        return
    r = parse(text(e, ex, 0))
    for w in words:
        if not r.compile(python=True).fullmatch(w):
            rec.known(key, "%s is simplified in %s, which doesn't match %r" % (text(e, ex, 0), r, w))
