"""C23: a pattern matching finds each pattern."""
import random
import re

from hypothesis import strategies as st

from checks import c22
from vh.core import Suite, ensure, eq, fail, raises
from hachoir.regex import PatternMatching
from hachoir.regex.pattern import RegexPattern, StringPattern

suite = Suite("C23", rule="a case is a set of strings and expressions, added in several steps, and texts; non-trivial when at least two different patterns "
              "are found in a text, one of them by an expression")

STRING = st.one_of(st.text("ab", min_size=1, max_size=4), st.text(st.sampled_from(c22.CHARS), min_size=1, max_size=4),
                   st.sampled_from(["abc", "abd", "ab", "abcabc", "b", "RIFF", "RIFX", "\0\0\1\0", "\xff\xd8", "a.b", "(", "[x]"]))
LEAF = st.one_of(
    st.tuples(st.just("str"), STRING), st.tuples(st.just("range"), c22.RANGES), st.just(("exclude",)), st.just(("dot",)))
BOUNDS = st.sampled_from([(0, 1), (1, 2), (2, 2), (2, 3), (0, 3), (4, 4)])
REGEX = st.recursive(LEAF, lambda e: st.one_of(
    st.tuples(st.just("and"), st.lists(e, min_size=2, max_size=4)),
    st.tuples(st.just("or"), st.lists(e, min_size=2, max_size=3)),
    st.tuples(st.just("rep"), e, BOUNDS)), max_leaves=6).map(lambda e: c22.tame(e))
UNLIMITED = st.tuples(st.just("and"), st.tuples(REGEX, st.tuples(st.just("rep"), REGEX, st.sampled_from([(0, None), (1, None), (3, None)]))).map(list))
OP = st.one_of(st.tuples(st.just("string"), STRING), st.tuples(st.just("string"), STRING), st.tuples(st.just("regex"), REGEX),
               st.tuples(st.just("regex"), REGEX), st.tuples(st.just("unlimited"), UNLIMITED), st.tuples(st.just("search"), st.integers(0, 2**32)))


def check(p, strings, regexes, data, rec):
    found = list(p.search(data))
    everything = [(re.compile(re.escape(t)), t) for t in strings] + [(re.compile(r), None) for r, user, a in regexes]
    users = []
    pos = 0
    inside = set()
    for start, end, item in found:
        ensure(pos <= start <= end <= len(data), "match %d..%d after %d", start, end, pos)
        pos = end
        text = data[start:end]
        if isinstance(item, StringPattern):
            eq(item.text, text, "text of the pattern at %d" % start)
            ensure(text in strings, "unknown string %r", text)
            ensure(item.user is strings[text], "user of the string %r", text)
        else:
            ensure(isinstance(item, RegexPattern), "pattern %r", item)
            mine = [r for r in regexes if r[1] is item.user]
            eq(len(mine), 1, "expression at %d" % start)
            ensure(re.compile(mine[0][0]).fullmatch(text), "%s found in %r", mine[0][0], text)
            ensure(text not in strings, "expression found instead of the string %r", text)
        users.append(item.user)
        inside.update(range(start + 1, end))
    starts = set(m[0] for m in found)
    longest = max([len(t) for t in strings] + [c22.lengths(a)[1] for r, user, a in regexes], default=0)
    eq(p.max_length, longest, "maximum length")
    if longest:
        for i in range(len(data) + 1):
            if i in inside or i in starts:
                continue
            for r, t in everything:
                m = r.match(data, i)
                if m:
                    fail("%s is in %r at %d, found: %s", t or r.pattern, data, i, found)
    return users


@suite.sub("search", st.tuples(st.lists(OP, min_size=1, max_size=9), c22.EX, st.integers(0, 2**32)), quick=7000, thorough=200000)
def search(case, rec):
    ops, ex, seed = case
    rnd = random.Random(seed)
    p = PatternMatching()
    strings, regexes = {}, []
    for op in ops + [("search", seed)]:
        if op[0] == "string":
            user = object()
            p.addString(op[1], user)
            strings.setdefault(op[1], user)
        elif op[0] == "regex":
            user = object()
            if c22.unlimited(op[1]) > 2:
                continue
            p.addRegex(c22.text(op[1], ex, rnd.random() < 0.5), user)
            regexes.append((c22.py(op[1], ex), user, op[1]))
        elif op[0] == "unlimited":
            if c22.lengths(op[1])[1] is not None or c22.repeats_alternative(op[1]) or c22.unlimited(op[1]) > 3:
                continue
            raises(ValueError, lambda: p.addRegex(c22.text(op[1], ex, False)), "expression without maximum length")
        else:
            r = random.Random(op[1])
            pieces = []
            for _ in range(r.randrange(1, 7)):
                k = r.random()
                if k < 0.35 and strings:
                    pieces.append(r.choice(sorted(strings)))
                elif k < 0.75 and regexes:
                    pieces.append(c22.sample(r.choice(regexes)[2], ex, r)[:12])
                else:
                    pieces.append("".join(r.choice(c22.CHARS + "yz") for _ in range(r.randrange(4))))
                if r.random() < 0.2 and pieces[-1]:
                    pieces[-1] = pieces[-1][:-1]
            users = check(p, strings, regexes, "".join(pieces), rec)
            names = set(map(id, users))
            rec.nt(len(names) > 1 and any(id(x[1]) in names for x in regexes))
    rec.label("%d patterns" % min(9, len(strings) + len(regexes)))
