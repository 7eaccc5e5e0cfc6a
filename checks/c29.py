"""C29: the metadata of a sound are the ones stored in the file."""
from hypothesis import strategies as st

from vh import repo  # noqa: F401
from vh import audio, facts
from vh.core import Suite, ensure, eq
from hachoir.core.tools import timedelta2seconds

suite = Suite("C29", rule="a case is a sound; non-trivial when it has tags, several streams, or frames of several bit rates")

MAGIC = ["wav", "au", "aiff", "aiff-chunks", "flac", "ogg", "ra", "rm"]


def check(case, rec):
    snd, how, again = case
    m = audio.build(snd)
    if how == 2 and snd[0] not in MAGIC:
        how = 1
    p = facts.opened(m, how)
    try:
        md = facts.extractMetadata(p)
        ensure(md is not None, "no metadata")
        facts.compare(md, m.facts)
        subs = list(md.iterGroups()) if m.groups else []
        eq(len(subs), len(m.groups), "number of streams")
        for i, (sub, want) in enumerate(zip(subs, m.groups)):
            facts.compare(sub, want, "stream %d: " % i)
        bounds = getattr(m, "bounds", None)
        if bounds:
            low, high, bits, count = bounds
            rate = md.getValues("bit_rate")
            lasts = md.getValues("duration")
            # the first frames may not be those of the sound
            eq((len(rate), len(lasts)), (1, 1) if count > 3 or rate else (0, 0), "numbers of bit rates and durations")
            if rate:
                ensure(low <= rate[0] <= high, "bit rate %r of frames of %r..%r", rate[0], low, high)
                ensure(abs(timedelta2seconds(lasts[0]) - bits / rate[0]) < 2e-6, "duration %r for %r bits at %r", lasts[0], bits, rate[0])
        if getattr(m, "description", None):
            eq(p.description, m.description, "description")
        if again:
            md2 = facts.extractMetadata(p)
            eq(md2.exportPlaintext(), md.exportPlaintext(), "second extraction")
    finally:
        p.close()
    rec.label(snd[0])
    rec.label(("parser class", "file", "content")[how])
    rec.nt(sum(1 for v in m.facts.values() if v) > 7 or m.groups or bounds)


@suite.sub("sound", st.tuples(audio.cases(), st.integers(0, 2), st.booleans()), 4000)
def sound(case, rec):
    """Facts of one sound"""
    check(case, rec)


@suite.sub("mpeg", st.tuples(audio.cases(["mp3"]), st.integers(0, 2), st.booleans()), 4000)
def mpeg(case, rec):
    """Facts of one MPEG sound: frames, ID3v1, ID3v2"""
    check(case, rec)


@suite.sub("ogg", st.tuples(audio.cases(["ogg", "flac"]), st.integers(0, 2), st.booleans()), 2000)
def ogg(case, rec):
    """Facts of one Ogg or FLAC sound"""
    check(case, rec)
