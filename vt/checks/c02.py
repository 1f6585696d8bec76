import collections

from .common import *
from .. import chaos


def test(ctx, case):
    from aeromet_py.reports.models import ParserError

    rep = sut.make(case)
    loose = sut.everything(rep, case["cls"])
    unparsed = list(rep.unparsed_groups)
    # What a period leaves unparsed, the report leaves unparsed.
    inside = collections.Counter(g for p in getattr(rep, PERIODS[case["cls"]]) for g in p.unparsed_groups)
    unparsed += list((inside - collections.Counter(unparsed)).elements())
    try:
        strict = sut.make(case, truncate=True)
    except ParserError as e:
        if not unparsed:
            fail(f"raised ParserError ({e}) without unparsed groups: {case['text']!r}")
        text = str(e)
        for g in unparsed:
            if g not in text:
                fail(f"the message {text!r} does not name {g!r}")
        if rep.raw_code not in text:
            fail(f"the message {text!r} does not have the code {rep.raw_code!r}")
        # Naming each of them, as often as it was left.
        named = text[: len(text) - len(rep.raw_code)] if text.endswith(rep.raw_code) else text.replace(rep.raw_code, "", 1)
        for g in set(unparsed):
            if named.count(g) < unparsed.count(g):
                fail(f"the message {text!r} names {g!r} less than {unparsed.count(g)} times")
        where = set()
        for p in getattr(rep, PERIODS[case["cls"]]):
            if p.unparsed_groups:
                where.add("period")
        if len(unparsed) > sum(len(p.unparsed_groups) for p in getattr(rep, PERIODS[case["cls"]])):
            where.add("body or excess")
        ctx.label("raised: " + " and ".join(sorted(where)))
        return True
    if unparsed:
        fail(f"did not raise, but {unparsed} were left unparsed: {case['text']!r}")
    check_diff(loose, sut.everything(strict, case["cls"]), "strict report")
    ctx.label("held")
    return True


@gen.st.composite
def one_junk(draw):
    """A well-formed report with one group out of place or malformed, anywhere."""
    base = draw(gen.report_case())
    words = base["text"].split(" ")
    i = draw(gen.st.integers(0, len(words)))
    words.insert(i, draw(gen.st.one_of(chaos.junk, chaos.ODD, chaos.any_group)))
    return chaos.case(base["cls"], " ".join(words), base["year"], base["month"])


SINGLE = [
    ("metar", "METAR PADK 151230Z 27010KT 9999 FEW030 10/05 Q1013 TEMPO FM1300 -RA BECMG TL1400 BKN010 RMK FOO BAR"),
    ("metar", "SPECI PADK 151230Z AUTO 27010KT CAVOK 10/05 Q1013 NOSIG"),
    ("taf", "TAF PADK 151130Z 1512/1612 27010KT 9999 FEW030 TX10/1515Z TEMPO 1513/1514 -RA FM151500 9999 PROB30 TEMPO 1518/1520 TS"),
    ("taf", "TAF AMD PADK 151130Z 1512/1612 CNL"),
    ("taf", "TAF PADK 151130Z NIL"),
]


def positions(tier):
    for cls, text in SINGLE:
        yield {"cls": cls, "text": text, "year": YEAR, "month": MONTH}
        words = text.split(" ")
        for i in range(len(words) + 1):
            for junk in ("XXXXX", "0", "9999X", "27010KT", "TEMPO", "RMK", "NSC"):
                yield {"cls": cls, "text": " ".join(words[:i] + [junk] + words[i:]), "year": YEAR, "month": MONTH}
        for i in range(len(words)):
            yield {"cls": cls, "text": " ".join(words[:i] + words[i + 1:]) or "X", "year": YEAR, "month": MONTH}
    # The only unparsed group is a trend or change beyond the limit.
    m = "METAR PADK 151230Z 27010KT" + " TEMPO 9999" * 3
    t = "TAF PADK 151130Z 1512/1612 27010KT" + " FM151300 9999" * 9
    for cls, text in (("metar", m), ("taf", t), ("metar", m[:-11]), ("taf", t[:-14])):
        yield {"cls": cls, "text": text, "year": YEAR, "month": MONTH}


STAGES = [
    Prop("one junk", one_junk, test, "well-formed reports with one inserted group; strict and non-strict parses are compared", 2000, 60000),
    Prop("wild", chaos.wild_case, test, "mutated, shuffled and arbitrary texts", 1200, 40000),
    Enum("positions", positions, test, "typical reports with a group inserted at or removed from every position"),
    Enum("shapes", shapes, test, SHAPES),
]
