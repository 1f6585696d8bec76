"""What follows in a report does not change how the groups before it are decoded."""
from .common import *
from .. import chaos
from . import c24

st = gen.st
LISTS = ("runway_ranges", "weathers", "clouds", "windshears", "max_temperatures", "min_temperatures")
DERIVED = {"raw_code", "sections", "body", "trend", "remark", "weather_changes", "ceiling", "flight_rules", "should_be_cavok", "windshear_all_runways",
           "weather_trends", "changes_forecasted", "code"}


def grown(a, b, where, top):
    """Whether b may be a with more groups after it."""
    for k, x in a.items():
        y = b[k]
        if k in DERIVED:
            continue
        if k in LISTS or k == "unparsed_groups" and not top:
            check_diff(x, y[:len(x)], f"{where}: {k}")
        elif k == "unparsed_groups":
            rest = list(y)
            for g in x:
                if g not in rest:
                    fail(f"{where}: the unparsed groups are {y}, and {x} before")
                rest.remove(g)
        elif k == "windshear_names" and not b["windshear_all_runways"]:
            check_diff(x, y[:len(x)], f"{where}: {k}")
        elif k == "windshear_names":
            check_diff([], y, f"{where}: {k}")
        elif k in ("trend_indicator", "change_indicator"):
            if not (y["code"] or "").startswith(x["code"] or ""):
                fail(f"{where}: the indicator is {y['code']!r}, and {x['code']!r} before")
            if y["code"] == x["code"] and not (x["code"] or "").startswith("FM"):
                check_diff(x, y, f"{where}: {k}")
        elif isinstance(x, dict) and "code" in x:
            if k == "pressure" and x["code"] is not None and y["code"] != x["code"]:
                continue  # superseded
            if k in ("time", "valid") and x["code"] is None or k == "type_" and y["code"] != x["code"]:
                continue  # absent so far
            if x["code"] is not None:
                check_diff(x, y, f"{where}: {k}")
        else:
            check_diff(x, y, f"{where}: {k}")


def test(ctx, case):
    cls = case["cls"]
    segs, remark = c24.segments(cls, ref.words_of(case["text"]))
    groups = [g for s in segs for g in s]
    n = case["cut"] % (len(groups) + 1)
    words = [w for g in groups[:n] for w in g.split(ref.J)]
    if not words:
        return False
    before, _ = c24.segments(cls, words)
    if [g for s in before for g in s] != groups[:n]:
        return False
    a = sut.reading({"cls": cls, "text": " ".join(words), "year": case["year"], "month": case["month"]})
    b = sut.reading(case)
    where = f"{case['text']!r} after {' '.join(words)!r}"
    # The type of a report is its first group or the default.
    grown(a, b, where, True)
    pa, pb = a[PERIODS[cls]], b[PERIODS[cls]]
    if len(pb) < len(pa):
        fail(f"{where}: {len(pb)} periods, and {len(pa)} before")
    for i, (x, y) in enumerate(zip(pa, pb)):
        grown(x, y, f"{where}: period {i + 1}", False)
    ctx.label("cut in the body" if len(before) == 1 else "cut later")
    return 0 < n < len(groups)


@st.composite
def cuts(draw):
    c = draw(st.one_of(gen.report_case(p=60), gen.report_case(p=85), chaos.dated_case(), chaos.dated_case()))
    return {"cls": c["cls"], "text": c["text"], "year": c["year"], "month": c["month"], "cut": draw(st.integers(0, 60))}


def every(tier):
    for cls, text in c24.FULL:
        for i in range(60):
            yield {"cls": cls, "text": text, "year": 2024, "month": 2, "cut": i}


def pairs(tier):
    """Two groups of any kinds after a header, cut between them."""
    from .c31 import OTHERS, RICH

    taf = ["TAFWIND", "TAFVIS", "WX", "CLOUD", "TAF_TEMP"]
    part = ["WIND", "VIS", "WX", "CLOUD"]
    for cls, head, kinds in (
            ("metar", "METAR PADK 151230Z", [k for k in OTHERS if k not in ("TYPE", "STATION", "AMD_COR", "TREND_PERIOD", "TAFWIND", "TAFVIS", "TAF_TEMP")]),
            ("metar", "METAR PADK 151230Z TEMPO", part + ["TREND_PERIOD"]),
            ("taf", "TAF PADK 151130Z 1512/1612", taf), ("taf", "TAF PADK 151130Z 1512/1612 BECMG 1514/1516", part)):
        groups = [g for k in kinds for g in OTHERS[k]]
        for a, b in product(groups, groups):
            yield {"cls": cls, "text": f"{head} {a} {b}", "year": 2024, "month": 2, "cut": -2}
        for k in kinds:
            # Those of one kind, of more values; and a third one.
            same = [g for g in product(RICH[k], RICH[k]) if g[0] not in OTHERS[k] or g[1] not in OTHERS[k]]
            for i, (a, b) in enumerate(same):
                yield {"cls": cls, "text": f"{head} {a} {b}", "year": 2024, "month": 2, "cut": -2}
                if tier == "thorough" or i % 3 == 0:
                    yield {"cls": cls, "text": f"{head} {a} {b} {RICH[k][i % len(RICH[k])]}", "year": 2024, "month": 2, "cut": -2}


STAGES = [
    Enum("pairs", pairs, test, "every ordered pair of some 90 groups of all kinds after a header, or of more groups of one kind, cut between the two (or before a third); non-trivial as above"),
    Prop("cuts", cuts, test, "random well-formed, mutated and soup reports are compared with themselves cut after a group; non-trivial: cut inside", 2400, 80000),
    Enum("every place", every, test, "six full reports cut after every group; non-trivial as above"),
]
