"""The decoded groups of a report, written out again, decode to the same."""
from .common import *
from .. import chaos
from . import c24

st = gen.st

BODY = {"metar": ("type_", "station", "time", "modifier", "wind", "wind_variation", "prevailing_visibility", "minimum_visibility", "runway_ranges", "weathers", "clouds",
                  "temperatures", "pressure", "recent_weather", "windshears", "sea_state", "runway_state"),
        "taf": ("type_", "modifier", "station", "time", "missing", "valid", "cancelled", "wind", "prevailing_visibility", "weathers", "clouds",
                "max_temperatures", "min_temperatures")}
PART = ("wind", "prevailing_visibility", "weathers", "clouds")
TEXTS = {"unparsed_groups", "raw_code", "sections", "body", "trend", "remark", "weather_changes", "code"}


def written(part, names):
    out = []
    for n in names:
        v = part[n]
        out += [x["code"] for x in (v if isinstance(v, list) else [v])]
    return [c for c in out if c]


def write(r, cls):
    """The text made of the codes of the decoded groups, in the standard order, and the number of groups in each section."""
    words = written(r, BODY[cls])
    if cls == "taf" and not r["_valid"]:
        words = [w for w in words if w != r["valid"]["code"]]
    sizes = [len(words)]
    for p in r[PERIODS[cls]]:
        groups = written(p, ("trend_indicator" if cls == "metar" else "change_indicator",) + PART)
        sizes.append(len(groups) - 1 + len(groups[0].replace("0 TEMPO", "0_TEMPO").split()))
        words += groups
    if cls == "metar" and r["remark"]:
        words.append(r["remark"])
    return " ".join(words), sizes


def values(part, top=True):
    return {k: v for k, v in part.items() if k not in TEXTS and k not in PERIODS.values()}


def test(ctx, case):
    cls = case["cls"]
    a = sut.reading(case)
    a["_valid"] = cls == "taf" and any(w == a["valid"]["code"] for w in a["body"].split())
    if cls == "taf" and not a["_valid"]:
        return False  # the validity stands in
    words = a["raw_code"].split()
    if cls == "metar" and a["pressure"]["code"] and a["pressure"]["code"][0] not in "QA":
        return False  # what a bare number is depends on the group before it, which may be superseded
    if any(not p["trend_indicator" if cls == "metar" else "change_indicator"]["code"] for p in a[PERIODS[cls]]):
        return False  # a period whose first word is no indicator
    text, sizes = write(a, cls)
    if [len(s) for s in c24.segments(cls, ref.words_of(text))[0]] != sizes:
        return False  # what stood between them was all that kept two words from being one group
    b = sut.reading(dict(case, text=text))
    where = f"{case['text']!r} written out again as {text!r}"
    if b["unparsed_groups"]:
        fail(f"{where}: leaves {b['unparsed_groups']} unparsed")
    check_diff(values(a), values(b), where)
    pa, pb = a[PERIODS[cls]], b[PERIODS[cls]]
    for i, (x, y) in enumerate(zip(pa, pb)):
        check_diff(values(x), values(y), f"{where}: period {i + 1}")
    check_diff(len(pa), len(pb), f"{where}: number of periods")
    b["_valid"] = True
    check_diff(text, write(b, cls)[0], f"{where}, written a second time")
    ctx.label("as it was" if text.split() == words else "changed")
    return len(words) > 5


@st.composite
def reports(draw):
    c = draw(st.one_of(gen.report_case(p=60), gen.report_case(p=85), chaos.dated_case(), chaos.dated_case(), chaos.dated_case()))
    return {k: c[k] for k in ("cls", "text", "year", "month")}


STAGES = [
    Prop("written again", reports, test, "random well-formed, mutated and soup reports with given year and month; the codes of their decoded groups, in the standard order, make a second "
         "report, which must leave nothing unparsed and read the same; not with a bare number as pressure or without validity; non-trivial: more than five groups", 4800, 160000),
    Enum("shapes", shapes, test, SHAPES),
]
