import collections
import re

from .common import *
from .. import chaos

PRESSURE = re.compile(r"(A|Q|QNH)?([0-9]{4}|////)(INS)?")
SINGLES = {
    "metar": ("type_", "station", "time", "modifier", "wind", "wind_variation", "prevailing_visibility",
              "minimum_visibility", "temperatures", "pressure", "recent_weather", "sea_state", "runway_state"),
    "taf": ("type_", "station", "time", "modifier", "missing", "valid", "cancelled", "wind", "prevailing_visibility"),
}
LISTS = {
    "metar": ("runway_ranges", "weathers", "clouds", "windshears"),
    "taf": ("weathers", "clouds", "max_temperatures", "min_temperatures"),
}


def words_of(text):
    """Words; the runway of a wind shear group may be written R or RWY."""
    return [re.sub("^RWY(?=[0-9]{2}[LCR]?$)", "R", w) for w in text.split()]


def test(ctx, case):
    cls = case["cls"]
    r = sut.reading(case)
    want = collections.Counter()
    if cls == "metar":
        sections = [r["body"], r["trend"]]
    else:
        sections = [r["body"], r["weather_changes"]]
    for s in sections:
        want.update(words_of(s))
    # The text itself: nothing gets lost before the sections.
    text = " ".join(case["text"].replace("=", "").split())
    whole = collections.Counter(words_of(text))
    of_sections = collections.Counter(w for s in sections for w in words_of(s))
    if cls == "metar":
        of_sections.update(words_of(r["remark"]))
        if not whole or "RMK" not in text:
            if whole != of_sections:
                fail(f"the sections {r['sections']} are not the words of {text!r}")
    elif whole != of_sections:
        fail(f"the sections {r['sections']} are not the words of {text!r}")

    got = collections.Counter()
    for name in SINGLES[cls]:
        if r[name]["code"] is not None:
            got.update(words_of(r[name]["code"]))
    for name in LISTS[cls]:
        for g in r[name]:
            got.update(words_of(g["code"]))
    periods = r[PERIODS[cls]]
    for p in periods:
        own = collections.Counter()
        i = p["trend_indicator" if cls == "metar" else "change_indicator"]
        own.update(words_of(i["code"] or ""))
        for name in ("wind", "prevailing_visibility"):
            own.update(words_of(p[name]["code"] or ""))
        for name in ("weathers", "clouds"):
            for g in p[name]:
                own.update(words_of(g["code"]))
        for g in p["unparsed_groups"]:
            own.update(words_of(g))
        if own != collections.Counter(words_of(p["code"])):
            fail(f"period {p['code']!r}: its groups read {dict(own)}")
        got.update(own)
    in_periods = [g for p in periods for g in p["unparsed_groups"]]
    unparsed = list(r["unparsed_groups"])
    if not all(isinstance(g, str) and g.split() for g in unparsed + in_periods):
        fail(f"unparsed groups {unparsed} of {text!r}: one has no characters")
    rest = collections.Counter(unparsed) - collections.Counter(in_periods)
    if collections.Counter(in_periods) - collections.Counter(unparsed):
        fail(f"unparsed groups {in_periods} of the periods, but {unparsed} of the report: {text!r}")
    for g, n in rest.items():
        for _ in range(n):
            got.update(words_of(g))
    lost = want - got
    invented = got - want
    if cls == "metar" and r["pressure"]["code"] is not None and sum(lost.values()) == 1:
        w = next(iter(lost))
        if PRESSURE.fullmatch(w):
            lost.clear()
            ctx.label("superseded pressure")
    default = {"metar": "METAR", "taf": "TAF"}[cls]
    if r["type_"]["code"] == default and invented == {default: 1}:
        invented.clear()
    if lost or invented:
        fail(f"lost {dict(lost)}, invented {dict(invented)} in {text!r}")
    # Unparsed groups of the body in their order: they come first in the list.
    k = sum(rest.values())
    body = iter(words_of(r["body"]))
    excess = None
    for g in unparsed:
        for w in words_of(g):
            for b in body:
                if b == w:
                    break
            else:
                excess = g
                break
        if excess is not None:
            break
    if not in_periods and len(periods) < {"metar": 2, "taf": 8}[cls] and excess is not None:
        fail(f"unparsed groups {unparsed} are not in the order of the body {r['body']!r}")
    if unparsed:
        ctx.label("with unparsed groups")
    if unparsed and in_periods:
        ctx.label("unparsed in periods")
    return bool(unparsed) or len(periods) > 0


WORDS = [chr(c) for c in range(33, 127)] + [a + b for a in "/+-$*.,:;#?!&<>()" for b in "/+-$*.,:;#?!&<>()"] + [
    "\u00e9", "\u0663", "\u3000x", "AND", "THE", "NULL", "None", "nan", "TAF", "METAR", "SPECI", "Z", "LAST", "NXT", "FCST", "END", "EOM", "AMD", "COR", "NIL", "CNL", "AUTO", "TEST"]


def words(tier):
    """Short and odd words at the start, in the middle, at the end, twice, and in a period."""
    for i, w in enumerate(WORDS):
        if "=" in w:
            continue
        for cls, head, period in (("metar", "METAR PADK 151230Z", "TEMPO FM1300"), ("taf", "TAF PADK 151130Z 1512/1612", "BECMG 1514/1516")):
            for text in (f"{head} 27010KT {w} 9999 {period} 28010KT", f"{head} 27010KT 9999 {w} {w} {period} {w} 28010KT {w}", f"{w} {head} 27010KT FOO 9999 {w}"):
                yield {"cls": cls, "text": text, "year": YEAR, "month": MONTH}


STAGES = [
    Enum("words", words, test, "short and odd words in bodies and periods, once and repeated; non-trivial as above"),
    Prop("wild", chaos.dated_case, test,
         "mutated reports, soups of groups and well-formed reports; the words of all sections are counted against the words "
         "of all decoded codes and unparsed groups; non-trivial: some group unparsed or some trend or change", 3200, 120000),
    Enum("shapes", shapes, test, SHAPES),
]
