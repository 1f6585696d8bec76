import re

from .common import *
from .. import chaos

GAPS = [" ", "  ", "\n", "\t", "\r\n", " \n   ", "\n\n", "\x0b", "\x0c", " \t ", "\x1c", "\x1d", "\x1e", "\x1f", " \x1f ", "\x85", "\xa0", "\u2003", "\u2028", "\u3000"]
ENDS = ["", "", " ", "\n", "=", " =", "=\n", "  = ", "=\r\n", "\t=\t"]
STARTS = ["", "", " ", "\n", "\n   ", "\t", "\r\n "]


@gen.st.composite
def layouts(draw):
    base = draw(gen.st.one_of(gen.report_case(), gen.report_case(), chaos.mutant_case(dated=True), chaos.soup_case(dated=True)))
    words = base["text"].replace("=", "").split()
    if not words:
        words = ["METAR"]
    style = draw(gen.st.integers(0, 2))
    if style == 0:
        gap = draw(gen.one(GAPS))
        text = gap.join(words)
    else:
        text = words[0]
        for w in words[1:]:
            text += draw(gen.one(GAPS)) + w
    text = draw(gen.one(STARTS)) + text + draw(gen.one(ENDS))
    if draw(gen.st.integers(0, 9)) == 0:
        # The sign is removed wherever it stands.
        i = draw(gen.st.integers(0, len(text)))
        text = text[:i] + "=" + text[i:]
    return {"cls": base["cls"], "plain": " ".join(words), "text": text, "year": base["year"], "month": base["month"]}


def test(ctx, case):
    plain = {"cls": case["cls"], "text": case["plain"], "year": case["year"], "month": case["month"]}
    a, b = sut.full(plain), sut.full(case)
    if b["reading"]["raw_code"] != " ".join(case["text"].replace("=", "").split()):
        fail(f"raw_code {b['reading']['raw_code']!r} of {case['text']!r}")
    check_diff(a, b, f"{case['text']!r} against {case['plain']!r}")
    same = case["text"] == case["plain"]
    ctx.label("with '='" if "=" in case["text"] else "white space only")
    return not same


TYPICAL = [
    ("metar", "METAR PADK 151230Z 27010KT 240V300 1 1/2SM R07L/1000V1500U -RA BKN015 OVC030 10/05 Q1013 A2992 RERA WS R07 WS ALL RWY W15/S4 TEMPO FM1300 TL1400 1 1/2SM BECMG AT1330 NSC RMK AO2 1 1/2SM WS R07"),
    ("metar", "SPECI PADK 151230Z AUTO VRB02KT CAVOK 10/M05 Q1013 WS ALL RWY NOSIG"),
    ("taf", "TAF AMD PADK 151130Z 1512/1612 27010KT 1 1/2SM -RA BKN015 TX10/1515Z TNM05/1606Z PROB30 TEMPO 1514/1516 1 1/2SM FM151800 CAVOK PROB40 TEMPO 1520/1522 TS BECMG 1600/1602 9999"),
]


def every(tier):
    """Each single gap replaced by each kind of white space, each end and start."""
    for cls, text in TYPICAL:
        words = text.split(" ")
        for i in range(1, len(words)):
            for g in GAPS[1:]:
                yield {"cls": cls, "plain": text, "text": " ".join(words[:i]) + g + " ".join(words[i:]), "year": YEAR, "month": MONTH}
        for s, e in product(dict.fromkeys(STARTS), dict.fromkeys(ENDS)):
            for g in GAPS:
                yield {"cls": cls, "plain": text, "text": s + g.join(words) + e, "year": YEAR, "month": MONTH}


def long_layouts(tier):
    for i, c in enumerate(long_texts(tier)):
        words = c["text"].split(" ")
        yield {**c, "plain": c["text"], "text": "".join(w + GAPS[(i + j) % len(GAPS)] for j, w in enumerate(words)) + ENDS[i % len(ENDS)]}


STAGES = [
    Enum("long", long_layouts, test, "reports of up to 500 words (thorough: 1500), the white space varied"),
    Prop("random layouts", layouts, test,
         "random reports (well formed or not) laid out with random white space and '='; every reading and form must equal that "
         "of the plain layout; non-trivial: the layouts differ", 1200, 40000),
    Enum("each gap", every, test, "typical reports: every gap, start and end in turn"),
]
