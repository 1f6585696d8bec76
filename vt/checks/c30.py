"""The sections of a report do not influence each other."""
import collections

from .common import *
from .. import chaos

st = gen.st
TEXTS = {"raw_code", "sections", "body", "trend", "remark", "weather_changes", "unparsed_groups", "weather_trends", "changes_forecasted"}


def without(reading, keys=TEXTS):
    return {k: v for k, v in reading.items() if k not in keys}


def open_end(change):
    """A change without what the changes after it decide: the end of an FM change."""
    i = change["change_indicator"]
    if not (i["code"] or "").startswith("FM") or i["valid"]["code"] is not None:
        return change
    v = {k: x for k, x in i["valid"].items() if k in ("code", "period_from")}
    return dict(change, change_indicator={"code": i["code"], "valid": v})


def undated(change):
    i = change["change_indicator"]
    return dict(change, change_indicator={"code": i["code"]})


def part(case, text):
    return sut.reading({"cls": case["cls"], "text": text, "year": case["year"], "month": case["month"]})


def total(readings):
    c = collections.Counter()
    for r in readings:
        c.update(r["unparsed_groups"])
    return c


def metar_test(ctx, case):
    body, trends, remark = ref.metar_sections(case["text"])
    whole = sut.reading(case)
    where = repr(case["text"])
    alone = part(case, " ".join(body)) if body else None
    if alone:
        check_diff(without(alone), without(whole), f"{where} against its body alone")
    head = "METAR PADK " + (whole["time"]["code"] or "")
    more = []
    for t, got in zip(trends, whole["weather_trends"]):
        one = part(case, head + " " + " ".join(t))
        if len(one["weather_trends"]) != 1:
            fail(f"{' '.join(t)!r} alone makes {len(one['weather_trends'])} trends")
        check_diff(one["weather_trends"][0], got, f"trend {' '.join(t)!r} of {where} against it alone")
        more.append(one)
    if alone and len(trends) <= 2 and total([whole]) != total([alone] + more):
        fail(f"unparsed groups of {where} are {whole['unparsed_groups']}, those of the parts alone {dict(total([alone] + more))}")
    # Another remark, or none.
    words = [w for w in body + [w for t in trends for w in t]]
    if words:
        for rest in ([], ["RMK"] + case["other"]):
            r = part(case, " ".join(words + rest))
            check_diff(without(whole, TEXTS - {"unparsed_groups", "weather_trends"}), without(r, TEXTS - {"unparsed_groups", "weather_trends"}),
                       f"{where} with the remark {' '.join(rest)!r}")
    return bool(trends or remark)


def taf_test(ctx, case):
    body, changes = ref.taf_sections(case["text"])
    whole = sut.reading(case)
    where = repr(case["text"])
    show = lambda gs: " ".join(ref.show(g) for g in gs)
    alone = part(case, show(body))
    check_diff(without(alone), without(whole), f"{where} against its body alone")
    given = whole["valid"]["code"] if "VALID" in [k for k, _, _ in expected(case)["_decoded"]] else None
    head = " ".join(x for x in ("TAF PADK", whole["time"]["code"], given) if x)
    more = []
    for c, got in zip(changes, whole["changes_forecasted"]):
        one = part(case, head + " " + show(c))
        if len(one["changes_forecasted"]) != 1:
            fail(f"{show(c)!r} alone makes {len(one['changes_forecasted'])} changes")
        a, b = one["changes_forecasted"][0], got
        if given is None:
            a, b = undated(a), undated(b)
        check_diff(open_end(a) if given else a, open_end(b) if given else b, f"change {show(c)!r} of {where} against it alone")
        more.append(one)
    if len(changes) <= 8 and total([whole]) != total([alone] + more):
        fail(f"unparsed groups of {where} are {whole['unparsed_groups']}, those of the parts alone {dict(total([alone] + more))}")
    return bool(changes)


def test(ctx, case):
    ctx.label(case["cls"])
    return (metar_test if case["cls"] == "metar" else taf_test)(ctx, case)


REMARK = st.one_of(st.lists(gen.one(gen.REMARK_WORDS), min_size=1, max_size=6), gen.one([["AO2"], ["SLP140", "T02940233"], ["27010KT", "9999", "BKN010"], ["10/05", "Q0990"], ["A2992"], ["CAVOK"], ["VIS", "1", "1/2SM"], ["WS", "R07"], ["FM1300"], ["151200Z"]]))


@st.composite
def crossed(draw):
    """The body of a report with the trends, remark or changes of another one."""
    cls = draw(gen.one(["metar", "metar", "taf"]))
    source = st.one_of(gen.metar_case(p=70), gen.metar_case(p=30)) if cls == "metar" else st.one_of(gen.taf_case(p=70), gen.taf_case(p=30))
    if draw(st.integers(0, 3)) == 0:
        a = draw(source)
        text = draw(chaos.mutate(a["text"], edits=2))
        c = {"cls": cls, "text": text, "year": a["year"], "month": a["month"]}
    else:
        a, b = draw(source), draw(source)
        if cls == "metar":
            text = gen.assemble_metar(a["body"], b["trends"] or a["trends"], draw(gen.one([a, b]))["remark"])
        else:
            text = gen.assemble_taf(a["body"], b["changes"] or a["changes"])
        c = {"cls": cls, "text": text, "year": a["year"], "month": a["month"]}
    c["other"] = draw(REMARK)
    return c


@st.composite
def wild(draw):
    c = draw(chaos.dated_case())
    c["other"] = draw(REMARK)
    return c


BODIES = ["", "27010KT", "27010G20KT 9999", "CAVOK", "1500 FG VV001", "27010KT 9999 -RA BKN005", "P6SM NSW SKC", "VRB02KT 0800 +TSRA OVC001CB"]
PARTS = ["", "27010KT", "9999", "1500", "CAVOK", "-RA", "NSW", "BKN004", "NSC", "30015G25KT 3000 BR BKN012", "XXX"]


def tables(tier):
    """Every body of a list with every group of another in the trend or change."""
    for i, (b, p) in enumerate(product(BODIES, PARTS)):
        for ind in ("TEMPO", "BECMG", "NOSIG", "BECMG FM1300 TL1330"):
            yield {"cls": "metar", "text": f"METAR PADK 151230Z {b} {ind} {p} TEMPO 2000", "year": 2024, "month": 2, "other": ["Q1013"]}
        for ind in ("BECMG 1514/1516", "TEMPO 1514/1518", "PROB30 1514/1516", "FM151400", "PROB40 TEMPO 1523/1601"):
            yield {"cls": "taf", "text": f"TAF PADK 151130Z 1512/1612 {b} {ind} {p} BECMG 1602/1604 {PARTS[i % len(PARTS)]}", "year": 2024, "month": 2, "other": []}


def words(tier):
    """Every word that the code mentions in the remark of some reports."""
    for w in gen.REMARK_WORDS:
        for text in ("SPECI KJFK 151230Z 27010G20KT 10SM -RA BR FEW010 BKN020CB 10/05 A2992", "METAR PADK 151230Z AUTO 27010KT 9999 2000N R07/1000 OVC010 M01/// Q1013 RERA WS R07 W10/S4 "
                     "R07/290155 TEMPO FM1300 2000 -SN BKN005", "METAR EGLL 151230Z VRB02KT CAVOK 20/20 Q0990 NOSIG"):
            yield {"cls": "metar", "text": text + " RMK " + w, "year": 2024, "month": 2, "other": ["AO2"]}


STAGES = [
    Prop("crossed", crossed, test, "bodies with the trends, changes and remarks of other reports, some mutated: every section is compared with it alone, and "
         "under other remarks; non-trivial: with a trend, change or remark", 1600, 60000),
    Prop("wild", wild, test, "mutated, shuffled and soup reports; non-trivial as above", 800, 30000),
    Enum("words", words, test, "every word that the code mentions in the remark of three reports; all are non-trivial"),
    Enum("tables", tables, test, "8 bodies x 11 groups in trends and changes of each kind; all are non-trivial"),
    Enum("shapes", lambda tier: (dict(c, other=["AO2", "T01000050"]) for c in shapes(tier)), test, SHAPES),
]
