from .common import *
from .. import chaos

TOP = PART = ("flight_rules",)
# Either side of every limit, in feet and metres.
BASES = ["000", "001", "002", "004", "005", "009", "010", "011", "029", "030", "031", "050", "999"]
VIS = ["0000", "0799", "0800", "0801", "1599", "1600", "4999", "5000", "5001", "7999", "8000", "9998", "9999", "CAVOK", "////",
       "1/4SM", "1/2SM", "3/4SM", "1SM", "2SM", "3SM", "4SM", "5SM", "P6SM", "10SM", "99SM", "0KM", "10KM", "50KM"]
SKY = [""] + [c + b for c in ("BKN", "OVC", "VV") for b in BASES] + ["FEW001", "SCT002", "NSC", "///", "///001", "BKN///", "VV///", "OVC", "OVC///", "SKC",
       "FEW001 BKN009", "BKN030 OVC001", "BKN/// OVC001", "SCT001 SCT002 VV005", "OVC050 VV001", "FEW000 SCT000", "VV/// BKN001", "BKN CB BKN002", "///001 BKN020",
       "0VC001", "0VC015", "FEW001 0VC030"]


ORDER = {"VLIFR": 0, "LIFR": 1, "IFR": 2, "MVFR": 3, "VFR": 4, None: 5}


def test(ctx, case):
    c = place_token(case["context"], case["token"]) if "token" in case else case
    want, got = compare(c, TOP, PART)
    ctx.label(str(got["flight_rules"]))
    return got["flight_rules"] is not None or any(p["flight_rules"] for p in got[PERIODS[c["cls"]]])


def limits(tier):
    contexts = ALL if tier == "thorough" else ("metar", "trend", "taf", "becmg", "fm")
    for i, (v, s) in enumerate(product([""] + VIS, SKY)):
        if not v and not s:
            for c in contexts:
                yield {"context": c, "token": "27010KT"}
        token = f"{v} {s}".strip()
        if tier == "thorough":
            for c in contexts:
                yield {"context": c, "token": token}
        else:
            yield {"context": contexts[i % len(contexts)], "token": token}
            if i % 2:
                yield {"context": contexts[(i // 2) % len(contexts)], "token": token}


def scan(tier):
    """Every visibility and every base: monotone, and the limits exact."""
    for v in range(0, 10000, 1 if tier == "thorough" else 5):
        yield {"context": "metar", "token": f"{v:04d} FEW050"}
    for h in range(1000):
        for c in ("BKN", "OVC", "VV"):
            if tier == "thorough" or (h < 60) or h % 3 == 0:
                yield {"context": ("metar", "taf", "trend")[h % 3], "token": f"9999 SCT001 {c}{h:03d}"}


@gen.st.composite
def pairs(draw):
    """The same report with the ceiling or visibility lowered."""
    v = sorted([draw(gen.st.integers(0, 9999)), draw(gen.st.integers(0, 9999))])
    h = sorted([draw(gen.st.one_of(gen.st.integers(0, 60), gen.st.integers(0, 999))), draw(gen.st.one_of(gen.st.integers(0, 60), gen.st.integers(0, 999)))])
    cover = draw(gen.one(["BKN", "OVC", "VV"]))
    more = draw(gen.st.lists(gen.layer, max_size=2))
    front = draw(gen.one(["", "FEW010 ", "SCT002 "]))
    tail = (" " + " ".join(more)) if more else ""
    c = draw(gen.one(ALL))
    hi = f"{v[1]:04d} {front}{cover}{h[1]:03d}{tail}"
    lo = f"{v[draw(gen.st.integers(0, 1))]:04d} {front}{cover}{h[draw(gen.st.integers(0, 1))]:03d}{tail}"
    return {"context": c, "high": hi, "low": lo}


def rules_at(context, token):
    case = place_token(context, token)
    r = sut.reading(case)
    if context in ("metar", "metar_full", "taf"):
        return r["flight_rules"]
    return r[PERIODS[case["cls"]]][1 if context in ("trend2", "fm") else 0]["flight_rules"]


def pair_test(ctx, case):
    a, b = rules_at(case["context"], case["high"]), rules_at(case["context"], case["low"])
    if a is None or b is None or ORDER[b] > ORDER[a]:
        fail(f"{case['high']!r} is {a} but {case['low']!r} is {b}")
    ctx.label("worse" if ORDER[b] < ORDER[a] else "same")
    return a != b


STAGES = [
    Enum("limits", limits, test, "29 visibilities x 60 skies at either side of every limit, in several sections; non-trivial: some category"),
    Enum("scan", scan, test, "every visibility and every ceiling over all their digits"),
    Prop("lowering", pairs, pair_test, "lowering the ceiling or the visibility; non-trivial: the category changes", 800, 30000),
    report_stage("reports", lambda: gen.st.one_of(gen.report_case(), chaos.mutant_case(dated=True)), TOP, PART,
                 lambda case, want: want["flight_rules"] is not None, "random reports", 1600),
    company(TOP, PART),
]
