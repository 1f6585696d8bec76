from .common import *
from .. import chaos

st = gen.st

SAMPLE = {
    "TYPE": ["METAR", "SPECI"], "STATION": ["PADK", "KJFK"], "TIME": ["151230Z", "151245Z"], "MODIFIER": ["AUTO", "CORR"], "WIND": ["27010KT", "VRB02G15MPS"],
    "WINDVAR": ["240V300", "010V360"], "VIS": ["5000", "1 1/2SM", "CAVOK", "10SM"], "MINVIS": ["1200S", "0400"], "RVR": ["R07/1000", "R25L/M0600VP2000U"],
    "WX": ["-RA", "BR", "+TSGR"], "CLOUD": ["FEW010", "BKN015CB", "NSC", "VV001"], "TEMPS": ["10/05", "M02/M10"], "PRESSURE": ["Q1013", "A2992", "1013"],
    "RECENT": ["RERA", "RETS"], "WINDSHEAR": ["WS R07", "WS ALL RWY"], "SEA": ["W15/S4", "WM02/H012"], "RWYSTATE": ["R07L/290155", "R88/CLRD//"],
}
TAF = {
    "TYPE": ["TAF"], "AMD_COR": ["AMD", "COR"], "STATION": ["PADK", "KJFK"], "TIME": ["151130Z", "151140Z"], "NIL": ["NIL"], "VALID": ["1512/1612", "1518/1624"],
    "CANCELLED": ["CNL"], "TAFWIND": ["27010KT", "VRB02G15MPS"], "TAFVIS": ["5000", "1 1/2SM", "CAVOK"], "WX": ["-RA", "BR", "+TSGR"],
    "CLOUD": ["FEW010", "BKN015CB", "NSC", "VV001"], "TAF_TEMP": ["TX10/1515Z", "TNM05/1606Z", "TX12/1516Z", "TN01/1605Z"],
}
TREND = {"TREND_PERIOD": ["FM1300", "TL1400", "AT1330"], "WIND": SAMPLE["WIND"], "VIS": SAMPLE["VIS"], "WX": SAMPLE["WX"], "CLOUD": SAMPLE["CLOUD"]}
CHANGE = {"VALID": ["1514/1516", "1515/1524"], "TAFWIND": TAF["TAFWIND"], "VIS": SAMPLE["VIS"] + ["////"], "WX": SAMPLE["WX"], "CLOUD": SAMPLE["CLOUD"]}

# Each kind of section: the text before, the groups that it knows, and those of the other sections.
SECTIONS = {
    "METAR body": ("metar", "METAR PADK 151230Z", SAMPLE, ["TX10/1515Z", "1512/1612", "CNL", "FM1300", "FM151300", "NIL"]),
    "METAR from the start": ("metar", "", SAMPLE, ["TX10/1515Z", "1512/1612", "CNL", "FM1300", "TAF"]),
    "METAR trend": ("metar", "METAR PADK 151230Z 27010KT 9999 Q1013 TEMPO", TREND, ["240V300", "R07/1000", "10/05", "Q1013", "RERA", "1514/1516", "AUTO"]),
    "second METAR trend": ("metar", "METAR PADK 151230Z 27010KT NOSIG BECMG FM1300", TREND, ["240V300", "10/05", "Q1013", "WS R07"]),
    "NOSIG": ("metar", "METAR PADK 151230Z 27010KT NOSIG", TREND, ["10/05"]),
    "TAF body": ("taf", "TAF PADK 151130Z 1512/1612", TAF, ["240V300", "R07/1000", "10/05", "Q1013", "RERA", "////", "/////KT", "AUTO"]),
    "TAF from the start": ("taf", "", TAF, ["METAR", "10/05", "Q1013", "AUTO", "FM1300"]),
    "BECMG": ("taf", "TAF PADK 151130Z 1512/1612 27010KT BECMG", CHANGE, ["TX10/1515Z", "CNL", "240V300", "10/05", "Q1013", "/////KT"]),
    "FM": ("taf", "TAF PADK 151130Z 1512/1612 27010KT FM151400", dict(CHANGE, VALID=[]), ["TX10/1515Z", "CNL", "10/05", "RERA"]),
    "PROB TEMPO": ("taf", "TAF PADK 151130Z 1512/1612 27010KT PROB40 TEMPO 1514/1516", CHANGE, ["TX10/1515Z", "NIL", "10/05"]),
}
AFTER = {"metar": ["", "NOSIG", "RMK AO2", "TEMPO 9999"], "taf": ["", "TEMPO 1514/1516 TS", "FM160000 CAVOK"]}


def case_of(name, groups, after=""):
    cls, before, _, _ = SECTIONS[name]
    text = " ".join(w for w in (before, *groups, after) if w)
    return {"section": name, "cls": cls, "text": text, "year": YEAR, "month": MONTH}


def pairs(tier):
    """Every ordered pair (and pair of pairs) of kinds in every section."""
    r = rng("c26")
    for name, (cls, before, kinds, others) in SECTIONS.items():
        names = [k for k in kinds if kinds[k]]
        flat = [(k, g) for k in names for g in kinds[k]]
        for a, g in flat:
            for b, h in flat:
                if tier == "thorough" or a == b or r.random() < 0.5:
                    yield case_of(name, [g, h], r.choice(AFTER[cls]))
        for _ in range(4000 if tier == "thorough" else 250):
            ks = [r.choice(flat)[1] for _ in range(r.randrange(3, 7))]
            yield case_of(name, ks, r.choice(AFTER[cls]))
        # Repetitions of each kind, up to and above the places.
        for k in names:
            for n in range(1, 7):
                yield case_of(name, [r.choice(kinds[k]) for _ in range(n)])
                k2 = r.choice(names)
                yield case_of(name, [r.choice(kinds[k]) for _ in range(n)] + [kinds[k2][0]] + [kinds[k][0]])
        # Groups of other sections.
        for o in others:
            for k in names:
                yield case_of(name, [o, kinds[k][0]])
                yield case_of(name, [kinds[k][0], o, kinds[k][-1]])
        # One group moved to each place of the standard sequence.
        std = [kinds[k][0] for k in names]
        for i in range(len(std)):
            rest = std[:i] + std[i + 1:]
            for j in range(len(std)):
                yield case_of(name, rest[:j] + [std[i]] + rest[j:])
        yield case_of(name, std[::-1])
        yield case_of(name, std + std)


def test(ctx, case):
    want = expected(case)
    n = len(want["unparsed_groups"])
    compare_full(case, want)
    ctx.label(case.get("section", case["cls"]))
    return n > 0


@st.composite
def shuffled(draw):
    """The groups of a well-formed report in another order, some repeated."""
    c = draw(gen.report_case(p=65))
    body = [g for _, g in c["body"]]
    parts = [body] + [list(p) for p in (c["trends"] if c["cls"] == "metar" else c["changes"])]
    for i, p in enumerate(parts):
        how = draw(gen.one(["keep", "shuffle", "swap", "repeat", "swap", "repeat", "foreign"]))
        head = 0 if i == 0 else 1
        rest = p[head:]
        if not rest or how == "keep":
            continue
        k = len(rest)
        if how == "shuffle":
            rest = list(draw(st.permutations(rest)))
        elif how == "swap":
            a, b = draw(st.integers(0, k - 1)), draw(st.integers(0, k - 1))
            rest[a], rest[b] = rest[b], rest[a]
        elif how == "repeat":
            for _ in range(draw(st.integers(1, 3))):
                rest.insert(draw(st.integers(0, len(rest))), draw(gen.one(rest)))
        else:
            rest.insert(draw(st.integers(0, k)), draw(st.one_of(*chaos.BODY_KINDS.values(), chaos.taf_temp, chaos.valid, chaos.trend_period)))
        parts[i] = p[:head] + rest
    text = " ".join(g for p in parts for g in p)
    if c["cls"] == "metar" and c["remark"]:
        text += " " + c["remark"]
    return {"cls": c["cls"], "text": text, "year": c["year"], "month": c["month"]}


@st.composite
def sequences(draw):
    """Any sequence of well-formed groups in one section."""
    name = draw(gen.one(list(SECTIONS)))
    words = draw(st.lists(st.one_of(*chaos.BODY_KINDS.values(), chaos.taf_temp, chaos.valid, chaos.trend_period, chaos.time_z, gen.near_station), min_size=1, max_size=14))
    return case_of(name, words)


def far(tier):
    """Groups again after many others."""
    for name, (_, _, kinds, _) in SECTIONS.items():
        std = [k[0] for k in kinds.values() if k]
        for n in (20, 40, 63, 64, 100, 128, 200, 256, 300, 400, 512, 700) + ((1024, 2048) if tier == "thorough" else ()):
            for fill in (["XX"], ["XX", "1A", "FOO/BAR"], std[-1:], std[:1]):
                words = (fill * n)[:n]
                yield case_of(name, std + words + std)
                yield case_of(name, std[: len(std) // 2] + words + std[len(std) // 2:])
    yield from long_texts(tier)


STAGES = [
    Enum("pairs", pairs, test,
         "for each of ten sections: pairs of groups of all kinds, repetitions up to above the places, one group moved to every place, groups of other sections, "
         "random sequences; the whole reading is compared with the reference; non-trivial: some group is left unparsed"),
    Enum("far", far, test, "groups again after up to 700 (thorough: 2048) others in each of the sections; non-trivial as above"),
    Prop("shuffled", shuffled, test, "well-formed reports with groups moved, repeated or foreign; non-trivial as above", 2000, 80000),
    Prop("sequences", sequences, test, "random sequences of well-formed groups in a section; non-trivial as above", 1600, 60000),
]
