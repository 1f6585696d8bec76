from .common import *
from .. import forms, read

st = gen.st

FRAMES = {
    "METAR": ("metar", "METAR PADK 151230Z {}", None),
    "METAR, more groups": ("metar", "METAR PADK 151230Z COR {} 10/05 Q1013 NOSIG RMK AO2", None),
    "SPECI": ("metar", "SPECI PADK 151230Z {}", None),
    "no type": ("metar", "PADK 151230Z {} TEMPO 0100 FG", None),
    "TEMPO trend": ("metar", "METAR PADK 151230Z 36099KT 0100 FG VV001 10/05 Q1013 TEMPO {}", 0),
    "BECMG trend": ("metar", "METAR PADK 151230Z 36099KT 0100 FG VV001 NOSIG BECMG FM1300 TL1400 {} RMK AO2", 1),
    "TAF": ("taf", "TAF PADK 151130Z 1512/1612 {}", None),
    "TAF, more groups": ("taf", "TAF AMD PADK 151130Z 1512/1612 {} TX10/1515Z TN05/1604Z BECMG 1514/1516 0100 FG", None),
    "FM": ("taf", "TAF PADK 151130Z 1512/1612 36099KT 0100 FG VV001 FM151400 {}", 0),
    "TEMPO": ("taf", "TAF PADK 151130Z 1512/1612 36099KT 0100 FG VV001 TEMPO 1514/1516 {} FM151600 CAVOK", 0),
    "BECMG": ("taf", "TAF PADK 151130Z 1512/1612 36099KT 0100 FG VV001 TEMPO 1514/1516 +TS BECMG 1514/1516 {}", 1),
    "PROB30": ("taf", "TAF PADK 151130Z 1512/1612 36099KT 0100 FG VV001 PROB30 1514/1516 {}", 0),
    "PROB40 TEMPO": ("taf", "TAF PADK 151130Z 1512/1612 36099KT 0100 FG VV001 FM151300 CAVOK PROB40 TEMPO 1514/1516 {} TEMPO 1520/1521 GR", 1),
    "eighth change": ("taf", "TAF PADK 151130Z 1512/1612 36099KT" + " TEMPO 1514/1516 FG" * 7 + " BECMG 1518/1520 {}", 7),
}


def part_of(reading, cls, index):
    p = reading if index is None else reading[PERIODS[cls]][index]
    keys = ("wind", "prevailing_visibility", "weathers", "clouds", "ceiling", "flight_rules", "should_be_cavok")
    return {k: p[k] for k in keys}


def test(ctx, case):
    groups = case["groups"]
    first = None
    for name, (cls, frame, index) in FRAMES.items():
        c = {"cls": cls, "text": " ".join(frame.format(" ".join(groups)).split()), "year": YEAR, "month": MONTH}
        rep = sut.make(c)
        r = read.read(rep, cls)
        if index is not None and len(r[PERIODS[cls]]) <= index:
            fail(f"{c['text']!r} has {len(r[PERIODS[cls]])} periods")
        p = part_of(r, cls, index)
        obj = rep if index is None else getattr(rep, PERIODS[cls])[index]
        p["forms"] = forms.weather_forms(obj)
        d = obj.as_dict()
        if "flight_rules" in d and d["flight_rules"] != p["flight_rules"]:
            fail(f"{c['text']!r}: the dictionary of {name} has the flight rules {d['flight_rules']!r}, which are {p['flight_rules']!r}")
        if r["unparsed_groups"]:
            fail(f"{c['text']!r}: {r['unparsed_groups']} is left unparsed")
        if first is None:
            first = (name, p)
        else:
            check_diff(first[1], p, f"{' '.join(groups)!r} in {name} and in {first[0]}")
    ctx.label(f"{len(groups)} groups")
    return len(groups) > 0


@st.composite
def conditions(draw):
    """Wind, visibility, weather and clouds that all sections can have."""
    g = gen.maybe(draw, gen.taf_wind, 70) + gen.maybe(draw, gen.taf_vis, 70) + gen.some(draw, gen.weather, 3, 60) + gen.some(draw, gen.cloud, 4, 70)
    return {"groups": [w for x in g for w in x.split()] if not draw(st.booleans()) else g}


def singles(tier):
    r = rng("c27")
    out = []
    for d in gen.DIRS + ["VRB"]:
        for s in ("00", "01", "05", "35", "99", "100", "P99"):
            for g in ("", "G10", "GP99", "G120"):
                for u in ("KT", "MPS"):
                    out.append([f"{d}{s}{g}{u}"])
    for v in list(range(0, 10000, 1 if tier == "thorough" else 37)) + [9999, 799, 800, 1599, 1600, 4999, 5000, 7999, 8000]:
        out.append([f"{v:04d}"])
        out.append([f"{v:04d}" + r.choice(["N", "NE", "E", "SE", "S", "SW", "W", "NW"])])
    for n in range(0, 100, 1 if tier == "thorough" else 7):
        for u in ("SM", "KM"):
            for p in ("", "P", "M"):
                out.append([f"{p}{n}{u}"])
                out.append([f"{p}{n % 10}{r.randrange(10)}/{r.randrange(1, 10)}{u}"])
        out.append([f"{n} {r.randrange(10)}/{r.randrange(1, 10)}SM"])
    out.append(["CAVOK"])
    from .. import tables as T
    for i in ["", "-", "+", "VC", "-VC", "+VC"]:
        for d in [""] + list(T.DESCRIPTOR):
            for ph in [""] + list(T.PRECIPITATION) + list(T.OBSCURATION) + list(T.OTHER):
                if d or ph:
                    out.append([i + d + ph])
    for c in ("FEW", "SCT", "BKN", "OVC", "0VC", "VV", "///", "NSC", "NCD", "SKC", "CLR"):
        for h in ("", "000", "001", "009", "010", "014", "015", "016", "049", "050", "051", "100", "999", "///"):
            for t in ("", "CB", "TCU", "///"):
                out.append([c + h + t])
    step = 1 if tier == "thorough" else 2
    for i, g in enumerate(out):
        if i % step == SEED % step:
            yield {"groups": g}


STAGES = [
    Enum("single groups", singles, test,
         "winds, visibilities, weathers and clouds, alone in each of 14 sections, which must all read alike (quick: half of them); all are non-trivial"),
    Prop("conditions", conditions, test, "random conditions of up to nine groups in each of the sections; non-trivial: some group", 400, 16000),
]
