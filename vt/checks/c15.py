import math

from .common import *
from .. import chaos

FT, NM, MI, INCH = 0.3048, 1852.0, 1609.344, 0.0254
INHG = 33.8638866667

# For each family: unit -> (factor, offset), the value in the unit being v * factor + offset.
FAMILIES = {
    "distance": {"meters": (1, 0), "kilometers": (1e-3, 0), "sea_miles": (1 / NM, 0), "feet": (1 / FT, 0)},
    "height": {"meters": (1, 0), "decimeters": (10, 0), "centimeters": (100, 0), "feet": (1 / FT, 0), "inches": (1 / INCH, 0)},
    "angle": {"in_degrees": (1, 0), "in_radians": (math.pi / 180, 0), "in_gradians": (10 / 9, 0)},
    "speed": {"in_knot": (1, 0), "in_mps": (NM / 3600, 0), "in_kph": (NM / 1000, 0), "in_miph": (NM / MI, 0)},
    "temperature": {"celsius": (1, 0), "kelvin": (1, 273.15), "fahrenheit": (1.8, 32), "rankine": (1.8, 491.67)},
    "pressure": {"hPa": (1, 0), "inHg": (1 / INHG, 0), "mbar": (1, 0), "bar": (1e-3, 0), "atm": (1 / 1013.25, 0)},
}
VIEWS = {
    "wind": [("angle", "direction_"), ("speed", "speed_"), ("speed", "gust_")],
    "wind_variation": [("angle", "from_"), ("angle", "to_")],
    "prevailing_visibility": [("distance", "in_"), ("angle", "direction_")],
    "minimum_visibility": [("distance", "in_"), ("angle", "direction_")],
    "runway_ranges": [("distance", "low_in_"), ("distance", "high_in_")],
    "clouds": [("distance", "height_in_")],
    "temperatures": [("temperature", "temperature_in_"), ("temperature", "dewpoint_in_")],
    "pressure": [("pressure", "in_")],
    "sea_state": [("temperature", "temperature_in_"), ("height", "height_in_")],
    "max_temperatures": [("temperature", "in_")],
    "min_temperatures": [("temperature", "in_")],
}


def check_views(kind, g, text):
    """Returns the number of known quantities."""
    known = 0
    for family, prefix in VIEWS[kind]:
        units = FAMILIES[family]
        values = {u: g[prefix + u] for u in units}
        missing = [u for u, v in values.items() if v is None]
        if missing and len(missing) != len(units):
            fail(f"{kind} {g['code']!r} of {text!r}: only some views are None: {values}")
        if missing:
            continue
        known += 1
        base = next(iter(units))
        for u, (k, c) in units.items():
            want = values[base] * k + c
            if abs(values[u] - want) > max(1e-9, 1e-5 * max(abs(want), abs(values[base] * k), abs(c))):
                fail(f"{kind} {g['code']!r} of {text!r}: {prefix}{u} is {values[u]!r}, should be {want!r} ({values})")
    return known


def test(ctx, case):
    r = sut.reading(case)
    want = expected(case)
    known = 0

    def walk(have, need):
        nonlocal known
        for kind in VIEWS:
            if kind not in have:
                continue
            many = isinstance(have[kind], list)
            for i, g in enumerate(have[kind] if many else [have[kind]]):
                known += check_views(kind, g, case["text"])
                # Known exactly when the code gives it: zero and negative values too.
                w = need[kind][i] if many else need[kind]
                for family, prefix in VIEWS[kind]:
                    base = prefix + next(iter(FAMILIES[family]))
                    if (g[base] is None) != (w[base] is None):
                        fail(f"{kind} {g['code']!r} of {case['text']!r}: {base} is {g[base]!r}, should be {w[base]!r}")
                    if w[base] == 0:
                        ctx.label("zero")
                    elif w[base] is not None and w[base] < 0:
                        ctx.label("negative")

    walk(r, want)
    for p, q in zip(r[PERIODS[case["cls"]]], want[PERIODS[case["cls"]]]):
        walk(p, q)
    return known > 0


def values(tier):
    """Every value of every quantity."""
    def m(tail):
        return {"cls": "metar", "text": "METAR PADK 151230Z " + tail, "year": YEAR, "month": MONTH}
    for n in range(200):
        yield m(f"27005G{n:02d}KT")
        yield m(f"VRB{n:02d}MPS")
    for d in range(0, 37):
        yield m(f"{d:02d}010KT")
        if d:
            yield m(f"27010KT {d:02d}0V{37 - d:02d}0")
    for v in range(0, 10000, 1 if tier == "thorough" else 25):
        yield m(f"27010KT {v:04d}SW {9999 - v:04d}NE R07/{v:04d}V{9999 - v:04d}FT")
    for h in range(0, 1000, 1 if tier == "thorough" else 3):
        yield m(f"27010KT OVC{h:03d}")
        yield m(f"27010KT CAVOK 10/05 W15/H{h:03d}")
    for t in range(100):
        for s in ("", "M"):
            yield m(f"27010KT CAVOK {s}{t:02d}/M{99 - t:02d} Q1013 W{s}{t:02d}/S3")
            yield {"cls": "taf", "text": f"TAF PADK 151130Z 1512/1612 27010KT CAVOK TX{s}{t:02d}/1514Z TN{s}{99 - t:02d}/1606Z", "year": YEAR, "month": MONTH}
    for p in range(0, 10000, 1 if tier == "thorough" else 17):
        yield m(f"27010KT CAVOK 10/05 Q{p:04d}")
        yield m(f"27010KT CAVOK 10/05 A{p:04d}")
    for f in ("0/1SM", "0SM", "00KM", "0/4KM", "1/2SM", "1 3/4SM", "P6SM", "M1/4SM", "99SM", "9999", "////", "CAVOK"):
        yield m(f"27010KT {f}")
        yield m(f"27010KT NOSIG TEMPO 00000KT {f} SCT000")
        yield {"cls": "taf", "text": f"TAF PADK 151130Z 1512/1612 27010KT CAVOK BECMG 1514/1516 00000KT {f} BKN000", "year": YEAR, "month": MONTH}


STAGES = [
    Enum("values", values, test, "every value of every quantity (quick: some of the four-digit ones); non-trivial: some known quantity"),
    Prop("reports", lambda: gen.st.one_of(gen.report_case(), gen.report_case(), chaos.mutant_case(dated=True)), test,
         "random reports; every quantity of the report and its periods; non-trivial: some known quantity", 1600, 60000),
    Prop("company", gen.company_case, test, "METARs and TAFs of groups at the limits of the rules, each there or not; non-trivial: some known quantity", 1200, 40000),
]
