import calendar

from .common import *
from .. import chaos
from .. import tables as T

TOP = ("type_", "station", "time", "modifier", "missing")


def test(ctx, case):
    want, got = compare(case, TOP, ())
    ctx.label("station listed" if want["station"]["name"] else "station not listed or absent")
    return True


def stations(tier):
    rows = [r for r in ref.database()[0] if ref.recognise("STATION", r)]
    for i, icao in enumerate(rows):
        if tier == "thorough" or i % 2 == SEED % 2:
            yield {"cls": "metar", "text": f"METAR {icao} 151230Z 27010KT", "year": 2024, "month": 2}
        if tier == "thorough" or i % 2 != SEED % 2:
            yield {"cls": "taf", "text": f"TAF {icao} 151130Z 1512/1612 27010KT", "year": 2024, "month": 2}
    r = rng("stations")
    letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    for _ in range(20000 if tier == "thorough" else 1000):
        code = r.choice(letters) + "".join(r.choice(letters + "0123456789") for _ in range(3))
        yield {"cls": r.choice(["metar", "taf"]), "text": f"{code} 151230Z", "year": 2024, "month": 2}


def times(tier):
    i = 0
    for d in range(1, 32):
        for h in range(24):
            for mi in range(60):
                i += 1
                if tier == "thorough" or i % 11 == SEED % 11:
                    cls = ("metar", "taf")[i % 2]
                    y = (2024, 2023, 1999, 2000, 1900, 2100)[i % 6]
                    yield {"cls": cls, "text": f"{'METAR' if cls == 'metar' else 'TAF'} PADK {d:02d}{h:02d}{mi:02d}Z", "year": y, "month": 1 + i % 12}
    for y, m, d, cls in product((1900, 1999, 2000, 2023, 2024, 2100), range(1, 13), (1, 28, 29, 30, 31), ("metar", "taf")):
        yield {"cls": cls, "text": f"PADK {d:02d}2359Z 00000KT", "year": y, "month": m}
        if d == 1:
            yield {"cls": cls, "text": "PADK 00000KT 9999", "year": y, "month": m}
            yield {"cls": cls, "text": "CAVOK", "year": y, "month": m}


def headers(tier):
    for t, a, c, s, z, mod in product(["", "METAR", "SPECI", "TAF"], ["", "AMD", "COR"], ["metar", "taf"], ["", "PADK", "ZZZZ"],
                                      ["", "291230Z"], [""] + list(T.MODIFIERS) + ["AUTO COR", "NOTAMOD"]):
        text = " ".join(x for x in (t, a, s, z, mod, "27010KT") if x)
        yield {"cls": c, "text": text, "year": 2023, "month": 2}
        yield {"cls": c, "text": text, "year": 2024, "month": 2}


STAGES = [
    Enum("stations", stations, test, "every listed station (quick: each as METAR or as TAF) and random codes"),
    Enum("times", times, test, "every day, hour and minute (quick: an eleventh of them), the ends of every month in six years, no time group"),
    Enum("headers", headers, test, "every combination of type, AMD/COR, station, time and modifier, present or absent", exhaustive=True),
    Prop("reports", lambda: gen.st.one_of(gen.report_case(), chaos.dated_case()), test, "random reports, well formed or not", 1600, 40000),
]
