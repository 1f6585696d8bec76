"""The database of stations and countries."""
from .common import *
from .. import forms

from aeromet_py.database import get_country, get_stations
from aeromet_py.reports.models.base import Station

st = gen.st

COLUMN = {"ICAO": 1, "IATA": 2, "SYNOP": 3}
NAMES = ("name", "icao", "iata", "synop", "latitude", "longitude", "elevation")
_snap = None


def snapshot():
    """Rows, country names, and for each type: code -> first row."""
    global _snap
    if _snap is None:
        import json
        import os

        with open(os.path.join(os.path.dirname(ref.__file__), "stations.json"), encoding="utf-8") as f:
            d = json.load(f)
        first = {t: {} for t in COLUMN}
        for row in d["stations"]:
            for t, i in COLUMN.items():
                first[t].setdefault(row[i], row)
        _snap = d["stations"], d["countries"], first
    return _snap


def want_of(code, kind):
    rows, countries, first = snapshot()
    row = first[kind].get(code)
    r = dict(zip(NAMES, row)) if row else {n: None for n in NAMES}
    r["country"] = countries[row[7]] if row else None
    r["code"] = code
    return r


def test(ctx, case):
    """Stations looked up one after another, then all read, forwards or backwards."""
    made = []
    for code, kind in case["codes"]:
        made.append((code, kind, Station(code, kind)))
    found = 0
    for code, kind, s in made[::-1] if case["back"] else made:
        want = want_of(code, kind)
        check_diff(want, read.group(s, "station"), f"{kind} {code!r}")
        check_diff({k: want[k] for k in NAMES + ("country", "code")}, s.as_dict(), f"as_dict() of {kind} {code!r}")
        if str(s) != (f"Name: {want['name']} | Coordinates: {want['latitude']} {want['longitude']} | "
                      f"Elevation: {want['elevation']} m MSL | Country: {want['country']}"):
            fail(f"text of {kind} {code!r}: {str(s)!r}")
        if len(s) != len(code):
            fail(f"length of {kind} {code!r}: {len(s)}")
        found += want["name"] is not None
        ctx.label(kind + (" found" if want["name"] else " unknown"))
    return found > 0


def listed(tier):
    rows, _, first = snapshot()
    r = rng("c40")
    codes = [(c, t) for t in COLUMN for c in first[t] if c != "None"]
    r.shuffle(codes)
    for i in range(0, len(codes), 20):
        yield {"codes": [list(c) for c in codes[i:i + 20]], "back": i % 40 == 0}


def some():
    rows, _, first = snapshot()
    known = [gen.one([c for c in first[t] if c != "None"]) for t in COLUMN]
    code = st.one_of(*known, known[0].map(str.lower), st.text("ABCKMPRZ0123456789", min_size=1, max_size=5), st.text(st.characters(min_codepoint=33, max_codepoint=0x2fff, blacklist_categories=("Cs", "Cc", "Zs", "Zl", "Zp")), max_size=5).filter(lambda s: s != "None"),
                     known[0].map(lambda c: c[:3]), known[1].map(lambda c: c + " "), known[2].map(lambda c: c[1:]))
    return st.fixed_dictionaries({"codes": st.lists(st.tuples(code, gen.one(list(COLUMN))).map(list), min_size=1, max_size=12), "back": st.booleans()})


def table(tier):
    yield {"walk": "one"}
    yield {"walk": "two"}
    yield {"walk": "partial"}
    yield {"walk": "countries"}
    yield {"walk": "between"}


def table_test(ctx, case):
    rows, countries, first = snapshot()
    walk = case["walk"]
    if walk == "countries":
        for c, n in countries.items():
            if get_country(c) != n:
                fail(f"country {c!r} is {get_country(c)!r}, should be {n!r}")
        for c in ("", "ZZ", "us", "USA", "None", None):
            if c not in countries and get_country(c) is not None:
                fail(f"country {c!r} is {get_country(c)!r}")
        return True
    if walk == "partial":
        it = iter(get_stations())
        for _ in range(5):
            next(it)
    if walk == "two":
        for i, (a, b, want) in enumerate(zip(get_stations(), get_stations(), rows)):
            if list(a) != want or list(b) != want:
                fail(f"row {i} of two walks is {a!r} and {b!r}, should be {want!r}")
        return True
    got = []
    for i, row in enumerate(get_stations()):
        got.append(list(row))
        if walk == "between" and i % 500 == 0:
            Station("KJFK", "ICAO")
    if len(got) != len(rows):
        fail(f"{len(got)} stations, should be {len(rows)}")
    for g, w in zip(got, rows):
        if g != w:
            fail(f"station {g!r}, should be {w!r}")
    return True


STAGES = [
    Enum("table", table, table_test, "the whole table of stations and of countries, in one walk, two at once, after an abandoned one and with lookups between; every walk counts",
         exhaustive=True),
    Enum("listed", listed, test, "every listed ICAO, IATA and SYNOP code, in batches that are looked up together and read afterwards; non-trivial: some station is found",
         exhaustive=True),
    Prop("codes", some, test, "batches of known, misspelt, foreign and random codes of each type; non-trivial: some station is found", 1200, 20000),
]
