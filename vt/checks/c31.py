"""A group affects only its own readings."""
from .common import *
from .. import chaos
from . import c24

st = gen.st

# Kind -> (attribute, is it a list, strategy of the groups of the kind)
METAR = {
    "TYPE": ("type_", gen.one(["METAR", "SPECI"])),
    "STATION": ("station", gen.one(["PADK", "KJFK", "FMMI", "EGLL", "MROC", "AB12", "K1G4"])),
    "MODIFIER": ("modifier", gen.modifier),
    "WIND": ("wind", gen.wind), "WINDVAR": ("wind_variation", gen.windvar),
    "VIS": ("prevailing_visibility", gen.vis), "MINVIS": ("minimum_visibility", gen.minvis),
    "RVR": ("runway_ranges", gen.rvr), "WX": ("weathers", gen.weather), "CLOUD": ("clouds", gen.cloud),
    "TEMPS": ("temperatures", gen.temps), "PRESSURE": ("pressure", gen.pressure_unit), "RECENT": ("recent_weather", gen.recent),
    "WINDSHEAR": ("windshears", gen.windshear), "SEA": ("sea_state", gen.sea), "RWYSTATE": ("runway_state", gen.rwystate),
}
TAF = {
    "STATION": METAR["STATION"], "AMD_COR": ("modifier", gen.one(["AMD", "COR"])), "TAFWIND": ("wind", gen.taf_wind), "TAFVIS": ("prevailing_visibility", gen.taf_vis),
    "WX": METAR["WX"], "CLOUD": METAR["CLOUD"], "TAF_TEMP": ("temps", chaos.taf_temp),
}
PART = {
    "WIND": ("wind", gen.wind), "TAFWIND": ("wind", gen.taf_wind), "VIS": ("prevailing_visibility", gen.vis), "WX": METAR["WX"], "CLOUD": METAR["CLOUD"],
    "TREND_PERIOD": ("trend_indicator", chaos.trend_period),
}
LISTS = ("runway_ranges", "weathers", "clouds", "windshears")
DERIVED = ("ceiling", "flight_rules", "should_be_cavok")
FROM = {"prevailing_visibility", "weathers", "clouds"}  # what the derived values follow from
TEXTS = ("raw_code", "sections", "body", "trend", "weather_changes", "code")


def where_of(case):
    """(segment, index in it, kind, its own text) of each decoded group that is a word or more."""
    want = expected(case)
    segs, remark = c24.segments(case["cls"], ref.words_of(case["text"]))
    out = []
    for n, p in enumerate([want] + want[PERIODS[case["cls"]]]):
        if n >= len(segs):
            break
        at = 0
        for kind, tok, _ in p["_decoded"]:
            while segs[n][at] != tok:
                at += 1
            out.append((n, at, kind, tok))
            at += 1
    return want, segs, remark, out


def text_of(segs, remark):
    return " ".join(ref.show(g) for s in segs for g in s) + (" " + " ".join(remark) if remark else "")


def table(cls, n):
    return PART if n else METAR if cls == "metar" else TAF


def test(ctx, case):
    cls = case["cls"]
    want, segs, remark, places = where_of(case)
    if case["place"] is None or ref.words_of(text_of(segs, remark)) != ref.words_of(case["text"]):
        return False  # nothing decoded, or a remark in the middle
    n, at, kind, tok = [p for p in places if p[2] in table(cls, p[0])][case["place"]]
    attr = table(cls, n)[kind][0]
    remove = case["new"] is None
    parts = [want] + want[PERIODS[cls]]
    if remove and (parts[n]["unparsed_groups"] if n else set(want["unparsed_groups"]) - {u for p in parts[1:] for u in p["unparsed_groups"]}
                   or kind in ("STATION", "TYPE")):
        return False  # other groups may take its place
    new = [] if remove else [ref.join_words(["X"] + case["new"].split())[1:]]
    if new and len(new[0]) != 1:
        return False
    new = new[0] if new else []
    changed = [list(s) for s in segs]
    changed[n][at:at + 1] = new
    text = text_of(changed, remark).strip()
    if not text:
        return False
    segs2, remark2 = c24.segments(cls, ref.words_of(text))
    if segs2 != changed or remark2 != remark:
        return False  # it joins a neighbour
    other = {"cls": cls, "text": text, "year": case["year"], "month": case["month"]}
    kinds = [p[2] for p in places]
    if [p[2] for p in where_of(other)[3]] != (kinds if not remove else [p[2] for p in places if p[:2] != (n, at)]):
        return False  # it may be taken for another kind
    a, b = sut.reading(case), sut.reading(other)
    what = f"{case['text']!r} with {' '.join(new).replace(ref.J, ' ')!r} for {ref.show(tok)!r}"

    def prune(r, drop):
        return {k: v for k, v in r.items() if k not in drop and k not in TEXTS and k not in ("weather_trends", "changes_forecasted")}

    pa, pb = [a] + a[PERIODS[cls]], [b] + b[PERIODS[cls]]
    if len(pa) != len(pb):
        fail(f"{what}: there are {len(pb) - 1} periods instead of {len(pa) - 1}")
    for i, (x, y) in enumerate(zip(pa, pb)):
        drop = set()
        if i == n:
            drop = {"max_temperatures", "min_temperatures", "unparsed_groups"} if attr == "temps" else {attr}
            if attr in FROM:
                drop |= set(DERIVED)
            if attr == "windshears":
                drop |= {"windshear_all_runways", "windshear_names"}
        check_diff(prune(x, drop), prune(y, drop), f"{what}: {'the body' if i == 0 else 'period %d' % i}")
    if attr in LISTS:
        k = sum(1 for m, j, kd, _ in places if m == n and j < at and table(cls, n).get(kd, ("",))[0] == attr)
        x, y = pa[n][attr], pb[n][attr]
        if len(y) != len(x) - (1 if remove else 0):
            fail(f"{what}: {attr} has {len(y)} items, had {len(x)}")
        rest = x[:k] + x[k + 1:]
        left = y[:] if remove else y[:k] + y[k + 1:]
        check_diff(rest, left, f"{what}: the other items of {attr}")
    ctx.label(("removed " if remove else "replaced ") + kind)
    return True


@st.composite
def replacements(draw):
    c = draw(st.one_of(gen.report_case(p=60), gen.report_case(p=85), gen.report_case(p=85), chaos.dated_case()))
    c = {k: c[k] for k in ("cls", "text", "year", "month")}
    usable = [p for p in where_of(c)[3] if p[2] in table(c["cls"], p[0])]
    if not usable:
        return dict(c, place=None, new=None)
    k = draw(st.integers(0, len(usable) - 1))
    new = None if draw(st.integers(0, 3)) == 0 else draw(table(c["cls"], usable[k][0])[usable[k][2]][1])
    return dict(c, place=k, new=new)


def pairs(tier):
    """Every group of full reports replaced by each of some groups of its kind, or removed."""
    for cls, text in c24.FULL:
        c = {"cls": cls, "text": text, "year": 2024, "month": 2}
        usable = [p for p in where_of(c)[3] if p[2] in table(cls, p[0])]
        for k, (n, at, kind, tok) in enumerate(usable):
            for new in [None] + OTHERS.get(kind, []):
                yield dict(c, place=k, new=new)


OTHERS = {
    "TYPE": ["METAR", "SPECI"], "STATION": ["KJFK", "FMMI", "AB12"], "MODIFIER": ["AUTO", "COR", "NIL", "TEST", "FINO"], "AMD_COR": ["AMD", "COR"],
    "WIND": ["00000KT", "VRB02KT", "36010G99KT", "/////KT", "18010MPS", "///10KT"], "WINDVAR": ["350V010", "180V180"],
    "VIS": ["CAVOK", "9999", "////", "0000", "10SM", "1/4SM", "P6SM", "0400N", "10KM"], "MINVIS": ["0000", "9999", "1500NE"],
    "RVR": ["R88/0000", "R25L/P2000FTD", "R07/0200V0400N"], "WX": ["NSW", "/", "+TSRA", "VCFG", "FC", "SQ"],
    "CLOUD": ["NSC", "SKC", "VV///", "VV001", "OVC000CB", "FEW250", "BKN///", "//////", "///030TCU"],
    "TEMPS": ["///05", "10///", "XX/XX", "00/00", "M00/M01", "40/M40"], "PRESSURE": ["Q0990", "A3010", "Q////", "A////"], "RECENT": ["RERA", "RESHSN", "REFG"],
    "WINDSHEAR": ["WS ALL RWY", "WS R25C"], "SEA": ["W00/S0", "WM05/H123", "WM01/H000"], "RWYSTATE": ["R88/CLRD//", "R/SNOCLO", "R99/999999", "R07/000000"],
    "TREND_PERIOD": ["AT1300", "FM1400", "TL1430"],
}
OTHERS["TAFWIND"] = [w for w in OTHERS["WIND"] if "/" not in w]
OTHERS["TAFVIS"] = [v for v in OTHERS["VIS"] if v not in ("////",)]
OTHERS["TAF_TEMP"] = ["TX10/1514Z", "TNM10/1514Z"]

RICH = {  # more groups of the kinds, at least one of each feature
    "MODIFIER": ["AMD", "CORR"], "WIND": ["27010G20KT", "VRB99G99MPS", "00000MPS", "36001KT", "/////G20KT", "270//KT", "10005KT"],
    "WINDVAR": ["010V360", "240V300"], "VIS": ["5000", "0050", "1SM", "1 1/2SM", "M1/4SM", "6KM", "0800", "1500", "3000S", "9000"],
    "MINVIS": ["0800S", "3000SW", "1200"], "RVR": ["R07C/M0050", "R11/P1500D", "R25/0600V1200U", "R99/1000N", "R07/M0200VP2000FTU", "R36R/0400FT"],
    "WX": ["-DZ", "BR", "FG", "TS", "VCSH", "-VCTS", "+FZRA", "BLSN", "MIFG", "BCFG", "DRDU", "PRFG", "SHGS", "SHSNRA", "PO", "DS", "+SS", "VA", "UP", "PY", "HZ", "FU", "TSGR"],
    "CLOUD": ["FEW001", "SCT005", "BKN009", "BKN010", "OVC030", "OVC999", "BKN015TCU", "SCT040///", "0VC010", "NCD", "CLR", "VV010", "///015", "FEW050CB", "BKN", "//////CB"],
    "TEMPS": ["10/05", "M10/M12", "20/M01", "01/01", "99/00", "MM/10", "/////"], "PRESSURE": ["Q1013", "Q1050", "A2992", "A2800", "QNH3010INS", "QNH1013", "A2999INS"],
    "RECENT": ["RESQ", "REPO", "REDS", "REFC", "RESS", "RETS", "RETSRA", "REBLSN", "REFZRA", "RETSGR", "REVA", "REDU", "REUP", "RESHRASN", "RESN", "RETSSQ"],
    "WINDSHEAR": ["WS R07", "WS R07L", "WS R36R", "WS RWY", "WS R88", "WS R07C"],
    "SEA": ["W10/S3", "W15/H040", "W20/S9", "W00/H001", "WM02/S5", "W05/S4", "W99/H999"],
    "RWYSTATE": ["R07L/290155", "R25/190160", "R36R/592592", "R07/CLRD//", "R25C/SNOCLO", "R18//////99", "R01/0///95", "R88/490294"],
    "TREND_PERIOD": ["FM1230", "TL1500", "AT2400", "FM0000"],
    "TAF_TEMP": ["TX25/1515Z", "TN00/1606Z", "TNM05/1512Z", "TXM01/1600Z"],
    "STATION": ["EGLL", "ZZZZ", "MROC", "K1G4"],
}
RICH = {k: OTHERS.get(k, []) + RICH.get(k, []) for k in OTHERS}
RICH["TAFWIND"] = [w for w in RICH["WIND"] if "/" not in w]
RICH["TAFVIS"] = [v for v in RICH["VIS"] if v not in ("////",)]


def frames(tier):
    """Reports with groups of every kind, each taken at random; every one of them replaced by another, or removed."""
    r = rng("frames")
    pick = lambda k: r.choice(RICH[k])  # noqa: E731
    some = lambda k, n: [pick(k) for _ in range(r.randint(1, n))]  # noqa: E731

    def part(n):
        return [pick("TREND_PERIOD")] * n + [pick("WIND"), pick("VIS")] + some("WX", 3) + some("CLOUD", 4)

    for n in range(1500 if tier == "thorough" else 150):
        if n % 3:
            words = [pick("TYPE"), pick("STATION"), "151230Z", pick("MODIFIER"), pick("WIND"), pick("WINDVAR"), pick("VIS"), pick("MINVIS")] + some("RVR", 3) + some("WX", 3)
            words += some("CLOUD", 4) + [pick("TEMPS"), pick("PRESSURE"), pick("RECENT")] + some("WINDSHEAR", 3) + [pick("SEA"), pick("RWYSTATE")]
            words += ["TEMPO"] + part(1) + ["BECMG"] + part(1)
            cls = "metar"
        else:
            words = ["TAF", pick("AMD_COR"), pick("STATION"), "151130Z", "1512/1612", pick("TAFWIND"), pick("TAFVIS")] + some("WX", 3) + some("CLOUD", 4) + some("TAF_TEMP", 4)
            for head in r.sample(["FM151300", "BECMG 1514/1516", "TEMPO 1515/1517", "PROB30 1516/1518", "PROB40 TEMPO 1517/1519"], 3):
                words += [head] + part(0)
            cls = "taf"
        c = {"cls": cls, "text": " ".join(words), "year": 2024, "month": 2}
        usable = [p for p in where_of(c)[3] if p[2] in table(cls, p[0])]
        for k, p in enumerate(usable):
            for new in [r.choice(RICH[p[2]]), r.choice(RICH[p[2]]) if n % 2 else None]:
                yield dict(c, place=k, new=new)


STAGES = [
    Enum("frames", frames, test, "reports with groups of every kind and feature, each group replaced by others of its kind, or removed; non-trivial as above"),
    Prop("replacements", replacements, test, "in random well-formed, mutated and soup reports one decoded group is replaced by another of its kind, or removed; "
         "every reading that does not follow from it is compared; non-trivial: done", 2400, 80000),
    Enum("pairs", pairs, test, "every group of six full reports replaced by each of some groups of its kind, or removed; non-trivial as above"),
]
