"""Hypothesis strategies for groups, reports and their variations.

Every group strategy yields the text of a well-formed group (blank-separated words when the
group has several). Reports are built as dicts {"cls", "text", "year", "month", ...}.
"""
import calendar
import datetime as dt

from hypothesis import strategies as st

from . import ref
from . import tables as T
from .words import NUMBERS, WORDS

one = st.sampled_from


def digits(n, lo=0, hi=None):
    hi = 10 ** n - 1 if hi is None else hi
    near = sorted({v for m in NUMBERS for v in (m - 1, m, m + 1, m // 100) if lo <= v <= hi}) if hi - lo > 40 else []
    s = st.integers(lo, hi)
    return (st.one_of(s, s, s, s, one(near)) if near else s).map(lambda v: f"{v:0{n}d}")


def opt(s, p=0.5):
    """s or the empty string."""
    return st.one_of(st.just(""), s) if p == 0.5 else st.integers(0, 99).flatmap(
        lambda v: s if v < p * 100 else st.just(""))


def cat(*parts):
    return st.tuples(*[st.just(p) if isinstance(p, str) else p for p in parts]).map("".join)


DIRS = [f"{d:03d}" for d in range(0, 361, 10)]

# --------------------------------------------------------------------------- groups

speed2or3 = st.one_of(digits(2), digits(2), digits(3), one(["00", "99", "01", "100", "000", "199"]))
gust = cat(one(["G", "G", "G", "GP"]), speed2or3)
wind_plain = cat(one(DIRS + ["VRB"] * 4), one(["", "", "", "P"]), speed2or3, opt(gust), one(["KT", "KT", "MPS"]))
wind_slashes = cat(
    one(DIRS + ["VRB", "///", "///", "///"]),
    one(["", "P"]),
    st.one_of(one(["//", "///"]), speed2or3),
    opt(gust),
    one(["KT", "MPS"]),
)
wind = st.one_of(wind_plain, wind_plain, wind_plain, wind_slashes)
taf_wind = wind_plain
windvar = cat(one(DIRS[1:]), "V", one(DIRS[1:]))

compass = one(list(T.COMPASS8))
VIS_EDGES = ["0000", "0050", "0799", "0800", "1599", "1600", "4999", "5000", "7999", "8000", "9998", "9999", "0001"]
metres = st.one_of(one(VIS_EDGES), digits(4))
fraction = cat(digits(1), "/", digits(1, 1, 9))
sane_fraction = one(["1/2", "1/4", "3/4", "1/8", "3/8", "5/8", "7/8", "1/16"[:3], "2/3"])
vis_metres = cat(metres, opt(compass, 0.35))
miles_int = st.one_of(st.integers(0, 99).map(str), one(["10", "7", "6", "5", "3", "1", "0"]))
vis_miles = st.one_of(
    cat(one(["", "", "P", "M"]), miles_int, "SM"),
    cat(one(["", "", "P", "M"]), st.one_of(sane_fraction, fraction), "SM"),
    cat(one(["", "P"]), digits(1), st.one_of(sane_fraction, fraction), "SM"),
    cat(st.integers(0, 99).map(str), " ", st.one_of(sane_fraction, fraction), "SM"),
)
vis_km = st.one_of(
    cat(one(["", "", "P", "M"]), st.one_of(miles_int, digits(2)), "KM"),
    cat(one(["", "P", "M"]), fraction, "KM"),
    cat(one(["", "P", "M"]), digits(1, 1), fraction, "KM"),
)
taf_vis = st.one_of(vis_metres, vis_metres, vis_metres, vis_miles, vis_km, st.just("CAVOK"))
vis = st.one_of(taf_vis, taf_vis, taf_vis, cat("////", opt(compass, 0.3)))
minvis = cat(metres, opt(compass, 0.8))

runway = cat(st.one_of(digits(2, 1, 36), digits(2, 1, 36), digits(2), one(["88", "99", "00"])), one(["", "", "L", "C", "R"]))
rvr_value = st.one_of(digits(4), digits(4), digits(3), digits(2), one(["0000", "2000", "0050"])).filter(lambda v: v != "9999")
rvr = cat("R", runway, "/", one(["", "", "M", "P"]), rvr_value,
          st.one_of(st.just(""), cat("V", one(["", "", "M", "P"]), rvr_value)),
          one(["", "", "FT"]), one(["", "N", "U", "D"]))

_wx_pieces = st.tuples(
    one([""] * 3 + list(T.INTENSITY)),
    one([""] * 4 + list(T.DESCRIPTOR)),
    one([""] + list(T.PRECIPITATION) + list(T.OBSCURATION) + list(T.OTHER)),
)
weather = st.one_of(
    _wx_pieces.filter(lambda p: p[1] or p[2]).map("".join),
    one(["-RA", "+TSRA", "VCSH", "VCTS", "FG", "BR", "TS", "NSW", "-SHRA", "FZFG", "/"]),
)
recent = st.tuples(
    one([""] * 2 + list(T.DESCRIPTOR)),
    one([""] * 2 + list(T.PRECIPITATION)),
    one([""] * 5 + T.RECENT_OBSCURATION),
    one([""] * 5 + T.RECENT_OTHER),
).filter(any).map(lambda p: "RE" + "".join(p))

HEIGHT_EDGES = ["000", "001", "002", "004", "005", "009", "010", "014", "015", "016", "029", "030", "049", "050", "051", "999"]
height = st.one_of(one(HEIGHT_EDGES), digits(3), digits(3, 0, 60))
layer = cat(one(["FEW", "SCT", "BKN", "OVC", "BKN", "OVC", "FEW", "SCT", "0VC"]),
            st.one_of(height, height, height, height, st.just("///")),
            one([""] * 6 + ["CB", "TCU", "///"]))
cloud = st.one_of(
    layer, layer, layer, layer, layer, layer,
    cat("VV", st.one_of(height, st.just("///"))),
    one(["NSC", "NCD", "SKC", "CLR"]),
    one(["///", "//////", "//////CB", "//////TCU", "/////////", "///015", "///050CB", "FEW", "BKN", "OVC", "VV", "BKNCB", "OVC///CB"]),
)

_temp_value = st.one_of(cat(one(["", "M", "", "M", "-"]), st.one_of(digits(2), one(["00", "01", "40", "99"]))),
                        one(["//", "XX", "MM"]))
_temp_number = cat(one(["", "M"]), digits(2))
temps = st.one_of(cat(_temp_number, "/", _temp_number), cat(_temp_value, "/", _temp_value))

pressure_unit = st.one_of(
    cat(one(["Q", "Q", "QNH"]), st.one_of(digits(4, 900, 1100), digits(4), st.just("////"))),
    cat(one(["A"]), st.one_of(digits(4, 2700, 3100), digits(4), st.just("////"))),
    cat(one(["QNH", "A", "Q"]), digits(4, 2700, 3100), "INS"),
)
pressure_bare = st.one_of(digits(4, 850, 1090), digits(4, 2501, 3200), one(["2500", "2501", "////"]),
                          digits(4), cat(digits(4, 2700, 3100), "INS"))
windshear = st.one_of(cat("WS ", one(["R", "RWY"]), runway), cat("WS ", one(["R", "RWY"]), runway), st.just("WS ALL RWY"))
windshear_rwy = cat("WS ", one(["R", "RWY"]), runway)
sea = cat("W", one(["", "M"]), digits(2), "/", st.one_of(cat("S", digits(1)), cat("H", digits(3)), cat("H", digits(3, 0, 40))))
friction2 = st.one_of(digits(2), one(["00", "90", "91", "99", "//", "95"]))
rwystate = cat("R", runway, "/", st.one_of(
    cat(one(list("0123456789/")), one(list("0123456789/")), friction2, friction2),
    cat(one(list("0123456789/")), one(list("1259/")), friction2, friction2),
    st.just("SNOCLO"), st.just("CLRD//")))

modifier = one(["COR", "CORR", "AMD", "NIL", "TEST", "FINO", "AUTO", "AUTO", "AUTO"])

_rows = list(ref.database()[0])
_listed = [c for c in _rows if c != "None" and not c.startswith(("RMK", "PROB"))]
_near = _listed[:40]
random_station = cat(one("ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
                     st.text("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", min_size=3, max_size=3)
                     ).filter(lambda s: not s.startswith(("RMK", "PROB")))
station = st.one_of(one(_near), one(_near), one(_near), one(_near), one(_near), one(_listed), random_station, one([c for c in _listed if c.startswith("FM")]))
near_station = one(_near)

year = st.one_of(st.integers(2000, 2040), one([1900, 1904, 1999, 2000, 2020, 2023, 2024, 2099, 2100]))


def days_in(y, m):
    return calendar.monthrange(y, m)[1]


@st.composite
def issue(draw):
    """A date and time of issue, biased to the ends of months, years and days."""
    y = draw(year)
    m = draw(st.one_of(st.integers(1, 12), one([2, 12, 1])))
    last = days_in(y, m)
    d = draw(st.one_of(st.integers(1, last), one([1, last, last, max(1, last - 1)])))
    h = draw(st.one_of(st.integers(0, 23), one([0, 22, 23])))
    mi = draw(st.one_of(st.integers(0, 59), one([0, 30, 59])))
    return dt.datetime(y, m, d, h, mi)


def maybe(draw, strategy, percent):
    if draw(st.integers(0, 99)) < percent:
        return [draw(strategy)]
    return []


def some(draw, strategy, limit, percent):
    if draw(st.integers(0, 99)) >= percent:
        return []
    n = draw(st.integers(1, limit))
    return [draw(strategy) for _ in range(n)]


REMARK_WORDS = [w for w in WORDS if not w.startswith(("NOSIG", "TEMPO", "BECMG", "RMK"))]
RMK = st.one_of(st.lists(one(REMARK_WORDS), min_size=1, max_size=4).map(lambda w: " ".join(["RMK"] + w)), one(["RMK AO2 SLP123", "RMK A2992", "RMK FOO BAR QFE 762", "RMK", "RMK T01230045 9999 SCT020", "RMKS X/Y = Z",
                                            "RMK AO2 PK WND 28045/1955 WSHFT 1930 TSNO SLP013 P0009 T01720100 10233 20150 58033 $", "RMK TSNO A2992 CIG 005V010",
                                            "RMK RAB05E30SNB20 VIRGA SW PRESRR PRESFR FRQ LTGICCG OHD", "RMK SF5NS3 CVCTV SLPNO CAVOK 9999", "RMK WS R07 WIND SKEED RWY 27 25010KT"]))


@st.composite
def trend_words(draw, time, p=60, inside=True):
    """A METAR trend: the list of its groups."""
    ind = draw(one(["TEMPO", "BECMG"]))
    groups = [ind]
    k = draw(one([0, 0, 1, 1, 2]))
    if k == 1:
        groups.append(draw(one(["FM", "TL", "AT"])) + draw(trend_hhmm(time)))
    elif k == 2:
        a, b = sorted([draw(st.integers(0, 120)), draw(st.integers(0, 120))])
        groups.append("FM" + hhmm(time + dt.timedelta(minutes=a), draw(st.booleans())))
        groups.append("TL" + hhmm(time + dt.timedelta(minutes=b), draw(st.booleans())))
    groups += maybe(draw, wind, p)
    groups += maybe(draw, vis, p)
    groups += some(draw, weather, 3, p)
    groups += some(draw, cloud, 4, p)
    return groups


def hhmm(t, use24):
    if t.hour == 0 and t.minute == 0 and use24:
        return "2400"
    return f"{t:%H%M}"


def trend_hhmm(time):
    to_midnight = (24 * 60 - (time.hour * 60 + time.minute)) % (24 * 60)
    edges = [0, 1, 59, 60, 61, 119, 120]
    if to_midnight <= 120:
        edges += [to_midnight] * 4
    return st.tuples(st.one_of(st.integers(0, 120), one(edges)), st.booleans()).map(
        lambda v: hhmm(time + dt.timedelta(minutes=v[0]), v[1]))


@st.composite
def metar_groups(draw, p=60, trends=True, remark=True, stations=station, at=None):
    """A well-formed METAR as [(kind, group text)] for body, list of trends, remark."""
    time = at or draw(issue())
    body = []
    t = draw(one(["METAR", "METAR", "SPECI", ""]))
    if t:
        body.append(("TYPE", t))
    body.append(("STATION", draw(stations)))
    body.append(("TIME", f"{time:%d%H%M}Z"))

    def add(kind, groups):
        for g in groups:
            body.append((kind, g))

    add("MODIFIER", maybe(draw, modifier, 30))
    add("WIND", maybe(draw, wind, p + 10))
    add("WINDVAR", maybe(draw, windvar, p // 2))
    v = maybe(draw, vis, p + 10)
    add("VIS", v)
    if v and v[0][:4].isdigit():
        add("MINVIS", maybe(draw, minvis, 40))
    add("RVR", some(draw, rvr, 3, p // 2))
    add("WX", some(draw, weather, 3, p))
    add("CLOUD", some(draw, cloud, 4, p))
    add("TEMPS", maybe(draw, temps, p))
    anchored = body[-1][0] in ("RVR", "WX", "CLOUD", "TEMPS")
    n = draw(one([0, 1, 1, 1, 2]))
    for i in range(n):
        if anchored and draw(st.integers(0, 3)) == 0:
            add("PRESSURE", [draw(pressure_bare)])
        else:
            add("PRESSURE", [draw(pressure_unit)])
        anchored = True
    add("RECENT", maybe(draw, recent, p // 2))
    add("WINDSHEAR", some(draw, one([windshear_rwy] * 5 + [windshear]).flatmap(lambda s: s), 3, p // 2) or maybe(draw, st.just("WS ALL RWY"), 15))
    add("SEA", maybe(draw, sea, p // 2))
    add("RWYSTATE", maybe(draw, rwystate, p // 2))

    tr = []
    if trends:
        k = draw(one(["", "NOSIG", "one", "one", "two"]))
        if k == "NOSIG":
            tr = [["NOSIG"]]
        elif k:
            tr = [draw(trend_words(time, p)) for _ in range(2 if k == "two" else 1)]
    rm = draw(st.one_of(st.just(""), RMK)) if remark else ""
    return time, body, tr, rm


def assemble_metar(body, trends=(), remark=""):
    words = [g for _, g in body]
    for t in trends:
        words += t
    if remark:
        words.append(remark)
    return " ".join(words)


@st.composite
def metar_case(draw, **kw):
    time, body, tr, rm = draw(metar_groups(**kw))
    return {
        "cls": "metar",
        "text": assemble_metar(body, tr, rm),
        "year": time.year,
        "month": time.month,
        "body": [list(b) for b in body],
        "trends": tr,
        "remark": rm,
    }


# --------------------------------------------------------------------------- TAF


def ddhh(t, use24=False):
    """ddhh of an instant on the hour; midnight may be written as 24 of the day before."""
    if use24 and t.hour == 0:
        return f"{(t - dt.timedelta(days=1)).day:02d}24"
    return f"{t:%d%H}"


@st.composite
def period_within(draw, start, hours):
    """A period ddhh/ddhh inside the `hours` after start (a datetime on the hour)."""
    a = draw(st.integers(0, max(0, hours - 1)))
    b = draw(st.integers(a + 1, max(a + 1, hours)))
    return (ddhh(start + dt.timedelta(hours=a)) + "/"
            + ddhh(start + dt.timedelta(hours=b), draw(st.booleans())))


@st.composite
def change_groups(draw, start, hours, p=60, kinds=("FM", "BECMG", "TEMPO", "PROB", "PROBTEMPO"), at=None):
    kind = draw(one(kinds))
    if kind == "FM":
        m = draw(st.integers(0, hours * 60 - 1)) if at is None else at
        t = start + dt.timedelta(minutes=m)
        groups = [f"FM{t:%d%H%M}"]
    else:
        ind = {"PROB": draw(one(["PROB30", "PROB40"])),
               "PROBTEMPO": draw(one(["PROB30 TEMPO", "PROB40 TEMPO"]))}.get(kind, kind)
        groups = [ind, draw(period_within(start, hours))]
    groups += maybe(draw, taf_wind, p)
    groups += maybe(draw, vis, p)
    groups += some(draw, weather, 3, p)
    groups += some(draw, cloud, 4, p)
    return groups


@st.composite
def taf_groups(draw, p=60, stations=station, changes=8, valid=100, nil=True, at=None):
    """A well-formed TAF as (issue time, body [(kind, text)], changes [[group, ...]])."""
    time = at or draw(issue())
    body = []
    t = draw(one(["TAF", "TAF", "TAF", ""]))
    if t:
        body.append(("TYPE", t))
    body += [("AMD_COR", g) for g in maybe(draw, one(["AMD", "COR"]), 30)]
    body.append(("STATION", draw(stations)))
    body.append(("TIME", f"{time:%d%H%M}Z"))
    special = draw(st.integers(0, 19)) if nil else 9
    if special == 0:
        body.append(("NIL", "NIL"))
        return time, body, []
    # The start of validity: from the hour of issue to the day after.
    hour = time.replace(minute=0)
    start = hour + dt.timedelta(hours=draw(st.one_of(st.integers(0, 6), st.integers(0, 30))))
    length = draw(one([1, 6, 9, 12, 18, 24, 24, 30, 36]))
    if draw(st.integers(0, 99)) < valid:
        end = start + dt.timedelta(hours=length)
        body.append(("VALID", ddhh(start) + "/" + ddhh(end, draw(st.booleans()))))
    if special == 1:
        body.append(("CANCELLED", "CNL"))
        return time, body, []
    body += [("TAFWIND", g) for g in maybe(draw, taf_wind, p + 20)]
    body += [("TAFVIS", g) for g in maybe(draw, taf_vis, p + 10)]
    body += [("WX", g) for g in some(draw, weather, 3, p)]
    body += [("CLOUD", g) for g in some(draw, cloud, 4, p)]
    temps_ = []
    if draw(st.integers(0, 99)) < p:
        nx, nn = draw(st.integers(0, 2)), draw(st.integers(0, 2))
        kinds = draw(st.permutations(["X"] * nx + ["N"] * nn))
        for k in kinds:
            at_ = start + dt.timedelta(hours=draw(st.integers(0, length)))
            temps_.append(f"T{k}" + draw(one(["", "M"])) + draw(digits(2)) + f"/{at_:%d%H}Z")
    body += [("TAF_TEMP", g) for g in temps_]
    n = draw(st.integers(0, changes)) if draw(st.integers(0, 9)) < 7 else 0
    ch = [draw(change_groups(start, length, p)) for _ in range(n)]
    return time, body, ch


def assemble_taf(body, changes=()):
    words = [g for _, g in body]
    for c in changes:
        words += c
    return " ".join(words)


@st.composite
def taf_case(draw, **kw):
    time, body, ch = draw(taf_groups(**kw))
    return {
        "cls": "taf",
        "text": assemble_taf(body, ch),
        "year": time.year,
        "month": time.month,
        "body": [list(b) for b in body],
        "changes": ch,
    }


def report_case(**kw):
    return st.one_of(metar_case(**kw), taf_case(**kw))


# --------------------------------------------------------------------------- company

# Groups at the limits of the rules, few of each, so that the ones a dependence needs come together.
C_WIND = ["00000KT", "27010KT", "VRB02KT", "27015G30KT", "/////KT", "09005MPS", "36099G99KT", "VRB15G25KT", "01050KT"]
C_VIS = ["0000", "0050", "0400", "0799", "0800", "0801", "1599", "1600", "4999", "5000", "5001", "7999", "8000", "9998", "9999", "9999", "9999N", "9999NDV", "0800SW", "5000E",
         "CAVOK", "CAVOK", "////", "1/4SM", "1/2SM", "3/4SM", "1SM", "1 1/2SM", "3SM", "5SM", "P6SM", "10SM", "M1/4SM", "10KM", "9KM"]
C_MIN = ["0000", "0400", "0799S", "0800NE", "0800", "1500SW", "1600N", "4999W", "5000", "7999SE", "9999", "0050NW"]
C_RVR = ["R07/0000", "R07L/0400", "R25/M0050N", "R25R/P2000", "R07/1000V1500U", "R11/0800FT", "R07/0799D"]
C_WX = ["-RA", "+TSRA", "TS", "VCTS", "FG", "BR", "NSW", "/", "-SN", "+SHSN", "VCSH", "HZ", "FZFG", "DU", "SQ", "//"]
C_CLOUD = [c + h for c in ("FEW", "SCT", "BKN", "OVC") for h in ("000", "001", "002", "004", "005", "009", "010", "029", "030", "049", "050", "060", "///")] + [
    "VV000", "VV001", "VV002", "VV005", "VV010", "VV///", "VV", "NSC", "NCD", "SKC", "CLR", "//////", "///", "FEW050CB", "SCT080TCU", "BKN010CB", "//////CB", "///015", "OVC010///"]
C_TEMPS = ["00/00", "10/05", "10/10", "M01/M02", "00/M01", "M00/M00", "05/10", "//05"[:2] + "/05", "10///", "/////"[:5], "40/M10", "M40/M45"]
C_PRESSURE = ["Q1013", "Q0999", "Q1000", "A2992", "A3000", "QNH2992INS", "Q////", "1013", "2992", "A2899", "Q0900"]
C_RECENT = ["RERA", "RETS", "RETSRA", "REFG", "REFZRA", "RESN", "RE"]
C_SHEAR = ["WS R07", "WS RWY25L", "WS ALL RWY", "WS R01R"]
C_SEA = ["W19/S4", "WM01/S0", "W15/H012", "W00/H100"]
C_STATE = ["R07/010060", "R88/CLRD//", "R/SNOCLO", "R25/SNOCLO", "R99/421594", "R07L/99//99", "R11//////", "R07/000095"]
C_CLEAR_VIS = ["9999"] * 6 + ["CAVOK", "10SM", "10KM", "9998", "9999N", "////", "6SM"]
C_CLEAR_CLOUD = ["FEW050", "SCT050", "BKN050", "OVC060", "SCT100", "BKN///", "NSC", "NCD", "SKC", "CLR", "FEW999", "BKN080"] * 2 + ["VV050", "FEW049", "SCT080CB", "BKN100TCU", "//////", "VV///"]
C_TEMPX = ["TX10/1515Z", "TNM02/1604Z", "TX10/1515Z TN05/1604Z", "TX31/1600Z TX35/1612Z", "TN00/1524Z"]


@st.composite
def _few(draw, pool, strategy, limit, percent):
    out = []
    for _ in range(limit):
        if draw(st.integers(0, 99)) >= percent:
            break
        out.append(draw(strategy) if draw(st.integers(0, 9)) == 0 else draw(one(pool)))
        percent = percent * 3 // 4
    return out


@st.composite
def conditions_in_company(draw, p, clear=False):
    out = draw(_few(C_WIND, wind, 1, p))
    out += draw(_few(C_CLEAR_VIS if clear else C_VIS, vis, 1, 95 if clear else p + 20))
    out += draw(_few(C_WX, weather, 3, 5 if clear else p))
    out += draw(_few(C_CLEAR_CLOUD if clear else C_CLOUD, cloud, 4, p + 20))
    return out


@st.composite
def company_case(draw, clear=False):
    """A METAR or TAF whose groups, each there or not, are at the limits of the rules."""
    p = draw(one([40, 55, 70]))
    if draw(st.integers(0, 4)) < 3:
        w = [draw(one(["METAR", "METAR", "SPECI"])), draw(one(["PADK", "PADK", "UBBB", "SBGL"])), "151230Z"]
        w += draw(_few(["AUTO", "COR", "AMD", "TEST"], modifier, 1, p // 2))
        w += draw(_few(C_WIND, wind, 1, p + 10))
        w += draw(_few(["240V300", "350V010", "180V180"], windvar, 1, p // 2))
        w += draw(_few(C_CLEAR_VIS if clear else C_VIS, vis, 1, 95 if clear else p + 20))
        w += draw(_few(C_MIN, minvis, 1, p // 2 + 10))
        w += draw(_few(C_RVR, rvr, 3, p // 2))
        w += draw(_few(C_WX, weather, 3, 5 if clear else p))
        w += draw(_few(C_CLEAR_CLOUD if clear else C_CLOUD, cloud, 4, p + 20))
        w += draw(_few(C_TEMPS, temps, 1, p))
        w += draw(_few(C_PRESSURE, pressure_unit, 2, p))
        w += draw(_few(C_RECENT, recent, 2, p // 3))
        w += draw(_few(C_SHEAR, windshear, 3, p // 3))
        w += draw(_few(C_SEA, sea, 1, p // 3))
        w += draw(_few(C_STATE, rwystate, 2, p // 3))
        for _ in range(draw(one([0, 0, 1, 1, 2]))):
            w.append(draw(one(["TEMPO", "BECMG", "NOSIG"])))
            if w[-1] != "NOSIG":
                w += draw(_few(["FM1300", "TL1400", "AT1330", "FM1230", "TL1430"], trend_hhmm(dt.datetime(2024, 2, 15, 12, 30)).map("AT".__add__), 1, 40))
                w += draw(conditions_in_company(p, clear))
        w += maybe(draw, one(["RMK AO2", "RMK CIG 001 VIS 0400", "RMK BKN001 0200 -SN"]), 15)
        return {"cls": "metar", "text": " ".join(w), "year": 2024, "month": 2}
    w = ["TAF", draw(one(["PADK", "UBBB", "SBGL"])), "151130Z", "1512/1612"]
    w += draw(conditions_in_company(p, clear))
    w += draw(_few(C_TEMPX, cat(one(["TX", "TN"]), one(["", "M"]), digits(2), "/15", one(["12", "18", "23"]), "Z"), 2, p))
    for _ in range(draw(one([0, 1, 1, 2, 3]))):
        w += [draw(one(["FM151500", "FM160000", "BECMG 1514/1516", "TEMPO 1518/1524", "PROB30 1600/1604", "PROB40 TEMPO 1602/1606"]))]
        w += draw(conditions_in_company(p, clear))
    return {"cls": "taf", "text": " ".join(w), "year": 2024, "month": 2}
