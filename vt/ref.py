"""Reference parser: what a report means, written independently of the code under test.

`metar(text, year, month)` and `taf(text, year, month)` return the complete expected
*reading* of the report (see read.py for the shape): nested dicts and lists of plain values.
A group is recognised as a whole or not at all; each section is an ordered list of places and
a group takes the first place of its kind still ahead of the last one taken.
"""
import datetime as dt
import json
import math
import os
import re

from . import tables as T

_HERE = os.path.dirname(os.path.abspath(__file__))
_DB = None


def database():
    """ICAO code -> row, and country code -> name, of the snapshot."""
    global _DB
    if _DB is None:
        with open(os.path.join(_HERE, "stations.json"), encoding="utf-8") as f:
            d = json.load(f)
        rows = {}
        for row in d["stations"]:
            rows.setdefault(row[1], row)
        _DB = (rows, d["countries"])
    return _DB


J = "\t"  # joins the words of a group (words have no white space)


# --------------------------------------------------------------------------- quantities


def distance(m, prefix="in_"):
    if m is None:
        return {prefix + u: None for u in ("meters", "kilometers", "sea_miles", "feet")}
    return {
        prefix + "meters": m,
        prefix + "kilometers": m / 1000.0,
        prefix + "sea_miles": m / T.NM,
        prefix + "feet": m / T.FT,
    }


def direction(deg, prefix=""):
    if deg is None:
        return {
            prefix + "in_degrees": None,
            prefix + "in_radians": None,
            prefix + "in_gradians": None,
        }
    return {
        prefix + "in_degrees": deg,
        prefix + "in_radians": deg * math.pi / 180.0,
        prefix + "in_gradians": deg * 400.0 / 360.0,
    }


def cardinal(deg):
    if deg is None:
        return None
    return T.CARDINALS[int(math.floor((deg + 11.25) / 22.5)) % 16]


def speed(kt, prefix):
    if kt is None:
        return {prefix + u: None for u in ("_in_knot", "_in_mps", "_in_kph", "_in_miph")}
    ms = kt * T.KT
    return {
        prefix + "_in_knot": kt,
        prefix + "_in_mps": ms,
        prefix + "_in_kph": ms * 3.6,
        prefix + "_in_miph": ms * 3600.0 / T.MI,
    }


def temperature(c, prefix="in_"):
    if c is None:
        return {prefix + u: None for u in ("celsius", "kelvin", "fahrenheit", "rankine")}
    return {
        prefix + "celsius": c,
        prefix + "kelvin": c + 273.15,
        prefix + "fahrenheit": c * 1.8 + 32.0,
        prefix + "rankine": (c + 273.15) * 1.8,
    }


def pressure_views(hpa):
    if hpa is None:
        return {"in_" + u: None for u in ("hPa", "inHg", "mbar", "bar", "atm")}
    return {
        "in_hPa": hpa,
        "in_inHg": hpa / T.INHG,
        "in_mbar": hpa,
        "in_bar": hpa / 1000.0,
        "in_atm": hpa / T.ATM,
    }


def moment(code, t):
    """Reading of a Time object."""
    return {
        "code": code,
        "time": t.strftime("%Y-%m-%d %H:%M:%S"),
        "year": t.year,
        "month": t.month,
        "day": t.day,
        "hour": t.hour,
        "minute": t.minute,
    }


def runway(code):
    if code is None:
        return None
    if len(code) == 3:
        return code[:2] + " " + T.RUNWAY_SIDE[code[2]]
    return {"88": "all runways", "99": "repeated"}.get(code, code)


def show(code):
    """A group code as users see it."""
    return code.replace(J, " ")


# --------------------------------------------------------------------------- recognisers
# Each returns the parts of the group (a dict) or None. ASCII digits only.

_D = "[0-9]"
_DAY = "(?:0[1-9]|[12][0-9]|3[01])"
_WIND_TAIL = r"P?(?P<spd>[0-9]{2,3}%s)(?:GP?(?P<gust>[0-9]{2,3}))?(?P<unit>KT|MPS)"

RX = {
    "TYPE": r"METAR|SPECI|TAF",
    "AMD_COR": r"AMD|COR",
    "STATION": r"[A-Z][A-Z0-9]{3}",
    "TIME": rf"(?P<d>{_DAY})(?P<h>[01][0-9]|2[0-3])(?P<m>[0-5][0-9])Z",
    "MODIFIER": r"CORR?|AMD|NIL|TEST|FINO|AUTO",
    "NIL": r"NIL",
    "CANCELLED": r"CNL",
    "VALID": rf"(?P<d1>{_DAY})(?P<h1>[01][0-9]|2[0-3])/(?P<d2>{_DAY})(?P<h2>[01][0-9]|2[0-4])",
    "WIND": r"(?P<dir>(?:[0-2][0-9]|3[0-6])0|///|VRB)" + _WIND_TAIL % "|///?",
    "TAFWIND": r"(?P<dir>(?:[0-2][0-9]|3[0-6])0|VRB)" + _WIND_TAIL % "",
    "WINDVAR": r"(?P<a>(?:0[1-9]|[12][0-9]|3[0-6])0)V(?P<b>(?:0[1-9]|[12][0-9]|3[0-6])0)",
    "VIS": r"(?P<m>[0-9]{4}|////)(?P<dir>N|NE|E|SE|S|SW|W|NW)?"
           r"|[MP]?(?:(?P<int>[0-9]{1,2})\t?(?P<frac>[0-9]/[1-9])?|(?P<frac0>[0-9]/[1-9]))(?P<unit>SM|KM|M|U)"
           r"|(?P<cavok>CAVOK)",
    "TAFVIS": r"(?P<m>[0-9]{4})(?P<dir>N|NE|E|SE|S|SW|W|NW)?"
              r"|[MP]?(?:(?P<int>[0-9]{1,2})\t?(?P<frac>[0-9]/[1-9])?|(?P<frac0>[0-9]/[1-9]))(?P<unit>SM|KM|M|U)"
              r"|(?P<cavok>CAVOK)",
    "MINVIS": r"(?P<m>[0-9]{4}|////)(?P<dir>N|NE|E|SE|S|SW|W|NW)?",
    "RVR": r"R(?P<rwy>[0-9]{2}[RLC]?)/(?P<lq>[MP])?(?P<lo>[0-9]{2,4})"
           r"(?:V(?P<hq>[MP])?(?P<hi>[0-9]{2,4}))?(?P<ft>FT)?(?P<tend>[NUD])?",
    "WX": r"(?P<int>[-+]VC|[-+]|VC)?(?P<desc>%s)?(?:(?P<prec>%s)|(?P<obsc>%s)|(?P<other>%s|/))?"
          % ("|".join(T.DESCRIPTOR), "|".join(T.PRECIPITATION),
             "|".join(T.OBSCURATION), "|".join(T.OTHER)),
    "CLOUD": r"(?P<cov>VV|CLR|SKC|NSC|NCD|BKN|SCT|FEW|OVC|0VC|///)(?P<h>[0-9]{3}|///)?(?P<typ>TCU|CB|///)?",
    "TEMPS": r"(?P<ts>[M-])?(?P<t>[0-9]{2}|//|XX|MM)/(?P<ds>[M-])?(?P<d>[0-9]{2}|//|XX|MM)",
    "PRESSURE": r"(?P<u>A|Q|QNH)?(?P<p>[0-9]{4}|////)(?P<ins>INS)?",
    "RECENT": r"RE(?P<desc>%s)?(?P<prec>%s)?(?P<obsc>%s)?(?P<other>%s)?"
              % ("|".join(T.DESCRIPTOR), "|".join(T.PRECIPITATION),
                 "|".join(T.RECENT_OBSCURATION), "|".join(T.RECENT_OTHER)),
    "WINDSHEAR": r"WS(?P<all>\tALL)?\tR(?:WY|(?P<rwy>[0-9]{2}[RLC]?))",
    "SEA": r"W(?P<sg>M)?(?P<t>[0-9]{2})/(?:S(?P<s>[0-9])|H(?P<h>[0-9]{3}))",
    "RWYSTATE": r"R(?P<rwy>[0-9]{2}[RLC]?)?/(?:(?P<dep>[0-9/])(?P<con>[0-9/])"
                r"(?P<dth>[0-9]{2}|//)(?P<fri>[0-9]{2}|//)|(?P<sno>SNOCLO)|(?P<clr>CLRD//))",
    "TREND_IND": r"TEMPO|BECMG|NOSIG",
    "TREND_PERIOD": r"(?P<pre>FM|TL|AT)(?P<h>[01][0-9]|2[0-4])(?P<m>[0-5][0-9])",
    "TAF_TEMP": rf"T(?P<k>[NX])(?P<sg>M)?(?P<t>[0-9]{{2}})/(?P<d>{_DAY})(?P<h>[01][0-9]|2[0-3])Z",
    "CHANGE_IND": rf"TEMPO|BECMG|FM(?P<d>{_DAY})(?P<h>[01][0-9]|2[0-3])(?P<m>[0-5][0-9])|PROB[34]0(?:\tTEMPO)?",
}
_COMPILED = {k: re.compile(v) for k, v in RX.items()}


def recognise(kind, token):
    m = _COMPILED[kind].fullmatch(token)
    if m is None:
        return None
    parts = m.groupdict()
    if kind == "WX" and not (parts["desc"] or parts["prec"] or parts["obsc"] or parts["other"]):
        return None
    if kind == "RECENT" and token == "RE":
        return None
    return parts


def known(token):
    """True if the token is of some known form (whatever the section)."""
    return any(recognise(k, token) is not None for k in RX)


# --------------------------------------------------------------------------- decoders


def d_type(code="METAR"):
    return {"code": code, "type_": T.TYPES.get(code)}


def d_station(code=None):
    rows, countries = database()
    row = rows.get(code) if code is not None else None
    names = ("name", "icao", "iata", "synop", "latitude", "longitude", "elevation")
    if row is None:
        r = {n: None for n in names}
        r["country"] = None
    else:
        r = dict(zip(names, row))
        r["country"] = countries[row[7]]
    r["code"] = code
    return r


def d_modifier(code=None):
    return {"code": code, "description": T.MODIFIERS.get(code)}


def d_missing(code=None):
    return {"code": code, "description": T.MODIFIERS.get(code), "is_missing": code is not None}


def d_cancelled(code=None):
    return {"code": code, "is_cancelled": code is not None}


def _num(text):
    return None if text is None or not text.isdigit() else float(int(text))


def d_wind(code=None, p=None):
    p = p or {}
    deg = _num(p.get("dir"))
    spd, gust = _num(p.get("spd")), _num(p.get("gust"))
    if p.get("unit") == "MPS":
        spd = None if spd is None else spd / T.KT
        gust = None if gust is None else gust / T.KT
    r = {"code": code, "cardinal_direction": cardinal(deg), "variable": p.get("dir") == "VRB"}
    r.update(direction(deg, "direction_"))
    r.update(speed(spd, "speed"))
    r.update(speed(gust, "gust"))
    return r


def d_windvar(code=None, p=None):
    a = _num(p["a"]) if p else None
    b = _num(p["b"]) if p else None
    r = {"code": code, "from_cardinal_direction": cardinal(a), "to_cardinal_direction": cardinal(b)}
    r.update(direction(a, "from_"))
    r.update(direction(b, "to_"))
    return r


def _metres(four):
    if four is None or four == "////":
        return None
    return 10000.0 if four == "9999" else float(int(four))


def d_minvis(code=None, p=None):
    p = p or {}
    deg = T.COMPASS8.get(p.get("dir"))
    r = {"code": code if code is None else show(code), "cardinal_direction": cardinal(deg)}
    r.update(distance(_metres(p.get("m"))))
    r.update(direction(deg, "direction_"))
    return r


def d_vis(code=None, p=None):
    r = d_minvis(code, p)
    p = p or {}
    r["cavok"] = p.get("cavok") is not None
    m = _metres(p.get("m"))
    if r["cavok"]:
        m = 10000.0
    elif p.get("unit") in ("SM", "KM"):
        n = float(int(p["int"])) if p.get("int") else 0.0
        f = p.get("frac") or p.get("frac0")
        if f:
            n += int(f[0]) / int(f[2])
        m = n * (T.NM if p["unit"] == "SM" else 1000.0)
    r.update(distance(m))
    return r


def d_rvr(code, p):
    k = T.FT if p["ft"] else 1.0
    lo = int(p["lo"]) * k
    hi = int(p["hi"]) * k if p["hi"] else None
    if not p["ft"]:
        # 9999 stands for 10 km wherever a distance is coded in metres.
        lo = 10000.0 if p["lo"] == "9999" else lo
        hi = 10000.0 if p["hi"] == "9999" else hi

    def text(q, v):
        if v is None:
            return ""
        return (T.RVR_LIMIT[q] + " " if q else "") + f"{v:.1f} m"

    r = {
        "code": code,
        "name": runway(p["rwy"]),
        "low_range": text(p["lq"], lo),
        "high_range": text(p["hq"], hi),
        "trend": T.RVR_TENDENCY.get(p["tend"]),
    }
    r.update(distance(float(lo), "low_in_"))
    r.update(distance(None if hi is None else float(hi), "high_in_"))
    return r


def d_wx(code, p):
    return {
        "code": code,
        "intensity": T.INTENSITY.get(p["int"]),
        "description": T.DESCRIPTOR.get(p["desc"]),
        "precipitation": T.PRECIPITATION.get(p["prec"]),
        "obscuration": T.OBSCURATION.get(p["obsc"]),
        "other": T.OTHER.get(p["other"]),
    }


def d_recent(code=None, p=None):
    p = p or {}
    return {
        "code": code,
        "description": T.DESCRIPTOR.get(p.get("desc")),
        "precipitation": T.PRECIPITATION.get(p.get("prec")),
        "obscuration": T.OBSCURATION.get(p.get("obsc")),
        "other": T.OTHER.get(p.get("other")),
    }


def d_cloud(code, p):
    h = p["h"]
    m = None if h is None or h == "///" else int(h) * 100 * T.FT
    r = {
        "code": code,
        "cover": T.COVER[p["cov"]],
        "oktas": T.OKTAS[p["cov"]],
        "cloud_type": T.CLOUD_TYPE.get(p["typ"]),
    }
    r.update(distance(m, "height_in_"))
    return r


def ceiling(clouds):
    """Some broken or overcast layer with a known base at or below 1500 ft."""
    return any(
        c["oktas"] in ("5-7", "8")
        and c["height_in_feet"] is not None
        and c["height_in_feet"] <= 1500.0 + 1e-6
        for c in clouds
    )


def d_temps(code=None, p=None):
    def val(sign, digits):
        v = _num(digits)
        return -v if v is not None and sign else v
    t = val(p["ts"], p["t"]) if p else None
    d = val(p["ds"], p["d"]) if p else None
    r = {"code": code}
    r.update(temperature(t, "temperature_in_"))
    r.update(temperature(d, "dewpoint_in_"))
    return r


def d_pressure(code=None, p=None):
    v = _num(p["p"]) if p else None
    if v is not None:
        if p["u"] == "A" or p["ins"]:
            v = v / 100.0 * T.INHG
        elif p["u"] in ("Q", "QNH"):
            pass
        elif v > 2500:
            v = v / 100.0 * T.INHG
    r = {"code": code}
    r.update(pressure_views(v))
    return r


def d_windshear(code, p):
    name = p["rwy"]
    if name is not None and len(name) == 3:
        name = runway(name)
    return {"code": show(code), "all_": p["all"] is not None, "name": name}


def d_sea(code=None, p=None):
    p = p or {}
    t = _num(p.get("t"))
    if t is not None and p.get("sg"):
        t = -t
    h = _num(p.get("h"))
    r = {"code": code, "state": T.SEA_STATE.get(p.get("s"))}
    r.update(temperature(t, "temperature_in_"))
    m = None if h is None else h / 10.0
    r["height_in_meters"] = m
    r["height_in_decimeters"] = None if m is None else m * 10
    r["height_in_centimeters"] = None if m is None else m * 100
    r["height_in_feet"] = None if m is None else m / T.FT
    r["height_in_inches"] = None if m is None else m / T.INCH
    return r


def d_rwystate(code=None, p=None):
    p = p or {}
    name = runway(p.get("rwy"))
    clrd = None
    if p.get("clr"):
        clrd = "contaminations have ceased to exists" + {
            "repeated": " on previous runway",
            "all runways": " on all runways",
        }.get(name, f" on runway {name}")
    return {
        "code": code,
        "name": name,
        "deposits": T.DEPOSIT.get(p.get("dep")),
        "contamination": T.CONTAMINATION.get(p.get("con")),
        "deposits_depth": T.DEPTH.get(p.get("dth")),
        "surface_friction": T.FRICTION.get(p.get("fri")),
        "snoclo": p.get("sno") is not None,
        "clrd": clrd,
    }


LIMITS = [("VLIFR", 60.0, 800.0), ("LIFR", 150.0, 1600.0), ("IFR", 300.0, 5000.0), ("MVFR", 900.0, 8000.0)]


def flight_rules(vis_m, clouds):
    base = None
    for c in clouds:
        if c["cover"] in ("broken", "overcast", "indefinite ceiling"):
            base = c["height_in_meters"]
            break
    if vis_m is None and base is None:
        return None
    for name, b, v in LIMITS:
        if (base is not None and base < b) or (vis_m is not None and vis_m < v):
            return name
    return "VFR"


def should_be_cavok(vis_m, weathers, clouds):
    if weathers or vis_m is None or vis_m < 10000.0 or not clouds:
        return False
    for c in clouds:
        if c["cover"] == "indefinite ceiling" or c["cloud_type"] is not None:
            return False
        if c["height_in_feet"] is not None and c["height_in_feet"] < 5000.0 - 1e-6:
            return False
    return True


# --------------------------------------------------------------------------- sections


def words_of(text):
    return text.replace("=", "").split()


def join_words(words, windshear=True, prob=False):
    """Words to groups: `1 1/2SM`, `WS R07`, `WS ALL RWY` and `PROB30 TEMPO` are one group."""
    out = []
    i = 0
    while i < len(words):
        w = words[i]
        nxt = words[i + 1] if i + 1 < len(words) else ""
        if (i > 0 and re.fullmatch("[0-9]{1,2}", w) and re.fullmatch("[0-9]/[1-9]SM", nxt)):
            out.append(w + J + nxt)
            i += 2
        elif windshear and w == "WS" and words[i + 1:i + 3] == ["ALL", "RWY"]:
            out.append("WS" + J + "ALL" + J + "RWY")
            i += 3
        elif windshear and w == "WS" and re.fullmatch("R(WY)?[0-9]{2}[CLR]?", nxt):
            out.append("WS" + J + "R" + nxt[3 if nxt.startswith("RWY") else 1:])
            i += 2
        elif prob and re.fullmatch("PROB[34]0", w) and nxt == "TEMPO":
            out.append(w + J + "TEMPO")
            i += 2
        else:
            out.append(w)
            i += 1
    return out


def split_words(words, keys):
    """Cut a list of words before each word (but the first) that starts with a key."""
    parts = [[]]
    for i, w in enumerate(words):
        if i > 0 and keys(w):
            parts.append([])
        parts[-1].append(w)
    return parts


def metar_sections(text):
    words = words_of(text)
    parts = split_words(words, lambda w: w.startswith(("NOSIG", "TEMPO", "BECMG", "RMK")))
    body, trends, remark = [], [], []
    for part in parts:
        first = part[0] if part else ""
        if first.startswith(("NOSIG", "TEMPO", "BECMG")):
            trends.append(part)
        elif first.startswith("RMK"):
            remark += part
        else:
            body = part
    return body, trends, remark


def taf_sections(text):
    groups = join_words_prob(words_of(text))
    parts = split_words(
        groups, lambda w: re.match("FM[0-9]{3}|TEMPO|BECMG|PROB", w) is not None
    )
    return parts[0], parts[1:]


def join_words_prob(words):
    out = []
    i = 0
    while i < len(words):
        if re.fullmatch("PROB[34]0", words[i]) and words[i + 1:i + 2] == ["TEMPO"]:
            out.append(words[i] + J + "TEMPO")
            i += 2
        else:
            out.append(words[i])
            i += 1
    return out


METAR_SLOTS = (
    ["TYPE", "STATION", "TIME", "MODIFIER", "WIND", "WINDVAR", "VIS", "MINVIS"]
    + ["RVR"] * 3 + ["WX"] * 3 + ["CLOUD"] * 4 + ["TEMPS"] + ["PRESSURE"] * 2
    + ["RECENT"] + ["WINDSHEAR"] * 3 + ["SEA", "RWYSTATE"]
)
TREND_SLOTS = (
    ["TREND_IND", "TREND_PERIOD", "TREND_PERIOD", "WIND", "VIS"] + ["WX"] * 3 + ["CLOUD"] * 4
)
TAF_SLOTS = (
    ["TYPE", "AMD_COR", "STATION", "TIME", "NIL", "VALID", "CANCELLED", "TAFWIND", "TAFVIS"]
    + ["WX"] * 3 + ["CLOUD"] * 4 + ["TAF_TEMP"] * 4
)
CHANGE_SLOTS = ["CHANGE_IND", "VALID", "TAFWIND", "VIS"] + ["WX"] * 3 + ["CLOUD"] * 4


def place(slots, groups, accept=lambda kind, token, parts: True):
    """Assign the groups to the ordered places. Returns [(kind, token, parts)], [unparsed]."""
    decoded, unparsed = [], []
    at = 0
    for g in groups:
        for i in range(at, len(slots)):
            parts = recognise(slots[i], g)
            if parts is not None and accept(slots[i], g, parts):
                decoded.append((slots[i], g, parts))
                at = i + 1
                break
        else:
            unparsed.append(g)
    return decoded, unparsed


# --------------------------------------------------------------------------- reports


def _valid_date(year, month, p):
    try:
        dt.datetime(year, month, int(p["d"]), int(p["h"]), int(p["m"]))
        return True
    except ValueError:
        return False


def _weather_part(decoded, vis_kind, wind_kind):
    """wind, visibility, weathers, clouds and what follows from them."""
    r = {"wind": d_wind(), "prevailing_visibility": d_vis(), "weathers": [], "clouds": []}
    for kind, tok, p in decoded:
        if kind == wind_kind:
            r["wind"] = d_wind(tok, p)
        elif kind == vis_kind:
            r["prevailing_visibility"] = d_vis(tok, p)
        elif kind == "WX":
            r["weathers"].append(d_wx(tok, p))
        elif kind == "CLOUD":
            r["clouds"].append(d_cloud(tok, p))
    vis = r["prevailing_visibility"]["in_meters"]
    r["ceiling"] = ceiling(r["clouds"])
    r["flight_rules"] = flight_rules(vis, r["clouds"])
    r["should_be_cavok"] = should_be_cavok(vis, r["weathers"], r["clouds"])
    return r


def trend_instant(time, h, m):
    """The instant with the coded hour and minute in the two hours after time."""
    t = time.replace(hour=h % 24, minute=m)
    if t < time:
        t += dt.timedelta(days=1)
    return t


def trend(words, time):
    groups = join_words(words, windshear=False)
    seen = []

    def accept(kind, tok, p):
        if kind == "TREND_IND":
            seen.append(tok)
        return kind != "TREND_PERIOD" or bool(seen)

    decoded, unparsed = place(TREND_SLOTS, groups, accept)
    end = time + dt.timedelta(hours=2)
    ind = {
        "code": None,
        "translation": None,
        "init": moment(None, time),
        "end": moment(None, end),
        "period_from": moment(None, time),
        "period_until": moment(None, end),
        "period_at": None,
    }
    inside = True
    for kind, tok, p in decoded:
        if kind == "TREND_IND":
            ind["code"], ind["translation"] = tok, T.INDICATORS[tok]
        elif kind == "TREND_PERIOD":
            ind["code"] += " " + tok
            h, m = int(p["h"]), int(p["m"])
            t = trend_instant(time, h, m)
            if t > end or (h == 24 and m):
                inside = False
            key = {"FM": "period_from", "TL": "period_until", "AT": "period_at"}[p["pre"]]
            ind[key] = moment(tok, t)
    r = {"code": " ".join(words), "trend_indicator": ind, "unparsed_groups": [show(u) for u in unparsed]}
    r.update(_weather_part(decoded, "VIS", "WIND"))
    r["_decoded"] = decoded
    r["_inside"] = inside  # periods within the two hours: only then are the times defined
    return r


def metar(text, year, month):
    body, trends, remark = metar_sections(text)
    groups = join_words(body)
    decoded, unparsed = place(
        METAR_SLOTS, groups,
        lambda k, t, p: k != "TIME" or _valid_date(year, month, p),
    )
    r = {
        "type_": d_type(),
        "station": d_station(),
        "time": moment(None, dt.datetime(year, month, 1)),
        "modifier": d_modifier(),
        "wind_variation": d_windvar(),
        "minimum_visibility": d_minvis(),
        "runway_ranges": [],
        "temperatures": d_temps(),
        "pressure": d_pressure(),
        "recent_weather": d_recent(),
        "windshears": [],
        "sea_state": d_sea(),
        "runway_state": d_rwystate(),
    }
    time = dt.datetime(year, month, 1)
    for kind, tok, p in decoded:
        if kind == "TYPE":
            r["type_"] = d_type(tok)
        elif kind == "STATION":
            r["station"] = d_station(tok)
        elif kind == "TIME":
            time = dt.datetime(year, month, int(p["d"]), int(p["h"]), int(p["m"]))
            r["time"] = moment(tok, time)
        elif kind == "MODIFIER":
            r["modifier"] = d_modifier(tok)
        elif kind == "WINDVAR":
            r["wind_variation"] = d_windvar(tok, p)
        elif kind == "MINVIS":
            r["minimum_visibility"] = d_minvis(tok, p)
        elif kind == "RVR":
            r["runway_ranges"].append(d_rvr(tok, p))
        elif kind == "TEMPS":
            r["temperatures"] = d_temps(tok, p)
        elif kind == "PRESSURE":
            r["pressure"] = d_pressure(tok, p)
        elif kind == "RECENT":
            r["recent_weather"] = d_recent(tok, p)
        elif kind == "WINDSHEAR":
            r["windshears"].append(d_windshear(tok, p))
        elif kind == "SEA":
            r["sea_state"] = d_sea(tok, p)
        elif kind == "RWYSTATE":
            r["runway_state"] = d_rwystate(tok, p)
    r.update(_weather_part(decoded, "VIS", "WIND"))
    ws = r["windshears"]
    allrwy = len(ws) == 1 and ws[0]["all_"]
    r["windshear_all_runways"] = allrwy
    r["windshear_names"] = [w["name"] for w in ws if w["name"] is not None]
    r["weather_trends"] = [trend(t, time) for t in trends[:2]]
    unparsed = [show(u) for u in unparsed]
    for t in r["weather_trends"]:
        unparsed += t["unparsed_groups"]
    for t in trends[2:]:
        unparsed += t
    r["unparsed_groups"] = unparsed
    r["raw_code"] = " ".join(words_of(text))
    r["body"] = " ".join(body)
    r["trend"] = " ".join(" ".join(t) for t in trends)
    r["remark"] = " ".join(remark)
    r["sections"] = [r["body"], r["trend"], r["remark"]]
    r["_decoded"] = decoded
    return r


def first_day(start, day):
    """First date with that day of month on or after start (keeping start's time of day)."""
    t = start
    while t.day != day:
        t += dt.timedelta(days=1)
    return t


def valid_period(p, start):
    d = start.replace(hour=0, minute=0)
    a = first_day(d, int(p["d1"]))
    b = first_day(a, int(p["d2"]))
    return a + dt.timedelta(hours=int(p["h1"])), b + dt.timedelta(hours=int(p["h2"]))


def d_valid(code, a, b):
    return {
        "code": code,
        "period_from": moment(None, a),
        "period_until": moment(None, b),
        "duration": (b - a).total_seconds(),
    }


def _span(a, b):
    return f"from {a:%Y-%m-%d %H:%M:%S} until {b:%Y-%m-%d %H:%M:%S}"


def taf(text, year, month):
    body, changes = taf_sections(text)
    body = [w for g in body for w in g.split(J)]
    groups = join_words(body, windshear=False)
    counts = {"X": 0, "N": 0}

    def accept(kind, tok, p):
        if kind == "TIME":
            return _valid_date(year, month, p)
        if kind == "TAF_TEMP":
            if counts[p["k"]] >= 2:
                return False
            counts[p["k"]] += 1
        return True

    decoded, unparsed = place(TAF_SLOTS, groups, accept)
    time = dt.datetime(year, month, 1)
    r = {
        "type_": d_type("TAF"),
        "modifier": d_modifier(),
        "station": d_station(),
        "time": moment(None, time),
        "missing": d_missing(),
        "cancelled": d_cancelled(),
        "max_temperatures": [],
        "min_temperatures": [],
    }
    valid = None
    for kind, tok, p in decoded:
        if kind == "TYPE":
            r["type_"] = d_type(tok)
        elif kind == "AMD_COR":
            r["modifier"] = d_modifier(tok)
        elif kind == "STATION":
            r["station"] = d_station(tok)
        elif kind == "TIME":
            time = dt.datetime(year, month, int(p["d"]), int(p["h"]), int(p["m"]))
            r["time"] = moment(tok, time)
        elif kind == "NIL":
            r["missing"] = d_missing(tok)
        elif kind == "CANCELLED":
            r["cancelled"] = d_cancelled(tok)
        elif kind == "VALID":
            valid = (tok,) + valid_period(p, time)
        elif kind == "TAF_TEMP":
            v = _num(p["t"])
            v = -v if p["sg"] else v
            day = first_day(time.replace(hour=0, minute=0), int(p["d"]))
            g = {"code": tok, "time": moment(None, day + dt.timedelta(hours=int(p["h"])))}
            g.update(temperature(v))
            r["max_temperatures" if p["k"] == "X" else "min_temperatures"].append(g)
    r["_valid_given"] = valid is not None
    if valid is None:
        # Not specified by any property; kept out of the comparisons by the callers.
        a = time.replace(minute=0) + dt.timedelta(hours=1)
        valid = (None, a, a + dt.timedelta(hours=24))
    r["valid"] = d_valid(*valid)
    r.update(_weather_part(decoded, "TAFVIS", "TAFWIND"))

    out = []
    for ch in changes[:8]:
        out.append(_change(ch, valid))
    # An FM change lasts until one hour before the next FM or BECMG change.
    for i, c in enumerate(out):
        if (c["_ind"] or "").startswith("FM"):
            for d in out[i + 1:]:
                if (d["_ind"] or "").startswith(("FM", "BECMG")):
                    c["_until"] = d["_from"] - dt.timedelta(hours=1)
                    c["_cut"] = True
                    break
    for c in out:
        _finish_change(c)
    r["changes_forecasted"] = out
    unparsed = [show(u) for u in unparsed]
    for c in out:
        unparsed += c["unparsed_groups"]
    for ch in changes[8:]:
        for g in ch:
            unparsed += show(g).split()
    r["unparsed_groups"] = unparsed
    r["raw_code"] = " ".join(words_of(text))
    r["body"] = " ".join(show(g) for g in body)
    r["weather_changes"] = " ".join(show(g) for c in changes for g in c)
    r["sections"] = [r["body"], r["weather_changes"]]
    r["_decoded"] = decoded
    return r


def _change(groups, valid):
    code = " ".join(show(g) for g in groups)
    groups = join_words(groups, windshear=False)
    seen = []

    def accept(kind, tok, p):
        if kind == "CHANGE_IND":
            seen.append(tok)
        return kind != "VALID" or bool(seen) and not seen[0].startswith("FM")

    decoded, unparsed = place(CHANGE_SLOTS, groups, accept)
    c = {
        "code": code, "_ind": None, "_own_valid": None, "_cut": False,
        "_from": valid[1], "_until": valid[2], "_tafvalid": valid,
        "unparsed_groups": [show(u) for u in unparsed],
    }
    for kind, tok, p in decoded:
        if kind == "CHANGE_IND":
            c["_ind"] = tok
            if tok.startswith("FM"):
                t = first_day(valid[1].replace(hour=0, minute=0), int(p["d"]))
                c["_from"] = t.replace(hour=int(p["h"]), minute=int(p["m"]))
        elif kind == "VALID":
            c["_own_valid"] = tok
            c["_from"], c["_until"] = valid_period(p, valid[1])
    c.update(_weather_part(decoded, "VIS", "TAFWIND"))
    c["_decoded"] = decoded
    return c


def _finish_change(c):
    ind = c["_ind"]
    span = _span(c["_from"], c["_until"])
    if ind is None:
        i = {"code": None, "translation": None}
    elif ind.startswith("FM"):
        i = {"code": ind, "translation": span}
    else:
        i = {"code": show(ind), "translation": T.INDICATORS[show(ind)]}
        if c["_own_valid"]:
            i["code"] += " " + c["_own_valid"]
            i["translation"] += " " + span
    code = c["_own_valid"]
    if code is None and not (ind or "").startswith("FM"):
        code = c["_tafvalid"][0]
    i["valid"] = d_valid(code, c["_from"], c["_until"])
    c["change_indicator"] = i


def report(cls, text, year, month):
    return metar(text, year, month) if cls == "metar" else taf(text, year, month)
