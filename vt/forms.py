"""The dictionary, JSON and text forms of reports, groups, lists and change periods.

`forms(rep, cls)` observes all of them; `expected_dict` and the `text_*` functions say what
they must be, given the values the attributes show (a reading of read.py).
"""
import json
import re

from .read import ATTRS  # noqa: F401

LABELS = ("first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth")

GROUPS = {
    "metar": ("type_", "station", "time", "modifier", "wind", "wind_variation",
              "prevailing_visibility", "minimum_visibility", "temperatures", "pressure",
              "recent_weather", "sea_state", "runway_state"),
    "taf": ("type_", "station", "time", "modifier", "missing", "valid", "cancelled", "wind",
            "prevailing_visibility"),
}
LISTS = {
    "metar": ("runway_ranges", "weathers", "clouds", "windshears", "weather_trends"),
    "taf": ("weathers", "clouds", "max_temperatures", "min_temperatures", "changes_forecasted"),
}
CAPACITY = {
    "runway_ranges": 3, "weathers": 3, "clouds": 4, "windshears": 3, "weather_trends": 2,
    "max_temperatures": 2, "min_temperatures": 2, "changes_forecasted": 8,
}
PERIODS = {"metar": "weather_trends", "taf": "changes_forecasted"}
INDICATOR = {"metar": "trend_indicator", "taf": "change_indicator"}


def one(obj, sized=True):
    d = {"dict": obj.as_dict(), "json": obj.to_json(), "str": str(obj)}
    if sized:
        d["len"] = len(obj)
    return d


def lst(obj):
    d = one(obj)
    d["codes"] = list(obj.codes)
    d["items"] = [one(x) for x in obj.items]
    d["iterated"] = [one(x) for x in obj]
    return d


def weather_forms(obj):
    return {
        "wind": one(obj.wind),
        "prevailing_visibility": one(obj.prevailing_visibility),
        "weathers": lst(obj.weathers),
        "clouds": lst(obj.clouds),
    }


def forms(rep, cls):
    r = {"report": one(rep, sized=False)}
    for name in GROUPS[cls]:
        r[name] = one(getattr(rep, name))
    for name in LISTS[cls]:
        r[name] = lst(getattr(rep, name))
    parts = []
    for p in getattr(rep, PERIODS[cls]):
        f = weather_forms(p)
        i = getattr(p, INDICATOR[cls])
        f["indicator"] = one(i)
        if cls == "taf":
            f["valid"] = one(i.valid)
        else:
            f["times"] = [one(t) for t in (i.period_from, i.period_until) + tuple(i.forecast_period)]
            f["times"].append(one(i.period_at) if i.period_at is not None else None)
        parts.append(f)
    r["periods"] = parts
    if cls == "taf":
        r["temperature_times"] = [
            one(t.time) for l in (rep.max_temperatures, rep.min_temperatures) for t in l
        ]
    return r


# --------------------------------------------------------------------------- dictionaries


def _time(t):
    return None if t is None else {"code": t["code"], "datetime": t["time"]}


def _speed(v):
    return {"units": "knot", "speed": v}


def _metres(v):
    return {"units": "meters", "distance": v}


def _celsius(v):
    return {"units": "celsius", "temperature": v}


def _direction(cardinal, degrees, variable=False):
    return {"cardinal": cardinal, "variable": variable, "units": "degrees", "direction": degrees}


def _pick(g, *names):
    return {n: g[n] for n in names}


def dict_of(kind, g):
    """The dictionary of a group, from its attributes."""
    if kind == "type_":
        return {"code": g["code"], "type": g["type_"]}
    if kind == "station":
        return dict(g)
    if kind == "time":
        return _time(g)
    if kind == "modifier":
        return {"code": g["code"], "modifier": g["description"]}
    if kind == "missing":
        return {"code": g["code"], "modifier": g["description"], "is_missing": g["is_missing"]}
    if kind == "cancelled":
        return dict(g)
    if kind == "valid":
        return {"code": g["code"], "from_": _time(g["period_from"]), "until": _time(g["period_until"])}
    if kind == "wind":
        return {
            "code": g["code"],
            "direction": _direction(g["cardinal_direction"], g["direction_in_degrees"], g["variable"]),
            "speed": _speed(g["speed_in_knot"]),
            "gust": _speed(g["gust_in_knot"]),
        }
    if kind == "wind_variation":
        return {
            "code": g["code"],
            "from_": _direction(g["from_cardinal_direction"], g["from_in_degrees"]),
            "to": _direction(g["to_cardinal_direction"], g["to_in_degrees"]),
        }
    if kind in ("prevailing_visibility", "minimum_visibility"):
        d = {
            "code": g["code"],
            "visibility": _metres(g["in_meters"]),
            "direction": _direction(g["cardinal_direction"], g["direction_in_degrees"]),
        }
        if kind == "prevailing_visibility":
            d["cavok"] = g["cavok"]
        return d
    if kind == "runway_ranges":
        return {
            "code": g["code"],
            "name": g["name"],
            "low_range": _metres(g["low_in_meters"]),
            "high_range": _metres(g["high_in_meters"]),
            "rvr_low": _qualifier(g["low_range"]),
            "rvr_high": _qualifier(g["high_range"]),
            "trend": g["trend"],
        }
    if kind in ("weathers", "recent_weather", "runway_state"):
        return dict(g)
    if kind == "clouds":
        return {
            "code": g["code"],
            "cover": g["cover"],
            "oktas": g["oktas"],
            "type": g["cloud_type"],
            "height": g["height_in_meters"],
            "height_units": "meters",
        }
    if kind == "temperatures":
        return {
            "code": g["code"],
            "temperature": _celsius(g["temperature_in_celsius"]),
            "dewpoint": _celsius(g["dewpoint_in_celsius"]),
        }
    if kind == "pressure":
        # The existing tests fix this dictionary: it has no code.
        return {"units": "hectopascals", "pressure": g["in_hPa"]}
    if kind == "windshears":
        return {"code": g["code"], "all": g["all_"], "name": g["name"]}
    if kind == "sea_state":
        return {
            "code": g["code"],
            "state": g["state"],
            "temperature": _celsius(g["temperature_in_celsius"]),
            "height": _metres(g["height_in_meters"]),
        }
    if kind in ("max_temperatures", "min_temperatures"):
        # The existing tests fix the code entry: it is the code of the time.
        d = _celsius(g["in_celsius"])
        d.update(_time(g["time"]))
        return d
    if kind in ("weather_trends", "changes_forecasted"):
        return {
            "code": g["code"],
            "wind": dict_of("wind", g["wind"]),
            "prevailing_visibility": dict_of("prevailing_visibility", g["prevailing_visibility"]),
            "weathers": [dict_of("weathers", w) for w in g["weathers"]],
            "clouds": [dict_of("clouds", c) for c in g["clouds"]],
            "flight_rules": g["flight_rules"],
        }
    if kind == "trend_indicator":
        return {
            "code": g["code"],
            "translation": g["translation"],
            "forecast_period": {"init": _time(g["init"]), "end": _time(g["end"])},
            "from_": _time(g["period_from"]),
            "until": _time(g["period_until"]),
            "at": _time(g["period_at"]),
        }
    if kind == "change_indicator":
        return {
            "code": g["code"],
            "translation": g["translation"],
            "valid": dict_of("valid", g["valid"]),
        }
    raise KeyError(kind)


def _qualifier(text):
    m = re.match("(below of|above of) ", text or "")
    return m.group(1) if m else None


def dict_of_list(kind, values):
    return {LABELS[i]: dict_of(kind, g) for i, g in enumerate(values)}


def dict_of_report(cls, reading):
    r = {
        "code": reading["raw_code"],
        "sections": reading["sections"],
        "unparsed_groups": reading["unparsed_groups"],
    }
    for name in GROUPS[cls]:
        r[name] = dict_of(name, reading[name])
    for name in LISTS[cls]:
        r[name] = dict_of_list(name, reading[name])
    if cls == "metar":
        r["remark"] = reading["remark"]
        r["flight_rules"] = reading["flight_rules"]
    return r


# --------------------------------------------------------------------------- texts
# The formats are those which the examples of the existing tests fix.


def _squeeze(*parts):
    return re.sub(r"\s{2,}", " ", " ".join(p or "" for p in parts)).strip()


def _km(g):
    return "" if g["in_meters"] is None else f"{g['in_kilometers']:.1f} km"


def _rvr(qualifier, metres):
    return {"M": "below of ", "P": "above of "}.get(qualifier, "") + f"{metres:.1f} m"


def text_of(kind, g):
    if kind == "type_":
        return f"{g['type_']} ({g['code']})"
    if kind == "station":
        return (f"Name: {g['name']} | Coordinates: {g['latitude']} {g['longitude']} | "
                f"Elevation: {g['elevation']} m MSL | Country: {g['country']}")
    if kind == "time":
        return g["time"]
    if kind in ("modifier", "missing"):
        return (g["description"] or "").lower()
    if kind == "cancelled":
        return "cancelled" if g["is_cancelled"] else ""
    if kind == "valid":
        return f"from {g['period_from']['time']} until {g['period_until']['time']}"
    if kind == "wind":
        deg, spd, gust = g["direction_in_degrees"], g["speed_in_knot"], g["gust_in_knot"]
        return _squeeze(
            g["cardinal_direction"],
            "variable wind" if g["variable"] else "" if deg is None else f"({deg:.1f}°)",
            None if spd is None else f"{spd:.1f} kt",
        ) + ("" if gust is None else f" gust of {gust:.1f} kt")
    if kind == "wind_variation":
        if g["code"] is None:
            return ""
        return (f"from {g['from_cardinal_direction']} ({g['from_in_degrees']:.1f}°) "
                f"to {g['to_cardinal_direction']} ({g['to_in_degrees']:.1f}°)")
    if kind in ("prevailing_visibility", "minimum_visibility"):
        if g.get("cavok"):
            return "Ceiling and Visibility OK"
        deg = g["direction_in_degrees"]
        return _km(g) + ("" if deg is None else f" to {g['cardinal_direction']} ({deg:.1f}°)")
    if kind == "runway_ranges":
        low, high = re.match(r"R[^/]*/([MP]?)[0-9]+(?:V([MP]?))?", g["code"]).groups()
        return (f"runway {g['name']} {_rvr(low, g['low_in_meters'])}"
                + (f" varying to {_rvr(high, g['high_in_meters'])}" if g["high_in_meters"] is not None else "")
                + (f", {g['trend']}" if g["trend"] else ""))
    if kind == "weathers":
        return _squeeze(g["intensity"], g["description"], g["precipitation"], g["obscuration"], g["other"])
    if kind == "recent_weather":
        return _squeeze(g["description"], g["precipitation"], g["obscuration"], g["other"])
    if kind == "clouds":
        of = f" of {g['cloud_type']}" if g["cloud_type"] else ""
        if g["height_in_feet"] is not None:
            return f"{g['cover']} at {g['height_in_feet']:.1f} feet{of}"
        if g["cover"] in ("clear", "undefined", "indefinite ceiling"):
            return g["cover"] + of
        return f"{g['cover']} at undefined height{of}"
    if kind == "temperatures":
        t, d = g["temperature_in_celsius"], g["dewpoint_in_celsius"]
        if t is None and d is None:
            return ""
        return ("no temperature" if t is None else f"temperature: {t:.1f}°C") + " | " + (
            "no dewpoint" if d is None else f"dewpoint: {d:.1f}°C")
    if kind == "pressure":
        return "" if g["in_hPa"] is None else f"{g['in_hPa']:.1f} hPa"
    if kind == "windshears":
        return g["name"] or ("all" if g["all_"] else "")
    if kind == "sea_state":
        t, h, s = g["temperature_in_celsius"], g["height_in_meters"], g["state"]
        if t is None and h is None and s is None:
            return ""
        return ((f"temperature {t:.1f}°C" if t is not None else "no temperature") + ", "
                + (f"significant wave height {h:.1f} m" if h is not None else "no significant wave height")
                + ", " + (s or "no sea state"))
    if kind == "runway_state":
        return _runway_state(g)
    if kind in ("max_temperatures", "min_temperatures"):
        return f"{g['in_celsius']:.1f}°C at {g['time']['time']}"
    if kind == "trend_indicator":
        if g["code"] is None:
            return ""
        if g["period_at"]:
            return f"{g['translation']} at {g['period_at']['time']}"
        return f"{g['translation']} from {g['period_from']['time']} until {g['period_until']['time']}"
    if kind == "change_indicator":
        return g["translation"] or ""
    raise KeyError(kind)


def _runway_state(g):
    if g["code"] is None:
        return ""
    if g["snoclo"]:
        return "aerodrome is closed due to extreme deposit of snow"
    if g["clrd"]:
        return g["clrd"]
    digits = g["code"].split("/", 1)[1]
    deposit, depth, friction = digits[0], digits[2:4], digits[4:6]
    plain = depth in ("99", "//")
    if deposit == "/":
        text = (f"{g['deposits_depth']} and {g['deposits']}" if plain
                else f"depth of {g['deposits_depth']} but {g['deposits']}")
    else:
        text = (f"{g['deposits_depth']} of {g['deposits']}" if plain
                else f"deposits of {g['deposits_depth']} of {g['deposits']}")
    fr = g["surface_friction"]
    if friction.isdigit() and int(friction) < 91:
        fr = "estimated surface friction " + fr
    return f"{g['name']}, {text}, contamination {g['contamination']}, {fr}"


SLOT_KIND = {
    "TYPE": "type_", "STATION": "station", "TIME": "time", "MODIFIER": "modifier",
    "AMD_COR": "modifier", "NIL": "missing", "CANCELLED": "cancelled", "VALID": "valid",
    "WIND": "wind", "TAFWIND": "wind", "WINDVAR": "wind_variation",
    "VIS": "prevailing_visibility", "TAFVIS": "prevailing_visibility",
    "MINVIS": "minimum_visibility", "RVR": "runway_ranges", "WX": "weathers", "CLOUD": "clouds",
    "TEMPS": "temperatures", "PRESSURE": "pressure", "RECENT": "recent_weather",
    "WINDSHEAR": "windshears", "SEA": "sea_state", "RWYSTATE": "runway_state",
}


def weather_lines(reading):
    """The lines of the groups of a trend, after its indicator."""
    lines = []
    if reading["wind"]["code"] is not None:
        lines.append(text_of("wind", reading["wind"]))
    if reading["prevailing_visibility"]["code"] is not None:
        lines.append(text_of("prevailing_visibility", reading["prevailing_visibility"]))
    lines += [text_of("weathers", w) for w in reading["weathers"]]
    lines += [text_of("clouds", c) for c in reading["clouds"]]
    return lines


def text_of_trend(t):
    return "\n".join(text_lines([text_of("trend_indicator", t["trend_indicator"])] + weather_lines(t)))


def text_of_list(kind, values, reading=None):
    if kind == "windshears" and reading is not None and reading["windshear_all_runways"]:
        return "all runways"
    if kind == "weather_trends":
        return "\n".join(text_of_trend(t) for t in values)
    if kind == "changes_forecasted":
        return "\n".join(text_of("change_indicator", c["change_indicator"]) for c in values)
    return " | ".join(text_of(kind, v) for v in values)


def text_lines(lines):
    out = []
    for l in lines:
        out += [x.strip() for x in l.split("\n") if x.strip()]
    return out


ABOUT = "about "


def same_line(want, got):
    """Lines are equal; a number of a line marked so may differ by the rounding."""
    if not want.startswith(ABOUT):
        return " ".join(want.split()) == " ".join(got.split())
    want = want[len(ABOUT):]
    number = re.compile(r"[0-9]+\.[0-9]")
    a, b = number.findall(want), number.findall(got)
    return (number.sub("#", want) == number.sub("#", got) and len(a) == len(b)
            and all(abs(float(x) - float(y)) < 0.15 for x, y in zip(a, b)))


def report_lines(cls, reading, decoded):
    """Lines of the text of a report; decoded is the reference list of its body groups."""
    from . import ref

    used = {}
    lines = []
    for slot, tok, parts in decoded:
        if slot == "TAF_TEMP":
            kind = "max_temperatures" if parts["k"] == "X" else "min_temperatures"
        else:
            kind = SLOT_KIND[slot]
        if kind in LISTS[cls]:
            n = used.get(kind, 0)
            used[kind] = n + 1
            lines.append(text_of(kind, reading[kind][n]))
        elif kind == "pressure" and tok != reading["pressure"]["code"]:
            # The superseded one of two pressures: no attribute shows its exact value.
            line = text_of(kind, ref.d_pressure(tok, parts))
            lines.append(ABOUT + line if line else line)
        else:
            lines.append(text_of(kind, reading[kind]))
    for p in reading[PERIODS[cls]]:
        if cls == "metar":
            lines.append(text_of_trend(p))
        else:
            lines.append(text_of("change_indicator", p["change_indicator"]))
    return text_lines(lines)


def jsonable(value):
    return json.loads(json.dumps(value))
