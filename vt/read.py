"""Observation of a report through its documented public attributes.

`read_metar` / `read_taf` return the *reading* of a report: nested dicts and lists of plain
values, of the same shape as ref.py predicts. Nothing private is touched.
"""

DIST = ("meters", "kilometers", "sea_miles", "feet")
ANGLE = ("in_degrees", "in_radians", "in_gradians")
SPEED = ("in_knot", "in_mps", "in_kph", "in_miph")
TEMP = ("celsius", "kelvin", "fahrenheit", "rankine")

ATTRS = {
    "type_": ("code", "type_"),
    "station": ("code", "name", "icao", "iata", "synop", "latitude", "longitude", "elevation", "country"),
    "modifier": ("code", "description"),
    "wind": ("code", "cardinal_direction", "variable")
    + tuple("direction_" + a for a in ANGLE)
    + tuple("speed_" + u for u in SPEED)
    + tuple("gust_" + u for u in SPEED),
    "wind_variation": ("code", "from_cardinal_direction", "to_cardinal_direction")
    + tuple("from_" + a for a in ANGLE)
    + tuple("to_" + a for a in ANGLE),
    "minimum_visibility": ("code", "cardinal_direction")
    + tuple("in_" + u for u in DIST)
    + tuple("direction_" + a for a in ANGLE),
    "runway_range": ("code", "name", "low_range", "high_range", "trend")
    + tuple("low_in_" + u for u in DIST)
    + tuple("high_in_" + u for u in DIST),
    "weather": ("code", "intensity", "description", "precipitation", "obscuration", "other"),
    "recent_weather": ("code", "description", "precipitation", "obscuration", "other"),
    "cloud": ("code", "cover", "oktas", "cloud_type") + tuple("height_in_" + u for u in DIST),
    "temperatures": ("code",)
    + tuple("temperature_in_" + u for u in TEMP)
    + tuple("dewpoint_in_" + u for u in TEMP),
    "pressure": ("code", "in_hPa", "in_inHg", "in_mbar", "in_bar", "in_atm"),
    "windshear": ("code", "all_", "name"),
    "sea_state": ("code", "state")
    + tuple("temperature_in_" + u for u in TEMP)
    + tuple("height_in_" + u for u in ("meters", "decimeters", "centimeters", "feet", "inches")),
    "runway_state": ("code", "name", "deposits", "contamination", "deposits_depth",
                     "surface_friction", "snoclo", "clrd"),
    "missing": ("code", "description", "is_missing"),
    "cancelled": ("code", "is_cancelled"),
    "taf_temperature": ("code",) + tuple("in_" + u for u in TEMP),
}
ATTRS["prevailing_visibility"] = ATTRS["minimum_visibility"] + ("cavok",)


def group(obj, kind):
    return {a: getattr(obj, a) for a in ATTRS[kind]}


def moment(t):
    if t is None:
        return None
    return {
        "code": t.code,
        "time": t.time.strftime("%Y-%m-%d %H:%M:%S"),
        "year": t.year,
        "month": t.month,
        "day": t.day,
        "hour": t.hour,
        "minute": t.minute,
    }


def items(lst, kind):
    return [group(lst[i], kind) for i in range(len(lst))]


def weather_part(obj):
    return {
        "wind": group(obj.wind, "wind"),
        "prevailing_visibility": group(obj.prevailing_visibility, "prevailing_visibility"),
        "weathers": items(obj.weathers, "weather"),
        "clouds": items(obj.clouds, "cloud"),
        "ceiling": obj.clouds.ceiling,
        "flight_rules": obj.flight_rules,
        "should_be_cavok": obj.should_be_cavok(),
    }


def common(rep):
    r = {
        "type_": group(rep.type_, "type_"),
        "station": group(rep.station, "station"),
        "time": moment(rep.time),
        "modifier": group(rep.modifier, "modifier"),
        "unparsed_groups": list(rep.unparsed_groups),
        "sections": list(rep.sections),
        "raw_code": rep.raw_code,
        "body": rep.body,
    }
    r.update(weather_part(rep))
    return r


def trend(t):
    i = t.trend_indicator
    init, end = i.forecast_period
    r = {
        "code": t.code,
        "trend_indicator": {
            "code": i.code,
            "translation": i.translation,
            "init": moment(init),
            "end": moment(end),
            "period_from": moment(i.period_from),
            "period_until": moment(i.period_until),
            "period_at": moment(i.period_at),
        },
        "unparsed_groups": list(t.unparsed_groups),
    }
    r.update(weather_part(t))
    return r


def valid(v):
    return {
        "code": v.code,
        "period_from": moment(v.period_from),
        "period_until": moment(v.period_until),
        "duration": v.duration.total_seconds(),
    }


def change(c):
    i = c.change_indicator
    r = {
        "code": c.code,
        "change_indicator": {"code": i.code, "translation": i.translation, "valid": valid(i.valid)},
        "unparsed_groups": list(c.unparsed_groups),
    }
    r.update(weather_part(c))
    return r


def read_metar(m):
    r = common(m)
    r.update(
        {
            "trend": m.trend,
            "remark": m.remark,
            "wind_variation": group(m.wind_variation, "wind_variation"),
            "minimum_visibility": group(m.minimum_visibility, "minimum_visibility"),
            "runway_ranges": items(m.runway_ranges, "runway_range"),
            "temperatures": group(m.temperatures, "temperatures"),
            "pressure": group(m.pressure, "pressure"),
            "recent_weather": group(m.recent_weather, "recent_weather"),
            "windshears": items(m.windshears, "windshear"),
            "windshear_names": list(m.windshears.names),
            "windshear_all_runways": m.windshears.all_runways,
            "sea_state": group(m.sea_state, "sea_state"),
            "runway_state": group(m.runway_state, "runway_state"),
            "weather_trends": [trend(m.weather_trends[i]) for i in range(len(m.weather_trends))],
        }
    )
    return r


def taf_temperature(t):
    r = group(t, "taf_temperature")
    r["time"] = moment(t.time)
    return r


def read_taf(t):
    r = common(t)
    r.update(
        {
            "weather_changes": t.weather_changes,
            "missing": group(t.missing, "missing"),
            "cancelled": group(t.cancelled, "cancelled"),
            "valid": valid(t.valid),
            "max_temperatures": [taf_temperature(t.max_temperatures[i]) for i in range(len(t.max_temperatures))],
            "min_temperatures": [taf_temperature(t.min_temperatures[i]) for i in range(len(t.min_temperatures))],
            "changes_forecasted": [change(t.changes_forecasted[i]) for i in range(len(t.changes_forecasted))],
        }
    )
    return r


def read(rep, cls):
    return read_metar(rep) if cls == "metar" else read_taf(rep)


# --------------------------------------------------------------------------- comparison


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= max(1e-9, 1e-5 * max(abs(a), abs(b)))
    return type(a) is type(b) and a == b


def diff(want, got, path=""):
    """First difference as (path, want, got), or None. Keys starting with _ are ignored."""
    if isinstance(want, dict) and isinstance(got, dict):
        for k in want:
            if k.startswith("_"):
                continue
            if k not in got:
                return (f"{path}.{k}", want[k], "<absent>")
            d = diff(want[k], got[k], f"{path}.{k}" if path else k)
            if d:
                return d
        return None
    if isinstance(want, list) and isinstance(got, list):
        for i, (w, g) in enumerate(zip(want, got)):
            d = diff(w, g, f"{path}[{i}]")
            if d:
                return d
        if len(want) != len(got):
            return (f"{path} (length)", len(want), len(got))
        return None
    return None if same(want, got) else (path, want, got)


def pick(reading, paths):
    """The part of a reading under the given top-level keys."""
    return {p: reading[p] for p in paths}
