"""Every documented reading has its documented type."""
import datetime
import json
import math

from .common import *
from .. import chaos, forms

import aeromet_py.reports.models as models

st = gen.st

BOOL = {"variable", "cavok", "all_", "snoclo", "is_missing", "is_cancelled"}
QUANTITY = ("in_", "direction_in_", "speed_in_", "gust_in_", "from_in_", "to_in_", "low_in_", "high_in_", "height_in_", "temperature_in_", "dewpoint_in_")
ALWAYS = {("type_", "code"), ("type_", "type_"), ("cloud", "oktas")}

# The class of each documented attribute.
CLASS = {
    "type_": "ReportType", "station": "Station", "time": "Time", "modifier": "Modifier", "wind": "MetarWind", "wind_variation": "MetarWindVariation",
    "prevailing_visibility": "MetarPrevailingVisibility", "minimum_visibility": "MetarMinimumVisibility", "temperatures": "MetarTemperatures",
    "pressure": "MetarPressure", "recent_weather": "MetarRecentWeather", "sea_state": "MetarSeaState", "runway_state": "MetarRunwayState",
    "missing": "Missing", "valid": "Valid", "cancelled": "Cancelled",
    "trend_indicator": "MetarTrendIndicator", "change_indicator": "TafChangeIndicator",
}
LIST_CLASS = {
    "runway_ranges": ("GroupList", "MetarRunwayRange", "runway_range"), "weathers": ("GroupList", "MetarWeather", "weather"),
    "clouds": ("CloudList", "Cloud", "cloud"), "windshears": ("MetarWindshearList", "MetarWindshearRunway", "windshear"),
    "weather_trends": ("MetarWeatherTrends", "ChangePeriod", None), "max_temperatures": ("TafTemperatureList", "TafTemperature", "taf_temperature"),
    "min_temperatures": ("TafTemperatureList", "TafTemperature", "taf_temperature"), "changes_forecasted": ("TafChangesForecasted", "ChangeForecasted", None),
}


class Walk:
    def __init__(self, text):
        self.text = text
        self.read = 0
        self.known = 0
        self.instants = []

    def bad(self, what, value, want):
        fail(f"{self.text!r}: {what} is {value!r} of type {type(value).__name__}, should be {want}")

    def value(self, what, v, want, optional=True):
        self.read += 1
        if v is None and optional:
            return
        self.known += 1
        if type(v) is not want:
            self.bad(what, v, want.__name__ + (" or None" if optional else ""))
        if want is float and not math.isfinite(v):
            self.bad(what, v, "finite")
        if want is str and v == "" and optional and not what.endswith("_range"):
            self.bad(what, v, "a text or None")

    def strings(self, what, v):
        self.read += 1
        if type(v) is not list:
            self.bad(what, v, "a list")
        for x in v:
            if type(x) is not str:
                self.bad(what, v, "a list of str")

    def a(self, what, obj, cls):
        if not isinstance(obj, getattr(models, cls)):
            self.bad(what, obj, "a " + cls)

    def forms(self, what, obj, sized=True):
        d = obj.as_dict()
        if type(d) is not dict:
            self.bad(f"as_dict() of {what}", d, "a dict")
        self.leaves(f"as_dict() of {what}", d)
        self.value(f"to_json() of {what}", obj.to_json(), str, False)
        if type(json.loads(obj.to_json())) is not dict:
            self.bad(f"to_json() of {what}", obj.to_json(), "the JSON of a dict")
        self.value(f"str() of {what}", str(obj), str, False)
        if sized:
            self.value(f"len() of {what}", len(obj), int, False)

    def leaves(self, what, x):
        """Only dicts with text keys, lists, and float, str, bool or None."""
        if type(x) is dict:
            for k, v in x.items():
                if type(k) is not str:
                    self.bad(f"a key of {what}", k, "str")
                self.leaves(f"{what}[{k!r}]", v)
        elif type(x) is list:
            for v in x:
                self.leaves(what, v)
        elif x is not None and type(x) not in (float, str, bool):
            self.bad(what, x, "float, str, bool or None")
        elif type(x) is float and not math.isfinite(x):
            self.bad(what, x, "finite")

    def group(self, what, obj, kind):
        for name in read.ATTRS[kind]:
            v = getattr(obj, name)
            where = f"{what}.{name}"
            if name in BOOL:
                self.value(where, v, bool, False)
            elif name.startswith(QUANTITY):
                self.value(where, v, float)
            elif (kind, name) in ALWAYS:
                self.value(where, v, str, False)
            else:
                self.value(where, v, str)
        self.sized(what, obj)

    def sized(self, what, obj):
        self.forms(what, obj)
        if len(obj) != len(obj.code or ""):
            fail(f"{self.text!r}: len() of {what} is {len(obj)}, its code is {obj.code!r}")

    def moment(self, what, t):
        self.a(what, t, "Time")
        self.value(what + ".code", t.code, str)
        for n in ("year", "month", "day", "hour", "minute"):
            self.value(f"{what}.{n}", getattr(t, n), int, False)
        self.value(what + ".time", t.time, datetime.datetime, False)
        if t.time.tzinfo is not None or t.time.second or t.time.microsecond:
            self.bad(what + ".time", t.time, "a whole minute without time zone")
        self.instants.append((what, t.time))
        self.sized(what, t)

    def valid(self, what, v):
        self.a(what, v, "Valid")
        self.value(what + ".code", v.code, str)
        self.moment(what + ".period_from", v.period_from)
        self.moment(what + ".period_until", v.period_until)
        self.value(what + ".duration", v.duration, datetime.timedelta, False)
        self.sized(what, v)

    def list(self, what, lst, kind):
        cls, item_cls, item_kind = LIST_CLASS[kind]
        self.a(what, lst, cls)
        self.a(what, lst, "GroupList")
        self.forms(what, lst)
        self.strings(what + ".codes", lst.codes)
        if type(lst.items) is not list:
            self.bad(what + ".items", lst.items, "a list")
        for i, x in enumerate(lst):
            self.a(f"{what}[{i}]", x, item_cls)
            self.a(f"{what}[{i}]", lst[i], item_cls)
            if item_kind:
                self.group(f"{what}[{i}]", x, item_kind)
            if kind.endswith("_temperatures"):
                self.moment(f"{what}[{i}].time", x.time)
        if kind == "clouds":
            self.value(what + ".ceiling", lst.ceiling, bool, False)
        if kind == "windshears":
            self.strings(what + ".names", lst.names)
            self.value(what + ".all_runways", lst.all_runways, bool, False)

    def weather(self, what, obj):
        for n in ("wind", "prevailing_visibility"):
            self.a(what + n, getattr(obj, n), CLASS[n])
            self.group(what + n, getattr(obj, n), n)
        for n in ("weathers", "clouds"):
            self.list(what + n, getattr(obj, n), n)
        self.value(what + "flight_rules", obj.flight_rules, str)
        self.value(what + "should_be_cavok()", obj.should_be_cavok(), bool, False)
        self.strings(what + "unparsed_groups", obj.unparsed_groups)

    def report(self, rep, cls):
        self.forms("the report", rep, sized=False)
        for n in ("raw_code", "body") + (("trend", "remark") if cls == "metar" else ("weather_changes",)):
            self.value(n, getattr(rep, n), str, False)
        self.strings("sections", rep.sections)
        self.weather("", rep)
        for n in forms.GROUPS[cls]:
            g = getattr(rep, n)
            self.a(n, g, CLASS[n])
            if n == "time":
                self.moment(n, g)
            elif n == "valid":
                self.valid(n, g)
            else:
                self.group(n, g, n)
        for n in forms.LISTS[cls]:
            self.list(n, getattr(rep, n), n)
        for i, p in enumerate(getattr(rep, forms.PERIODS[cls])):
            what = f"period {i}'s "
            self.value(what + "code", p.code, str)
            self.sized(what[:-3], p)
            self.weather(what, p)
            ind = getattr(p, forms.INDICATOR[cls])
            self.a(what + "indicator", ind, CLASS[forms.INDICATOR[cls]])
            self.value(what + "indicator.code", ind.code, str)
            self.value(what + "indicator.translation", ind.translation, str)
            self.sized(what + "indicator", ind)
            if cls == "taf":
                self.valid(what + "valid", ind.valid)
            else:
                if type(ind.forecast_period) is not tuple or len(ind.forecast_period) != 2:
                    self.bad(what + "forecast_period", ind.forecast_period, "a pair")
                times = {"init": ind.forecast_period[0], "end": ind.forecast_period[1], "period_from": ind.period_from, "period_until": ind.period_until}
                if ind.period_at is not None:
                    times["period_at"] = ind.period_at
                for n, t in times.items():
                    self.moment(what + n, t)
        # All the instants of a report can be ordered and subtracted.
        first = self.instants[0]
        for what, t in self.instants:
            try:
                t - first[1], t < first[1]
            except TypeError as e:
                fail(f"{self.text!r}: {what} and {first[0]} can't be compared: {e}")


def test(ctx, case):
    rep = sut.make(case)
    w = Walk(case["text"])
    w.report(rep, case["cls"])
    ctx.label(f"{w.known // 50 * 50}+ known values")
    return w.known > 60


def tokens(tier):
    from .c25 import SAMPLES
    from .c29 import ZEROS

    for t in [t for _, t in SAMPLES] + ZEROS:
        for c in CONTEXTS:
            yield place_token(c, t)


def extremes(tier):
    """Stations with unusual entries, and periods of no length."""
    yield from odd_stations(tier)
    for a in ("1512/1512", "1500/1500", "1512/1524", "1600/1524", "2900/2924", "0100/0100"):
        for b in ("1512/1512", "1514/1514", "1600/1524", "2924/0100"):
            for ind in ("TEMPO", "BECMG", "PROB30", "PROB40 TEMPO"):
                yield {"cls": "taf", "text": f"TAF PADK 150030Z {a} 27010KT 9999 FEW010 {ind} {b} -RA BKN005 FM151200 27010KT FM151200 CAVOK FM151300 VRB02KT", "year": 2024, "month": 2}
    for a in ("FM1230 TL1230", "AT1230", "FM1430 TL1430", "FM1300 TL1230", "FM2400", "TL0000"):
        yield {"cls": "metar", "text": f"METAR PADK 151230Z 27010KT 9999 FEW010 TEMPO {a} -RA BECMG {a} CAVOK", "year": 2024, "month": 2}


@st.composite
def called(draw):
    c = draw(st.one_of(gen.report_case(p=60), chaos.dated_case()))
    return {"cls": c["cls"], "text": c["text"], "year": draw(st.one_of(st.none(), st.integers(1900, 2100))), "month": draw(st.one_of(st.none(), st.integers(1, 12))),
            "strict": draw(st.booleans()), "way": draw(st.integers(0, 6))}


def called_test(ctx, case):
    """The documented ways to call: by position or keyword, defaults left out."""
    import aeromet_py
    from aeromet_py.reports.models import ParserError

    make = sut.CLASSES[case["cls"]]
    if make is not {"metar": aeromet_py.Metar, "taf": aeromet_py.Taf}[case["cls"]]:
        fail("another class")
    text, y, m, strict, way = case["text"], case["year"], case["month"], case["strict"], case["way"]
    ways = [
        lambda: make(text, y, m, strict),
        lambda: make(code=text, year=y, month=m, truncate=strict),
        lambda: make(text, month=m, year=y, truncate=strict),
        lambda: make(text, truncate=strict, **{k: v for k, v in (("year", y), ("month", m)) if v is not None}),
        lambda: make(text, y, truncate=strict, month=m),
        lambda: make(text, y, m, truncate=strict),
        lambda: make(truncate=strict, month=m, year=y, code=text),
    ]

    def outcome(f):
        try:
            rep = f()
        except ParserError as e:
            return "error", str(e)
        if type(rep) is not make:
            fail(f"{text!r}: the report is a {type(rep).__name__}")
        return sut.everything(rep, case["cls"])

    a, b = outcome(ways[0]), outcome(ways[way])
    if isinstance(a, tuple) or isinstance(b, tuple):
        if a != b:
            fail(f"{text!r} called in way {way}: {str(b)[:200]}, by position {str(a)[:200]}")
    else:
        check_diff(a, b, f"{text!r} called in way {way}")
    raised = isinstance(b, tuple)
    try:
        plain = make(text, y, m)
    except ParserError as e:
        fail(f"{text!r} raises {e} in the mode that is not strict")
    if raised != (strict and bool(plain.unparsed_groups)):
        fail(f"{text!r} called in way {way} in {'strict' if strict else 'the other'} mode {'raises' if raised else 'does not raise'} ParserError, unparsed groups are {plain.unparsed_groups}")
    ctx.label("strict" if strict else "not strict")
    return way > 0


STAGES = [
    Prop("reports", lambda: st.one_of(gen.report_case(), gen.report_case(p=95), chaos.dated_case()), test,
         "random well-formed, mutated and soup reports: the type of every documented attribute, form and entry; non-trivial: more than 60 known values", 1600, 60000),
    Enum("groups", tokens, test, "typical, zero and unknown groups of every kind in every section; non-trivial as above"),
    Enum("extremes", extremes, test, "reports of some 350 stations, those of unusual entries among them, and with periods of no length; non-trivial as above"),
    Prop("calls", called, called_test, "reports made by the documented ways to pass the arguments, in both modes; non-trivial: not all by position", 1200, 30000),
    Enum("shapes", shapes, test, SHAPES),
]
