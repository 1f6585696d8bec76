"""Moving a report in time moves all its times alike and changes nothing else."""
import calendar
import datetime as dt

from .common import *

st = gen.st
HOUR = dt.timedelta(hours=1)
TEXTS = {"raw_code", "sections", "body", "trend", "remark", "weather_changes", "code", "year", "month", "day", "hour", "minute"}


def at(base, minutes):
    """Minutes from the report's time; in a TAF hours from its hour."""
    return base + dt.timedelta(minutes=minutes)


def word(w, base):
    """A word of the pattern: text, or a time relative to the base."""
    if isinstance(w, str):
        return w
    if w[0] in ("period", "change", "temperature"):
        base = base.replace(minute=0)
    kind, v = w[0], (w if w[0] in ("FM", "TL", "AT") else w[1:])
    if kind == "issue":
        return f"{base:%d%H%M}Z"
    if kind == "period":
        return gen.ddhh(at(base, v[0] * 60)) + "/" + gen.ddhh(at(base, v[1] * 60), v[2])
    if kind == "change":
        return f"FM{at(base, v[0]):%d%H%M}"
    if kind == "temperature":
        return f"{v[0]}/{at(base, v[1] * 60):%d%H}Z"
    return v[0] + gen.hhmm(at(base, v[1]), v[2])


def render(case, base):
    return {"cls": case["cls"], "text": " ".join(word(w, base) for w in case["words"]), "year": base.year, "month": base.month}


def relative(x, base):
    """The reading with its instants relative to the base."""
    if isinstance(x, dict):
        out = {k: relative(v, base) for k, v in x.items() if k not in TEXTS}
        if "time" in x and isinstance(x["time"], str):
            t = dt.datetime.strptime(x["time"], "%Y-%m-%d %H:%M:%S")
            out["time"] = (t - base).total_seconds()
            out["fields"] = (x["year"], x["month"], x["day"], x["hour"], x["minute"]) == (t.year, t.month, t.day, t.hour, t.minute)
        return out
    if isinstance(x, list):
        return [relative(v, base) for v in x]
    return x


def without_translations(x):
    """The phrases of an indicator state its times."""
    if isinstance(x, dict):
        return {k: without_translations(v) for k, v in x.items() if k != "translation"}
    return [without_translations(v) for v in x] if isinstance(x, list) else x


def test(ctx, case):
    first = dt.datetime(*case["first"])
    second = dt.datetime(*case["second"])
    a, b = render(case, first), render(case, second)
    ra, rb = relative(without_translations(sut.reading(a)), first), relative(without_translations(sut.reading(b)), second)
    where = f"{a['text']!r} of {first:%Y-%m} and {b['text']!r} of {second:%Y-%m}"
    for r, which in ((ra, a), (rb, b)):
        if r["unparsed_groups"]:
            fail(f"{which['text']!r} leaves {r['unparsed_groups']} unparsed")
    check_diff(ra, rb, where)
    across = any((first + HOUR * h).month != first.month for h in (24, -1)) or any((second + HOUR * h).month != second.month for h in (24, -1))
    ctx.label("next to the end of a month" if across else "inside a month")
    return first != second



@st.composite
def when(draw):
    k = draw(st.integers(0, 2))
    if k == 0:
        return draw(gen.issue())
    y, m = draw(st.one_of(st.integers(1901, 2099), gen.one([1999, 2000, 2023, 2024, 2100, 1900]))), draw(st.one_of(st.integers(1, 12), gen.one([2, 12, 1])))
    d = draw(gen.one([1, calendar.monthrange(y, m)[1], calendar.monthrange(y, m)[1] - 1]))
    return dt.datetime(y, m, d, draw(gen.one([0, 23, 22, 12, 1])), draw(gen.one([0, 59, 30, 1])))


def maybe(draw, s, p):
    return [draw(s)] if draw(st.integers(0, 99)) < p else []


def conditions(draw, p=60):
    out = maybe(draw, gen.taf_wind, p) + maybe(draw, gen.vis_metres, p) + maybe(draw, gen.weather.filter(lambda w: w != "/"), p)
    return out + maybe(draw, gen.layer, p)


@st.composite
def patterns(draw):
    """The words of a report, their times in minutes or hours from the report's."""
    if draw(st.booleans()):
        words = [draw(gen.one(["METAR", "SPECI"])), "PADK", ["issue"], "27010KT", "9999", "FEW030", "10/05", "Q1013"]
        for _ in range(draw(st.integers(1, 2))):
            words.append(draw(gen.one(["TEMPO", "BECMG"])))
            k = draw(st.integers(0, 4))
            a, b = sorted([draw(minutes), draw(minutes)])
            if k in (0, 2):
                words.append(["FM", a, draw(st.booleans())])
            if k in (1, 2):
                words.append(["TL", b, draw(st.booleans())])
            if k == 3:
                words.append(["AT", b, draw(st.booleans())])
            words += conditions(draw)
        return "metar", words
    words = ["TAF", "PADK", ["issue"]]
    start = draw(st.one_of(st.integers(1, 6), st.integers(1, 30)))
    length = draw(gen.one([6, 9, 12, 18, 24, 24, 30, 36]))
    words.append(["period", start, start + length, draw(st.booleans())])
    words += ["27010KT", "9999", "FEW030"]
    for k in draw(st.lists(gen.one(["TX", "TN"]), max_size=4)):
        if sum(isinstance(w, list) and w[0] == "temperature" and w[1][:2] == k for w in words) < 2:
            words.append(["temperature", k + draw(gen.one(["", "M"])) + draw(gen.digits(2)), start + draw(st.integers(0, length))])
    for _ in range(draw(st.one_of(st.integers(0, 3), st.integers(0, 8)))):
        if draw(st.integers(0, 2)) == 0:
            words.append(["change", start * 60 + draw(st.integers(0, length * 60 - 1))])
        else:
            a = start + draw(st.integers(0, length - 1))
            words.append(draw(gen.one(["BECMG", "TEMPO", "PROB30", "PROB40 TEMPO"])))
            words.append(["period", a, draw(st.integers(a + 1, start + length)), draw(st.booleans())])
        words += conditions(draw)
    return "taf", words


minutes = st.one_of(st.integers(0, 120), gen.one([0, 1, 59, 60, 119, 120]))


@st.composite
def moved(draw):
    cls, words = draw(patterns())
    a, b = draw(when()), draw(when())
    b = b.replace(minute=a.minute)  # the groups of a TAF have whole hours
    return {"cls": cls, "words": words, "first": [a.year, a.month, a.day, a.hour, a.minute], "second": [b.year, b.month, b.day, b.hour, b.minute]}


def all_days(tier):
    """A METAR and a TAF with every kind of time, moved to each day of two years, from its first hour to its last."""
    taf = ["TAF", "PADK", ["issue"], ["period", 1, 25, True], "27010KT", "9999", "FEW030", ["temperature", "TX10", 6], ["temperature", "TNM01", 24], "BECMG", ["period", 3, 5, True], "CAVOK",
           ["change", 9 * 60 + 30], "30015KT", "PROB30 TEMPO", ["period", 10, 24, True], "TSRA", "PROB40", ["period", 23, 25, True], "FG", ["change", 24 * 60], "00000KT"]
    metar = ["METAR", "PADK", ["issue"], "27010KT", "CAVOK", "TEMPO", ["FM", 30, True], ["TL", 90, True], "-RA", "BECMG", ["AT", 120, True], "4000"]
    for year in (2023, 2024) if tier == "quick" else (1900, 1999, 2000, 2023, 2024, 2100):
        day = dt.datetime(year, 1, 1)
        while day.year == year:
            for h in (0, 23, 22) if tier == "quick" else range(24):
                for cls, words in (("metar", metar), ("taf", taf)):
                    yield {"cls": cls, "words": words, "first": [2022, 6, 15, 12, 0], "second": [year, day.month, day.day, h, 0]}
            day += dt.timedelta(days=1)


STAGES = [
    Prop("moved", moved, test, "METARs with trends and TAFs with temperatures and changes, made at two random times out of one pattern of relative times; all instants relative to "
         "the report's and all other values must agree; non-trivial: two different times", 4800, 160000),
    Enum("all days", all_days, test, "one METAR and one TAF with every kind of time against themselves moved to every day of two (thorough: six) years at three (thorough: all) hours"),
]
