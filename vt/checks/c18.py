import datetime as dt

from .common import *

# The last and first days of months and years, leap and not.
DATES = [(2024, 2, 28), (2024, 2, 29), (2023, 2, 28), (2023, 12, 31), (2024, 1, 1), (2024, 4, 30), (2024, 3, 31), (1999, 12, 31),
         (2000, 2, 29), (1900, 2, 28), (2100, 2, 28), (2024, 6, 15), (2024, 10, 9), (2025, 5, 31)]
PART = ("trend_indicator", "code")


def text(t, groups):
    return f"METAR PADK {t:%d%H%M}Z 27010KT 9999 TEMPO {' '.join(groups)} -RA BKN010"


def window(t, minutes):
    """Ways to write the instant t + minutes."""
    i = t + dt.timedelta(minutes=minutes)
    out = [f"{i:%H%M}"]
    if (i.hour, i.minute) == (0, 0):
        out.append("2400")
    return out


def one_period(tier):
    """One of FM, TL, AT: thorough: every report minute of two days, every offset; quick: a sample of these
    and all those next to an hour or to midnight."""
    r = rng("c18")
    for n, (y, m, d) in enumerate(DATES):
        full = tier == "thorough" and n < 3
        for minute in range(0, 1440):
            t = dt.datetime(y, m, d) + dt.timedelta(minutes=minute)
            for off in range(0, 121):
                i = t + dt.timedelta(minutes=off)
                edge = (i.hour, i.minute) == (0, 0) and minute % 3 == n % 3 or (off in (0, 60, 120) and minute % 60 in (0, 1, 59))
                if not full and not edge and r.random() > (0.05 if tier == "thorough" else 0.004):
                    continue
                for w in window(t, off):
                    yield {"time": [y, m, d, t.hour, t.minute], "groups": [r.choice(["FM", "TL", "AT"]) + w], "at": [off]}


def two_periods(tier):
    r = rng("c18-2")
    for y, m, d in DATES:
        for k in range(6000 if tier == "thorough" else 300):
            minute = r.choice([r.randrange(1440), r.randrange(1310, 1440), r.randrange(24) * 60, 1320, 1380, 1439])
            t = dt.datetime(y, m, d) + dt.timedelta(minutes=minute)
            edges = [0, 60, 120, (60 - t.minute) % 60, min(120, (1440 - minute))]
            a, b = (r.choice([r.randrange(121), r.choice(edges)]) for _ in "ab")
            kinds = r.choice([("FM", "TL"), ("FM", "TL"), ("FM", "TL"), ("AT", "TL"), ("FM", "AT"), ("TL", "FM"), ("AT", "FM"), ("TL", "AT")])
            if kinds == ("FM", "TL") and k % 4:
                a, b = min(a, b), max(a, b)
            yield {"time": [y, m, d, t.hour, t.minute],
                   "groups": [k + r.choice(window(t, o)) for k, o in zip(kinds, (a, b))], "at": [a, b]}


def test(ctx, case):
    """The times as constructed: not taken from the reference parser."""
    y, m = case["time"][:2]
    t = dt.datetime(*case["time"])
    rep = sut.make({"cls": "metar", "text": text(t, case["groups"]), "year": y, "month": m})
    trends = rep.weather_trends
    if len(trends) != 1 or rep.unparsed_groups:
        fail(f"{text(t, case['groups'])!r} has {len(trends)} trends and leaves {rep.unparsed_groups} unparsed")
    i = trends[0].trend_indicator
    end = t + dt.timedelta(hours=2)
    want = {"FM": t, "TL": end, "AT": None}
    for g, off in zip(case["groups"], case["at"]):
        want[g[:2]] = t + dt.timedelta(minutes=off)
    got = {"FM": i.period_from.time, "TL": i.period_until.time, "AT": i.period_at.time if i.period_at is not None else None}
    for k in want:
        g = got[k]
        if (None if g is None else g.replace(tzinfo=None)) != want[k]:
            fail(f"{y}-{m} {text(t, case['groups'])!r}: {k} should be {want[k]} but is {g}")
    init, fin = i.forecast_period
    if (init.time.replace(tzinfo=None), fin.time.replace(tzinfo=None)) != (t, end):
        fail(f"{y}-{m} {text(t, case['groups'])!r}: the forecast period is {init.time} to {fin.time}")
    crossing = want["TL"].day != t.day or any(v is not None and v.day != t.day for v in want.values())
    ctx.label("midnight" if crossing else "same day")
    return True


@gen.st.composite
def reports(draw):
    at = draw(gen.issue())
    if draw(gen.st.integers(0, 2)) == 0:
        at = at.replace(hour=draw(gen.one([22, 23])))
    return draw(gen.metar_case(p=20, at=at))


def inside(case, want):
    return any(t["_inside"] and any(k == "TREND_PERIOD" for k, _, _ in t["_decoded"]) for t in want["weather_trends"])


def report_test(ctx, case):
    want = defined(expected(case), "metar")
    got = sut.reading(case)
    check_diff(project(want, "metar", ("time",), PART), project(got, "metar", ("time",), PART), case["text"])
    good = inside(case, want)
    ctx.label(f"{len(want['weather_trends'])} trends")
    return good


STAGES = [
    Enum("one period", one_period, test,
         "FM, TL or AT at each offset of 0 to 120 minutes from the report time, on 14 dates at the ends of months and years "
         "(quick: hour, two-hour and midnight edges and a sample); all are non-trivial"),
    Enum("two periods", two_periods, test, "pairs of FM, TL and AT; all are non-trivial"),
    Prop("reports", reports, report_test, "random METARs with up to two trends; non-trivial: some trend has FM, TL or AT", 1600, 60000),
]
