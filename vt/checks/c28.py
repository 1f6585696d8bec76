import calendar
import datetime as dt
import os

from .common import *
from .. import clock

st = gen.st
_clock = None


def the_clock():
    global _clock
    if _clock is None or _clock[0] != os.getpid():
        _clock = (os.getpid(), clock.Clock())
    return _clock[1]


ZONES = ["UTC", "UTC", "Etc/GMT+12", "XXX+12", "XXX-14", "XXX-5:45", "America/New_York", "Pacific/Kiritimati"]


def resolved(now, c):
    t = dt.datetime(1970, 1, 1) + dt.timedelta(seconds=now)
    return c["year"] if c["year"] is not None else t.year, c["month"] if c["month"] is not None else t.month


def test(ctx, case):
    now = case["now"]
    got = the_clock().readings(now, case["tz"], case["cases"])
    ctx.label(the_clock().mode)
    omitted = 0
    for c, (how, r) in zip(case["cases"], got):
        y, m = resolved(now, c)
        t = dt.datetime(1970, 1, 1) + dt.timedelta(seconds=now)
        where = f"at {t} UTC, zone {case['tz']}, year {c['year']}, month {c['month']}: {c['text']!r}"
        if how == "raised":
            fail(f"{where} raises {r}")
        want = defined(ref.report(c["cls"], c["text"], y, m), c["cls"])
        check_diff(want, r, where)
        omitted += c["year"] is None or c["month"] is None
    return omitted > 0


def on_edge(draw):
    """A machine date: next to the ends of days, months and years."""
    y = draw(st.one_of(st.integers(1971, 2037), gen.one([1972, 1999, 2000, 2023, 2024, 2025, 2038, 2096, 2099])))
    m = draw(st.one_of(st.integers(1, 12), gen.one([2, 2, 12, 1, 3])))
    last = calendar.monthrange(y, m)[1]
    d = draw(gen.one([1, 1, 2, 15, last, last, last - 1, 28, 29 if last >= 29 else 28]))
    h, mi, s = draw(gen.one([(0, 0, 0), (0, 0, 1), (23, 59, 59), (12, 0, 0), (11, 30, 0), (23, 0, 0), (1, 0, 0), (18, 45, 30)]))
    return clock.epoch(y, m, d, h, mi, s)


DAY_TEXT = [("metar", "METAR PADK {d}1230Z 27010KT 9999 TEMPO FM1300 TL1400 -RA"), ("metar", "METAR PADK {d}2330Z 27010KT CAVOK BECMG AT0030 TL2400"),
            ("taf", "TAF PADK {d}1130Z {d}12/{e}12 27010KT 9999 TX10/{e}06Z TN00/{d}18Z FM{d}1400 CAVOK BECMG {e}00/{e}02 BKN010"),
            ("taf", "TAF PADK {d}2330Z NIL"), ("metar", "METAR PADK 27010KT 9999"), ("taf", "TAF PADK 27010KT 9999"), ("metar", "PADK NOSIG")]


@st.composite
def batches(draw):
    now = on_edge(draw)
    cases = []
    for _ in range(draw(st.integers(1, 8))):
        how = draw(st.integers(0, 3))
        if how < 2:
            cls, text = draw(gen.one(DAY_TEXT))
            d = draw(gen.one([1, 28, 29, 30, 31, 15]))
            text = text.format(d=f"{d:02d}", e=f"{draw(gen.one([1, d, min(d + 1, 31)])):02d}")
        else:
            c = draw(gen.report_case(p=50))
            cls, text = c["cls"], c["text"]
        y = draw(st.one_of(st.none(), st.none(), gen.year))
        m = draw(st.one_of(st.none(), st.none(), st.integers(1, 12)))
        cases.append({"cls": cls, "text": text, "year": y, "month": m})
    return {"now": now, "tz": draw(gen.one(ZONES)), "cases": cases}


def grid(tier):
    """Month and year ends of the machine x zones x what is given x days."""
    years = (2023, 2024, 1999, 2000, 2037, 2099) if tier == "thorough" else (2023, 2024)
    for y in years:
        for m in range(1, 13):
            last = calendar.monthrange(y, m)[1]
            for d, h in ((1, 0), (last, 23)):
                for tz in ("UTC", "XXX+12", "XXX-14"):
                    cases = []
                    for gy, gm in ((None, None), (2024, None), (2023, None), (None, 2), (None, 12), (2021, 11)):
                        for day in ("01", "29", "30", "31"):
                            cls, text = DAY_TEXT[(len(cases) + m) % 4]
                            cases.append({"cls": cls, "text": text.format(d=day, e="01"), "year": gy, "month": gm})
                    for cls, text in DAY_TEXT[4:]:
                        cases.append({"cls": cls, "text": text, "year": None, "month": None})
                        cases.append({"cls": cls, "text": text, "year": None, "month": 5})
                    yield {"now": clock.epoch(y, m, d, h, 59 if h else 0, 59 if h else 0), "tz": tz, "cases": cases}


STAGES = [
    Prop("batches", batches, test,
         "reports with year, month, both or none given, under a set clock (libfaketime) at the ends of days, months and years and in zones from UTC-12 to "
         "UTC+14; the whole reading is compared with the reference at the resolved year and month; non-trivial: some is omitted", 480, 16000),
    Enum("grid", grid, test, "the first and last second of each month x three zones x six ways of giving year and month x days 1, 29, 30 and 31; non-trivial as above"),
]
