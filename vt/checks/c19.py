import datetime as dt

from .common import *
from .. import chaos

# Issue dates at the ends of months and years, leap and not.
DATES = [(2024, 2, 28), (2024, 2, 29), (2023, 2, 28), (2023, 12, 31), (2023, 12, 30), (2024, 1, 1), (2024, 4, 30), (2024, 3, 31),
         (1999, 12, 31), (2000, 2, 29), (1900, 2, 28), (2100, 2, 28), (2024, 6, 15), (2024, 1, 30), (2024, 1, 31), (2023, 1, 30)]
HOUR = dt.timedelta(hours=1)
DAY = dt.timedelta(days=1)


def ways(t, end=False):
    """Ways to write the hour t as ddhh."""
    out = [f"{t:%d%H}"]
    if end and t.hour == 0:
        out.append(f"{t - DAY:%d}24")
    return out


def validities(tier):
    r = rng("c19")
    lengths = (1, 2, 6, 9, 12, 18, 23, 24, 25, 30, 36, 48)
    for y, m, d in DATES:
        for h in range(24):
            if tier != "thorough" and h not in (0, 1, 11, 22, 23) and r.random() > 0.15:
                continue
            issue = dt.datetime(y, m, d, h, r.choice([0, 1, 30, 59, 45]))
            for ahead in range(0, 49):
                start = issue.replace(minute=0) + ahead * HOUR
                for length in lengths:
                    end = start + length * HOUR
                    edge = start.hour == 0 or end.hour == 0
                    if tier != "thorough" and r.random() > (0.12 if edge else 0.03):
                        continue
                    # A validity of a day's length or more may end on the same hour: still the next day.
                    for b in ways(end, True):
                        yield {"issue": [y, m, d, h, issue.minute], "valid": f"{ways(start)[0]}/{b}",
                               "from": str(start), "until": str(end)}


def long_validities(tier):
    """Validities of up to four weeks, and such that start as late."""
    r = rng("c19-long")
    for y, m, d in DATES:
        for h in (0, 6, 13, 23):
            issue = dt.datetime(y, m, d, h, r.choice([0, 1, 30, 59]))
            for _ in range(200 if tier == "thorough" else 25):
                ahead, length = r.choice([(0, 27), (0, 27), (26, 1), (13, 13), (3, 24), (1, 26)])
                start = issue.replace(minute=0) + r.randint(0, ahead * 24) * HOUR
                end = start + r.randint(1, length * 24) * HOUR
                if r.random() < 0.2:
                    end = end.replace(hour=0)
                if not start < end or end - issue > 27 * DAY:
                    continue
                yield {"issue": [y, m, d, h, issue.minute], "valid": f"{ways(start)[0]}/{r.choice(ways(end, True))}",
                       "from": str(start), "until": str(end)}


def report_of(issue, rest):
    t = dt.datetime(*issue)
    return {"cls": "taf", "text": f"TAF PADK {t:%d%H%M}Z {rest}", "year": t.year, "month": t.month}


def valid_test(ctx, case):
    """The instants as constructed: not taken from the reference parser."""
    c = report_of(case["issue"], case["valid"] + " 27010KT 9999 -RA BKN010")
    rep = sut.make(c)
    v = rep.valid
    got = [v.code, v.period_from.time.replace(tzinfo=None), v.period_until.time.replace(tzinfo=None), v.duration]
    a, b = dt.datetime.fromisoformat(case["from"]), dt.datetime.fromisoformat(case["until"])
    if got != [case["valid"], a, b, b - a]:
        fail(f"{c['year']}-{c['month']} {c['text']!r}: the validity should be {case['valid']} {a} to {b} ({b - a}), but is {got}")
    if rep.unparsed_groups:
        fail(f"{rep.unparsed_groups} of {c['text']!r} is left unparsed")
    ctx.label("other month" if b.month != case["issue"][1] else "same month")
    return True


def temperatures(tier):
    r = rng("c19-t")
    values = [0, 1, 9, 10, 40, 99, -1, -5, -40, -99]
    n = 40 if tier == "thorough" else 6
    for y, m, d in DATES:
        for h in (0, 5, 11, 17, 23):
            for _ in range(n):
                issue = dt.datetime(y, m, d, h, r.choice([0, 1, 30, 59]))
                groups, want = [], {"X": [], "N": []}
                k = r.choice([["X"], ["N"], ["X", "N"], ["N", "X"], ["X", "X"], ["N", "N"], ["X", "N", "X", "N"], ["X", "X", "N", "N"],
                              ["N", "X", "X", "N"], ["N", "X", "X"], ["N", "N", "X"]])
                for kind in k:
                    # Any hour from the date of issue on, within four weeks (mostly the first two days).
                    day = issue.replace(hour=0, minute=0) + r.choice([0, 0, 0, 1, 1, 2, 3, 27]) * DAY
                    at = day.replace(hour=r.choice([0, 5, 12, 15, 23, h]))
                    v = r.choice([r.choice(values), r.randrange(-60, 60)])
                    sign = "M" if v < 0 or (v == 0 and r.random() < 0.3) else ""
                    g = f"T{kind}{sign}{abs(v):02d}/{at:%d%H}Z"
                    groups.append(g)
                    want[kind].append([g, v, str(at)])
                yield {"issue": [y, m, d, h, issue.minute], "groups": groups, "want": want,
                       "before": r.choice(["", "27010KT ", "27010KT CAVOK ", "27010KT 9999 -RA BKN010 OVC020 "])}


def orders(tier):
    """Every order of up to five temperatures, against the reference (which says how many of each are read)."""
    hours = ["1512", "1513", "1515", "1600", "1605", "1611"]
    for n in range(1, 6 if tier != "thorough" else 8):
        for kinds in product(*["XN"] * n):
            yield {"cls": "taf", "text": "TAF PADK 151130Z 1512/1612 27010KT 9999 " + " ".join(
                f"T{k}{10 + i:02d}/{hours[i % len(hours)]}Z" for i, k in enumerate(kinds)), "year": YEAR, "month": MONTH}


def any_hours(tier):
    """Validities and temperatures at any hours of the day of issue and of its neighbours, against the reference: before the issue, an end before the start, no length."""
    step = 1 if tier == "thorough" else 9
    n = 0
    for date, other in (((2024, 2, 28), 29), ((2024, 1, 15), 16), ((2023, 12, 31), 1), ((2024, 4, 30), 1), ((2024, 1, 15), 14)):
        y, m, d = date
        for ih in (0, 5, 12, 22, 23):
            for a in (0, 6, 12, 23):
                for da, db in ((d, d), (d, other), (other, other), (other, d)):
                    for b in (0, 3, 12, 13, 23, 24):
                        for k, v in (("TX", 0), ("TX", 1), ("TN", 12), ("TN", 23)):
                            n += 1
                            if n % step == SEED % step:
                                yield {"cls": "taf", "text": f"TAF PADK {d:02d}{ih:02d}30Z {da:02d}{a:02d}/{db:02d}{b:02d} 27010KT {k}10/{d:02d}{v:02d}Z {k}M01/{other:02d}{v:02d}Z",
                                       "year": y, "month": m}


def order_test(ctx, case):
    compare_full(case)
    return True


def temperature_test(ctx, case):
    t = dt.datetime(*case["issue"])
    end = t + DAY
    c = report_of(case["issue"], f"{t:%d%H}/{end:%d%H} {case['before']}{' '.join(case['groups'])} TEMPO {t:%d%H}/{end:%d%H} TS")
    rep = sut.make(c)
    for kind, lst in (("X", rep.max_temperatures), ("N", rep.min_temperatures)):
        got = [[g.code, g.in_celsius, str(g.time.time.replace(tzinfo=None))] for g in lst]
        if got != case["want"][kind]:
            fail(f"{c['year']}-{c['month']} {c['text']!r}: T{kind} should be {case['want'][kind]} but is {got}")
    if rep.unparsed_groups:
        fail(f"{rep.unparsed_groups} of {c['text']!r} is left unparsed")
    ctx.label(f"{len(case['groups'])} temperatures")
    return True


def flags(tier):
    for y, m, d in DATES[:6]:
        t = dt.datetime(y, m, d, 5, 40)
        v = f"{t:%d}06/{t:%d}24"
        for pre in ("TAF", "TAF AMD", "TAF COR", ""):
            for rest in ("NIL", f"{v} CNL", f"{v} 27010KT 9999", f"{v} NSW", "CNL", f"NIL {v}", f"{v} CNL 27010KT"):
                yield {"cls": "taf", "text": f"{pre} FMMI {t:%d%H%M}Z {rest}".strip(), "year": y, "month": m, "rest": rest}


def flag_test(ctx, case):
    rep = sut.make(case)
    words = case["rest"].split()
    got = (rep.missing.is_missing, rep.missing.code, rep.cancelled.is_cancelled, rep.cancelled.code)
    want = ("NIL" in words, "NIL" if "NIL" in words else None, "CNL" in words, "CNL" if "CNL" in words else None)
    if got != want or (rep.missing.description is not None) != want[0]:
        fail(f"{case['text']!r}: NIL, CNL should be {want} but are {got}, {rep.missing.description!r}")
    compare_full(case)
    return want[0] or want[2]


TOP = ("time", "valid", "max_temperatures", "min_temperatures", "missing", "cancelled")


def cases():
    return gen.st.one_of(gen.taf_case(), gen.taf_case(p=90), chaos.mutant_case(dated=True)).filter(lambda c: c["cls"] == "taf")


def test(ctx, case):
    want = defined(expected(case), "taf")
    got = sut.reading(case)
    check_diff(project(want, "taf", TOP, ()), project(got, "taf", TOP, ()), f"{case['year']}-{case['month']} {case['text']}")
    return want["_valid_given"] or bool(want["max_temperatures"] or want["min_temperatures"])


STAGES = [
    Enum("validities", validities, valid_test,
         "16 issue dates at the ends of months and years x issue hours x starts up to 48 h ahead x 12 lengths up to 48 h, midnight as 24 "
         "too (quick: a sample, denser at midnight); compared with the constructed instants; all are non-trivial"),
    Enum("long validities", long_validities, valid_test,
         "starts and lengths of hours up to four weeks; compared with the constructed instants; all are non-trivial"),
    Enum("temperatures", temperatures, temperature_test, "one to four TX/TN of each order, at hours up to 27 days ahead; all are non-trivial"),
    Enum("orders", orders, order_test, "every order of one to five (thorough: seven) TX and TN against the reference; all are non-trivial"),
    Enum("any hours", any_hours, order_test, "validities and temperatures at any hours of the day of issue and its neighbours, earlier than the issue and with an end not after "
         "the start too, against the reference; all are non-trivial"),
    Enum("flags", flags, flag_test, "NIL and CNL; non-trivial: one of them given"),
    Prop("reports", cases, test, "random and mutated TAFs against the reference; non-trivial: a validity or a temperature", 1600, 60000),
]
