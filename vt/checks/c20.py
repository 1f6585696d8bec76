import datetime as dt

from .common import *
from .. import chaos
from .. import tables as T

DATES = [(2024, 2, 28), (2024, 2, 29), (2023, 2, 28), (2023, 12, 31), (2024, 4, 30), (2024, 12, 30), (2024, 6, 15), (1999, 12, 31), (2000, 1, 31)]
HOUR = dt.timedelta(hours=1)
DAY = dt.timedelta(days=1)

WEATHER = [("27010KT", "9999", ["-RA"], ["BKN010"]), ("VRB05KT", "CAVOK", [], []), (None, "0800", ["FG"], ["VV002"]),
           (None, None, ["TSRA", "GR"], ["SCT020CB", "OVC040"]), ("36020G35KT", None, [], []), (None, None, [], ["FEW005", "SCT010", "BKN015", "OVC030"]),
           ("09015MPS", "P6SM", ["NSW"], ["SKC"]), (None, "1 1/2SM", ["BR"], ["NSC"]), (None, None, [], [])]
KINDS = ["FM", "FM", "FM", "BECMG", "BECMG", "TEMPO", "TEMPO", "PROB30", "PROB40", "PROB30 TEMPO", "PROB40 TEMPO"]


def midnight24(t, r):
    if t.hour == 0 and r.random() < 0.5:
        return f"{t - DAY:%d}24"
    return f"{t:%d%H}"


def build(r, date, seq, length, ordered=True):
    """A TAF with the changes of seq, and the periods they must get."""
    y, m, d = date
    issue = dt.datetime(y, m, d, r.randrange(24), r.choice([0, 15, 40, 59]))
    start = issue.replace(minute=0) + r.choice([0, 0, 1, 1, 2, 6, 24]) * HOUR
    end = start + length * HOUR
    begins = [r.randrange(0, length) for _ in seq]
    if ordered:
        begins.sort()
    changes = []
    for kind, b in zip(seq, begins):
        w = r.choice(WEATHER)
        begin = start + b * HOUR
        c = {"kind": kind, "weather": [w[0], w[1], w[2], w[3]]}
        if kind == "FM":
            begin += dt.timedelta(minutes=r.choice([0, 0, 30, 59, r.randrange(60)]))
            c["head"] = f"FM{begin:%d%H%M}"
            c["code"] = None
            c["until"] = str(end)
        else:
            fin = start + r.randrange(b + 1, length + 1) * HOUR
            c["code"] = f"{begin:%d%H}/{midnight24(fin, r)}"
            c["head"] = f"{kind} {c['code']}"
            c["until"] = str(fin)
        c["from"] = str(begin)
        changes.append(c)
    for i, c in enumerate(changes):
        if c["kind"] == "FM":
            for n in changes[i + 1:]:
                if n["kind"] in ("FM", "BECMG"):
                    c["until"] = str(dt.datetime.fromisoformat(n["from"]) - HOUR)
                    break
    text = f"TAF PADK {issue:%d%H%M}Z {start:%d%H}/{midnight24(end, r)} 22008KT 6000 SCT030"
    for c in changes:
        c["text"] = " ".join([c["head"]] + [g for g in (c["weather"][0], c["weather"][1]) if g] + c["weather"][2] + c["weather"][3])
        text += " " + c["text"]
    return {"text": text, "year": y, "month": m, "changes": changes}


def sequences(tier):
    r = rng("c20")
    kinds = ["FM", "BECMG", "TEMPO", "PROB30", "PROB40 TEMPO"]
    short = [[]] + [[a] for a in KINDS] + [[a, b] for a in kinds for b in kinds] + [[a, b, c] for a in kinds for b in kinds for c in kinds]
    if tier == "thorough":
        short += [[a, b, c, e] for a in kinds for b in kinds for c in kinds for e in kinds] * 2
        short = short * 4
    for i, seq in enumerate(short):
        for k in range(6 if tier != "thorough" else 3):
            yield build(r, DATES[(i + k) % len(DATES)], seq, r.choice([6, 12, 24, 30, 36]), r.random() < 0.85)
    for i in range(20000 if tier == "thorough" else 1200):
        seq = [r.choice(KINDS) for _ in range(r.choice([4, 5, 6, 7, 8, 8]))]
        yield build(r, r.choice(DATES), seq, r.choice([12, 24, 30, 36]), r.random() < 0.85)
    # An FM long before the change which ends it.
    for n in range(0, 7):
        for between in (["TEMPO"], ["PROB30"], ["PROB30 TEMPO"], ["TEMPO", "PROB40"]):
            for last in ("FM", "BECMG"):
                yield build(r, DATES[n % len(DATES)], ["FM"] + (between * 7)[:n] + ([last] if n < 7 else []), 24)


def test(ctx, case):
    """The periods as constructed: not taken from the reference parser."""
    c = {"cls": "taf", "text": case["text"], "year": case["year"], "month": case["month"]}
    rep = sut.make(c)
    got = rep.changes_forecasted
    where = f"{case['year']}-{case['month']} {case['text']!r}"
    if len(got) != len(case["changes"]) or rep.unparsed_groups:
        fail(f"{where}: {len(got)} changes, unparsed {rep.unparsed_groups}")
    for i, w in enumerate(case["changes"]):
        g = got[i]
        ind = g.change_indicator
        v = ind.valid
        span = [str(v.period_from.time.replace(tzinfo=None)), str(v.period_until.time.replace(tzinfo=None))]
        if span != [w["from"], w["until"]]:
            fail(f"{where}: {w['text']!r} should be valid {w['from']} to {w['until']} but is {span}")
        seconds = (dt.datetime.fromisoformat(w["until"]) - dt.datetime.fromisoformat(w["from"])).total_seconds()
        if v.duration.total_seconds() != seconds:
            fail(f"{where}: the duration of {w['text']!r} is {v.duration}")
        period = f"from {w['from']} until {w['until']}"
        meaning = period if w["kind"] == "FM" else f"{T.INDICATORS[w['kind']]} {period}"
        if [g.code, ind.code, ind.translation, v.code] != [w["text"], w["head"], meaning, w["code"]]:
            fail(f"{where}: code, indicator, meaning, validity should be {[w['text'], w['head'], meaning, w['code']]} "
                 f"but are {[g.code, ind.code, ind.translation, v.code]}")
        own = [g.wind.code, g.prevailing_visibility.code, [x.code for x in g.weathers], [x.code for x in g.clouds]]
        if own != w["weather"]:
            fail(f"{where}: {w['text']!r} should have {w['weather']} but has {own}")
    ctx.label(f"{len(case['changes'])} changes")
    return bool(case["changes"])


PART = ("code", "change_indicator", "wind", "prevailing_visibility", "weathers", "clouds", "unparsed_groups")


def reports():
    return gen.st.one_of(gen.taf_case(), gen.taf_case(p=80), chaos.mutant_case(dated=True), chaos.soup_case(dated=True))


def report_test(ctx, case):
    case = dict(case, cls="taf")
    want = defined(expected(case), "taf")
    got = sut.reading(case)
    periods = [{k: p[k] for k in PART} for p in want["changes_forecasted"]]
    check_diff(periods, [{k: p[k] for k in PART} for p in got["changes_forecasted"]], f"{case['year']}-{case['month']} {case['text']}")
    check_diff(want.get("valid", got["valid"]), got["valid"], f"the TAF's own validity, {case['text']}")
    return want["_valid_given"] and bool(periods)


def any_hours(tier):
    """Changes at any hours of the days around the validity, before and after it too, against the reference."""
    step = 1 if tier == "thorough" else 7
    n = 0
    for (y, m, d), e in (((2024, 2, 28), 29), ((2024, 1, 15), 16), ((2023, 12, 31), 1), ((2024, 4, 30), 1)):
        for s, u in ((12, 12), (0, 24), (6, 6), (23, 5)):
            for a in (0, 5, 6, 11, 12, 13, 23):
                for b in (0, 5, 6, 12, 13, 23, 24):
                    for x in (d, e):
                        for change in (f"FM{x:02d}{a:02d}00 CAVOK", f"FM{x:02d}{a:02d}30 9999 FM{e:02d}{b % 24:02d}15 0800 FG", f"BECMG {x:02d}{a:02d}/{x:02d}{b:02d} FG",
                                       f"TEMPO {x:02d}{a:02d}/{e:02d}{b:02d} FG FM{x:02d}{a:02d}59 VRB01KT PROB40 {d:02d}{b:02d}/{e:02d}{a:02d} TS",
                                       f"FM{x:02d}{a:02d}{b:02d} 9999 PROB30 TEMPO {x:02d}{a:02d}/{e:02d}{b:02d} GR BECMG {x:02d}{b % 24:02d}/{e:02d}{a:02d} SN"):
                            n += 1
                            if n % step == SEED % step:
                                yield {"cls": "taf", "text": f"TAF PADK {d:02d}{max(s - 1, 0):02d}40Z {d:02d}{s:02d}/{e:02d}{u:02d} 27010KT 9999 {change}", "year": y, "month": m}


STAGES = [
    Enum("sequences", sequences, test,
         "all sequences of up to three (thorough: four) kinds of changes and random ones of up to eight, ordered in time or not, on 9 dates at "
         "the ends of months; compared with the constructed periods; non-trivial: some change"),
    Prop("reports", reports, report_test, "random, mutated and soup TAFs against the reference; non-trivial: a validity and some change", 2400, 80000),
    Enum("any hours", any_hours, report_test, "changes at any hours of the days around the validity, before its start and after its end too, and the ones after an FM, against "
         "the reference; all are non-trivial"),
    Enum("shapes", lambda tier: (c for c in shapes(tier) if c["cls"] == "taf"), report_test, SHAPES),
]
