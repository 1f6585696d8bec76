import json

from .common import *
from .. import chaos, forms


def plain(x):
    """No NaN, no infinity, only JSON types."""
    if isinstance(x, dict):
        return all(isinstance(k, str) and plain(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return all(plain(v) for v in x)
    if isinstance(x, float):
        return x == x and x not in (float("inf"), float("-inf"))
    return x is None or isinstance(x, (str, int, bool))


def no_constant(name):
    raise ValueError(f"{name} is not JSON")


class Checker:
    def __init__(self, text):
        self.text = text
        self.entries = 0

    def one(self, what, want, f):
        """want: what the attributes state; f: the forms of the object."""
        got = f["dict"]
        if not isinstance(got, dict) or not plain(got):
            fail(f"{self.text!r}: the dictionary of {what} is {got!r}")
        check_diff(want, got, f"{self.text!r}: the dictionary of {what}")
        try:
            back = json.loads(f["json"], parse_constant=no_constant)
        except ValueError as e:
            fail(f"{self.text!r}: the JSON of {what} is not JSON: {e}: {f['json'][:200]!r}")
        if back != forms.jsonable(got):
            fail(f"{self.text!r}: the JSON of {what} reads back as {str(back)[:300]}, the dictionary is {str(got)[:300]}")
        self.entries += len(got)

    def list(self, kind, values, f, reading):
        want = forms.dict_of_list(kind, values)
        self.one(kind, want, f)
        if list(f["dict"]) != list(want):
            fail(f"{self.text!r}: the keys of the dictionary of {kind} are {list(f['dict'])}")
        for i, (v, g) in enumerate(zip(values, f["items"])):
            self.one(f"{kind}[{i}]", forms.dict_of(kind, v), g)
            if f["dict"][forms.LABELS[i]] != g["dict"]:
                fail(f"{self.text!r}: entry {i} of {kind} is {f['dict'][forms.LABELS[i]]}, that of the item {g['dict']}")


def check(case, got=None):
    """The forms against the attributes of the same report. Returns the number of entries compared."""
    cls = case["cls"]
    got = got or sut.full(case)
    r, f = got["reading"], got["forms"]
    c = Checker(case["text"])
    for name in forms.GROUPS[cls]:
        c.one(name, forms.dict_of(name, r[name]), f[name])
        if f["report"]["dict"].get(name) != f[name]["dict"]:
            fail(f"{case['text']!r}: {name} in the dictionary of the report is {f['report']['dict'].get(name)}, its own is {f[name]['dict']}")
    for name in forms.LISTS[cls]:
        c.list(name, r[name], f[name], r)
        if f["report"]["dict"].get(name) != f[name]["dict"]:
            fail(f"{case['text']!r}: {name} in the dictionary of the report is {f['report']['dict'].get(name)}, its own is {f[name]['dict']}")
    for p, g in zip(r[forms.PERIODS[cls]], f["periods"]):
        ind = forms.INDICATOR[cls]
        c.one(ind, forms.dict_of(ind, p[ind]), g["indicator"])
        for name in ("wind", "prevailing_visibility"):
            c.one("a period's " + name, forms.dict_of(name, p[name]), g[name])
        for name in ("weathers", "clouds"):
            c.list(name, p[name], g[name], p)
        if cls == "taf":
            c.one("validity", forms.dict_of("valid", p[ind]["valid"]), g["valid"])
        else:
            i = p[ind]
            for w, t in zip([i["period_from"], i["period_until"], i["init"], i["end"], i["period_at"]], g["times"]):
                if (w is None) != (t is None):
                    fail(f"{case['text']!r}: the times of {ind}")
                if w is not None:
                    c.one("a time", forms.dict_of("time", w), t)
    if cls == "taf":
        temps = r["max_temperatures"] + r["min_temperatures"]
        for w, t in zip(temps, f["temperature_times"]):
            c.one("a temperature's time", forms.dict_of("time", w["time"]), t)
    c.one("the report", forms.dict_of_report(cls, r), f["report"])
    return c.entries


def test(ctx, case):
    n = check(case)
    ctx.label(f"{n // 100 * 100}+ entries")
    return n > 100


def tokens(tier):
    """Groups of every kind, in every section."""
    from .c25 import SAMPLES

    for kind, t in SAMPLES:
        for c in CONTEXTS:
            yield dict(place_token(c, t), kind=kind)


def hours(tier):
    """Trends, validities, changes and temperatures at every hour of the day, the whole ones too."""
    for at in ("151200Z", "150000Z", "312330Z"):
        for h in range(25):
            for m in (0, 30, 59):
                if h == 24 and m:
                    continue
                t = f"{h:02d}{m:02d}"
                for trend in (f"BECMG AT{t} FG", f"TEMPO FM{t} FG", f"TEMPO TL{t} FG", f"BECMG FM{t} TL{t} FG", f"TEMPO FM0000 TL{t} FG"):
                    if tier == "thorough" or m == 0 or (h + m) % 5 == 0:
                        yield {"cls": "metar", "text": f"METAR PADK {at} 27010KT {trend}", "year": 2024, "month": 1}
    for h in range(25):
        for d in (15, 16, 31, 1):
            e = 16 if d == 15 else 17 if d == 16 else 1 if d == 31 else 2
            b = f"TAF PADK {d:02d}0000Z {d:02d}{h % 24:02d}/{e:02d}{h:02d} TX10/{d:02d}{h % 24:02d}Z TN05/{e:02d}{(h + 1) % 24:02d}Z TNM00/{d:02d}00Z"
            for change in (f"BECMG {d:02d}{h % 24:02d}/{e:02d}00 FG", f"FM{d:02d}{h % 24:02d}00 FG", f"TEMPO {d:02d}00/{d:02d}{h:02d} FG", f"PROB30 TEMPO {d:02d}{h % 24:02d}/{d:02d}24 FG FM{e:02d}0030 9999"):
                yield {"cls": "taf", "text": f"{b} {change}", "year": 2024, "month": 1}


STAGES = [
    Prop("reports", lambda: gen.st.one_of(gen.report_case(), gen.report_case(p=95), chaos.dated_case()), test,
         "random well-formed, mutated and soup reports; every entry of every dictionary is compared with the attributes, and the JSON read back; "
         "non-trivial: more than 100 entries", 2000, 80000),
    Enum("groups", tokens, test, "typical groups of every kind in every section; non-trivial as above"),
    Enum("stations", odd_stations, lambda ctx, case: check(case) > 4, "a report of each station with an unusual entry of the table and of a share of the others "
         "(thorough: of all); non-trivial as above"),
    Enum("hours", hours, test, "trends, validities, changes and temperatures at every hour from 00 to 24; non-trivial as above"),
    Enum("shapes", shapes, test, SHAPES),
]
