from .common import *
from .. import chaos, forms

from aeromet_py.reports.models import RangeError

st = gen.st


def lists_of(rep, cls):
    """(name, kind, list, container's text) of each list."""
    out = [(n, n, getattr(rep, n)) for n in forms.LISTS[cls]]
    for i, p in enumerate(getattr(rep, forms.PERIODS[cls])):
        out += [(f"period {i}'s {n}", n, getattr(p, n)) for n in ("weathers", "clouds")]
    return out


def same_item(a, b):
    return a is b or forms.one(a) == forms.one(b)


def check_list(name, kind, lst, codes, text):
    """All views of a list agree with the codes that it must have."""
    where = f"{name} of {text!r}"
    cap = forms.CAPACITY[kind]
    n = len(codes)
    if n > cap:
        fail(f"the reference has {n} items for {where}")
    if len(lst) != n:
        fail(f"{where}: len() is {len(lst)}, should be {n}")
    by_index = [lst[i] for i in range(n)]
    views = {
        "indexing": by_index, "iteration": [x for x in lst], "list()": list(lst), "items": list(lst.items), "iteration again": [x for x in lst],
        "zip": [x for _, x in zip(range(n), lst)], "enumerate": [x for _, x in enumerate(lst)], "tuple": tuple(lst),
    }
    for v, items in views.items():
        if [x.code for x in items] != codes:
            fail(f"{where}: {v} gives {[x.code for x in items]}, should be {codes}")
        if not all(map(same_item, items, by_index)):
            fail(f"{where}: {v} gives other objects than indexing")
    if list(lst.codes) != codes:
        fail(f"{where}: codes are {lst.codes}, should be {codes}")
    nested = [[y.code for y in lst] for _ in lst]
    if nested != [codes] * n:
        fail(f"{where}: nested iteration gives {nested}")
    for x in lst:
        break  # abandoned
    if [x.code for x in lst] != codes:
        fail(f"{where}: iteration after an abandoned one gives {[x.code for x in lst]}")
    for i in list(range(n, cap + 3)) + [cap + 10, 1000, 10 ** 20]:
        try:
            lst[i]
        except Exception as e:
            e_type = type(e)
        else:
            fail(f"{where}: index {i} beyond the length {n} gives an item")
        if i < cap and not issubclass(e_type, IndexError):
            fail(f"{where}: index {i} (length {n}, capacity {cap}) raises {e_type.__name__}, should be IndexError")
        if i >= cap and not issubclass(e_type, RangeError):
            fail(f"{where}: index {i} (length {n}, capacity {cap}) raises {e_type.__name__}, should be RangeError")
    for i in list(range(1, n + 3)) + [cap + 1, 1000]:
        try:
            got = lst[-i].code
        except IndexError:
            got = IndexError
        if got != (codes[-i] if i <= n else IndexError):
            fail(f"{where}: index {-i} (length {n}) gives {got!r}")
    if len(lst) != n or [x.code for x in lst] != codes:
        fail(f"{where}: changed by reading")


def check_full(name, kind, lst, text):
    """A full list takes no more."""
    cap = forms.CAPACITY[kind]
    if len(lst) < cap:
        return False
    try:
        lst.add(lst[0])
    except Exception:
        pass
    if len(lst) > cap:
        fail(f"{name} of {text!r} holds {len(lst)} items, more than {cap}")
    return True


def whole_test(ctx, case):
    want = expected(case)
    rep = sut.make(case)
    cls = case["cls"]
    wants = {n: [g["code"] for g in want[n]] for n in forms.LISTS[cls]}
    for i, p in enumerate(want[forms.PERIODS[cls]]):
        for n in ("weathers", "clouds"):
            wants[f"period {i}'s {n}"] = [g["code"] for g in p[n]]
    found = lists_of(rep, cls)
    if {n for n, _, _ in found} != set(wants):
        fail(f"{case['text']!r}: {len(found)} lists, should be {len(wants)}")
    full = most = 0
    for name, kind, lst in found:
        check_list(name, kind, lst, wants[name], case["text"])
        most = max(most, len(lst))
    for name, kind, lst in found:
        full += check_full(name, kind, lst, case["text"])
    ctx.label("some list full" if full else "none full")
    return most > 1


# ------------------------------------------------------------------ more groups than places

MANY = {
    "runway_ranges": ("METAR PADK 151230Z 27010KT 5000 {} FEW030", ["R07/1000", "R25L/M0600", "R11R/P1500V2000U", "R36C/0400FTD", "R88/0200N"]),
    "weathers": ("METAR PADK 151230Z 27010KT 5000 {} FEW030", ["-RA", "BR", "+TSRA", "VCSH", "FG"]),
    "clouds": ("METAR PADK 151230Z 27010KT 5000 {} 10/05", ["FEW010", "SCT020CB", "BKN030", "OVC040", "VV001", "NSC"]),
    "windshears": ("METAR PADK 151230Z 27010KT 5000 10/05 Q1013 {} NOSIG", ["WS R07", "WS R25L", "WS R11C", "WS R36", "WS R01R"]),
    "weather_trends": ("METAR PADK 151230Z 27010KT 5000 10/05 Q1013 {}", ["TEMPO FM1300 -RA", "BECMG 5000", "NOSIG", "TEMPO TL1400 BKN010", "BECMG AT1330 CAVOK"]),
    "max_temperatures": ("TAF PADK 151130Z 1512/1612 27010KT CAVOK {}", ["TX10/1515Z", "TXM02/1606Z", "TX00/1512Z", "TX33/1516Z"]),
    "min_temperatures": ("TAF PADK 151130Z 1512/1612 27010KT CAVOK {}", ["TN10/1515Z", "TNM02/1606Z", "TN00/1512Z", "TN33/1516Z"]),
    "changes_forecasted": ("TAF PADK 151130Z 1512/1612 27010KT CAVOK {}",
                           ["FM151300 -RA", "TEMPO 1513/1514 BKN010", "BECMG 1514/1516 5000", "PROB30 1516/1518 FG", "PROB40 TEMPO 1518/1520 TS", "FM152000 CAVOK",
                            "BECMG 1520/1522 27010KT", "TEMPO 1523/1524 BR", "FM160000 NSW", "BECMG 1601/1602 NSC", "TEMPO 1603/1604 GR"]),
    "period weathers": ("TAF PADK 151130Z 1512/1612 CAVOK BECMG 1514/1516 {} NSC", ["-RA", "BR", "+TSRA", "VCSH", "FG"]),
    "period clouds": ("METAR PADK 151230Z 27010KT NOSIG TEMPO 5000 {}", ["FEW010", "SCT020CB", "BKN030", "OVC040", "VV001", "NSC"]),
    "fm clouds": ("TAF PADK 151130Z 1512/1612 CAVOK FM151400 5000 {}", ["FEW010", "SCT020CB", "BKN030", "OVC040", "VV001", "NSC"]),
    "trend weathers": ("METAR PADK 151230Z 27010KT NOSIG BECMG 5000 {}", ["-RA", "BR", "+TSRA", "VCSH", "FG"]),
}


def many(tier):
    r = rng("c23")
    for name, (frame, groups) in MANY.items():
        for n in range(0, len(groups) + 1):
            for k in range(200 if tier == "thorough" else 25):
                chosen = [r.choice(groups) for _ in range(n)] if k % 2 else r.sample(groups, n)
                yield {"list": name, "n": n, "groups": chosen,
                       "cls": "taf" if frame.startswith("TAF") else "metar", "text": " ".join(frame.format(" ".join(chosen)).split()), "year": 2024, "month": 2}


def many_test(ctx, case):
    rep = sut.make(case)
    name = case["list"]
    kind = {"period weathers": "weathers", "trend weathers": "weathers", "period clouds": "clouds", "fm clouds": "clouds"}.get(name, name)
    cap = forms.CAPACITY[kind]
    owner = rep
    if name != kind:
        owner = getattr(rep, forms.PERIODS[case["cls"]])[len(getattr(rep, forms.PERIODS[case["cls"]])) - 1]
    lst = getattr(owner, kind)
    codes = case["groups"][:cap]
    check_list(name, kind, lst, codes, case["text"])
    check_full(name, kind, lst, case["text"])
    ctx.label(f"{min(case['n'], cap)} of {cap}" + (" (more given)" if case["n"] > cap else ""))
    return case["n"] > 1


# ------------------------------------------------------------------ histories of operations

STEPS = ["start", "start", "next", "next", "next", "next", "next", "next", "drain", "abandon", "index", "len", "codes", "items", "over"]


@st.composite
def histories(draw):
    c = draw(gen.report_case(p=85))
    step = st.tuples(gen.one(STEPS), st.integers(0, 15), st.integers(0, 11)).map(list)
    k = draw(gen.one([8, 16, 24, 32]))
    steps = [["start", draw(st.integers(0, 15)), 0] for _ in range(2)] + draw(st.lists(step, min_size=k, max_size=k + 8))
    return {"cls": c["cls"], "text": c["text"], "year": c["year"], "month": c["month"], "steps": steps}


def history_test(ctx, case):
    rep = sut.make(case)
    ls = sorted(((n, k, l) for n, k, l in lists_of(rep, case["cls"]) if len(l) > 0), key=lambda x: -len(x[2]))[:3]
    if not ls:
        return False
    models = [list(l.items) for _, _, l in ls]
    live = []
    done = 0
    for n, (step, a, b) in enumerate(case["steps"]):
        i = a % len(ls)
        name, kind, lst = ls[i]
        model = models[i]
        where = f"step {n} {step} on {name} of {case['text']!r}"
        if step == "start":
            live.append([i, iter(lst), 0])
        elif step in ("next", "drain", "abandon"):
            if not live:
                continue
            it = live[b % len(live)]
            m = models[it[0]]
            if step == "abandon":
                live.remove(it)
                continue
            while True:
                try:
                    x = next(it[1])
                except StopIteration:
                    if it[2] != len(m):
                        fail(f"{where}: an iteration ends after {it[2]} of {len(m)} items")
                    live.remove(it)
                    break
                if it[2] >= len(m) or not same_item(x, m[it[2]]):
                    fail(f"{where}: item {it[2]} of an iteration is {x.code!r}")
                it[2] += 1
                done += 1
                if step == "next":
                    break
        elif step == "index":
            if not same_item(lst[b % len(model)], model[b % len(model)]):
                fail(f"{where}: another item")
        elif step == "len" and len(lst) != len(model):
            fail(f"{where}: {len(lst)}")
        elif step == "codes" and list(lst.codes) != [x.code for x in model]:
            fail(f"{where}: {lst.codes}")
        elif step == "items" and not (len(lst.items) == len(model) and all(map(same_item, lst.items, model))):
            fail(f"{where}: {[x.code for x in lst.items]}")
        elif step == "over":
            try:
                lst[len(model) + b]
            except (IndexError, RangeError):
                pass
            else:
                fail(f"{where}: an item beyond the end")
    ctx.label(f"{min(done, 12) // 4 * 4}+ items iterated")
    return done > 2


STAGES = [
    Prop("reports", lambda: st.one_of(gen.report_case(p=85), gen.report_case(p=60), chaos.dated_case()), whole_test,
         "random reports: all views of every list against the reference's codes, and the errors beyond the length; non-trivial: some list of more than one",
         1600, 60000),
    Enum("more than the places", many, many_test, "each list with none up to two or three more groups than it has places; non-trivial: more than one"),
    Prop("histories", histories, history_test, "interleaved open, abandoned and drained iterations, indexing and reading; non-trivial: more than two items iterated",
         1600, 60000),
    Enum("shapes", shapes, whole_test, SHAPES),
]
