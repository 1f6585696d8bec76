"""Copies and pickles of a report read the same and share nothing that changes."""
import copy
import gc
import pickle

import hypothesis
from hypothesis import HealthCheck, Phase, settings

from .common import *
from .. import chaos, copies, forms, pristine
from ..engine import Custom, Violation, derive

st = gen.st

WAYS = {"copy": copy.copy, "deepcopy": copy.deepcopy}
for _p in range(pickle.HIGHEST_PROTOCOL + 1):
    WAYS[f"pickle {_p}"] = lambda x, p=_p: pickle.loads(pickle.dumps(x, p))
DEEP = [w for w in WAYS if w != "copy"]


@st.composite
def cases(draw):
    c = draw(st.one_of(gen.report_case(p=85), gen.report_case(p=60), gen.report_case(p=30), chaos.dated_case()))
    out = {k: c[k] for k in ("cls", "text", "year", "month")}
    out["ways"] = draw(st.lists(gen.one(list(WAYS)), min_size=1, max_size=3))
    out["before"] = draw(st.booleans())  # read before it is copied
    out["alter"] = draw(st.integers(0, 3))
    return out


def copied(x, way, what):
    try:
        y = WAYS[way](x)
    except Exception as e:
        fail(f"{way} of {what} raises {type(e).__name__}: {e}")
    if type(y) is not type(x):
        fail(f"{way} of {what} is a {type(y).__name__}")
    return y


def parts(rep, cls):
    """(name, object, form) of the groups, lists and periods."""
    for n in forms.GROUPS[cls]:
        yield n, getattr(rep, n), forms.one
    for n in forms.LISTS[cls]:
        yield n, getattr(rep, n), forms.lst
        for i, x in enumerate(getattr(rep, n)):
            yield f"{n}[{i}]", x, forms.one
    for i, p in enumerate(getattr(rep, forms.PERIODS[cls])):
        yield f"period {i}'s indicator", getattr(p, forms.INDICATOR[cls]), forms.one
        yield f"period {i}'s clouds", p.clouds, forms.lst
        yield f"period {i}'s weathers", p.weathers, forms.lst
        yield f"period {i}'s visibility", p.prevailing_visibility, forms.one


def alter(rep, cls, how):
    """Changes what users can change in a report."""
    for vis in [rep.prevailing_visibility] + [p.prevailing_visibility for p in getattr(rep, forms.PERIODS[cls])]:
        vis.cavok = not vis.cavok
    for n in forms.LISTS[cls]:
        lst = getattr(rep, n)
        if how == 1 and 0 < len(lst) < forms.CAPACITY[n] and n != "changes_forecasted":
            lst.add(lst[0])
        elif how == 2:
            lst.items.clear()
    if how == 3:
        rep.unparsed_groups.append("spoilt")
        rep.sections.clear()


def test(ctx, case):
    cls, text = case["cls"], case["text"]
    try:
        rep = sut.make(case)
    except Exception:
        return False  # not a report (the other properties' affair)
    want = pristine.outcome(case)
    if "reading" not in want:
        return False
    if case["before"]:
        check_diff(want, sut.everything(rep, cls), f"{text!r}")
    # A chain of copies.
    last, chain = rep, ""
    for way in case["ways"]:
        chain = f"{way} of {chain}" if chain else way
        last = copied(last, way, f"{text!r}")
    check_diff(want, sut.everything(last, cls), f"{chain} of {text!r}")
    check_diff(want, sut.everything(rep, cls), f"{text!r} after {chain}")
    # Its parts on their own.
    for name, x, form in parts(rep, cls):
        for way in dict.fromkeys(case["ways"]):
            check_diff(form(x), form(copied(x, way, f"{name} of {text!r}")), f"{way} of {name} of {text!r}")
    # Nothing is shared: neither sees what happens to the other.
    way = case["ways"][-1] if case["ways"][-1] in DEEP else DEEP[len(text) % len(DEEP)]
    one, two = copied(rep, way, f"{text!r}"), copied(rep, way, f"{text!r}")
    alter(one, cls, case["alter"])
    check_diff(want, sut.everything(rep, cls), f"{text!r} after a change to its {way}")
    check_diff(want, sut.everything(two, cls), f"another {way} of {text!r} after a change to the first")
    alter(rep, cls, case["alter"])
    check_diff(want, sut.everything(two, cls), f"the {way} of {text!r} after a change to the report")
    del rep, one
    if len(text) % 16 == 0:
        gc.collect()
    check_diff(want, sut.everything(two, cls), f"the {way} of {text!r} after the report has gone")
    ctx.label(way)
    # The error of strict mode.
    if want["reading"]["unparsed_groups"]:
        try:
            sut.make(case, True)
        except Exception as e:
            for way in dict.fromkeys(case["ways"]):
                f = copied(e, way, f"the error for {text!r}")
                if str(f) != str(e) or f.args != e.args:
                    fail(f"{way} of the error for {text!r}: {f!r} instead of {e!r}")
            ctx.label("error")
    return True


def interpreters(stage, ctx, shard, shards, tier):
    found = []

    @hypothesis.seed(derive("c39", shard))
    @settings(max_examples=6000 if tier == "thorough" else 150, database=None, deadline=None, suppress_health_check=list(HealthCheck),
              phases=(Phase.generate,))
    @hypothesis.given(cases())
    def collect(c):
        found.append(c)

    collect()
    for i in range(0, len(found), 200):
        part = found[i:i + 200]
        try:
            stage.run_one(ctx, part)
        except Violation as v:
            for c in part:
                try:
                    stage.run_one(ctx, [c])
                except Violation as w:
                    return {"case": [c], "why": str(w)}
            return {"case": part, "why": str(v)}
        for c in part:
            ctx.count(c, True)
    return None


def interpreters_test(ctx, part):
    jobs, wants = [], []
    for i, c in enumerate(part):
        want = pristine.normal(pristine.outcome(c))
        if "reading" not in want:
            continue
        try:
            data = pickle.dumps(sut.make(c), i % (pickle.HIGHEST_PROTOCOL + 1))
        except Exception as e:
            fail(f"pickle of {c['text']!r} raises {type(e).__name__}: {e}")
        jobs.append((c["cls"], data))
        wants.append((c, want))
    for (c, want), there in zip(wants, copies.elsewhere(jobs, 77)):
        if "raised" in there:
            fail(f"{c['text']!r} pickled and read in another interpreter raises {there}")
        check_diff(want, there, f"{c['text']!r} pickled and read in another interpreter")
    return True


STAGES = [
    Prop("copies", cases, test,
         "random and odd reports; chains of up to 3 of copy, deepcopy and pickle (each protocol), of the report, its groups, lists and periods, and of the error of "
         "strict mode; complete readings are compared, also after changes to the copy or to the report; non-trivial: all that are reports", 1200, 40000),
    Custom("interpreters", interpreters, interpreters_test, "batches of reports pickled here and read in a new interpreter with another hash seed; every case counts", shards=4),
]
