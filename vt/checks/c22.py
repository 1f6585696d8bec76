import os
import re
import signal
import sys
import tempfile

from .common import *
from .. import chaos, forms, pristine
from ..engine import CASE_SECONDS, Custom, Hang, Violation
from ..read import diff

st = gen.st
_server = None


def server():
    global _server
    if _server is None or _server[0] != os.getpid():
        _server = (os.getpid(), pristine.Server())
    return _server[1]


class Silence:
    """Catches what is printed."""

    def __enter__(self):
        sys.stdout.flush()
        self.file = tempfile.TemporaryFile()
        self.saved = os.dup(1)
        os.dup2(self.file.fileno(), 1)
        return self

    def text(self):
        sys.stdout.flush()
        self.file.seek(0)
        return self.file.read().decode("utf-8", "replace")

    def __exit__(self, *a):
        sys.stdout.flush()
        os.dup2(self.saved, 1)
        os.close(self.saved)
        self.file.close()


LIST_NAMES = {c: forms.LISTS[c] for c in forms.LISTS}
OPS = ["new", "new", "strict", "reading", "forms", "group", "group", "list", "start", "start", "next", "next", "next", "nested", "index",
       "str", "dict", "json", "scribble", "cavok", "rules", "period", "unparsed"]


@st.composite
def histories(draw):
    n = draw(gen.one([2, 2, 3, 3, 4, 1]))
    cases = []
    for i in range(n):
        if cases and draw(st.integers(0, 2)) == 0:
            base = draw(gen.one(cases))
            text = base["text"] if draw(st.booleans()) else draw(chaos.mutate(base["text"], edits=2))
            cases.append(chaos.case(base["cls"], text, base["year"], base["month"]))
        else:
            c = draw(st.one_of(gen.report_case(p=75), gen.report_case(p=40), chaos.dated_case()))
            cases.append({k: c[k] for k in ("cls", "text", "year", "month")})
    op = st.tuples(gen.one(OPS), st.integers(0, 7), st.integers(0, 15)).map(list)
    k = draw(gen.one([4, 8, 12, 16, 20]))
    ops = [["new", 0, 0]] + draw(st.lists(op, min_size=k // 2, max_size=k))
    # The other texts are parsed at some point of the history.
    for i in range(1, n):
        ops.insert(draw(st.integers(0, len(ops))), ["new", i, 0])
    return {"cases": cases, "ops": ops}


class Slot:
    def __init__(self, case, rep, want):
        self.case, self.rep, self.want = case, rep, want
        self.cls = case["cls"]
        self.iterators = []

    def lists(self):
        """(name, list, what its forms must be) of all lists, those of the periods too."""
        out = [(n, getattr(self.rep, n), self.want["forms"][n]) for n in LIST_NAMES[self.cls]]
        for i, p in enumerate(getattr(self.rep, forms.PERIODS[self.cls]).items):
            for n in ("weathers", "clouds"):
                out.append((f"{i}.{n}", getattr(p, n), self.want["forms"]["periods"][i][n]))
        return out


def scribble(d, how):
    """Spoil every dictionary and list of a form."""
    for k, x in list(d.items() if isinstance(d, dict) else enumerate(d)):
        if isinstance(x, (dict, list)):
            scribble(x, how)
        if how == 1 and not isinstance(x, (dict, list)) or how == 2:
            d[k] = "spoilt"
    if how == 0:
        d.clear()
    elif how == 3:
        d.update({"spoilt": 1}) if isinstance(d, dict) else d.append("spoilt")


def read_op(slot, op, b):
    """One reading: (what it is, what it must be, what it is)."""
    want, rep, cls = slot.want, slot.rep, slot.cls
    from .. import read

    if op == "reading":
        return want["reading"], read.read(rep, cls)
    if op == "forms":
        return want["forms"], forms.forms(rep, cls)
    if op == "group":
        name = forms.GROUPS[cls][b % len(forms.GROUPS[cls])]
        return want["forms"][name], forms.one(getattr(rep, name))
    if op == "list":
        name = LIST_NAMES[cls][b % len(LIST_NAMES[cls])]
        return want["forms"][name], forms.lst(getattr(rep, name))
    if op == "str":
        return want["forms"]["report"]["str"], str(rep)
    if op == "dict":
        return want["forms"]["report"]["dict"], rep.as_dict()
    if op == "scribble":
        # A dictionary is the caller's own: what happens to it does not come back.
        for how in range(4):
            lst = slot.lists()[b % len(slot.lists())]
            codes = lst[1].codes
            was = list(codes)
            scribble(codes, how)
            if list(lst[1].codes) != was:
                return was, list(lst[1].codes)
            for d in (rep.as_dict(), getattr(rep, forms.GROUPS[cls][b % len(forms.GROUPS[cls])]).as_dict(), slot.lists()[b % len(slot.lists())][1].as_dict()):
                scribble(d, how)
            if rep.as_dict() != want["forms"]["report"]["dict"]:
                break
        return want["forms"]["report"]["dict"], rep.as_dict()
    if op == "json":
        return want["forms"]["report"]["json"], rep.to_json()
    if op == "cavok":
        return want["reading"]["should_be_cavok"], rep.should_be_cavok()
    if op == "rules":
        return [want["reading"]["flight_rules"], want["reading"]["ceiling"]], [rep.flight_rules, rep.clouds.ceiling]
    if op == "unparsed":
        return [want["reading"]["unparsed_groups"], want["reading"]["sections"]], [list(rep.unparsed_groups), list(rep.sections)]
    if op == "period":
        ps = want["reading"][forms.PERIODS[cls]]
        real = getattr(rep, forms.PERIODS[cls])
        if not ps:
            return 0, len(real)
        i = b % len(ps)
        return ([ps[i]["should_be_cavok"], ps[i]["flight_rules"], ps[i]["code"], want["forms"][forms.PERIODS[cls]]["items"][i]["str"]],
                [real[i].should_be_cavok(), real[i].flight_rules, real[i].code, str(real[i])])
    name, lst, f = slot.lists()[b % len(slot.lists())]
    if op == "index":
        n = len(f["items"])
        got = {}
        for k in range(n):
            i = (k + b) % n
            got[i] = forms.one(lst[i])
        return [n, f["items"]], [len(lst), [got[i] for i in range(n)]]
    if op == "nested":
        got = [[forms.one(x), [y.code for y in lst], [z.code for z in lst][:1]] for x in lst]
        codes = f["codes"]
        return [[g, codes, codes[:1]] for g in f["items"]], got
    if op == "start":
        slot.iterators.append([name, f, iter(lst), 0])
        return None, None
    if op == "next":
        if not slot.iterators:
            return None, None
        it = slot.iterators[b % len(slot.iterators)]
        k = it[3]
        it[3] += 1
        try:
            x = next(it[2])
        except StopIteration:
            slot.iterators.remove(it)
            return len(it[1]["items"]), k
        if k >= len(it[1]["items"]):
            fail(f"iteration of {name} of {slot.case['text']!r} goes beyond its end")
        return it[1]["items"][k], forms.one(x)
    raise KeyError(op)


def check_equal(want, got, what):
    check_diff(want, got, what)
    if type(want) is not type(got):
        fail(f"{what}: {got!r} instead of {want!r}")


def test(ctx, case):
    slots = []
    reads = 0
    wants = {}

    def want_of(c):
        k = (c["cls"], c["text"], c["year"], c["month"])
        if k not in wants:
            wants[k] = server().get(c)
        return wants[k]

    server()
    with Silence() as s:
        for n, (op, a, b) in enumerate(case["ops"]):
            if op in ("new", "strict") or not slots:
                c = case["cases"][a % len(case["cases"])]
                want = want_of(c)
                if "raised" in want:
                    continue
                strict = op == "strict"
                try:
                    rep = sut.make(c, strict)
                except Exception as e:
                    if strict and type(e).__name__ == "ParserError" and want["reading"]["unparsed_groups"]:
                        continue
                    fail(f"after {case['ops'][:n]}, {c['text']!r} raises {type(e).__name__}: {e}")
                slots.append(Slot(c, rep, want))
                continue
            slot = slots[a % len(slots)]
            w, g = read_op(slot, op, b)
            reads += 1
            check_equal(w, g, f"op {n} {op} of {slot.case['text']!r}")
        for slot in slots:
            w, g = slot.want, sut.everything(slot.rep, slot.cls)
            check_equal(w, g, f"at the end, {slot.case['text']!r}")
        printed = s.text()
    if printed:
        fail(f"prints {printed[:200]!r}")
    ctx.label(f"{len(slots)} reports")
    return len(slots) > 1 and reads > 3


# ---------------------------------------------------------------- other interpreters


@st.composite
def _batch(draw):
    return [{k: c[k] for k in ("cls", "text", "year", "month")}
            for c in [draw(st.one_of(gen.report_case(p=75), chaos.dated_case()))]]


def interpreters(stage, ctx, shard, shards, tier):
    """Batches of reports here, and each in new interpreters of other hash seeds, in another order."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from ..engine import derive

    cases = []

    @hypothesis.seed(derive("c22-fresh", shard))
    @settings(max_examples=4000 if tier == "thorough" else 150, database=None, deadline=None, suppress_health_check=list(HealthCheck),
              phases=(Phase.generate,))
    @given(_batch())
    def collect(c):
        cases.extend(c)

    collect()
    for i in range(0, len(cases), 300):
        part = cases[i:i + 300]
        try:
            stage.run_one(ctx, part)
        except Violation as v:
            for c in part:
                try:
                    stage.run_one(ctx, [c])
                except Violation as w:
                    return {"case": [c], "why": str(w)}
            return {"case": part, "why": str(v)}
        for c in part:
            ctx.count(c, True)
    return None


def interpreters_test(ctx, part):
    here = [pristine.normal(pristine.outcome(c)) for c in part]
    for hash_seed in (1, 4321):
        there, printed = pristine.fresh(part[::-1], hash_seed)
        if printed:
            fail(f"prints {printed[:200]!r}")
        for c, a, b in zip(part, here, there[::-1]):
            check_diff(a, b, f"in a new interpreter, {c['text']!r}")
    return True


# ---------------------------------------------------------------- a long life


def long_life(stage, ctx, shard, shards, tier):
    """Many reports made in one process, each again and again between the others."""
    import hypothesis
    import random
    from hypothesis import HealthCheck, Phase, given, settings
    from ..engine import derive

    cases = []

    @hypothesis.seed(derive("c22-long", shard))
    @settings(max_examples=300, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=(Phase.generate,))
    @given(_batch())
    def collect(c):
        cases.extend(c)

    collect()
    r = random.Random(f"{derive('c22-order', shard)}")
    server()
    few = r.sample(range(len(cases)), min(8, len(cases)))
    order = list(range(len(cases)))
    for _ in range(60000 if tier == "thorough" else 4500):
        order.append(r.choice(few) if r.random() < 0.5 else r.randrange(len(cases)))
    try:
        stage.run_one(ctx, {"cases": cases, "order": order})
    except Hang:
        return {"case": {"cases": cases, "order": order}, "why": f"a report is not done within {CASE_SECONDS} s"}
    except Violation as v:
        n = int(re.match(r"the report (\d+)", str(v)).group(1)) if str(v).startswith("the report ") else len(order)
        used = sorted(set(order[:n]))
        return {"case": {"cases": [cases[i] for i in used], "order": [used.index(i) for i in order[:n]]}, "why": str(v)}
    ctx.count({"first": cases[0], "reports": len(order)}, True)
    return None


def long_life_test(ctx, case):
    first = {}
    for n, i in enumerate(case["order"]):
        signal.alarm(CASE_SECONDS)  # for each report
        c = case["cases"][i]
        if i not in first:
            first[i] = server().get(c)
        want = first[i]
        if "raised" in want:
            continue
        got = sut.make(c)
        if n % 40 == 0 or n + 1 == len(case["order"]):
            d = diff(want, sut.everything(got, c["cls"]))
        else:
            d = diff(want["forms"]["report"]["dict"], got.as_dict())
        if d:
            fail(f"the report {n + 1} made in the process, {c['text']!r}: {d[0]} should be {repr(d[1])[:300]} but is {repr(d[2])[:300]}")
    return True


STAGES = [
    Prop("histories", histories, test,
         "histories of up to 25 constructions (default and strict) and readings over up to 4 texts, some near-copies of each other, with open, partial "
         "and nested iterations; every reading is compared with that in a process which parsed only that text; nothing may be printed; "
         "non-trivial: more than one report and three readings", 1200, 40000),
    Custom("long life", long_life, long_life_test, "some 4500 constructions of 300 reports in one process, eight of them over and over; the dictionary of each (and every "
           "40th time all that can be read) is compared with that in a process which parsed only that text; a process of this counts as one case", shards=8),
    Custom("interpreters", interpreters, interpreters_test, "batches of reports against new interpreters with other hash seeds and order", shards=4),
]
