"""Reports can be made and read in several threads at once."""
from .common import *
from .. import chaos, forms
from ..threads import Turns, lines_of

st = gen.st

turn = st.tuples(st.one_of(st.integers(1, 20), st.integers(1, 100), st.integers(1, 600), st.integers(1, 10000)), st.integers(0, 2)).map(list)


@st.composite
def schedules(draw):
    """Up to three threads, each making or sharing a report and reading it."""
    n = draw(gen.one([2, 2, 3]))
    cases = []
    for i in range(n):
        if cases and draw(st.integers(0, 2)) == 0:
            base = draw(gen.one(cases))
            cases.append(dict(base) if draw(st.booleans()) else chaos.case(base["cls"], draw(chaos.mutate(base["text"], edits=2)), base["year"], base["month"]))
        else:
            c = draw(st.one_of(gen.report_case(p=85), gen.report_case(p=50), gen.report_case(p=85), chaos.dated_case()))
            cases.append({k: c[k] for k in ("cls", "text", "year", "month")})
    shared = draw(st.integers(0, 3)) == 0
    if shared:
        cases = [cases[0]] * n
    what = [draw(gen.one(["reading", "forms", "strict", "iterate", "reading"])) for _ in range(n)]
    k = draw(gen.one([3, 10, 30]))
    return {"cases": cases, "shared": shared, "what": what, "turns": draw(st.lists(turn, min_size=2, max_size=k))}


def job(case, rep, what):
    cls = case["cls"]
    from .. import read

    def f():
        if what == "strict" and rep is None:
            try:
                r = sut.make(case, True)
            except Exception as e:
                if type(e).__name__ != "ParserError":
                    raise
                return "ParserError", str(e)
        else:
            r = rep if rep is not None else sut.make(case)
        if what == "forms":
            return forms.forms(r, cls)
        if what == "iterate":
            out = []
            for name in forms.LISTS[cls]:
                lst = getattr(r, name)
                out.append([[x.code, [y.code for y in lst], str(x)] for x in lst])
            return out, r.should_be_cavok(), r.flight_rules
        return read.read(r, cls)

    return f


def test(ctx, case):
    reps = [None] * len(case["cases"])
    if case["shared"]:
        reps = [sut.make(case["cases"][0])] * len(reps)
    wants = [job(c, None if w == "strict" else None, w)() for c, w in zip(case["cases"], case["what"])] if not case["shared"] else [
        job(c, sut.make(c), w)() for c, w in zip(case["cases"], case["what"])]
    t = Turns([job(c, r, w) for c, r, w in zip(case["cases"], reps, case["what"])], case["turns"])
    for c, w, want, (how, got) in zip(case["cases"], case["what"], wants, t.run()):
        if how == "raised":
            fail(f"{w} of {c['text']!r} in a thread: {got}")
        if isinstance(want, tuple):
            want, got = list(want), list(got)
        check_diff(want, got, f"{w} of {c['text']!r} in a thread")
    ctx.label("shared report" if case["shared"] else "own reports")
    ctx.label("switches", t.switches)
    return t.switches > (0 if case.get("once") else 3)


PAIRS = [
    (("metar", "METAR PADK 151230Z AUTO 27010G20KT 240V300 5000 1200S R07/1000 R25/M0600U R11/P1500 -RA BR +TSGR FEW010 SCT020CB BKN030 OVC040 M10/M12 A2992 RERA WS R07 WS R25L "
               "W15/S4 R07L/290155 XXX TEMPO FM1300 TL1400 30015KT 2000 -SN BR BKN005 OVC010 YYY BECMG AT1330 CAVOK RMK AO2 SLP"),
     ("metar", "SPECI KJFK 281159Z COR 08025KT 010V090 1 1/2SM R36R/0400V0800FT R18L/0200D +SHSN FG OVC002 BKN100 20/19 Q0987 RETSGR WS ALL RWY WM01/H012 R88/CLRD// ZZZ "
               "BECMG FM1215 14004G30MPS CAVOK TEMPO 0300 FZFG VV001 RMK SLP123 T01")),
    (("taf", "TAF AMD PADK 151130Z 1512/1612 27010G20KT 5000 -RA BR BKN010 OVC030CB TX10/1515Z TNM02/1606Z XXX FM151300 08005KT CAVOK YYY TEMPO 1514/1516 TSRA BKN005 "
             "PROB30 TEMPO 1518/1522 0800 FG VV002 BECMG 1600/1602 33020KT 9999 FEW020 FM160600 VRB02KT 8000 NSW SCT015"),
     ("taf", "TAF COR KJFK 312315Z 0100/0206 VRB03MPS 1/2SM FG VV001 TNM15/0106Z TX03/0114Z ZZZ BECMG 0103/0105 18015G30KT P6SM -SHRA SCT040TCU PROB40 0108/0112 2000 TS "
             "FM011530 02008KT 9000 FEW100 TEMPO 0118/0124 BLSN OVC008 WWW FM020230 VRB01KT CAVOK BECMG 0204/0205 9999 SKC")),
]


def once(tier):
    """One thread is stopped before each line of the code, the other runs from its start to its end, and the first goes on."""
    for a, b in PAIRS:
        a, b = (dict(zip(("cls", "text"), x), year=2024, month=2) for x in (a, b))
        for first, second, what, shared in (
                (a, b, ("strict", "reading"), False), (a, b, ("forms", "forms"), False), (b, a, ("reading", "forms"), False), (a, a, ("reading", "forms"), True),
                (a, a, ("iterate", "iterate"), True), (b, b, ("forms", "forms"), True)):
            seen = {}
            try:
                lines = lines_of(job(first, sut.make(first) if shared else None, what[0]))
            except Exception:
                lines = [("", 0)]  # the case below raises it again
            for k, line in enumerate(lines):
                n = seen[line] = seen.get(line, 0) + 1
                if n in ((1, 2, 3, 5, 9, 20) if tier == "thorough" else (1, 2) if what[0] == "strict" else (1,)):
                    yield {"cases": [first, second], "shared": shared, "what": list(what), "turns": [[k + 1, 0], [10 ** 9, 0], [10 ** 9, 0]], "once": True}


STAGES = [
    Enum("once", once, test, "two full reports made and read in two threads, or one read in both: the first thread is stopped before the first visit (for some jobs the second too) of each line "
         "of the code, the other runs to its end, the first goes on; non-trivial: it was stopped"),
    Prop("schedules", schedules, test, "two or three threads that make and read reports of their own or share one, switched before chosen lines of the code by a generated "
         "schedule; each result is compared with that without threads; non-trivial: more than three switches", 1200, 40000),
]
