"""The result depends on the arguments alone, not on the surroundings."""
import time

import hypothesis
from hypothesis import HealthCheck, Phase, settings

from .common import *
from .. import around, chaos, pristine
from ..engine import Custom, Violation, derive

st = gen.st

FLAGS = [[], ["-O"], ["-OO"], ["-B"], ["-u"], ["-s"], ["-X", "utf8=0"], ["-X", "utf8=1"], ["-X", "dev"], ["-W", "always"], ["-W", "error"], ["-bb"], ["-O", "-X", "utf8=0"], ["-X", "frozen_modules=off"]]
# Zones with summer time; a report at each of these times is among the samples.
SUMMER_N, SUMMER_S = "EST5EDT,M3.2.0/2,M11.1.0/2", "AAA-10BBB,M10.1.0/2,M4.1.0/3"
CHANGES = [(2024, 3, 10), (2024, 11, 3), (2024, 10, 6), (2024, 4, 7)]
ENVS = [{"LC_ALL": "C"}, {"LC_ALL": "C.UTF-8"}, {"LC_ALL": "POSIX", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, {"LANG": "tr_TR.UTF-8", "LANGUAGE": "tr"},
        {"LANG": "es_CR.UTF-8", "LC_NUMERIC": "de_DE.UTF-8"}, {"TZ": "America/Costa_Rica"}, {"TZ": "XXX-14"}, {"TZ": "XXX+12"}, {"TZ": SUMMER_N}, {"TZ": SUMMER_S}, {"HOME": None}, {"PATH": None},
        {"HOME": "/nonexistent", "TMPDIR": "/nonexistent", "USER": None}, {"PYTHONIOENCODING": "ascii"}, {"DEBUG": "1", "AEROMET_DEBUG": "1", "CI": "true"},
        {"AEROMET_PY_STRICT": "1", "AEROMET_STRICT": "1", "TRUNCATE": "1", "ENV": "production"}, {"COLUMNS": "10", "LINES": "3", "NO_COLOR": "1", "TERM": "dumb"}]
STATES = ["random", "decimal", "gc", "warnings", "locale", "stdout", "no stdout", "weeks", "argv", "logging"]

surroundings = st.fixed_dictionaries({
    "flags": gen.one(FLAGS), "env": st.tuples(gen.one(ENVS), gen.one([{}] + ENVS), st.integers(0, 2 ** 32 - 1)).map(
        lambda v: {**v[0], **v[1], "PYTHONHASHSEED": str(v[2])}),
    "cwd": gen.one(["", "root", "empty", "decoys"]), "state": st.lists(gen.one(STATES), max_size=3, unique=True), "copy": st.booleans()})


at_change = st.tuples(gen.one(CHANGES), st.integers(0, 3), st.integers(0, 59), st.integers(1990, 2060)).map(
    lambda v: {"cls": "metar", "text": f"METAR PADK {v[0][2]:02d}{v[1]:02d}{v[2]:02d}Z 27010KT", "year": v[0][0], "month": v[0][1]})


@st.composite
def some_cases(draw):
    out = []
    for _ in range(draw(st.integers(20, 60))):
        c = draw(st.one_of(gen.report_case(p=70), gen.report_case(p=40), gen.report_case(p=90), chaos.dated_case(), at_change))
        out.append({k: c[k] for k in ("cls", "text", "year", "month")})
    return out


def test(ctx, case):
    out = around.run(case)
    for c, there in zip(case["cases"], out["outcomes"]):
        check_diff(pristine.normal([pristine.outcome(c), pristine.outcome(c, True)]), there, f"{c['text']!r} in an interpreter with {case['around']}")
    ctx.label("flags " + " ".join(case["around"]["flags"]))
    for s in case["around"]["state"]:
        ctx.label("state: " + s)
    return True


def batches(stage, ctx, shard, shards, tier):
    jobs = []

    @hypothesis.seed(derive("c34", shard))
    @settings(max_examples=(400 if tier == "thorough" else 12), database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=(Phase.generate,))
    @hypothesis.given(st.fixed_dictionaries({"around": surroundings, "cases": some_cases()}))
    def collect(j):
        jobs.append(j)

    collect()
    return decide(stage, ctx, jobs)


def decide(stage, ctx, jobs):
    for j in jobs:
        try:
            stage.run_one(ctx, j)
        except Violation as v:
            return smaller(stage, ctx, j, str(v))
        for c in j["cases"]:
            ctx.count([c, j["around"]], True)
    return None


def smaller(stage, ctx, job, why):
    """The first case that fails alone, with as few surroundings as needed."""

    def fails(j):
        try:
            stage.run_one(ctx, j)
        except Violation as v:
            return str(v)

    end = time.monotonic() + 60
    while len(job["cases"]) > 1 and time.monotonic() < end:
        half = len(job["cases"]) // 2
        for cases in (job["cases"][:half], job["cases"][half:]):
            w = fails(dict(job, cases=cases))
            if w:
                job, why = dict(job, cases=cases), w
                break
        else:
            break
    for k, plain in around.PLAIN.items():
        j = dict(job, around=dict(job["around"], **{k: plain}))
        w = fails(j)
        if w:
            job, why = j, w
    for k in list(job["around"]["env"]):
        j = dict(job, around=dict(job["around"], env={n: v for n, v in job["around"]["env"].items() if n != k}))
        w = fails(j)
        if w:
            job, why = j, w
    return {"case": job, "why": why}


def samples():
    from .c24 import FULL
    from .c31 import OTHERS

    out = [{"cls": c, "text": t, "year": 2024, "month": 2} for c, t in FULL]
    for kind, groups in OTHERS.items():
        for g in groups:
            head = "TAF PADK 151130Z 1512/1612" if kind.startswith("TAF") else "METAR PADK 151230Z"
            out.append({"cls": head.split()[0].lower(), "text": f"{head} {g} XXX \u0663\u00e9", "year": 2023, "month": 12})
    for y, m, d in CHANGES:
        for h in (0, 1, 2, 3):
            out.append({"cls": "metar", "text": f"METAR PADK {d:02d}{h:02d}30Z 27010KT FOO BAR TEMPO FM{h:02d}40 TL{h + 1:02d}30 9999", "year": y, "month": m})
            out.append({"cls": "taf", "text": f"TAF PADK {d:02d}{h:02d}30Z {d:02d}{h:02d}/{d + 1:02d}{h:02d} 27010KT TX10/{d:02d}{h + 1:02d}Z FM{d:02d}0230 9999 BECMG {d:02d}02/{d:02d}03 X Y Z",
                        "year": y, "month": m})
    return out


def each(stage, ctx, shard, shards, tier):
    """Every flag, environment, state and place by itself, with full reports."""
    cases = samples()
    plain = around.PLAIN
    arounds = [dict(plain, flags=f) for f in FLAGS] + [dict(plain, env=e) for e in ENVS] + [dict(plain, state=[s]) for s in STATES] + [
        dict(plain, cwd=c) for c in ("root", "empty", "decoys")] + [dict(plain, copy=True)] + [
        dict(plain, env={"PYTHONHASHSEED": str(i)}) for i in range(1, 9)]
    return decide(stage, ctx, [{"around": a, "cases": cases} for i, a in enumerate(arounds) if i % shards == shard])


STAGES = [
    Custom("each", each, test, "each interpreter flag, environment, state of the process and place by itself x full reports; every case counts"),
    Custom("batches", batches, test, "batches of random reports in new interpreters with random hash seed, flags (-O, -OO, ...), locale and other environment, time zone, "
           "working directory, place of the package and state of the process; complete outcomes are compared with those here; every case counts"),
]
