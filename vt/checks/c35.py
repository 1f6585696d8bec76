"""Making, reading and dropping reports leaves nothing behind."""
import hypothesis
from hypothesis import HealthCheck, Phase, settings

from .common import *
from .. import around, chaos
from ..engine import Custom, Violation, derive
from .c34 import samples

st = gen.st
PLAIN = dict(around.PLAIN, cwd="empty")


def some(n, name, shard):
    """n random reports of all sorts, some without year or month."""
    out = []

    @hypothesis.seed(derive(name, shard))
    @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=(Phase.generate,))
    @hypothesis.given(st.one_of(gen.report_case(p=75), gen.report_case(p=45), gen.report_case(p=90), chaos.dated_case(), chaos.wild_case()))
    def collect(c):
        out.append({k: c[k] for k in ("cls", "text", "year", "month")})

    collect()
    return out


def sizes():
    """Long words, and many groups of each kind."""
    out = []
    for n in (13, 17, 25, 33, 50, 65, 80, 101, 129, 257, 1025, 5000):
        for w in ("X" * n, "7" * n, "/" * n, "\u0663" * n, "Ab1/" * (n // 4)):
            out.append({"cls": "metar", "text": f"METAR PADK 151230Z 27010KT {w} 9999 NOSIG {w} RMK {w}", "year": 2024, "month": 2})
            out.append({"cls": "taf", "text": f"TAF PADK 151130Z 1512/1612 27010KT {w} 9999 BECMG 1514/1516 {w} 8000", "year": 2024, "month": 2})
    for n in (4, 8, 9, 16, 40, 120):
        for g in ("BKN010", "-RA", "R10/1200", "R10/CLRD70", "WS R10", "RERA", "W12/S3", "Q1013", "XYZ", "9999", "NOSIG", "TEMPO FM1300 8000", "BECMG TL1400 BKN010"):
            out.append({"cls": "metar", "text": "METAR PADK 151230Z 27010KT 9999 " + " ".join([g] * n), "year": 2024, "month": 2})
        for g in ("BKN010", "-RA", "XYZ", "9999", "TX10/1514Z", "TN01/1605Z", "BECMG 1514/1516 BKN010", "TEMPO 1514/1516 -RA", "PROB30 1514/1516 -RA", "FM151400 9999"):
            out.append({"cls": "taf", "text": "TAF PADK 151130Z 1512/1612 27010KT 9999 " + " ".join([g] * n), "year": 2024, "month": 2})
    return out


def watched(ctx, cases):
    out = around.run({"around": PLAIN, "cases": cases, "watch": True})
    if out["loading"]:
        fail(f"loading the package changes: {'; '.join(out['loading'][:5])}")
    for c, changes in zip(cases, out["changes"]):
        if changes:
            fail(f"making and reading {c['text']!r} changes: {'; '.join(changes[:5])}")
    if out["left"]:
        fail(f"left in the working directory: {out['left'][:5]}")
    if out["printed"]:
        fail(f"prints {out['printed'][:200]!r}")
    return True


def effects(stage, ctx, shard, shards, tier):
    cases = some(8000 if tier == "thorough" else 300, "c35", shard)
    if shard == 0:
        cases = samples() + cases
    if shard == 1 % shards:
        cases = sizes() + cases
    for i in range(0, len(cases), 200):
        part = cases[i:i + 200]
        try:
            stage.run_one(ctx, part)
        except Violation as v:
            for c in part:
                try:
                    stage.run_one(ctx, [c])
                except Violation as w:
                    return {"case": [c], "why": str(w)}
            return {"case": part, "why": str(v)}
        for c in part:
            ctx.count(c, True)
    return None


PER_REPORT = 0.9  # of the blocks of memory that may remain of one report; an empty container is one


def release(ctx, rounds):
    out = around.run({"around": PLAIN, "rounds": rounds}, 800)
    if out["alive"]:
        fail(f"a dropped report is not released: {out['alive'][0]!r}")
    # The first half of the rounds fills what caches there may be.
    blocks = out["blocks"]
    half = len(blocks) // 2
    n = sum(len(r) for r in rounds[half:])
    grown = blocks[-1] - blocks[half - 1]
    ctx.label("blocks of memory gained in the second half of the rounds", grown)
    if grown > PER_REPORT * n:
        fail(f"after {n} more reports, each dropped, {grown} more blocks of memory are in use")
    return True


def memory(stage, ctx, shard, shards, tier):
    cases = some(24000 if tier == "thorough" else 2400, "c35-memory", shard)
    k = len(cases) // 8
    rounds = [cases[i * k:(i + 1) * k] for i in range(8)]
    if shard == 0:
        # The same few reports over and over.
        rounds = [samples()[:60] * 5] * 8
    try:
        stage.run_one(ctx, rounds)
    except Violation as v:
        why = str(v)
        if "not released" in why:
            for c in [c for r in rounds for c in r]:
                if repr(c["text"]) in why:
                    return {"case": [[c]] * 2, "why": why}
        return {"case": rounds, "why": why}
    for r in rounds:
        for c in r:
            ctx.count(c, True)
    return None


STAGES = [
    Custom("effects", effects, watched, "reports made and read in an interpreter whose actions on the outside (files, processes, network, environment: its audit events) are "
           "noted and whose state is compared before and after, and around the loading of the package: environment, directory, random generator, locale, decimal context, hooks, limits, "
           "public names of the standard library and of its classes, open files, threads, signals, what is printed; every case counts"),
    Custom("memory", memory, release, "thousands of different reports, and the same few over and over, made, read in every form and dropped: each must be released, and the blocks "
           "of memory in use may not grow with their number; every case counts", shards=4),
]
