import json
import os
import random
import signal
import subprocess
import sys
import tempfile

from .common import *
from .. import chaos
from ..engine import Custom, SEED, TIER, VERIF, REPO


def test(ctx, case):
    got = sut.full(case)
    r = got["reading"]
    # Iteration must end, too.
    rep = sut.make(case)
    if case["cls"] == "metar":
        for t in rep.weather_trends:
            t.should_be_cavok(), t.flight_rules, t.as_dict(), str(t), list(t.clouds)
    else:
        for c in rep.changes_forecasted:
            c.should_be_cavok(), c.flight_rules, c.as_dict(), str(c), list(c.weathers)
    n = len(r["unparsed_groups"])
    if n:
        ctx.label("with unparsed groups")
    if len(r["body"].split()) - n > 2:
        ctx.label("with decoded groups")
    return True


def near_misses(tier):
    """Every one-character edit of typical groups, in every section."""
    from .c25 import SAMPLES, edits

    for kind, token in SAMPLES:
        for i, t in enumerate(edits(token, tier)):
            if tier != "thorough" and i % 3:
                continue
            c = ALL[i % len(ALL)] if kind in ("WIND", "VIS", "WX", "CLOUD") else "metar"
            case = place_token(c, t)
            yield case


LONG = ["1 1/2SM ", "WS R07 ", "TEMPO ", "PROB30 TEMPO ", "FM151200 ", "RMK ", "-RA ", "BKN010 ", "Q1013 ", "R07/1000 ",
        "///", "0", "A", "/ ", "= ", "TX10/1512Z ", "NOSIG ", "RERA ", "PROB40", "M", "-", "1/2", "FM", "\n", "1512/1612 "]


def extremes(tier):
    n = 5000 if tier == "thorough" else 1200  # well past the depth of recursion of an interpreter
    for w in LONG:
        for cls in ("metar", "taf"):
            yield {"cls": cls, "text": w * n, "year": 2024, "month": 2}
            yield {"cls": cls, "text": ("METAR PADK 151230Z " if cls == "metar" else "TAF PADK 151230Z 1513/1613 ") + w * n, "year": None, "month": None}
    for t in ["=", " ", "\n", "==", " = ", "METAR", "TAF", "RMK", "TEMPO", "NOSIG", "PROB30", "PROB30 TEMPO", "FM151200", "METAR TEMPO", "TAF TEMPO",
              "TAF FM151200", "TAF PROB30", "TAF BECMG TEMPO", "METAR RMK TEMPO NOSIG", "\x00", "\ud7ff", "TAF PADK", "METAR PADK"]:
        for cls in ("metar", "taf"):
            for y, m in ((None, None), (2024, 2), (1900, 1), (2100, 12), (None, 2), (2023, None)):
                yield {"cls": cls, "text": t, "year": y, "month": m}


def days(tier):
    """Each day, hour in each month: those that the month lacks, too."""
    for y in (1900, 2023, 2024, 2100):
        for m in range(1, 13):
            for d in (1, 28, 29, 30, 31):
                for h in (0, 22, 23):
                    nd = f"{d:02d}"
                    yield {"cls": "metar", "text": f"METAR PADK {nd}{h:02d}59Z 00000KT 9999 TEMPO FM2400 TL0159 BECMG AT{h:02d}59 TL0000", "year": y, "month": m}
                    yield {"cls": "taf", "text": f"TAF PADK {nd}{h:02d}59Z {nd}{h:02d}/{nd}24 TX10/{nd}{h:02d}Z TN05/0100Z TX31/3100Z FM{nd}{h:02d}59 CAVOK TEMPO 3123/{nd}24 PROB30 3000/2924 BECMG 2912/3012", "year": y, "month": m}


def fuzz(stage, ctx, shard, shards, tier):
    """Coverage-guided fuzzing (atheris) in a child process; thorough only."""
    if tier != "thorough":
        return None
    with tempfile.TemporaryDirectory(prefix="vt-fuzz-") as d:
        env = dict(os.environ, AEROMET_REPO=REPO)
        seconds = float(os.environ.get("VERIF_FUZZ_SECONDS", "600"))
        p = subprocess.run(
            [sys.executable, "-m", "vt.fuzz", d, str(SEED * 100 + shard), str(int(seconds))],
            cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        out = os.path.join(d, "result.json")
        if not os.path.exists(out):
            raise RuntimeError("fuzzer: no result\n" + p.stdout[-3000:])
        with open(out) as f:
            r = json.load(f)
        ctx.evaluations += r["executions"]
        for c in r["kept"]:
            ctx.count(c, True, 0)
        if r["failure"]:
            case = r["failure"]
            try:
                stage.run_one(ctx, case)
            except Exception as v:
                return {"case": case, "why": str(v)}
            raise RuntimeError("the failure of the fuzzer does not repeat: " + str(case))
    return None


STAGES = [
    Prop("wild", chaos.wild_case, test,
         "mutated reports, soups of groups, well-formed reports and arbitrary unicode text, with any year and month or none; "
         "every property, form and iteration is read; all are non-trivial", 3200, 120000),
    Enum("near misses", near_misses, test, "one-character edits of typical groups, in every section"),
    Enum("extremes", extremes, test, "very long and degenerate texts"),
    Enum("days", days, test, "dates at the ends of every month, those the month lacks too"),
    Custom("fuzz", fuzz, test, "thorough: atheris, guided by the coverage of aeromet_py; counted: inputs that reached new coverage"),
    Enum("shapes", shapes, test, SHAPES),
]
