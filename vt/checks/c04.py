from .common import *
from .. import chaos
import re

KEYS = ("body", "trend", "remark", "weather_changes", "sections", "raw_code")


def test(ctx, case):
    cls = case["cls"]
    r = sut.reading(case)
    want = expected(case)
    names = ("body", "trend", "remark") if cls == "metar" else ("body", "weather_changes")
    if r["sections"] != [r[n] for n in names]:
        fail(f"sections {r['sections']} are not {names}: {case['text']!r}")
    for k in KEYS:
        if k in want:
            check_diff(want[k], r[k], f"{k} of {case['text']!r}")
    text = " ".join(case["text"].replace("=", "").split())
    if r["raw_code"] != text:
        fail(f"raw_code {r['raw_code']!r} of {case['text']!r}")
    words = text.split()
    last = True
    if cls == "metar":
        rmk = [i for i, w in enumerate(words) if w.startswith("RMK")]
        last = not rmk or not any(w.startswith(("NOSIG", "TEMPO", "BECMG")) for w in words[rmk[0]:])
    if last and " ".join(s for s in r["sections"] if s) != text:
        fail(f"sections {r['sections']} do not make {text!r}")
    body = r["body"].split()[1:]
    if cls == "taf" and body[:1] == ["TEMPO"] and re.fullmatch("PROB[34]0", r["body"].split()[0]):
        body = body[1:]  # the first group
    for w in body:
        if cls == "metar" and w.startswith(("NOSIG", "TEMPO", "BECMG", "RMK")) or cls == "taf" and re.match("FM[0-9]{3}|TEMPO|BECMG|PROB", w):
            fail(f"{w!r} in the body {r['body']!r}")
    periods = r[PERIODS[cls]]
    check_diff([p["code"] for p in want[PERIODS[cls]]], [p["code"] for p in periods], f"codes of the periods of {text!r}")
    section = r["trend" if cls == "metar" else "weather_changes"]
    joined = " ".join(p["code"] for p in periods)
    if not section.startswith(joined) or (len(periods) < {"metar": 2, "taf": 8}[cls] and joined != section):
        fail(f"periods {[p['code'] for p in periods]} of the section {section!r}")
    ctx.label(f"{len(periods)} periods")
    return bool(section) or bool(r.get("remark"))


STAGES = [
    Enum("keyword sequences", sequences, test,
         "every sequence of up to three (thorough: four) section words and look-alikes, random longer ones of up to 90; non-trivial: "
         "with a trend, change or remark"),
    Enum("long", long_texts, test, "reports of up to 500 words (thorough: 1500) in the body, a period, the remark or all of them"),
    Prop("wild", chaos.dated_case, test, "mutated, shuffled and well-formed reports; non-trivial as above", 1600, 60000),
]
