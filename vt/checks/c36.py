"""The time that a report takes stays in proportion to its text."""
import signal
import time

from .common import *
from .. import chaos
from ..words import WORDS

st = gen.st

SECONDS = 2.0  # of CPU for a text of at most 2500 characters; on this machine it takes some 0.03
HEADS = {"metar": ["", "METAR PADK 151230Z ", "METAR PADK 151230Z 27010KT 9999 FEW030 10/05 Q1013 ", "PADK NOSIG TEMPO ", "METAR PADK 151230Z RMK "],
         "taf": ["", "TAF PADK 151130Z 1512/1612 ", "TAF PADK 151130Z 1512/1612 27010KT 9999 FEW030 TX10/1515Z BECMG 1514/1516 ", "TAF PADK 151130Z 1512/1612 FM151400 "]}


class Slow(BaseException):
    pass


def slow(*a):
    raise Slow()


def seconds(cls, text, limit, read_too=True):
    """CPU seconds to make and read the report; None above the limit."""
    case = {"cls": cls, "text": text, "year": 2024, "month": 2}
    old = signal.signal(signal.SIGPROF, slow)
    start = time.process_time()
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        if read_too:
            sut.full(case)
        else:
            sut.make(case)
        return time.process_time() - start
    except Slow:
        return None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def short(ctx, case):
    text = case["head"] + case["start"] + case["unit"] * case["times"] + case["end"]
    text = text[:2500]
    t = seconds(case["cls"], text, SECONDS)
    if t is None:
        fail(f"takes more than {SECONDS} s: {len(text)} characters, {text[:300]!r}")
    return case["times"] > 5


unit = st.one_of(
    st.text("0123456789", min_size=1, max_size=2), st.text("/-+MPRVTXSQA", min_size=1, max_size=2), st.text(chaos.JUNK_CHARS + " _=", min_size=1, max_size=4),
    gen.one(WORDS), gen.one(["RA", "TS", "SH", "VC", "1/2", "//", "V", "G", "27", "9999", " 9999", "R07/", " 1 1/2SM", "1 ", " FM", " WS", " R07"]),
    chaos.any_group, chaos.any_group.map(lambda g: " " + g))
piece = st.one_of(st.just(""), st.just(""), chaos.any_group, chaos.junk, gen.one(WORDS), gen.one(["X", "Z", "_", "/", "KT", "SM", "V"]))


@st.composite
def runs(draw):
    cls = draw(gen.one(["metar", "taf"]))
    return {"cls": cls, "head": draw(gen.one(HEADS[cls])), "start": draw(piece), "unit": draw(unit), "times": draw(gen.one([10, 24, 30, 40, 60, 100, 300, 1000])),
            "end": draw(piece)}


def units(tier):
    """Every character and pair of a small alphabet, repeated, with ends that make a match fail."""
    chars = "0123/-+_ =ABCDEFGHIKLMNOPQRSTUVWXYZ"
    some = "01/-+AGKMPRTV _"
    for cls in HEADS:
        head = HEADS[cls][2]
        for u in list(chars) + [a + b for a in some for b in some if a != b]:
            for end in ("", "X", "!", "/", " X"):
                yield {"cls": cls, "head": head, "start": "", "unit": u, "times": 60, "end": end}
        for w in WORDS:
            for end in ("", "!"):
                yield {"cls": cls, "head": head, "start": "", "unit": w, "times": 40, "end": end}
                yield {"cls": cls, "head": head, "start": "", "unit": w + " ", "times": 60, "end": end}


LENGTH = 30000  # characters of the shorter text
SLACK = 2.0  # so that what the interpreter itself does in native code (taking the first of a list of 10^5 words) is no matter


def long(ctx, case):
    """Eight times the text may take 14 times as long; quadratic is 64 times."""
    cls = case["cls"]
    body = " ".join(case["groups"]) + " "
    n = max(1, LENGTH // len(body))
    for attempt in range(3):
        a = seconds(cls, case["head"] + body * n, 60)
        b = seconds(cls, case["head"] + body * (8 * n), 60 if a is None else 14 * a + SLACK)
        if a is not None and b is not None:
            ctx.label("times as long: " + str(round(b / max(a, 0.001))) if b > 0.3 else "fast")
            return True
    fail(f"{case['head']!r} and {n} times {body!r} takes {a} s, eight times that more than 14 times as long")


@st.composite
def repeats(draw):
    cls = draw(gen.one(["metar", "taf"]))
    groups = draw(st.lists(st.one_of(chaos.any_group, chaos.any_group, chaos.HEADERS, chaos.INDICATORS, chaos.fm_change, chaos.valid, chaos.trend_period), min_size=1, max_size=4))
    return {"cls": cls, "head": draw(gen.one(HEADS[cls])), "groups": groups}


def each_long(tier):
    from .c31 import OTHERS

    kinds = {k: g[0] for k, g in OTHERS.items()}
    extra = ["TEMPO", "BECMG", "NOSIG", "RMK", "PROB30", "PROB30 TEMPO 1512/1514", "BECMG 1512/1514 27010KT", "FM151300 27010KT", "WS", "WS R", "1", "1 1/2SM", "X", "=", "TX10/1512Z",
             "X" * 300, "0" * 300, "/" * 300]
    for cls in HEADS:
        for g in list(dict.fromkeys(list(kinds.values()) + extra)):
            yield {"cls": cls, "head": HEADS[cls][2], "groups": [g]}


STAGES = [
    Prop("runs", runs, short, f"a piece repeated up to 1000 times inside one group or as groups, up to 2500 characters, with a start and an end that do not fit, must be decoded and "
         f"read within {SECONDS} s of CPU time (it takes about a hundredth of that); non-trivial: more than five times", 2400, 80000),
    Enum("units", units, short, "every character, pair of characters and word of the code repeated 40 to 60 times with five ends; as above"),
    Prop("repeats", repeats, long, f"random groups repeated to {LENGTH} and to eight times as many characters: the second may take at most 14 times the CPU time of the first (and {SLACK} s), "
         "best of three; every case counts", 64, 1200),
    Enum("each group", each_long, long, "each kind of group and each indicator repeated likewise; every case counts"),
]
