from .common import *
from .. import tables as T

TOP, PART = ("weathers", "recent_weather"), ("weathers",)
PHEN = [""] + list(T.PRECIPITATION) + list(T.OBSCURATION) + list(T.OTHER)
FEW = ("metar", "trend", "taf", "becmg", "fm")


def tokens(tier):
    for i, d, p in product([""] + list(T.INTENSITY), [""] + list(T.DESCRIPTOR), PHEN):
        if d or p:
            yield i + d + p
    yield "/"


def cases(tier):
    return spread(tokens(tier), ALL if tier == "thorough" else FEW, 8 if tier == "thorough" else 2)


def recent(tier):
    for d, p, o, x in product([""] + list(T.DESCRIPTOR), [""] + list(T.PRECIPITATION),
                              [""] + T.RECENT_OBSCURATION, [""] + T.RECENT_OTHER):
        if d or p or o or x:
            if tier == "thorough" or not (o and x) or (len(d) + len(p)) % 3 == 0:
                yield "late", "RE" + d + p + o + x


def lists(tier):
    r = rng("weathers")
    every = list(tokens(tier))
    for n in range(1, 6):
        for _ in range(4000 if tier == "thorough" else 250):
            yield r.choice(ALL), " ".join(r.choice(every) for _ in range(n))


STAGES = [
    token_stage("weather tokens", None, cases, TOP, PART,
                "every intensity x descriptor x phenomenon, in two or all sections; all are non-trivial"),
    token_stage("recent weather tokens", None, recent, TOP, PART,
                "descriptor x precipitation x obscuration x other recent weather"),
    token_stage("weather lists", None, lists, TOP, PART, "sequences of one to five weather groups in every section"),
    report_stage("reports", gen.report_case, TOP, PART, has_kind("WX", "RECENT"),
                 "random well-formed reports; non-trivial: with a weather or recent weather group", 1600),
    company(TOP, PART),
]
