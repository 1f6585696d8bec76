from .common import *

TOP, PART = ("prevailing_visibility", "minimum_visibility"), ("prevailing_visibility",)
DIRS = ["", "N", "NE", "E", "SE", "S", "SW", "W", "NW"]
FRACTIONS = [f"{a}/{b}" for a in range(10) for b in range(1, 10)]


def metres(tier):
    step = 1 if tier == "thorough" else 3
    for m in range(0, 10000, step):
        yield f"{m:04d}"
    for m, d in product(["0000", "0001", "0050", "0800", "1000", "1500", "4999", "5000", "9000", "9998", "9999", "////"], DIRS):
        yield m + d
    yield "CAVOK"


def miles(tier):
    ints = [str(n) for n in range(100)] + [f"{n:02d}" for n in range(10)]
    for i, pm, u in product(ints, ("", "P", "M"), ("SM", "KM")):
        yield pm + i + u
    for f, pm, u in product(FRACTIONS, ("", "P", "M"), ("SM", "KM")):
        yield pm + f + u
    some = FRACTIONS if tier == "thorough" else FRACTIONS[::4] + ["1/2", "1/4", "3/4", "7/8"]
    for i, f in product([str(n) for n in range(10)] + ["10", "15", "99"], some):
        yield i + f + "SM"
        yield i + " " + f + "SM"
        yield "P" + i + f + "SM"
        yield i + f + "KM"


def cases(tier):
    if tier == "thorough":
        yield from spread(metres(tier), ALL, 3)
        yield from spread(miles(tier), ALL, 8)
    else:
        few = ("metar", "trend", "taf", "becmg", "fm")
        yield from spread(metres(tier), few, 1)
        yield from spread(miles(tier), few, 2)


def minimum(tier):
    for m in range(0, 10000, 1 if tier == "thorough" else 7):
        yield "min", f"{m:04d}"
    for m, d in product(["0000", "0001", "0050", "0800", "1000", "4999", "5000", "9999", "////"], DIRS):
        yield "min", m + d


STAGES = [
    token_stage("visibility tokens", None, cases, TOP, PART,
                "four-digit visibilities, directions, miles and kilometres with integers, fractions and both, "
                "each in some of the sections; all are non-trivial"),
    token_stage("minimum visibility tokens", None, minimum, TOP, PART,
                "four-digit minimum visibilities and all directions"),
    report_stage("reports", gen.report_case, TOP, PART, has_kind("VIS", "TAFVIS", "MINVIS"),
                 "random well-formed reports; non-trivial: with a visibility group"),
    company(TOP, PART),
]
