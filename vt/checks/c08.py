from .common import *
from .. import tables as T

TOP, PART = ("wind", "wind_variation"), ("wind",)
DIRS = gen.DIRS + ["VRB", "///"]
SPEEDS = [f"{n:02d}" for n in range(100)] + [f"{n:03d}" for n in range(100, 200)] + ["000", "001", "099", "250", "999", "//", "///"]
SOME = ["00", "01", "05", "10", "33", "99", "100", "199", "000"]


def tokens(tier):
    if tier == "thorough":
        for d, s, u in product(DIRS, SPEEDS, ("KT", "MPS")):
            for g in ("", "G15", "GP99"):
                yield d + s + g + u
        for d, s, g, u in product(DIRS[::3] + ["VRB"], SOME, SPEEDS, ("KT", "MPS")):
            yield d + s + "G" + g + u
        return
    for d, s, u in product(DIRS, SOME, ("KT", "MPS")):
        yield d + s + u
    for s, u in product(SPEEDS, ("KT", "MPS")):
        yield "270" + s + u
        yield "VRB" + s + u
        yield "090P" + s + u
        if not s.startswith("/"):
            yield "360" + "12" + "G" + s + u
            yield "020" + "P99" + "GP" + s + u
    for d, s, g in product(DIRS[::5] + ["VRB", "///"], SOME[::2] + ["//", "///"], SOME):
        yield d + s + "G" + g + "KT"
        yield d + s + "G" + g + "MPS"


def cases(tier):
    return spread(tokens(tier), ALL if tier == "thorough" else ("metar", "trend", "taf", "becmg", "fm"))


def variations(tier):
    d = gen.DIRS[1:]
    for a, b in product(d, d):
        yield "metar", f"VRB05KT {a}V{b}"


def var_test(ctx, case):
    compare(place_token(case["context"], case["token"]), TOP, PART)
    return True


STAGES = [
    token_stage("wind tokens", None, cases, TOP, PART,
                "every direction with selected speeds, every speed and gust with selected directions, "
                "in two sections each; all are non-trivial"),
    Enum("variations", lambda tier: [{"context": c, "token": t} for c, t in variations(tier)], var_test,
         "all 36 x 36 variation groups", exhaustive=True),
    report_stage("reports", gen.report_case, TOP, PART, has_kind("WIND", "TAFWIND", "WINDVAR"),
                 "random well-formed reports; non-trivial: with a wind or variation group"),
    company(TOP, PART),
]
