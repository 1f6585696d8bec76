from .common import *

TOP, PART = ("clouds", "ceiling"), ("clouds", "ceiling")
COVERS = ["FEW", "SCT", "BKN", "OVC", "0VC", "VV", "///", "NSC", "NCD", "SKC", "CLR"]
FEW = ("metar", "trend", "taf", "becmg", "fm")


def tokens(tier):
    for h in range(1000):
        covers = COVERS[:7] if tier == "thorough" else [COVERS[h % 7], COVERS[2 + h % 2]]
        for c in covers:
            yield f"{c}{h:03d}"
    for c, h, t in product(COVERS, ["", "///", "000", "001", "014", "015", "016", "049", "050", "999"], ["", "CB", "TCU", "///"]):
        yield c + h + t


def cases(tier):
    return spread(tokens(tier), ALL if tier == "thorough" else FEW, 4 if tier == "thorough" else 1)


LAYERS = ["FEW010", "SCT015", "BKN014", "BKN015", "OVC016", "BKN///", "OVC", "VV005", "FEW005CB", "BKN030", "///", "NSC", "OVC000"]


def lists(tier):
    """Sequences of layers: the order, the limit of four, and the ceiling."""
    for a, b in product(LAYERS, LAYERS):
        yield "metar", f"{a} {b}"
        yield "trend", f"{a} {b}"
        yield "fm", f"{a} {b}"
    third = LAYERS if tier == "thorough" else LAYERS[:8]
    for i, (a, b, c) in enumerate(product(third, third, third)):
        yield ALL[i % len(ALL)], f"{a} {b} {c}"
    r = rng("clouds")
    for n in (4, 5, 6):
        for _ in range(8000 if tier == "thorough" else 400):
            yield r.choice(ALL), " ".join(r.choice(LAYERS) for _ in range(n))


STAGES = [
    token_stage("cloud tokens", None, cases, TOP, PART,
                "every base height with several covers; every cover x type with selected heights"),
    token_stage("cloud lists", None, lists, TOP, PART, "all pairs, triples and random longer lists of 13 layers"),
    report_stage("reports", gen.report_case, TOP, PART, has_kind("CLOUD"),
                 "random well-formed reports; non-trivial: with a cloud group", 1600),
    company(TOP, PART),
]
