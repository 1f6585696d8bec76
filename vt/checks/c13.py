
from .common import *

TOP = ("runway_ranges", "windshears", "windshear_names", "windshear_all_runways")
PART = ()
RUNWAYS = [f"{n:02d}{s}" for n in range(100) for s in ("", "L", "C", "R")]
RANGES = ["0000", "0050", "0100", "1500", "2000", "6000", "9998", "050", "999", "75", "00"]


def ranges(tier):
    for r in RUNWAYS:
        yield f"R{r}/1200"
        yield f"R{r}/P2000FTU"
    for lq, lo, ft, t in product(["", "M", "P"], RANGES, ["", "FT"], ["", "N", "U", "D"]):
        yield f"R07/{lq}{lo}{ft}{t}"
    for lq, lo, hq, hi, ft, t in product(["", "M", "P"], RANGES[::3], ["", "M", "P"], RANGES[1::3], ["", "FT"], ["", "N", "U", "D"]):
        yield f"R25L/{lq}{lo}V{hq}{hi}{ft}{t}"
    for v in range(0, 9999, 1 if tier == "thorough" else 9):
        yield f"R11/{v:04d}"
        yield f"R11/{v:04d}FT"
        yield f"R11/0100V{v:04d}"
        yield f"R11/M{v:04d}VP{9998 - v:04d}FTD"


def range_cases(tier):
    return spread(ranges(tier), METAR_ONLY, 1)


def range_lists(tier):
    r = rng("ranges")
    every = list(ranges("quick"))
    for n in (2, 3, 3, 4, 5):
        for _ in range(4000 if tier == "thorough" else 300):
            yield r.choice(METAR_ONLY), " ".join(r.choice(every) for _ in range(n))


def shears(tier):
    for r in RUNWAYS:
        yield "late2", f"WS R{r}"
        yield "late", f"WS RWY{r}"
    for c in ("metar", "late", "late2"):
        yield c, "WS ALL RWY"
    some = ["07", "25R", "88", "99", "01C", "36L"]
    for n in (2, 3, 4):
        for combo in product(*[some] * n):
            yield "late", " ".join(("WS R" if i % 2 else "WS RWY") + x for i, x in enumerate(combo))
    r = rng("shears")
    for _ in range(3000 if tier == "thorough" else 300):
        yield "late2", " ".join(r.choice(["WS R", "WS RWY"]) + r.choice(RUNWAYS) for _ in range(r.randint(1, 4)))


STAGES = [
    token_stage("runway range tokens", None, range_cases, TOP, PART,
                "every runway name; every qualifier x range x unit x tendency; ranges over the four digits"),
    token_stage("runway range lists", None, range_lists, TOP, PART, "lists of two to five runway ranges"),
    token_stage("windshear tokens", None, shears, TOP, PART, "every runway name in both forms, lists of one to four"),
    report_stage("reports", gen.metar_case, TOP, PART, has_kind("RVR", "WINDSHEAR"),
                 "random well-formed METARs; non-trivial: with a runway range or wind shear group", 1600),
    company(TOP, PART),
]
