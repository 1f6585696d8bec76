from .common import *

TOP, PART = ("sea_state", "runway_state"), ()
RUNWAYS = [f"{n:02d}{s}" for n in range(100) for s in ("", "L", "C", "R")]
DIGITS = list("0123456789/")
TWO = [f"{n:02d}" for n in range(100)] + ["//"]


def states(tier):
    for r in RUNWAYS + [""]:
        yield f"R{r}/290155"
        yield f"R{r}/SNOCLO"
        yield f"R{r}/CLRD//"
    for d, c in product(DIGITS, DIGITS):
        yield f"R88/{d}{c}0190"
        yield f"R07/{d}{c}////"
    for d, x in product(DIGITS, TWO):
        yield f"R07/{d}1{x}95"
        yield f"R99/{d}/05{x}"
    for c, x in product(DIGITS, TWO):
        yield f"R25L/1{c}{x}91"
        yield f"R25L/1{c}12{x}"
    some = TWO if tier == "thorough" else TWO[::9] + ["90", "91", "99", "//"]
    for a, b in product(TWO, some):
        yield f"R16R/49{a}{b}"
        yield f"R16R/7/{b}{a}"


def state_cases(tier):
    return spread(states(tier), ("late", "late2"), 1)


def seas(tier):
    for s, t in product(("", "M"), range(100)):
        for k in range(10):
            yield f"W{s}{t:02d}/S{k}"
        yield f"W{s}{t:02d}/H{t * 7 % 1000:03d}"
    for h in range(1000):
        yield f"W15/H{h:03d}"
        yield f"WM02/H{h:03d}"


def sea_cases(tier):
    return spread(seas(tier), ("late", "late2"), 1)


STAGES = [
    token_stage("runway state tokens", None, state_cases, TOP, PART,
                "every runway; every deposit x contamination, deposit x depth, deposit x friction, "
                "contamination x depth, contamination x friction, and depth x friction (quick: some)"),
    token_stage("sea state tokens", None, sea_cases, TOP, PART, "every temperature x state, every wave height"),
    report_stage("reports", gen.metar_case, TOP, PART, has_kind("SEA", "RWYSTATE"),
                 "random well-formed METARs; non-trivial: with a sea state or runway state group", 1600),
    company(TOP, PART),
]
