from .common import *

TOP, PART = ("temperatures", "pressure"), ()
VALUES = [s + f"{n:02d}" for n in range(100) for s in ("", "M", "-")] + ["//", "XX", "MM", "M//", "-XX", "MMM"]


def temps(tier):
    some = ["00", "M00", "05", "M05", "23", "M40", "//", "XX", "MM", "M//", "-07"]
    for a, b in product(VALUES, some):
        yield a + "/" + b
        yield b + "/" + a
    if tier == "thorough":
        for a, b in product(VALUES, VALUES):
            yield a + "/" + b


def temp_cases(tier):
    return spread(temps(tier), METAR_ONLY, 1)


def pressures(tier):
    step = 1 if tier == "thorough" else 11
    for p in range(0, 10000, step):
        yield f"{p:04d}"
        yield f"Q{p:04d}"
        yield f"A{p:04d}"
        if tier == "thorough" or p % 2:
            yield f"QNH{p:04d}"
            yield f"{p:04d}INS"
            yield f"QNH{p:04d}INS"
            yield f"Q{p:04d}INS"
            yield f"A{p:04d}INS"
    for u in ("", "Q", "A", "QNH"):
        yield u + "////"
        yield u + "////INS"
        for p in ("2499", "2500", "2501", "2992", "1013", "0999", "9999", "0000"):
            yield u + p
    pairs = ["Q1013", "A2992", "1013", "2992", "QNH2992INS", "Q////", "A////", "////", "2500", "2501", "QNH1000", "A3000INS"]
    for a, b in product(pairs, pairs):
        yield a + " " + b
    for a, b, c in product(pairs[:6], pairs[:6], pairs[:6]):
        yield a + " " + b + " " + c


def pressure_cases(tier):
    return spread(pressures(tier), ("late",), 1)


STAGES = [
    token_stage("temperature tokens", None, temp_cases, TOP, PART,
                "each of 306 coded values with 11 values of the other one, both ways"),
    token_stage("pressure tokens", None, pressure_cases, TOP, PART,
                "pressures over the four digits with every unit; all pairs of 12 pressure groups"),
    report_stage("reports", gen.metar_case, TOP, PART, has_kind("TEMPS", "PRESSURE"),
                 "random well-formed METARs; non-trivial: with a temperature or pressure group"),
    company(TOP, PART),
]
