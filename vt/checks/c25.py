from .common import *
from .. import chaos

# Typical groups of every kind and the section in which their place is ahead.
SAMPLES = [
    ("TYPE", "METAR"), ("TYPE", "TAF"), ("STATION", "PADK"), ("STATION", "K1G4"), ("TIME", "151230Z"),
    ("MODIFIER", "AUTO"), ("MODIFIER", "CORR"), ("MODIFIER", "COR"), ("MODIFIER", "NIL"), ("MODIFIER", "FINO"), ("MODIFIER", "TEST"),
    ("WIND", "27010KT"), ("WIND", "VRB05G15KT"), ("WIND", "360P99GP99MPS"), ("WIND", "/////KT"), ("WIND", "000100G120KT"),
    ("WINDVAR", "240V300"), ("WINDVAR", "010V360"),
    ("VIS", "9999"), ("VIS", "0800NE"), ("VIS", "4000S"), ("VIS", "////"), ("VIS", "10SM"), ("VIS", "P6SM"), ("VIS", "M1/4SM"),
    ("VIS", "1 1/2SM"), ("VIS", "11/2SM"), ("VIS", "3/4SM"), ("VIS", "10KM"), ("VIS", "CAVOK"),
    ("MINVIS", "1200SW"),
    ("RVR", "R07L/1000"), ("RVR", "R25/M0600VP2000FTU"), ("RVR", "R11/P1500N"),
    ("WX", "-RA"), ("WX", "+TSRA"), ("WX", "VCSH"), ("WX", "FG"), ("WX", "NSW"), ("WX", "BLSN"), ("WX", "-VCTS"), ("WX", "//"),
    ("CLOUD", "BKN015"), ("CLOUD", "OVC030CB"), ("CLOUD", "FEW///TCU"), ("CLOUD", "VV001"), ("CLOUD", "NSC"), ("CLOUD", "SKC"),
    ("CLOUD", "///015///"), ("CLOUD", "//////CB"), ("CLOUD", "0VC010"),
    ("TEMPS", "10/05"), ("TEMPS", "M02/M10"), ("TEMPS", "///05"), ("TEMPS", "XX/MM"), ("TEMPS", "-1/05"),
    ("PRESSURE", "Q1013"), ("PRESSURE", "A2992"), ("PRESSURE", "QNH2992INS"), ("PRESSURE", "1013"), ("PRESSURE", "Q////"), ("PRESSURE", "2992INS"),
    ("RECENT", "RERA"), ("RECENT", "RETSRA"), ("RECENT", "REFG"), ("RECENT", "RESHSNBRSQ"),
    ("WINDSHEAR", "WS R07L"), ("WINDSHEAR", "WS RWY25"), ("WINDSHEAR", "WS ALL RWY"),
    ("SEA", "W15/S4"), ("SEA", "WM02/H012"),
    ("RWYSTATE", "R07L/290155"), ("RWYSTATE", "R88/CLRD//"), ("RWYSTATE", "R25/SNOCLO"), ("RWYSTATE", "R99/////////"), ("RWYSTATE", "R/123456"),
    ("TREND_IND", "TEMPO"), ("TREND_IND", "BECMG"), ("TREND_IND", "NOSIG"),
    ("TREND_PERIOD", "FM1300"), ("TREND_PERIOD", "TL1400"), ("TREND_PERIOD", "AT1330"),
    ("VALID", "1512/1612"), ("VALID", "3100/3124"), ("TAF_TEMP", "TX10/1515Z"), ("TAF_TEMP", "TNM05/1606Z"),
    ("NIL", "NIL"), ("CANCELLED", "CNL"), ("AMD_COR", "AMD"),
    ("CHANGE_IND", "FM151400"), ("CHANGE_IND", "PROB30"), ("CHANGE_IND", "PROB40 TEMPO"), ("CHANGE_IND", "BECMG"),
]

FRAMES = {
    "TYPE": ["{} PADK 151230Z 27010KT 9999 FEW030 10/05 Q1013"],
    "STATION": ["METAR {} 151230Z 27010KT 9999 FEW030 10/05 Q1013", "TAF {} 151130Z 1512/1612 27010KT CAVOK"],
    "TIME": ["METAR PADK {} 27010KT 9999 FEW030 10/05 Q1013 TEMPO FM1300", "TAF PADK {} 1512/1612 27010KT TX10/1515Z TEMPO 1514/1516"],
    "MODIFIER": ["METAR PADK 151230Z {} 27010KT 9999 FEW030 10/05 Q1013"],
    "AMD_COR": ["TAF {} PADK 151130Z 1512/1612 27010KT CAVOK"],
    "NIL": ["TAF PADK 151130Z {}"],
    "CANCELLED": ["TAF PADK 151130Z 1512/1612 {}"],
    "VALID": ["TAF PADK 151130Z {} 27010KT 9999", "TAF PADK 151130Z 1512/1612 27010KT BECMG {} 9999 -RA"],
    "TAF_TEMP": ["TAF PADK 151130Z 1512/1612 27010KT CAVOK TX12/1514Z {} TN01/1604Z TEMPO 1514/1516 TS"],
    "CHANGE_IND": ["TAF PADK 151130Z 1512/1612 27010KT 9999 {} 1514/1516 27020KT -RA BKN010"],
    "TREND_IND": ["METAR PADK 151230Z 27010KT Q1013 {} 27020KT -RA BKN010", "METAR PADK 151230Z 27010KT Q1013 {}"],
    "TREND_PERIOD": ["METAR PADK 151230Z 27010KT Q1013 TEMPO {} 27020KT -RA", "METAR PADK 151230Z 27010KT Q1013 BECMG FM1300 {} -RA"],
    "WIND": ["METAR PADK 151230Z {} 240V300 9999 FEW030 10/05", "METAR PADK 151230Z NOSIG TEMPO {} 9999 -RA",
             "TAF PADK 151130Z 1512/1612 {} 9999 -RA BKN010", "TAF PADK 151130Z 1512/1612 CAVOK FM151400 {} 9999 -RA BKN010"],
    "WINDVAR": ["METAR PADK 151230Z 27010KT {} 9999 FEW030 10/05"],
    "VIS": ["METAR PADK 151230Z 27010KT {} 1200S FEW030 10/05", "METAR PADK 151230Z NOSIG TEMPO {} -RA BKN010",
            "TAF PADK 151130Z 1512/1612 27010KT {} -RA BKN010", "TAF PADK 151130Z 1512/1612 CAVOK BECMG 1514/1516 {} -RA BKN010"],
    "MINVIS": ["METAR PADK 151230Z 27010KT 5000 {} R07/1000 FEW030 10/05"],
    "RVR": ["METAR PADK 151230Z 27010KT 5000 R01/0500 {} R33/0700 -RA FEW030 10/05"],
    "WX": ["METAR PADK 151230Z 27010KT 5000 {} BR FEW030 10/05", "METAR PADK 151230Z NOSIG TEMPO 5000 {} BKN010",
           "TAF PADK 151130Z 1512/1612 27010KT 5000 BR {} BKN010", "TAF PADK 151130Z 1512/1612 CAVOK TEMPO 1514/1516 {} BKN010"],
    "CLOUD": ["METAR PADK 151230Z 27010KT 5000 BR FEW030 {} 10/05", "METAR PADK 151230Z NOSIG TEMPO 5000 {} BKN010",
              "TAF PADK 151130Z 1512/1612 27010KT 5000 BR {} BKN010", "TAF PADK 151130Z 1512/1612 CAVOK FM151400 -RA {} BKN010"],
    "TEMPS": ["METAR PADK 151230Z 27010KT 5000 BR FEW030 {} Q1013"],
    "PRESSURE": ["METAR PADK 151230Z 27010KT 5000 BR FEW030 10/05 {} RERA", "METAR PADK 151230Z 27010KT 5000 BR FEW030 10/05 Q0999 {} WS R07"],
    "RECENT": ["METAR PADK 151230Z 27010KT 5000 FEW030 10/05 Q1013 {} WS R07 W10/S3"],
    "WINDSHEAR": ["METAR PADK 151230Z 27010KT 5000 FEW030 10/05 Q1013 RERA {} WS R33 W10/S3"],
    "SEA": ["METAR PADK 151230Z 27010KT 5000 FEW030 10/05 Q1013 {} R07/290155 NOSIG"],
    "RWYSTATE": ["METAR PADK 151230Z 27010KT 5000 FEW030 10/05 Q1013 W10/S3 {} NOSIG"],
}

CHARS = "0123456789ABCDEFGHIKLMNOPQRSTUVWXYZ/+- _=.|"


def edits(token, tier="thorough"):
    """The token with one character more, less or other."""
    seen = {token}
    n = len(token)
    out = []
    for i in range(n + 1):
        for c in CHARS:
            out.append(token[:i] + c + token[i:])
        if i < n:
            out.append(token[:i] + token[i + 1:])
            for c in CHARS:
                out.append(token[:i] + c + token[i + 1:])
        if 0 < i < n:
            out += [token[:i], token[i:], token[:i - 1] + token[i] + token[i - 1] + token[i + 1:]]
    out += [token + token, token.lower(), token[::-1], "X" + token + "X", token + "\u0663", "\uff11" + token, token + "Z", token + "\x00"]
    for t in out:
        if t not in seen:
            seen.add(t)
            yield t


def cases(tier):
    i = 0
    for kind, token in SAMPLES:
        frames = FRAMES[kind]
        for t in edits(token):
            i += 1
            if tier == "thorough":
                for f in frames:
                    yield {"text": f.format(t), "kind": kind, "token": t}
            elif i % 2 == SEED % 2 or t.startswith(token) or t.endswith(token):
                yield {"text": frames[(i // 2) % len(frames)].format(t), "kind": kind, "token": t}


LIMITED = ("TIME", "WIND", "WINDVAR", "TREND_PERIOD", "VALID", "TAF_TEMP", "CHANGE_IND", "RVR", "PRESSURE", "VIS")


def numbers(tier):
    """Every value of every two digits (thorough: three) that stand together."""
    i = 0
    for kind, token in SAMPLES:
        frames = FRAMES[kind]
        seen = {token}
        for width in (2, 3) if tier == "thorough" else (2,):
            for at in range(len(token) - width + 1):
                if not token[at:at + width].isdigit():
                    continue
                for v in range(10 ** width):
                    t = f"{token[:at]}{v:0{width}d}{token[at + width:]}"
                    i += 1
                    if t in seen or tier != "thorough" and kind not in LIMITED and i % 4:
                        continue
                    seen.add(t)
                    yield {"text": frames[i % len(frames)].format(t), "kind": kind, "token": t}


def unknown(token):
    words = token.replace("=", "").split()
    return bool(words) and not any(ref.known(g) for g in ref.join_words_prob(ref.join_words(["X"] + words)[1:]))


def test(ctx, case):
    c = {"cls": "taf" if case["text"].startswith("TAF") and case["kind"] != "TYPE" else "metar",
         "text": case["text"], "year": YEAR, "month": MONTH}
    compare_full(c)
    bad = unknown(case["token"])
    if bad:
        got = sut.make(c)
        left = " ".join(got.unparsed_groups).split()
        for w in case["token"].replace("=", "").split():
            if w not in left and not (c["cls"] == "metar" and w.startswith("RMK")) and not (c["cls"] == "metar" and "RMK" in case["text"]):
                fail(f"{w!r} of {c['text']!r} is not left unparsed")
    ctx.label("malformed" if bad else "well formed after the edit")
    return bad


def glued(tier):
    """Two known groups written as one word, in the place of either."""
    some = [s for s in SAMPLES if " " not in s[1]]
    for i, (k, a) in enumerate(some):
        for j, (k2, b) in enumerate(some):
            if tier == "thorough" or (i * 7 + j) % 3 == SEED % 3 or k == k2:
                f = FRAMES[k]
                yield {"text": f[j % len(f)].format(a + b), "kind": k, "token": a + b}


@gen.st.composite
def malformed(draw):
    """A well-formed report of which one group is damaged."""
    base = draw(gen.report_case(p=50))
    words = base["text"].split(" ")
    i = draw(gen.st.integers(0, len(words) - 1))
    words[i] = draw(chaos.mutate(words[i], edits=2, chars=gen.one(list(CHARS.replace(" ", "").replace("=", "")))))
    return dict(chaos.case(base["cls"], " ".join(words), base["year"], base["month"]), token=words[i])


def damaged_test(ctx, case):
    compare_full(case)
    bad = unknown(case["token"])
    ctx.label("malformed" if bad else "other")
    return bad


STAGES = [
    Enum("edits", cases, test,
         "every one-character edit, prefix, suffix, transposition and doubling of typical groups of every kind, in the place "
         "of the kind (quick: half of them); the whole reading is compared with the reference; non-trivial: the edited group "
         "is of no known form"),
    Enum("numbers", numbers, test, "typical groups with every value of every two digits that stand together (thorough: three), such as the hours, "
         "minutes, days and directions beyond their limits; non-trivial as above"),
    Enum("glued", glued, test, "pairs of known groups written as one word; non-trivial as above"),
    Prop("damaged reports", malformed, damaged_test, "random well-formed reports with one damaged group; non-trivial as above", 1600, 60000),
]
