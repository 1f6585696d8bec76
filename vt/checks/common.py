"""Shared pieces of the checks."""
import itertools
import random
import re

from .. import gen, read, ref, sut
from ..engine import SEED, Enum, Prop, check_diff, fail

YEAR, MONTH = 2024, 2

# A group of a kind in each section that has a place for it. {} is the group.
CONTEXTS = {
    "metar": "METAR PADK 151230Z {}",
    "metar_full": "METAR PADK 151230Z {} Q1013 NOSIG RMK AO2",
    "trend": "METAR PADK 151230Z 27010KT 9999 FEW030 10/05 Q1013 TEMPO FM1300 {}",
    "trend2": "SPECI PADK 151230Z 27010KT NOSIG BECMG {}",
    "taf": "TAF PADK 151130Z 1512/1612 {}",
    "becmg": "TAF PADK 151130Z 1512/1612 27010KT 9999 FEW030 BECMG 1514/1516 {}",
    "fm": "TAF PADK 151130Z 1512/1612 27010KT 9999 FEW030 TEMPO 1513/1514 FM151400 {}",
    "prob": "TAF PADK 151130Z 1512/1612 27010KT 9999 FEW030 PROB30 TEMPO 1514/1516 {} BECMG 1520/1522 CAVOK",
}
ALL = tuple(CONTEXTS)
CONTEXTS["min"] = "METAR PADK 151230Z 27010KT 9000 {} FEW030"
CONTEXTS["late"] = "METAR PADK 151230Z 27010KT 9999 FEW030 10/05 {}"
CONTEXTS["late2"] = "SPECI PADK 151230Z AUTO 27010KT 9999 R07/1000 FEW030 10/05 Q1013 {} NOSIG"
METAR_ONLY = ("metar", "metar_full")


def spread(tokens, contexts, each=2):
    """(context, token): every token in `each` of the contexts, changing from token to token."""
    n = len(contexts)
    for i, t in enumerate(tokens):
        for k in range(min(each, n)):
            yield contexts[(i + k * (1 + i // n)) % n if each < n else k], t


def place_token(context, token):
    text = CONTEXTS[context].format(token)
    return {"cls": "taf" if text.startswith("TAF") else "metar", "text": text, "year": YEAR, "month": MONTH}


def expected(case):
    return ref.report(case["cls"], case["text"], case["year"], case["month"])


PERIODS = {"metar": "weather_trends", "taf": "changes_forecasted"}


def project(reading, cls, top, part):
    """The part of a reading that a property speaks about."""
    out = {k: reading[k] for k in top if k in reading}
    if part:
        out["periods"] = [{k: p[k] for k in part} for p in reading[PERIODS[cls]]]
    return out


def compare(case, top, part, want=None, what=""):
    want = want or expected(case)
    got = sut.reading(case)
    cls = case["cls"]
    check_diff(project(want, cls, top, part), project(got, cls, top, part),
               (what or "") + case["text"])
    return want, got


def token_stage(name, kinds, cases, top, part, rule, quick_step=1):
    """Enumerate (context, token) and compare the group's readings with the reference."""

    def all_cases(tier):
        step = quick_step if tier == "quick" else 1
        for i, (context, token) in enumerate(cases(tier)):
            if step == 1 or i % step == 0:
                yield {"context": context, "token": token}

    def test(ctx, case):
        c = place_token(case["context"], case["token"])
        want, got = compare(c, top, part)
        ctx.label(case["context"])
        return True

    return Enum(name, all_cases, test, rule)


def report_stage(name, strategy, top, part, nontrivial, rule, quick=2400, thorough=None):
    """Random whole reports; the projection of the reading is compared with the reference."""

    def test(ctx, case):
        want, got = compare(case, top, part)
        good = nontrivial(case, want)
        ctx.label("nontrivial" if good else "trivial")
        return good

    return Prop(name, strategy, test, rule, quick, thorough)


def company(top, part, quick=1600, thorough=None):
    """Groups at the limits of the rules in the company of others; compared with the reference."""
    def test(ctx, case):
        want, got = compare(case, top, part)
        ctx.label(f"{min(12, len(case['text'].split()) // 3 * 3)} words or more")
        return len(case["text"].split()) > 5

    return Prop("company", gen.company_case, test,
                "METARs and TAFs of groups at the limits of the rules, each there or not, in the company of each other; non-trivial: more than five words",
                quick, thorough or quick * 30)


def rng(name):
    return random.Random(f"{SEED}/{name}")


def product(*seqs):
    return itertools.product(*seqs)


def has_kind(*kinds):
    """Non-trivial: some decoded group is of one of the kinds."""
    kinds = set(kinds)

    def f(case, want):
        for part in [want] + want.get("weather_trends", []) + want.get("changes_forecasted", []):
            if any(k in kinds for k, _, _ in part["_decoded"]):
                return True
        return False

    return f


def well_formed():
    return gen.report_case()


def defined(want, cls):
    """The reference reading without what no property defines: the default validity of a TAF
    without one (and what derives from it), and the times of trends outside the two hours."""
    if cls == "metar":
        for t in want["weather_trends"]:
            if not t["_inside"]:
                i = t["trend_indicator"]
                t["trend_indicator"] = {k: i[k] for k in ("code", "translation", "init", "end")}
        return want
    if not want["_valid_given"]:
        del want["valid"]
        for c in want["changes_forecasted"]:
            c["change_indicator"] = {"code": c["change_indicator"]["code"]}
    return want


def compare_full(case, want=None, got=None):
    """The whole reading against the reference."""
    want = defined(want or expected(case), case["cls"])
    check_diff(want, got or sut.reading(case), case["text"])
    return want


def odd_stations(tier):
    """A report of each station with an unusual entry of the table (the first and last in length and order)
    and of a share of the others."""
    rows, _ = ref.database()
    codes = [c for c in rows if re.fullmatch("[A-Z][A-Z0-9]{3}", c)]
    picked = set()
    for i in range(len(rows[codes[0]])):
        order = sorted(codes, key=lambda c: (len(str(rows[c][i])), str(rows[c][i]), c))
        seen = {}
        for c in order:
            seen.setdefault(rows[c][i], c)
        distinct = list(seen.values())
        picked.update(distinct[:25] + distinct[-15:])
    r = rng("stations")
    picked.update(codes if tier == "thorough" else r.sample(codes, 150))
    for n, c in enumerate(sorted(picked)):
        if n % 2:
            yield {"cls": "taf", "text": f"TAF {c} 151130Z 1512/1612 27010KT 9999 FEW010", "year": 2024, "month": 2}
        else:
            yield {"cls": "metar", "text": f"METAR {c} 151230Z 27010KT 9999 FEW010 10/05 Q1013", "year": 2024, "month": 2}


def crowded(tier):
    """Reports with up to and beyond as many trends and changes as are read, each of one kind or mixed, with a group that is none in one of them."""
    metar = ("NOSIG", "TEMPO 27010KT", "BECMG FM1300 9999", "TEMPO TL1330 -RA BKN010")
    taf = ("FM15{:02d}00 27010KT", "TEMPO 1513/1515 -RA", "BECMG 1514/1516 9999", "PROB30 1515/1517 TS", "PROB40 TEMPO 1516/1518 FG BKN002")
    for cls, head, kinds, most in (("metar", "METAR PADK 151230Z 27010KT 9999", metar, 4), ("taf", "TAF PADK 151130Z 1512/1612 27010KT 9999", taf, 11)):
        for n in range(1, most + 1):
            for k in list(range(len(kinds))) + ["mixed", "back"]:
                parts = [(kinds[k] if isinstance(k, int) else kinds[i % len(kinds)] if k == "mixed" else kinds[-1 - i % len(kinds)]).format(12 + i) for i in range(n)]
                yield {"cls": cls, "text": " ".join([head] + parts), "year": YEAR, "month": MONTH}
                for i in range(n):
                    for junk in ("XXXXX", "28011KT 28012KT") if n > most - 3 or i + 1 == n else ("XXXXX",):
                        yield {"cls": cls, "text": " ".join([head] + parts[:i] + [parts[i] + " " + junk] + parts[i + 1:]), "year": YEAR, "month": MONTH}
                if n > 1:
                    for b in ("XXXXX ", "27010KT "):
                        yield {"cls": cls, "text": " ".join([head, b[:-1]] + [q + " FOO" for q in parts]), "year": YEAR, "month": MONTH}


def long_texts(tier):
    """Reports of hundreds of words: in the body, in a period, in the remark, in all of them."""
    r = rng("long")
    heads = {"metar": "METAR PADK 151230Z", "taf": "TAF PADK 151130Z 1512/1612"}
    marks = {"metar": ["TEMPO", "BECMG FM1330", "NOSIG"], "taf": ["TEMPO 1513/1515", "FM151400", "PROB30 1515/1517", "BECMG 1516/1518"]}
    fill = ["XXXXX", "9999", "-RA", "BKN010", "27010KT", "12345", "SCT020CB", "1", "FOO/BAR", "R07/0500"]
    for cls in ("metar", "taf"):
        for n in [20, 50, 63, 64, 65, 99, 100, 101, 119, 120, 127, 128, 129, 150, 199, 200, 201, 255, 256, 257, 300, 500] + ([999, 1000, 1001, 1500] if tier == "thorough" else []):
            for where in range(4):
                a, b, c = [[r.choice(fill) for _ in range(n if where in (i, 3) else 3)] for i in range(3)]
                # Known groups at the far ends.
                for end in ("28015KT 8000 SHRA OVC030 22/18 Q1020 NSC" if cls == "metar" else "28015KT 8000 SHRA OVC030 TX22/1515Z",):
                    words = [heads[cls], *a, end, r.choice(marks[cls]), *b, end]
                    if cls == "metar":
                        words += ["RMK", *c]
                    else:
                        words += [r.choice(marks[cls]), *c, end]
                    yield {"cls": cls, "text": " ".join(words), "year": YEAR, "month": MONTH}


SECTION_WORDS = {
    "metar": ["NOSIG", "TEMPO", "BECMG", "RMK", "FM1300", "9999", "-RA", "XX", "WS R07", "1 1/2SM", "RMKS", "NOSIGS", "TEMPOX", "BECMG1"],
    "taf": ["TEMPO", "BECMG", "PROB30", "PROB40 TEMPO", "PROB30 TEMPO", "FM151400", "FM15", "FMMI", "FM151", "1514/1516", "9999", "XX", "PROBE", "TEMPOX", "BECMGS"],
}


def sequences(tier):
    for cls in ("metar", "taf"):
        w = SECTION_WORDS[cls]
        head = {"metar": ["METAR FMMI 151230Z 27010KT", "PADK"], "taf": ["TAF FMMI 151130Z 1512/1612 27010KT", "FMMI"]}[cls]
        for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
            for combo in product(*[w] * n):
                yield {"cls": cls, "text": head[len(combo[0]) % 2] + " " + " ".join(combo), "year": YEAR, "month": MONTH}
    r = rng("sequences")
    for _ in range(30000 if tier == "thorough" else 1500):
        cls = r.choice(["metar", "taf"])
        n = r.randint(4, 14) if r.random() < 0.93 else r.randint(15, 90)
        head = {"metar": "METAR FMMI 151230Z 27010KT ", "taf": "TAF FMMI 151130Z 1512/1612 27010KT "}[cls]
        yield {"cls": cls, "text": head + " ".join(r.choice(SECTION_WORDS[cls]) for _ in range(n)), "year": YEAR, "month": MONTH}


def shapes(tier):
    """All of these, for the properties of every text: sequences of section words (quick: a part), crowded and long reports, reports with groups of every kind."""
    from .c31 import frames

    for i, c in enumerate(sequences(tier)):
        if tier == "thorough" or i % 3 == 0 or i > 4200:
            yield c
    yield from crowded(tier)
    for i, c in enumerate(long_texts(tier)):
        if tier == "thorough" or i % 4 == 0:
            yield c
    seen = set()
    for c in frames(tier):
        if c["text"] not in seen:
            seen.add(c["text"])
            yield {k: c[k] for k in ("cls", "text", "year", "month")}


SHAPES = ("sequences of section words and look-alikes, reports with up to and beyond as many trends and changes as are read, reports of up to 500 words "
          "(thorough: 1500), reports with groups of every kind and feature; non-trivial as above")
