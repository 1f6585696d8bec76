import collections
import re

from .common import *
from .. import chaos, forms

st = gen.st


def words_of(text):
    return ref.words_of(text)


def segments(cls, words):
    """The sections' segments as lists of groups, the remark apart."""
    text = " ".join(words)
    if cls == "metar":
        body, trends, remark = ref.metar_sections(text)
        return [ref.join_words(body)] + [ref.join_words(t, windshear=False) for t in trends], remark
    body, changes = ref.taf_sections(text)
    body = [w for g in body for w in g.split(ref.J)]
    return [ref.join_words(body, windshear=False)] + [ref.join_words(c, windshear=False) for c in changes], []


def fits(cls, words, i, junk):
    """The junk inserted there is one more group of some segment and nothing else changes."""
    if ref.recognise("STATION", junk) is not None and not any(ref.recognise("STATION", w) is not None for w in words[:i]):
        return False
    old, remark = segments(cls, words)
    new, remark2 = segments(cls, words[:i] + [junk] + words[i:])
    if remark != remark2 or len(old) != len(new):
        return False
    changed = [(a, b) for a, b in zip(old, new) if a != b]
    if len(changed) != 1:
        return False
    a, b = changed[0]
    return any(b == a[:k] + [junk] + a[k:] for k in range(len(a) + 1))


KEYWORDS = re.compile("NOSIG|TEMPO|BECMG|RMK|PROB|FM[0-9]{3}")


def is_junk(t):
    words = t.split()
    if len(words) != 1 or words[0] != t or "=" in t or "|" in t or KEYWORDS.match(t):
        return False
    # A word in the form of a station is junk once the station is there.
    return not any(ref.recognise(k, t) is not None for k in ref.RX if k != "STATION")


JUNK = ["XXXXX", "X", "0", "12", "99999", "A", "ABC", "AB12C", "12345Z", "//5", "27010K", "7010KT", "BKN0", "BKN0150", "Q10133", "-", "+", "R07", "R07/", "WS", "ALL", "RWY",
        "REXX", "W99", "TX10", "FM12", "FM", "TL", "AT", "TL15", "AT99999", "PRO", "1/2", "SM", "KT", "CAVOKX", "VRB", "99/99/99", "2/1Z", "é", "naïve", "٣٤٥٦", "١٠١٣Q",
        "a" * 40, "_", "a_b", "1_1/2SM", "WS_R07", "\\", "(", "[", "*", "{}", "%s", ".", "$", "^", "?", "15123", "151230", "1512/16", "1512/161", "TEMP", "BECM", "NOSI", "RM", "LAST", "MESSAGE",
        "/ABC/", "//X//", "/////XX/", "/1234/", "////X", "///10K", "9999/", "/9999", "OVC", "OVC/", "FEW//", "VV", "VV0", "TX", "TX10/", "TN10/15", "A299", "A29921", "Q10/13",
        "RE", "RE-RA", "RERAX", "WSR07", "W15", "W15/", "S4", "/S4", "H12", "R07/29", "R07L/2901555", "R07L/29015", "R//", "SNOCLO", "R07/SNOCLO1", "00000", "000000", "0000000", "24000KT", "240V",
        "V300", "240V3000", "1512//1612", "1512/1612/", "/1512", "M10", "M10/", "/M12", "10/M", "M/M", "P6", "P6SMX", "6S", "10KMX", "CAVO", "NCDX", "NSWX", "NS", "SK", "CL", "VCX", "VC-RA", "+-RA", "-+RA", "RARARARA", "TSTS", "OBS", "QFE", "NXT", "FCST", "BY", "00Z", "SKY", "CLD", "CLDS", "UNK", "PROVISIONAL", "WIND", "RTD", "CCA", "DUPE"]

JUNK = [j for j in JUNK if is_junk(j)]

near_miss = st.one_of(
    chaos.mutate("BKN015", edits=1), chaos.mutate("27010KT", edits=1), chaos.mutate("9999", edits=2), chaos.mutate("-RA", edits=1),
    chaos.mutate("10/05", edits=1), chaos.mutate("Q1013", edits=1), chaos.mutate("R07/1000", edits=1), chaos.mutate("1512/1612", edits=1),
    chaos.mutate("TX10/1515Z", edits=1), chaos.mutate("FM151400", edits=1), chaos.mutate("240V300", edits=1), chaos.mutate("R07/290155", edits=1))
junk = st.one_of(gen.one(JUNK), gen.one(JUNK), chaos.junk, near_miss, gen.one(gen.WORDS)).filter(is_junk)

NOT_COMPARED = {"raw_code", "body", "trend", "remark", "weather_changes", "sections", "unparsed_groups", "code"}


def without_text(reading):
    """What must not change."""
    r = {k: v for k, v in reading.items() if k not in NOT_COMPARED}
    for name in ("weather_trends", "changes_forecasted"):
        if name in r:
            r[name] = [{k: v for k, v in p.items() if k not in ("code", "unparsed_groups")} for p in r[name]]
    return r


def sub(new, old):
    return list((collections.Counter(new) - collections.Counter(old)).elements())


def compare_insertion(case):
    cls = case["cls"]
    words, i, junk_ = case["words"], case["at"], case["junk"]
    y, m = case["year"], case["month"]
    base = {"cls": cls, "text": " ".join(words), "year": y, "month": m}
    with_ = {"cls": cls, "text": " ".join(words[:i] + [junk_] + words[i:]), "year": y, "month": m}
    a, b = sut.make(base), sut.make(with_)
    ra, rb = read.read(a, cls), read.read(b, cls)
    where = f"{junk_!r} inserted: {with_['text']!r}"
    check_diff(without_text(ra), without_text(rb), where)
    if sub(rb["unparsed_groups"], ra["unparsed_groups"]) != [junk_] or sub(ra["unparsed_groups"], rb["unparsed_groups"]):
        fail(f"{where}: unparsed groups are {rb['unparsed_groups']}, were {ra['unparsed_groups']}")
    # Of the periods, at most one gets it, and its code is the only one that changes.
    name = PERIODS[cls]
    got = 0
    for p, q in zip(ra[name], rb[name]):
        more = sub(q["unparsed_groups"], p["unparsed_groups"])
        if sub(p["unparsed_groups"], q["unparsed_groups"]) or more not in ([], [junk_]):
            fail(f"{where}: unparsed groups of a period are {q['unparsed_groups']}, were {p['unparsed_groups']}")
        if (p["code"] != q["code"]) != bool(more):
            fail(f"{where}: a period {p['code']!r} is now {q['code']!r} with unparsed groups {q['unparsed_groups']}")
        got += len(more)
    if got > 1:
        fail(f"{where}: {got} periods leave it unparsed")
    if str(a) != str(b):
        fail(f"{where}: the text is {str(b)!r}, was {str(a)!r}")
    return ra, rb


@st.composite
def insertions(draw):
    c = draw(st.one_of(gen.report_case(p=60), gen.report_case(p=85), gen.report_case(p=35), chaos.dated_case()))
    words = words_of(c["text"])
    j = draw(junk)
    at = draw(st.integers(0, len(words)))
    return {"cls": c["cls"], "words": words, "at": at, "junk": j, "year": c["year"], "month": c["month"]}


def test(ctx, case):
    if not fits(case["cls"], case["words"], case["at"], case["junk"]):
        ctx.label("does not fit")
        return False
    ra, rb = compare_insertion(case)
    n = sum(1 for k in ("wind", "prevailing_visibility", "station") if ra[k]["code"] is not None) + len(ra["weathers"]) + len(ra["clouds"]) + len(ra[PERIODS[case["cls"]]])
    ctx.label("in a period" if any(case["junk"] in p["unparsed_groups"] for p in rb[PERIODS[case["cls"]]]) else "in the body")
    return n > 1


FULL = [
    ("metar", "METAR PADK 151230Z AUTO 27010G20KT 240V300 5000 1200S R07/1000 R25/M0600U R11/P1500 -RA BR +TSGR FEW010 SCT020CB BKN030 OVC040 M10/M12 A2992 Q1013 RERA "
              "WS R07 WS R25L W15/S4 R07L/290155 TEMPO FM1300 TL1400 30015KT 2000 -SN BR BKN005 OVC010 BECMG AT1330 CAVOK RMK AO2 SLP"),
    ("metar", "SPECI K1G4 151230Z 00000KT 1 1/2SM FG VV001 10/10 1013 NOSIG"),
    ("metar", "PADK 151230Z CAVOK 2992 WS ALL RWY R/SNOCLO BECMG NSW"),
    ("taf", "TAF AMD PADK 151130Z 1512/1618 27010KT 9999 -RA BR FEW010 SCT020 BKN030 OVC040 TX20/1515Z TNM02/1606Z TX10/1612Z TN05/1604Z TEMPO 1513/1516 5000 TSRA BKN010CB "
            "FM151600 30010KT CAVOK PROB30 TEMPO 1518/1520 1 1/2SM FG VV002 BECMG 1522/1524 VRB02KT NSW SKC PROB40 1600/1602 0500 FM160600 P6SM NSC"),
    ("taf", "TAF FMMI 151130Z NIL"),
    ("taf", "TAF PADK 151130Z 1512/1612 CNL"),
]


def everywhere(tier):
    """Each junk token at each place of full reports."""
    for n, (cls, text) in enumerate(FULL):
        words = words_of(text)
        for i in range(len(words) + 1):
            for k, j in enumerate(JUNK):
                if tier == "thorough" or (i + k + n) % 4 == SEED % 4:
                    yield {"cls": cls, "words": words, "at": i, "junk": j, "year": 2024, "month": 2}


def impossible(tier):
    """A time of issue on a day that the month does not have, at each place of full reports and of bare ones."""
    for cls, text in FULL + [("metar", "PADK 151230Z 27010KT"), ("taf", "PADK 151130Z 1512/1612"), ("metar", "METAR 151230Z AUTO"), ("metar", "METAR PADK TEMPO FG"), ("taf", "TAF COR")]:
        words = words_of(text)
        for year, month, days in ((2024, 2, (30, 31)), (2023, 2, (29, 30, 31)), (2024, 4, (31,)), (2023, 11, (31,)), (1900, 2, (29,))):
            for d in days:
                for hm in ("0000", "1230", "2359"):
                    for i in range(len(words) + 1):
                        if tier == "thorough" or i < 8 or i % 5 == 0:
                            yield {"cls": cls, "words": words, "at": i, "junk": f"{d}{hm}Z", "year": year, "month": month}


@st.composite
def several(draw):
    """Several junk groups at once."""
    c = draw(gen.report_case(p=60))
    words = words_of(c["text"])
    inserted = []
    for _ in range(draw(st.integers(2, 6))):
        i, j = draw(st.integers(0, len(words))), draw(junk)
        inserted.append([i, j])
    return {"cls": c["cls"], "words": words, "inserted": inserted, "year": c["year"], "month": c["month"]}


def several_test(ctx, case):
    words, cls = list(case["words"]), case["cls"]
    done = []
    for i, j in case["inserted"]:
        if fits(cls, words, i, j):
            words.insert(i, j)
            done.append(j)
    a = sut.reading({"cls": cls, "text": " ".join(case["words"]), "year": case["year"], "month": case["month"]})
    b = sut.reading({"cls": cls, "text": " ".join(words), "year": case["year"], "month": case["month"]})
    where = f"{done} inserted: {' '.join(words)!r}"
    check_diff(without_text(a), without_text(b), where)
    if sorted(sub(b["unparsed_groups"], a["unparsed_groups"])) != sorted(done) or sub(a["unparsed_groups"], b["unparsed_groups"]):
        fail(f"{where}: unparsed groups are {b['unparsed_groups']}, were {a['unparsed_groups']}")
    ctx.label(f"{len(done)} inserted")
    return len(done) > 1


def many(tier):
    """A junk token very often at one place of a full report."""
    for n, (cls, text) in enumerate(FULL):
        words = words_of(text)
        for i in range(len(words) + 1):
            for k, times in enumerate((30, 100, 254, 600, 1300)):
                if tier == "thorough" or (i + k + n) % 3 == SEED % 3:
                    yield {"cls": cls, "words": words, "at": i, "junk": JUNK[(i * 7 + k) % len(JUNK)], "times": times, "year": 2024, "month": 2}


def many_test(ctx, case):
    cls, words, i, j, n = case["cls"], case["words"], case["at"], case["junk"], case["times"]
    if not fits(cls, words, i, j):
        return False
    new = words[:i] + [j] * n + words[i:]
    a = sut.reading({"cls": cls, "text": " ".join(words), "year": case["year"], "month": case["month"]})
    b = sut.reading({"cls": cls, "text": " ".join(new), "year": case["year"], "month": case["month"]})
    where = f"{j!r} inserted {n} times before word {i} of {' '.join(words)!r}"
    check_diff(without_text(a), without_text(b), where)
    more = sub(b["unparsed_groups"], a["unparsed_groups"])
    if more != [j] * n or sub(a["unparsed_groups"], b["unparsed_groups"]):
        fail(f"{where}: {len(more)} more groups are unparsed")
    return True


STAGES = [
    Enum("impossible", impossible, test, "a time of issue on a day that the month does not have at each place of full and bare reports; non-trivial as above"),
    Prop("insertions", insertions, test,
         "a token of no known form inserted in random well-formed, mutated and soup reports: every reading but the unparsed groups and texts is "
         "compared with that without it; non-trivial: inserted, in a report with more than one group", 2400, 80000),
    Enum("everywhere", everywhere, test, "each of a list of tokens at every place of six full reports (quick: a quarter of the pairs); non-trivial as above"),
    Prop("several", several, several_test, "several at once; non-trivial: more than one inserted", 800, 30000),
    Enum("many", many, many_test, "a token up to 1300 times at each place of full reports (quick: a third); non-trivial: it is no known group there"),
]
