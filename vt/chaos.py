"""Strategies for texts that are not well formed: soups of groups, mutations, arbitrary text."""
import datetime as dt

from hypothesis import strategies as st

from . import gen, ref
from .gen import one
from .words import WORDS

BODY_KINDS = {
    "MODIFIER": gen.modifier, "WIND": gen.wind, "WINDVAR": gen.windvar, "VIS": gen.vis,
    "MINVIS": gen.minvis, "RVR": gen.rvr, "WX": gen.weather, "CLOUD": gen.cloud,
    "TEMPS": gen.temps, "PRESSURE": st.one_of(gen.pressure_unit, gen.pressure_bare),
    "RECENT": gen.recent, "WINDSHEAR": gen.windshear, "SEA": gen.sea, "RWYSTATE": gen.rwystate,
}

day = gen.digits(2, 1, 31)
hour = gen.digits(2, 0, 23)
minute = gen.digits(2, 0, 59)
time_z = gen.cat(day, hour, minute, "Z")
valid = gen.cat(day, hour, "/", day, gen.digits(2, 0, 24))
taf_temp = gen.cat(one(["TX", "TN"]), one(["", "M"]), gen.digits(2), "/", day, hour, "Z")
fm_change = gen.cat("FM", day, hour, minute)
trend_period = gen.cat(one(["FM", "TL", "AT"]), gen.digits(2, 0, 24), minute)

HEADERS = one(["METAR", "SPECI", "TAF", "AMD", "COR", "NIL", "CNL", "AUTO", "PADK", "KJFK", "FMMI"])
INDICATORS = one(["NOSIG", "TEMPO", "BECMG", "PROB30", "PROB40", "PROB30 TEMPO", "PROB40 TEMPO", "PROB50", "RMK", "WS", "RE", "VC", "INTER"])
ODD = one(["-", "+", "/", "//", "///", "0", "1", "9", "SM", "1/2SM", "1 1/2SM", "1/0SM", "99 9/9SM", "FM", "TL", "AT", "TX", "TN",
           "=", "|", "WS R", "WS ALL", "WS ALL RWY", "R", "R/", "Q", "A", "VV", "G", "KT", "00000KT", "99999KT",
           "36000KT", "320230Z", "302460Z", "312359Z", "3124/0100", "FM312400", "FM311200", "TX99/3123Z", "_", "1_1/2SM", "WS_R07",
           "PROB30_TEMPO", "2400", "FM2400", "AT2430", "TL2359", "9999", "CAVOK", "R88/CLRD//", "R99/////////", "٣٤٥٦", "Q١٠١٣", "\x00", "{}", "%s", "\\1",
           "$", ".", ",", ";", ":", "?", "#", "*", "(", ")", "'", '"', "&", "%", "!", "@", "~", "<NIL>", "None", "METARTAF", "FM151", "TEMPOX", "RMKX", "NOSIGNOSIG", "BECMG1"])

JUNK_CHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/+-"
junk = st.text(JUNK_CHARS, min_size=1, max_size=9)

any_group = st.one_of(
    *BODY_KINDS.values(), *BODY_KINDS.values(), time_z, valid, taf_temp, fm_change, trend_period,
    HEADERS, INDICATORS, INDICATORS, ODD, junk, one(WORDS),
)

space = one([" "] * 12 + ["  ", "\n", "\t", " \r\n ", "=", " = ", "\x0b", "\u00a0", "\u2003", "\x1f"])

year = st.one_of(st.none(), st.integers(1900, 2100), st.integers(1995, 2030))
month = st.one_of(st.none(), st.integers(1, 12))
given_year = st.one_of(st.integers(1900, 2100), st.integers(1995, 2030), one([1900, 2000, 2023, 2024, 2100]))
given_month = st.one_of(st.integers(1, 12), st.just(2))


@st.composite
def soup(draw, max_words=25, spaces=space, words=any_group):
    n = draw(st.integers(1, max_words))
    out = []
    if draw(st.booleans()):
        out = ["METAR PADK 151230Z", " "] if draw(st.booleans()) else ["TAF PADK 311230Z 3118/0124", " "]
    for _ in range(n):
        out.append(draw(words))
        out.append(draw(spaces))
    return "".join(out[:-1]) if draw(st.integers(0, 3)) else "".join(out)


MUTANT_CHARS = one(list("ABCDEFGHIKLMNOPQRSTUVWXZ0123456789/+- ") + ["_", "=", "|", "\n", "\t", ".", "٣", "é", "\x00", "ß", "\u2028", "$"])


@st.composite
def mutate(draw, text, edits=6, chars=MUTANT_CHARS):
    """The text after one or more character and word edits."""
    for _ in range(draw(st.integers(1, edits))):
        kind = draw(one(["del", "ins", "sub", "wdel", "wdup", "wswap", "wins", "wmove"]))
        if kind in ("del", "ins", "sub"):
            if not text:
                text = "X"
            i = draw(st.integers(0, len(text) - 1))
            c = "" if kind == "del" else draw(chars)
            text = text[:i] + c + text[i + (kind != "ins"):]
            continue
        words = text.split(" ")
        i = draw(st.integers(0, len(words) - 1))
        if kind == "wdel":
            del words[i]
        elif kind == "wdup":
            words.insert(i, words[i])
        elif kind == "wins":
            words.insert(i, draw(any_group))
        else:
            j = draw(st.integers(0, len(words) - 1))
            if kind == "wswap":
                words[i], words[j] = words[j], words[i]
            else:
                words.insert(j, words.pop(i))
        text = " ".join(words)
    return text or "X"


def case(cls, text, y, m):
    return {"cls": cls, "text": text, "year": y, "month": m}


@st.composite
def soup_case(draw, dated=False, **kw):
    return case(draw(one(["metar", "taf"])), draw(soup(**kw)),
                draw(given_year if dated else year), draw(given_month if dated else month))


@st.composite
def mutant_case(draw, dated=False, p=60, **kw):
    base = draw(gen.report_case(p=p))
    text = draw(mutate(base["text"], **kw))
    cls = base["cls"] if draw(st.integers(0, 9)) else ("taf" if base["cls"] == "metar" else "metar")
    if dated or draw(st.integers(0, 3)):
        return case(cls, text, base["year"], base["month"])
    return case(cls, text, draw(year), draw(month))


@st.composite
def unicode_case(draw):
    text = draw(st.one_of(st.text(min_size=1, max_size=60),
                          st.text("ABCDEFGHIKLMNOPQRSTUVWXZ0123456789/+- =", min_size=1, max_size=80)))
    return case(draw(one(["metar", "taf"])), text, draw(year), draw(month))


@st.composite
def crowded_case(draw, **kw):
    """A report with about as many trends or changes as are read, or more, and often a group that is none."""
    if draw(st.booleans()):
        time, body, tr, _ = draw(gen.metar_groups(p=25, trends=False, remark=False))
        parts = [draw(gen.trend_words(time, 30)) for _ in range(draw(st.integers(1, 5)))]
        if draw(st.integers(0, 5)) == 0:
            parts.insert(draw(st.integers(0, len(parts))), ["NOSIG"])
        cls = "metar"
    else:
        time, body, _ = draw(gen.taf_groups(p=25, changes=0, nil=False))
        start = time.replace(minute=0) + dt.timedelta(hours=1)
        parts = [draw(gen.change_groups(start, 24, 20)) for _ in range(draw(st.integers(6, 12)))]
        cls = "taf"
    words = [g for _, g in body] + [g for q in parts for g in q]
    for _ in range(draw(one([0, 1, 1, 2, 4]))):
        words.insert(draw(st.integers(0, len(words))), draw(st.one_of(junk, any_group, one(["XXX", "27010KT"]))))
    return case(cls, " ".join(words), time.year, time.month)


def wild_case():
    """Any text at all, mostly near to reports."""
    return st.one_of(mutant_case(), soup_case(), soup_case(), mutant_case(), gen.report_case(), crowded_case(), unicode_case(), gen.company_case())


def dated_case():
    """As wild_case, with the year and month given."""
    return st.one_of(mutant_case(dated=True), soup_case(dated=True), mutant_case(dated=True), gen.report_case(), crowded_case(), gen.company_case())
