from .common import *
from .. import chaos, forms


def squeezed(text):
    """The existing examples fix the words; runs of blanks are not significant."""
    return " ".join(text.split())


def same(what, want, got, text):
    if not isinstance(got, str) or squeezed(want) != squeezed(got):
        fail(f"{text!r}: the text of {what} should be {want!r} but is {got!r}")


def skip(kind, g):
    # No example fixes these texts.
    return kind == "runway_state" and (g["code"] or "").count("/") > 0 and (g["name"] is None or odd_digits(g["code"]))


def odd_digits(code):
    """Contamination digits that have no meaning in the table."""
    d = code.split("/", 1)[1]
    return len(d) == 6 and d[0] in "0123456789/" and not d.startswith(("CLRD", "SNOCLO")) and ref.T.CONTAMINATION.get(d[1]) is None


def check(case, got=None, want=None):
    cls = case["cls"]
    got = got or sut.full(case)
    r, f = got["reading"], got["forms"]
    text = case["text"]
    n = 0
    for name in forms.GROUPS[cls]:
        if name in forms.LISTS[cls] or skip(name, r[name]):
            continue
        same(name, forms.text_of(name, r[name]), f[name]["str"], text)
        n += r[name]["code"] is not None if "code" in r[name] else 1
    for name in forms.LISTS[cls]:
        same(name, forms.text_of_list(name, r[name], r), f[name]["str"], text)
        for v, g in zip(r[name], f[name]["items"]):
            if name == "weather_trends":
                w = forms.text_of_trend(v)
            elif name == "changes_forecasted":
                w = forms.text_of("change_indicator", v["change_indicator"])
            else:
                w = forms.text_of(name, v)
            same(name + " item", w, g["str"], text)
            n += 1
    for p, g in zip(r[forms.PERIODS[cls]], f["periods"]):
        ind = forms.INDICATOR[cls]
        same(ind, forms.text_of(ind, p[ind]), g["indicator"]["str"], text)
        for name in ("wind", "prevailing_visibility"):
            same("a period's " + name, forms.text_of(name, p[name]), g[name]["str"], text)
        for name in ("weathers", "clouds"):
            same("a period's " + name, forms.text_of_list(name, p[name]), g[name]["str"], text)
        if cls == "taf":
            same("validity", forms.text_of("valid", p[ind]["valid"]), g["valid"]["str"], text)
    want = want or expected(case)
    decoded = want["_decoded"]
    if any(skip(forms.SLOT_KIND.get(k, ""), r["runway_state"]) for k, _, _ in decoded if k == "RWYSTATE"):
        return n
    lines = forms.report_lines(cls, r, decoded)
    printed = [squeezed(l) for l in f["report"]["str"].split("\n") if l.strip()]
    if len(printed) != len(lines) or not all(map(forms.same_line, lines, printed)):
        fail(f"{text!r}: the text should have the lines {lines} but has {printed}")
    return n


def test(ctx, case):
    n = check(case)
    ctx.label(f"{min(n, 20) // 4 * 4}+ groups")
    return n > 4


def tokens(tier):
    from .c25 import SAMPLES

    for kind, t in SAMPLES:
        for c in CONTEXTS:
            yield place_token(c, t)


# Zero and boundary values: the usual way in which a text loses a value.
ZEROS = ["00000KT", "000P00G00MPS", "36000KT", "VRB00KT", "/////KT", "///00G00KT", "0000", "0000N", "0000S", "0SM", "0/1SM", "0KM", "9999NE", "////W",
         "R00/0000", "R00/P0000VM0000FTN", "FEW000", "OVC000CB", "VV000", "///000", "//////", "NSC", "SCT", "BKN///TCU", "00/00", "M00/M00", "///00", "00///",
         "/////"[:5], "MM/XX", "Q0000", "A0000", "Q////", "W00/S0", "WM00/H000", "W00/H000", "R00/000000", "R00/010000", "R00/110000", "R00L/0//////"[:11], "R07/////99",
         "R07/19////", "R07/2/9990", "R07/210091", "R07/CLRD//", "R88/CLRD//", "R99/CLRD//", "R88/SNOCLO", "R/SNOCLO", "WS R00", "WS ALL RWY", "TX00/1515Z", "TNM00/1606Z",
         "AUTO", "NIL", "CNL", "RERA", "RE//", "RETS", "/"]


def zeros(tier):
    for c in CONTEXTS:
        for z in ZEROS:
            yield place_token(c, z)


STAGES = [
    Prop("reports", lambda: gen.st.one_of(gen.report_case(), gen.report_case(p=95), chaos.dated_case()), test,
         "random well-formed, mutated and soup reports: the texts of all groups, lists, periods and of the report, from the attributes; "
         "non-trivial: more than 4 groups", 2400, 80000),
    Enum("groups", tokens, test, "typical groups of every kind in every section; non-trivial as above"),
    Enum("zeros", zeros, test, "groups with zero, unknown and boundary values in every section; non-trivial as above"),
    Enum("stations", odd_stations, lambda ctx, case: check(case) > 4, "a report of each station with an unusual entry of the table and of a share of the others "
         "(thorough: of all); non-trivial as above"),
    Enum("shapes", shapes, test, SHAPES),
]
