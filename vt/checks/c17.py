from .common import *
from .. import chaos

TOP = PART = ("should_be_cavok",)
VIS = ["", "9999", "9998", "CAVOK", "////", "0000", "5000", "5SM", "6SM", "P6SM", "10SM", "10KM", "9KM", "50KM", "99SM"]
WX = ["", "-RA", "/", "VCTS", "NSW", "FG BR"]
SKY = ["", "NSC", "NCD", "SKC", "CLR", "FEW049", "FEW050", "FEW051", "BKN050", "OVC100", "SCT080CB", "BKN100TCU", "FEW000", "OVC000", "VV001", "VV050",
       "VV///", "VV", "VV100", "BKN///", "OVC", "///", "//////", "//////CB", "/////////", "///100TCU", "FEW100///", "FEW050 BKN080", "FEW050 BKN049",
       "FEW050 SCT060 BKN070 OVC080", "FEW050 SCT060 BKN070 OVC080CB", "FEW050 SCT060 BKN070 OVC040", "FEW050 VV060", "BKN/// OVC100", "BKN/// OVC010",
       "NSC FEW020", "0VC030", "0VC060", "FEW999"]


def test(ctx, case):
    c = place_token(case["context"], case["token"]) if "token" in case else case
    want = expected(c)
    rep = sut.make(c)
    cls = c["cls"]
    for attempt in range(3):
        pairs = [(want["should_be_cavok"], rep.should_be_cavok(), "the report")]
        for w, p in zip(want[PERIODS[cls]], getattr(rep, PERIODS[cls])):
            pairs.append((w["should_be_cavok"], p.should_be_cavok(), repr(p.code)))
        for w, g, who in pairs:
            if w is not g:
                fail(f"should_be_cavok of {who} of {c['text']!r} is {g!r}, should be {w!r} (call {attempt + 1})")
    trues = sum(1 for w, _, _ in pairs if w)
    ctx.label("true somewhere" if trues else "false")
    return trues > 0 or "token" in case


def conditions(tier):
    contexts = ALL if tier == "thorough" else ("metar", "trend", "taf", "becmg", "fm")
    for i, (v, w, s) in enumerate(product(VIS, WX, SKY)):
        token = " ".join(x for x in ("27010KT", v, w, s) if x)
        if tier == "thorough":
            for c in contexts:
                yield {"context": c, "token": token}
        else:
            yield {"context": contexts[i % len(contexts)], "token": token}


def bases(tier):
    for h in range(1000):
        yield {"context": ("metar", "trend", "taf", "becmg")[h % 4], "token": f"27010KT 9999 {('FEW', 'SCT', 'BKN', 'OVC')[h // 4 % 4]}{h:03d}"}


@gen.st.composite
def near(draw):
    """Groups that nearly allow CAVOK."""
    c = draw(gen.one(ALL))
    v = draw(gen.one(["9999", "9999", "9999", "CAVOK", "10SM", "9998", "10KM"]))
    h = gen.one(["049", "050", "051", "060", "100", "250", "///"])
    layers = draw(gen.st.lists(gen.cat(gen.one(["FEW", "SCT", "BKN", "OVC"]), h, gen.one([""] * 12 + ["CB", "TCU"])), max_size=4))
    w = draw(gen.st.lists(gen.weather, max_size=1)) if draw(gen.st.integers(0, 5)) == 0 else []
    return {"context": c, "token": " ".join(["27010KT", v] + w + layers)}


def near_test(ctx, case):
    test(ctx, case)
    c = place_token(case["context"], case["token"])
    want = expected(c)
    return any([want["should_be_cavok"]] + [p["should_be_cavok"] for p in want[PERIODS[c["cls"]]]])


STAGES = [
    Enum("conditions", conditions, test, "15 visibilities x 6 weathers x 39 skies, each in a section (thorough: in all); the call is repeated"),
    Enum("bases", bases, test, "every cloud base"),
    Prop("near", near, near_test, "random groups that nearly allow CAVOK; non-trivial: it is true somewhere", 1600, 60000),
    Prop("reports", lambda: gen.st.one_of(gen.report_case(), chaos.mutant_case(dated=True)), test, "random reports; non-trivial: it is true somewhere", 800, 40000),
    Prop("company", lambda: gen.company_case(clear=True), test, "METARs and TAFs of groups at the limits of the rules, each there or not, mostly in good weather; non-trivial: it is true somewhere", 1200, 40000),
]
