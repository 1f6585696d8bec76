from .common import *
from .. import tables as T

WHERE = {
    "metar": {
        "TYPE": "type_", "STATION": "station", "TIME": "time", "MODIFIER": "modifier", "WIND": "wind", "WINDVAR": "wind_variation",
        "VIS": "prevailing_visibility", "MINVIS": "minimum_visibility", "RVR": "runway_ranges", "WX": "weathers", "CLOUD": "clouds",
        "TEMPS": "temperatures", "PRESSURE": "pressure", "RECENT": "recent_weather", "WINDSHEAR": "windshears", "SEA": "sea_state",
        "RWYSTATE": "runway_state",
    },
    "taf": {
        "TYPE": "type_", "AMD_COR": "modifier", "STATION": "station", "TIME": "time", "NIL": "missing", "VALID": "valid",
        "CANCELLED": "cancelled", "TAFWIND": "wind", "TAFVIS": "prevailing_visibility", "WX": "weathers", "CLOUD": "clouds",
    },
}
LISTS = ("runway_ranges", "weathers", "clouds", "windshears", "max_temperatures", "min_temperatures")


def shown(kind, text):
    if kind == "WINDSHEAR":
        return text.replace("WS RWY", "WS R")
    return text


def codes(cls, body):
    """The code which each attribute must have: constructed from the list of groups."""
    want = {n: [] if n in LISTS else None for n in WHERE[cls].values()}
    if cls == "taf":
        want["max_temperatures"], want["min_temperatures"] = [], []
    want["type_"] = {"metar": "METAR", "taf": "TAF"}[cls]
    for kind, text in body:
        if kind == "TAF_TEMP":
            name = "max_temperatures" if text.startswith("TX") else "min_temperatures"
        else:
            name = WHERE[cls][kind]
        if name in LISTS:
            want[name].append(shown(kind, text))
        else:
            want[name] = shown(kind, text)
    return want


def period_codes(cls, groups):
    """Constructed from the groups of a trend or change, in the order of the generators."""
    w = {"wind": None, "prevailing_visibility": None, "weathers": [], "clouds": []}
    ind = groups[0]
    rest = groups[1:]
    while rest and (cls == "metar" and rest[0][:2] in ("FM", "TL", "AT") or cls == "taf" and not ind.startswith("FM") and ref.recognise("VALID", rest[0])):
        ind += " " + rest[0]
        rest = rest[1:]
        if cls == "taf":
            break
    w["indicator"] = ind
    for g in rest:
        if g.endswith(("KT", "MPS")):
            w["wind"] = g
        elif g == "CAVOK" or g[:4].isdigit() or g.endswith(("SM", "KM")) or g.startswith("////") and len(g) <= 6 and not g.startswith("//////"):
            w["prevailing_visibility"] = g
        elif ref.recognise("CLOUD", g):
            w["clouds"].append(g)
        else:
            w["weathers"].append(g)
    return w


def test(ctx, case):
    cls = case["cls"]
    r = sut.reading(case)
    if r["unparsed_groups"]:
        fail(f"{r['unparsed_groups']} of {case['text']!r} is left unparsed")
    for name, code in codes(cls, case["body"]).items():
        got = [g["code"] for g in r[name]] if isinstance(code, list) else r[name]["code"]
        if got != code:
            fail(f"{name} of {case['text']!r} should have the code {code!r} but has {got!r}")
    # Absent groups read as absent.
    blank = {"wind": ref.d_wind(), "prevailing_visibility": ref.d_vis(), "modifier": ref.d_modifier(), "station": ref.d_station()}
    if cls == "metar":
        blank.update(wind_variation=ref.d_windvar(), minimum_visibility=ref.d_minvis(), temperatures=ref.d_temps(),
                     pressure=ref.d_pressure(), recent_weather=ref.d_recent(), sea_state=ref.d_sea(), runway_state=ref.d_rwystate())
    else:
        blank.update(missing=ref.d_missing(), cancelled=ref.d_cancelled())
    n_absent = 0
    for name, b in blank.items():
        if r[name]["code"] is None:
            n_absent += 1
            check_diff(b, r[name], f"absent {name} of {case['text']!r}")
    given = case["trends"] if cls == "metar" else case["changes"]
    periods = r[PERIODS[cls]]
    if len(periods) != len(given):
        fail(f"{len(periods)} periods of {case['text']!r}, should be {len(given)}")
    for p, g in zip(periods, given):
        w = period_codes(cls, g)
        i = p["trend_indicator" if cls == "metar" else "change_indicator"]
        got = {"indicator": i["code"], "wind": p["wind"]["code"], "prevailing_visibility": p["prevailing_visibility"]["code"],
               "weathers": [x["code"] for x in p["weathers"]], "clouds": [x["code"] for x in p["clouds"]]}
        check_diff(w, got, f"period {' '.join(g)!r} of {case['text']!r}")
        if p["wind"]["code"] is None:
            check_diff(ref.d_wind(), p["wind"], "absent wind")
        if p["prevailing_visibility"]["code"] is None:
            check_diff(ref.d_vis(), p["prevailing_visibility"], "absent visibility")
    ctx.label(f"{len(case['body'])} groups in the body")
    return len(case["body"]) > 3


SAMPLE = {
    "MODIFIER": "AUTO", "WIND": "27010KT", "WINDVAR": "240V300", "VIS": "5000", "MINVIS": "1200S", "RVR": "R07/1000", "WX": "-RA",
    "CLOUD": "BKN015", "TEMPS": "10/M05", "PRESSURE": "Q1013", "RECENT": "RERA", "WINDSHEAR": "WS R07", "SEA": "W15/S4",
    "RWYSTATE": "R07/290155",
}
MORE = {"RVR": ["R07/1000", "R25L/M0050", "R33/P2000"], "WX": ["-RA", "BR", "VCTS"], "CLOUD": ["FEW005", "SCT010CB", "BKN020", "OVC///"],
        "PRESSURE": ["Q1013", "A2992"], "WINDSHEAR": ["WS R07", "WS RWY25R", "WS R33"]}


def subsets(tier):
    """Every subset of the optional groups of a METAR, single and at their limits."""
    kinds = list(SAMPLE)
    head = [["TYPE", "METAR"], ["STATION", "PADK"], ["TIME", "151230Z"]]
    for mask in range(1 << len(kinds)):
        for full in (False, True):
            if tier != "thorough" and (mask * 2 + full) % 5 != SEED % 5:
                continue
            body = list(head)
            for i, k in enumerate(kinds):
                if mask >> i & 1:
                    if k == "MINVIS" and not mask >> (i - 1) & 1:
                        continue
                    for g in MORE.get(k, [SAMPLE[k]]) if full else [SAMPLE[k]]:
                        body.append([k, g])
            tr = [["TEMPO", "FM1300", "9999", "NSC"]] if full else [["NOSIG"]] if mask & 1 else []
            yield {"cls": "metar", "text": gen.assemble_metar(body, tr), "year": YEAR, "month": MONTH, "body": body, "trends": tr}


def taf_subsets(tier):
    opt = [("AMD_COR", ["AMD"]), ("VALID", ["1512/1612"]), ("TAFWIND", ["27010KT"]), ("TAFVIS", ["5000"]), ("WX", ["-RA"]), ("WX", ["BR", "VCTS"]),
           ("CLOUD", ["FEW005"]), ("CLOUD", ["SCT010CB", "BKN020", "OVC030"]), ("TAF_TEMP", ["TX10/1515Z"]), ("TAF_TEMP", ["TNM01/1606Z"]),
           ("TAF_TEMP", ["TX12/1612Z", "TN00/1518Z"])]
    ch = [["FM151400", "27010KT", "9999", "-RA", "BKN010"], ["BECMG", "1514/1516", "CAVOK"], ["TEMPO", "1514/1516", "1 1/2SM", "TS"],
          ["PROB30", "1514/1516", "FG", "VV001"], ["PROB40 TEMPO", "1514/1516", "VRB15G30KT"]]
    for mask in range(1 << len(opt)):
        body = [["TYPE", "TAF"]]
        if mask & 1:
            body.append(["AMD_COR", "AMD"])
        body += [["STATION", "PADK"], ["TIME", "151130Z"]]
        for i, (k, gs) in enumerate(opt):
            if i and mask >> i & 1:
                body += [[k, g] for g in gs]
        changes = [ch[(mask + j) % 5] for j in range(mask % 9)]
        yield {"cls": "taf", "text": gen.assemble_taf(body, changes), "year": YEAR, "month": MONTH, "body": body, "changes": changes}


STAGES = [
    Enum("METAR subsets", subsets, test, "every subset of the 14 optional groups of a METAR, single and repeated up to the limit "
         "(quick: a fifth of them); non-trivial: more than three groups"),
    Enum("TAF subsets", taf_subsets, test, "every subset of the optional groups of a TAF with up to eight changes", exhaustive=True),
    Prop("reports", lambda: gen.report_case(), test, "random well-formed reports: codes of every attribute from the construction", 2400, 80000),
]
