"""Code tables and physical constants of the oracle.

Written down from the WMO code forms and the project's documentation; nothing here is
imported from the code under test.
"""

TYPES = {
    "METAR": "Meteorological Aerodrome Report",
    "SPECI": "Special Aerodrome Report",
    "TAF": "Terminal Aerodrome Forecast",
}

MODIFIERS = {
    "COR": "Correction",
    "CORR": "Correction",
    "AMD": "Amendment",
    "NIL": "Missing report",
    "AUTO": "Automatic report",
    "TEST": "Testing report",
    "FINO": "Missing report",
}

INTENSITY = {
    "-": "light",
    "+": "heavy",
    "-VC": "nearby light",
    "+VC": "nearby heavy",
    "VC": "nearby",
}

DESCRIPTOR = {
    "MI": "shallow",
    "PR": "partial",
    "BC": "patches of",
    "DR": "low drifting",
    "BL": "blowing",
    "SH": "showers",
    "TS": "thunderstorm",
    "FZ": "freezing",
}

PRECIPITATION = {
    "DZ": "drizzle",
    "RA": "rain",
    "SN": "snow",
    "SG": "snow grains",
    "IC": "ice crystals",
    "PL": "ice pellets",
    "GR": "hail",
    "GS": "snow pellets",
    "UP": "unknown precipitation",
}

OBSCURATION = {
    "BR": "mist",
    "FG": "fog",
    "FU": "smoke",
    "VA": "volcanic ash",
    "DU": "dust",
    "SA": "sand",
    "HZ": "haze",
    "PY": "spray",
}

OTHER = {
    "PO": "sand whirls",
    "SQ": "squalls",
    "FC": "funnel cloud",
    "SS": "sandstorm",
    "DS": "dust storm",
    "NSW": "nil significant weather",
}

# The phenomena a recent-weather group may carry.
RECENT_OBSCURATION = [k for k in OBSCURATION if k != "FU"]
RECENT_OTHER = [k for k in OTHER if k != "NSW"]

COVER = {
    "SKC": "clear",
    "CLR": "clear",
    "NSC": "clear",
    "NCD": "clear",
    "FEW": "a few",
    "SCT": "scattered",
    "BKN": "broken",
    "OVC": "overcast",
    "0VC": "overcast",
    "///": "undefined",
    "VV": "indefinite ceiling",
}

OKTAS = {
    "SKC": "undefined",
    "CLR": "undefined",
    "NSC": "not specified",
    "NCD": "not specified",
    "FEW": "1-2",
    "SCT": "3-4",
    "BKN": "5-7",
    "OVC": "8",
    "0VC": "8",
    "///": "undefined",
    "VV": "undefined",
}

CLOUD_TYPE = {"CB": "cumulonimbus", "TCU": "towering cumulus"}

RUNWAY_SIDE = {"R": "right", "L": "left", "C": "center"}
RVR_LIMIT = {"M": "below of", "P": "above of"}
RVR_TENDENCY = {"N": "no change", "U": "increasing", "D": "decreasing"}

# WMO 0919
DEPOSIT = {
    "0": "clear and dry",
    "1": "damp",
    "2": "wet and water patches",
    "3": "rime and frost covered (depth normally less than 1 mm)",
    "4": "dry snow",
    "5": "wet snow",
    "6": "slush",
    "7": "ice",
    "8": "compacted or rolled snow",
    "9": "frozen ruts or ridges",
    "/": "type of deposit not reported (e.g. due to runway clearance in progress)",
}

# WMO 0519
CONTAMINATION = {
    "1": "less than 10% of runway",
    "2": "11%-25% of runway",
    "3": "reserved",
    "4": "reserved",
    "5": "26%-50% of runway",
    "6": "reserved",
    "7": "reserved",
    "8": "reserved",
    "9": "51%-100% of runway",
    "/": "not reported",
}

# WMO 1079 (01 to 90: the depth in mm)
DEPTH = {
    "00": "less than 1 mm",
    "91": "reserved",
    "92": "10 cm",
    "93": "15 cm",
    "94": "20 cm",
    "95": "25 cm",
    "96": "30 cm",
    "97": "35 cm",
    "98": "40 cm or more",
    "99": "runway(s) non-operational due to snow, slush, ice, large drifts or runway clearance, but depth not reported",
    "//": "depth of deposit operationally not significant or not measurable",
}
for _n in range(1, 91):
    DEPTH[f"{_n:02d}"] = f"{_n} mm"

# WMO 0366 (00 to 90: the friction coefficient in hundredths)
FRICTION = {
    "91": "breaking action poor",
    "92": "breaking action medium/poor",
    "93": "breaking action medium",
    "94": "breaking action medium/good",
    "95": "breaking action good",
    "96": "reserved",
    "97": "reserved",
    "98": "reserved",
    "99": "breaking action unreliable",
    "//": "breaking conditions not reported and/or runway not operational",
}
for _n in range(0, 91):
    FRICTION[f"{_n:02d}"] = f"0.{_n:02d}"

# WMO 3700
SEA_STATE = {
    "0": "calm (glassy)",
    "1": "calm (rippled)",
    "2": "smooth (wavelets)",
    "3": "slight",
    "4": "moderate",
    "5": "rough",
    "6": "very rough",
    "7": "high",
    "8": "very high",
    "9": "phenomenal",
}

INDICATORS = {
    "NOSIG": "no significant changes",
    "BECMG": "becoming",
    "TEMPO": "temporary",
    "PROB30": "probability 30%",
    "PROB40": "probability 40%",
    "PROB30 TEMPO": "probability 30% temporary",
    "PROB40 TEMPO": "probability 40% temporary",
}

CARDINALS = [
    "N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE",
    "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW",
]
COMPASS8 = {
    "N": 360.0, "NE": 45.0, "E": 90.0, "SE": 135.0,
    "S": 180.0, "SW": 225.0, "W": 270.0, "NW": 315.0,
}

FT = 0.3048            # m
NM = 1852.0            # m
MI = 1609.344          # m
INCH = 0.0254          # m
KT = 1852.0 / 3600.0   # m/s
INHG = 33.863886666667  # hPa
ATM = 1013.25          # hPa
