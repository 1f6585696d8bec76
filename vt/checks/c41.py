"""Quantities and unit conversions used by themselves."""
import json
import math

from .common import *
from .. import tables as T
from .c15 import FAMILIES, FT, INCH, MI, NM

from aeromet_py.reports.models.base import Direction, Distance, Pressure, Speed, Temperature
from aeromet_py.utils import Conversions

st = gen.st

KINDS = {
    "distance": (Distance, {u: "in_" + u for u in FAMILIES["distance"]}, "distance"),
    "pressure": (Pressure, {u: "in_" + u for u in FAMILIES["pressure"]}, "pressure"),
    "temperature": (Temperature, {u: "in_" + u for u in FAMILIES["temperature"]}, "temperature"),
    "direction": (Direction, {u: u for u in FAMILIES["angle"]}, "angle"),
    "speed": (Speed, {u: u for u in FAMILIES["speed"]}, "speed"),
}
SUFFIX = {"distance": " m", "pressure": " hPa", "temperature": "\u00b0C", "direction": "\u00b0", "speed": " kt"}
DICT = {"distance": ("meters", "distance"), "pressure": ("hectopascals", "pressure"), "temperature": ("celsius", "temperature"),
        "direction": ("degrees", "direction"), "speed": ("knot", "speed")}
UNKNOWN = {"distance": [None, "////", "//", "None"], "pressure": [None, "////", "None"], "temperature": [None, "//", "///", "XX", "MM"],
           "direction": [None, "//", "///", "VRB"], "speed": [None, "//", "///"]}

LENGTH = {"FT": FT, "M": 1.0, "KM": 1000.0, "SMI": NM, "DM": 0.1, "CM": 0.01, "IN": INCH}
SPEED = {"KNOT": NM / 3600, "MPS": 1.0, "KPH": 1 / 3.6, "MIPH": MI / 3600}
PRESSURE = {"HPA": 1.0, "INHG": 33.8638866667, "BAR": 1000.0, "MBAR": 1.0, "ATM": 1013.25}
ANGLE = {"DEGREES": 1.0, "RADIANS": 180 / math.pi, "GRADIANS": 0.9}
UNITS = {}
for _f in (LENGTH, SPEED, PRESSURE, ANGLE):
    for _a in _f:
        for _b in _f:
            if _a != _b:
                UNITS[f"{_a}_TO_{_b}"] = _f[_a] / _f[_b]
# Scales as (value of the ice point, degrees per kelvin).
SCALES = {"celsius": (0.0, 1.0), "kelvin": (273.15, 1.0), "fahrenheit": (32.0, 1.8), "rankine": (491.67, 1.8)}
PAIRS = [("celsius", o) for o in SCALES if o != "celsius"] + [(o, "celsius") for o in SCALES if o != "celsius"]


def close(a, b, size=0.0):
    return abs(a - b) <= max(1e-9, 1e-5 * max(abs(a), abs(b), size))


# ---------------------------------------------------------------- conversions


def factors(tier):
    for name in UNITS:
        if hasattr(Conversions, name):
            yield {"factor": name}


def factors_test(ctx, case):
    name = case["factor"]
    got, want = getattr(Conversions, name), UNITS[name]
    if not close(got, want, want) or abs(got / want - 1) > 1e-5:
        fail(f"{name} is {got!r}, should be {want!r}")
    a, b = name.split("_TO_")
    back = getattr(Conversions, f"{b}_TO_{a}", None)
    if back is not None and abs(got * back - 1) > 1e-12:
        fail(f"{name} x {b}_TO_{a} is {got * back!r}")
    return True


def scales():
    return st.fixed_dictionaries({"value": st.one_of(st.floats(-500, 5000), st.integers(-100, 100).map(float), st.floats(-1e9, 1e9)),
                                  "pair": gen.one(PAIRS).map(list)})


def scales_test(ctx, case):
    v, (a, b) = case["value"], case["pair"]
    got = getattr(Conversions, f"{a}_to_{b}")(v)
    (za, ka), (zb, kb) = SCALES[a], SCALES[b]
    want = (v - za) / ka * kb + zb
    if abs(got - want) > 1e-9 * max(1000.0, abs(v)):
        fail(f"{a}_to_{b}({v!r}) is {got!r}, should be {want!r}")
    back = getattr(Conversions, f"{b}_to_{a}")(got)
    if abs(back - v) > 1e-9 * max(1000.0, abs(v)):
        fail(f"{v!r} {a} to {b} and back is {back!r}")
    return True


# ---------------------------------------------------------------- quantities


def code_of(kind):
    if kind == "distance":
        return st.one_of(st.integers(0, 9999).map("{:04d}".format), st.integers(0, 99999).map(str), st.floats(0, 100000).map(lambda x: f"{x:.10f}"))
    if kind == "pressure":
        return st.one_of(st.integers(0, 9999).map("{:04d}".format), st.floats(0, 1200).map("{:.6f}".format))
    if kind == "temperature":
        return st.tuples(gen.one(["", "-"]), st.one_of(st.integers(0, 99).map("{:02d}".format), st.integers(0, 999).map("{:03d}".format))).map("".join)
    if kind == "direction":
        return st.one_of(st.integers(0, 36).map("{:02d}".format), st.integers(0, 360).map("{:03d}".format))
    return st.one_of(st.integers(0, 99).map("{:02d}".format), st.integers(0, 999).map("{:03d}".format), st.floats(0, 400).map("{:.6f}".format))


def value_of(kind, code):
    if code in UNKNOWN[kind]:
        return None
    if kind == "distance" and code == "9999":
        return 10000.0
    v = float(code)
    if kind == "temperature":
        return v / 10 if len(code.lstrip("-")) == 3 else v
    if kind == "direction":
        return v * 10 if len(code) == 2 else v
    return v


def quantities():
    return gen.one(list(KINDS)).flatmap(lambda k: st.fixed_dictionaries({
        "kind": st.just(k), "code": st.one_of(code_of(k), code_of(k), code_of(k), gen.one(UNKNOWN[k])), "factor": st.floats(0.001, 1000)}))


def quantity_test(ctx, case):
    kind, code = case["kind"], case["code"]
    cls, views, family = KINDS[kind]
    q = cls(code)
    v = value_of(kind, code)
    what = f"{cls.__name__}({code!r})"
    for round_ in range(2):
        if (q.value is None) != (v is None) or v is not None and not close(q.value, v):
            fail(f"{what}.value is {q.value!r}, should be {v!r}")
        for unit, name in views.items():
            got = getattr(q, name)
            if v is None:
                if got is not None:
                    fail(f"{what}.{name} is {got!r}, should be None")
                continue
            k, c = FAMILIES[family][unit]
            if got is None or not close(got, v * k + c, abs(v * k) + abs(c)):
                fail(f"{what}.{name} is {got!r}, should be {v * k + c!r}")
        f = case["factor"]
        for got, want, how in (
            (q.converted(f), None if v is None else v * f, f"converted({f!r})"),
            (q.converted(factor=f, conversion=lambda x: x + 1), None if v is None else v * f, "converted() by factor and function"),
            (q.converted(conversion=lambda x: x * f + 1), None if v is None else v * f + 1, "converted() by a function"),
            (q.converted(), None, "converted()"),
        ):
            if (got is None) != (want is None) or want is not None and not close(got, want, abs(want)):
                fail(f"{what}.{how} is {got!r}, should be {want!r}")
        d = q.as_dict()
        units, name = DICT[kind]
        if d["units"] != units or (d[name] is None) != (v is None) or v is not None and not close(d[name], v):
            fail(f"{what}.as_dict() is {d!r}")
        if json.loads(q.to_json()) != json.loads(json.dumps(d)):
            fail(f"{what}.to_json() is {q.to_json()!r}")
        text = "variable wind" if code == "VRB" else "" if v is None else f"{v:.1f}" + SUFFIX[kind]
        if str(q) != text and not (v is not None and str(q).endswith(SUFFIX[kind]) and abs(float(str(q)[:-len(SUFFIX[kind])]) - v) < 0.0501):
            fail(f"text of {what} is {str(q)!r}, should be {text!r}")
    if kind == "direction":
        want = ref.cardinal(v)
        if q.cardinal != want or d["cardinal"] != want:
            fail(f"{what}.cardinal is {q.cardinal!r}, should be {want!r}")
        if q.variable is not (code == "VRB") or d["variable"] is not (code == "VRB"):
            fail(f"{what}.variable is {q.variable!r}")
    ctx.label(kind + (" unknown" if v is None else ""))
    return v is not None


def directions(tier):
    for d in range(361):
        yield {"kind": "direction", "code": f"{d:03d}", "factor": 2.0}
    for d in range(37):
        yield {"kind": "direction", "code": f"{d:02d}", "factor": 2.0}
    for k in KINDS:
        for c in UNKNOWN[k]:
            yield {"kind": k, "code": c, "factor": 2.0}
    for t in range(1000):
        yield {"kind": "temperature", "code": f"{'-' if t % 2 else ''}{t:03d}", "factor": 0.5}
        yield {"kind": "speed", "code": f"{t:03d}", "factor": 0.5}
    for t in range(10000):
        yield {"kind": "distance" if t % 3 else "pressure", "code": f"{t:04d}", "factor": 0.5}


def points(tier):
    names = list(T.CARDINALS)
    for n in names + ["", "n", "NN", "NSE", "X", "VRB", "NNEE", "North", "ESW", "/"]:
        yield {"point": n}


def points_test(ctx, case):
    n = case["point"]
    try:
        d = Direction.from_cardinal(n)
    except ValueError:
        if n in T.CARDINALS:
            fail(f"from_cardinal({n!r}) raises ValueError")
        return True
    if n not in T.CARDINALS:
        fail(f"from_cardinal({n!r}) gives {d.in_degrees!r}")
    want = T.CARDINALS.index(n) * 22.5 or 360.0
    if d.cardinal != n or abs(d.in_degrees - want) > 0.51 or d.variable:
        fail(f"from_cardinal({n!r}) gives {d.in_degrees!r}, {d.cardinal!r}")
    return True


STAGES = [
    Enum("factors", factors, factors_test, "every conversion factor against the definition of the units, and its inverse; every factor counts", exhaustive=True),
    Prop("scales", scales, scales_test, "conversions between the temperature scales, there and back; every case counts", 2400, 40000),
    Enum("codes", directions, quantity_test, "every whole direction, temperature, speed and every four-digit distance or pressure; non-trivial: a known quantity"),
    Prop("quantities", quantities, quantity_test, "random codes of each quantity, whole, decimal and unknown; non-trivial: a known quantity", 4000, 60000),
    Enum("points", points, points_test, "the sixteen compass points and other words; every word counts", exhaustive=True),
]
