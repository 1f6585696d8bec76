"""Access to the code under test (public API only)."""
import zlib

from aeromet_py import Metar, Taf  # noqa: F401  (engine.load puts the repository on sys.path)

from . import read as _read

CLASSES = {"metar": Metar, "taf": Taf}


def make(case, truncate=False):
    """The report, its arguments passed by place or by name, the absent ones left out or not."""
    cls, text, year, month = CLASSES[case["cls"]], case["text"], case.get("year"), case.get("month")
    how = zlib.crc32(text.encode("utf-8", "surrogatepass")) % 3
    if how == 0:
        return cls(text, year, month, truncate)
    if how == 1:
        return cls(text, truncate=truncate, month=month, year=year)
    given = {k: v for k, v in (("year", year), ("month", month)) if v is not None}
    if truncate:
        given["truncate"] = True
    return cls(text, **given)


def reading(case, truncate=False):
    return _read.read(make(case, truncate), case["cls"])


def everything(rep, cls):
    """Every reading and every form of a report."""
    from . import forms as _forms

    return {"reading": _read.read(rep, cls), "forms": _forms.forms(rep, cls)}


def full(case, truncate=False):
    return everything(make(case, truncate), case["cls"])
