"""Writes /verif/MANIFEST.json from the properties and the notes below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = "Trusts the reference parser and code tables of /verif/vt (written independently of the code) and the public attributes through which it observes."
NOTES = {
 "C01": ("property-based testing and coverage-guided fuzzing (hypothesis, enumeration, atheris in the thorough tier): no exception on any text", "Random search over wild texts; no proof of totality. Years 1900 to 2100."),
 "C02": ("property-based testing: strict against default mode, metamorphic", "Random and enumerated texts; the default mode's unparsed groups are the oracle, themselves decided by C03 and C25."),
 "C03": ("property-based testing: conservation of words between text and report", "Random texts; counts words of all sections against all decoded and unparsed groups."),
 "C04": ("property-based testing: partition invariants and reference splitter", TRUST),
 "C05": ("property-based testing: metamorphic re-layout", "Random reports x random layouts, compared report to report; no oracle but the code itself is needed."),
 "C06": ("combinatorial and property-based testing of presence patterns against the constructed groups", TRUST),
 "C07": ("exhaustive enumeration of stations and property-based testing of headers against a snapshot and constructed instants", "All ICAO codes of a snapshot of the database; sampled dates. " + TRUST),
 "C08": ("enumeration and property-based testing of winds against a reference decoder", TRUST),
 "C09": ("enumeration and property-based testing of visibilities against a reference decoder", TRUST),
 "C10": ("exhaustive enumeration and property-based testing of weather codes against reference tables", TRUST),
 "C11": ("enumeration and property-based testing of clouds and the ceiling rule against a reference", TRUST),
 "C12": ("enumeration and property-based testing of temperatures and pressures against a reference decoder", TRUST),
 "C13": ("enumeration and property-based testing of RVR and wind shear against a reference decoder", TRUST),
 "C14": ("enumeration and property-based testing of runway and sea state against reference code tables", TRUST),
 "C15": ("property-based testing: invariants between unit views", "The conversion factors are ours; every quantity of random and enumerated reports."),
 "C16": ("enumeration at the limits and property-based testing: reference rule and monotonicity", TRUST),
 "C17": ("enumeration at the limits and property-based testing: reference rule and repeated calls", TRUST),
 "C18": ("property-based testing of trend times against constructed instants", "Report times x offsets of the two-hour window (thorough: exhaustive for one group on three dates)."),
 "C19": ("property-based testing of validity and temperature dates against constructed instants and a reference", TRUST),
 "C20": ("property-based testing of change sequences against constructed periods and a reference", TRUST),
 "C21": ("property-based testing: dictionary and JSON against the attributes, round-trip", "The mapping from attributes to entries is ours; values come from the attributes of the same report."),
 "C22": ("stateful property-based testing against readings in pristine processes", "Random histories of up to some 25 operations; single-threaded."),
 "C23": ("stateful and property-based testing of lists against a sequence model", TRUST),
 "C24": ("metamorphic property-based testing: insertion of unrecognisable groups", "What is unrecognisable is decided by the reference recognisers."),
 "C25": ("enumeration of one-character edits and property-based testing against reference recognisers", TRUST),
 "C26": ("enumeration and property-based testing of group orders against a reference placement rule", TRUST),
 "C27": ("metamorphic property-based testing: the same groups in fourteen sections", "Compares the code with itself across sections."),
 "C28": ("property-based testing under a set clock (libfaketime) against a reference", "Where libfaketime is missing, the standard library's clocks are replaced instead. " + TRUST),
 "C29": ("property-based testing: texts against the attributes", "The formats are those of the existing tests' examples; values come from the attributes of the same report."),
 "C30": ("metamorphic property-based testing and enumeration: sections in other company", "Compares the code with itself; the split into sections is the reference's."),
 "C31": ("metamorphic property-based testing and enumeration: one group replaced or removed", "Compares the code with itself; which group is where is the reference's."),
 "C32": ("metamorphic property-based testing and enumeration: reports against themselves cut after a group", "Compares the code with itself."),
 "C34": ("property-based testing of surroundings (flags, environment, directory, process state) x reports, differential between interpreters", "A list of surroundings, combined at random; one Python version."),
 "C35": ("property-based testing with recorded effects (audit events, state compared before and after) and memory growth over long histories", "Sees what the interpreter's audit events and the compared state show; memory by blocks in use."),
 "C36": ("property-based testing and enumeration of adversarial texts against a bound on CPU time and on its growth", "Measured CPU time with wide margins; no proof of complexity."),
 "C37": ("property-based testing: round trip through the decoded codes", "Compares the code with itself; which words join into one group is the reference's."),
 "C38": ("metamorphic property-based testing and enumeration: reports moved in time", "Compares the code with itself."),
 "C39": ("property-based testing: copies and pickles against the report, here and in new interpreters, with changes to either side", "Compares the code with itself; one Python version."),
 "C40": ("exhaustive enumeration and property-based testing of lookups against a snapshot of the table", "The snapshot is ours, taken from the database; the code is trusted to have listed the right stations then."),
 "C41": ("enumeration and property-based testing of quantities and conversions against the definitions of the units", "Tolerance 1e-5 relative, for the rounded factors."),
 "C42": ("property-based testing and enumeration of reports against the types in the documentation", "The types of the values, not the values, which are the other properties' matter."),
 "C33": ("property-based testing of generated thread schedules (line-level interleaving), differential against single-threaded runs", "Switches only between source lines of the package; random schedules, no exhaustive interleaving."),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    t, n = NOTES[i]
    checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                   "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import hypothesis, typing_extensions' && chmod +x run.sh",
     "checks": checks, "not_applicable": [],
     "notes": "Every check reads /repo's working tree directly (pure Python, nothing to build) and observes the public API only; no hooks. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
