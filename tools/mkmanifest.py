"""Writes MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "random unit pairs against an independent exact table of units; identity, inverse and path-independence laws",
    "C02": "random pairs of units against an independent model of dimensions and substances; spelling equivalence",
    "C03": "every table entry in every form (enumerated) and random compositions against the metric table parsed independently",
    "C04": "random instants in all representations against own calendar arithmetic",
    "C05": "random starts, periods and lengths against integer arithmetic",
    "C06": "random grids and values against exact rational interpolation; identity, round-trip and linearity laws",
    "C07": "random intervals and values against exact rational integrals; coarsening, splitting and linearity laws",
    "C08": "random grids around the boundary of the source against the acceptance rule",
    "C09": "model-based random histories of views and writes (scalar, generic)",
    "C10": "model-based random histories of timeseries views, handles, element writes and locks",
    "C11": "model-based random histories on parameter trees against sums over leaves",
    "C12": "model-based random histories mixing legal and illegal operations; refused ones must leave no trace",
    "C13": "random writer, storage and reader views against exact unit and time conversion",
    "C14": "random model inputs against an independent implementation of the equations",
    "C15": "carbon balance on random inputs; model-based histories of run, reset, step and input changes",
    "C16": "metamorphic: the same input in other units, grids, containers and orders against one reference",
    "C17": "the same random table through every constructor and layout against a plain record model",
    "C18": "model-based random sequences of dataframe operations against a plain table of records",
    "C19": "random metadata and patterns against an independent matcher",
    "C20": "random times and filters against own calendar arithmetic",
    "C21": "random frames and appends against a record model; order and grouping laws",
    "C22": "random conversions of selected series against the independent unit model, failures included",
    "C23": "random frames against per-series exact conversion",
    "C24": "random rules and ranges against independently computed calendar points",
    "C25": "random groups against exact statistics computed per group",
    "C26": "random operations with deep snapshots of inputs; in-place against returning variants",
    "C27": "round trip through files of random frames",
    "C28": "round trips and record model between dataframes and parameter sets",
    "C29": "random assignments and renamings against a record model",
    "C30": "random and grammar-generated names and units against the documented rule",
    "C31": "round trip and record model through pyam",
    "C33": "random histories of calls and model errors on recording adapters against a model of the protocol",
    "C34": "metamorphic relations (order, names, company, calendar cycle, scale) over random histories of operations",
    "C32": "shipped files parsed independently (enumerated), random selections",
}
NOTE = ("Random generated-input search with shrinking against an independent oracle, seeded "
        "by VERIF_SEED; no proof: what is not generated is not covered. ")
TRUST = "Trusts numpy, pandas, pint, scipy and Hypothesis as installed."


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, rest = [], []
    for p in props:
        pid = p["id"]
        if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
            cmd = "/opt/venv/bin/python run.py %s --tier %s"
            checks.append({
                "property": pid, "quick_cmd": cmd % (pid, "quick"),
                "thorough_cmd": cmd % (pid, "thorough"),
                "evidence_file": "evidence/%s.json" % pid,
                "technique": "property-based testing: " + TECH[pid],
                "level": "exploration", "level_note": NOTE + TRUST,
            })
        else:
            rest.append({"property": pid, "reason": "not claimed: its check is not built yet"})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python run.py setup", "checks": checks,
         "not_applicable": rest,
         "notes": "No hooks: every check uses the public interface only. Repairs in /repo are "
                  "commits starting with 'fix:'; see known_findings.txt and DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
