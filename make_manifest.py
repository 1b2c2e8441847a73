"""writes MANIFEST.json from properties.jsonl"""
import json
NA = {
    "P33": "depends on floating point SVD / least squares iterations (numpy.linalg, sparse solvers) whose convergence no static argument bounds; the deterministic assembly around them is covered by P03",
    "P34": "a quantitative error bound over images and interpolation; no static argument over the sources bounds it. The exact constraint on the continuous kernels is P06/P09",
}
TECH = {}
RULES = {
    "P27": "effect analysis: no mutation of caller-owned arguments reachable from a public entry point",
    "P28": "effect analysis: who calls process-wide setters or random sources; call-graph reachability from evaluation-mode paths",
    "P29": "dataflow: tensor-valued attributes of modules must be registered as parameter, buffer or submodule",
    "P30": "name/attribute/signature resolution on the abstract interpretation of every constructor and method",
    "P31": "dataflow: every constructor option reaches a check or the summary of a method",
    "P10": "dataflow: memo-table keys determine every input the stored value depends on; plus value-graph comparison of the memoised constructors",
    "P11": "dataflow: fields read by __eq__/__hash__ versus fields that determine behaviour; plus value-graph comparison",
    "P14": "dominance of type checks and tag of the returned value on value-graph summaries",
    "P15": "dominance of supported-nonlinearity checks on value-graph summaries",
}
ALGEBRA = {"P01", "P02", "P04", "P05", "P06", "P07", "P09"}
checks = []
na = []
for l in open("properties.jsonl"):
    d = json.loads(l)
    p = d["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    t = "static analysis (abstract interpretation to hash-consed value graphs, parsed sources only): "
    if p in RULES:
        t += RULES[p]
    else:
        t += "summary of every anchored entry point compared, for all inputs, with the summary of reviewed reference sources"
        if p in ALGEBRA:
            t += "; algebraic laws decided on the extracted terms"
    checks.append({"property": p, "quick_cmd": f"python3 -m e2sa {p}", "thorough_cmd": f"python3 -m e2sa {p} --tier thorough", "technique": t, "level": "other",
                   "level_note": "three-valued static decision over all inputs: HOLDS / VIOLATED / UNDECIDED per obligation; undecided ones are listed in the evidence and never alarm"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
